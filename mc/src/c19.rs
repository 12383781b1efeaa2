//! C19: invocations working on the same storage file at the same time.

use crate::c01::{empty, populated, PRIMARY};
use crate::cases;
use crate::cli::*;
use crate::clix;
use crate::libx;
use crate::model::{self, Model};
use crate::refc;
use crate::refcli::{self, Cmd, Expect};
use crate::util::Ctx;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::UnixStream;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Child, Stdio};

/// An operation a process is about to do.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Point {
    writes: bool,
    name: String,
    path: String,
    path2: String,
}

impl Point {
    fn parse(line: &str) -> Point {
        let mut w = line.split(' ');
        let kind = w.next().unwrap_or("");
        let name = w.next().unwrap_or("").to_string();
        let path = w.next().unwrap_or("").to_string();
        let path2 = w.next().unwrap_or("-").to_string();
        Point { writes: kind == "W", name, path, path2 }
    }
    fn show(&self) -> String {
        format!("{} {}{}", self.name, self.path, if self.path2 == "-" { String::new() } else { format!(" -> {}", self.path2) })
    }
    fn moves(&self) -> bool {
        matches!(self.name.as_str(), "mkdir" | "rename" | "unlink" | "link" | "symlink")
    }
}

/// Whether exchanging two neighbouring operations of different processes could make a difference.
fn dependent(a: &Point, b: &Point) -> bool {
    if a.name == "flock-blocked" || b.name == "flock-blocked" {
        return true;
    }
    // Writing back changes nothing a process can see.
    let silent = |p: &Point| matches!(p.name.as_str(), "fsync" | "fdatasync");
    if silent(a) || silent(b) {
        return false;
    }
    let effective = |p: &Point| p.writes || p.name == "flock";
    if !effective(a) && !effective(b) {
        return false;
    }
    let paths = |p: &Point| -> Vec<String> { [p.path.clone(), p.path2.clone()].into_iter().filter(|p| p != "-").map(|p| p.trim_end_matches('/').replace(" (deleted)", "")).collect() };
    for x in paths(a) {
        for y in paths(b) {
            if x == y {
                return true;
            }
            // Creating, removing and renaming a directory concerns everything below it.
            let below = |d: &str, f: &str| d.is_empty() || d == "." || f.starts_with(&format!("{}/", d));
            if (a.moves() && below(&x, &y)) || (b.moves() && below(&y, &x)) {
                return true;
            }
        }
    }
    false
}

pub struct Setup {
    pub name: String,
    pub start: Model,
    pub commands: Vec<(Cmd, Vec<u8>)>,
    pub same_pid: bool,
    pub file: &'static str,
    pub link: Option<&'static str>,
}

struct Proc {
    child: Child,
    sock: UnixStream,
    pending: Option<Point>,
    /// Had to wait for another process and none has done anything since
    blocked: bool,
    steps: usize,
    /// Version of the file present when it did its first operation
    first: usize,
    last: usize,
    killed: bool,
}

struct Version {
    bytes: Option<Vec<u8>>,
    model: Model,
    /// Process and version its command was applied to
    by: Option<(usize, Vec<usize>)>,
}

enum End {
    Complete,
    /// Continuations were explored already.
    Pruned,
}

/// One execution under complete control.
struct Execution<'a> {
    ctx: &'a Ctx,
    setup: &'a Setup,
    place: Place,
    procs: Vec<Proc>,
    versions: Vec<Version>,
    trace: Vec<String>,
    /// Bytes of another representation of the last version
    current: Option<Vec<u8>>,
    /// Messages for storage files that are damaged (and for missing ones if there is one from the start)
    damage: BTreeSet<String>,
}

fn generic(line: &str) -> String {
    let mut o = String::new();
    for c in line.trim().chars() {
        if !c.is_ascii_digit() {
            o.push(c);
        } else if !o.ends_with('#') {
            o.push('#');
        }
    }
    o
}

/// What the program says about a file like the given one if that isn't complete.
fn damage(ctx: &Ctx, start: &Model) -> BTreeSet<String> {
    static KNOWN: std::sync::Mutex<BTreeMap<bool, BTreeSet<String>>> = std::sync::Mutex::new(BTreeMap::new());
    let mut known = KNOWN.lock().unwrap();
    if let Some(d) = known.get(&start.initialized) {
        return d.clone();
    }
    let text = refc::file_text(&libx::raw_for(&empty()));
    let mut files: Vec<Option<Vec<u8>>> = (0..text.len()).map(|n| Some(text.as_bytes()[..n].to_vec())).collect();
    files.push(Some(format!("{}}}", text).into_bytes()));
    files.push(Some(format!("{}{}", text, text).into_bytes()));
    files.push(Some(vec![0; 100]));
    files.push(Some([&text.as_bytes()[..60], &[0; 40]].concat()));
    if start.initialized {
        files.push(None);
    }
    let mut v = BTreeSet::new();
    let place = Place::new(ctx);
    for f in files {
        place.reset();
        if let Some(bytes) = f {
            std::fs::write(&place.file, bytes).unwrap();
        }
        let res = place.run(ctx, &clix::show("a.com", "n", None).args(), &lines(&[PRIMARY]), &Opts::default());
        v.extend(res.err().lines().map(generic).filter(|l| !l.is_empty()));
    }
    // What is said about any missing password etc. does not count.
    place.write(&libx::raw_for(&empty()));
    for input in [&[PRIMARY][..], &["another pw"], &[]] {
        let res = place.run(ctx, &clix::show("a.com", "n", None).args(), &lines(input), &Opts::default());
        for l in res.err().lines() {
            v.remove(&generic(l));
        }
    }
    known.insert(start.initialized, v.clone());
    v
}

impl<'a> Execution<'a> {
    fn start(ctx: &'a Ctx, setup: &'a Setup) -> Execution<'a> {
        let mut place = Place::new(ctx);
        let case = cases::Case { name: "", start: setup.start.clone(), cmd: setup.commands[0].0.clone(), input: Vec::new(), file: setup.file, link: setup.link, given: None, also: None, mode: None };
        cases::prepare(&mut place, &case);
        let bytes = place.read();
        let mut e = Execution { ctx, setup, versions: vec![Version { bytes: bytes.clone(), model: Model { unlocked: false, ..setup.start.clone() }, by: None }], current: bytes, place, procs: Vec::new(), trace: Vec::new(), damage: damage(ctx, &setup.start) };
        for i in 0..setup.commands.len() {
            let (cmd, input) = &setup.commands[i];
            std::fs::write(e.place.io_path(&format!("in{}", i)), input).unwrap();
            let opts = Opts { seed: Some(100 + i as u64), pid: Some(if setup.same_pid { 4711 } else { 4711 + i as u32 }), ..Default::default() };
            let mut c = e.place.command(ctx, &cmd.args(), &opts);
            c.stdin(Stdio::from(std::fs::File::open(e.place.io_path(&format!("in{}", i))).unwrap()))
                .stdout(Stdio::from(std::fs::File::create(e.place.io_path(&format!("out{}", i))).unwrap()))
                .stderr(Stdio::from(std::fs::File::create(e.place.io_path(&format!("err{}", i))).unwrap()));
            let (ours, theirs) = UnixStream::pair().unwrap();
            let fd = theirs.as_raw_fd();
            c.env("PFPMC_SCHED_FD", fd.to_string());
            unsafe {
                c.pre_exec(move || {
                    libc::fcntl(fd, libc::F_SETFD, 0);
                    Ok(())
                });
            }
            let child = c.spawn().unwrap_or_else(|e| {
                eprintln!("cannot run the program: {}", e);
                std::process::exit(2);
            });
            drop(theirs);
            let mut p = Proc { child, sock: ours, pending: None, blocked: false, steps: 0, first: 0, last: 0, killed: false };
            p.pending = receive(&mut p.sock);
            e.procs.push(p);
        }
        ctx.count("program runs", setup.commands.len() as u64);
        e
    }

    /// Processes which can go on
    fn enabled(&self) -> Vec<(usize, Point)> {
        self.procs.iter().enumerate().filter(|(_, p)| !p.blocked).filter_map(|(i, p)| p.pending.clone().map(|q| (i, self.effective(q)))).collect()
    }

    /// Creating a directory which exists changes nothing. Names via the symbolic link are those of its target.
    fn effective(&self, mut p: Point) -> Point {
        if p.name == "mkdir" && self.place.dir.join(&p.path).is_dir() {
            p.writes = false;
            p.name = "mkdir-existing".into();
        }
        if let Some(link) = self.setup.link {
            for x in [&mut p.path, &mut p.path2] {
                if x == self.setup.file {
                    *x = link.to_string();
                }
            }
        }
        p
    }

    fn step(&mut self, i: usize) -> Result<(), String> {
        let p = &mut self.procs[i];
        if p.steps == 0 {
            p.first = self.versions.len() - 1;
        }
        p.steps += 1;
        if p.steps > 300 {
            return Err("endless sequence of file operations".into());
        }
        self.trace.push(format!("{}: {}", i + 1, p.pending.as_ref().map_or(String::new(), |q| q.show())));
        let _ = p.sock.write_all(b"g");
        p.pending = receive(&mut p.sock);
        let blocked = p.pending.as_ref().map_or(false, |q| q.name == "flock-blocked");
        for q in self.procs.iter_mut() {
            q.blocked = false;
        }
        self.procs[i].blocked = blocked;
        self.ctx.trans(1);
        let result = self.inspect(i);
        if self.procs[i].pending.is_none() {
            self.procs[i].last = self.versions.len() - 1;
        }
        result
    }

    fn kill(&mut self, i: usize) -> Result<(), String> {
        let p = &mut self.procs[i];
        if p.steps == 0 {
            p.first = self.versions.len() - 1;
        }
        self.trace.push(format!("{}: killed before {}", i + 1, p.pending.as_ref().map_or(String::new(), |q| q.show())));
        let _ = p.sock.write_all(b"K");
        p.pending = None;
        p.killed = true;
        p.last = self.versions.len() - 1;
        let mut b = [0];
        let _ = p.sock.read(&mut b);
        for q in self.procs.iter_mut() {
            q.blocked = false;
        }
        self.inspect(i)
    }

    fn expect(&self, i: usize, version: usize) -> Expect {
        let (cmd, input) = &self.setup.commands[i];
        refcli::simulate(&self.versions[version].model, cmd, &mut clix::to_lines(input))
    }

    /// The file has to be as it was or the result of the command on a complete state seen by it.
    fn inspect(&mut self, i: usize) -> Result<(), String> {
        let bytes = self.place.read();
        if bytes == self.current {
            return Ok(());
        }
        let b = bytes.as_ref().ok_or("the storage file disappeared")?;
        let text = std::str::from_utf8(b).map_err(|_| format!("the storage file is damaged, {} bytes", b.len()))?;
        let raw = refc::parse_file(text).map_err(|e| format!("the storage file is damaged ({} bytes): {}", b.len(), e))?;
        let mut reasons = String::new();
        let mut bases = Vec::new();
        let mut model = None;
        for v in self.procs[i].first..self.versions.len() {
            let e = self.expect(i, v);
            let check = refc::open(&raw, &e.after.primary).and_then(|o| {
                if e.ok != Some(true) {
                    return Err("the command should have failed".into());
                }
                refcli::check_content(&o.content, &e).map(|_| o.content)
            });
            match check {
                Ok(content) => {
                    bases.push(v);
                    model = Some(Model { initialized: true, primary: e.after.primary.clone(), unlocked: false, content });
                }
                Err(e) => reasons += &format!("\n  based on version {}: {}", v, e),
            }
        }
        let model = model.ok_or_else(|| format!("the storage file is not the result of command {} on a state it could see{}", i + 1, reasons))?;
        self.versions.push(Version { bytes: bytes.clone(), model, by: Some((i, bases)) });
        self.current = bytes;
        Ok(())
    }

    fn result(&mut self, i: usize) -> Res {
        let status = self.procs[i].child.wait().unwrap();
        Res {
            code: status.code(),
            signal: status.signal(),
            stdout: std::fs::read(self.place.io_path(&format!("out{}", i))).unwrap_or_default(),
            stderr: std::fs::read(self.place.io_path(&format!("err{}", i))).unwrap_or_default(),
            log: Vec::new(),
        }
    }

    /// All processes have ended.
    fn finish(&mut self) -> Result<String, String> {
        let mut outcome = String::new();
        for i in 0..self.procs.len() {
            let res = self.result(i);
            if self.procs[i].killed {
                outcome += "killed ";
                continue;
            }
            res.orderly().map_err(|e| format!("command {}: {}", i + 1, e))?;
            let saved: Vec<usize> = (0..self.versions.len()).filter(|&v| self.versions[v].by.as_ref().map_or(false, |b| b.0 == i)).collect();
            let mut reasons = String::new();
            let mut fine = false;
            for v in self.procs[i].first..=self.procs[i].last {
                let e = self.expect(i, v);
                let check = (|| {
                    refcli::check_result(&res, &e.after, &e)?;
                    let mut before = self.versions[v].model.clone();
                    before.unlocked = false;
                    let mut after = e.after.clone();
                    after.unlocked = false;
                    let must_save = res.ok() && (after != before);
                    match saved.len() {
                        0 if must_save => Err("success was reported but nothing was saved".to_string()),
                        0 => Ok(()),
                        1 if self.versions[saved[0]].by.as_ref().unwrap().1.contains(&v) => Ok(()),
                        1 => Err("saved something else than it reported".into()),
                        n => Err(format!("saved {} times", n)),
                    }
                })();
                match check {
                    Ok(()) => fine = true,
                    Err(e) => reasons += &format!("\n  on version {}: {}", v, e),
                }
            }
            // Failing is acceptable if it has no effect.
            if !fine && !res.ok() {
                if !saved.is_empty() {
                    return Err(format!("command {} reported a failure but changed the storage\n{}", i + 1, res.describe()));
                }
                if res.stderr.is_empty() {
                    return Err(format!("command {} failed without any message\n{}", i + 1, res.describe()));
                }
                let e = Expect { ok: Some(false), shown: refcli::Shown::Any, ..self.expect(i, self.procs[i].first) };
                refcli::check_result(&res, &e.after, &e).map_err(|e| format!("command {}: {}\n{}", i + 1, e, res.describe()))?;
                // The storage is there and complete all the time, it shouldn't be reported to be anything else.
                if res.err().lines().any(|l| self.damage.contains(&generic(l))) {
                    return Err(format!("command {} claims that the storage is missing or damaged\n{}", i + 1, res.describe()));
                }
                fine = true;
                self.ctx.outcome(&format!("failed cleanly because of the other command: {}", res.err().trim()));
            }
            if !fine {
                return Err(format!("command {} did nothing it should have done on a complete state{}\n{}", i + 1, reasons, res.describe()));
            }
            outcome += if res.ok() { "ok " } else { "failed " };
        }
        // A process which was killed may leave its temporary file behind.
        let mut killed = self.procs.iter().filter(|p| p.killed).count();
        let mut allowed: BTreeSet<String> = ["home/".to_string()].into();
        for f in [Some(self.setup.file), self.setup.link].into_iter().flatten() {
            allowed.insert(f.to_string());
            let mut p = std::path::Path::new(f);
            while let Some(q) = p.parent() {
                allowed.insert(format!("{}/", q.display()));
                p = q;
            }
        }
        for (name, _) in self.place.tree() {
            if !allowed.contains(&name) {
                if killed > 0 && !name.ends_with('/') {
                    killed -= 1;
                    continue;
                }
                return Err(format!("unexpected file {} left behind", name));
            }
        }
        if self.setup.link.is_some() && !std::fs::symlink_metadata(&self.place.file).map_or(false, |m| m.file_type().is_symlink()) {
            return Err("the symbolic link is gone".into());
        }
        let order: Vec<String> = self.versions.iter().filter_map(|v| v.by.as_ref()).map(|(i, b)| format!("{} on {:?}", i + 1, b)).collect();
        Ok(format!("{}[{}]", outcome, order.join(", ")))
    }

    fn describe(&self) -> String {
        let commands: Vec<String> = self.setup.commands.iter().enumerate().map(|(i, (c, inp))| format!("{}: {} <{}>", i + 1, c.args().join(" "), String::from_utf8_lossy(inp).replace('\n', "|"))).collect();
        format!(
            "{}{}, start {}\n{}\nschedule:\n  {}\nversions of the file: {}",
            self.setup.name,
            if self.setup.same_pid { " (equal process ids)" } else { "" },
            libx::show(&self.setup.start.content),
            commands.join("\n"),
            self.trace.join("\n  "),
            self.versions.iter().enumerate().map(|(n, v)| format!("\n  {} by {:?}: {}", n, v.by.as_ref().map(|b| b.0 + 1), libx::show(&v.model.content))).collect::<String>()
        )
    }
}

impl Drop for Execution<'_> {
    fn drop(&mut self) {
        for p in self.procs.iter_mut() {
            if !matches!(p.child.try_wait(), Ok(Some(_))) {
                let _ = p.child.kill();
                let _ = p.child.wait();
            }
        }
    }
}

/// The next announcement, None once the process ended.
fn receive(sock: &mut UnixStream) -> Option<Point> {
    let mut line = Vec::new();
    let mut b = [0u8; 4096];
    loop {
        match sock.read(&mut b) {
            Ok(0) => return None,
            Ok(n) => line.extend(&b[..n]),
            Err(e) if e.kind() == std::io::ErrorKind::Interrupted => continue,
            Err(_) => return None,
        }
        if line.ends_with(b"\n") {
            return Some(Point::parse(String::from_utf8_lossy(&line).trim_end_matches('\n')));
        }
    }
}

struct Node {
    enabled: Vec<(usize, Point)>,
    /// Explored from here already, or covered by another order
    sleep: Vec<(usize, Point)>,
    chosen: (usize, Point),
}

#[derive(Clone, Copy, PartialEq)]
pub enum Mode {
    /// One execution for each class of interleavings differing only in the order of independent operations
    Reduced,
    /// All interleavings switching between processes at most so many times while the current one could go on
    Bounded(usize),
    /// The same, one of the processes dying at any operation
    Killing(usize),
}

/// Explores the interleavings, returns the outcomes.
fn explore(ctx: &Ctx, setup: &Setup, mode: Mode) -> BTreeMap<String, u64> {
    let mut outcomes = BTreeMap::new();
    match mode {
        Mode::Reduced => {
            let mut stack: Vec<Node> = Vec::new();
            loop {
                if ctx.stopped() {
                    return outcomes;
                }
                if ctx.out_of_time() {
                    ctx.incomplete(&format!("interleavings of {}", setup.name));
                    return outcomes;
                }
                let mut e = Execution::start(ctx, setup);
                let mut depth = 0;
                let end = loop {
                    let enabled = e.enabled();
                    if enabled.is_empty() {
                        if e.procs.iter().any(|p| p.pending.is_some()) {
                            break Err("all commands wait for each other".to_string());
                        }
                        break Ok(End::Complete);
                    }
                    if depth == stack.len() {
                        let sleep: Vec<(usize, Point)> = match stack.last() {
                            None => Vec::new(),
                            Some(n) => n.sleep.iter().filter(|(i, p)| *i != n.chosen.0 && !dependent(p, &n.chosen.1)).cloned().collect(),
                        };
                        let last = stack.last().map(|n| n.chosen.0);
                        let free: Vec<&(usize, Point)> = enabled.iter().filter(|(i, _)| !sleep.iter().any(|(j, _)| i == j)).collect();
                        let chosen = match free.iter().find(|(i, _)| Some(*i) == last).or(free.first()) {
                            Some(c) => (*c).clone(),
                            None => break Ok(End::Pruned),
                        };
                        stack.push(Node { enabled: enabled.clone(), sleep, chosen });
                    }
                    let chosen = stack[depth].chosen.clone();
                    if !enabled.contains(&chosen) {
                        eprintln!("executions cannot be repeated: {:?} is not among {:?} in {}", chosen, enabled, setup.name);
                        std::process::exit(2);
                    }
                    depth += 1;
                    if let Err(err) = e.step(chosen.0) {
                        break Err(err);
                    }
                };
                let end = end.and_then(|end| match end {
                    End::Complete => e.finish().map(|o| {
                        *outcomes.entry(o).or_insert(0u64) += 1;
                        ctx.trace(1);
                        ctx.eval(1);
                    }),
                    End::Pruned => {
                        ctx.count("executions ended because of equivalence", 1);
                        Ok(())
                    }
                });
                if let Err(err) = end {
                    ctx.violation(&format!("schedule:{}:{}", setup.name, e.trace.join(",")), format!("{}\n{}", e.describe(), err));
                    return outcomes;
                }
                // Continue with another choice as deep as possible.
                loop {
                    let Some(n) = stack.last_mut() else {
                        return outcomes;
                    };
                    let done = n.chosen.clone();
                    n.sleep.push(done);
                    let sleep = n.sleep.clone();
                    if let Some(c) = n.enabled.iter().find(|(i, _)| !sleep.iter().any(|(j, _)| i == j)) {
                        n.chosen = c.clone();
                        break;
                    }
                    stack.pop();
                }
            }
        }
        Mode::Bounded(bound) | Mode::Killing(bound) => {
            let killing = matches!(mode, Mode::Killing(_));
            // Choices at each step as (process, whether killed)
            let mut prefix: Vec<(usize, bool)> = Vec::new();
            loop {
                if ctx.stopped() {
                    return outcomes;
                }
                if ctx.out_of_time() {
                    ctx.incomplete(&format!("interleavings of {}", setup.name));
                    return outcomes;
                }
                let mut e = Execution::start(ctx, setup);
                let mut choices: Vec<(Vec<(usize, bool)>, usize)> = Vec::new();
                let mut last: Option<usize> = None;
                let mut switches = 0;
                let mut killed = false;
                let end = loop {
                    let enabled = e.enabled();
                    if enabled.is_empty() {
                        if e.procs.iter().any(|p| p.pending.is_some()) {
                            break Err("all commands wait for each other".to_string());
                        }
                        break Ok(());
                    }
                    let going_on = last.filter(|l| enabled.iter().any(|(i, _)| i == l));
                    let mut options: Vec<(usize, bool)> = Vec::new();
                    if let Some(l) = going_on {
                        options.push((l, false));
                    }
                    for (i, _) in &enabled {
                        if Some(*i) != going_on && (going_on.is_none() || switches < bound) {
                            options.push((*i, false));
                        }
                    }
                    if killing && !killed {
                        for (i, _) in &enabled {
                            if e.procs[*i].steps > 0 && (going_on.is_none() || going_on == Some(*i)) {
                                options.push((*i, true));
                            }
                        }
                    }
                    let depth = choices.len();
                    let chosen = if depth < prefix.len() { prefix[depth] } else { options[0] };
                    let at = options.iter().position(|o| *o == chosen).unwrap_or_else(|| {
                        eprintln!("executions cannot be repeated in {}", setup.name);
                        std::process::exit(2);
                    });
                    choices.push((options, at));
                    if going_on.map_or(false, |l| l != chosen.0) {
                        switches += 1;
                    }
                    last = Some(chosen.0);
                    let r = if chosen.1 {
                        killed = true;
                        e.kill(chosen.0)
                    } else {
                        e.step(chosen.0)
                    };
                    if let Err(err) = r {
                        break Err(err);
                    }
                };
                match end.and_then(|_| e.finish()) {
                    Ok(o) => {
                        *outcomes.entry(o).or_insert(0u64) += 1;
                        ctx.trace(1);
                        ctx.eval(1);
                    }
                    Err(err) => {
                        ctx.violation(&format!("schedule:{}:{}", setup.name, e.trace.join(",")), format!("{}\n{}", e.describe(), err));
                        return outcomes;
                    }
                }
                loop {
                    let Some((options, at)) = choices.pop() else {
                        return outcomes;
                    };
                    if at + 1 < options.len() {
                        prefix = choices.iter().map(|(o, a)| o[*a]).collect();
                        prefix.push(options[at + 1]);
                        break;
                    }
                }
            }
        }
    }
}

fn with_pw(more: &[&str]) -> Vec<u8> {
    let mut l = vec![PRIMARY];
    l.extend(more);
    lines(&l)
}

/// Commands for both sides, the first ones change the storage.
fn commands() -> Vec<(Cmd, Vec<u8>)> {
    vec![
        (clix::add("x.com", "n", None, Some(20), 8, true), with_pw(&[])),
        (clix::add_stored("b.com", "m", None, true), with_pw(&["stored value"])),
        (clix::remove("b.com", "m", None), with_pw(&[])),
        (clix::notes("a.com", "n", None, true), with_pw(&["other notes"])),
        (clix::alias("d.com", "b.com"), with_pw(&[])),
        (clix::unalias("c.com"), with_pw(&[])),
        (Cmd::SetPrimary { yes: true }, lines(&["another pw", "another pw"])),
        (clix::list(5), with_pw(&[])),
        (clix::show("b.com", "m", None), with_pw(&[])),
        (clix::show_alias("c.com"), with_pw(&[])),
    ]
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let list = commands();
    let mut setups: Vec<(Setup, Mode)> = Vec::new();
    let p = populated();
    let setup = |name: &str, start: &Model, commands: Vec<(Cmd, Vec<u8>)>, same_pid: bool| Setup { name: name.to_string(), start: start.clone(), commands, same_pid, file: "storage.json", link: None };
    let name = |c: &[(Cmd, Vec<u8>)]| c.iter().map(|(c, _)| c.args().join(" ")).collect::<Vec<_>>().join(" || ");
    for i in 0..list.len() {
        for j in i..list.len() {
            let c = vec![list[i].clone(), list[j].clone()];
            setups.push((setup(&name(&c), &p, c.clone(), false), Mode::Reduced));
            if i < 7 {
                setups.push((setup(&name(&c), &p, c.clone(), true), Mode::Reduced));
            }
            // Without relying on independence
            let bound = ctx.pick(if i == j { 1 } else { 0 }, if i == 0 || i == j { 2 } else { 1 });
            if bound > 0 {
                setups.push((setup(&name(&c), &p, c.clone(), i < 7), Mode::Bounded(bound)));
            }
            if i < 7 && (ctx.pick(i == j && i % 3 == 0, true)) {
                setups.push((setup(&name(&c), &p, c, true), Mode::Killing(1)));
            }
        }
    }
    // Other places and states of the file
    let dropping = cases::dropping();
    let special: Vec<(&str, Model, &'static str, Option<&'static str>, Vec<(Cmd, Vec<u8>)>)> = vec![
        ("no storage yet", Model::default(), "storage.json", None, vec![list[6].clone(), list[6].clone()]),
        ("no storage yet, with list", Model::default(), "storage.json", None, vec![list[6].clone(), (clix::list(5), lines(&["another pw"]))]),
        ("no storage yet, with add", Model::default(), "storage.json", None, vec![list[6].clone(), (clix::add("x.com", "n", None, None, 0, true), lines(&["another pw"]))]),
        ("no directory yet", Model::default(), "sub/dir/storage.json", None, vec![list[6].clone(), list[6].clone()]),
        ("linked", p.clone(), "storage.json", Some("real/data.json"), vec![list[0].clone(), list[1].clone()]),
        ("linked, with list", p.clone(), "storage.json", Some("real/data.json"), vec![list[2].clone(), list[7].clone()]),
        ("in a directory", p.clone(), "sub/storage.json", None, vec![list[0].clone(), list[2].clone()]),
        ("empty vault", empty(), "storage.json", None, vec![list[0].clone(), list[1].clone()]),
        ("listing drops sites", dropping.clone(), "storage.json", None, vec![list[7].clone(), list[0].clone()]),
        ("both list and drop sites", dropping, "storage.json", None, vec![list[7].clone(), list[7].clone()]),
        ("large", cases::big(), "storage.json", None, vec![list[0].clone(), list[2].clone()]),
        ("large, with list", cases::big(), "storage.json", None, vec![list[0].clone(), list[7].clone()]),
    ];
    for (what, start, file, link, commands) in special {
        for same_pid in [false, true] {
            setups.push((Setup { name: what.to_string(), start: start.clone(), commands: commands.clone(), same_pid, file, link }, Mode::Reduced));
        }
    }
    // Three at once
    let triples: Vec<[usize; 3]> = ctx.pick(vec![[0, 1, 7]], vec![[0, 1, 2], [0, 1, 7], [2, 6, 8], [0, 0, 0], [1, 3, 4], [5, 6, 7]]);
    for t in &triples {
        let c: Vec<_> = t.iter().map(|&i| list[i].clone()).collect();
        setups.push((setup(&name(&c), &p, c, t[0] == t[1]), Mode::Reduced));
    }
    ctx.count("sets of commands", setups.len() as u64);
    setups.sort_by_key(|(s, m)| std::cmp::Reverse((s.commands.len(), s.same_pid, matches!(m, Mode::Reduced) as u8)));
    let results: std::sync::Mutex<BTreeMap<(String, bool), Vec<(bool, BTreeSet<String>)>>> = Default::default();
    ctx.par(setups.len(), |i| {
        let (setup, mode) = &setups[i];
        let outcomes = explore(&ctx, setup, *mode);
        for o in outcomes.keys() {
            ctx.outcome(o);
        }
        ctx.state(outcomes.len() as u64);
        if ctx.stopped() || ctx.out_of_time() {
            return;
        }
        ctx.sample(|| format!("{}: {:?}", setup.name, outcomes));
        if !matches!(mode, Mode::Killing(_)) {
            results.lock().unwrap().entry((setup.name.clone(), setup.same_pid)).or_default().push((*mode == Mode::Reduced, outcomes.into_keys().collect()));
        }
    });
    shells(&ctx);
    // All results found without the reduction are also found with it.
    let results = results.into_inner().unwrap();
    let mut compared = 0;
    for ((name, _), list) in &results {
        let Some((_, reduced)) = list.iter().find(|(r, _)| *r) else { continue };
        for (_, other) in list.iter().filter(|(r, _)| !*r) {
            compared += 1;
            if !other.is_subset(reduced) {
                eprintln!("the reduction misses outcomes of {}: {:?}", name, other.difference(reduced).collect::<Vec<_>>());
                std::process::exit(2);
            }
        }
    }
    ctx.note(&format!("all interleavings at file-system calls (one per equivalence class, sleep sets) for {} sets of commands; {} of them also enumerated without reduction up to a bound of preemptions, with no outcome the reduced exploration had not found", setups.iter().filter(|s| s.1 == Mode::Reduced).count(), compared));
    ctx.finish(
        "model_checking",
        "All interleavings of the file-system calls of two or three real processes up to exchanging independent neighbouring calls (sleep sets), unreduced up to a bound of preemptions, with the storage file opened by the reference reader after each call",
        &["processes interact through the file system only", "calls on different files are independent, syncing is not visible to other processes", "in a running shell displaying may show the state it has read, changing is checked against the file"],
    )
}

/// A shell session which is told what to do one line at a time.
struct Shell {
    child: Child,
    stdin: std::process::ChildStdin,
    stdout: std::process::ChildStdout,
    errors: std::path::PathBuf,
    errors_seen: usize,
    attempts: usize,
}

impl Shell {
    fn start(ctx: &Ctx, place: &Place) -> Shell {
        let mut c = place.command(ctx, &args(&["shell"]), &Opts { mark: true, seed: Some(7), ..Default::default() });
        let errors = place.io_path("errors");
        c.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::from(std::fs::File::create(&errors).unwrap()));
        let mut child = c.spawn().unwrap_or_else(|e| {
            eprintln!("cannot run the program: {}", e);
            std::process::exit(2);
        });
        ctx.count("program runs", 1);
        let (stdin, stdout) = (child.stdin.take().unwrap(), child.stdout.take().unwrap());
        Shell { child, stdin, stdout, errors, errors_seen: 0, attempts: 0 }
    }

    /// Reads what is displayed until input is expected.
    fn until_input(&mut self) -> Result<String, String> {
        let mut text = Vec::new();
        let mut b = [0u8; 65536];
        loop {
            let mut p = libc::pollfd { fd: self.stdout.as_raw_fd(), events: libc::POLLIN, revents: 0 };
            if unsafe { libc::poll(&mut p, 1, 30_000) } <= 0 {
                return Err(format!("neither goes on nor expects input after {:?}", String::from_utf8_lossy(&text)));
            }
            match self.stdout.read(&mut b) {
                Ok(0) => return Err(format!("ended after {:?}", String::from_utf8_lossy(&text))),
                Ok(n) => text.extend(&b[..n]),
                Err(e) => return Err(format!("no output: {}", e)),
            }
            if text.ends_with(b"\x1e") || refcli::PROMPTS[..5].iter().any(|p| text.ends_with(p.as_bytes())) {
                return Ok(String::from_utf8_lossy(&text).into_owned());
            }
        }
    }

    /// Enters a command and answers its questions. Returns what was displayed and the messages on standard error.
    fn enter(&mut self, line: &str) -> Result<(String, String), String> {
        let mut next = line.to_string();
        let mut shown = String::new();
        loop {
            let _ = self.stdin.write_all(format!("{}\n", next).as_bytes());
            let text = self.until_input()?;
            let asked = refcli::PROMPTS.iter().position(|p| text.trim_end_matches('\u{1e}').ends_with(p));
            shown += text.trim_end_matches('\u{1e}');
            next = match asked {
                Some(0) => {
                    self.attempts += 1;
                    if self.attempts > 20 {
                        return Err("no primary password is accepted".into());
                    }
                    if self.attempts % 2 == 1 { PRIMARY } else { "another pw" }.to_string()
                }
                Some(1) => "stored value".to_string(),
                Some(4) => "other notes".to_string(),
                Some(_) => "y".to_string(),
                None => break,
            };
        }
        let errors = std::fs::read(&self.errors).unwrap_or_default();
        let new = String::from_utf8_lossy(&errors[self.errors_seen.min(errors.len())..]).replace('\u{1e}', "");
        self.errors_seen = errors.len();
        Ok((shown, new))
    }

    fn exit(&mut self) -> Result<(), String> {
        let _ = self.stdin.write_all(b"exit\n");
        let mut rest = Vec::new();
        let _ = self.stdout.read_to_end(&mut rest);
        match self.child.wait() {
            Ok(s) if s.code() == Some(0) => Ok(()),
            s => Err(format!("the shell ended with {:?}", s)),
        }
    }
}

impl Drop for Shell {
    fn drop(&mut self) {
        if !matches!(self.child.try_wait(), Ok(Some(_))) {
            let _ = self.child.kill();
            let _ = self.child.wait();
        }
    }
}

/// A shell is used while other invocations change the storage: no change is lost.
fn shells(ctx: &Ctx) {
    #[derive(Clone)]
    enum Event {
        /// Entered in the shell
        Shell(Option<Cmd>),
        /// Another invocation with its input
        Other(Cmd, Vec<u8>),
    }
    let events: Vec<Event> = vec![
        Event::Shell(Some(clix::add_stored("x.com", "n", None, true))),
        Event::Shell(Some(clix::remove("b.com", "m", None))),
        Event::Shell(Some(clix::notes("a.com", "n", None, true))),
        Event::Shell(Some(clix::alias("d.com", "b.com"))),
        Event::Shell(Some(clix::show("a.com", "n", None))),
        Event::Shell(None),
        Event::Other(clix::add("y.com", "n", None, Some(20), 8, true), with_pw(&[])),
        Event::Other(clix::remove("b.com", "m", None), with_pw(&[])),
        Event::Other(clix::notes("a.com", "n", None, true), with_pw(&["notes from elsewhere"])),
        Event::Other(Cmd::SetPrimary { yes: true }, lines(&["another pw", "another pw"])),
    ];
    let damage = damage(ctx, &populated());
    let depth = ctx.pick(3, 4);
    let n = events.len();
    let total: usize = (1..=depth).map(|d| n.pow(d)).sum();
    ctx.par(total, |mut k| {
        let mut d = 1;
        while k >= n.pow(d) {
            k -= n.pow(d);
            d += 1;
        }
        let sequence: Vec<&Event> = (0..d).map(|i| &events[k / n.pow(i) % n]).collect();
        // Nothing to see without a change from elsewhere and a shell command afterwards.
        let other = sequence.iter().position(|e| matches!(e, Event::Other(..)));
        if !other.map_or(false, |p| sequence[p..].iter().any(|e| matches!(e, Event::Shell(Some(_))))) {
            return;
        }
        let mut place = Place::new(ctx);
        let case = cases::Case { name: "", start: populated(), cmd: clix::list(0), input: Vec::new(), file: "storage.json", link: None, given: None, also: None, mode: None };
        cases::prepare(&mut place, &case);
        let mut file = Model { unlocked: false, ..populated() };
        let mut trace = Vec::new();
        let r = (|| -> Result<(), String> {
            let mut shell = Shell::start(ctx, &place);
            shell.until_input()?;
            let mut changed = false;
            let mut versions = vec![file.clone()];
            for e in &sequence {
                let before = place.read();
                ctx.trans(1);
                match e {
                    Event::Other(cmd, input) => {
                        let mut input = input.clone();
                        if file.primary != PRIMARY && !matches!(cmd, Cmd::SetPrimary { .. }) {
                            let text = String::from_utf8(input).unwrap();
                            input = text.replacen(PRIMARY, &file.primary, 1).into_bytes();
                        }
                        trace.push(format!("another invocation: {}", cmd.args().join(" ")));
                        let expect = refcli::simulate(&file, cmd, &mut clix::to_lines(&input));
                        let res = place.run(ctx, &cmd.args(), &input, &Opts { seed: Some(100 + trace.len() as u64), ..Default::default() });
                        let wrap = |e: String| format!("{}\n{}", e, res.describe());
                        refcli::check_result(&res, &expect.after, &expect).map_err(wrap)?;
                        if expect.ok == Some(true) {
                            let opened = refc::open(&place.raw()?, &expect.after.primary)?;
                            refcli::check_content(&opened.content, &expect).map_err(wrap)?;
                            file = Model { unlocked: false, ..expect.after };
                        } else if place.read() != before {
                            return Err(wrap("failed but changed the storage file".into()));
                        }
                        changed |= place.read() != before;
                        versions.push(file.clone());
                    }
                    Event::Shell(None) => {
                        trace.push("shell: lock".into());
                        shell.enter("lock")?;
                        if place.read() != before {
                            return Err("locking changed the storage file".into());
                        }
                    }
                    Event::Shell(Some(cmd)) => {
                        trace.push(format!("shell: {}", cmd.shell_line()));
                        shell.attempts = 0;
                        let (shown, errors) = shell.enter(&cmd.shell_line())?;
                        let answers = match cmd {
                            Cmd::AddStored { .. } => vec![file.primary.as_str(), "stored value"],
                            _ => vec![file.primary.as_str(), "other notes"],
                        };
                        let expect = refcli::simulate(&file, cmd, &mut clix::to_lines(&lines(&answers)));
                        let after = place.read();
                        if let Some(l) = errors.lines().find(|l| damage.contains(&generic(l))) {
                            return Err(format!("claims that the storage is missing or damaged: {}", l));
                        }
                        if cmd.displays_only() {
                            if after != before {
                                return Err("displaying changed the storage file".into());
                            }
                            let fits = versions.iter().any(|v| {
                                let e = refcli::simulate(v, cmd, &mut clix::to_lines(&lines(&[v.primary.as_str()])));
                                match (e.ok, &e.shown) {
                                    (Some(true), refcli::Shown::Exact(t)) => shown.contains(t.as_str()),
                                    _ => !errors.trim().is_empty(),
                                }
                            });
                            if !fits {
                                return Err(format!("displays what was never stored: {:?} {:?}", shown, errors));
                            }
                            continue;
                        }
                        let confirmed = ["Password added.", "Password removed.", "Notes stored.", "Alias added."].iter().any(|t| shown.contains(t));
                        if confirmed {
                            if expect.ok != Some(true) {
                                return Err(format!("reported success: {:?}", shown));
                            }
                            let opened = refc::open(&place.raw()?, &file.primary)?;
                            refcli::check_content(&opened.content, &expect)?;
                            file = Model { unlocked: false, ..expect.after };
                            versions.push(file.clone());
                        } else {
                            if after != before {
                                return Err(format!("reported no success but changed the storage: {:?} {:?}", shown, errors));
                            }
                            if errors.trim().is_empty() {
                                return Err(format!("neither success nor a failure is reported: {:?}", shown));
                            }
                            if !changed && expect.ok == Some(true) {
                                return Err(format!("failed: {:?}", errors));
                            }
                        }
                    }
                }
            }
            let before = place.read();
            shell.exit()?;
            if place.read() != before {
                return Err("leaving the shell changed the storage file".into());
            }
            for (name, _) in place.tree() {
                if !["storage.json", "home/", "home/.config/", "home/.config/PfP/", "home/.config/PfP/history.txt"].contains(&name.as_str()) {
                    return Err(format!("unexpected file {}", name));
                }
            }
            Ok(())
        })();
        ctx.trace(1);
        ctx.eval(1);
        ctx.state(1);
        if let Err(e) = r {
            ctx.violation(&format!("shell:{}", trace.join(",")), format!("start {}\n  {}\n=> {}", libx::show(&populated().content), trace.join("\n  "), e));
        }
    });
    ctx.note(&format!("a shell session next to other invocations: all sequences of up to {} of {} events", depth, n));
}
