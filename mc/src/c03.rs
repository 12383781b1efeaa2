//! C03: a crash while saving never damages the storage file.

use crate::c01::{populated, PRIMARY};
use crate::cases::{self, *};
use crate::cli::*;
use crate::clix;
use crate::model::Model;
use crate::refcli;
use crate::util::Ctx;
use std::collections::{BTreeMap, HashMap};

const PID: u32 = 4711;

fn opts(plan: String, log: bool) -> Opts {
    Opts { seed: Some(7), pid: Some(PID), plan, log, ..Default::default() }
}

/// The next commands work on whatever the crash left behind. `model`: what the storage file contains.
fn continues(ctx: &Ctx, place: &Place, model: &Model) -> Result<(), String> {
    let mut m = model.clone();
    m.unlocked = false;
    let p = m.primary.clone();
    let script: Vec<(refcli::Cmd, Vec<&str>)> = if m.initialized {
        vec![
            (clix::list(5), vec![&p]),
            (clix::add_stored("next.example", "n", None, false), vec![&p, "next value"]),
            (clix::show("next.example", "n", None), vec![&p]),
        ]
    } else {
        vec![
            (refcli::Cmd::SetPrimary { yes: false }, vec!["fresh pw", "fresh pw"]),
            (clix::add_stored("next.example", "n", None, false), vec!["fresh pw", "next value"]),
        ]
    };
    for (cmd, input) in script {
        let before = place.read();
        let input = lines(&input);
        let expect = refcli::simulate(&m, &cmd, &mut clix::to_lines(&input));
        let res = place.run(ctx, &cmd.args(), &input, &opts(String::new(), false));
        refcli::check_result(&res, &expect.after, &expect)
            .and_then(|_| classify(place.read().as_deref(), before.as_deref(), &expect))
            .map_err(|e| format!("{} after the crash: {}\n{}", cmd.args().join(" "), e, res.describe()))?;
        m = model_of(place.read().as_deref(), &expect.after.primary)?;
    }
    Ok(())
}

/// Checks what is left after the process has died.
fn after_crash(ctx: &Ctx, case: &Case, place: &Place, before: Option<&[u8]>, res: &Res) -> Result<Which, String> {
    let expect = case.expect();
    let bytes = place.read();
    let which = classify(bytes.as_deref(), before, &expect)?;
    if which == Which::Before && reported(res) {
        return Err("success was reported but the change is not in the storage file".into());
    }
    if case.link.is_some() && !std::fs::symlink_metadata(&place.file).map_or(false, |m| m.file_type().is_symlink()) {
        return Err("the symbolic link is gone".into());
    }
    let primary = if which == Which::Before { &case.start.primary } else { &expect.after.primary };
    continues(ctx, place, &model_of(bytes.as_deref(), primary)?)?;
    Ok(which)
}

fn reported(res: &Res) -> bool {
    let out = res.out();
    ["Password added.", "Password removed.", "Alias added.", "Alias removed.", "Notes stored.", "Notes removed.", "New primary password set"]
        .iter()
        .any(|c| out.contains(c))
}

// ---- power loss ----

struct Inode {
    durable: Vec<u8>,
    /// Contents since, none if everything is on disk
    pending: Vec<Vec<u8>>,
}

/// What is known to be on disk and what isn't yet.
struct Disk {
    inodes: HashMap<u64, Inode>,
    entries: BTreeMap<String, u64>,
    current: BTreeMap<String, u64>,
    /// Changes of directories: (directory, assignments)
    pending: Vec<(String, Vec<(String, Option<u64>)>)>,
}

/// Path without . and ..
fn plain(path: &str) -> String {
    let mut out: Vec<&str> = Vec::new();
    for part in path.split('/') {
        match part {
            "" | "." => {}
            ".." => {
                out.pop();
            }
            _ => out.push(part),
        }
    }
    out.join("/")
}

fn dir_of(path: &str) -> String {
    path.rsplit_once('/').map_or(".".to_string(), |(d, _)| d.to_string())
}

impl Disk {
    fn change(&mut self, path: &str, assign: Vec<(String, Option<u64>)>) {
        for (name, ino) in &assign {
            match ino {
                Some(i) => self.current.insert(name.clone(), *i),
                None => self.current.remove(name),
            };
        }
        self.pending.push((dir_of(path), assign));
    }
    fn apply(&mut self, line: &str, dirs: &HashMap<u64, String>) -> bool {
        let mut w: Vec<&str> = line.split(' ').collect();
        let names: Vec<String> = w.iter().map(|x| plain(x)).collect();
        if ["CREATE", "RENAME", "LINK", "UNLINK"].contains(&w[0]) {
            for (x, name) in w.iter_mut().zip(&names).skip(1) {
                *x = name;
            }
        }
        let number = |s: &str| s.parse::<u64>().unwrap();
        match w[0] {
            "CREATE" => {
                self.inodes.insert(number(w[2]), Inode { durable: vec![], pending: vec![vec![]] });
                self.change(w[1], vec![(w[1].to_string(), Some(number(w[2])))]);
            }
            "DATA" => {
                let data: Vec<u8> = (0..w[2].len() / 2).map(|i| u8::from_str_radix(&w[2][2 * i..2 * i + 2], 16).unwrap()).collect();
                let inode = self.inodes.entry(number(w[1])).or_insert(Inode { durable: vec![], pending: vec![] });
                if inode.pending.last().unwrap_or(&inode.durable) != &data {
                    inode.pending.push(data);
                }
            }
            "SYNC" if w[2] == "1" => {
                if let Some(dir) = dirs.get(&number(w[1])) {
                    let mut rest = Vec::new();
                    for (d, assign) in std::mem::take(&mut self.pending) {
                        if d == *dir {
                            for (name, ino) in assign {
                                match ino {
                                    Some(i) => self.entries.insert(name, i),
                                    None => self.entries.remove(&name),
                                };
                            }
                        } else {
                            rest.push((d, assign));
                        }
                    }
                    self.pending = rest;
                }
            }
            "SYNC" => {
                if let Some(inode) = self.inodes.get_mut(&number(w[1])) {
                    if let Some(last) = inode.pending.pop() {
                        inode.durable = last;
                        inode.pending.clear();
                    }
                }
            }
            "RENAME" => {
                let ino = self.current.get(w[1]).copied();
                self.change(w[2], vec![(w[1].to_string(), None), (w[2].to_string(), ino)]);
            }
            "LINK" => {
                let ino = self.current.get(w[1]).copied();
                self.change(w[2], vec![(w[2].to_string(), ino)]);
            }
            "UNLINK" => self.change(w[1], vec![(w[1].to_string(), None)]),
            _ => return false,
        }
        true
    }
    /// All contents the file can have when the power fails now.
    fn contents(&self, file: &str) -> Vec<Option<Vec<u8>>> {
        let mut out = Vec::new();
        let n = self.pending.len().min(10);
        for subset in 0..1usize << n {
            let mut entries = self.entries.clone();
            for (i, (_, assign)) in self.pending.iter().enumerate().take(n) {
                if subset >> i & 1 == 1 {
                    for (name, ino) in assign {
                        match ino {
                            Some(i) => entries.insert(name.clone(), *i),
                            None => entries.remove(name),
                        };
                    }
                }
            }
            match entries.get(file) {
                None => out.push(None),
                Some(ino) => {
                    let inode = &self.inodes[ino];
                    out.push(Some(inode.durable.clone()));
                    for p in &inode.pending {
                        for cut in [0, 1, p.len() / 3, p.len() / 2, p.len().saturating_sub(1)] {
                            out.push(Some(p[..cut.min(p.len())].to_vec()));
                        }
                        out.push(Some(vec![0; p.len()]));
                        // First part new, second part old
                        let cut = p.len() / 2;
                        let mut mixed = p[..cut].to_vec();
                        mixed.extend(inode.durable.get(cut..).unwrap_or(&[]));
                        out.push(Some(mixed));
                        out.push(Some(p.clone()));
                    }
                }
            }
        }
        out.sort();
        out.dedup();
        out
    }
}

/// Every state the disk can be in when the power fails at any moment of this run.
fn power_loss(ctx: &Ctx, case: &Case, place: &Place, before: Option<&[u8]>, ino: Option<u64>, res: &Res, durable: bool) -> Result<(), String> {
    use std::os::unix::fs::MetadataExt;
    let file = case.link.unwrap_or(case.file);
    let mut dirs = HashMap::new();
    dirs.insert(std::fs::metadata(&place.dir).unwrap().ino(), ".".to_string());
    for (name, content) in place.tree() {
        if content.is_none() {
            dirs.insert(std::fs::metadata(place.dir.join(&name)).unwrap().ino(), name.trim_end_matches('/').to_string());
        }
    }
    let mut disk = Disk { inodes: HashMap::new(), entries: BTreeMap::new(), current: BTreeMap::new(), pending: vec![] };
    if let (Some(ino), Some(b)) = (ino, before) {
        disk.inodes.insert(ino, Inode { durable: b.to_vec(), pending: vec![] });
        disk.entries.insert(file.to_string(), ino);
        disk.current.insert(file.to_string(), ino);
    }
    let after = place.read();
    let mut last_op = "start".to_string();
    for line in &res.log {
        if line.starts_with("OP") {
            last_op = line.clone();
            continue;
        }
        if !disk.apply(line, &dirs) {
            continue;
        }
        for content in disk.contents(file) {
            ctx.eval(1);
            ctx.state(1);
            if content.as_deref() != before && content != after {
                return Err(format!(
                    "power loss after {}: storage file can be left {}",
                    last_op,
                    content.map_or("missing".to_string(), |c| format!("with {} bytes: {:?}", c.len(), String::from_utf8_lossy(&c).chars().take(80).collect::<String>()))
                ));
            }
        }
    }
    if durable && after.as_deref() != before && res.ok() {
        for content in disk.contents(file) {
            if content != after {
                return Err("power loss after the command reported success: the change is lost".into());
            }
        }
    }
    ctx.count("disk operations in the power loss model", res.log.len() as u64);
    Ok(())
}

fn inode_of(path: &std::path::Path) -> Option<u64> {
    use std::os::unix::fs::MetadataExt;
    std::fs::metadata(path).ok().map(|m| m.ino())
}

fn single(ctx: &Ctx) {
    let list = cases::all(true);
    let log: Vec<std::sync::Mutex<Vec<OpLine>>> = list.iter().map(|_| Default::default()).collect();
    // A complete run: places where it can end, and the power loss model.
    ctx.par(list.len(), |i| {
        let case = &list[i];
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let before = case.before();
        let ino = inode_of(&place.file);
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(String::new(), true));
        let expect = case.expect();
        let verdict = refcli::check_result(&res, &expect.after, &expect)
            .and_then(|_| match classify(place.read().as_deref(), before.as_deref(), &expect)? {
                Which::Before if !matches!(case.cmd, refcli::Cmd::List { .. }) => Err("nothing was saved".to_string()),
                _ => Ok(()),
            })
            .and_then(|_| power_loss(ctx, case, &place, before.as_deref(), ino, &res, true));
        ctx.trans(1);
        if let Err(e) = verdict {
            ctx.violation(&format!("power loss:{}", case.name), format!("{}\n{}\nlog:\n{}\n{}", label(case), e, res.log.iter().map(|l| l.chars().take(150).collect::<String>()).collect::<Vec<_>>().join("\n"), res.describe()));
        }
        ctx.sample(|| format!("{}: {}", case.name, ops(&res.log).iter().map(|o| o.name.clone()).collect::<Vec<_>>().join(", ")));
        *log[i].lock().unwrap() = ops(&res.log);
    });
    if ctx.stopped() {
        return;
    }
    // Dying at every operation and after any number of bytes of every write.
    let mut jobs: Vec<(usize, String, String)> = Vec::new();
    for (i, case) in list.iter().enumerate() {
        let log = log[i].lock().unwrap();
        for op in log.iter() {
            jobs.push((i, format!("{}:K", op.no), format!("before {} {}", op.name, op.path)));
            if op.name == "write" {
                let n = op.len as usize;
                let all = if ctx.thorough { case.name != "set-primary large" } else { case.name == "add to empty" || case.name == "set-primary first" };
                let step = if n > 3000 { if ctx.thorough { 7 } else { 1009 } } else if all { 1 } else { (n / 12).max(1) };
                let mut cuts: Vec<usize> = (0..n).step_by(step).collect();
                cuts.extend([1, n - 1, n]);
                cuts.sort();
                cuts.dedup();
                for t in cuts {
                    jobs.push((i, format!("{}:T{}", op.no, t), format!("after {} of {} bytes written to {}", t, n, op.path)));
                }
            }
        }
    }
    ctx.count("crash points", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (i, plan, what) = &jobs[j];
        let case = &list[*i];
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let before = case.before();
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(plan.clone(), false));
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        if res.code != Some(137) {
            ctx.count("places not reached again", 1);
        }
        let verdict = after_crash(ctx, case, &place, before.as_deref(), &res);
        match verdict {
            Ok(w) => ctx.outcome(&format!("{:?}", w)),
            Err(e) => ctx.violation(&format!("crash:{}:{}", case.name, plan), format!("{}\ncrash {}\n{}", label(case), what, e)),
        }
    });
    if ctx.stopped() {
        return;
    }
    // Crash again while working with what the first crash left behind.
    let chosen: Vec<usize> = (0..list.len()).filter(|&i| ctx.thorough || ["add replacing", "set-primary first", "linked"].contains(&list[i].name)).collect();
    let mut twice: Vec<(usize, String, usize)> = Vec::new();
    for &i in &chosen {
        let log = log[i].lock().unwrap();
        for op in log.iter() {
            let mut plans = vec![format!("{}:K", op.no)];
            if op.name == "write" {
                plans.push(format!("{}:T{}", op.no, op.len / 2));
            }
            for plan in plans {
                for second in 0..log.len() + 2 {
                    twice.push((i, plan.clone(), second));
                }
            }
        }
    }
    ctx.count("pairs of crash points", twice.len() as u64);
    ctx.par(twice.len(), |j| {
        let (i, plan, second) = &twice[j];
        let case = &list[*i];
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let start = case.before();
        place.run(ctx, &case.cmd.args(), &case.input, &opts(plan.clone(), false));
        let between = place.read();
        let run = || -> Result<(), String> {
            let which = classify(between.as_deref(), start.as_deref(), &case.expect())?;
            let primary = if which == Which::Before { case.start.primary.clone() } else { case.expect().after.primary };
            let model = model_of(between.as_deref(), &primary)?;
            let (cmd, input) = if model.initialized {
                (clix::add_stored("second.example", "n", None, true), lines(&[&primary, "second value"]))
            } else {
                (refcli::Cmd::SetPrimary { yes: false }, lines(&["fresh pw", "fresh pw"]))
            };
            let expect = refcli::simulate(&model, &cmd, &mut clix::to_lines(&input));
            let res = place.run(ctx, &cmd.args(), &input, &opts(format!("{}:K", second), false));
            ctx.eval(1);
            ctx.trans(1);
            ctx.trace(1);
            let bytes = place.read();
            let which = classify(bytes.as_deref(), between.as_deref(), &expect).map_err(|e| format!("{}\n{}", e, res.describe()))?;
            let primary = if which == Which::Before { primary } else { expect.after.primary };
            continues(ctx, &place, &model_of(bytes.as_deref(), &primary)?)
        };
        if let Err(e) = run() {
            ctx.violation(&format!("twice:{}:{}:{}", case.name, plan, second), format!("{}\ncrash at {}, then adding a password with a crash at point {}\n{}", label(case), plan, second, e));
        }
    });
}

/// Something fails and the process dies later, while dealing with that.
fn failing(ctx: &Ctx) {
    use libc::*;
    let list = cases::all(false);
    let chosen: Vec<&Case> =
        list.iter().filter(|c| ctx.thorough || ["set-primary first", "set-primary again", "add replacing", "linked", "new directory", "two names", "relative name"].contains(&c.name)).collect();
    let errnos: Vec<i32> = ctx.pick(
        vec![EPERM, ENOENT, EINTR, EIO, EAGAIN, ENOMEM, EACCES, EBUSY, EEXIST, EXDEV, ENOTDIR, EISDIR, EINVAL, EMFILE, ETXTBSY, EFBIG, ENOSPC, EROFS, EMLINK, ENAMETOOLONG, ENOSYS, ELOOP, EOPNOTSUPP, EDQUOT, ESTALE],
        (1..=133).collect(),
    );
    let mut jobs: Vec<(&Case, String)> = Vec::new();
    for case in &chosen {
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(String::new(), true));
        for op in ops(&res.log) {
            for e in &errnos {
                jobs.push((case, format!("{}:E{}", op.no, e)));
                // Trying again until it works would never end.
                if ![EINTR, EEXIST].contains(e) {
                    jobs.push((case, format!("{}:N{}", op.no, e)));
                }
            }
            if op.name == "write" {
                jobs.push((case, format!("{}:S{}", op.no, op.len / 2)));
            }
        }
    }
    ctx.count("faults followed by crashes", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (case, fault) = &jobs[j];
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let before = case.before();
        let ino = inode_of(&place.file);
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(fault.clone(), true));
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let no: usize = fault.split(':').next().unwrap().parse().unwrap();
        // Synchronising the directory is allowed to fail.
        let mut verdict = power_loss(ctx, case, &place, before.as_deref(), ino, &res, false).map_err(|e| format!("{}\nlog:\n{}", e, res.log.iter().map(|l| l.chars().take(150).collect::<String>()).collect::<Vec<_>>().join("\n")));
        let mut at = String::new();
        for op in ops(&res.log).iter().filter(|o| o.no > no) {
            let mut plans = vec![format!("{};{}:K", fault, op.no)];
            if op.name == "write" {
                plans.extend([0, 1, op.len / 2, op.len - 1].iter().map(|t| format!("{};{}:T{}", fault, op.no, t)));
            }
            for plan in plans {
                if verdict.is_err() {
                    break;
                }
                prepare(&mut place, case);
                let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(plan.clone(), false));
                ctx.eval(1);
                ctx.trans(1);
                ctx.trace(1);
                at = plan;
                verdict = after_crash(ctx, case, &place, before.as_deref(), &res).map(|w| ctx.outcome(&format!("fault, {:?}", w)));
            }
        }
        if let Err(e) = verdict {
            ctx.violation(&format!("fault:{}:{}", case.name, fault), format!("{}\nfault {}, crash {}\n{}\n{}", label(case), fault, at, e, res.describe()));
        }
    });
    ctx.note(&format!("{} commands: each file-system call failing with {} error codes, once or always, with a crash at each call following and power loss at any time", chosen.len(), errnos.len()));
}

/// A shell session with several changes, dying at every operation.
fn session(ctx: &Ctx) {
    let start = populated();
    let script = [
        (clix::add_stored("x.com", "n", None, true), vec!["first"], "Password added."),
        (clix::alias("d.com", "x.com"), vec![], "Alias added."),
        (clix::notes("x.com", "n", None, true), vec!["some notes"], "Notes stored."),
        (clix::remove("a.com", "n", None), vec![], "Password removed."),
        (clix::add("b.com", "m", Some("7"), None, 0, false), vec![], "Password added."),
    ];
    let mut input = String::new();
    let mut states = vec![start.clone()];
    for (i, (cmd, more, _)) in script.iter().enumerate() {
        input += &format!("{}\n", cmd.shell_line());
        let mut l: Vec<&str> = if i == 0 { vec![PRIMARY] } else { vec![] };
        l.extend(more);
        for m in &l {
            input += &format!("{}\n", m);
        }
        let mut m = states.last().unwrap().clone();
        m.unlocked = i > 0;
        let e = refcli::simulate(&m, cmd, &mut clix::to_lines(&lines(&l)));
        assert_eq!(e.ok, Some(true));
        states.push(e.after);
    }
    let args = args(&["shell", "-s", "home/history"]);
    let run = |plan: String, log: bool| -> (Place, Res) {
        let place = Place::new(ctx);
        std::fs::write(&place.file, clix::initial_bytes(&start).unwrap()).unwrap();
        let res = place.run(ctx, &args, input.as_bytes(), &opts(plan, log));
        (place, res)
    };
    let (_, res) = run(String::new(), true);
    let points = ops(&res.log);
    if !res.ok() || points.len() < 10 {
        ctx.violation("session", format!("shell session without crash fails\n{}", res.describe()));
        return;
    }
    let mut plans: Vec<String> = Vec::new();
    for p in &points {
        plans.push(format!("{}:K", p.no));
        if p.name == "write" {
            plans.push(format!("{}:T{}", p.no, p.len / 2));
            plans.push(format!("{}:T{}", p.no, p.len - 1));
        }
    }
    ctx.count("crash points within a session", plans.len() as u64);
    ctx.par(plans.len(), |j| {
        let (place, res) = run(plans[j].clone(), false);
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let out = res.out();
        let mut done = 0;
        let mut pos = 0;
        for (_, _, confirmation) in &script {
            match out[pos..].find(confirmation) {
                Some(p) => {
                    pos += p + confirmation.len();
                    done += 1;
                }
                None => break,
            }
        }
        let verdict = model_of(place.read().as_deref(), PRIMARY).and_then(|m| {
            let allowed = &states[done..(done + 2).min(states.len())];
            if !allowed.iter().any(|s| s.content == m.content) {
                return Err(format!("{} commands were reported as done, the storage file contains {}", done, crate::libx::show(&m.content)));
            }
            continues(ctx, &place, &m)
        });
        if let Err(e) = verdict {
            ctx.violation(&format!("session:{}", plans[j]), format!("shell session with input {:?}\ncrash at {}\n{}\n{}", input, plans[j], e, res.describe()));
        }
    });
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    single(&ctx);
    if !ctx.stopped() {
        session(&ctx);
    }
    if !ctx.stopped() {
        failing(&ctx);
    }
    ctx.finish(
        "fault_enumeration",
        "the real program is run once per file-system call of each changing command, dying right before it, and once per number of bytes written (torn writes), also twice in a row, within shell sessions and following any failing call; for power loss, every state the disk can be in given the recorded writes, syncs and renames is enumerated",
        &[
            "power loss: data not synced can be lost, cut off, zero or mixed; directory changes not synced can be lost in any combination; creating directories is durable as soon as something in them is",
            "scrypt is replaced by a fast function depending on all inputs",
        ],
    )
}
