//! C04: a failed save is reported and has no effect, then or later.

use crate::c01::{empty, populated, PRIMARY};
use crate::cases::{self, *};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::{alias, gen, notes, remove, s, stored, unalias, Model, Op, Out};
use crate::refcli;
use crate::util::Ctx;
use std::path::Path;

const PID: u32 = 4711;
const EACCES: i32 = libc::EACCES;
const ENOSPC: i32 = libc::ENOSPC;
const EIO: i32 = libc::EIO;

fn opts(plan: String, log: bool) -> Opts {
    Opts { seed: Some(7), pid: Some(PID), plan, log, ..Default::default() }
}

/// The command has to fail leaving everything as it was, or succeed with everything done.
fn verdict(ctx: &Ctx, case: &Case, place: &Place, before: Option<&[u8]>, res: &Res, must_fail: bool) -> Result<(), String> {
    res.orderly()?;
    let expect = case.expect();
    let bytes = place.read();
    if res.ok() {
        if must_fail {
            return Err("success was reported although data could not be written to disk".into());
        }
        refcli::check_result(res, &expect.after, &expect)?;
        match classify(bytes.as_deref(), before, &expect)? {
            Which::Before if expect.after.content != case.start.content && !matches!(case.cmd, refcli::Cmd::List { .. }) => return Err("success was reported but nothing was saved".into()),
            _ => {}
        }
        ctx.outcome("succeeded nevertheless");
    } else {
        if bytes.as_deref() != before {
            return Err(format!("an error was reported but the storage file has changed ({} bytes)", bytes.map_or(-1, |b| b.len() as i64)));
        }
        if res.stderr.is_empty() {
            return Err("failed without any message".into());
        }
        let out = res.out();
        for c in ["Password added", "Password removed", "Alias added", "Alias removed", "Notes stored", "Notes removed", "New primary password set"] {
            if out.contains(c) {
                return Err(format!("{:?} was reported by a command that failed", c));
            }
        }
        ctx.outcome("failed");
    }
    if case.link.is_some() && !std::fs::symlink_metadata(&place.file).map_or(false, |m| m.file_type().is_symlink()) {
        return Err("the symbolic link is gone".into());
    }
    // Once the cause is removed the same command succeeds.
    if !res.ok() {
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(String::new(), false));
        refcli::check_result(&res, &expect.after, &expect)
            .and_then(|_| classify(place.read().as_deref(), before, &expect).map(|_| ()))
            .map_err(|e| format!("repeated without failures: {}\n{}", e, res.describe()))?;
    }
    Ok(())
}

fn single(ctx: &Ctx) {
    let list = cases::all(true);
    let logs: Vec<std::sync::Mutex<Vec<OpLine>>> = list.iter().map(|_| Default::default()).collect();
    ctx.par(list.len(), |i| {
        let case = &list[i];
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(String::new(), true));
        if !res.ok() {
            ctx.violation(&format!("clean:{}", case.name), format!("{}\nfails without any fault\n{}", label(case), res.describe()));
        }
        *logs[i].lock().unwrap() = ops(&res.log);
    });
    if ctx.stopped() {
        return;
    }
    let errnos: Vec<i32> = ctx.pick(vec![EIO, ENOSPC, EACCES, libc::EINTR], vec![EIO, ENOSPC, EACCES, libc::EINTR, libc::EDQUOT, libc::EROFS, libc::EMFILE, libc::ENOENT, libc::EXDEV, libc::EPERM, libc::EBUSY, libc::EFBIG, libc::EINVAL, libc::EEXIST, libc::EAGAIN]);
    // (case, plan, what fails, has to be noticed)
    let mut jobs: Vec<(usize, String, String, bool)> = Vec::new();
    for (i, _) in list.iter().enumerate() {
        let log = logs[i].lock().unwrap();
        let reading = log.iter().position(|o| o.modifies).unwrap_or(log.len());
        for (k, op) in log.iter().enumerate() {
            let what = format!("{} {}", op.name, op.path);
            let is_file = log[..k].iter().any(|o| o.name == "write" && o.path == op.path);
            for &e in &errnos {
                if matches!(op.name.as_str(), "stat" | "access" | "realpath" | "readlink") && matches!(e, libc::ENOENT | libc::EINVAL) {
                    // A wrong answer, not a failure.
                    continue;
                }
                // Data that certainly did not reach the disk, nothing but an error is right.
                let must = is_file && matches!(op.name.as_str(), "fsync" | "fdatasync") && !matches!(e, libc::EINTR | libc::EINVAL | libc::EROFS);
                jobs.push((i, format!("{}:E{}", op.no, e), what.clone(), must));
                if op.modifies && !matches!(e, libc::EINTR | libc::EEXIST) {
                    jobs.push((i, format!("{}:F{}", op.no, e), format!("everything from {}", what), must));
                }
            }
            if op.name == "write" {
                let n = op.len as usize;
                for cut in [0, 1, n / 2, n - 1] {
                    jobs.push((i, format!("{}:S{}", op.no, cut), format!("{} cut to {} of {} bytes", what, cut, n), false));
                    for &e in &errnos {
                        if !matches!(e, libc::EINTR | libc::EEXIST) {
                            jobs.push((i, format!("{}:S{};{}:E{}", op.no, cut, op.no + 1, e), format!("{} cut to {} of {} bytes, then error {}", what, cut, n, e), false));
                            jobs.push((i, format!("{}:S{};{}:F{}", op.no, cut, op.no + 1, e), format!("{} cut to {} of {} bytes, then all errors {}", what, cut, n, e), false));
                        }
                    }
                }
            }
            if op.name == "read" && k < reading && op.len > 1 {
                jobs.push((i, format!("{}:S1", op.no), format!("{} yields one byte only", what), false));
            }
            // Two different failures
            if op.modifies {
                for other in log[k + 1..].iter().filter(|o| o.modifies) {
                    jobs.push((i, format!("{}:E{};{}:E{}", op.no, EIO, other.no, ENOSPC), format!("{} and {} {}", what, other.name, other.path), false));
                }
            }
        }
    }
    ctx.count("faults", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (i, plan, what, must) = &jobs[j];
        let case = &list[*i];
        let mut place = Place::new(ctx);
        prepare(&mut place, case);
        let before = case.before();
        let res = place.run(ctx, &case.cmd.args(), &case.input, &opts(plan.clone(), false));
        ctx.eval(1);
        ctx.trans(1);
        ctx.state(1);
        if let Err(e) = verdict(ctx, case, &place, before.as_deref(), &res, *must) {
            ctx.violation(&format!("fault:{}:{}", case.name, plan), format!("{}\nfailing: {} (plan {})\n{}\n{}", label(case), what, plan, e, res.describe()));
        }
        ctx.sample(|| format!("{}: {} ({}) -> exit {:?} {}", case.name, what, plan, res.code, res.err().trim()));
    });
}

/// Sessions in which one save fails and others do not.
fn sessions(ctx: &Ctx) {
    let start = populated();
    let firsts: Vec<(refcli::Cmd, Vec<&str>, &str)> = vec![
        (clix::add_stored("x.com", "n", None, true), vec!["first"], "Password added."),
        (clix::add("a.com", "n", Some("2"), None, 0, true), vec![], "Password added."),
        (clix::notes("a.com", "n", Some("2"), true), vec!["changed notes"], "Notes stored."),
        (clix::remove("b.com", "m", None), vec![], "Password removed."),
        (clix::alias("d.com", "a.com"), vec![], "Alias added."),
        (clix::unalias("c.com"), vec![], "Alias removed."),
    ];
    let seconds: Vec<(refcli::Cmd, Vec<&str>)> = vec![(clix::add_stored("y.com", "k", None, true), vec!["second"]), (clix::remove("a.com", "n", None), vec![])];
    let args = args(&["shell", "-s", "home/history"]);
    let pairs: Vec<(usize, usize)> = (0..firsts.len()).flat_map(|a| (0..seconds.len()).map(move |b| (a, b))).collect();
    let input_for = |a: usize, b: usize| -> String {
        let mut t = String::new();
        t += &format!("{}\n{}\n", firsts[a].0.shell_line(), PRIMARY);
        for l in &firsts[a].1 {
            t += &format!("{}\n", l);
        }
        t += "list -s -v\n";
        t += &format!("{}\n", seconds[b].0.shell_line());
        for l in &seconds[b].1 {
            t += &format!("{}\n", l);
        }
        t + "list -s -v\n"
    };
    let after = |m: &Model, c: &refcli::Cmd, input: &[&str]| -> Model {
        let mut m = m.clone();
        m.unlocked = true;
        refcli::simulate(&m, c, &mut clix::to_lines(&lines(input))).after
    };
    // Operations of the first command are those up to the saving of the second one.
    let run = |a: usize, b: usize, plan: String, log: bool| -> (Place, Res) {
        let place = Place::new(ctx);
        std::fs::write(&place.file, clix::initial_bytes(&start).unwrap()).unwrap();
        let mut o = opts(plan, log);
        o.mark = true;
        let res = place.run(ctx, &args, input_for(a, b).as_bytes(), &o);
        (place, res)
    };
    let mut jobs: Vec<(usize, usize, String)> = Vec::new();
    for &(a, b) in &pairs {
        let (_, res) = run(a, b, String::new(), true);
        let points = ops(&res.log);
        for p in points.iter().filter(|p| !p.path.contains("history")) {
            for e in ctx.pick(vec![ENOSPC], vec![ENOSPC, EIO, EACCES, libc::EINTR]) {
                jobs.push((a, b, format!("{}:E{}", p.no, e)));
            }
            if p.name == "write" {
                jobs.push((a, b, format!("{}:S{};{}:E{}", p.no, p.len / 2, p.no + 1, ENOSPC)));
            }
            if p.modifies {
                jobs.push((a, b, format!("{}:F{}", p.no, ENOSPC)));
            }
        }
    }
    ctx.count("faults within sessions", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (a, b, plan) = &jobs[j];
        let (place, res) = run(*a, *b, plan.clone(), false);
        ctx.eval(1);
        ctx.trans(1);
        ctx.state(1);
        let check = || -> Result<(), String> {
            res.orderly()?;
            let text = std::fs::read(&place.file).map_err(|e| e.to_string())?;
            let saved = model_of(Some(&text), PRIMARY)?;
            let segments: Vec<String> = res.out().split('\x1e').map(|x| refcli::strip(x)).collect();
            if segments.len() < 6 {
                // The storage file could not be read in the first place.
                return if !res.ok() && saved.content == start.content { Ok(()) } else { Err("session ended early".into()) };
            }
            // Segments: greeting, first command, listing, second command, listing, exit
            let confirmed = |c: &refcli::Cmd, text: &str| {
                let w = match c {
                    refcli::Cmd::AddStored { .. } | refcli::Cmd::Add { .. } => "Password added.",
                    refcli::Cmd::Remove { .. } => "Password removed.",
                    refcli::Cmd::Notes { .. } => "Notes stored.",
                    refcli::Cmd::Alias { remove: true, .. } => "Alias removed.",
                    _ => "Alias added.",
                };
                text.contains(w)
            };
            let mut m = start.clone();
            let mut expected_listing = Vec::new();
            for (cmd, input, seg) in [(&firsts[*a].0, &firsts[*a].1, &segments[1]), (&seconds[*b].0, &seconds[*b].1, &segments[3])] {
                if confirmed(cmd, seg) {
                    m = after(&m, cmd, input);
                }
                expected_listing.push(m.clone());
            }
            for (i, seg) in [(0, &segments[2]), (1, &segments[4])] {
                let m = &expected_listing[i];
                let sites = refcli::listing(m, "*", "*");
                // Listing saves as well when it drops sites, this can fail.
                refcli::check_listing(seg, m, &sites, true, false, true).map_err(|e| format!("listing {} does not fit what was reported before: {}", i + 1, e))?;
            }
            let e = refcli::Expect { ok: Some(true), shown: refcli::Shown::Any, after: m.clone(), may_drop_sites: true, questions: 0 };
            refcli::check_content(&saved.content, &e)?;
            Ok(())
        };
        if let Err(e) = check() {
            ctx.violation(
                &format!("session:{}:{}:{}", firsts[*a].0.shell_line(), seconds[*b].0.shell_line(), plan),
                format!("shell session with input {:?}\nfaults {}\n{}\n{}", input_for(*a, *b), plan, e, res.describe()),
            );
        }
    });
}

/// Sequences of operations on the real type, any of which can fail to save.
fn library(ctx: &Ctx) {
    let ops: Vec<Op> = vec![
        stored("a.com", "n", "", "one"),
        stored("a.com", "n", "", "two"),
        gen("a.com", "n", "", 10, 15),
        notes("a.com", "n", "", "text"),
        remove("a.com", "n", ""),
        alias("b.com", "a.com"),
        alias("a.com", "c.com"),
        unalias("b.com"),
        Op::RemoveSites(vec![s("a.com")]),
        Op::Reset(s("second pw")),
        Op::Reset(s(PRIMARY)),
        Op::Lock,
        Op::Unlock(s(PRIMARY)),
        Op::Unlock(s("second pw")),
    ];
    let obs = observations(&["a.com", "b.com", "c.com"], &["n"], &[""]);
    let steps: Vec<(Op, bool)> = ops.iter().flat_map(|o| if o.modifying() { vec![(o.clone(), false), (o.clone(), true)] } else { vec![(o.clone(), false)] }).collect();
    let inits = [empty(), { let mut m = empty(); m.apply(&stored("a.com", "n", "", "zero")); m.apply(&alias("b.com", "a.com")); m }, Model::default()];
    let raws: Vec<_> = inits.iter().map(raw_for).collect();
    let n = steps.len();
    let length = ctx.pick(3, 4);
    for (backing, length) in [(Backing::Mock, length), (Backing::File, length - 1)] {
        ctx.par(n * inits.len() * n, |k| {
            let init = k % inits.len();
            let first = k / inits.len();
            let mut idx = vec![0usize; length];
            idx[0] = first / n;
            idx[1] = first % n;
            loop {
                let path: Vec<&(Op, bool)> = idx.iter().map(|&i| &steps[i]).collect();
                if path.iter().any(|p| p.1) {
                    if let Err(e) = faulty(ctx, backing, &inits[init], &raws[init], &path, &obs) {
                        let text: Vec<String> = path.iter().map(|(o, f)| format!("{:?}{}", o, if *f { " (saving fails)" } else { "" })).collect();
                        ctx.violation(&format!("library:{:?}:{}", backing, text.join(";")), format!("{:?}, start {}\n  {}\n=> {}", backing, show(&inits[init].content), text.join("\n  "), e));
                        return;
                    }
                }
                let mut pos = length - 1;
                loop {
                    if pos == 1 {
                        return;
                    }
                    idx[pos] += 1;
                    if idx[pos] < n {
                        break;
                    }
                    idx[pos] = 0;
                    pos -= 1;
                }
                if ctx.stopped() {
                    return;
                }
                if ctx.out_of_time() {
                    ctx.incomplete("library sequences");
                    return;
                }
            }
        });
        ctx.note(&format!("{:?}: all sequences of {} operations out of {} with any choice of failing saves, no merging of states", backing, length, ops.len()));
    }
}

fn faulty(ctx: &Ctx, backing: Backing, init: &Model, raw: &crate::refc::Raw, path: &[&(Op, bool)], obs: &[Op]) -> Result<(), String> {
    let file = scratch_file(ctx);
    let mut live = Live::open(backing, raw, &file);
    let mut m = init.clone();
    if m.initialized {
        live.exec(&Op::Unlock(m.primary.clone()));
        m.unlocked = true;
    } else {
        m.unlocked = false;
    }
    for (i, (op, fail)) in path.iter().enumerate() {
        let mut after = m.clone();
        let expected = after.apply(op);
        let saved_before = live.raw()?;
        let undo = if *fail { fault(&live, &file, i % 2 == 0) } else { Undo::None };
        let got = live.exec(op);
        let failed = undo.undo(&live, &file);
        ctx.trans(1);
        let effective = *fail && failed;
        if effective && expected == Out::Unit {
            let changes = after.content != m.content || after.primary != m.primary || after.initialized != m.initialized || matches!(op, Op::Reset(_) | Op::SetStored { .. } | Op::SetGen { .. });
            match &got {
                Out::Err(k) if k[0] != "panic" => {}
                Out::Unit if !changes => m = after,
                other => return Err(format!("{:?} yields {:?} although saving failed", op, other)),
            }
            if live.raw()? != saved_before {
                return Err("the saved data has changed".into());
            }
        } else {
            if !matches(&expected, &got) {
                return Err(format!("{:?} yields {:?}, expected {:?}", op, got, expected));
            }
            m = after;
        }
        check_observations(&mut live, &m, obs).map_err(|e| format!("after {:?}: {}", op, e))?;
        if m.initialized {
            let o = crate::refc::open(&live.raw()?, &m.primary)?;
            if o.content != m.content {
                return Err(format!("after {:?}: saved content is {}, expected {}", op, show(&o.content), show(&m.content)));
            }
        } else if !live.raw()?.is_empty() {
            return Err("something was saved".into());
        }
        ctx.eval(1);
    }
    ctx.trace(1);
    Ok(())
}

/// Real obstacles for a real file, put aside afterwards.
enum Undo {
    None,
    Mock,
    Directory,
    Parent,
}

fn fault(live: &Live, file: &Path, variant: bool) -> Undo {
    match live {
        Live::Mock(_, shared) => {
            shared.borrow_mut().fail = 1;
            Undo::Mock
        }
        Live::File(..) => {
            let aside = file.with_extension("aside");
            if variant {
                let _ = std::fs::rename(file, &aside);
                std::fs::create_dir(file).unwrap();
                Undo::Directory
            } else {
                let dir = file.parent().unwrap();
                let away = dir.with_extension("away");
                std::fs::rename(dir, &away).unwrap();
                std::fs::write(dir, b"in the way").unwrap();
                Undo::Parent
            }
        }
    }
}

impl Undo {
    /// Removes the obstacle. Tells whether it had (or would have had) any effect.
    fn undo(self, live: &Live, file: &Path) -> bool {
        match self {
            Undo::None => false,
            Undo::Mock => {
                if let Live::Mock(_, shared) = live {
                    let left = shared.borrow().fail;
                    shared.borrow_mut().fail = 0;
                    return left == 0;
                }
                false
            }
            Undo::Directory => {
                std::fs::remove_dir(file).unwrap();
                let _ = std::fs::rename(file.with_extension("aside"), file);
                true
            }
            Undo::Parent => {
                let dir = file.parent().unwrap();
                std::fs::remove_file(dir).unwrap();
                std::fs::rename(dir.with_extension("away"), dir).unwrap();
                true
            }
        }
    }
}

/// Obstacles as they really occur, without any injection.
fn obstacles(ctx: &Ctx) {
    let kinds = ["parent is a file", "is a directory", "dangling link", "link to a directory", "name too long"];
    let inputs: Vec<(bool, Vec<&str>)> = vec![(true, vec!["another pw", "another pw"]), (false, vec!["y", "another pw", "another pw"]), (false, vec!["another pw", "another pw"])];
    ctx.par(inputs.len() * kinds.len(), |k| {
        let (yes, input) = &inputs[k / kinds.len()];
        let kind = kinds[k % kinds.len()];
        let mut place = Place::new(ctx);
        match kind {
            "parent is a file" => {
                std::fs::write(place.dir.join("file"), b"a file").unwrap();
                place.file = place.dir.join("file/storage.json");
            }
            "is a directory" => std::fs::create_dir(&place.file).unwrap(),
            "dangling link" => std::os::unix::fs::symlink(place.dir.join("missing/file.json"), &place.file).unwrap(),
            "link to a directory" => {
                std::fs::create_dir(place.dir.join("sub")).unwrap();
                std::os::unix::fs::symlink(place.dir.join("sub"), &place.file).unwrap();
            }
            _ => place.file = place.dir.join("x".repeat(256)),
        }
        let tree = place.tree();
        let cmd = refcli::Cmd::SetPrimary { yes: *yes };
        let res = place.run(ctx, &cmd.args(), &lines(input), &opts(String::new(), false));
        ctx.eval(1);
        ctx.trans(1);
        ctx.state(1);
        let check = res.orderly().and_then(|_| {
            let now = place.tree();
            if res.ok() && res.out().contains("New primary password set") {
                // Whoever claims success has to have saved it.
                let bytes = std::fs::read(&place.file).map_err(|e| format!("success was reported: {}", e))?;
                return model_of(Some(&bytes), "another pw").map(|_| ());
            }
            if !res.ok() && res.stderr.is_empty() {
                return Err("failed without any message".to_string());
            }
            if now != tree {
                return Err(format!("files were changed: {:?}", now.keys().collect::<Vec<_>>()));
            }
            Ok(())
        });
        if let Err(e) = check {
            ctx.violation(&format!("obstacle:{}:{}", kind, yes), format!("set-primary with input {:?}, storage file {}: {}\n{}", input, kind, e, res.describe()));
        }
    });
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    single(&ctx);
    if !ctx.stopped() {
        obstacles(&ctx);
    }
    if !ctx.stopped() {
        sessions(&ctx);
    }
    if !ctx.stopped() {
        library(&ctx);
    }
    ctx.finish(
        "fault_enumeration",
        "every file-system call of every changing command fails with each error (alone, with everything after it, in pairs, after short writes), also within shell sessions that go on; all operation sequences up to the stated length on the real Passwords type with any choice of failing saves",
        &["scrypt is replaced by a fast function depending on all inputs", "the C library boundary is where calls fail; failures are those a POSIX system can report"],
    )
}
