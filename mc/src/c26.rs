//! C26: saving keeps the storage file's access permissions and never widens them.

use crate::cases::{self, Case};
use crate::cli::*;
use crate::util::Ctx;
use std::os::unix::fs::{MetadataExt, PermissionsExt};
use std::path::{Path, PathBuf};

/// Users and groups without meaning
const USER: u32 = 54_321;
const GROUP: u32 = 54_322;
const OTHER_USER: u32 = 54_323;
const OTHER_GROUP: u32 = 54_324;

#[derive(Clone, Copy, Debug, PartialEq)]
struct Access {
    mode: u32,
    uid: u32,
    gid: u32,
}

fn access(path: &Path) -> Option<Access> {
    std::fs::symlink_metadata(path).ok().map(|m| Access { mode: m.mode() & 0o7777, uid: m.uid(), gid: m.gid() })
}

/// Everything the storage's data might be in.
fn files(dir: &Path, out: &mut Vec<PathBuf>) {
    for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
        match e.file_type() {
            Ok(t) if t.is_dir() => files(&e.path(), out),
            Ok(t) if t.is_file() => out.push(e.path()),
            _ => {}
        }
    }
}

/// Who runs the program
#[derive(Clone, Debug)]
struct Who {
    name: &'static str,
    user: Option<(u32, u32, Vec<u32>)>,
    /// Owner and group of the file
    owner: Option<(u32, u32)>,
    /// Whether these can be kept by that user
    keeps: (bool, bool),
}

fn chown(path: &Path, uid: u32, gid: u32) -> bool {
    std::os::unix::fs::lchown(path, Some(uid), Some(gid)).is_ok()
}

/// Nobody may be allowed more than by the original file. The program's own user has to be able to write.
fn narrow(found: Access, limit: Access, runner: u32) -> Result<(), String> {
    let extra = found.mode & !limit.mode & 0o007;
    if extra != 0 {
        return Err(format!("others are allowed more: {:?}, before {:?}", found, limit));
    }
    if found.gid == limit.gid {
        if found.mode & !limit.mode & 0o070 != 0 {
            return Err(format!("the group is allowed more: {:?}, before {:?}", found, limit));
        }
    } else if (found.mode >> 3) & 7 & !(limit.mode & 7) != 0 {
        return Err(format!("another group is allowed what it wasn't: {:?}, before {:?}", found, limit));
    }
    if found.uid != limit.uid && found.uid != runner {
        return Err(format!("it belongs to another user: {:?}, before {:?}", found, limit));
    }
    if found.uid == limit.uid && found.mode & !(limit.mode | 0o600) & 0o700 != 0 {
        return Err(format!("the owner is allowed more: {:?}, before {:?}", found, limit));
    }
    Ok(())
}

struct Job<'a> {
    case: &'a Case,
    mode: u32,
    umask: u32,
    who: &'a Who,
}

/// Runs the command with a plan, looks at all files left behind. Returns whether the plan was reached.
fn run_one(ctx: &Ctx, job: &Job, plan: &str) -> Result<bool, String> {
    let mut place = Place::new(ctx);
    cases::prepare(&mut place, job.case);
    let target = job.case.link.map_or(place.file.clone(), |l| place.dir.join(l));
    let exists = target.exists();
    let runner = job.who.user.as_ref().map_or(0, |u| u.0);
    let mut limit = Access { mode: 0o666 & !job.umask, uid: runner, gid: job.who.user.as_ref().map_or(0, |u| u.1) };
    if exists {
        std::fs::set_permissions(&target, std::fs::Permissions::from_mode(job.mode)).map_err(|e| e.to_string())?;
        if let Some((uid, gid)) = job.who.owner {
            if !chown(&target, uid, gid) {
                return Err("setup".into());
            }
        }
        limit = access(&target).ok_or("setup")?;
        if limit.mode != job.mode {
            return Err("setup".into());
        }
    }
    if let Some((uid, gid, _)) = &job.who.user {
        // The user can create files in the directories.
        fn give(dir: &Path, uid: u32, gid: u32) -> bool {
            chown(dir, uid, gid)
                && std::fs::read_dir(dir).into_iter().flatten().flatten().all(|e| !e.file_type().map_or(false, |t| t.is_dir()) || give(&e.path(), uid, gid))
        }
        if !give(&place.dir, *uid, *gid) {
            return Err("setup".into());
        }
    }
    let opts = Opts { plan: plan.to_string(), seed: Some(5), umask: Some(job.umask), user: job.who.user.clone(), log: plan.is_empty() && job.who.user.is_none(), ..Default::default() };
    let res = place.run(ctx, &job.case.cmd.args(), &job.case.input, &opts);
    ctx.eval(1);
    ctx.trans(1);
    ctx.trace(1);
    let reached = res.code == Some(137);
    if !reached {
        res.orderly().map_err(|e| format!("{}\n{}", e, res.describe()))?;
    }
    let mut all = Vec::new();
    files(&place.dir, &mut all);
    for f in &all {
        let name = f.strip_prefix(&place.dir).unwrap().display().to_string();
        let a = access(f).ok_or("vanished")?;
        narrow(a, limit, runner).map_err(|e| format!("{}: {}\n{}", name, e, res.describe()))?;
    }
    if plan.is_empty() && !res.ok() {
        return Err(format!("the command failed\n{}", res.describe()));
    }
    if let (true, Some(now)) = (exists, access(&target)) {
        let written = place_changed(&place, job.case, &target);
        let kept = Access { uid: if job.who.keeps.0 && plan.is_empty() { limit.uid } else { now.uid }, gid: if job.who.keeps.1 && plan.is_empty() { limit.gid } else { now.gid }, mode: if job.who.keeps.1 && (plan.is_empty() || now.gid == limit.gid) { limit.mode } else { now.mode } };
        if now != kept {
            return Err(format!("permissions are {:?} now, they were {:?} (file {})\n{}", now, limit, if written { "changed" } else { "not changed" }, res.describe()));
        }
        if now.mode & 0o707 != limit.mode & 0o707 {
            return Err(format!("permissions are {:o} now, they were {:o}\n{}", now.mode, limit.mode, res.describe()));
        }
    }
    if let (false, true, Some(now)) = (exists, res.ok(), access(&target)) {
        if now.uid != runner || now.mode & 0o600 != 0o600 & !job.umask {
            return Err(format!("the new file isn't accessible by its user: {:?}\n{}", now, res.describe()));
        }
    }
    Ok(reached)
}

fn place_changed(_: &Place, case: &Case, target: &Path) -> bool {
    std::fs::read(target).ok() != case.before()
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let cases = cases::all(false);
    let some = vec![0o600, 0o640, 0o644, 0o660, 0o666, 0o604, 0o606, 0o700, 0o777, 0o620];
    // The owner can read and write, everything else varies.
    let modes: Vec<u32> = ctx.pick(some.clone(), (0..0o100u32).map(|m| 0o600 | m).chain([0o700, 0o777]).collect());
    let umasks: Vec<u32> = ctx.pick(vec![0, 0o022, 0o077], vec![0, 0o002, 0o022, 0o027, 0o077, 0o007, 0o070]);
    let whos = vec![
        Who { name: "own file", user: None, owner: None, keeps: (true, true) },
        Who { name: "administrator, file of a user", user: None, owner: Some((USER, GROUP)), keeps: (true, true) },
        Who { name: "user, own group", user: Some((USER, GROUP, vec![])), owner: Some((USER, GROUP)), keeps: (true, true) },
        Who { name: "user, another group of his", user: Some((USER, GROUP, vec![OTHER_GROUP])), owner: Some((USER, OTHER_GROUP)), keeps: (true, true) },
        Who { name: "user, not his group", user: Some((USER, GROUP, vec![])), owner: Some((USER, OTHER_GROUP)), keeps: (true, false) },
        Who { name: "file of another user in his group", user: Some((USER, GROUP, vec![OTHER_GROUP])), owner: Some((OTHER_USER, OTHER_GROUP)), keeps: (false, true) },
        Who { name: "file of another user and group", user: Some((USER, GROUP, vec![])), owner: Some((OTHER_USER, OTHER_GROUP)), keeps: (false, false) },
    ];
    // Which users the environment allows to become
    let probe = |who: &Who| -> bool {
        if who.user.is_none() && who.owner.is_none() {
            return true;
        }
        let place = Place::new(&ctx);
        let file = place.dir.join("probe");
        let _ = std::fs::write(&file, "");
        let (uid, gid) = who.owner.unwrap_or((0, 0));
        if !chown(&file, uid, gid) {
            return false;
        }
        if who.user.is_none() {
            return true;
        }
        let cmd = place.command(&ctx, &args(&["--version"]), &Opts { user: who.user.clone(), umask: Some(0o022), raw_args: true, ..Default::default() }).output();
        cmd.map_or(false, |o| o.status.success())
    };
    let usable: Vec<&Who> = whos.iter().filter(|w| {
        let ok = probe(w);
        if !ok {
            ctx.note(&format!("not possible in this environment: {}", w.name));
        }
        ok
    }).collect();
    ctx.count("constellations of users", usable.len() as u64);
    let mut jobs = Vec::new();
    for (w, who) in usable.iter().enumerate() {
        for case in &cases {
            let existing = case.before().is_some();
            for (i, &mode) in modes.iter().enumerate() {
                if !existing && i > 0 {
                    continue;
                }
                for &umask in &umasks {
                    // A user has to be able to open the file at all.
                    if let (Some((uid, _, groups)), Some((owner, group))) = (&who.user, who.owner) {
                        let bits = if *uid == owner { mode >> 6 } else if groups.contains(&group) { mode >> 3 } else { mode };
                        if existing && bits & 6 != 6 {
                            continue;
                        }
                    }
                    // The other constellations differ in the last steps only.
                    if w > 0 && umask != 0o022 && umask != 0 {
                        continue;
                    }
                    jobs.push(Job { case, mode, umask, who });
                }
            }
        }
    }
    ctx.count("saves", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let job = &jobs[j];
        let what = format!("{}, {}, mode {:o}, umask {:o}", cases::label(job.case), job.who.name, job.mode, job.umask);
        let fail = |plan: &str, e: String| {
            ctx.violation(&format!("{}:{}:{:o}", job.case.name, job.who.name, job.mode), format!("{}, plan {:?}\n=> {}", what, plan, e));
        };
        if let Err(e) = run_one(&ctx, job, "") {
            return fail("", e);
        }
        let mut points = 0;
        for k in 0..200 {
            let plan = format!("{}:K", k);
            match run_one(&ctx, job, &plan) {
                Err(e) => return fail(&plan, e),
                Ok(false) => break,
                Ok(true) => points += 1,
            }
            if job.mode == 0o600 || job.mode == 0o640 || ctx.thorough && job.umask == 0o022 && some.contains(&job.mode) {
                for plan in [format!("{}:E5", k), format!("{}:E1", k), format!("{}:F28", k), format!("{}:T20", k)] {
                    if let Err(e) = run_one(&ctx, job, &plan) {
                        return fail(&plan, e);
                    }
                }
            }
        }
        ctx.state(points);
        ctx.sample(|| format!("{}: stopped at {} places", what, points));
    });
    ctx.finish(
        "model_checking",
        "the program is ended before each of its file-system calls and made to fail at each of them, for all commands, file modes, umasks and constellations of users; the permissions of every file found then and at the end are compared with those of the storage file before",
        &["mode bits, owner and group only, no access control lists", "the umask and users are set by the checker"],
    )
}
