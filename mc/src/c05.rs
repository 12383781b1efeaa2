//! C05: nothing is accessible without the right primary password.

use crate::c01::{empty, populated, PRIMARY};
use crate::cli::*;
use crate::clix::*;
use crate::libx::*;
use crate::model::{self, Model, Op, Out};
use crate::refcli::Cmd;
use crate::util::Ctx;

/// Passwords similar to this one but different.
pub fn similar(p: &str, all_chars: bool) -> Vec<String> {
    let chars: Vec<char> = p.chars().collect();
    let mut v: Vec<String> = vec![
        String::new(), p.to_uppercase(), p.to_lowercase(), format!("{} ", p), format!(" {}", p), format!("{}\n", p), format!("\t{}", p), format!("{}\r", p), format!("{}{}", p, p), format!("{}\u{a0}", p), format!("{}\u{301}", p),
        p.chars().rev().collect(), p.trim().to_string(), p.replace(' ', ""), p.replace(' ', "  "), p.replace(' ', "\u{a0}"), format!("{}\0", p), format!("\0{}", p), format!("{}\0x", p),
        String::from_utf8_lossy(&p.as_bytes().iter().map(|b| b ^ 1).collect::<Vec<_>>()).into_owned(),
    ];
    let subst: Vec<char> = if all_chars { (1u8..0x7f).map(|c| c as char).chain("äé\u{1F600}".chars()).collect() } else { "aAb 1\u{e4}".chars().collect() };
    for i in 0..=chars.len() {
        let (head, tail): (String, &[char]) = (chars[..i].iter().collect(), &chars[i..]);
        let rest: String = tail.iter().collect();
        v.push(head.clone());
        v.push(rest.clone());
        for &c in &subst {
            v.push(format!("{}{}{}", head, c, rest));
            if !tail.is_empty() {
                v.push(format!("{}{}{}", head, c, tail[1..].iter().collect::<String>()));
            }
        }
        if !tail.is_empty() {
            v.push(head.clone() + &tail[1..].iter().collect::<String>());
            v.push(format!("{}{}{}", head, tail[0].to_uppercase(), tail[1..].iter().collect::<String>()));
            v.push(format!("{}{}{}", head, tail[0].to_lowercase(), tail[1..].iter().collect::<String>()));
            v.push(format!("{}{}{}{}", head, tail[0], tail[0], tail[1..].iter().collect::<String>()));
        }
        if tail.len() > 1 {
            v.push(format!("{}{}{}{}", head, tail[1], tail[0], tail[2..].iter().collect::<String>()));
        }
    }
    v.sort();
    v.dedup();
    v.retain(|x| x != p);
    v
}

/// Every attempt with a similar password fails, whether locked or unlocked, and has no effect.
fn attempts(ctx: &Ctx, primary: &str, all_chars: bool) {
    let mut model = Model::initial(primary, Default::default());
    for op in [model::gen("a.com", "n", "", 12, 15), model::stored("a.com", "n", "2", "s3cret"), model::alias("b.com", "a.com")] {
        model.apply(&op);
    }
    let raw = raw_for(&model);
    let obs = observations(&["a.com", "b.com"], &["n"], &["", "2"]);
    let wrong = similar(primary, all_chars);
    ctx.count("wrong passwords", wrong.len() as u64);
    let longer_than_block = primary.len() > 64;
    ctx.par(wrong.len(), |i| {
        let attempt = &wrong[i];
        for unlocked in [false, true] {
            let mut live = Live::open(if i % 2 == 0 { Backing::Mock } else { Backing::File }, &raw, &scratch_file(ctx));
            let mut m = model.clone();
            m.unlocked = unlocked;
            if unlocked && live.exec(&Op::Unlock(primary.to_string())) != Out::Unit {
                ctx.violation("right password", format!("right password {:?} is rejected", primary));
                return;
            }
            let out = live.exec(&Op::Unlock(attempt.clone()));
            ctx.eval(1);
            ctx.trans(1);
            ctx.trace(1);
            // HMAC pads keys with zeros: scrypt cannot tell passwords apart that differ in these only.
            let key = if !longer_than_block && attempt.trim_end_matches('\0') == primary { "trailing NUL".to_string() } else { format!("{:?}/{:?}", primary, attempt) };
            if out != Out::Err(vec!["DecryptionFailure"]) {
                ctx.violation(&key, format!("primary password is {:?}, unlocking with {:?} yields {:?}", primary, attempt, out));
                continue;
            }
            let check = check_observations(&mut live, &m, &obs).map(|_| ()).and_then(|_| {
                if live.exec(&Op::Unlock(primary.to_string())) != Out::Unit {
                    return Err("right password is rejected afterwards".to_string());
                }
                m.unlocked = true;
                check_observations(&mut live, &m, &obs).map(|_| ())?;
                if live.raw()? != raw {
                    return Err("storage changed".into());
                }
                Ok(())
            });
            if let Err(e) = check {
                ctx.violation(&key, format!("primary password is {:?}, after attempt {:?} ({}): {}", primary, attempt, if unlocked { "unlocked" } else { "locked" }, e));
            }
        }
    });
}

/// Each character counts in primary passwords of any length.
fn lengths(ctx: &Ctx) {
    let mut list: Vec<usize> = (1..=ctx.pick(700, 5000)).collect();
    list.extend([1000, 1023, 1024, 1025, 2000, 2048, 4095, 4096, 4097, 8192, 10_000, 65_535, 65_536, 65_537, 100_000]);
    ctx.par(list.len(), |i| {
        let len = list[i];
        for unit in ["x", "ü", "p\u{1F600}"] {
            let primary: String = unit.chars().cycle().take(len).collect();
            let mut model = Model::initial(&primary, Default::default());
            model.apply(&model::stored("a.com", "n", "", "s3cret"));
            model.unlocked = false;
            let raw = raw_for(&model);
            let chars: Vec<char> = primary.chars().collect();
            let mut wrong: Vec<String> = Vec::new();
            let mut positions = vec![0, len / 2, len - 1, len.saturating_sub(2), len.saturating_sub(17)];
            positions.extend([8, 16, 32, 64, 72, 128, 255, 256, 512].iter().filter(|p| **p < len));
            for p in positions {
                let mut other = chars.clone();
                other[p] = 'y';
                wrong.push(other.iter().collect());
            }
            wrong.push(chars[..len - 1].iter().collect());
            wrong.push(chars[1..].iter().collect());
            wrong.push(chars[..len / 2].iter().collect());
            wrong.push(format!("{}y", primary));
            wrong.push(format!("y{}", primary));
            wrong.push(format!("{}{}", primary, chars[len - 1]));
            wrong.push(format!("{}{}", primary, primary));
            wrong.retain(|w| *w != primary);
            wrong.sort();
            wrong.dedup();
            let mut live = Live::open(Backing::Mock, &raw, &scratch_file(ctx));
            for attempt in &wrong {
                ctx.eval(1);
                ctx.trans(1);
                let out = live.exec(&Op::Unlock(attempt.clone()));
                if out != Out::Err(vec!["DecryptionFailure"]) {
                    ctx.violation(&format!("length {}", len), format!("primary password consists of {} characters {:?}, a different one of {} characters yields {:?}", len, unit, attempt.chars().count(), out));
                    return;
                }
            }
            let out = live.exec(&Op::Unlock(primary.clone()));
            if out != Out::Unit {
                ctx.violation(&format!("length {}", len), format!("the right primary password of {} characters {:?} yields {:?}", len, unit, out));
            }
            ctx.trace(1);
            ctx.state(1);
        }
    });
    ctx.note(&format!("primary passwords of {} lengths up to 100,000 characters, differences at all ends and block boundaries", list.len()));
}

/// Command line: no command does or shows anything without the right password.
fn command_line(ctx: &Ctx) {
    let mut model = populated();
    model.apply(&model::stored("d.com", "zzuser", "", "zzpassword"));
    model.apply(&model::notes("d.com", "zzuser", "", "zznotes"));
    model.apply(&model::alias("zzalias.com", "d.com"));
    let bytes = initial_bytes(&model).unwrap();
    let mut cmds = vec![
        add("d.com", "zzuser", None, None, 0, true),
        add("d.com", "zzuser", None, None, 0, false),
        add("x.com", "new", None, None, 0, false),
        add_stored("x.com", "new", None, true),
        Cmd::AddStored { site: s("x.com"), name: s("new"), rev: None, recovery: true, yes: false },
        remove("d.com", "zzuser", None),
        crate::clix::show("d.com", "zzuser", None),
        notes("d.com", "zzuser", None, false),
        notes("d.com", "zzuser", None, true),
        alias("x.com", "d.com"),
        unalias("zzalias.com"),
        show_alias("zzalias.com"),
    ];
    cmds.extend((0..8).map(list));
    let wrong = similar(PRIMARY, false);
    let wrong: Vec<&String> = wrong
        .iter()
        .filter(|w| w.trim() != PRIMARY && w.trim_end_matches('\0') != PRIMARY && !w.contains('\n') && !w.contains('\r'))
        .collect();
    let per: Vec<&String> = if ctx.thorough { wrong.clone() } else { wrong.iter().step_by(12).copied().collect() };
    let jobs: Vec<(&Cmd, Vec<&str>)> = cmds
        .iter()
        .flat_map(|c| {
            let mut v: Vec<(&Cmd, Vec<&str>)> = per.iter().map(|w| (c, vec![w.as_str(), "y", "y", "y"])).collect();
            v.push((c, vec![]));
            v.push((c, vec![""]));
            v.push((c, wrong.iter().map(|w| w.as_str()).collect()));
            v
        })
        .collect();
    ctx.par(jobs.len(), |i| {
        let (cmd, input) = &jobs[i];
        let place = Place::new(ctx);
        std::fs::write(&place.file, &bytes).unwrap();
        let before = place.tree();
        let res = place.run(ctx, &cmd.args(), &lines(input), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let out = crate::refcli::strip(&res.out()) + &res.err();
        let mut verdict = res.orderly();
        if res.ok() {
            verdict = Err("command succeeded".into());
        }
        for secret in ["zzpass", "zznotes", "zzuser", "d.com", "s3cret", "a.com", "other"] {
            if out.contains(secret) {
                verdict = Err(format!("{:?} was disclosed", secret));
            }
        }
        if place.tree() != before {
            verdict = Err("files were changed".into());
        }
        if let Err(e) = verdict {
            ctx.violation(&format!("cli:{:?}:{:?}", cmd, input.first()), format!("{} with input {:?}: {}\n{}", cmd.args().join(" "), input, e, res.describe()));
        }
    });
    ctx.count("command lines without the right password", jobs.len() as u64);
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let m = populated();
    let mut locked = m.clone();
    locked.unlocked = false;
    let mut ops = vec![
        Op::Lock,
        Op::Unlock(s(PRIMARY)),
        Op::Unlock(s("second pw")),
        Op::Unlock(s("primary pw ")),
        Op::Unlock(s("")),
        Op::Reset(s("second pw")),
        Op::Reset(s(PRIMARY)),
    ];
    for site in ["a.com", "c.com"] {
        ops.extend([model::gen(site, "n", "", 8, 15), model::stored(site, "n", "2", "pw"), model::notes(site, "n", "2", "text"), model::remove(site, "n", "")]);
        ops.extend([model::alias(site, "b.com"), model::unalias(site), Op::RemoveSites(vec![s(site)])]);
    }
    let mut obs = observations(&["a.com", "b.com", "c.com"], &["n", "m"], &["", "2"]);
    obs.push(Op::Recovery { site: s("a.com"), name: s("n"), rev: s("2") });
    let explore = Explore {
        ctx: &ctx,
        what: "locking",
        init: vec![Model::default(), locked, m],
        ops,
        obs,
        depth: ctx.pick(4, 5),
        max_states: ctx.pick(6_000, 60_000),
        backings: vec![Backing::Mock, Backing::File],
        reopen: false,
        reread: false,
        extra: None,
    };
    explore.bfs();
    // Without merging states: what remains from earlier secrets.
    let seqs = Explore {
        ctx: &ctx,
        what: "locking sequences",
        init: vec![empty()],
        ops: vec![
            Op::Lock,
            Op::Unlock(s(PRIMARY)),
            Op::Unlock(s("second pw")),
            Op::Reset(s("second pw")),
            model::gen("a.com", "n", "", 10, 15),
            model::stored("a.com", "n", "2", "pw"),
            model::notes("a.com", "n", "", "text"),
        ],
        obs: observations(&["a.com"], &["n"], &["", "2"]),
        depth: 0,
        max_states: 0,
        backings: vec![Backing::Mock],
        reopen: false,
        reread: false,
        extra: None,
    };
    for length in 1..=ctx.pick(5, 6) {
        seqs.sequences(length);
    }
    let long = "correct horse battery staple ".repeat(4);
    let list: Vec<&str> = vec!["primary pw", "fööbär", "Abc123!", " padded ", &long, "\u{1F600}\u{1F600}", "123456", "aaaaaa"];
    for p in list {
        attempts(&ctx, p, ctx.thorough || p == "primary pw");
    }
    lengths(&ctx);
    command_line(&ctx);
    ctx.finish(
        "model_checking",
        "all sequences of locking, unlocking and changing operations on the real Passwords type up to the stated depth, plus every single edit of several primary passwords as an attempt in locked and unlocked state, plus every command of the program with wrong passwords",
        &["scrypt is replaced by a fast function depending on all inputs in the same way (including HMAC key padding)"],
    )
}
