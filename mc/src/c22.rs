//! C22: setting a new primary password starts an empty, independent vault.

use crate::c01::{empty, full_alphabet, populated, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, Raw};
use crate::refcli::Cmd;
use crate::util::Ctx;

const NEW: [&str; 3] = ["new primary", PRIMARY, "pässwörd \u{1F600}"];

/// The new file has to be empty and share nothing with the old one.
fn independent(old: &Raw, old_text: &str, new: &Raw, primary: &str, old_primary: &str) -> Result<(), String> {
    if new.keys().collect::<Vec<_>>() != ["hmac-secret", "salt"] {
        return Err(format!("the new storage has entries {:?}", new.keys().collect::<Vec<_>>()));
    }
    let opened = refc::open(new, primary)?;
    if opened.salt.len() != 16 || opened.hmac_secret.len() != 32 {
        return Err("salt or lookup secret has the wrong length".into());
    }
    if primary != old_primary && refc::open(new, old_primary).is_ok() {
        return Err("the old primary password still opens it".into());
    }
    if let Ok(o) = refc::open(old, old_primary) {
        if o.salt == opened.salt || o.hmac_secret == opened.hmac_secret || o.key == opened.key {
            return Err("salt or secrets of the old storage are still in use".into());
        }
    }
    for (k, v) in new {
        if old.get(k) == Some(v) {
            return Err(format!("value of {} did not change", k));
        }
        if old_text.contains(v.as_str()) {
            return Err(format!("value of {} is from the old file", k));
        }
    }
    Ok(())
}

fn usable(live: &mut Live, model: &mut Model) -> Result<(), String> {
    for op in [stored("a.com", "n", "", "fresh"), gen("c.com", "n", "", 10, 15), alias("b.com", "a.com"), notes("a.com", "n", "", "t")] {
        let e = model.apply(&op);
        let g = live.exec(&op);
        if !matches(&e, &g) {
            return Err(format!("afterwards {:?} yields {:?}, expected {:?}", op, g, e));
        }
    }
    check_saved(live, model)
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let obs = observations(&["a.com", "b.com", "c.com"], &["n", "m"], &["", "2"]);
    let extra_obs = obs.clone();
    let extra = |edge: &mut Edge| -> Result<(), String> {
        for primary in NEW {
            for (locked, session) in [(false, false), (true, false), (false, true), (true, true)] {
                // Not the session of the search, this one has to go on.
                let mut live = Live::open(Backing::Mock, edge.raw_after, std::path::Path::new("unused"));
                let mut model = edge.after.clone();
                model.unlocked = false;
                if !locked && model.initialized {
                    live.exec(&Op::Unlock(model.primary.clone()));
                    model.unlocked = true;
                }
                let out = live.exec(&Op::Reset(s(primary)));
                model.apply(&Op::Reset(s(primary)));
                if out != Out::Unit {
                    return Err(format!("reset yields {:?}", out));
                }
                independent(edge.raw_after, &refc::file_text(edge.raw_after), &live.raw()?, primary, &edge.after.primary)?;
                check_observations(&mut live, &model, &extra_obs)?;
                if session {
                    live = live.reopen()?;
                    if primary != edge.after.primary && live.exec(&Op::Unlock(edge.after.primary.clone())) == Out::Unit {
                        return Err("old primary password unlocks".into());
                    }
                    if live.exec(&Op::Unlock(s(primary))) != Out::Unit {
                        return Err("new primary password does not unlock".into());
                    }
                    check_observations(&mut live, &model, &extra_obs)?;
                }
                usable(&mut live, &mut model).map_err(|e| format!("reset to {:?} (locked {}, new session {}): {}", primary, locked, session, e))?;
            }
        }
        Ok(())
    };
    let mut ops = full_alphabet(&["a.com", "www.b.com"], &["n"], &["", "2"]);
    ops.extend([Op::Lock, Op::Unlock(s(PRIMARY)), Op::Unlock(s("wrong one"))]);
    ops.extend(NEW.map(|p| Op::Reset(s(p))));
    Explore { ctx: &ctx, what: "reset", init: vec![Model::default(), empty(), populated()], ops, obs, depth: ctx.pick(3, 4), max_states: 200_000, backings: vec![Backing::Mock, Backing::File], reopen: true, reread: true, extra: Some(&extra) }.bfs();

    // Damaged data within the storage
    let good = raw_for(&populated());
    let mut damaged: Vec<(String, Raw)> = Vec::new();
    for key in good.keys() {
        for (what, value) in [("missing", None), ("empty", Some("")), ("garbage", Some("!!!")), ("short", Some("AAAA_AAAA")), ("unicode", Some("ü"))] {
            let mut raw = good.clone();
            match value {
                None => raw.remove(key),
                Some(v) => raw.insert(key.clone(), v.to_string()),
            };
            damaged.push((format!("{} {}", key, what), raw));
        }
    }
    damaged.push(("no data".into(), Raw::from([("unrelated".to_string(), "x".to_string())])));
    damaged.push(("strange keys".into(), {
        let mut r = good.clone();
        for k in ["", "site:", "site:x:y", "unknown", "sync"] {
            r.insert(k.to_string(), "old data".into());
        }
        r
    }));
    ctx.par(damaged.len() * NEW.len(), |i| {
        let (what, raw) = &damaged[i / NEW.len()];
        let primary = NEW[i % NEW.len()];
        for backing in [Backing::Mock, Backing::File] {
            for unlock in [false, true] {
                let mut live = Live::open(backing, raw, &scratch_file(&ctx));
                if unlock {
                    live.exec(&Op::Unlock(s(PRIMARY)));
                }
                let mut model = Model::default();
                model.apply(&Op::Reset(s(primary)));
                let out = live.exec(&Op::Reset(s(primary)));
                let verdict = if out == Out::Unit { Ok(()) } else { Err(format!("reset yields {:?}", out)) };
                let verdict = verdict
                    .and_then(|_| independent(raw, &refc::file_text(raw), &live.raw()?, primary, PRIMARY))
                    .and_then(|_| check_saved(&live, &model))
                    .and_then(|_| usable(&mut live, &mut model));
                ctx.eval(1);
                ctx.trans(1);
                ctx.trace(1);
                if let Err(e) = verdict {
                    ctx.violation(&format!("damaged:{}", what), format!("storage with {}, reset to {:?}: {}", what, primary, e));
                }
            }
        }
    });
    ctx.count("damaged storages", damaged.len() as u64);

    // The program itself, over files of any kind.
    let mut files: Vec<(String, Option<Vec<u8>>)> = vec![
        ("missing".into(), None),
        ("empty".into(), Some(vec![])),
        ("text".into(), Some(b"old secret text".to_vec())),
        ("binary".into(), Some(vec![0xff, 0xfe, 0, 1, 2])),
        ("other JSON".into(), Some(b"{\"application\":\"pfp\",\"format\":4,\"data\":{\"a\":\"b\"}}".to_vec())),
        ("array".into(), Some(b"[1,2]".to_vec())),
        ("long".into(), Some(vec![b'x'; 100_000])),
    ];
    let text = refc::file_text(&good);
    for cut in (0..text.len()).step_by(ctx.pick(97, 7)) {
        files.push((format!("truncated at {}", cut), Some(text.as_bytes()[..cut].to_vec())));
    }
    files.push(("valid".into(), Some(text.clone().into_bytes())));
    files.push(("valid, empty".into(), Some(refc::file_text(&raw_for(&empty())).into_bytes())));
    for (what, raw) in &damaged {
        files.push((what.clone(), Some(refc::file_text(raw).into_bytes())));
    }
    ctx.par(files.len(), |i| {
        let (what, bytes) = &files[i];
        for primary in NEW {
            for ask in [false, true] {
                let place = Place::new(&ctx);
                if let Some(b) = bytes {
                    std::fs::write(&place.file, b).unwrap();
                }
                let mut input = vec![];
                if ask && bytes.is_some() {
                    input.push("y");
                }
                input.extend([primary, primary]);
                let res = place.run(&ctx, &Cmd::SetPrimary { yes: !ask }.args(), &lines(&input), &Opts::default());
                ctx.eval(1);
                ctx.trans(1);
                ctx.trace(1);
                let old = bytes.as_ref().and_then(|b| std::str::from_utf8(b).ok()).unwrap_or("");
                let verdict = res.orderly().and_then(|_| if res.ok() { Ok(()) } else { Err("failed".into()) }).and_then(|_| {
                    let raw = place.raw()?;
                    independent(&refc::parse_file(old).unwrap_or_default(), old, &raw, primary, PRIMARY)?;
                    let files: Vec<String> = place.tree().into_keys().filter(|n| n != "home/").collect();
                    if files != ["storage.json"] {
                        return Err(format!("files present afterwards: {:?}", files));
                    }
                    // Immediately usable
                    let res = place.run(&ctx, &clix::add_stored("a.com", "n", None, false).args(), &lines(&[primary, "pw"]), &Opts::default());
                    if !res.ok() {
                        return Err(format!("adding a password fails: {}", res.describe()));
                    }
                    let res = place.run(&ctx, &clix::list(1).args(), &lines(&[primary]), &Opts::default());
                    if !res.out().ends_with("Passwords for a.com:\n    n (stored)\n        pw\n") {
                        return Err(format!("listing shows {}", res.describe()));
                    }
                    if primary != PRIMARY {
                        let res = place.run(&ctx, &clix::list(1).args(), &lines(&[PRIMARY]), &Opts::default());
                        if res.ok() {
                            return Err("old primary password is still accepted".into());
                        }
                    }
                    Ok(())
                });
                if let Err(e) = verdict {
                    ctx.violation(&format!("file:{}", what), format!("storage file {}, reset to {:?}, {}: {}\n{}", what, primary, if ask { "confirmed" } else { "-y" }, e, res.describe()));
                }
            }
        }
    });
    ctx.count("storage files", files.len() as u64);
    ctx.finish(
        "model_checking",
        "a reset is performed from every storage state reached (and from damaged storages and files) by the real code, locked and unlocked, in the same and in new sessions; the result is compared with a freshly initialised storage and searched for anything from before",
        &["scrypt is replaced by a fast function depending on all inputs"],
    )
}
