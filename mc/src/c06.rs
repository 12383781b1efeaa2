//! C06: corrupted or tampered entries are detected, never returned as data.

use crate::c01::PRIMARY;
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, b64, Raw};
use crate::refcli::{self, Cmd};
use crate::util::Ctx;
use std::collections::BTreeMap;

fn content() -> Model {
    let mut m = crate::c01::empty();
    for op in [
        gen("a.com", "n", "", 16, 15),
        notes("a.com", "n", "", "notes one"),
        stored("a.com", "n", "2", "s3cret"),
        notes("a.com", "n", "2", "notes two"),
        stored("b.com", "m", "", "other"),
        notes("b.com", "m", "", "x"),
        alias("c.com", "a.com"),
    ] {
        assert_eq!(m.apply(&op), Out::Unit);
    }
    m
}

/// What the storage keys stand for.
#[derive(Clone, Debug, PartialEq)]
enum What {
    Salt,
    Secret,
    Site(String),
    Password(refc::Id),
}

fn keys(m: &Model, raw: &Raw) -> BTreeMap<String, What> {
    let w = refc::Writer::new(PRIMARY, b"0123456789abcdef", &[0x42; 32]);
    let mut out = BTreeMap::new();
    for k in raw.keys() {
        let what = match k.as_str() {
            "salt" => What::Salt,
            "hmac-secret" => What::Secret,
            _ => m
                .content
                .sites
                .keys()
                .find(|s| w.site_key(s) == *k)
                .map(|s| What::Site(s.clone()))
                .or_else(|| m.content.passwords.keys().find(|id| w.password_key(id) == *k).map(|id| What::Password(id.clone())))
                .unwrap(),
        };
        out.insert(k.clone(), what);
    }
    out
}

/// All altered versions of a value, with a description.
fn mutations(value: &str, foreign: &[String], own: &[String], thorough: bool) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = Vec::new();
    let chars: Vec<char> = value.chars().collect();
    let text = |c: &[char]| c.iter().collect::<String>();
    for i in 0..chars.len() {
        // Each character replaced by every other one
        for c in 0..128u8 {
            let mut v = chars.clone();
            v[i] = c as char;
            out.push((format!("character {} replaced by {:?}", i, c as char), text(&v)));
        }
        for c in ['ä', '\u{1F600}', '\u{80}', '\u{FF3F}'] {
            let mut v = chars.clone();
            v[i] = c;
            out.push((format!("character {} replaced by {:?}", i, c), text(&v)));
        }
        let mut v = chars.clone();
        v.remove(i);
        out.push((format!("character {} removed", i), text(&v)));
        for c in ['A', '/', '=', '_', ' ', '\n', '\0', '-'] {
            let mut v = chars.clone();
            v.insert(i, c);
            out.push((format!("{:?} inserted at {}", c, i), text(&v)));
        }
        if i + 1 < chars.len() {
            let mut v = chars.clone();
            v.swap(i, i + 1);
            out.push((format!("characters {} and {} swapped", i, i + 1), text(&v)));
        }
        out.push((format!("cut off at {}", i), text(&chars[..i])));
        out.push((format!("first {} characters removed", i), text(&chars[i..])));
    }
    for ext in ["A", "=", "==", "AAAA", "_", "_AAAA", " ", "\n", "\0", "====", "AA==", value] {
        out.push((format!("extended by {:?}", ext), format!("{}{}", value, ext)));
        out.push((format!("prefixed by {:?}", ext), format!("{}{}", ext, value)));
    }
    for other in ["", "_", "__", "A_A", "AAAA_AAAA", "AAAAAAAAAAAAAAAA_", "_AAAA", "null", "{}", "\"\"", "AAAAAAAAAAAAAAAA_AAAAAAAAAAAAAAAAAAAAAA==", "AAAAAAAAAAAAAAAA_AAAAAAAAAAAAAAAAAAAAAAAA"] {
        out.push((format!("replaced by {:?}", other), other.to_string()));
    }
    // Changes of the encoded bytes
    if let Some((nonce, cipher)) = refc::split_value(value) {
        let join = |n: &[u8], c: &[u8]| format!("{}_{}", b64(n), b64(c));
        for bit in 0..nonce.len() * 8 {
            let mut n = nonce.clone();
            n[bit / 8] ^= 1 << (bit % 8);
            out.push((format!("bit {} of the nonce flipped", bit), join(&n, &cipher)));
        }
        for bit in 0..cipher.len() * 8 {
            let mut c = cipher.clone();
            c[bit / 8] ^= 1 << (bit % 8);
            out.push((format!("bit {} of the ciphertext flipped", bit), join(&nonce, &c)));
            if thorough {
                for second in (bit + 1..cipher.len() * 8).step_by(5) {
                    let mut c = c.clone();
                    c[second / 8] ^= 1 << (second % 8);
                    out.push((format!("bits {} and {} of the ciphertext flipped", bit, second), join(&nonce, &c)));
                }
            }
        }
        for n in 0..cipher.len() {
            out.push((format!("ciphertext cut to {} bytes", n), join(&nonce, &cipher[..n])));
            out.push((format!("{} bytes of ciphertext removed in front", n + 1), join(&nonce, &cipher[n + 1..])));
            let mut c = cipher.clone();
            c.remove(n);
            out.push((format!("byte {} of ciphertext removed", n), join(&nonce, &c)));
            let mut c = cipher.clone();
            c[n..].fill(0);
            out.push((format!("ciphertext zero from byte {}", n), join(&nonce, &c)));
        }
        for n in 0..24 {
            let mut x = nonce.clone();
            x.resize(n, 0);
            out.push((format!("nonce of {} bytes", n), join(&x, &cipher)));
        }
        for extra in [1, 2, 15, 16, 17, 32] {
            let mut c = cipher.clone();
            c.extend(vec![0; extra]);
            out.push((format!("{} zero bytes added to ciphertext", extra), join(&nonce, &c)));
        }
        // Other parts combined
        for o in foreign.iter().chain(own) {
            if let Some((n2, c2)) = refc::split_value(o) {
                if n2 != nonce {
                    out.push(("nonce of another value".into(), join(&n2, &cipher)));
                }
                if c2 != cipher {
                    out.push(("ciphertext of another value".into(), join(&nonce, &c2)));
                    if c2.len() >= 16 && cipher.len() >= 16 {
                        let mut c = cipher[..cipher.len() - 16].to_vec();
                        c.extend(&c2[c2.len() - 16..]);
                        out.push(("authentication tag of another value".into(), join(&nonce, &c)));
                    }
                }
            }
        }
        out.push(("nonce and ciphertext exchanged".into(), join(&cipher, &nonce)));
    }
    for f in foreign {
        out.push(("value of another storage".into(), f.clone()));
    }
    out.retain(|(_, v)| v != value && !own.contains(v));
    out
}

/// Whether a lenient reader gets the same bytes from both values: padding and unused bits of the last digit may differ.
fn same_bytes(a: &str, b: &str) -> bool {
    fn bits(text: &str) -> Option<Vec<u8>> {
        let mut v = 0u32;
        let mut n = 0;
        let mut out = Vec::new();
        for x in text.trim_matches(|c: char| c.is_ascii_whitespace()).trim_end_matches('=').bytes().filter(|b| !b.is_ascii_whitespace()) {
            let d = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                _ => return None,
            };
            v = v << 6 | d as u32;
            n += 6;
            if n >= 8 {
                n -= 8;
                out.push((v >> n) as u8);
                v &= (1 << n) - 1;
            }
        }
        Some(out)
    }
    let parts = |t: &str| match t.split_once('_') {
        Some((n, c)) => Some((bits(n)?, bits(c)?)),
        None => Some((bits(t)?, Vec::new())),
    };
    parts(a).is_some() && parts(a) == parts(b)
}

/// Every observation has to give the original answer or, where the altered value is involved, an error.
/// If the value means something else now it must not be used at all.
fn check(live: &mut Live, m: &Model, obs: &[Op], what: &What, changed: bool) -> Result<u64, String> {
    let used = |op: &Op| -> bool {
        if !changed {
            return false;
        }
        let through_alias = |site: &str| matches!(what, What::Site(s) if *s == normalize(site) && m.content.sites.get(s).map_or(false, |a| a.is_some()));
        match (op, what) {
            (Op::Get { site, name, rev } | Op::GetNotes { site, name, rev } | Op::Recovery { site, name, rev }, What::Password(id)) => m.id(site, name, rev) == *id,
            (Op::Get { site, .. } | Op::GetNotes { site, .. } | Op::Recovery { site, .. } | Op::GetAlias { site } | Op::List { site, .. }, What::Site(_)) => through_alias(site),
            (Op::List { .. }, What::Password(_)) | (Op::ListSites { .. }, What::Site(_)) => true,
            _ => false,
        }
    };
    let involved = |id: &refc::Id, site: &str| match what {
        What::Salt | What::Secret => true,
        What::Site(s) => normalize(site) == *s,
        What::Password(p) => p == id,
    };
    let mut n = 0;
    for op in obs {
        let expected = m.clone().apply(op);
        let got = live.exec(op);
        n += 1;
        let fits = matches(&expected, &got);
        let err = matches!(&got, Out::Err(k) if k[0] != "panic");
        let ok = match op {
            Op::Get { site, name, rev } | Op::GetNotes { site, name, rev } | Op::Recovery { site, name, rev } => fits || (err && involved(&m.id(site, name, rev), site)),
            Op::Has { site, name, rev } => fits || (matches!(got, Out::Bool(_) | Out::Err(_)) && err != matches!(got, Out::Bool(_)) && involved(&m.id(site, name, rev), site)),
            Op::GetAlias { site } => fits || (err && *what == What::Site(normalize(site))),
            Op::List { site, .. } => {
                fits || match (&expected, &got, what) {
                    (Out::Passwords(e), Out::Passwords(g), What::Password(id)) => {
                        let rest: Vec<_> = e.iter().filter(|(i, _)| i != id).cloned().collect();
                        rest == *g
                    }
                    (_, Out::Passwords(g), What::Site(s)) => normalize(site) == *s && g.is_empty(),
                    _ => false,
                }
            }
            Op::ListSites { .. } => {
                fits || match (&expected, &got, what) {
                    (Out::Sites(e), Out::Sites(g), What::Site(s)) => {
                        let rest: Vec<_> = e.iter().filter(|(i, _)| i != s).cloned().collect();
                        rest == *g
                    }
                    _ => false,
                }
            }
            _ => fits,
        };
        if !ok {
            return Err(format!("{:?} yields {:?}, expected {:?} or an error", op, got, expected));
        }
        // An answer which needed the value cannot be the original one.
        if used(op) && fits {
            let empty = match (&expected, what) {
                (Out::Err(_), _) => true,
                (Out::Passwords(e), What::Password(id)) => e.iter().all(|(i, _)| i != id),
                (Out::Passwords(e), _) => e.is_empty(),
                (Out::Sites(e), What::Site(s)) => e.iter().all(|(i, _)| i != s),
                _ => false,
            };
            if !empty {
                return Err(format!("{:?} yields {:?} although the value it comes from was altered", op, got));
            }
        }
    }
    Ok(n)
}

/// The altered entry can be replaced or removed, without effect on others.
fn repair(ctx: &Ctx, raw: &Raw, m: &Model, obs: &[Op], id: &refc::Id) -> Result<(), String> {
    let (site, name, rev) = (id.0.as_str(), id.1.as_str(), id.2.as_str());
    for (op, op2) in [(Some(notes(site, name, rev, "new notes")), None), (None, Some(stored(site, name, rev, "replaced"))), (None, Some(gen(site, name, rev, 7, 1))), (None, Some(remove(site, name, rev)))] {
        let mut live = Live::open(Backing::Mock, raw, std::path::Path::new("unused"));
        live.exec(&Op::Unlock(s(PRIMARY)));
        let mut m = m.clone();
        if let Some(op) = op {
            // Either still readable, or an error without any change.
            let out = live.exec(&op);
            match out {
                Out::Unit => {
                    m.apply(&op);
                    check_observations(&mut live, &m, obs)?;
                }
                Out::Err(k) if k[0] != "panic" => {
                    if live.raw()? != *raw {
                        return Err(format!("{:?} failed but changed something", op));
                    }
                }
                other => return Err(format!("{:?} yields {:?}", op, other)),
            }
        }
        if let Some(op) = op2 {
            let out = live.exec(&op);
            if out != Out::Unit {
                return Err(format!("{:?} yields {:?}", op, out));
            }
            m.apply(&op);
            check_observations(&mut live, &m, obs).map_err(|e| format!("after {:?}: {}", op, e))?;
        }
        ctx.eval(1);
    }
    Ok(())
}

fn library(ctx: &Ctx) {
    let m = content();
    let raw = raw_for(&m);
    let what = keys(&m, &raw);
    let mut obs = observations(&["a.com", "www.b.com", "c.com", "d.com"], &["n", "m"], &["", "2"]);
    obs.push(Op::Recovery { site: s("a.com"), name: s("n"), rev: s("2") });
    obs.push(Op::Recovery { site: s("b.com"), name: s("m"), rev: s("") });
    // The same content in other storages with the same password, and one with the same secret
    let mut foreign = Vec::new();
    for (salt, secret) in [(&b"fedcba9876543210"[..], [0x42u8; 32]), (b"0123456789abcdeg", [0x43; 32])] {
        foreign.extend(refc::Writer::new(PRIMARY, salt, &secret).write(&m.content).into_iter().filter(|(k, _)| k != "salt").map(|(_, v)| v));
    }
    foreign.extend(refc::Writer::new("other password", b"0123456789abcdef", &[0x42; 32]).write(&m.content).into_iter().filter(|(k, _)| k != "salt").map(|(_, v)| v));
    let own: Vec<String> = raw.iter().filter(|(k, _)| *k != "salt").map(|(_, v)| v.clone()).collect();
    let mut jobs: Vec<(String, String, String)> = Vec::new();
    for (k, v) in &raw {
        let before = jobs.len();
        for (d, new) in mutations(v, &foreign, &own, ctx.thorough) {
            jobs.push((k.clone(), d, new));
        }
        ctx.count(&format!("altered values of {:?}", what[k]).chars().take(60).collect::<String>(), (jobs.len() - before) as u64);
    }
    ctx.par(jobs.len(), |j| {
        let (key, desc, value) = &jobs[j];
        let mut altered = raw.clone();
        altered.insert(key.clone(), value.clone());
        let what = &what[key];
        let mut locked = m.clone();
        locked.unlocked = false;
        let mut run = || -> Result<(), String> {
            let mut live = Live::open(Backing::Mock, &altered, std::path::Path::new("unused"));
            match live.exec(&Op::Unlock(s(PRIMARY))) {
                Out::Unit => {
                    ctx.outcome("unlocks");
                    if matches!(what, What::Salt | What::Secret) {
                        // Only acceptable if the text still means the same.
                        check_observations(&mut live, &m, &obs)?;
                    }
                    ctx.eval(check(&mut live, &m, &obs, what, !same_bytes(value, &raw[key]))?);
                }
                Out::Err(k) if k[0] != "panic" && matches!(what, What::Salt | What::Secret) => {
                    ctx.outcome("does not unlock");
                    check_observations(&mut live, &locked, &obs)?;
                }
                other => return Err(format!("unlocking yields {:?}", other)),
            }
            if let What::Password(id) = what {
                if ctx.thorough || j % 4 == 0 {
                    repair(ctx, &altered, &m, &obs, id)?;
                }
            }
            if live.raw()? != altered {
                return Err("reading changed the storage".into());
            }
            Ok(())
        };
        let r = run();
        ctx.trans(1);
        ctx.state(1);
        ctx.trace(1);
        if let Err(e) = r {
            ctx.violation(&format!("value:{:?}:{}", what, desc), format!("value of {:?} altered: {}\noriginal {:?}\naltered  {:?}\n=> {}", what, desc, raw[key], value, e));
        }
    });
}

/// Every bit of the storage file as such flipped, every byte removed or doubled.
fn file(ctx: &Ctx) {
    let m = content();
    let raw = raw_for(&m);
    let text = refc::file_text(&raw).into_bytes();
    let obs = observations(&["a.com", "b.com", "c.com"], &["n", "m"], &["", "2"]);
    ctx.par(text.len(), |i| {
        let mut variants: Vec<Vec<u8>> = (0..8)
            .map(|bit| {
                let mut t = text.clone();
                t[i] ^= 1 << bit;
                t
            })
            .collect();
        let mut t = text.clone();
        t.remove(i);
        variants.push(t);
        let mut t = text.clone();
        t.insert(i, text[i]);
        variants.push(t);
        let path = scratch_file(ctx);
        for v in &variants {
            std::fs::write(&path, v).unwrap();
            ctx.trans(1);
            ctx.state(1);
            let run = || -> Result<(), String> {
                let mut live = match crate::util::guarded(|| pfp::storage_io::FileIO::load(&path)) {
                    Ok(Ok(io)) => Live::File(pfp::passwords::Passwords::new(io), path.clone()),
                    Ok(Err(_)) => return Ok(()),
                    Err(e) => return Err(e),
                };
                match live.exec(&Op::Unlock(s(PRIMARY))) {
                    Out::Unit => {}
                    Out::Err(k) if k[0] != "panic" => return Ok(()),
                    other => return Err(format!("unlocking yields {:?}", other)),
                }
                let mut missing = std::collections::BTreeSet::new();
                for op in &obs {
                    let expected = m.clone().apply(op);
                    let got = live.exec(op);
                    ctx.eval(1);
                    let ok = matches(&expected, &got)
                        || match (&expected, &got) {
                            (Out::Text(_), Out::Err(k)) if k[0] != "panic" => {
                                if let Op::Get { site, name, rev } = op {
                                    missing.insert((m.id(site, name, rev), normalize(site)));
                                }
                                true
                            }
                            (Out::Bool(true), Out::Bool(false)) => true,
                            (Out::Passwords(e), Out::Passwords(g)) => g.iter().all(|x| e.contains(x)) && (g.len() + 1 >= e.len() || g.is_empty()),
                            (Out::Sites(e), Out::Sites(g)) => g.iter().all(|x| e.contains(x)) && g.len() + 1 >= e.len(),
                            _ => false,
                        };
                    if !ok {
                        return Err(format!("{:?} yields {:?}, expected {:?} or an error", op, got, expected));
                    }
                }
                let ids: std::collections::BTreeSet<_> = missing.iter().map(|(id, _)| id).collect();
                let sites: std::collections::BTreeSet<_> = missing.iter().map(|(_, s)| s).collect();
                if ids.len() > 1 && sites.len() > 1 {
                    return Err(format!("a single change makes several entries inaccessible: {:?}", missing));
                }
                Ok(())
            };
            if let Err(e) = run() {
                ctx.violation(&format!("file:{}", i), format!("byte {} of the storage file altered ({} bytes now): {:?}\n=> {}", i, v.len(), String::from_utf8_lossy(&v[i.saturating_sub(30)..(i + 30).min(v.len())]), e));
                return;
            }
        }
    });
    ctx.count("bytes of the storage file altered", text.len() as u64);
}

/// The program itself with altered entries.
fn program(ctx: &Ctx) {
    let m = content();
    let raw = raw_for(&m);
    let what = keys(&m, &raw);
    let p = PRIMARY;
    let mut cmds: Vec<(Cmd, Vec<u8>)> = Vec::new();
    for (site, name, rev) in [("a.com", "n", None), ("c.com", "n", Some("2")), ("b.com", "m", None)] {
        cmds.push((clix::show(site, name, rev), lines(&[p])));
        cmds.push((clix::notes(site, name, rev, false), lines(&[p])));
        cmds.push((clix::notes(site, name, rev, true), lines(&[p, "new notes"])));
        cmds.push((clix::add_stored(site, name, rev, false), lines(&[p, "y", "new value"])));
    }
    cmds.push((clix::show_alias("c.com"), lines(&[p])));
    cmds.push((clix::list(7), lines(&[p])));
    cmds.push((clix::list_for("a.com", None, 5), lines(&[p])));
    let mut jobs: Vec<(String, String, String, usize)> = Vec::new();
    for (k, v) in &raw {
        let (n, c) = refc::split_value(v).unwrap_or((vec![0; 12], vec![1; 40]));
        let mut flipped = c.clone();
        let last = flipped.len() - 1;
        flipped[last] ^= 1;
        let mut first = c.clone();
        first[0] ^= 0x80;
        let mut variants = vec![
            ("empty", String::new()),
            ("first bit", format!("{}_{}", b64(&n), b64(&first))),
            ("last bit", format!("{}_{}", b64(&n), b64(&flipped))),
            ("no ciphertext", format!("{}_", b64(&n))),
            ("short nonce", format!("{}_{}", b64(&n[..11]), b64(&c))),
            ("cut", v[..v.len() / 2].to_string()),
            ("not Base64", v.replace('_', "_*")),
            ("extended", format!("{}AAAA", v)),
        ];
        if !ctx.thorough {
            variants.truncate(5);
        }
        for (d, new) in variants {
            for i in 0..cmds.len() {
                jobs.push((k.clone(), d.to_string(), new.clone(), i));
            }
        }
    }
    ctx.count("command lines on altered storages", jobs.len() as u64);
    ctx.par(jobs.len(), |j| {
        let (key, desc, value, i) = &jobs[j];
        let (cmd, input) = &cmds[*i];
        let what = &what[key];
        let mut altered = raw.clone();
        altered.insert(key.clone(), value.clone());
        let place = Place::new(ctx);
        let bytes = refc::file_text(&altered).into_bytes();
        std::fs::write(&place.file, &bytes).unwrap();
        let res = place.run(ctx, &cmd.args(), input, &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        let mut locked = m.clone();
        locked.unlocked = false;
        let expect = refcli::simulate(&locked, cmd, &mut clix::to_lines(input));
        let check = || -> Result<(), String> {
            res.orderly()?;
            let after = place.read().ok_or("storage file is gone")?;
            if !res.ok() {
                if after != bytes {
                    return Err("failed but changed the storage file".into());
                }
                if res.stderr.is_empty() {
                    return Err("failed without a message".into());
                }
                let hit = match (what, cmd) {
                    (What::Salt | What::Secret, _) => true,
                    (_, Cmd::List { .. }) => false,
                    (What::Password(id), Cmd::Show { site, name, rev } | Cmd::Notes { site, name, rev, .. } | Cmd::AddStored { site, name, rev, .. }) => *id == m.id(site, name, rev.as_deref().unwrap_or("")),
                    (What::Site(s), Cmd::Show { site, .. } | Cmd::Notes { site, .. } | Cmd::AddStored { site, .. } | Cmd::Alias { site, .. }) => s == site,
                    _ => false,
                };
                return if hit { Ok(()) } else { Err("an entry that was not altered is not usable".into()) };
            }
            if matches!(what, What::Salt | What::Secret) {
                return Err("succeeded with altered base data".into());
            }
            if let Cmd::List { .. } = cmd {
                // Everything listed is genuine, nothing but the altered entry is missing.
                let mut reduced = m.clone();
                match what {
                    What::Password(id) => {
                        reduced.content.passwords.remove(id);
                    }
                    What::Site(s) => {
                        reduced.content.sites.remove(s);
                    }
                    _ => {}
                }
                let e = refcli::simulate(&Model { unlocked: false, ..reduced }, cmd, &mut clix::to_lines(input));
                if refcli::check_result(&res, &m, &e).is_ok() {
                    return Ok(());
                }
            }
            // Adding a password replaces the altered one.
            if let Cmd::AddStored { site, .. } = cmd {
                if matches!(what, What::Site(s) if s == site) {
                    return Ok(());
                }
            }
            refcli::check_result(&res, &expect.after, &expect)
        };
        if let Err(e) = check() {
            ctx.violation(&format!("program:{:?}:{}:{}", what, desc, cmd.args().join(" ")), format!("{:?} altered ({}): {}\n{}\n{}", what, desc, cmd.args().join(" "), e, res.describe()));
        }
    });
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    library(&ctx);
    if !ctx.stopped() {
        file(&ctx);
    }
    if !ctx.stopped() {
        program(&ctx);
    }
    ctx.finish(
        "model_checking",
        "for every value in a storage: every character replaced by every other one, every bit of nonce and ciphertext flipped, all cuts, insertions, removals and recombinations with other values; after each the real code performs every read operation",
        &["AES-GCM itself is not questioned", "scrypt is replaced by a fast function depending on all inputs", "exchanging genuine values of the same storage is not detectable in this format and excluded from the property"],
    )
}
