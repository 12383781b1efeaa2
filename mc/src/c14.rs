//! C14: existing passwords are never overwritten or erased without consent.

use crate::c01::{empty, populated, PRIMARY};
use crate::c17;
use crate::c23;
use crate::cli::*;
use crate::clix::{self, add, add_stored};
use crate::libx::raw_for;
use crate::model::{self, Model};
use crate::refc;
use crate::refcli::{self, Cmd, PROMPTS};
use crate::util::Ctx;

const OVERWRITE: &str = PROMPTS[5];
const ERASE: &str = PROMPTS[6];

/// Answers to a question, without line break. None is the end of input.
fn answers() -> Vec<Option<Vec<u8>>> {
    let mut v: Vec<Option<Vec<u8>>> = vec![None];
    for t in [
        "", "n", "no", "N", "NO", "No", "nO", " n ", "y", "yes", "Y", "YES", "Yes", "yEs", " y ", "\tyes\t", "yy", "ye", "es", "s", "yes yes", "y n", "n y", "yn", "ny", "yno", "noy",
        "yes!", "y.", "y,", "\"y\"", "'y'", "-y", "j", "ja", "si", "oui", "ok", "sure", "1", "0", "true", "t", "continue", "overwrite", "default", "*", "?", "y\0", "\0", "\0y", "y\u{301}",
        "\u{ff59}", "\u{ff59}\u{ff45}\u{ff53}", "ye\u{17f}", "\u{443}", "\u{3b3}", "\u{fd}", "\u{ff}", "\u{1b}[A", "y\u{200b}", "\u{feff}y", "y\u{8}", "n\u{8}y", "nope", "never", "none", "not", "yesno",
        PRIMARY, "new value", "set-primary", "null", "y\\", "\\y", "y\\n",
    ] {
        v.push(Some(t.as_bytes().to_vec()));
    }
    for b in [&b"\xff"[..], b"y\xff", b"\xffy", b"\xc3", b"yes\xe4"] {
        v.push(Some(b.to_vec()));
    }
    v.push(Some(vec![b'y'; 3000]));
    v.push(Some(vec![b' '; 3000]));
    v
}

/// All sequences of answers up to a length: the second and following ones only after unclear ones.
fn sequences(depth: usize) -> Vec<(String, Vec<u8>, bool)> {
    let all = answers();
    let mut out = Vec::new();
    let mut partial: Vec<(String, Vec<u8>)> = vec![Default::default()];
    for level in 0..depth {
        let mut next = Vec::new();
        for (label, bytes) in &partial {
            for a in &all {
                match a {
                    None => out.push((format!("{}<end>", label), bytes.clone(), true)),
                    Some(a) => {
                        let mut b = bytes.clone();
                        b.extend(a);
                        // The last line also without line break at the end of input
                        let text = String::from_utf8_lossy(a);
                        let label = format!("{}{:?} ", label, if text.len() > 30 { text.chars().take(30).collect() } else { text.to_string() });
                        out.push((format!("{}<end>", label), b.clone(), true));
                        b.push(b'\n');
                        out.push((label.clone(), b.clone(), false));
                        if !matches!(text.trim().to_lowercase().as_str(), "" | "y" | "n" | "yes" | "no") && level + 1 < depth {
                            next.push((label, b));
                        }
                    }
                }
            }
        }
        partial = next;
    }
    out
}

struct Target {
    what: &'static str,
    start: Model,
    cmd: Cmd,
    /// Entered before and after the answer
    before: Vec<&'static str>,
    after: Vec<String>,
}

fn targets() -> Vec<Target> {
    let mut v = Vec::new();
    let code = {
        let salt = *b"0123456789abcdef";
        refc::recovery_plain("recovered", &salt, &refc::storage_key(PRIMARY, &salt), b"nonce nonce ")
    };
    let mut busy = populated();
    busy.apply(&model::stored("www.w.com", "n", "1", "w"));
    busy.apply(&model::alias("al.com", "www.w.com"));
    for yes in [false, true] {
        for (site, rev) in [
            ("a.com", None), ("a.com", Some("1")), ("a.com", Some("2")), ("a.com", Some("3")), ("a.com", Some("")), ("a.com", Some("01")), ("www.a.com", None), ("www.a.com", Some("2")), ("c.com", None), ("c.com", Some("2")), ("www.c.com", Some("1")),
            ("www.c.com", Some("2")), ("www.c.com", Some("3")), ("www.www.a.com", None), ("A.com", None), ("w.com", None), ("www.w.com", None), ("al.com", None), ("al.com", Some("2")), ("new.com", None),
        ] {
            v.push(Target { what: "generated", start: busy.clone(), cmd: add(site, "n", rev, Some(20), 8, yes), before: vec![PRIMARY], after: vec![] });
            v.push(Target { what: "stored", start: busy.clone(), cmd: add_stored(site, "n", rev, yes), before: vec![PRIMARY], after: vec!["new value".into()] });
            v.push(Target {
                what: "recovered",
                start: busy.clone(),
                cmd: Cmd::AddStored { site: site.into(), name: "n".into(), rev: rev.map(|r| r.into()), recovery: true, yes },
                before: vec![PRIMARY],
                after: vec![code.clone()],
            });
        }
        for (what, start) in [("new storage", Model::default()), ("empty storage", empty()), ("storage", busy.clone())] {
            v.push(Target { what, start, cmd: Cmd::SetPrimary { yes }, before: vec![], after: vec!["another pw".into(), "another pw".into()] });
        }
    }
    v
}

fn asked(out: &str) -> (usize, usize) {
    (out.matches(OVERWRITE).count(), out.matches(ERASE).count())
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    // All answers to all questions.
    let targets = targets();
    let short = sequences(1);
    let long = sequences(2);
    ctx.count("answers", short.len() as u64);
    ctx.count("sequences of two answers", long.len() as u64);
    let mut items: Vec<(usize, &(String, Vec<u8>, bool))> = Vec::new();
    for (t, target) in targets.iter().enumerate() {
        for s in &short {
            items.push((t, s));
        }
        // Two answers for the essential ones
        if ctx.thorough && t % 7 == 0 || matches!(&target.cmd, Cmd::SetPrimary { yes: false } | Cmd::AddStored { yes: false, recovery: false, .. }) && (target.what == "storage" || t == 1) {
            for s in &long {
                items.push((t, s));
            }
        }
    }
    ctx.par(items.len(), |k| {
        let (t, (label, answer, end)) = &items[k];
        let target = &targets[*t];
        let mut input = lines(&target.before);
        input.extend(answer);
        if !end {
            input.extend(lines(&target.after.iter().map(|l| l.as_str()).collect::<Vec<_>>()));
        }
        let place = Place::new(&ctx);
        let bytes = clix::initial_bytes(&target.start);
        let opts = Opts { seed: Some(k as u64), ..Default::default() };
        ctx.trans(1);
        ctx.trace(1);
        let r = clix::step(&ctx, &place, bytes.as_deref(), &target.start, &target.cmd, &input, &opts).and_then(|s| {
            // Independently of the reference: changed only after a clear yes.
            let m = &target.start;
            let exists = match &target.cmd {
                Cmd::Add { site, name, rev, .. } | Cmd::AddStored { site, name, rev, .. } => m.content.passwords.contains_key(&m.id(site, name, rev.as_deref().unwrap_or("1"))),
                _ => m.initialized,
            };
            let waived = matches!(target.cmd, Cmd::Add { yes: true, .. } | Cmd::AddStored { yes: true, .. } | Cmd::SetPrimary { yes: true });
            let (overwrite, erase) = asked(&s.res.out());
            let (count, other) = if matches!(target.cmd, Cmd::SetPrimary { .. }) { (erase, overwrite) } else { (overwrite, erase) };
            if other != 0 || (count > 0) != (exists && !waived) {
                return Err(format!("asked {} times (password exists: {}, waived: {})\n{}", count, exists, waived, s.res.describe()));
            }
            if count > 0 {
                let texts: Vec<String> = String::from_utf8_lossy(answer).split('\n').map(|l| l.trim().to_lowercase()).collect();
                let clear = texts.iter().any(|t| t == "y" || t == "yes");
                if !clear && s.bytes != bytes {
                    return Err("changed without a clear yes".into());
                }
                let tries = if matches!(target.cmd, Cmd::AddStored { recovery: true, .. }) { count } else { s.expect.questions };
                if count != tries {
                    return Err(format!("asked {} times, expected {}", count, tries));
                }
            }
            ctx.outcome(&format!("{} {}: {}", target.cmd.args()[0], if count > 0 { "asked" } else { "not asked" }, if s.bytes != bytes { "changed" } else { "unchanged" }));
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(
                &format!("{} {}: {}", target.what, target.cmd.args().join(" "), label),
                format!("{} {}\nanswers {}\n=> {}", target.what, target.cmd.args().join(" "), label, e),
            );
        }
    });
    ctx.note(&format!("{} commands with all answers: {} runs", targets.len(), items.len()));

    // Consent in every state reachable.
    let alphabet = |m: &Model| {
        let mut v: clix::Alphabet = Vec::new();
        for site in ["a.com", "www.b.com", "c.com", "d.com"] {
            for rev in [None, Some("2")] {
                for answer in [&["y"][..], &["n"], &[""], &["what", "no"], &["what", "YES"], &[]] {
                    let mut l = vec![m.primary.as_str()];
                    l.extend(answer);
                    v.push((add(site, "n", rev, None, 0, false), lines(&l)));
                    l.push("value");
                    v.push((add_stored(site, "n", rev, false), lines(&l)));
                }
                v.push((clix::remove(site, "n", rev), lines(&[&m.primary])));
            }
            for target in ["a.com", "b.com"] {
                v.push((clix::alias(site, target), lines(&[&m.primary])));
            }
            v.push((clix::unalias(site), lines(&[&m.primary])));
        }
        for answer in [&["y"][..], &["n"], &[""], &["yep", ""], &[]] {
            let mut l = answer.to_vec();
            l.extend(["primary pw", "primary pw"]);
            v.push((Cmd::SetPrimary { yes: false }, lines(&l)));
        }
        v
    };
    let check = |_: &Place, before: &Model, s: &clix::Step, cmd: &Cmd| -> Result<(), String> {
        let exists = match cmd {
            Cmd::Add { site, name, rev, .. } | Cmd::AddStored { site, name, rev, .. } => before.content.passwords.contains_key(&before.id(site, name, rev.as_deref().unwrap_or("1"))),
            Cmd::SetPrimary { .. } => before.initialized,
            _ => false,
        };
        let (overwrite, erase) = asked(&s.res.out());
        if (overwrite + erase > 0) != exists {
            return Err(format!("asked {}, password exists {}\n{}", overwrite + erase, exists, s.res.describe()));
        }
        // What isn't named stays.
        if let Cmd::Add { .. } | Cmd::AddStored { .. } = cmd {
            let lost = before.content.passwords.iter().filter(|(k, v)| s.after.content.passwords.get(k) != Some(v)).count();
            if lost > exists as usize {
                return Err(format!("{} passwords were overwritten", lost));
            }
        }
        Ok(())
    };
    clix::bfs(&ctx, "consent", &[Model::default(), populated()], &alphabet, ctx.pick(3, 4), Some(&check));

    // Only this very password is asked about: every ordered pair of texts which might be mixed up.
    let like = [
        "n", "N", "n ", " n", "nn", "n*", "*", "?", "n?", "[n]", "n.", "n/", "n:1", "n,", "N\u{303}", "n\u{303}", "\u{f1}", "\u{ff4e}", "n\t", "n%", "n_", "_", "%", ".*", "^n", "n$", "n\u{200b}", "n;m", "n m", "m", "", "1", "01", "2", "n\\", "\"n\"", "www.n",
    ];
    let sites = ["a.com", "A.com", "a.com.", "*.com", "?.com", "a.co", "a.comm", "b.a.com", "ba.com", "a.com:80", "a.com/", "http://a.com", "a_com", "a.com ", "*", "\u{430}.com", "www.www.a.com", "wwww.a.com", "WWW.a.com", "www", "a-com", "a%com"];
    let revs = ["1", "2", "01", "11", "12", "1 ", " 1", "1.", "1.0", "0", "+1", "*", "?", "1*", "one", "One", "\u{661}", "\u{b9}"];
    let mut pairs: Vec<([&str; 3], [&str; 3])> = Vec::new();
    for (field, texts) in [&like[..], &sites, &revs].into_iter().enumerate() {
        for x in texts {
            for y in texts {
                let (mut a, mut b) = (["a.com", "n", "2"], ["a.com", "n", "2"]);
                a[field] = x;
                b[field] = y;
                pairs.push((a, b));
            }
        }
    }
    ctx.par(pairs.len() * 4, |k| {
        let (there, given) = pairs[k / 4];
        let mut m = empty();
        m.apply(&model::stored(there[0], there[1], there[2], "valuable"));
        let rev = if given[2] == "1" && k % 8 < 4 { None } else { Some(given[2]) };
        let cmd = if k % 2 == 0 { add(given[0], given[1], rev, None, 0, false) } else { add_stored(given[0], given[1], rev, false) };
        let same = m.content.passwords.contains_key(&m.id(given[0], given[1], given[2]));
        let mut input = vec![PRIMARY];
        if same {
            input.push(if k % 4 < 2 { "n" } else { "y" });
        }
        input.push("new value");
        let place = Place::new(&ctx);
        let bytes = clix::initial_bytes(&m);
        ctx.trans(1);
        ctx.trace(1);
        ctx.state(1);
        let r = clix::step(&ctx, &place, bytes.as_deref(), &m, &cmd, &lines(&input), &Opts { seed: Some(k as u64), ..Default::default() }).and_then(|s| {
            let n = asked(&s.res.out()).0;
            if n != same as usize {
                return Err(format!("asked {} times\n{}", n, s.res.describe()));
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(&format!("alike {:?} {:?}", there, cmd.args()), format!("password {:?} exists: {} with input {:?}\n=> {}", there, cmd.args().join(" "), input, e));
        }
    });
    ctx.note(&format!("{} ordered pairs of existing and added passwords whose site, name or revision might be mixed up", pairs.len()));

    // Entries that cannot be read are still there.
    let mut damaged: Vec<(String, refc::Raw, String)> = Vec::new();
    let start = populated();
    let raw = raw_for(&start);
    let w = refc::Writer::new(PRIMARY, b"0123456789abcdef", &[0x42; 32]);
    for id in [("a.com", "n", ""), ("a.com", "n", "2")] {
        let key = w.password_key(&(id.0.into(), id.1.into(), id.2.into()));
        let value = raw[&key].clone();
        for bad in [String::new(), "rubbish".into(), value[..value.len() - 4].to_string(), value.replace('_', ""), raw["hmac-secret"].clone(), format!("A{}", value)] {
            let mut r = raw.clone();
            r.insert(key.clone(), bad);
            damaged.push((id.2.into(), r, key.clone()));
        }
    }
    let choices = ["", "n", "y", "maybe"];
    ctx.par(damaged.len() * choices.len() * 4 * 2, |k| {
        let (rev, raw, key) = &damaged[k / choices.len() / 8];
        let answer = choices[k / 8 % choices.len()];
        let site = ["a.com", "www.a.com", "c.com", "www.c.com"][k / 2 % 4];
        let rev = if rev.is_empty() { None } else { Some(rev.as_str()) };
        let cmd = if k % 2 == 0 { add(site, "n", rev, None, 0, false) } else { add_stored(site, "n", rev, false) };
        let place = Place::new(&ctx);
        place.write(raw);
        let before = place.tree();
        let res = place.run(&ctx, &cmd.args(), &lines(&[PRIMARY, answer, "new value"]), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| {
            if asked(&res.out()).0 == 0 {
                return Err("nothing was asked".into());
            }
            if answer != "y" {
                return if place.tree() == before { Ok(()) } else { Err("changed without consent".to_string()) };
            }
            let now = place.raw()?;
            let changed: Vec<&String> = now.keys().filter(|k| now.get(*k) != raw.get(*k)).chain(raw.keys().filter(|k| !now.contains_key(*k))).collect();
            if !res.ok() || changed != [key] {
                return Err(format!("entries {:?} were changed", changed));
            }
            refc::decrypt_value(&w.key, &now[key]).map(|_| ()).ok_or("the new entry isn't readable".into())
        });
        if let Err(e) = r {
            ctx.violation(&format!("damaged entry {} {:?}", cmd.args().join(" "), answer), format!("entry {:?}: {} answer {:?}\n=> {}\n{}", raw[key], cmd.args().join(" "), answer, e, res.describe()));
        }
    });

    // Storage files that cannot be read might still be valuable.
    let bad = c23::unusable(false);
    let choices: [(&str, &[&str]); 8] = [
        ("no", &["n", "another pw", "another pw"]),
        ("empty", &["", "another pw", "another pw"]),
        ("password", &["another pw", "another pw"]),
        ("end", &[]),
        ("yes, end", &["y"]),
        ("yes, different", &["y", "another pw", "another_pw"]),
        ("yes, short", &["y", "short", "short"]),
        ("yes", &["yes", "another pw", "another pw"]),
    ];
    ctx.par(bad.len() * choices.len(), |k| {
        let b = &bad[k / choices.len()];
        let (what, input) = choices[k % choices.len()];
        let place = Place::new(&ctx);
        std::fs::write(&place.file, &b.bytes).unwrap();
        let before = place.tree();
        let res = place.run(&ctx, &args(&["set-primary"]), &lines(input), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| {
            if asked(&res.out()).1 == 0 {
                return Err("nothing was asked".into());
            }
            if what != "yes" {
                if place.tree() != before {
                    return Err("files were changed".to_string());
                }
                if what.starts_with("yes") && res.ok() {
                    return Err("the command succeeded".into());
                }
                return Ok(());
            }
            let opened = refc::open(&place.raw()?, "another pw")?;
            if !res.ok() || opened.content != Default::default() || place.tree().len() != 2 {
                return Err("no empty storage was created".into());
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(&format!("unusable file, {}: {}", what, b.what), format!("file: {}, set-primary with {:?}\n=> {}\n{}", b.what, input, e, res.describe()));
        }
    });
    ctx.note(&format!("set-primary with {} unusable files, {} dialogues", bad.len(), choices.len()));
    // Nothing there: nothing asked. Something there that isn't a file: asked, or failing without change.
    for (what, setup) in [("missing", 0), ("missing directory", 1), ("dangling link", 2), ("directory", 3), ("linked", 4)] {
        for input in [&["another pw", "another pw"][..], &["y", "another pw", "another pw"], &["n"], &[]] {
            let mut place = Place::new(&ctx);
            match setup {
                1 => place.file = place.dir.join("no/such/storage.json"),
                2 => std::os::unix::fs::symlink("nowhere.json", &place.file).unwrap(),
                3 => {
                    std::fs::create_dir(&place.file).unwrap();
                    std::fs::write(place.file.join("content"), "x").unwrap();
                }
                4 => {
                    std::fs::write(place.dir.join("real.json"), refc::file_text(&raw)).unwrap();
                    std::os::unix::fs::symlink("real.json", &place.file).unwrap();
                }
                _ => {}
            }
            let before = place.tree();
            let res = place.run(&ctx, &args(&["set-primary"]), &lines(input), &Opts::default());
            ctx.eval(1);
            ctx.trans(1);
            ctx.trace(1);
            let question = asked(&res.out()).1 > 0;
            let r = res.orderly().and_then(|_| {
                if question != (setup >= 3) {
                    return Err(format!("asked: {}", question));
                }
                let agreed = if setup >= 3 { input.len() == 3 } else { input.len() == 2 };
                if setup == 3 && res.ok() && agreed {
                    return Err("a directory cannot be replaced".into());
                }
                if (!agreed || setup == 3) && place.tree() != before {
                    return Err("files were changed".into());
                }
                if agreed && setup != 3 && !(res.ok() && refc::open(&place.raw()?, "another pw").is_ok()) {
                    return Err("no storage was created".into());
                }
                Ok(())
            });
            if let Err(e) = r {
                ctx.violation(&format!("{} {:?}", what, input), format!("{}: set-primary with {:?}\n=> {}\n{}", what, input, e, res.describe()));
            }
        }
    }

    // In the shell the same questions are asked.
    let lines_of = short.iter().filter(|s| !s.2).collect::<Vec<_>>();
    let commands: Vec<&Target> = targets.iter().filter(|t| !matches!(t.cmd, Cmd::SetPrimary { .. })).collect();
    let stride = ctx.pick(5, 1);
    ctx.par(lines_of.len() * commands.len() / stride, |k| {
        let k = k * stride + k % stride;
        let target = commands[k % commands.len()];
        let (label, answer, _) = lines_of[k / commands.len() % lines_of.len()];
        let place = Place::new(&ctx);
        let mut m = target.start.clone();
        place.write(&raw_for(&m));
        m.unlocked = false;
        // Everything following an answer that isn't clear is an answer as well.
        let mut input = lines(&[PRIMARY]);
        input.extend(answer);
        input.extend(lines(&target.after.iter().map(|l| l.as_str()).collect::<Vec<_>>()));
        let mut all = clix::to_lines(&input);
        let e = refcli::simulate(&m, &target.cmd, &mut all);
        if all.iter().any(|l| l.trim() != "new value" && !refc::recovery_clean(l).is_empty() && l.trim().len() < 20) {
            return;
        }
        // Lines left are run as commands, neither of them is one.
        let mut script = lines(&[&target.cmd.shell_line()]);
        script.extend(&input);
        let history = place.io_path("history");
        let res = place.run(&ctx, &args(&["shell", "-s", history.to_str().unwrap()]), &script, &Opts { seed: Some(k as u64), ..Default::default() });
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| {
            let opened = refc::open(&place.raw()?, PRIMARY)?;
            refcli::check_content(&opened.content, &e)
        });
        if let Err(err) = r {
            ctx.violation(&format!("shell {} {}", target.cmd.args().join(" "), label), format!("shell: {} with answer {}\n=> {}\n{}", target.cmd.shell_line(), label, err, res.describe()));
        }
    });
    // Consent given once says nothing about the next time.
    let mut alphabet = Vec::new();
    for site in ["a.com", "d.com"] {
        for rev in [None, Some("2")] {
            for answer in ["y", "n", ""] {
                alphabet.push(c17::command(add(site, "n", rev, Some(20), 0, false), &[answer]));
                alphabet.push(c17::command(add_stored(site, "n", rev, false), &[answer, "value"]));
            }
        }
    }
    alphabet.push(c17::command(add("a.com", "n", None, Some(20), 0, true), &[]));
    alphabet.push(c17::command(add_stored("a.com", "n", Some("2"), true), &["value"]));
    alphabet.push(c17::command(clix::remove("a.com", "n", Some("2")), &[]));
    alphabet.push(c17::lock());
    if ctx.thorough {
        c17::explore(&ctx, "consent in the shell", &alphabet, 3, false);
        c17::explore(&ctx, "consent in long sessions", &alphabet[..8], 5, false);
    } else {
        c17::explore(&ctx, "consent in the shell", &alphabet, 2, false);
        c17::explore(&ctx, "consent in longer sessions", &alphabet.iter().enumerate().filter(|(i, _)| [0, 1, 3, 6, 7, 9, 24, 25, 26, 27].contains(i)).map(|(_, x)| x.clone()).collect::<Vec<_>>(), 4, false);
    }
    ctx.finish(
        "model_checking",
        "each command with each answer is run as a real process; asked exactly if something would be lost and consent wasn't given on the command line, files byte for byte unchanged unless the answer is y or yes (any case, blanks around it)",
        &["answers of a fixed list of adversarial texts, sequences of up to two", "input is read from a file"],
    )
}
