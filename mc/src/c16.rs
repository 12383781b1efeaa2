//! C16: commands do what they report and report what they did.

use crate::c01::{empty, populated, PRIMARY};
use crate::cli::*;
use crate::clix::*;
use crate::model::Model;
use crate::refcli::Cmd;
use crate::util::Ctx;

/// All commands with all relevant inputs.
pub fn alphabet(deep: bool) -> Alphabet {
    let p = PRIMARY;
    let mut v: Alphabet = Vec::new();
    let mut with = |c: Cmd, more: &[&str]| {
        let mut l = vec![p];
        l.extend(more);
        v.push((c, lines(&l)));
    };
    for site in ["a.com", "www.c.com"] {
        for rev in [None, Some("1"), Some("2")] {
            with(add(site, "n", rev, None, 0, false), &["y"]);
            with(add(site, "n", rev, Some(8), 0b1010, true), &[]);
            with(add_stored(site, "n", rev, true), &["stored value"]);
            with(remove(site, "n", rev), &[]);
            with(show(site, "n", rev), &[]);
            with(notes(site, "n", rev, false), &[]);
            with(notes(site, "n", rev, true), &["a note"]);
            with(notes(site, "n", rev, true), &[""]);
        }
    }
    with(add("a.com", "n", None, None, 0, false), &["n"]);
    with(add("a.com", "n", None, None, 0, false), &["what", "", "y"]);
    with(add("a.com", "n", None, None, 0, false), &[]);
    with(add("b.com", "m", Some("3"), Some(4), 0b0111, false), &["yes"]);
    with(add("b.com", "m", None, Some(24), 0b1110, false), &["No"]);
    with(add("a.com", "n", None, None, 15, false), &["y"]);
    with(add("a.com", "n", None, Some(3), 0, true), &[]);
    with(add("a.com", "n", None, Some(25), 0, true), &[]);
    with(add_stored("a.com", "n", None, false), &["y", "  trimmed  "]);
    with(add_stored("a.com", "n", None, true), &[""]);
    with(add_stored("a.com", "n", None, true), &[]);
    with(add_stored("b.com", "m", None, false), &["Y", "2nd"]);
    with(notes("a.com", "n", None, true), &[]);
    with(notes("a.com", "n", None, true), &["  spaces \t"]);
    with(notes("a.com", "n", None, true), &["   "]);
    with(add_stored("a.com", "n", None, true), &["   "]);
    for flags in 0..8 {
        with(list(flags), &[]);
    }
    with(list_for("a.com", None, 4), &[]);
    with(list_for("c.com", Some("n"), 1), &[]);
    with(list_for("*.com", Some("m"), 0), &[]);
    with(list_for("nothing", None, 7), &[]);
    for (a, b) in [("c.com", "a.com"), ("c.com", "www.b.com"), ("a.com", "c.com"), ("a.com", "a.com"), ("www.b.com", "a.com")] {
        with(alias(a, b), &[]);
    }
    with(Cmd::Alias { site: s("c.com"), target: Some(s("b.com")), remove: true }, &[]);
    for a in ["a.com", "www.c.com", "b.com"] {
        with(unalias(a), &[]);
        with(show_alias(a), &[]);
    }
    // Wrong, short and no passwords before the right one; end of input everywhere.
    for c in [list(7), show("a.com", "n", None), add("a.com", "x", None, None, 0, true), remove("a.com", "n", None), unalias("c.com")] {
        v.push((c.clone(), lines(&["wrong one", "short", "", PRIMARY])));
        v.push((c.clone(), lines(&["wrong one"])));
        v.push((c.clone(), vec![]));
        v.push((c, PRIMARY.as_bytes().to_vec()));
    }
    for yes in [false, true] {
        for l in [
            &["y", PRIMARY, PRIMARY][..],
            &["y", "another primary", "another primary"],
            &["another primary", "another primary"],
            &["n", "another primary", "another primary"],
            &["y", "another primary", "different one"],
            &["y", "short", "short"],
            &["y", "another primary"],
            &["y"],
            &[],
        ] {
            v.push((Cmd::SetPrimary { yes }, lines(l)));
        }
    }
    if deep {
        for rev in ["", "01", "one two", "-5", "--", "x".repeat(70).as_str()] {
            v.push((add("a.com", "n", Some(rev), None, 0, true), lines(&[p])));
            v.push((show("a.com", "n", Some(rev)), lines(&[p])));
        }
        for len in 4..=24 {
            v.push((add("a.com", "n", None, Some(len), 0, true), lines(&[p])));
        }
        for ex in 0..16 {
            v.push((add("a.com", "n", None, None, ex, true), lines(&[p])));
        }
        for name in ["", " ", "-n", "n n", "ü", "*", "\"q\"", "n\\", "name (generated)"] {
            v.push((add("a.com", name, None, None, 0, true), lines(&[p])));
            v.push((add_stored(name, "n", None, true), lines(&[p, "pw"])));
        }
        for pw in ["a b", "ü\u{1F600}", "\"", "\\", "\t x", "Password added.", "y"] {
            v.push((add_stored("a.com", "n", None, true), lines(&[p, pw])));
            v.push((notes("a.com", "n", None, true), lines(&[p, pw])));
        }
    }
    v
}

/// Command lines that cannot be understood change nothing and fail.
fn malformed(ctx: &Ctx) {
    let bytes = initial_bytes(&populated()).unwrap();
    let bad: Vec<Vec<&str>> = vec![
        vec![],
        vec!["unknown"],
        vec!["add"],
        vec!["add", "a.com"],
        vec!["add", "a.com", "n", "extra"],
        vec!["add", "a.com", "n", "-l", "abc", "-y"],
        vec!["add", "a.com", "n", "-l", "-5", "-y"],
        vec!["add", "a.com", "n", "-l", "0", "-y"],
        vec!["add", "a.com", "n", "-l", "3", "-y"],
        vec!["add", "a.com", "n", "-l", "25", "-y"],
        vec!["add", "a.com", "n", "-l", "99999999999999999999999999", "-y"],
        vec!["add", "a.com", "n", "-l"],
        vec!["add", "a.com", "n", "-x", "-y"],
        vec!["add", "a.com", "n", "-wuds", "-y"],
        vec!["add", "a.com", "n", "-y", "--no-such-option"],
        vec!["add-stored"],
        vec!["add-stored", "a.com"],
        vec!["remove"],
        vec!["remove", "a.com"],
        vec!["remove", "a.com", "n", "-y"],
        vec!["show", "a.com"],
        vec!["show", "a.com", "n", "-z"],
        vec!["notes", "a.com"],
        vec!["list", "a", "b", "c"],
        vec!["list", "-z"],
        vec!["alias"],
        vec!["alias", "a", "b", "c"],
        vec!["set-primary", "extra"],
        vec!["set-primary", "-z"],
        vec!["set-primary", "secret pw"],
        vec!["-y"],
        vec!["--unknown", "list"],
        vec!["lock"],
        vec!["exit"],
    ];
    ctx.par(bad.len(), |i| {
        let place = Place::new(ctx);
        std::fs::write(&place.file, &bytes).unwrap();
        let before = place.tree();
        let res = place.run(ctx, &args(&bad[i]), &lines(&[PRIMARY, "y", "another pw", "another pw", "y", "y"]), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let verdict = res.orderly().and_then(|_| {
            if res.ok() {
                Err("succeeded".to_string())
            } else if res.stderr.is_empty() {
                Err("failed without any message".to_string())
            } else if place.tree() != before {
                Err("changed something".to_string())
            } else {
                Ok(())
            }
        });
        if let Err(e) = verdict {
            ctx.violation(&format!("malformed:{}", bad[i].join(" ")), format!("command line {:?}: {}\n{}", bad[i], e, res.describe()));
        }
    });
}

/// The storage file is the one named, or the one in the user's configuration directory.
fn paths(ctx: &Ctx) {
    let cases: Vec<(&str, Vec<&str>)> = vec![
        ("home/.config/PfP/storage.json", vec![]),
        ("relative.json", vec!["-c", "relative.json"]),
        ("sub/dir/deep.json", vec!["-c", "sub/dir/deep.json"]),
        ("with space", vec!["-c", "with space"]),
        ("x", vec!["--storage", "x"]),
        ("y.json", vec!["--storage=./y.json"]),
    ];
    ctx.par(cases.len(), |i| {
        let (file, opts) = &cases[i];
        let place = Place::new(ctx);
        let mut model = Model::default();
        let script: Vec<(Cmd, Vec<&str>)> = vec![
            (Cmd::SetPrimary { yes: false }, vec![PRIMARY, PRIMARY]),
            (add_stored("a.com", "n", None, false), vec![PRIMARY, "pw"]),
            (show("a.com", "n", None), vec![PRIMARY]),
            (add("a.com", "n", Some("2"), None, 0, false), vec![PRIMARY]),
            (list(7), vec![PRIMARY]),
            (Cmd::SetPrimary { yes: false }, vec!["y", "another pw", "another pw"]),
            (list(0), vec!["another pw"]),
        ];
        for (cmd, input) in script {
            let mut a = vec!["--stdin-passwords".to_string()];
            a.extend(args(opts));
            a.extend(cmd.args());
            model.unlocked = false;
            let expect = crate::refcli::simulate(&model, &cmd, &mut to_lines(&lines(&input)));
            let res = place.run(ctx, &a, &lines(&input), &Opts { raw_args: true, ..Default::default() });
            ctx.eval(1);
            ctx.trans(1);
            ctx.trace(1);
            model = expect.after.clone();
            let files: Vec<String> = place.tree().into_iter().filter(|(_, c)| c.is_some()).map(|(n, _)| n).collect();
            let verdict = crate::refcli::check_result(&res, &model, &expect).and_then(|_| {
                if files != [file.to_string()] {
                    return Err(format!("files present: {:?}", files));
                }
                let text = std::fs::read_to_string(place.dir.join(file)).map_err(|e| e.to_string())?;
                let opened = crate::refc::open(&crate::refc::parse_file(&text)?, &model.primary)?;
                crate::refcli::check_content(&opened.content, &expect)
            });
            if let Err(e) = verdict {
                ctx.violation(&format!("path:{}", file), format!("file {}, {:?}: {}\n{}", file, a, e, res.describe()));
                return;
            }
        }
    });
    ctx.count("storage locations", cases.len() as u64);
}

/// Name, options (short, long, value) and further arguments of a command.
fn parts(cmd: &Cmd) -> (&'static str, Vec<(char, &'static str, Option<String>)>, Vec<String>) {
    let mut o: Vec<(char, &'static str, Option<String>)> = Vec::new();
    let mut revision = |o: &mut Vec<(char, &'static str, Option<String>)>, rev: &Option<String>| {
        if let Some(r) = rev {
            o.push(('r', "revision", Some(r.clone())));
        }
    };
    fn flag(o: &mut Vec<(char, &'static str, Option<String>)>, set: bool, short: char, long: &'static str) {
        if set {
            o.push((short, long, None));
        }
    }
    match cmd {
        Cmd::SetPrimary { yes } => {
            flag(&mut o, *yes, 'y', "assume-yes");
            ("set-primary", o, vec![])
        }
        Cmd::Add { site, name, rev, len, exclude, yes } => {
            revision(&mut o, rev);
            if let Some(l) = len {
                o.push(('l', "length", Some(l.to_string())));
            }
            for (i, (short, long)) in [('w', "no-lower"), ('u', "no-upper"), ('d', "no-digit"), ('s', "no-symbol")].into_iter().enumerate() {
                flag(&mut o, exclude >> i & 1 == 1, short, long);
            }
            flag(&mut o, *yes, 'y', "assume-yes");
            ("add", o, vec![site.clone(), name.clone()])
        }
        Cmd::AddStored { site, name, rev, recovery, yes } => {
            revision(&mut o, rev);
            flag(&mut o, *recovery, 'c', "recovery");
            flag(&mut o, *yes, 'y', "assume-yes");
            ("add-stored", o, vec![site.clone(), name.clone()])
        }
        Cmd::Remove { site, name, rev } => {
            revision(&mut o, rev);
            ("remove", o, vec![site.clone(), name.clone()])
        }
        Cmd::Show { site, name, rev } => {
            revision(&mut o, rev);
            ("show", o, vec![site.clone(), name.clone()])
        }
        Cmd::Notes { site, name, rev, set } => {
            revision(&mut o, rev);
            flag(&mut o, *set, 's', "set");
            ("notes", o, vec![site.clone(), name.clone()])
        }
        Cmd::List { site, name, show, recovery, verbose } => {
            flag(&mut o, *show, 's', "show");
            flag(&mut o, *recovery, 'r', "recovery");
            flag(&mut o, *verbose, 'v', "verbose");
            ("list", o, site.iter().chain(name).cloned().collect())
        }
        Cmd::Alias { site, target, remove } => {
            flag(&mut o, *remove, 'r', "remove");
            ("alias", o, [site.clone()].into_iter().chain(target.clone()).collect())
        }
    }
}

/// All the ways to write down a command.
fn spellings(cmd: &Cmd) -> Vec<Vec<String>> {
    let (name, options, positional) = parts(cmd);
    let forms: Vec<Vec<Vec<String>>> = options
        .iter()
        .map(|(short, long, value)| match value {
            None => vec![vec![format!("-{}", short)], vec![format!("--{}", long)]],
            Some(v) => vec![
                vec![format!("-{}", short), v.clone()],
                vec![format!("-{}{}", short, v)],
                vec![format!("-{}={}", short, v)],
                vec![format!("--{}", long), v.clone()],
                vec![format!("--{}={}", long, v)],
            ],
        })
        .collect();
    // (order of options, form of each, slot of each) -> command line
    let build = |order: &[usize], form: &[usize], slot: &[usize]| -> Vec<String> {
        let mut v = vec![name.to_string()];
        for p in 0..=positional.len() {
            for &o in order {
                if slot[o] == p {
                    v.extend(forms[o][form[o]].clone());
                }
            }
            if p < positional.len() {
                v.push(positional[p].clone());
            }
        }
        v
    };
    let n = options.len();
    let order: Vec<usize> = (0..n).collect();
    let mut result = vec![build(&order, &vec![0; n], &vec![0; n])];
    // Each option in all forms in all places
    for o in 0..n {
        for f in 0..forms[o].len() {
            for s in 0..=positional.len() {
                for others in 0..=positional.len() {
                    let mut form = vec![0; n];
                    let mut slot = vec![others; n];
                    form[o] = f;
                    slot[o] = s;
                    result.push(build(&order, &form, &slot));
                }
            }
        }
    }
    // Everything long, and in other orders
    for rotate in 0..n {
        for last in [false, true] {
            let form: Vec<usize> = forms.iter().map(|f| if last { f.len() - 1 } else { f.len() / 2 }).collect();
            let mut order: Vec<usize> = (0..n).map(|i| (i + rotate) % n).collect();
            for s in 0..=positional.len() {
                result.push(build(&order, &form, &vec![s; n]));
                order.reverse();
                result.push(build(&order, &form, &vec![s; n]));
            }
        }
    }
    // Single letters in one word, with the one taking a value at the end
    for rotate in 0..n {
        let mut letters = String::from("-");
        let mut values = Vec::new();
        for i in 0..n {
            let (short, _, value) = &options[(i + rotate) % n];
            match value {
                None => letters.push(*short),
                Some(v) => values.push((short, v)),
            }
        }
        if letters.len() < 2 {
            continue;
        }
        for joined in [false, true] {
            for s in 0..=positional.len() {
                let mut group = letters.clone();
                let mut rest = Vec::new();
                for (i, (short, v)) in values.iter().enumerate() {
                    if i > 0 {
                        rest.push(format!("-{}{}", short, v));
                    } else if joined {
                        group += &format!("{}{}", short, v);
                    } else {
                        group.push(**short);
                        rest.push(v.to_string());
                    }
                }
                let mut v = vec![name.to_string()];
                v.extend(positional[..s].iter().cloned());
                v.push(group);
                v.extend(rest);
                v.extend(positional[s..].iter().cloned());
                result.push(v);
            }
        }
    }
    let unmarked = result.clone();
    for v in unmarked {
        // Without options after this it doesn't matter
        if let Some(p) = positional.first().and_then(|f| v.iter().position(|x| x == f)) {
            if v[p..] == positional[..] {
                let mut v = v.clone();
                v.insert(p, "--".into());
                result.push(v);
            }
        }
    }
    result.sort();
    result.dedup();
    result
}

/// Options mean the same however they are written.
fn written_differently(ctx: &Ctx) {
    let start = populated();
    let bytes = initial_bytes(&start).unwrap();
    let p = PRIMARY;
    let mut cmds: Vec<(Cmd, Vec<&str>)> = vec![
        (add("x.com", "user", None, None, 0, false), vec![p]),
        (add("a.com", "n", None, Some(9), 0, true), vec![p]),
        (add("a.com", "n", None, None, 0, true), vec![p]),
        (add("x.com", "user", Some("3"), Some(20), 0b0101, true), vec![p]),
        (add("x.com", "user", Some("7"), Some(4), 0b1000, false), vec![p]),
        (add_stored("a.com", "n", Some("2"), true), vec![p, "value"]),
        (add_stored("a.com", "n", Some("2"), false), vec![p, "y", "value"]),
        (add_stored("x.com", "user", None, false), vec![p, "value"]),
        (remove("a.com", "n", None), vec![p]),
        (remove("a.com", "n", Some("2")), vec![p]),
        (show("a.com", "n", None), vec![p]),
        (show("a.com", "n", Some("2")), vec![p]),
        (notes("a.com", "n", Some("2"), false), vec![p]),
        (notes("a.com", "n", Some("2"), true), vec![p, "text"]),
        (notes("a.com", "n", None, true), vec![p, "text"]),
        (list_for("a.com", None, 7), vec![p]),
        (list_for("a.com", Some("n"), 7), vec![p]),
        (list_for("*", Some("m"), 3), vec![p]),
        (alias("x.com", "a.com"), vec![p]),
        (unalias("c.com"), vec![p]),
        (show_alias("c.com"), vec![p]),
        (Cmd::SetPrimary { yes: true }, vec!["another pw", "another pw"]),
        (Cmd::SetPrimary { yes: false }, vec!["y", "another pw", "another pw"]),
    ];
    for flags in 0..8 {
        cmds.push((list(flags), vec![p]));
    }
    for exclude in 1..15 {
        cmds.push((add("x.com", "user", None, None, exclude, true), vec![p]));
    }
    let mut jobs: Vec<(&Cmd, Vec<u8>, Vec<String>, usize)> = Vec::new();
    let globals = 9;
    for (c, input) in &cmds {
        let all = spellings(c);
        for (i, v) in all.iter().enumerate() {
            jobs.push((c, lines(input), v.clone(), i % globals));
        }
        for g in 0..globals {
            jobs.push((c, lines(input), all[0].clone(), g));
        }
    }
    ctx.count("spellings of command lines", jobs.len() as u64);
    ctx.par(jobs.len(), |i| {
        let (cmd, input, line, global) = &jobs[i];
        let place = Place::new(ctx);
        std::fs::write(&place.file, &bytes).unwrap();
        let file = place.file.to_str().unwrap();
        let mut a: Vec<String> = match global {
            0 => args(&["--stdin-passwords", "-c", file]),
            1 => args(&["-c", file, "--stdin-passwords"]),
            2 => args(&["--stdin-passwords", "--storage", file]),
            3 => vec!["--stdin-passwords".into(), format!("--storage={}", file)],
            4 => vec![format!("-c{}", file), "--stdin-passwords".into()],
            5 => vec![format!("-c={}", file), "--stdin-passwords".into()],
            6 => args(&["--storage", "storage.json", "--stdin-passwords"]),
            7 => args(&["--stdin-passwords", "-cstorage.json"]),
            _ => args(&["--stdin-passwords", "-c", "./storage.json"]),
        };
        a.extend(line.clone());
        let mut model = start.clone();
        model.unlocked = false;
        let expect = crate::refcli::simulate(&model, cmd, &mut to_lines(input));
        let res = place.run(ctx, &a, input, &Opts { raw_args: true, ..Default::default() });
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let verdict = res.orderly().and_then(|_| {
            let mut out = res.out();
            for shown in ["storage.json", "./storage.json"] {
                out = out.replace(&format!("set for {}.", shown), &format!("set for {}.", file));
            }
            let res = Res { stdout: out.into_bytes(), ..res.clone() };
            crate::refcli::check_result(&res, &expect.after, &expect)?;
            check_place(&place, Some(&bytes), &model, cmd, &expect).map(|_| ())
        });
        if let Err(e) = verdict {
            ctx.violation(&format!("spelling:{}", line.join(" ")), format!("{} (meaning {}): {}\n{}", a.join(" "), cmd.args().join(" "), e, res.describe()));
        }
    });
}

/// Asking for help works without a storage and has no effects.
fn help(ctx: &Ctx) {
    let names = ["set-primary", "add", "add-stored", "remove", "show", "notes", "list", "alias", "shell"];
    let mut all: Vec<Vec<String>> = vec![args(&["--help"]), args(&["-h"]), args(&["help"]), args(&["--version"]), args(&["-V"]), args(&["help", "help"]), args(&["-c", "storage.json", "--help"])];
    for n in names {
        all.push(args(&["help", n]));
        all.push(args(&[n, "--help"]));
        all.push(args(&[n, "-h"]));
        all.push(args(&[n, "a.com", "n", "-h"]));
        all.push(args(&["-c", "storage.json", n, "--help"]));
    }
    all.retain(|a| !(a.contains(&"n".to_string()) && ["set-primary", "shell"].contains(&a[0].as_str())));
    let bytes = initial_bytes(&populated()).unwrap();
    ctx.par(all.len() * 3, |i| {
        let place = Place::new(ctx);
        match i % 3 {
            0 => {}
            1 => std::fs::write(&place.file, &bytes).unwrap(),
            _ => std::fs::write(&place.file, b"something else").unwrap(),
        }
        let before = place.tree();
        let res = place.run(ctx, &all[i / 3], &lines(&[PRIMARY, "y"]), &Opts { raw_args: true, ..Default::default() });
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let verdict = res.orderly().and_then(|_| {
            if !res.ok() {
                Err("failed".to_string())
            } else if res.stdout.is_empty() {
                Err("nothing displayed".into())
            } else if place.tree() != before {
                Err("changed something".into())
            } else {
                Ok(())
            }
        });
        if let Err(e) = verdict {
            ctx.violation(&format!("help:{}", all[i / 3].join(" ")), format!("{:?}: {}\n{}", all[i / 3], e, res.describe()));
        }
    });
}

/// Arguments and entered texts are used as they are.
fn arguments(ctx: &Ctx) {
    let (mut words, unusual) = crate::clix::words();
    for c in (1u8..0x20).chain([0x7f]).map(char::from).filter(|c| *c != '\n').chain(['\u{85}', '\u{2028}', '\u{ad}', '\u{e000}', '\u{10ffff}']) {
        words.extend([c.to_string(), format!("x{}", c), format!("{}x", c), format!("x{}y", c)]);
    }
    let thorough = ctx.thorough;
    ctx.par(words.len() * 5, |i| {
        let (n, field) = (i / 5, i % 5);
        let w = words[n].as_str();
        if field >= 3 && w.contains('\u{fffd}') {
            // Stands for invalid UTF-8 in the reference
            return;
        }
        let put = |f: usize, default: &'static str| if f == field { w } else { default };
        let (site, name, rev) = (put(0, "q.com"), put(1, "n"), put(2, "r"));
        let secret = put(3, "a value");
        let text = put(4, "a note");
        let start = populated();
        let mut with = start.clone();
        with.apply(&crate::model::stored(site, name, rev, "some value"));
        with.apply(&crate::model::notes(site, name, rev, "some notes"));
        let rev = Some(rev);
        let mut runs: Vec<(&Model, Cmd, Vec<&str>)> = vec![(&start, add_stored(site, name, rev, false), vec![PRIMARY, secret])];
        if field < 3 {
            runs.push((&with, show(site, name, rev), vec![PRIMARY]));
        } else {
            runs.push((&with, add_stored(site, name, rev, true), vec![PRIMARY, secret]));
        }
        runs.push((&with, notes(site, name, rev, true), vec![PRIMARY, text]));
        if field < 3 && (thorough || n < unusual || n % 3 == 0) {
            runs.push((&start, show(site, name, rev), vec![PRIMARY]));
            runs.push((&with, notes(site, name, rev, false), vec![PRIMARY]));
            runs.push((&with, remove(site, name, rev), vec![PRIMARY]));
            runs.push((&start, remove(site, name, rev), vec![PRIMARY]));
            runs.push((&start, add(site, name, rev, None, 0, false), vec![PRIMARY]));
            runs.push((&with, add(site, name, rev, Some(7), 2, true), vec![PRIMARY]));
        }
        if field == 0 {
            runs.push((&start, alias(site, "a.com"), vec![PRIMARY]));
            runs.push((&with, alias(site, "a.com"), vec![PRIMARY]));
            runs.push((&start, alias("q.com", site), vec![PRIMARY]));
        }
        let mut aliased = start.clone();
        aliased.apply(&crate::model::alias(site, "a.com"));
        if field == 0 {
            runs.push((&aliased, show_alias(site), vec![PRIMARY]));
            runs.push((&aliased, show(site, "n", None), vec![PRIMARY]));
            runs.push((&aliased, unalias(site), vec![PRIMARY]));
        }
        for (model, cmd, input) in runs {
            ctx.trans(1);
            ctx.trace(1);
            let place = Place::new(ctx);
            let input = lines(&input);
            if let Err(e) = crate::clix::step(ctx, &place, initial_bytes(model).as_deref(), model, &cmd, &input, &Opts::default()) {
                ctx.violation(&format!("argument {:?} {:?}", cmd.args(), String::from_utf8_lossy(&input)), format!("{}", e));
            }
        }
    });
    ctx.count("texts as arguments and entered", words.len() as u64);
}

/// Output that cannot be written: the storage is as before or as the command leaves it, completely.
fn lost_output(ctx: &Ctx, all: &Alphabet) {
    use std::io::Write;
    use std::process::Stdio;
    let start = populated();
    let bytes = initial_bytes(&start).unwrap();
    ctx.par(all.len() * 4, |i| {
        let (cmd, input) = &all[i / 4];
        let what = ["output to a full device", "output to a closed pipe", "messages to a full device", "both to a closed pipe"][i % 4];
        let mut place = Place::new(ctx);
        place.reset();
        std::fs::write(&place.file, &bytes).unwrap();
        let mut model = start.clone();
        model.unlocked = false;
        let expect = crate::refcli::simulate(&model, cmd, &mut to_lines(input));
        if expect.questions > 0 {
            // The question crate repeats a question endlessly if it cannot be displayed.
            return;
        }
        let mut c = place.command(ctx, &cmd.args(), &Opts::default());
        let broken = || -> Stdio {
            if i % 2 == 0 {
                Stdio::from(std::fs::OpenOptions::new().write(true).open("/dev/full").unwrap())
            } else {
                let mut fds = [0; 2];
                unsafe {
                    use std::os::fd::FromRawFd;
                    assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
                    libc::close(fds[0]);
                    Stdio::from(std::os::fd::OwnedFd::from_raw_fd(fds[1]))
                }
            }
        };
        c.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped());
        if i % 4 != 2 {
            c.stdout(broken());
        }
        if i % 4 >= 2 {
            c.stderr(broken());
        }
        let mut child = match c.spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot run the program: {}", e);
                std::process::exit(2);
            }
        };
        let mut stdin = child.stdin.take().unwrap();
        let _ = stdin.write_all(input);
        drop(stdin);
        let out = child.wait_with_output().unwrap();
        ctx.count("program runs", 1);
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let verdict = (|| -> Result<(), String> {
            use std::os::unix::process::ExitStatusExt;
            if out.status.signal().is_some() {
                return Err(format!("ended with {:?}", out.status));
            }
            let err = String::from_utf8_lossy(&out.stderr);
            for secret in [PRIMARY, "s3cret", "other", "another primary", "stored value"] {
                if err.contains(secret) && secret != "other" {
                    return Err(format!("standard error contains {:?}: {:?}", secret, err));
                }
            }
            if place.read().as_deref() != Some(&bytes[..]) {
                let text = String::from_utf8(place.read().ok_or("storage file is missing")?).map_err(|e| e.to_string())?;
                let opened = crate::refc::open(&crate::refc::parse_file(&text)?, &expect.after.primary)?;
                crate::refcli::check_content(&opened.content, &expect)?;
            }
            for (name, _) in place.tree() {
                if name != "storage.json" && name != "home/" {
                    return Err(format!("unexpected file {} left behind", name));
                }
            }
            Ok(())
        })();
        if let Err(e) = verdict {
            ctx.violation(&format!("lost output:{}", cmd.args().join(" ")), format!("{}, {} with input {:?}: {}", what, cmd.args().join(" "), String::from_utf8_lossy(input), e));
        }
    });
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let all = alphabet(true);
    let core = alphabet(false);
    ctx.count("commands with inputs", all.len() as u64);
    // The complete alphabet in a few states.
    bfs(&ctx, "all options", &[Model::default(), empty(), populated()], &|_| all.clone(), 1, None);
    bfs(&ctx, "commands", &[Model::default(), populated()], &|_| core.clone(), ctx.pick(3, 4), None);
    malformed(&ctx);
    paths(&ctx);
    help(&ctx);
    arguments(&ctx);
    written_differently(&ctx);
    lost_output(&ctx, &all);
    ctx.finish(
        "model_checking",
        "each command line and scripted input is run as a real process in every storage state reached; exit code, output and decrypted file are compared with the reference behaviour",
        &["scrypt is replaced by a fast function depending on all inputs", "passwords are entered through standard input (--stdin-passwords)", "terminal specifics are not covered"],
    )
}
