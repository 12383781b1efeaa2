//! C24: the primary password is set as typed twice, with at least six characters.

use crate::c01::{populated, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::{Model, Op, Out};
use crate::pty;
use crate::refc;
use crate::refcli::{self, simulate, Cmd, PROMPTS};
use crate::util::Ctx;

const UNLOCK: &str = PROMPTS[0];
const FIRST: &str = PROMPTS[2];
const SECOND: &str = PROMPTS[3];

fn domain() -> Vec<String> {
    let mut v: Vec<String> = (0..=12).map(|n| "abcdefghijkl"[..n].to_string()).collect();
    for t in [
        " abcdef", "abcdef ", "  abcdef\t", "\tabcdef", "abc def", "abc  def", "      ", "       ", "\t\t\t\t\t\t", " abcde", "abcde ", "  abcde ", "a     ", "     a", "a    b", "ABCDEF", "Abcdef", "fedcba", "abcdeg", "bbcdef",
        "ééé", "éé", "ééa", "ééab", "éabcd", "éabc", "ee\u{301}abcd", "\u{20ac}\u{20ac}", "\u{20ac}a", "\u{1F600}ab", "\u{1F600}a", "\u{1F600}", "\u{a0}abcdef", "abcdef\u{a0}", "\u{a0}\u{a0}\u{a0}", "\u{2003}abcdef", "\u{200b}abcde", "\u{feff}abc",
        "abcdef\r", "abcde\r", "\u{b}abcdef\u{c}", "\"abcdef\"", "'abcdef'", "abc\\def", "abc\0def", "\0\0\0\0\0\0", "\u{1}\u{2}\u{3}\u{4}\u{5}\u{6}", "\u{1b}[A1234", "123456", "000000", "yyyyyy", "-abcdef", "--help",
    ] {
        v.push(t.to_string());
    }
    for n in [62, 63, 64, 65, 127, 128, 1022, 1023, 1024, 1025, 3000] {
        v.push("x".repeat(n));
        v.push("\u{e4}".repeat(n / 2));
    }
    v
}

/// What may be entered the second time. None is the end of input.
fn seconds(first: &str, all: &[String]) -> Vec<Option<Vec<u8>>> {
    let mut v: Vec<Option<Vec<u8>>> = vec![None];
    let mut t: Vec<String> = vec![
        first.to_string(), format!(" {}", first), format!("{} ", first), format!("\t {} \u{a0}", first), first.trim().to_string(), format!("{}x", first), format!("x{}", first), first.to_uppercase(), first.to_lowercase(), first.replace(' ', ""),
        first.replace(' ', "  "), first.chars().rev().collect(), format!("{}{}", first, first), format!("{}\0", first), format!("\0{}", first), format!("{}\u{200b}", first), first.replace('e', "\u{e9}"), first.replace('\u{e9}', "e"), first.replace('\u{e9}', "e\u{301}"),
        first.split('\0').next().unwrap_or("").to_string(),
    ];
    let chars: Vec<char> = first.chars().collect();
    for n in 0..chars.len().min(16) {
        t.push(chars[..n].iter().collect());
        t.push(chars[n..].iter().collect());
        let mut c = chars.clone();
        c[n] = if c[n] == 'z' { 'y' } else { 'z' };
        t.push(c.iter().collect());
        let mut c = chars.clone();
        c.remove(n);
        t.push(c.iter().collect());
    }
    if chars.len() > 16 {
        for n in [16, 32, 63, 64, chars.len() / 2, chars.len() - 1] {
            if n < chars.len() {
                t.push(chars[..n].iter().collect());
                let mut c = chars.clone();
                c[n] = '#';
                t.push(c.iter().collect());
            }
        }
    }
    t.extend(all.iter().cloned());
    t.sort();
    t.dedup();
    v.extend(t.into_iter().map(|t| Some(t.into_bytes())));
    v.push(Some([first.as_bytes(), b"\xff"].concat()));
    v.push(Some([b"\xc3", first.as_bytes()].concat()));
    v
}

/// Message per rejected password, prompt per attempt.
fn prompts(out: &str) -> [usize; 3] {
    [UNLOCK, FIRST, SECOND].map(|p| out.matches(p).count())
}

fn shorten(b: &[u8]) -> String {
    let t = format!("{:?}", String::from_utf8_lossy(b));
    if t.len() > 60 {
        format!("{}...({} bytes)", t.chars().take(30).collect::<String>(), b.len())
    } else {
        t
    }
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    setting(&ctx);
    in_library(&ctx);
    unlocking(&ctx);
    shell(&ctx);
    terminal(&ctx);
    ctx.finish(
        "model_checking",
        "every pair of entries when setting the primary password and every sequence of entries up to the stated length when unlocking, from every kind of storage, in the program, its shell and on a terminal",
        &["blanks are Unicode white space, length counts UTF-8 bytes", "scrypt is replaced by a fast stand-in", "text that isn't UTF-8 ends a command with an error"],
    )
}

/// All pairs of entries.
fn setting(ctx: &Ctx) {
    let all = domain();
    let mut damaged = refc::file_text(&raw_for(&populated())).into_bytes();
    damaged.truncate(200);
    let starts: Vec<(&str, Model, Option<Vec<u8>>, bool)> = vec![
        ("no storage", Model::default(), None, false),
        ("storage", populated(), clix::initial_bytes(&populated()), false),
        ("storage", populated(), clix::initial_bytes(&populated()), true),
        ("damaged storage", Model::default(), Some(damaged), true),
        ("empty file", Model::default(), Some(vec![]), true),
    ];
    let mut items = Vec::new();
    for (s, start) in starts.iter().enumerate() {
        for first in &all {
            for second in seconds(first, if ctx.thorough || s == 0 { &all } else { &[] }) {
                items.push((s, start, first, second));
            }
        }
        for first in [&b"\xff"[..], b"abcdef\xff", b"\xffabcdef", b"abc\xc3\x28def"] {
            items.push((s, start, &all[0], Some(first.to_vec())));
        }
    }
    // The first entry may end the input, too.
    ctx.par(items.len(), |i| {
        let (_, (what, model, before, yes), first, second) = &items[i];
        let place = Place::new(ctx);
        let mut input = Vec::new();
        let consent = model.initialized && !yes;
        if consent {
            input.extend(b"y\n");
        }
        input.extend(first.as_bytes());
        match second {
            None => {}
            Some(second) => {
                input.push(b'\n');
                input.extend(second);
                if i % 3 != 0 {
                    input.push(b'\n');
                }
            }
        }
        let cmd = Cmd::SetPrimary { yes: *yes };
        let wanted = first.trim();
        let label = format!("{}, entered {} then {}", what, shorten(first.as_bytes()), second.as_ref().map_or("nothing".into(), |s| shorten(s)));
        let r = clix::step(ctx, &place, before.as_deref(), model, &cmd, &input, &Opts::default()).and_then(|step| {
            let valid = wanted.len() >= 6 && second.as_ref().map_or(false, |s| std::str::from_utf8(s).map_or(false, |s| s.trim() == wanted));
            // The file keeps its name, a mistake in the reference behaviour is not going to hide anything.
            if (step.expect.ok == Some(true)) != valid {
                return Err("reference behaviour is wrong".to_string());
            }
            let [_, p1, p2] = prompts(&step.res.out());
            if p1 != 1 || p2 != (wanted.len() >= 6) as usize {
                return Err(format!("asked {} and {} times for the new primary password\n{}", p1, p2, step.res.describe()));
            }
            if valid {
                if !step.res.out().contains(place.file.to_str().unwrap()) {
                    return Err(format!("storage file isn't named\n{}", step.res.describe()));
                }
                // Wrong ones first: all are rejected.
                let mut input = String::new();
                let mut n = 0;
                for other in all.iter().filter(|o| o.trim() != wanted && (ctx.thorough || i % 7 == 0)) {
                    input += &format!("{}\n", other);
                    n += 1;
                }
                input += &format!("{}\n", wanted);
                n += 1;
                let bytes = step.bytes.as_deref();
                let after = step.after;
                let list = clix::step(ctx, &place, bytes, &after, &clix::list(7), input.as_bytes(), &Opts::default())?;
                let p = prompts(&list.res.out())[0];
                if p != n {
                    return Err(format!("{} attempts, asked {} times\n{}", n, p, list.res.describe()));
                }
                if refc::open(&place.raw()?, wanted).is_err() {
                    return Err("primary password isn't the one entered".to_string());
                }
                ctx.outcome("set");
            } else {
                ctx.outcome("rejected");
            }
            Ok(())
        });
        ctx.trans(1);
        ctx.trace(1);
        ctx.state(1);
        if let Err(e) = r {
            ctx.violation(&format!("set {}", label), format!("{}\n=> {}", label, e));
        }
    });
    for (s, (what, model, before, yes)) in starts.iter().enumerate() {
        for (n, input) in [&b""[..], b"\n", b"abcdef", b"\nabcdef\nabcdef\n", b"abcde\nabcdef\nabcdef\n", b"abcdef\nabcdeg\nabcdef\nabcdef\n", b"abcdef\n\nabcdef\n", b"\xff\n\xff\n", b"abcdef\xff\nabcdef\xff\n"].iter().enumerate() {
            let mut all = if model.initialized && !yes { b"y\n".to_vec() } else { vec![] };
            all.extend(*input);
            let place = Place::new(ctx);
            ctx.trans(1);
            if let Err(e) = clix::step(ctx, &place, before.as_deref(), model, &Cmd::SetPrimary { yes: *yes }, &all, &Opts::default()) {
                ctx.violation(&format!("short input {} {}", s, n), format!("{} with input {}\n=> {}", what, shorten(&all), e));
            }
        }
    }
    ctx.count("first entries", all.len() as u64);
    ctx.note("all pairs of first and second entries, from new, existing (with consent given by answer or option), damaged and empty storage files");
}

/// Any primary password given to the library is the one that unlocks (blanks included).
fn in_library(ctx: &Ctx) {
    let all = domain();
    ctx.par(all.len(), |i| {
        let mut live = Live::open(Backing::File, &Default::default(), &scratch_file(ctx));
        let pw = &all[i];
        let r = (|| -> Result<(), String> {
            for (step, old) in [(0, None), (1, Some("old primary"))] {
                if let Some(old) = old {
                    if live.exec(&Op::Reset(old.to_string())) != Out::Unit {
                        return Err("reset failed".into());
                    }
                }
                let out = live.exec(&Op::Reset(pw.clone()));
                if out != Out::Unit {
                    return Err(format!("reset: {:?}", out));
                }
                let mut again = live.reopen()?;
                for other in all.iter().map(|s| s.as_str()).chain(["old primary"]) {
                    let out = again.exec(&Op::Unlock(other.to_string()));
                    ctx.eval(1);
                    let same = other.trim_end_matches('\0') == pw.trim_end_matches('\0');
                    if (out == Out::Unit) != same {
                        return Err(format!("step {}: unlocking with {:?} yields {:?}", step, shorten(other.as_bytes()), out));
                    }
                    again.exec(&Op::Lock);
                }
            }
            Ok(())
        })();
        ctx.trans(all.len() as u64);
        if let Err(e) = r {
            ctx.violation(&format!("library {:?}", pw), format!("primary password {}\n=> {}", shorten(pw.as_bytes()), e));
        }
    });
}

/// Attempts at unlocking, without line break. The last ones end the command.
fn attempts() -> Vec<Option<Vec<u8>>> {
    let mut v: Vec<Option<Vec<u8>>> = Vec::new();
    let padded = format!(" \t{}  ", PRIMARY);
    for t in ["", "short", "   ", " a b c ", "wrong password", "y", "old primary", &PRIMARY.to_uppercase(), &PRIMARY[1..], &format!("{}x", PRIMARY), PRIMARY, &padded] {
        v.push(Some(t.as_bytes().to_vec()));
    }
    v.push(Some(b"\xff\xfe".to_vec()));
    v.push(None);
    v
}

fn right(a: &Option<Vec<u8>>) -> bool {
    a.as_ref().map_or(false, |a| std::str::from_utf8(a).map_or(false, |a| a.trim() == PRIMARY))
}
fn ends(a: &Option<Vec<u8>>) -> bool {
    a.as_ref().map_or(true, |a| std::str::from_utf8(a).is_err())
}

/// All sequences of attempts up to a length that end with the right one, end the command or end the input.
fn attempt_sequences(depth: usize) -> Vec<Vec<Option<Vec<u8>>>> {
    let all = attempts();
    let mut out = Vec::new();
    let mut partial: Vec<Vec<Option<Vec<u8>>>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for p in &partial {
            for a in &all {
                let mut q = p.clone();
                q.push(a.clone());
                if right(a) || ends(a) {
                    out.push(q);
                } else {
                    next.push(q);
                }
            }
        }
        partial = next;
    }
    for mut p in partial {
        p.push(None);
        out.push(p);
    }
    out
}

fn commands() -> Vec<(Cmd, &'static str)> {
    let s = |x: &str| x.to_string();
    vec![
        (clix::show("a.com", "n", Some("2")), ""),
        (clix::add("d.com", "n", None, None, 0, false), ""),
        (clix::add("a.com", "n", None, Some(20), 0, false), "y\n"),
        (clix::add_stored("d.com", "n", None, false), "new password\n"),
        (clix::remove("b.com", "m", None), ""),
        (clix::notes("a.com", "n", Some("2"), false), ""),
        (clix::notes("a.com", "n", Some("2"), true), "new notes\n"),
        (clix::list(7), ""),
        (clix::alias("d.com", "a.com"), ""),
        (clix::unalias("c.com"), ""),
        (clix::show_alias("c.com"), ""),
        (clix::show("missing.com", "n", None), ""),
        (Cmd::AddStored { site: s("d.com"), name: s("n"), rev: None, recovery: true, yes: false }, "\n"),
    ]
}

/// Messages on standard error, one per line.
fn messages(err: &str) -> usize {
    err.lines().filter(|l| !l.trim().is_empty()).count()
}

fn unlocking(ctx: &Ctx) {
    let depth = ctx.pick(2, 3);
    let sequences = attempt_sequences(depth);
    let commands = commands();
    let mut model = populated();
    model.unlocked = false;
    let bytes = clix::initial_bytes(&model);
    let n = sequences.len();
    ctx.par(n * commands.len(), |k| {
        let (seq, (cmd, rest)) = (&sequences[k % n], &commands[k / n]);
        let mut input = Vec::new();
        let mut opened = false;
        for a in seq {
            if let Some(a) = a {
                input.extend(a);
                input.push(b'\n');
            }
            opened |= right(a);
        }
        if opened {
            input.extend(rest.as_bytes());
        }
        let place = Place::new(ctx);
        let label = format!("{} <{}>", cmd.args().join(" "), seq.iter().map(|a| a.as_ref().map_or("end".into(), |a| shorten(a))).collect::<Vec<_>>().join(" "));
        let r = clix::step(ctx, &place, bytes.as_deref(), &model, cmd, &input, &Opts::default()).and_then(|step| {
            let asked = prompts(&step.res.out())[0];
            if asked != seq.len() {
                return Err(format!("{} attempts, asked {} times\n{}", seq.len(), asked, step.res.describe()));
            }
            if !opened && step.res.ok() {
                return Err("command succeeded without the primary password".to_string());
            }
            let rejected = seq.iter().filter(|a| !right(a)).count();
            let got = messages(&step.res.err());
            if got < rejected {
                return Err(format!("{} attempts rejected, {} messages\n{}", rejected, got, step.res.describe()));
            }
            Ok(())
        });
        ctx.trans(1);
        ctx.trace(1);
        ctx.state(1);
        ctx.outcome(if opened { "unlocked" } else { "not unlocked" });
        if let Err(e) = r {
            ctx.violation(&format!("unlock {}", label), format!("{}\n=> {}", label, e));
        }
    });
    ctx.sample(|| format!("{:?}", sequences[n / 2].iter().map(|a| a.as_ref().map(|a| shorten(a))).collect::<Vec<_>>()));
    // As often as needed.
    for n in [100, ctx.pick(1000, 20000)] {
        let input = format!("{}{}\n", "wrong password\nno\n".repeat(n / 2), PRIMARY);
        let place = Place::new(ctx);
        let r = clix::step(ctx, &place, bytes.as_deref(), &model, &clix::show("a.com", "n", Some("2")), input.as_bytes(), &Opts::default())
            .and_then(|step| if prompts(&step.res.out())[0] == n + 1 { Ok(()) } else { Err("not asked often enough".to_string()) });
        ctx.trans(1);
        if let Err(e) = r {
            ctx.violation(&format!("{} attempts", n), e.chars().take(2000).collect());
        }
    }
    // Nothing set up: no question, an error.
    let place = Place::new(ctx);
    for (cmd, rest) in &commands {
        let input = format!("{}\n{}", PRIMARY, rest);
        for before in [None, Some(&b"{}"[..])] {
            let r = clix::step(ctx, &place, before, &Model::default(), cmd, input.as_bytes(), &Opts::default())
                .and_then(|step| if prompts(&step.res.out())[0] == 0 { Ok(()) } else { Err("asked for a primary password although none is set".to_string()) });
            ctx.trans(1);
            if let Err(e) = r {
                ctx.violation(&format!("not initialized {}", cmd.args()[0]), e);
            }
        }
    }
    ctx.note(&format!("all {} sequences of up to {} attempts with {} commands", n, depth, commands.len()));
}

/// Asked once, and again after locking.
fn shell(ctx: &Ctx) {
    let first = attempt_sequences(ctx.pick(1, 2));
    let second = attempt_sequences(2);
    let commands = commands();
    let pairs: Vec<(usize, usize)> = (0..commands.len()).flat_map(|a| (0..commands.len()).map(move |b| (a, b))).filter(|(a, b)| ctx.thorough && (a + b) % 3 == 0 || (a * 5 + 3) % commands.len() == *b).collect();
    let total = first.len() * second.len() * pairs.len();
    ctx.par(total, |k| {
        let seqs = [&first[k % first.len()], &second[k / first.len() % second.len()]];
        let (a, b) = pairs[k / first.len() / second.len()];
        let mut model = populated();
        model.unlocked = false;
        let mut input: Vec<u8> = Vec::new();
        let mut asked = 0;
        let mut rejected = 0;
        let mut ended = false;
        for (part, seq, c) in [(0, seqs[0], a), (1, seqs[1], b)] {
            if ended {
                break;
            }
            if part == 1 {
                input.extend(b"lock\n");
                model.unlocked = false;
            }
            let (cmd, rest) = &commands[c];
            input.extend(cmd.shell_line().as_bytes());
            input.push(b'\n');
            let mut answers: refcli::Input = Default::default();
            for a in seq.iter() {
                asked += 1;
                rejected += !right(a) as usize;
                match a {
                    Some(a) => {
                        input.extend(a);
                        input.push(b'\n');
                        answers.push_back(String::from_utf8_lossy(a).into_owned());
                    }
                    None => ended = true,
                }
            }
            if seq.iter().any(right) {
                input.extend(rest.as_bytes());
                answers.extend(rest.lines().map(|l| l.to_string()));
            }
            model = simulate(&model, cmd, &mut answers).after;
        }
        let place = Place::new(ctx);
        if let Some(bytes) = clix::initial_bytes(&populated()) {
            std::fs::write(&place.file, bytes).unwrap();
        }
        let res = place.run(ctx, &args(&["shell"]), &input, &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| {
            let p = prompts(&res.out())[0];
            if p != asked {
                return Err(format!("{} attempts, asked {} times", asked, p));
            }
            if messages(&res.err()) < rejected {
                return Err(format!("{} attempts rejected, fewer messages", rejected));
            }
            let opened = refc::open(&place.raw()?, PRIMARY)?;
            // Listing drops records of sites without passwords.
            let expect = refcli::Expect { ok: Some(true), shown: refcli::Shown::Any, after: model.clone(), may_drop_sites: true, questions: 0 };
            refcli::check_content(&opened.content, &expect)
        });
        if let Err(e) = r {
            let label = shorten(&input);
            ctx.violation(&format!("shell {:?}", String::from_utf8_lossy(&input)), format!("{} in the shell: {}\n=> {}\n{}", label, String::from_utf8_lossy(&input), e, res.describe()));
        }
    });
    ctx.note(&format!("{} shell sessions with two unlocking dialogues each", total));
}

/// The same on a terminal, where passwords are read by different code.
fn terminal(ctx: &Ctx) {
    let opts = Opts { no_stdin_passwords: true, ..Default::default() };
    let typed = |t: &str| -> Vec<u8> { [t.as_bytes(), b"\n"].concat() };
    // Setting
    let all: Vec<String> = domain().into_iter().filter(|t| t.len() < 3000 && !t.chars().any(|c| c < ' ' && c != '\t') && !t.contains('\u{feff}')).collect();
    let mut items: Vec<(bool, &String, Option<Vec<u8>>)> = Vec::new();
    for first in &all {
        for existing in [false, true] {
            let list = if ctx.thorough { seconds(first, &[]) } else { vec![Some(first.clone().into_bytes()), Some(format!(" {} ", first).into_bytes()), Some(format!("{}x", first).into_bytes()), None] };
            for second in list {
                if second.as_ref().map_or(true, |s| s.len() < 3000 && !s.iter().any(|&c| c < 32 && c != 9)) {
                    items.push((existing, first, second));
                }
            }
        }
    }
    ctx.par(items.len(), |i| {
        let (existing, first, second) = &items[i];
        let place = Place::new(ctx);
        let model = if *existing { populated() } else { Model::default() };
        let before = clix::initial_bytes(&model);
        if let Some(b) = &before {
            std::fs::write(&place.file, b).unwrap();
        }
        let mut script = vec![typed(first)];
        if first.trim().len() >= 6 {
            script.push(match second {
                Some(s) => [&s[..], b"\n"].concat(),
                None => vec![4],
            });
        }
        let s = pty::run(place.command(ctx, &args(&["set-primary", "-y"]), &opts), &[FIRST, SECOND], &script);
        let valid = first.trim().len() >= 6 && second.as_ref().map_or(false, |s| std::str::from_utf8(s).map_or(false, |s| s.trim() == first.trim()));
        ctx.eval(1);
        ctx.trans(1);
        let r = (|| -> Result<(), String> {
            finished(&s, script.len())?;
            if (s.code == Some(0)) != valid {
                return Err(format!("exit code {:?}", s.code));
            }
            if valid {
                refc::open(&place.raw()?, first.trim()).map(|_| ())
            } else if place.read() != before {
                Err("storage file was changed".into())
            } else {
                Ok(())
            }
        })();
        if let Err(e) = r {
            let label = format!("{} then {}", shorten(first.as_bytes()), second.as_ref().map_or("end".into(), |s| shorten(s)));
            ctx.violation(&format!("terminal {}", label), format!("set-primary on a terminal: {}\n=> {}\nshown: {:?}", label, e, s.shown));
        }
    });
    // Unlocking
    let sequences: Vec<_> = attempt_sequences(2).into_iter().filter(|s| ctx.thorough || s.len() < 2 || right(s.last().unwrap())).collect();
    let commands = [clix::show("a.com", "n", Some("2")), clix::remove("b.com", "m", None)];
    let n = sequences.len();
    let model = populated();
    ctx.par(n * 2, |k| {
        let (seq, cmd) = (&sequences[k % n], &commands[k / n]);
        let place = Place::new(ctx);
        let before = clix::initial_bytes(&model);
        std::fs::write(&place.file, before.as_ref().unwrap()).unwrap();
        let script: Vec<Vec<u8>> = seq.iter().map(|a| a.as_ref().map_or(vec![4], |a| [&a[..], b"\n"].concat())).collect();
        let s = pty::run(place.command(ctx, &cmd.args(), &opts), &[UNLOCK], &script);
        let opened = seq.iter().any(right);
        ctx.eval(1);
        ctx.trans(1);
        let r = (|| -> Result<(), String> {
            finished(&s, script.len())?;
            if (s.code == Some(0)) != opened {
                return Err(format!("exit code {:?}", s.code));
            }
            let rejected = seq.iter().filter(|a| !right(a)).count();
            let lines = messages(&s.shown.replace(UNLOCK, ""));
            if lines < rejected {
                return Err(format!("{} attempts rejected, fewer messages", rejected));
            }
            if !opened {
                return if place.read() == before { Ok(()) } else { Err("storage file was changed".into()) };
            }
            if k / n == 0 {
                return if s.shown.contains("Password retrieved.s3cret\n") { Ok(()) } else { Err("password not shown".into()) };
            }
            let mut m = model.clone();
            m.apply(&crate::model::remove("b.com", "m", "1"));
            if refc::open(&place.raw()?, PRIMARY)?.content != m.content {
                return Err("password not removed".into());
            }
            Ok(())
        })();
        if let Err(e) = r {
            let label = seq.iter().map(|a| a.as_ref().map_or("end".into(), |a| shorten(a))).collect::<Vec<_>>().join(" ");
            ctx.violation(&format!("terminal {} {}", cmd.args()[0], label), format!("{} on a terminal: {}\n=> {}\nshown: {:?}", cmd.args().join(" "), label, e, s.shown));
        }
    });
    ctx.note(&format!("on a terminal: {} pairs of entries, {} sequences of attempts", items.len(), n));
}

fn finished(s: &pty::Session, typed: usize) -> Result<(), String> {
    if s.timeout {
        return Err("program does not end".into());
    }
    if s.signal.is_some() || s.code == Some(101) || s.shown.contains("panicked at") {
        return Err(format!("exit code {:?}, signal {:?}", s.code, s.signal));
    }
    if s.typed != typed {
        return Err(format!("{} entries expected, asked {} times", typed, s.typed));
    }
    Ok(())
}
