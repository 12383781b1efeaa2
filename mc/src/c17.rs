//! C17: an interactive shell equals the same commands run one by one.

use crate::c01::{populated, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::libx::raw_for;
use crate::model::{self, Model};
use crate::pty;
use crate::refc;
use crate::refcli::{self, Cmd, Expect, Shown, PROMPTS};
use crate::util::Ctx;

#[derive(Clone)]
enum What {
    /// Command and the answers the user has in mind
    Command(Cmd, Vec<String>),
    Lock,
    /// Nothing to be executed: message on standard error expected or not
    Refused,
    /// Displays something
    Help,
    Nothing,
    Exit,
}

#[derive(Clone)]
pub struct Item {
    line: String,
    what: What,
}

/// A command and what the user would answer its questions with.
pub fn command(cmd: Cmd, answers: &[&str]) -> Item {
    let mut a = vec![PRIMARY.to_string()];
    a.extend(answers.iter().map(|x| x.to_string()));
    Item { line: cmd.shell_line(), what: What::Command(cmd, a) }
}
pub fn lock() -> Item {
    Item { line: "lock".into(), what: What::Lock }
}

fn start() -> Model {
    let mut m = populated();
    m.apply(&model::stored("b.com", "two words", "", "it's \"quoted\""));
    m
}

/// Quotes a word in one of several styles.
fn quote(word: &str, style: usize) -> String {
    let plain = |c: char| c.is_ascii_alphanumeric() || "-._:=@".contains(c);
    match style {
        0 if !word.contains('\'') => format!("'{}'", word),
        1 => format!("\"{}\"", word.chars().map(|c| if "\\\"$`".contains(c) { format!("\\{}", c) } else { c.to_string() }).collect::<String>()),
        2 if !word.is_empty() => word.chars().map(|c| if plain(c) || !c.is_ascii() && !c.is_whitespace() { c.to_string() } else { format!("\\{}", c) }).collect(),
        3 if !word.is_empty() => word.chars().enumerate().map(|(i, c)| if i % 2 == 0 && c != '\'' { format!("'{}'", c) } else if i % 3 == 1 || plain(c) { format!("\"{}\"", if "\\\"$`".contains(c) { format!("\\{}", c) } else { c.to_string() }) } else { format!("\\{}", c) }).collect(),
        4 if !word.is_empty() && word.chars().all(plain) => word.to_string(),
        _ => format!("\"{}\"", word.chars().map(|c| if "\\\"$`".contains(c) { format!("\\{}", c) } else { c.to_string() }).collect::<String>()),
    }
}

fn alphabet() -> Vec<Item> {
    let s = |x: &str| x.to_string();
    let salt = *b"0123456789abcdef";
    let code = refc::recovery_plain("recovered", &salt, &refc::storage_key(PRIMARY, &salt), b"nonce nonce ");
    let mut v = Vec::new();
    let mut cmd = |c: Cmd, answers: &[&str]| {
        let mut a = vec![s(PRIMARY)];
        a.extend(answers.iter().map(|x| s(x)));
        v.push(Item { line: c.shell_line(), what: What::Command(c, a) });
    };
    cmd(clix::show("a.com", "n", Some("2")), &[]);
    cmd(clix::show("d.com", "n", None), &[]);
    cmd(clix::add("d.com", "n", None, None, 0, false), &["y"]);
    cmd(clix::add("a.com", "n", None, Some(20), 3, false), &["y"]);
    cmd(clix::add("a.com", "n", None, Some(21), 0, false), &["what", "n"]);
    cmd(clix::add_stored("d.com", "n", None, true), &["new value"]);
    cmd(clix::add_stored("a.com", "n", Some("2"), false), &["yes", ""]);
    cmd(clix::remove("a.com", "n", Some("2")), &[]);
    cmd(clix::notes("a.com", "n", Some("2"), true), &["new notes"]);
    cmd(clix::notes("a.com", "n", Some("2"), false), &[]);
    cmd(clix::list(5), &[]);
    cmd(clix::list_for("c.com", None, 4), &[]);
    cmd(clix::alias("d.com", "c.com"), &[]);
    cmd(clix::unalias("c.com"), &[]);
    cmd(clix::show_alias("d.com"), &[]);
    cmd(Cmd::AddStored { site: s("d.com"), name: s("n"), rev: None, recovery: true, yes: true }, &[&code]);
    cmd(Cmd::AddStored { site: s("d.com"), name: s("m"), rev: None, recovery: true, yes: false }, &["AAAA", ""]);
    let c = clix::show("b.com", "two words", None);
    v.push(Item { line: s(" show \"b.com\"\t 'two '\"words\"  "), what: What::Command(c, vec![s("wrong primary"), s("no primary"), s(PRIMARY)]) });
    for (line, what) in [
        ("lock", What::Lock),
        ("exit", What::Exit),
        ("nonsense a b", What::Refused),
        ("show 'a.com n", What::Refused),
        ("remove a.com", What::Refused),
        ("add a.com n -y -l 25", What::Refused),
        ("set-primary -y", What::Refused),
        ("shell", What::Refused),
        ("help", What::Help),
        ("", What::Nothing),
    ] {
        v.push(Item { line: s(line), what });
    }
    v
}

/// More lines that don't execute anything.
fn more_refused() -> Vec<Item> {
    let mut v = Vec::new();
    for line in [
        "set-primary", "set-primary --assume-yes", "'set-primary' -y", "shell -s x", "'shell'", "show", "show a.com", "show a.com n extra", "show a.com n --unknown", "show a.com n -r", "list a b c", "alias", "alias a.com b.com c.com", "notes a.com", "lock now", "exit now", "LOCK", "Exit", "quit",
        "remove a.com n --yes", "\"unfinished", "show a.com \"n", "it's", "add a.com n -y -l 3", "add a.com n -y -l x", "add-stored a.com", "-y", "--", "-h", "--help", "-V", "--version", "pfp-cli show a.com n", "show; remove a.com n", "-c other.json show a.com n -r 2", "--storage=other.json remove a.com n -r 2", "--storage other.json add a.com n -y", "-c storage.json show a.com n", "-c '' list", "add", "remove", "\u{1f600}", "\u{e4}", "*", ".", "'lo'ck now", "show a.com\\ n",
    ] {
        v.push(Item { line: line.to_string(), what: What::Refused });
    }
    for line in ["help show", "help lock", "help exit", "help add", "help add-stored", "help help", "help list"] {
        v.push(Item { line: line.to_string(), what: What::Help });
    }
    for line in [" ", "\t", "  \t "] {
        v.push(Item { line: line.to_string(), what: What::Nothing });
    }
    for line in ["'lock'", " lock ", "lo'ck'", "\"lock\"", "\\lock"] {
        v.push(Item { line: line.to_string(), what: What::Lock });
    }
    v
}

struct Planned<'a> {
    item: &'a Item,
    expect: Option<Expect>,
    before: Model,
    answers: Vec<String>,
    asked_primary: usize,
}

struct Session<'a> {
    steps: Vec<Planned<'a>>,
    after: Model,
    script: Vec<String>,
}

fn plan<'a>(items: &[&'a Item]) -> Session<'a> {
    let mut m = start();
    m.unlocked = false;
    let mut steps = Vec::new();
    let mut script = Vec::new();
    for item in items {
        script.push(item.line.clone());
        let before = m.clone();
        let mut step = Planned { item, expect: None, before, answers: vec![], asked_primary: 0 };
        match &item.what {
            What::Command(cmd, answers) => {
                let answers: Vec<&str> = answers.iter().map(|a| a.as_str()).collect();
                let locked = !m.unlocked;
                let (e, lines) = clix::shell_answers(&mut m, cmd, &answers);
                script.extend(lines.iter().cloned());
                if locked && m.unlocked {
                    step.asked_primary = lines.iter().position(|l| l == PRIMARY).map_or(0, |p| p + 1);
                }
                step.expect = Some(e);
                step.answers = lines;
            }
            What::Lock => m.unlocked = false,
            _ => {}
        }
        steps.push(step);
        if matches!(item.what, What::Exit) {
            break;
        }
    }
    Session { steps, after: m, script }
}

/// What was printed between reading one command and the next.
fn parts(text: &[u8], s: &Session) -> Result<Vec<String>, String> {
    let marks: Vec<&[u8]> = text.split(|b| *b == 0x1e).collect();
    let mut at = 1;
    let mut out = Vec::new();
    for (i, step) in s.steps.iter().enumerate() {
        let mut n = 1 + step.expect.as_ref().map_or(0, |e| e.questions);
        if i + 1 == s.steps.len() {
            // Reading a last line without line break takes another read.
            n = n.max(marks.len() - at);
        }
        if at + n > marks.len() {
            return Err(format!("input was read {} times, more expected", marks.len() - 1));
        }
        out.push(marks[at..at + n].iter().map(|b| String::from_utf8_lossy(b)).collect::<String>());
        at += n;
    }
    Ok(out)
}

fn check_storage(place: &Place, before: &[u8], s: &Session) -> Result<(), String> {
    let bytes = place.read().ok_or("storage file is missing")?;
    let may_drop = s.steps.iter().any(|p| matches!(p.expect, Some(Expect { may_drop_sites: true, ok: Some(true), .. })));
    let expect = Expect { ok: Some(true), shown: Shown::Any, after: s.after.clone(), may_drop_sites: may_drop, questions: 0 };
    let opened = refc::open(&place.raw()?, PRIMARY)?;
    refcli::check_content(&opened.content, &expect)?;
    let changing = s.steps.iter().any(|p| matches!((&p.item.what, &p.expect), (What::Command(c, _), Some(Expect { ok: Some(true), .. })) if !c.displays_only() || matches!(c, Cmd::List { .. })));
    if !changing && bytes != before {
        return Err("storage file was written although no command changed anything".into());
    }
    Ok(())
}

fn check_parts(res: &Res, s: &Session) -> Result<Vec<String>, String> {
    let out = parts(&res.stdout, s)?;
    let err = parts(&res.stderr, s)?;
    for ((step, out), err) in s.steps.iter().zip(&out).zip(&err) {
        let wrap = |e: String| format!("{:?}: {}\nstdout {:?}\nstderr {:?}", step.item.line, e, out, err);
        let asked = out.matches(PROMPTS[0]).count();
        if asked != step.asked_primary {
            return Err(wrap(format!("asked {} times for the primary password, expected {}", asked, step.asked_primary)));
        }
        let text = refcli::strip(out).replace("pfp> ", "");
        match (&step.item.what, &step.expect) {
            (What::Command(..), Some(e)) => refcli::check_output(&text, err, &e.after, e).map_err(wrap)?,
            (What::Refused, _) => {
                if err.trim().is_empty() && text.trim().is_empty() {
                    return Err(wrap("no message".into()));
                }
                if ["Password ", "Alias ", "Notes ", "primary password set"].iter().any(|t| text.contains(t)) && !text.contains("USAGE") && !text.contains("COMMANDS") {
                    return Err(wrap("seems to have been executed".into()));
                }
            }
            (What::Help, _) => {
                if err.trim().is_empty() && text.trim().is_empty() {
                    return Err(wrap("nothing displayed".into()));
                }
            }
            _ => {}
        }
    }
    Ok(out)
}

/// Runs a session, ended by the exit command or the end of input.
fn session(ctx: &Ctx, items: &[&Item], ending: usize, separate: bool) -> Result<(), String> {
    let s = plan(items);
    let place = Place::new(ctx);
    place.write(&raw_for(&start()));
    let before = place.read().unwrap();
    let mut input = s.script.join("\n");
    input += match ending % 4 {
        0 => "\nexit\n",
        1 => "\n",
        _ if s.script.last().map_or(false, |l| l.is_empty()) => "\n",
        2 => "\n exit ",
        _ => "",
    };
    let history = place.dir.join("home/history");
    let cmd = if ending % 2 == 0 { args(&["shell", "-s", history.to_str().unwrap()]) } else { args(&["shell"]) };
    let res = place.run(ctx, &cmd, input.as_bytes(), &Opts { mark: true, seed: Some(ctx.seed + ending as u64), ..Default::default() });
    ctx.eval(1);
    ctx.trans(items.len() as u64);
    ctx.trace(1);
    let r = (|| -> Result<(), String> {
        res.orderly()?;
        if !res.ok() {
            return Err("shell failed".into());
        }
        // An empty last line without line break is no line.
        let out = check_parts(&res, &s)?;
        check_storage(&place, &before, &s)?;
        for (name, _) in place.tree() {
            if !["storage.json", "home/", "home/history"].contains(&name.as_str()) {
                return Err(format!("unexpected file {}", name));
            }
        }
        if separate {
            one_by_one(ctx, &s, &out, &place)?;
        }
        Ok(())
    })();
    r.map_err(|e| format!("shell with {:?}\n=> {}\n{}", input, e, res.describe()))
}

/// The same commands as separate invocations of the real program.
fn one_by_one(ctx: &Ctx, s: &Session, out: &[String], shell: &Place) -> Result<(), String> {
    let place = Place::new(ctx);
    place.write(&raw_for(&start()));
    for (step, shown) in s.steps.iter().zip(out) {
        let What::Command(cmd, _) = &step.item.what else { continue };
        let mut input = vec![PRIMARY];
        input.extend(step.answers[step.asked_primary..].iter().map(|a| a.as_str()));
        let res = place.run(ctx, &cmd.args(), &lines(&input), &Opts::default());
        res.orderly()?;
        let sorted = |t: &str| {
            let mut l: Vec<String> = refcli::strip(t).replace("pfp> ", "").replace('\u{1e}', "").lines().map(|l| l.trim_end_matches(',').trim().trim_start_matches("Aliases: ").to_string()).collect();
            l.sort();
            l
        };
        if sorted(&res.out()) != sorted(shown) {
            return Err(format!("{} displays {:?}, in the shell {:?}", cmd.args().join(" "), res.out(), shown));
        }
    }
    let (a, b) = (refc::open(&place.raw()?, PRIMARY)?.content, refc::open(&shell.raw()?, PRIMARY)?.content);
    if a != b {
        return Err(format!("commands run one by one lead to {}\nthe shell to {}", crate::libx::show(&a), crate::libx::show(&b)));
    }
    Ok(())
}

pub fn explore(ctx: &Ctx, what: &str, alphabet: &[Item], depth: usize, separate: bool) {
    for len in 1..=depth {
        let n = alphabet.len();
        ctx.par(n.pow(len as u32), |k| {
            let mut rest = k;
            let items: Vec<&Item> = (0..len)
                .map(|_| {
                    let i = &alphabet[rest % n];
                    rest /= n;
                    i
                })
                .collect();
            // Commands following exit aren't executed: covered by shorter sequences and one of the longer ones.
            if items.iter().rev().skip(1).any(|i| matches!(i.what, What::Exit)) && k % 5 != 0 {
                return;
            }
            ctx.state(1);
            if let Err(e) = session(ctx, &items, k, separate) {
                let label: Vec<&str> = items.iter().map(|i| i.line.as_str()).collect();
                ctx.violation(&format!("{} {:?}", what, label), e);
            }
        });
    }
    ctx.note(&format!("{}: all sequences of up to {} of {} shell commands{}", what, depth, alphabet.len(), if separate { ", compared with separate invocations as well" } else { "" }));
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let all = alphabet();
    explore(&ctx, "commands", &all, 2, true);
    if ctx.thorough {
        explore(&ctx, "longer sessions", &all, 3, true);
        let some: Vec<Item> = [0, 3, 4, 5, 7, 8, 10, 12, 13, 16, 17, 18, 19, 20, 21, 24].iter().map(|&i| all[i].clone()).collect();
        explore(&ctx, "long sessions", &some, 4, false);
        let few: Vec<Item> = [0, 3, 5, 7, 10, 12, 18, 20].iter().map(|&i| all[i].clone()).collect();
        explore(&ctx, "very long sessions", &few, 6, false);
    } else {
        explore(&ctx, "longer sessions", &all, 3, false);
    }
    refused(&ctx, &all);
    quoting(&ctx);
    history(&ctx);
    endings(&ctx, &all);
    terminal(&ctx, &all);
    ctx.finish(
        "model_checking",
        "all sequences of shell commands up to the stated length: output of each command, questions asked, standard error and the resulting storage compared with the reference behaviour of separate invocations, and with real separate invocations",
        &["shell_answers: the user answers exactly what is asked", "a file or a terminal as standard input; interrupting (Ctrl-C) is covered at the shell's own prompt"],
    )
}

/// Each refused line between an unlocked and a following command.
fn refused(ctx: &Ctx, all: &[Item]) {
    let more = more_refused();
    let (show, remove) = (&all[0], &all[7]);
    ctx.par(more.len() * 3, |k| {
        let item = &more[k / 3];
        let items = match k % 3 {
            0 => vec![item, show],
            1 => vec![show, item, item, remove],
            _ => vec![remove, item, show, item],
        };
        ctx.state(1);
        if let Err(e) = session(ctx, &items, k, true) {
            ctx.violation(&format!("refused {:?}", item.line), e);
        }
    });
    ctx.note(&format!("{} malformed, unknown, refused, help and lock lines between other commands", more.len()));
}

/// Words are taken apart as quoted.
fn quoting(ctx: &Ctx) {
    let (words, characters) = clix::words();
    let mut m = start();
    for w in words.iter().map(|w| w.as_str()) {
        m.apply(&model::stored("q.com", w, "", &format!("name {}", w)));
        if !w.is_empty() {
            m.apply(&model::stored(w, "n", "", &format!("site {}", w)));
        }
        if w != "1" {
            m.apply(&model::stored("r.com", "n", w, &format!("revision {}", w)));
        }
    }
    let thorough = ctx.thorough;
    ctx.par(words.len() * 5 * 3, |k| {
        let (w, style, field) = (words[k / 15].as_str(), k / 3 % 5, k % 3);
        if field == 1 && w.is_empty() {
            return;
        }
        if k / 15 >= characters && !thorough && (style != 2 && style != 4 || field != k / 15 % 3) {
            return;
        }
        let q = quote(w, style);
        let (line, value) = match field {
            0 => (format!("show -- q.com {}", q), format!("name {}", w)),
            1 => (format!("show  --  {} n", q), format!("site {}", w)),
            _ => (format!("show --revision={} r.com\tn", q), format!("revision {}", if w == "1" { "" } else { w })),
        };
        let place = Place::new(ctx);
        place.write(&raw_for(&m));
        let before = place.read();
        let res = place.run(ctx, &args(&["shell"]), format!("{}\n{}\nshow a.com n -r 2\n", line, PRIMARY).as_bytes(), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        ctx.state(1);
        let want = format!("Password retrieved.{}\nPassword retrieved.s3cret\n", value);
        let r = res.orderly().and_then(|_| {
            if !res.ok() || place.read() != before {
                return Err("shell failed or changed the storage".into());
            }
            let out = refcli::strip(&res.out()).replace("pfp> ", "");
            if out.ends_with(&want) {
                Ok(())
            } else {
                Err(format!("{:?} isn't displayed", want))
            }
        });
        if let Err(e) = r {
            ctx.violation(&format!("quoting {:?}", line), format!("shell line {:?}\n=> {}\n{}", line, e, res.describe()));
        }
    });
    ctx.note(&format!("quoting: {} words in 5 styles as site, name and revision", words.len()));
}

/// The history file has no influence.
fn history(ctx: &Ctx) {
    let contents: [Option<&[u8]>; 7] = [None, Some(b""), Some(b"#V2\nshow a.com n\nremove a.com n\n"), Some(b"remove a.com n\nexit\n"), Some(b"\xff\xfe\0"), Some(b"#V2\n\n\n"), Some(&[b'x'; 5000])];
    ctx.par(contents.len() * 3, |k| {
        let place = Place::new(ctx);
        place.write(&raw_for(&start()));
        let before = place.read();
        let (content, how) = (contents[k / 3], k % 3);
        let path = match how {
            0 => place.dir.join("home/history"),
            1 => place.dir.join("missing/directory/history"),
            _ => place.dir.join("home/dir"),
        };
        if how == 0 {
            if let Some(c) = content {
                std::fs::write(&path, c).unwrap();
            }
        } else if how == 2 {
            std::fs::create_dir_all(&path).unwrap();
        }
        let res = place.run(ctx, &args(&["shell", "-s", path.to_str().unwrap()]), &lines(&["show a.com n -r 2", PRIMARY, "exit"]), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        let r = res.orderly().and_then(|_| {
            if !res.ok() || place.read() != before || !res.out().contains("Password retrieved.s3cret\n") {
                return Err("shell failed or changed the storage".to_string());
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(&format!("history {}", k), format!("history {:?} ({})\n=> {}\n{}", content.map(String::from_utf8_lossy), how, e, res.describe()));
        }
    });
    ctx.note("history files: missing, damaged, not writable");
}

/// Input ends anywhere, in the middle of a dialogue as well.
fn endings(ctx: &Ctx, all: &[Item]) {
    let commands: Vec<&Item> = all.iter().filter(|i| matches!(i.what, What::Command(..))).collect();
    ctx.par(commands.len() * commands.len(), |k| {
        let items = [commands[k % commands.len()], commands[k / commands.len()]];
        let s = plan(&items);
        let first = s.script.len() - 1 - s.steps[1].answers.len();
        for end in first + 1..s.script.len() {
            // The second command gets only a part of its answers.
            let given: Vec<String> = s.script[first + 1..end].to_vec();
            let What::Command(cmd, _) = &items[1].what else { return };
            let mut input: refcli::Input = given.iter().cloned().collect();
            let e = refcli::simulate(&s.steps[1].before, cmd, &mut input);
            let place = Place::new(ctx);
            place.write(&raw_for(&start()));
            let text = s.script[..end].join("\n") + "\n";
            let res = place.run(ctx, &args(&["shell"]), text.as_bytes(), &Opts::default());
            ctx.eval(1);
            ctx.trans(1);
            ctx.trace(1);
            ctx.state(1);
            let r = (|| -> Result<(), String> {
                res.orderly()?;
                if !res.ok() {
                    return Err("shell failed".into());
                }
                let opened = refc::open(&place.raw()?, PRIMARY)?;
                refcli::check_content(&opened.content, &Expect { ok: Some(true), shown: Shown::Any, after: e.after.clone(), may_drop_sites: true, questions: 0 })
            })();
            if let Err(e) = r {
                ctx.violation(&format!("end of input {:?}", text), format!("shell with {:?}, then end of input\n=> {}\n{}", text, e, res.describe()));
            }
        }
    });
    ctx.note("end of input after each answer of the second of two commands, for all pairs");
}

/// On a terminal, with line editing.
fn terminal(ctx: &Ctx, all: &[Item]) {
    const READY: &str = "\u{1b}[?2004h";
    let prompts: Vec<&str> = [READY].into_iter().chain(PROMPTS).collect();
    let n = all.len();
    ctx.par(n * n, |k| {
        let items = [&all[k % n], &all[k / n]];
        if !ctx.thorough && k % 3 != 0 {
            return;
        }
        let s = plan(&items);
        let place = Place::new(ctx);
        place.write(&raw_for(&start()));
        let before = place.read().unwrap();
        let exits = s.steps.iter().any(|p| matches!(p.item.what, What::Exit));
        let mut script: Vec<Vec<u8>> = s.script.iter().map(|l| format!("{}\r", l.replace('\t', " ")).into_bytes()).collect();
        // A line which is abandoned doesn't matter.
        match k / 3 % 3 {
            0 => script.insert(0, b"remove a.com n -r 2\x03".to_vec()),
            1 => script.insert(0, b"\x03".to_vec()),
            _ => {}
        }
        if !exits {
            script.push(if k % 2 == 0 { b"exit\r".to_vec() } else { vec![4] });
        }
        let t = pty::run(place.command(ctx, &args(&["shell", "-s", place.dir.join("home/history").to_str().unwrap()]), &Opts { no_stdin_passwords: true, ..Default::default() }), &prompts, &script);
        ctx.eval(1);
        ctx.trans(2);
        ctx.trace(1);
        let r = (|| -> Result<(), String> {
            if t.timeout || t.signal.is_some() || t.code != Some(0) {
                return Err(format!("exit code {:?}, signal {:?}, timeout {}", t.code, t.signal, t.timeout));
            }
            if t.typed != script.len() {
                return Err(format!("{} lines expected, {} asked for", script.len(), t.typed));
            }
            check_storage(&place, &before, &s)?;
            let mut rest = t.shown.as_str();
            for step in &s.steps {
                if let Some(Expect { shown: Shown::Exact(text), .. }) = &step.expect {
                    // Prompts may be in between: every line on its own.
                    for line in text.lines() {
                        match rest.find(line) {
                            Some(p) => rest = &rest[p + line.len()..],
                            None => return Err(format!("{:?} isn't displayed for {:?}", line, step.item.line)),
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            ctx.violation(&format!("terminal {:?}", s.script), format!("shell on a terminal with {:?}\n=> {}\nshown: {:?}", s.script, e, t.shown));
        }
    });
    ctx.note(&format!("pairs of {} commands in the shell on a terminal{}", n, if ctx.thorough { "" } else { " (a third of these)" }));
}
