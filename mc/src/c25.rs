//! C25: secrets are displayed only by the commands meant to.

use crate::c11::Needles;
use crate::cli::*;
use crate::clix::{self, *};
use crate::libx;
use crate::model::{self, Model, Op};
use crate::pty;
use crate::refc::{self, Kind, Writer};
use crate::refcli::{self, simulate, Cmd, Expect, PROMPTS};
use crate::util::Ctx;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Mutex, OnceLock};

// No six characters in a row occur twice.
const PRIMARY: &str = "Kq7#pvx4.Wzt9!Lm";
const NEW: &str = "Nz3&cjg5dM/0stqr";
const OTHER: &str = "Ot6*dfw3int+Uvy8";
const WRONG: &str = "Wq8%mzk2n~Trx7Yb";
/// The primary password not typed to the end
const ATTEMPT: &str = "Kq7#pvx4.Wzt9!L";
const SHORT: &str = "Sh0_t";
const STORED1: &str = "St1=fxrs4@Gtj9dy";
const STORED2: &str = "Qx2 scd: 7Stvk5d";
const STORED3: &str = "Vy5,thw;S3t\u{f6}r\u{e4}7d";
const TYPED: &str = "Tp4^tjd<8Stzr2kd";
const TYPED2: &str = "Jd5\"otw9\\Tqp3dv";
const NOTES1: &str = "Rm1 rmb6r: \u{d6}l7k\u{e4}n4chw";
const NOTES2: &str = "Hb2 qst? 9nsw5rd kz8";
const NOTES3: &str = "Gx9>tjp3d|Nv2s hqr";

const CONSTANTS: [(&str, &str); 14] = [
    ("primary password", PRIMARY),
    ("new primary password", NEW),
    ("repeated primary password", OTHER),
    ("wrong attempt", WRONG),
    ("short attempt", SHORT),
    ("stored password", STORED1),
    ("stored password", STORED2),
    ("stored password", STORED3),
    ("typed password", TYPED),
    ("typed password", TYPED2),
    ("notes", NOTES1),
    ("notes", NOTES2),
    ("typed notes", NOTES3),
    ("attempt at the primary password", ATTEMPT),
];

fn start() -> Model {
    let mut m = Model::initial(PRIMARY, Default::default());
    for op in [
        model::gen("a.com", "n", "", 16, 15),
        model::notes("a.com", "n", "", NOTES1),
        model::stored("a.com", "n", "2", STORED1),
        model::stored("b.com", "m", "", STORED2),
        model::notes("b.com", "m", "", NOTES2),
        model::stored("d.com", "n", "", STORED3),
        model::gen("d.com", "m", "r", 24, 7),
        model::alias("c.com", "a.com"),
        model::stored("e.com", "n", "", "gone"),
        model::remove("e.com", "n", ""),
    ] {
        m.apply(&op);
    }
    m.unlocked = false;
    m
}

/// Needles for a secret, made once.
fn needles(secret: &str) -> Arc<Needles> {
    static ALL: OnceLock<Mutex<BTreeMap<String, Arc<Needles>>>> = OnceLock::new();
    let mut all = ALL.get_or_init(Default::default).lock().unwrap();
    all.entry(secret.to_string())
        .or_insert_with(|| {
            let mut n = Needles::default();
            n.add(secret.as_bytes(), "");
            Arc::new(n)
        })
        .clone()
}

/// The part of the secret found in what was displayed.
fn found(secret: &str, shown: &[u8]) -> Option<String> {
    let b = secret.as_bytes();
    let n = b.len().min(6);
    for w in b.windows(n) {
        if shown.windows(n).any(|s| s == w) {
            return Some(format!("{:?}", String::from_utf8_lossy(w)));
        }
    }
    needles(secret).find(shown)
}

/// All secrets there are before or after the command.
fn secrets(before: &Model, after: &Model) -> BTreeMap<String, String> {
    let mut v: BTreeMap<String, String> = CONSTANTS.iter().map(|(w, s)| (s.to_string(), w.to_string())).collect();
    for m in [before, after] {
        for (id, e) in &m.content.passwords {
            if matches!(e.kind, Kind::Generated { .. }) {
                v.insert(m.value(id, e), format!("generated password of {:?}", id));
            }
            // Those of another primary password, too
            for primary in [PRIMARY, NEW] {
                if let Kind::Generated { length, classes } = e.kind {
                    v.entry(refc::generate(primary, &id.0, &id.1, &id.2, length, classes)).or_insert(format!("generated password of {:?}", id));
                }
            }
        }
    }
    v
}

/// What the command is meant to display.
fn meant(before: &Model, cmd: &Cmd, e: &Expect) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    if !e.after.unlocked || !before.initialized {
        return v;
    }
    let rev = |r: &Option<String>| r.clone().unwrap_or_else(|| "1".into());
    match cmd {
        Cmd::Show { site, name, rev: r } => {
            let id = before.id(site, name, &rev(r));
            if let Some(e) = before.content.passwords.get(&id) {
                v.insert(before.value(&id, e));
            }
        }
        Cmd::Notes { site, name, rev: r, .. } => {
            if let Some(e) = before.content.passwords.get(&before.id(site, name, &rev(r))) {
                v.insert(e.notes.clone());
            }
        }
        Cmd::List { site, name, show, verbose, .. } => {
            for s in refcli::listing(before, site.as_deref().unwrap_or("*"), name.as_deref().unwrap_or("*")).values() {
                for (id, e) in &s.passwords {
                    if *show {
                        v.insert(before.value(id, e));
                    }
                    if *verbose {
                        v.insert(e.notes.clone());
                    }
                }
            }
        }
        _ => {}
    }
    v
}

fn check_shown(shown: &[u8], secrets: &BTreeMap<String, String>, meant: &BTreeSet<String>) -> Result<(), String> {
    for (secret, what) in secrets {
        if !meant.contains(secret) {
            if let Some(part) = found(secret, shown) {
                return Err(format!("{} {:?} is displayed: {}", what, secret, part));
            }
        }
    }
    Ok(())
}

fn code_of(password: &str) -> Vec<String> {
    let salt = [7u8; 16];
    let plain = refc::recovery_plain(password, &salt, &refc::storage_key(PRIMARY, &salt), &[9u8; 12]);
    refc::recovery_pretty(&plain).lines().map(|l| l.to_string()).collect()
}

/// Commands with the lines entered after the primary password.
fn commands() -> Vec<(Cmd, Vec<String>)> {
    let mut v: Vec<(Cmd, Vec<String>)> = Vec::new();
    let mut with = |c: Cmd, l: &[&str]| v.push((c, l.iter().map(|x| x.to_string()).collect()));
    for (site, name, rev) in [("a.com", "n", None), ("www.c.com", "n", Some("2")), ("b.com", "m", None), ("d.com", "m", Some("r")), ("none.com", "n", None)] {
        with(show(site, name, rev), &[]);
        with(notes(site, name, rev, false), &[]);
        with(notes(site, name, rev, true), &[NOTES3]);
        with(notes(site, name, rev, true), &[""]);
        with(notes(site, name, rev, true), &[]);
        with(add(site, name, rev, None, 0, false), &["y"]);
        with(add(site, name, rev, None, 0, false), &["n"]);
        with(add_stored(site, name, rev, false), &["y", TYPED]);
        with(add_stored(site, name, rev, true), &[TYPED2]);
        with(add_stored(site, name, rev, true), &[]);
        with(add_stored(site, name, rev, false), &["n", TYPED]);
        with(remove(site, name, rev), &[]);
    }
    with(add("a.com", "n", Some("3"), Some(24), 0b0101, false), &[]);
    with(add("a.com", "n", None, None, 15, true), &[]);
    with(add("a.com", "n", None, Some(3), 0, true), &[]);
    for flags in 0..8 {
        with(list(flags), &[]);
        with(list_for("a.com", None, flags), &[]);
        with(list_for("*.com", Some("m"), flags), &[]);
        with(list_for("nothing", None, flags), &[]);
    }
    with(alias("x.com", "a.com"), &[]);
    with(alias("d.com", "a.com"), &[]);
    with(alias("e.com", "c.com"), &[]);
    with(unalias("c.com"), &[]);
    with(unalias("a.com"), &[]);
    with(show_alias("c.com"), &[]);
    with(show_alias("a.com"), &[]);
    for (site, password) in [("a.com", TYPED2), ("f.com", TYPED)] {
        let code = code_of(password);
        let mut l = code.clone();
        with(Cmd::AddStored { site: site.into(), name: "n".into(), rev: None, recovery: true, yes: true }, &l.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        // A mistyped line, extra data
        l.insert(0, code[0].chars().rev().collect());
        with(Cmd::AddStored { site: site.into(), name: "n".into(), rev: None, recovery: true, yes: true }, &l.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        l = code.clone();
        l.last_mut().unwrap().push_str("ABCD");
        for answer in ["y", "n"] {
            let mut l = l.clone();
            l.push(answer.into());
            with(Cmd::AddStored { site: site.into(), name: "n".into(), rev: None, recovery: true, yes: true }, &l.iter().map(|x| x.as_str()).collect::<Vec<_>>());
        }
        with(Cmd::AddStored { site: site.into(), name: "n".into(), rev: None, recovery: true, yes: true }, &[""]);
    }
    v
}

fn alphabet(m: &Model, all: &[(Cmd, Vec<String>)]) -> Alphabet {
    let mut v = Vec::new();
    let p = m.primary.as_str();
    for (cmd, l) in all {
        for before in [&[p][..], &[WRONG, p], &[SHORT, ATTEMPT, p]] {
            let mut input: Vec<&str> = before.to_vec();
            input.extend(l.iter().map(|x| x.as_str()));
            v.push((cmd.clone(), lines(&input)));
        }
        v.push((cmd.clone(), lines(&[WRONG])));
        v.push((cmd.clone(), lines(&[WRONG, SHORT])));
        // Not the primary password, those of an account
        v.push((cmd.clone(), lines(&[STORED1, STORED2])));
    }
    for yes in [false, true] {
        for l in [&[NEW, NEW][..], &[NEW, OTHER], &[SHORT, SHORT], &[NEW], &[PRIMARY, PRIMARY], &[]] {
            let mut input = if !yes && m.initialized { vec!["y"] } else { vec![] };
            input.extend(l);
            v.push((Cmd::SetPrimary { yes }, lines(&input)));
        }
        v.push((Cmd::SetPrimary { yes }, lines(&["n", NEW, NEW])));
    }
    v
}

/// Output of one run.
fn check_run(res: &Res, before: &Model, cmd: &Cmd, e: &Expect) -> Result<(), String> {
    let all = secrets(before, &e.after);
    let meant = meant(before, cmd, e);
    // Standard output and standard error separately: nothing is meant to be displayed on the latter.
    check_shown(&res.stdout, &all, &meant)?;
    check_shown(&res.stderr, &all, &BTreeSet::new()).map_err(|e| format!("standard error: {}", e))
}

fn label(cmd: &Cmd, input: &[u8]) -> String {
    format!("{} <{}>", cmd.args().join(" "), String::from_utf8_lossy(input).replace('\n', "|"))
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let all = commands();
    self_test(&ctx);
    let extra = |_: &Place, before: &Model, s: &Step, cmd: &Cmd| check_run(&s.res, before, cmd, &s.expect);
    bfs(&ctx, "commands", &[start(), Model::default()], &|m| alphabet(m, &all), 1, Some(&extra));
    let core: Vec<(Cmd, Vec<String>)> = all
        .iter()
        .filter(|(c, _)| !matches!(c, Cmd::List { show: false, .. } | Cmd::AddStored { recovery: true, .. }))
        .enumerate()
        .filter(|(i, _)| ctx.thorough || i % 3 == 0)
        .map(|(_, c)| c.clone())
        .collect();
    let short = |m: &Model| -> Alphabet {
        let mut v: Alphabet = core
            .iter()
            .map(|(c, l)| {
                let mut input = vec![m.primary.as_str()];
                input.extend(l.iter().map(|x| x.as_str()));
                (c.clone(), lines(&input))
            })
            .collect();
        v.push((Cmd::SetPrimary { yes: true }, lines(&[NEW, NEW])));
        v.push((Cmd::SetPrimary { yes: true }, lines(&[NEW, OTHER])));
        v
    };
    bfs(&ctx, "sequences of commands", &[start()], &short, ctx.pick(2, 3), Some(&extra));
    qr_codes(&ctx);
    malformed(&ctx);
    unusual(&ctx);
    faults(&ctx, &all);
    damaged(&ctx);
    shell(&ctx, &all);
    terminal(&ctx);
    library(&ctx);
    ctx.finish(
        "model_checking",
        "each command line with scripted input is run as a real process in every storage state reached, with faults and damaged data; everything displayed is searched for every secret (any six characters in a row, ten in common encodings) the command isn't meant to display",
        &[
            "scrypt is replaced by a fast stand-in",
            "notes, recovery codes and commands typed on a terminal are displayed by it while typing, passwords are not",
            "programs ended by a signal are not covered",
        ],
    )
}

/// The constants have to be told apart.
fn self_test(ctx: &Ctx) {
    let mut texts: Vec<&str> = CONSTANTS[..13].iter().map(|c| c.1).collect();
    texts.extend(PROMPTS);
    for (i, (_, c)) in CONSTANTS[..13].iter().enumerate() {
        for (j, t) in texts.iter().enumerate() {
            if i != j && found(c, t.as_bytes()).is_some() {
                eprintln!("{:?} and {:?} cannot be told apart", c, t);
                std::process::exit(2);
            }
        }
        if found(c, format!("x{}y", c).as_bytes()).is_none() || c.len() > 10 && found(c, refc::b64(format!("x{}y", c).as_bytes()).as_bytes()).is_none() {
            eprintln!("{:?} isn't found", c);
            std::process::exit(2);
        }
    }
    ctx.count("secrets told apart", 13);
}

/// The password isn't displayed as text with its code.
fn qr_codes(ctx: &Ctx) {
    let mut m = start();
    m.unlocked = true;
    // Too long for a code
    m.apply(&model::stored("long.com", "n", "", &STORED1.repeat(300)));
    m.apply(&model::stored("long.com", "n", "2", &STORED3.repeat(100)));
    m.apply(&model::gen("long.com", "n", "3", 3000, 15));
    m.apply(&model::stored("long.com", "n", "4", &format!("{}\0\u{1f600}\r\n", TYPED)));
    m.unlocked = false;
    let ids = [("long.com", "n", None), ("long.com", "n", Some("2")), ("long.com", "n", Some("3")), ("long.com", "n", Some("4")), ("a.com", "n", None), ("c.com", "n", Some("2")), ("b.com", "m", None), ("d.com", "n", None), ("d.com", "m", Some("r")), ("none.com", "n", None)];
    ctx.par(ids.len() * 3, |i| {
        let (site, name, rev) = ids[i / 3];
        let input = [lines(&[PRIMARY]), lines(&[WRONG, PRIMARY]), lines(&[WRONG])][i % 3].clone();
        let place = Place::new(ctx);
        place.write(&libx::raw_for(&m));
        let mut a = show(site, name, rev).args();
        a.insert(1, "-q".into());
        let res = place.run(ctx, &a, &input, &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let all = secrets(&m, &m);
        let r = res.orderly().and_then(|_| check_shown(&[&res.stdout[..], &res.stderr].concat(), &all, &BTreeSet::new()));
        if let Err(e) = r {
            ctx.violation(&format!("code:{}", a.join(" ")), format!("{}\n=> {}\n{}", a.join(" "), e, res.describe()));
        }
    });
}

/// Command lines that aren't understood.
fn malformed(ctx: &Ctx) {
    let m = start();
    let bad: Vec<Vec<&str>> = vec![
        vec![],
        vec!["--help"],
        vec!["help"],
        vec!["--version"],
        vec!["show"],
        vec!["show", "--help"],
        vec!["show", "a.com"],
        vec!["show", "a.com", "n", "x"],
        vec!["show", "a.com", "n", "-r"],
        vec!["add", "a.com", "n", "-l", "99"],
        vec!["list", "-x"],
        vec!["notes", "a.com"],
        vec!["nothing"],
        vec!["set-primary", "-z"],
        vec!["shell", "-z"],
    ];
    ctx.par(bad.len(), |i| {
        let place = Place::new(ctx);
        place.write(&libx::raw_for(&m));
        let res = place.run(ctx, &args(&bad[i]), &lines(&[PRIMARY, TYPED, NEW, NEW]), &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| check_shown(&[&res.stdout[..], &res.stderr].concat(), &secrets(&m, &m), &BTreeSet::new()));
        if let Err(e) = r {
            ctx.violation(&format!("malformed:{}", bad[i].join(" ")), format!("{:?}\n=> {}\n{}", bad[i], e, res.describe()));
        }
    });
}

/// Entries that aren't text, contain control characters or end early, in place of each line.
fn unusual(ctx: &Ctx) {
    let m = start();
    let code = code_of(TYPED2);
    let mut recovery: Vec<&str> = vec![PRIMARY];
    recovery.extend(code.iter().map(|l| l.as_str()));
    let add_recovery = Cmd::AddStored { site: s("x.com"), name: s("n"), rev: None, recovery: true, yes: true };
    let cmds: Vec<(Vec<String>, Vec<&str>)> = vec![
        (show("b.com", "m", None).args(), vec![PRIMARY]),
        (show("b.com", "m", None).args(), vec![WRONG, ATTEMPT]),
        (list(0).args(), vec![PRIMARY]),
        (add_stored("x.com", "n", None, false).args(), vec![PRIMARY, TYPED]),
        (add_stored("b.com", "m", None, false).args(), vec![PRIMARY, "y", TYPED2]),
        (add_recovery.args(), recovery),
        (notes("b.com", "m", None, true).args(), vec![PRIMARY, NOTES3]),
        (args(&["set-primary", "-y"]), vec![NEW, NEW]),
        (args(&["set-primary"]), vec!["y", NEW, OTHER]),
    ];
    let inserts: Vec<Vec<u8>> = [&b"\xff"[..], b"\x80", b"\xe4", b"\xc3\x28", b"\xed\xa0\x80", b"\xf0\x9f\x98", b"\0", b"\r", b"\x1b[31m", b"\x7f", b"\x04", b"\t", b" ", b"\xc2\xa0", b"\xe2\x80\xa8", b"\n", b"\"", b"\\", b"%s{}"]
        .iter()
        .map(|b| b.to_vec())
        .chain([vec![b'x'; 5000], vec![0xff; 5000]])
        .collect();
    let mut runs: Vec<(usize, Vec<u8>)> = Vec::new();
    for (c, (_, l)) in cmds.iter().enumerate() {
        for line in 0..l.len() {
            let join = |replaced: &[u8]| -> Vec<u8> {
                let mut v = Vec::new();
                for (i, l) in l.iter().enumerate() {
                    v.extend(if i == line { replaced } else { l.as_bytes() });
                    v.push(b'\n');
                }
                v
            };
            let text = l[line].as_bytes();
            for insert in &inserts {
                for at in [0, text.len() / 2, text.len()] {
                    runs.push((c, join(&[&text[..at], insert, &text[at..]].concat())));
                }
            }
            // No line break, no more input
            let start: Vec<u8> = l[..line].iter().flat_map(|l| format!("{}\n", l).into_bytes()).collect();
            for cut in [text.len() / 2, text.len()] {
                runs.push((c, [&start, &text[..cut]].concat()));
                runs.push((c, [&start, &text[..cut], b"\xff"].concat()));
                runs.push((c, [&start, &text[..cut], b"\r\n"].concat()));
            }
        }
    }
    let all = secrets(&m, &m);
    ctx.par(runs.len(), |i| {
        let (c, input) = &runs[i];
        let a = &cmds[*c].0;
        let place = Place::new(ctx);
        place.write(&libx::raw_for(&m));
        let res = place.run(ctx, a, input, &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        // Showing a password and editing notes are the only commands meant to display something.
        let meant: BTreeSet<String> = match a[0].as_str() {
            "show" => [STORED2.to_string()].into(),
            "notes" => [NOTES2.to_string()].into(),
            _ => BTreeSet::new(),
        };
        let r = res.orderly().and_then(|_| check_shown(&res.stdout, &all, &meant)).and_then(|_| check_shown(&res.stderr, &all, &BTreeSet::new()).map_err(|e| format!("standard error: {}", e)));
        if let Err(e) = r {
            ctx.violation(&format!("unusual:{}", a.join(" ")), format!("{} with {:?}\n=> {}\n{}", a.join(" "), String::from_utf8_lossy(input), e, res.describe()));
        }
    });
    ctx.count("unusual entries", runs.len() as u64);
}

/// Failing and dying file-system calls.
fn faults(ctx: &Ctx, all: &[(Cmd, Vec<String>)]) {
    let m = start();
    let mut cmds: Vec<(Cmd, Vec<u8>)> = Vec::new();
    for (c, l) in all {
        if !matches!(c, Cmd::List { .. } | Cmd::Add { .. }) || cmds.len() % 4 == 0 {
            let mut input = vec![PRIMARY];
            input.extend(l.iter().map(|x| x.as_str()));
            cmds.push((c.clone(), lines(&input)));
        }
    }
    cmds.push((Cmd::SetPrimary { yes: true }, lines(&[NEW, NEW])));
    let actions = ctx.pick(vec!["E5", "F28"], vec!["E5", "E28", "E13", "E2", "F28", "K", "T100", "S7"]);
    let points = 24;
    ctx.par(cmds.len() * points * actions.len(), |k| {
        let (cmd, input) = &cmds[k / points / actions.len()];
        let plan = format!("{}:{}", k / actions.len() % points, actions[k % actions.len()]);
        let place = Place::new(ctx);
        place.write(&libx::raw_for(&m));
        let res = place.run(ctx, &cmd.args(), input, &Opts { plan: plan.clone(), ..Default::default() });
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let e = simulate(&m, cmd, &mut clix::to_lines(input));
        if let Err(e) = check_run(&res, &m, cmd, &e) {
            ctx.violation(&format!("fault:{}", label(cmd, input)), format!("{} with {}\n=> {}\n{}", label(cmd, input), plan, e, res.describe()));
        }
    });
    ctx.count("faults", (cmds.len() * points * actions.len()) as u64);
}

/// Storage data that cannot be read, secrets inside.
fn damaged(ctx: &Ctx) {
    let m = start();
    let good = libx::raw_for(&m);
    let opened = refc::open(&good, PRIMARY).unwrap();
    let mut w = Writer { salt: opened.salt.clone(), key: opened.key.clone(), hmac_secret: opened.hmac_secret.clone(), nonce: 1 << 40 };
    let mut files: Vec<(String, Vec<u8>)> = Vec::new();
    for key in good.keys() {
        for (what, value) in [("empty", ""), ("garbage", "!!!"), ("short", "AAAA_AAAA")] {
            let mut raw = good.clone();
            raw.insert(key.clone(), value.into());
            files.push((format!("{} {}", key, what), refc::file_text(&raw).into_bytes()));
        }
    }
    let id = ("a.com".to_string(), "n".to_string(), "2".to_string());
    let key = w.password_key(&id);
    let record = json!({"type": "stored", "site": "a.com", "name": "n", "revision": "2", "password": STORED1, "notes": NOTES1});
    let text = record.to_string();
    let mut texts: Vec<String> = (0..text.len()).filter(|n| text.is_char_boundary(*n)).map(|n| text[..n].to_string()).collect();
    for field in ["type", "site", "name", "revision", "password", "notes"] {
        let mut r = record.clone();
        r.as_object_mut().unwrap().remove(field);
        texts.push(r.to_string());
        for bad in [json!(null), json!(5), json!([]), json!({}), json!("stored3"), json!(true)] {
            let mut r = record.clone();
            r[field] = bad;
            texts.push(r.to_string());
        }
        for nested in [json!([STORED1]), json!({ "value": STORED1 }), json!({ STORED1: 1 })] {
            if field == "password" || field == "notes" {
                let mut r = record.clone();
                r[field] = nested;
                texts.push(r.to_string());
            }
        }
    }
    for t in ["generated", "generated2", "stored2", ""] {
        let mut r = record.clone();
        r["type"] = json!(t);
        texts.push(r.to_string());
        r["length"] = json!("16");
        r["lower"] = json!(1);
        texts.push(r.to_string());
    }
    texts.push(text.replace("\"site\"", "\"unknown\":1,\"site\""));
    texts.push(text.replacen('{', &format!("{{\"password\":\"{}\",", STORED1), 1));
    texts.push(text.replace("\"password\":", "\"password\":\"x\",\"password\":"));
    texts.push(format!("{} {}", text, text));
    texts.push(format!("[{}]", text));
    texts.push(STORED1.to_string());
    texts.push(text.replace("Gtj9dy", "Gt\\qj9dy"));
    texts.push(text.replace("Gtj9dy", "Gt\nj9dy"));
    for t in &texts {
        let mut raw = good.clone();
        raw.insert(key.clone(), w.enc(t.as_bytes()));
        files.push((format!("record {}", t), refc::file_text(&raw).into_bytes()));
    }
    let mut invalid = text.clone().into_bytes();
    let at = text.find("fxrs4").unwrap();
    invalid[at] = 0xff;
    let mut raw = good.clone();
    raw.insert(key.clone(), w.enc(&invalid));
    files.push(("record that isn't text".into(), refc::file_text(&raw).into_bytes()));
    let cmds: Vec<(Cmd, Vec<u8>)> = vec![
        (show("a.com", "n", Some("2")), lines(&[PRIMARY])),
        (notes("a.com", "n", Some("2"), false), lines(&[PRIMARY])),
        (notes("a.com", "n", Some("2"), true), lines(&[PRIMARY, NOTES3])),
        (list(7), lines(&[PRIMARY])),
        (list(0), lines(&[PRIMARY])),
        (remove("a.com", "n", Some("2")), lines(&[PRIMARY])),
        (add_stored("a.com", "n", Some("2"), false), lines(&[PRIMARY, "n", TYPED])),
        (alias("a.com", "b.com"), lines(&[PRIMARY])),
        (show_alias("c.com"), lines(&[PRIMARY])),
        (show("a.com", "n", None), lines(&[WRONG, SHORT])),
    ];
    ctx.par(files.len() * cmds.len(), |k| {
        let (what, bytes) = &files[k / cmds.len()];
        let (cmd, input) = &cmds[k % cmds.len()];
        let place = Place::new(ctx);
        std::fs::write(&place.file, bytes).unwrap();
        let res = place.run(ctx, &cmd.args(), input, &Opts::default());
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        // A record that can be read may be displayed as it is.
        let mut e = simulate(&m, cmd, &mut clix::to_lines(input));
        e.after.unlocked = !matches!(cmd, Cmd::Show { rev: None, .. });
        let mut meant = meant(&m, cmd, &e);
        if matches!(cmd, Cmd::List { show: true, .. } | Cmd::Show { rev: Some(_), .. }) {
            meant.insert(STORED1.into());
        }
        if matches!(cmd, Cmd::List { verbose: true, .. } | Cmd::Notes { .. }) {
            meant.insert(NOTES1.into());
        }
        let all = secrets(&m, &e.after);
        let r = res.orderly().and_then(|_| check_shown(&res.stdout, &all, &meant)).and_then(|_| check_shown(&res.stderr, &all, &BTreeSet::new()).map_err(|e| format!("standard error: {}", e)));
        if let Err(e) = r {
            ctx.violation(&format!("damaged:{}:{}", what, cmd.args()[0]), format!("storage with {}\n{}\n=> {}\n{}", what, label(cmd, input), e, res.describe()));
        }
    });
    ctx.count("damaged files", files.len() as u64);
}

/// Pairs of commands in one session; what is displayed for each of them.
fn shell(ctx: &Ctx, all: &[(Cmd, Vec<String>)]) {
    let cmds: Vec<&(Cmd, Vec<String>)> = all.iter().filter(|(c, _)| !matches!(c, Cmd::AddStored { recovery: true, .. }) && !matches!(c, Cmd::Add { len: Some(_), .. })).collect();
    let n = cmds.len();
    ctx.par(n * n, |k| {
        let mut m = start();
        let mut input: Vec<String> = Vec::new();
        let mut all: BTreeMap<String, String> = secrets(&m, &m);
        let mut may: BTreeSet<String> = BTreeSet::new();
        for (i, (cmd, answers)) in [cmds[k % n], cmds[k / n]].into_iter().enumerate() {
            let before = m.clone();
            let mut full = Vec::new();
            if k % 3 == 0 && !m.unlocked {
                full.push(WRONG.to_string());
            }
            if !m.unlocked {
                full.push(PRIMARY.to_string());
            }
            full.extend(answers.iter().cloned());
            full.extend([s("n"), s(""), s("")]);
            let mut lines: refcli::Input = full.iter().cloned().collect();
            let e = simulate(&m, cmd, &mut lines);
            m = e.after.clone();
            input.push(cmd.shell_line());
            input.extend(full[..full.len() - lines.len()].iter().cloned());
            all.extend(secrets(&before, &e.after));
            may.extend(meant(&before, cmd, &e));
            if i == 0 {
                // Commands that aren't understood, with secrets on the line: those may be displayed.
                input.push("show 'a.com".into());
                input.push("help show".into());
                if k % 2 == 0 {
                    input.push("lock".into());
                    m.unlocked = false;
                }
            }
        }
        let place = Place::new(ctx);
        place.write(&libx::raw_for(&start()));
        let text = input.iter().map(|l| format!("{}\n", l)).collect::<String>();
        let res = place.run(ctx, &args(&["shell", "-s", place.dir.join("home/history").to_str().unwrap()]), text.as_bytes(), &Opts::default());
        ctx.eval(1);
        ctx.trans(2);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| check_shown(&res.stdout, &all, &may)).and_then(|_| check_shown(&res.stderr, &all, &BTreeSet::new()).map_err(|e| format!("standard error: {}", e)));
        if let Err(e) = r {
            ctx.violation(&format!("shell:{}", text), format!("shell with {:?}\n=> {}\n{}", text, e, res.describe()));
        }
    });
    ctx.note(&format!("shell: all pairs of {} commands", n));
}

/// On a terminal typed passwords aren't displayed, and it is left as it was.
fn terminal(ctx: &Ctx) {
    const READY: &str = "\u{1b}[?2004h";
    const SECRET: [&str; 4] = [PROMPTS[0], PROMPTS[1], PROMPTS[2], PROMPTS[3]];
    let m = start();
    let mut runs: Vec<(Vec<String>, Vec<String>, Vec<&str>, bool)> = Vec::new();
    let mut with = |a: Vec<String>, l: &[&str], meant: &[&'static str], storage: bool| runs.push((a, l.iter().map(|x| x.to_string()).collect(), meant.to_vec(), storage));
    let cmds: Vec<(Cmd, Vec<&str>, Vec<&'static str>)> = vec![
        (show("a.com", "n", Some("2")), vec![], vec![STORED1]),
        (show("none.com", "n", None), vec![], vec![]),
        (add("a.com", "n", None, None, 0, false), vec!["y"], vec![]),
        (add("x.com", "n", None, None, 0, false), vec![], vec![]),
        (add_stored("x.com", "n", None, false), vec![TYPED], vec![]),
        (add_stored("b.com", "m", None, false), vec!["y", TYPED], vec![]),
        (add_stored("b.com", "m", None, false), vec!["n"], vec![]),
        (add_stored("b.com", "m", None, true), vec!["\u{4}"], vec![]),
        (notes("b.com", "m", None, true), vec![NOTES3], vec![NOTES2, NOTES3]),
        (notes("none.com", "m", None, true), vec![], vec![]),
        (remove("b.com", "m", None), vec![], vec![]),
        (list_for("b.com", None, 5), vec![], vec![STORED2, NOTES2]),
        (list_for("b.com", None, 2), vec![], vec![]),
        (alias("x.com", "b.com"), vec![], vec![]),
        (show_alias("b.com"), vec![], vec![]),
    ];
    for (cmd, l, meant) in &cmds {
        for attempts in [&[PRIMARY][..], &[WRONG, PRIMARY], &[SHORT, "", PRIMARY]] {
            let mut input = attempts.to_vec();
            input.extend(l);
            with(cmd.args(), &input, meant, true);
        }
        with(cmd.args(), &[WRONG, "\u{4}"], &[], true);
    }
    for l in [&[NEW, NEW][..], &[NEW, OTHER], &[SHORT], &[NEW, "\u{4}"], &["\u{4}"]] {
        with(args(&["set-primary", "-y"]), l, &[], true);
        with(args(&["set-primary"]), l, &[], false);
        let mut input = vec!["y"];
        input.extend(l);
        with(args(&["set-primary"]), &input, &[], true);
    }
    with(args(&["set-primary"]), &["n"], &[], true);
    // In the shell
    for (cmd, l, meant) in &cmds {
        for attempts in [&[PRIMARY][..], &[WRONG, PRIMARY], &[SHORT, "", PRIMARY]] {
            let line = cmd.shell_line();
            let mut input = vec![line.as_str()];
            input.extend(attempts);
            input.extend(l.iter().filter(|x| **x != "\u{4}"));
            if l.contains(&"\u{4}") {
                input.push(TYPED2);
            }
            let other = "show b.com m";
            let mut meant = meant.clone();
            for end in [&["exit"][..], &["lock", other, PRIMARY, "exit"], &["\u{4}"], &[other, "exit"]] {
                let mut input = input.clone();
                input.extend(end);
                if end.contains(&other) {
                    meant.extend([STORED2, TYPED, TYPED2]);
                    if matches!(cmd, Cmd::AddStored { .. }) {
                        // Displays what has just been stored.
                        continue;
                    }
                }
                with(vec!["shell".into()], &input, &meant, true);
            }
        }
    }
    let opts = Opts { no_stdin_passwords: true, ..Default::default() };
    ctx.par(runs.len(), |i| {
        let (a, input, meant, storage) = &runs[i];
        let place = Place::new(ctx);
        if *storage {
            place.write(&libx::raw_for(&m));
        }
        let shell = a[0] == "shell";
        let mut prompts: Vec<&str> = PROMPTS.to_vec();
        if shell {
            prompts.push(READY);
        }
        let script: Vec<Vec<u8>> = input
            .iter()
            .map(|l| if l == "\u{4}" { vec![4] } else { format!("{}{}", l, if shell { "\r" } else { "\n" }).into_bytes() })
            .collect();
        let t = pty::run_secret(place.command(ctx, a, &opts), &prompts, &SECRET, &script);
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = (|| -> Result<(), String> {
            if t.timeout || t.signal.is_some() {
                return Err(format!("exit code {:?}, signal {:?}, timeout {}", t.code, t.signal, t.timeout));
            }
            if t.typed != script.len() {
                return Err(format!("{} entries expected, asked {} times", script.len(), t.typed));
            }
            if t.echo {
                return Err("the terminal displays what is typed when a password is asked for".into());
            }
            if !t.restored {
                return Err("the settings of the terminal are not restored".into());
            }
            check_shown(t.shown.as_bytes(), &secrets(&m, &m), &meant.iter().map(|x| x.to_string()).collect())
        })();
        if let Err(e) = r {
            ctx.violation(&format!("terminal:{}:{:?}", a.join(" "), input), format!("{:?} on a terminal with {:?}\n=> {}\nshown: {:?}", a, input, e, t.shown));
        }
    });
    ctx.count("terminal sessions", runs.len() as u64);
}

/// Errors and values of the library as a program would write them to a log.
fn library(ctx: &Ctx) {
    libx::PROBING.store(true, std::sync::atomic::Ordering::Relaxed);
    let mut ops: Vec<Op> = vec![Op::Lock, Op::Unlock(s(PRIMARY)), Op::Unlock(s(WRONG)), Op::Unlock(s(SHORT)), Op::Reset(s(NEW)), Op::RemoveSites(vec![s("e.com")]), Op::RemoveSites(vec![s("x.com")])];
    for (site, name, rev) in [("a.com", "n", "1"), ("c.com", "n", "2"), ("x.com", "n", "")] {
        ops.push(model::gen(site, name, rev, 16, 15));
        ops.push(model::stored(site, name, rev, TYPED));
        ops.push(model::notes(site, name, rev, NOTES3));
        ops.push(model::remove(site, name, rev));
        ops.push(Op::Get { site: s(site), name: s(name), rev: s(rev) });
        ops.push(Op::GetNotes { site: s(site), name: s(name), rev: s(rev) });
        ops.push(Op::Recovery { site: s(site), name: s(name), rev: s(rev) });
        ops.push(Op::List { site: s(site), pattern: s("*") });
    }
    ops.extend([model::alias("x.com", "a.com"), model::alias("a.com", "b.com"), model::unalias("c.com"), model::unalias("a.com"), Op::GetAlias { site: s("c.com") }, Op::GetAlias { site: s("a.com") }, Op::ListSites { pattern: s("*") }]);
    let extra = |edge: &mut libx::Edge| -> Result<(), String> {
        let text = libx::take_debug() + &edge.live.debug();
        check_shown(text.as_bytes(), &secrets(edge.before, edge.after), &BTreeSet::new()).map_err(|e| format!("Debug or Display output: {}\n{}", e, text))
    };
    let obs = libx::observations(&["a.com", "b.com", "c.com", "d.com", "x.com"], &["n", "m"], &["", "2", "r"]);
    let mut unlocked = start();
    unlocked.unlocked = true;
    libx::Explore { ctx, what: "library", init: vec![start(), unlocked, Model::default()], ops, obs, depth: ctx.pick(1, 2), max_states: 100_000, backings: vec![libx::Backing::Mock, libx::Backing::File], reopen: false, reread: false, extra: Some(&extra) }.bfs();
}
