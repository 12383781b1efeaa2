//! C18: nothing secret is left in heap memory once the vault is locked.

use crate::cli::*;
use crate::clix;
use crate::heap::{self, track};
use crate::libx::*;
use crate::model::*;
use crate::pty;
use crate::refc::{self, Entry, Kind, Raw};
use crate::refcli::Cmd;
use crate::util::{guarded, Ctx};
use pfp::passwords::Passwords;
use pfp::storage_io::StorageIO;
use pfp::storage_types::Password;
use std::collections::HashMap;

const PRIMARY: &str = "kwzyvq-jxhorn;9";
const PRIMARY2: &str = "Trimfqk 77 uvolz";
const STORED: &str = "vbnq#gHtrw8!kk2zLo";
const STORED2: &str = "ydu~Qpcs=w9xmBf&";
const NOTES: &str = "nttx urgoz pqirm, wkcl dvuh? yes";
const NOTES2: &str = "sklq (oirtz) mwvpd: u\u{e4}x\u{1F600}q";
const ENTERED: &str = "jgkq|Rtuzw-43-bnvcx";
const SALT: [u8; 16] = *b"0123456789abcdef";

fn long(n: usize) -> String {
    let mut x = 88172645463325252u64;
    (0..n)
        .map(|_| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            (b'!' + (x % 94) as u8) as char
        })
        .map(|c| if c == '"' || c == '\\' { 'q' } else { c })
        .collect()
}

/// All eight byte pieces of secrets, with what they belong to.
#[derive(Default, Clone)]
struct Needles {
    map: HashMap<[u8; 8], String>,
}

impl Needles {
    fn add(&mut self, secret: &[u8], what: &str) {
        for w in secret.windows(8) {
            self.map.entry(w.try_into().unwrap()).or_insert_with(|| what.to_string());
        }
    }
    /// Primary password, key and lookup secret of a storage and everything in it.
    fn storage(&mut self, raw: &Raw, primary: &str) {
        self.add(primary.as_bytes(), "primary password");
        let Some(salt) = raw.get("salt").and_then(|s| refc::unb64(s)) else { return };
        let key = refc::storage_key(primary, &salt);
        self.add(&key, "encryption key");
        self.add(refc::b64(&key).as_bytes(), "encryption key in Base64");
        if let Some(secret) = raw.get("hmac-secret").and_then(|v| refc::decrypt_value(&key, v)) {
            let text = String::from_utf8_lossy(&secret).trim_matches('"').to_string();
            self.add(text.as_bytes(), "lookup secret in Base64");
            self.add(&refc::unb64(&text).unwrap_or_default(), "lookup secret");
        }
        if let Ok(opened) = refc::open(raw, primary) {
            for (id, e) in &opened.content.passwords {
                self.entry(primary, id, e);
            }
        }
    }
    fn entry(&mut self, primary: &str, id: &refc::Id, e: &Entry) {
        match &e.kind {
            Kind::Stored(p) => self.add(p.as_bytes(), &format!("password of {:?}", id)),
            Kind::Generated { length, classes } => {
                let text = refc::generation_salt(&id.0, &id.1, &id.2);
                self.add(&refc::kdf(primary.as_bytes(), text.as_bytes(), *length), &format!("key material of generated password {:?}", id));
                self.add(refc::generate(primary, &id.0, &id.1, &id.2, *length, *classes).as_bytes(), &format!("generated password {:?}", id))
            }
        }
        self.add(e.notes.as_bytes(), &format!("notes of {:?}", id));
    }
    fn find(&self, memory: &[u8]) -> Option<(String, usize)> {
        let mut filter = vec![false; 1 << 16];
        let hash = |w: &[u8]| (u64::from_le_bytes(w.try_into().unwrap()).wrapping_mul(0x9E3779B97F4A7C15) >> 48) as usize;
        for w in self.map.keys() {
            filter[hash(w)] = true;
        }
        let mut runs = Runs::default();
        memory.windows(8).enumerate().find_map(|(i, w)| if filter[hash(w)] { self.map.get(w).filter(|what| runs.hit(i, what)).map(|what| (what.clone(), i)) } else { None })
    }
}

/// Binary secrets have to be found as a whole or almost so: their eight byte words also get around in the unused
/// parts of data structures that were moved from the stack, which is the compiler's doing.
#[derive(Default)]
struct Runs {
    at: usize,
    len: usize,
    what: String,
}

impl Runs {
    fn hit(&mut self, at: usize, what: &str) -> bool {
        if at == self.at + 1 && self.what == what {
            self.len += 1;
        } else {
            self.len = 1;
            self.what = what.to_string();
        }
        self.at = at;
        let needed = if what == "encryption key" || what == "lookup secret" { 24 } else { 8 };
        self.len + 7 >= needed
    }
}

#[derive(Clone)]
enum Act {
    Do(Op),
    /// Decode this recovery code
    Decode(String),
    /// The next attempt to save fails
    FailSaving,
}

fn model() -> Model {
    let mut m = Model::initial(PRIMARY, Default::default());
    m.apply(&stored("a.com", "n", "", STORED));
    m.apply(&notes("a.com", "n", "", NOTES));
    m.apply(&gen("a.com", "n", "2", 18, 15));
    m.apply(&notes("a.com", "n", "2", NOTES2));
    m.apply(&stored("a.com", "m", "", STORED2));
    m.apply(&gen("b.com", "n", "", 40, 5));
    m.apply(&alias("c.com", "a.com"));
    m
}

fn code(text: &str, primary: &str) -> String {
    refc::recovery_plain(text, &SALT, &refc::storage_key(primary, &SALT), b"nonce nonce ")
}

fn alphabet() -> Vec<Act> {
    let s = |x: &str| x.to_string();
    let good = code(ENTERED, PRIMARY);
    let mut broken = good.clone();
    let at = broken.len() - 3;
    let c = if &broken[at..at + 1] == "A" { "B" } else { "A" };
    broken.replace_range(at..at + 1, c);
    let op = |o: Op| Act::Do(o);
    vec![
        op(Op::Unlock(s(PRIMARY))),
        op(Op::Unlock(s("not the right one"))),
        op(Op::Lock),
        op(Op::Reset(s(PRIMARY2))),
        op(stored("a.com", "n", "", ENTERED)),
        op(stored("c.com", "new", "3", ENTERED)),
        op(gen("a.com", "m", "", 22, 6)),
        op(gen("d.com", "x", "", 9, 15)),
        op(notes("a.com", "n", "", ENTERED)),
        op(notes("a.com", "n", "", "")),
        op(notes("a.com", "missing", "", ENTERED)),
        op(remove("a.com", "n", "")),
        op(remove("a.com", "missing", "")),
        op(alias("a.com", "b.com")),
        op(alias("d.com", "c.com")),
        op(unalias("c.com")),
        op(Op::Has { site: s("a.com"), name: s("n"), rev: s("") }),
        op(Op::Get { site: s("a.com"), name: s("n"), rev: s("") }),
        op(Op::Get { site: s("c.com"), name: s("n"), rev: s("2") }),
        op(Op::Get { site: s("a.com"), name: s("missing"), rev: s("") }),
        op(Op::GetNotes { site: s("c.com"), name: s("n"), rev: s("1") }),
        op(Op::List { site: s("a.com"), pattern: s("*") }),
        op(Op::List { site: s("c.com"), pattern: s("n") }),
        op(Op::ListSites { pattern: s("*") }),
        op(Op::Recovery { site: s("a.com"), name: s("n"), rev: s("") }),
        op(Op::RemoveSites(vec![s("c.com")])),
        Act::Decode(good.clone()),
        Act::Decode(broken),
        Act::Decode(good[..good.len() - 24].to_string()),
        Act::Decode(good.clone() + &good[..24]),
        Act::Decode(code(ENTERED, PRIMARY2)),
        Act::FailSaving,
    ]
}

/// Everything here is allocated while tracking; nothing is copied by the harness.
fn perform<IO: StorageIO>(p: &mut Passwords<IO>, act: &Act) -> bool {
    let op = match act {
        Act::FailSaving => return true,
        Act::Decode(code) => return p.decode_recovery_code(code).is_ok(),
        Act::Do(op) => op,
    };
    match op {
        Op::Reset(pw) => p.reset(secret(pw)).is_ok(),
        Op::Unlock(pw) => p.unlock(secret(pw)).is_ok(),
        Op::Lock => {
            p.lock();
            true
        }
        Op::SetGen { site, name, rev, len, classes } => p.set_generated(site, name, rev, *len, charset(*classes)).is_ok(),
        Op::SetStored { site, name, rev, pw } => p.set_stored(site, name, rev, secret(pw)).is_ok(),
        Op::SetNotes { site, name, rev, notes } => p.set_notes(site, name, rev, secret(notes)).is_ok(),
        Op::Remove { site, name, rev } => p.remove(site, name, rev).is_ok(),
        Op::SetAlias { site, target } => p.set_alias(site, target).is_ok(),
        Op::RemoveAlias { site } => p.remove_alias(site).is_ok(),
        Op::RemoveSites(sites) => p.remove_sites(sites).is_ok(),
        Op::Has { site, name, rev } => p.has(site, name, rev).is_ok(),
        Op::Get { site, name, rev } => p.get(site, name, rev).is_ok(),
        Op::GetNotes { site, name, rev } => p.get_notes(site, name, rev).is_ok(),
        Op::GetAlias { site } => p.get_alias(site).is_ok(),
        Op::List { .. } | Op::ListSites { .. } | Op::Recovery { .. } if !p.unlocked() => true,
        Op::List { site, pattern } => p.list(site, pattern).collect::<Vec<Password>>().len() > 0,
        Op::ListSites { pattern } => p.list_sites(pattern).count() > 0,
        Op::Recovery { site, name, rev } => {
            let list = p.list(site, "*").collect::<Vec<Password>>();
            let rev = revision(rev);
            for entry in &list {
                if let Password::Stored(s) = entry {
                    if s.id().name() == name && s.id().revision() == rev {
                        return match p.get_recovery_code(s) {
                            Ok(code) => p.decode_recovery_code(&code).is_ok(),
                            Err(_) => false,
                        };
                    }
                }
            }
            false
        }
    }
}

fn act_on(live: &mut Live, act: &Act) -> bool {
    if let (Live::Mock(_, shared), Act::FailSaving) = (&*live, act) {
        shared.borrow_mut().fail = 1;
    }
    let r = guarded(|| {
        track(|| match live {
            Live::Mock(p, _) => perform(p, act),
            Live::File(p, _) => perform(p, act),
        })
    });
    r.unwrap_or(false)
}

fn describe(act: &Act) -> String {
    match act {
        Act::Do(op) => format!("{:?}", op),
        Act::Decode(c) => format!("decode {}", c),
        Act::FailSaving => "(saving will fail)".into(),
    }
}

/// Operations on a session that starts unlocked, then locking or dropping it.
fn scenario(ctx: &Ctx, backing: Backing, path: &std::path::Path, raw: &Raw, primary: &str, acts: &[&Act], constant: &Needles, drop_only: bool) -> Result<(), String> {
    let mut needles = constant.clone();
    needles.storage(raw, primary);
    heap::reset();
    let mut live = track(|| Live::open(backing, raw, path));
    act_on(&mut live, &Act::Do(Op::Unlock(primary.to_string())));
    let mut now = primary.to_string();
    let mut shown = Vec::new();
    let mut r = Ok(());
    for act in acts {
        let ok = act_on(&mut live, act);
        ctx.trans(1);
        ctx.outcome(if ok { "operation succeeded" } else { "operation failed" });
        shown.push(describe(act));
        // What is in the file now, may have been in memory.
        if let Ok(raw) = live.raw() {
            match act {
                Act::Do(Op::Reset(pw)) => {
                    needles.add(pw.as_bytes(), "new primary password");
                    if ok {
                        now = pw.clone();
                    }
                }
                Act::Do(Op::SetGen { site, name, rev, len, classes }) => {
                    needles.entry(&now, &(site.clone(), name.clone(), revision(rev)), &Entry { kind: Kind::Generated { length: *len, classes: *classes }, notes: String::new() });
                }
                _ => {}
            }
            needles.storage(&raw, &now);
        }
        if matches!(act, Act::Do(Op::Lock)) {
            r = found(ctx, &needles, &shown);
            if r.is_err() {
                break;
            }
        }
    }
    if r.is_ok() && !drop_only {
        act_on(&mut live, &Act::Do(Op::Lock));
        shown.push("Lock".into());
        r = found(ctx, &needles, &shown);
    }
    drop(live);
    if r.is_ok() {
        shown.push("drop".into());
        r = found(ctx, &needles, &shown);
    }
    let left = heap::reset();
    if left > 0 {
        ctx.count("blocks in use after dropping the session", left as u64);
    }
    ctx.eval(1);
    ctx.trace(1);
    r
}

fn found(ctx: &Ctx, needles: &Needles, shown: &[String]) -> Result<(), String> {
    let memory = heap::memory();
    ctx.count("memory images searched", 1);
    ctx.count("bytes searched", memory.len() as u64);
    match needles.find(memory) {
        None => Ok(()),
        Some((what, at)) => Err(format!("after {} heap memory holds a copy of {}: {:?}", shown.join("; "), what, String::from_utf8_lossy(&memory[at.saturating_sub(60)..(at + 60).min(memory.len())]))),
    }
}

fn constant() -> Needles {
    let mut n = Needles::default();
    n.add(ENTERED.as_bytes(), "text entered");
    n
}

fn warm_up(ctx: &Ctx) {
    let raw = raw_for(&model());
    for backing in [Backing::Mock, Backing::File] {
        let mut live = Live::open(backing, &raw, &scratch_file(ctx));
        for act in alphabet() {
            match &mut live {
                Live::Mock(p, _) => perform(p, &act),
                Live::File(p, _) => perform(p, &act),
            };
        }
        let _ = live.raw();
    }
    let _ = guarded(|| panic!("warming up"));
}

thread_local! {
    static WARM: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

fn library(ctx: &Ctx, depth: usize, backing: Backing) {
    let all = alphabet();
    let constant = constant();
    let raw = raw_for(&model());
    for len in 0..=depth {
        let n = all.len();
        ctx.par(n.pow(len as u32), |k| {
            if !WARM.replace(true) {
                warm_up(ctx);
            }
            let mut rest = k;
            let acts: Vec<&Act> = (0..len)
                .map(|_| {
                    let a = &all[rest % n];
                    rest /= n;
                    a
                })
                .collect();
            ctx.state(1);
            if let Err(e) = scenario(ctx, backing, &scratch_file(ctx), &raw, PRIMARY, &acts, &constant, k % 2 == 1) {
                let label: Vec<String> = acts.iter().map(|a| describe(a)).collect();
                ctx.violation(&format!("library {:?} {}", backing, label.join("; ")), e);
            }
        });
    }
    ctx.note(&format!("library, {:?}: all sequences of up to {} of {} operations", backing, depth, all.len()));
}

/// Secrets of many lengths and kinds, entered and read in every way.
fn values(ctx: &Ctx) {
    let mut texts: Vec<(String, String)> = [8usize, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 300, 511, 512, 513, 1000, 1024, 1025, 2000, 4096, 5000, 10000, 70000].iter().map(|&n| (format!("{} characters", n), long(n))).collect();
    for (name, escape) in [("quote", "\""), ("backslash", "\\"), ("line break", "\n"), ("tab", "\t"), ("control character", "\u{1}")] {
        for place in ["start", "middle", "end"] {
            let base = "wqpzlmvnbxkrtyhf";
            let at = match place {
                "start" => 0,
                "middle" => 8,
                _ => 16,
            };
            texts.push((format!("{} at the {}", name, place), format!("{}{}{}", &base[..at], escape, &base[at..])));
        }
    }
    for (name, text) in [("slash", "wqpzlmv/nbxkrtyhf"), ("umlauts", "w\u{e4}qpz\u{f6}lmvnb\u{fc}x"), ("emoji", "\u{1F600}wqpzlmvn\u{1F601}bxkrt"), ("delete", "wqpzlmvn\u{7f}bxkrt"), ("blanks", "  wqpzlmvn  bxkrt  "), ("line separator", "wqpzlmvn\u{2028}bxkrt")] {
        texts.push((name.into(), text.into()));
    }
    let s = |x: &str| x.to_string();
    let get = Act::Do(Op::Get { site: s("a.com"), name: s("v"), rev: s("") });
    let get_notes = Act::Do(Op::GetNotes { site: s("a.com"), name: s("v"), rev: s("") });
    let list = Act::Do(Op::List { site: s("a.com"), pattern: s("*") });
    let recovery = Act::Do(Op::Recovery { site: s("a.com"), name: s("v"), rev: s("") });
    ctx.par(texts.len() * 8, |k| {
        if !WARM.replace(true) {
            warm_up(ctx);
        }
        let (name, text) = &texts[k / 8];
        let mut m = Model::initial(PRIMARY, Default::default());
        let set = Act::Do(stored("a.com", "v", "", text));
        let set_notes = Act::Do(notes("a.com", "v", "", text));
        let dec = Act::Decode(code(text, PRIMARY));
        let (what, acts): (&str, Vec<&Act>) = match k % 8 {
            0 => ("entered as a password", vec![&set]),
            1 | 2 | 3 => {
                m.apply(&stored("a.com", "v", "", text));
                match k % 8 {
                    1 => ("shown", vec![&get]),
                    2 => ("listed", vec![&list]),
                    _ => ("made a recovery code", vec![&recovery]),
                }
            }
            4 => {
                m.apply(&gen("a.com", "v", "", 12, 15));
                ("entered as notes", vec![&set_notes])
            }
            5 => {
                m.apply(&gen("a.com", "v", "", 12, 15));
                m.apply(&notes("a.com", "v", "", text));
                ("shown as notes", vec![&get_notes, &list])
            }
            6 => {
                if text.len() > 4000 {
                    return;
                }
                ("decoded from a recovery code", vec![&dec])
            }
            _ => {
                m = Model::initial(text, Default::default());
                m.apply(&gen("a.com", "v", "", 12, 15));
                ("used as a primary password", vec![&get])
            }
        };
        let raw = raw_for(&m);
        let mut needles = Needles::default();
        needles.add(text.as_bytes(), "the value");
        ctx.state(1);
        let primary = if k % 8 == 7 { text } else { PRIMARY };
        for drop_only in [false, true] {
            if let Err(e) = scenario(ctx, Backing::Mock, &scratch_file(ctx), &raw, primary, &acts, &needles, drop_only) {
                let escaped = text.chars().any(|c| c < ' ' || c == '"' || c == '\\');
                let key = if escaped { format!("value escaped in JSON {}", what) } else { format!("value with {} {}", name, what) };
                ctx.violation(&key, e);
            }
        }
    });
    ctx.note(&format!("{} kinds of values (lengths 8 to 70000, characters escaped in JSON), each entered, shown, listed, decoded, used as primary password", texts.len()));
}

/// Generated passwords of many lengths
fn generated(ctx: &Ctx) {
    let lengths: Vec<usize> = (8..=64).chain([100, 128, 200, 255, 256, 500, 1000, 1024, 4096]).collect();
    ctx.par(lengths.len() * 15, |k| {
        if !WARM.replace(true) {
            warm_up(ctx);
        }
        let (len, classes) = (lengths[k / 15], (k % 15 + 1) as u8);
        let set = Act::Do(gen("a.com", "v", "", len, classes));
        let get = Act::Do(Op::Get { site: "a.com".into(), name: "v".into(), rev: "".into() });
        ctx.state(1);
        if let Err(e) = scenario(ctx, Backing::Mock, &scratch_file(ctx), &raw_for(&Model::initial(PRIMARY, Default::default())), PRIMARY, &[&set, &get], &Needles::default(), k % 2 == 0) {
            ctx.violation(&format!("generated password, length {} types {}", len, classes), e);
        }
    });
    ctx.note("generated passwords: lengths 8 to 64 and up to 4096, all combinations of character types");
}

// ---- the program ----

struct Watch {
    needles: std::path::PathBuf,
    log: std::path::PathBuf,
    index: Vec<String>,
}

fn watch(place: &Place, needles: &Needles) -> Watch {
    let mut list: Vec<(&[u8; 8], &String)> = needles.map.iter().collect();
    list.sort_by_key(|x| u64::from_le_bytes(*x.0));
    list.truncate(1 << 16);
    let w = Watch { needles: place.io_path("needles"), log: place.io_path("heaplog"), index: list.iter().map(|x| x.1.clone()).collect() };
    std::fs::write(&w.needles, list.iter().flat_map(|x| x.0.iter().copied()).collect::<Vec<u8>>()).unwrap();
    let _ = std::fs::remove_file(&w.log);
    w
}

fn opts(ctx: &Ctx, w: &Watch, seed: u64) -> Opts {
    Opts {
        wait: true,
        mark: true,
        seed: Some(seed),
        preload_first: Some(ctx.verif.join("target/heap.so")),
        env: vec![("PFPMC_NEEDLES".into(), w.needles.clone().into()), ("PFPMC_HEAPLOG".into(), w.log.clone().into())],
        ..Default::default()
    }
}

/// For each search of the memory what was found.
fn scans(w: &Watch) -> Vec<Vec<String>> {
    let mut out: Vec<Vec<String>> = Vec::new();
    let mut runs = Runs::default();
    for line in std::fs::read_to_string(&w.log).unwrap_or_default().lines() {
        let f: Vec<&str> = line.split(' ').collect();
        if f[0] == "SCAN" {
            out.push(Vec::new());
            runs = Runs::default();
        } else if let (Some(last), Some(what)) = (out.last_mut(), f.get(2).and_then(|i| i.parse::<usize>().ok()).and_then(|i| w.index.get(i))) {
            if runs.hit(f[3].parse().unwrap_or(0), what) && !last.contains(what) {
                last.push(what.clone());
            }
        }
    }
    out
}

fn commands() -> Vec<(Cmd, Vec<String>)> {
    let s = |x: &str| x.to_string();
    let big = long(1000);
    let huge = long(9000);
    let good = code(ENTERED, PRIMARY);
    let mut v = Vec::new();
    let mut with = |c: Cmd, more: &[&str]| {
        let mut l = if matches!(c, Cmd::SetPrimary { .. }) { vec![] } else { vec![s(PRIMARY)] };
        l.extend(more.iter().map(|m| s(m)));
        v.push((c, l));
    };
    with(Cmd::SetPrimary { yes: true }, &[PRIMARY2, PRIMARY2]);
    with(Cmd::SetPrimary { yes: false }, &["y", PRIMARY2, PRIMARY2]);
    with(Cmd::SetPrimary { yes: true }, &[&big, &big]);
    with(clix::add("x.com", "n", None, None, 0, false), &[]);
    with(clix::add("a.com", "n", None, Some(23), 8, true), &[]);
    with(clix::add("a.com", "n", None, None, 0, false), &["n"]);
    with(clix::add_stored("x.com", "n", None, false), &[ENTERED]);
    with(clix::add_stored("a.com", "n", None, false), &["y", ENTERED]);
    with(clix::add_stored("a.com", "n", None, false), &["n"]);
    with(clix::add_stored("x.com", "n", None, false), &[&format!("  {}  ", ENTERED)]);
    with(clix::add_stored("x.com", "n", None, false), &[&big]);
    with(clix::add_stored("x.com", "n", None, false), &[&huge]);
    with(clix::remove("a.com", "n", None), &[]);
    with(clix::remove("a.com", "missing", None), &[]);
    with(clix::show("a.com", "n", None), &[]);
    with(clix::show("a.com", "n", Some("2")), &[]);
    with(clix::show("c.com", "m", None), &[]);
    with(clix::show("a.com", "missing", None), &[]);
    with(clix::notes("a.com", "n", None, false), &[]);
    with(clix::notes("a.com", "n", Some("2"), false), &[]);
    with(clix::notes("a.com", "n", None, true), &[ENTERED]);
    with(clix::notes("a.com", "m", None, true), &[&big]);
    with(clix::notes("a.com", "m", None, true), &[&huge]);
    with(clix::notes("a.com", "n", None, true), &[""]);
    with(clix::notes("a.com", "n", None, true), &[]);
    with(clix::notes("a.com", "missing", None, true), &[ENTERED]);
    for flags in 0..8 {
        with(clix::list(flags), &[]);
    }
    with(clix::list_for("c.com", Some("n"), 7), &[]);
    with(clix::list_for("nothing", None, 7), &[]);
    with(clix::alias("a.com", "b.com"), &[]);
    with(clix::alias("d.com", "c.com"), &[]);
    with(clix::unalias("c.com"), &[]);
    with(clix::show_alias("c.com"), &[]);
    let rec = |yes| Cmd::AddStored { site: s("x.com"), name: s("n"), rev: None, recovery: true, yes };
    let lines: Vec<String> = refc::recovery_pretty(&good).split('\n').map(s).collect();
    with(rec(true), &[&good]);
    with(rec(false), &lines.iter().map(|l| l.as_str()).collect::<Vec<_>>());
    with(rec(true), &[&lines[0], "nonsense", &lines[1], "again nonsense", &lines[2], &lines.get(3).cloned().unwrap_or_default()]);
    with(rec(true), &[&format!("{}{}", good, &good[..24]), "y"]);
    with(rec(true), &[&format!("{}{}", good, &good[..24]), "n"]);
    with(rec(true), &[&code(ENTERED, PRIMARY2)]);
    with(rec(true), &[&lines[0], ""]);
    // Mistakes while unlocking
    v.push((clix::show("a.com", "n", None), vec![s("too"), s("wrong primary one"), s(PRIMARY)]));
    v.push((clix::show("a.com", "n", None), vec![format!(" {}\t", PRIMARY)]));
    v.push((clix::add_stored("x.com", "n", None, false), vec![s("wrong primary one"), s(PRIMARY), s(ENTERED)]));
    v.push((clix::list(7), vec![]));
    v
}

fn start_needles(raw: &Raw) -> Needles {
    let mut n = constant();
    n.storage(raw, PRIMARY);
    n.add(long(1000).as_bytes(), "long text entered");
    n.add(long(9000).as_bytes(), "very long text entered");
    n.add(PRIMARY2.as_bytes(), "new primary password");
    let m = model();
    for (len, classes, site, name) in [(16, 15, "x.com", "n"), (23, 7, "a.com", "n")] {
        n.entry(&m.primary, &(site.into(), name.into(), "".into()), &Entry { kind: Kind::Generated { length: len, classes }, notes: String::new() });
    }
    n
}

/// Every command as an invocation of its own, memory searched at its end.
fn invocations(ctx: &Ctx) {
    let all = commands();
    ctx.par(all.len(), |k| {
        let (cmd, input) = &all[k];
        let args = cmd.args();
        invocation(ctx, &args, input, k as u64 + 1);
    });
    // Not part of the reference model
    let more: Vec<(Vec<String>, Vec<String>)> = vec![
        (args(&["show", "-q", "a.com", "n"]), vec![PRIMARY.into()]),
        (args(&["show", "a.com"]), vec![PRIMARY.into()]),
        (args(&["list", "--show", "--recovery", "--verbose", "*", "?"]), vec![PRIMARY.into()]),
    ];
    ctx.par(more.len(), |k| invocation(ctx, &more[k].0, &more[k].1, 1000 + k as u64));
    ctx.note(&format!("program: {} invocations (every command, success and failure, mistakes), memory searched at the end", all.len() + more.len()));
}

fn invocation(ctx: &Ctx, args: &[String], input: &[String], seed: u64) {
    let raw = raw_for(&model());
    let mut needles = start_needles(&raw);
    let text: String = input.iter().map(|l| format!("{}\n", l)).collect();
    let label = format!("program {} <{}>", args.join(" "), input.join("|").chars().take(120).collect::<String>());
    // The first run tells the new storage's secrets, the second has the same randomness.
    let rounds = if args[0] == "set-primary" { 2 } else { 1 };
    for round in 0..rounds {
        let place = Place::new(ctx);
        place.write(&raw);
        let w = watch(&place, &needles);
        let res = place.run(ctx, args, text.as_bytes(), &opts(ctx, &w, seed));
        ctx.eval(1);
        ctx.trace(1);
        ctx.trans(1);
        ctx.state(1);
        if round == 0 && rounds == 2 {
            if let Ok(raw) = place.raw() {
                needles.storage(&raw, input.last().unwrap());
            }
        }
        let scans = scans(&w);
        ctx.count("memory images searched", scans.len() as u64);
        if let Err(e) = res.orderly() {
            ctx.violation(&label, format!("{}\n{}", e, res.describe()));
            return;
        }
        let ended = res.out().contains("Waiting...");
        match scans.last() {
            Some(found) if ended => {
                ctx.outcome(if res.ok() { "command succeeded" } else { "command failed" });
                if !found.is_empty() {
                    ctx.violation(&label, format!("{}\nat the end heap memory holds: {}", label, found.join(", ")));
                    return;
                }
            }
            _ if args[0] == "show" && args.len() < 3 => {} // rejected before anything starts
            _ => {
                ctx.violation(&label, format!("{}: memory was not searched\n{}", label, res.describe()));
                return;
            }
        }
    }
}

/// Sessions in the shell, memory searched after each lock command and at the end.
fn shell(ctx: &Ctx, depth: usize) {
    let all: Vec<(String, Option<(Cmd, Vec<String>)>)> = commands()
        .into_iter()
        .filter(|(c, _)| !matches!(c, Cmd::SetPrimary { .. }))
        .enumerate()
        .filter(|(i, _)| depth == 1 || i % 3 == 0)
        .map(|(_, (c, i))| (c.shell_line(), Some((c, i))))
        .chain([("lock".to_string(), None), ("nonsense".to_string(), None)])
        .collect();
    let n = all.len();
    ctx.par(n.pow(depth as u32), |k| {
        let mut rest = k;
        let mut m = model();
        m.unlocked = false;
        let raw = raw_for(&m);
        let needles = start_needles(&raw);
        let mut script = Vec::new();
        // Reads of standard input at which the vault is locked
        let mut locked_at = vec![0usize];
        let mut reads = 0;
        for _ in 0..depth {
            let (line, cmd) = &all[rest % n];
            rest /= n;
            for lock_after in [false, true] {
                let line = if lock_after { "lock" } else { line.as_str() };
                script.push(line.to_string());
                reads += 1;
                if let (Some((cmd, answers)), false) = (cmd, lock_after) {
                    let mut answers = answers.clone();
                    if let Cmd::Add { site, name, rev, yes: false, .. } | Cmd::AddStored { site, name, rev, yes: false, .. } = cmd {
                        // Secrets are only entered where they are asked for.
                        let exists = m.content.passwords.contains_key(&m.id(site, name, rev.as_deref().unwrap_or("")));
                        answers.retain(|a| exists || (a != "y" && a != "n"));
                        if exists && !answers.iter().any(|a| a == "y" || a == "n") {
                            let at = answers.iter().position(|a| a.contains(PRIMARY)).map_or(0, |p| p + 1);
                            answers.insert(at, "yes, do it!".into());
                            answers.insert(at + 1, "yes".into());
                        }
                    }
                    let skip = if m.unlocked { answers.iter().take_while(|a| a.contains("primary") || a.contains(PRIMARY) || *a == "too").count() } else { 0 };
                    let mut input: crate::refcli::Input = answers[skip.min(answers.len())..].iter().cloned().collect();
                    if !answers.iter().any(|a| a.contains(PRIMARY)) {
                        input.push_back(PRIMARY.into());
                    }
                    input.extend(["".to_string(), "n".into(), "".into(), "".into()]);
                    let all: Vec<String> = input.iter().cloned().collect();
                    let e = crate::refcli::simulate(&m, cmd, &mut input);
                    script.extend(all[..all.len() - input.len()].iter().cloned());
                    reads += e.questions;
                    m = e.after;
                } else if line == "lock" {
                    m.unlocked = false;
                }
                if !m.unlocked {
                    locked_at.push(reads);
                }
                if k % 2 == 0 {
                    break; // without locking in between
                }
            }
        }
        if k % 2 == 0 {
            script.push("lock".into());
            reads += 1;
            locked_at.push(reads);
        }
        script.push(if k % 3 == 0 { "lock".into() } else { "show a.com n".to_string() });
        if k % 3 != 0 {
            script.push(PRIMARY.into());
        }
        script.push("exit".into());
        let label = format!("shell <{}>", script.join("|"));
        let label: String = label.chars().take(300).collect();
        let place = Place::new(ctx);
        place.write(&raw);
        let w = watch(&place, &needles);
        let text: String = script.iter().map(|l| format!("{}\n", l)).collect();
        let res = place.run(ctx, &args(&["shell"]), text.as_bytes(), &opts(ctx, &w, k as u64));
        ctx.eval(1);
        ctx.trace(1);
        ctx.state(1);
        ctx.trans(script.len() as u64);
        let scans = scans(&w);
        ctx.count("memory images searched", scans.len() as u64);
        let r = (|| -> Result<(), String> {
            res.orderly()?;
            if !res.out().contains("Waiting...") {
                return Err("memory was not searched at the end".into());
            }
            locked_at.push(scans.len() - 1);
            for &at in &locked_at {
                match scans.get(at) {
                    None => return Err(format!("input was read {} times only", scans.len())),
                    Some(found) if !found.is_empty() => return Err(format!("when input is read for the {}th time, the vault being locked, heap memory holds: {}", at + 1, found.join(", "))),
                    _ => {}
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            ctx.violation(&label, format!("{}\n=> {}\n{}", label, e, res.describe()));
        }
    });
    ctx.note(&format!("program: all shell sessions of {} of {} commands, memory searched whenever the vault is locked and at the end", depth, n));
}

/// On a terminal the program reads passwords in another way.
fn terminal(ctx: &Ctx) {
    let s = |x: &str| x.as_bytes().to_vec();
    let line = |x: &str| format!("{}\n", x).into_bytes();
    let all: Vec<(Vec<String>, Vec<Vec<u8>>)> = vec![
        (args(&["show", "a.com", "n"]), vec![line(PRIMARY)]),
        (args(&["show", "a.com", "n"]), vec![line("wrong primary one"), line(PRIMARY)]),
        (args(&["add-stored", "x.com", "n"]), vec![line(PRIMARY), line(ENTERED)]),
        (args(&["add-stored", "a.com", "n"]), vec![line(PRIMARY), line("y"), line(ENTERED)]),
        (args(&["notes", "-s", "a.com", "n"]), vec![line(PRIMARY), line(ENTERED)]),
        (args(&["set-primary", "-y"]), vec![line(PRIMARY2), line(PRIMARY2)]),
        (args(&["list", "--show", "--verbose"]), vec![line(PRIMARY)]),
    ];
    ctx.par(all.len(), |k| {
        let (cmd, script) = &all[k];
        let raw = raw_for(&model());
        let place = Place::new(ctx);
        place.write(&raw);
        let w = watch(&place, &start_needles(&raw));
        let mut o = opts(ctx, &w, 1);
        o.no_stdin_passwords = true;
        o.mark = false;
        let mut prompts = crate::refcli::PROMPTS.to_vec();
        prompts.push("Waiting...");
        let mut script = script.clone();
        script.push(s("\n"));
        let session = pty::run(place.command(ctx, cmd, &o), &prompts, &script);
        ctx.eval(1);
        ctx.trace(1);
        ctx.state(1);
        let scans = scans(&w);
        ctx.count("memory images searched", scans.len() as u64);
        let label = format!("terminal {}", cmd.join(" "));
        if !session.shown.contains("Waiting...") || session.timeout {
            ctx.violation(&label, format!("{}: did not come to its end: {:?}", label, session.shown));
        }
        for what in scans.last().into_iter().flatten() {
            // Read by the rpassword crate
            let read = match what.as_str() {
                "primary password" => cmd[0] != "set-primary",
                "new primary password" => cmd[0] == "set-primary",
                "text entered" => cmd[0] == "add-stored",
                _ => false,
            };
            let key = if read { "password typed on a terminal".to_string() } else { format!("{} {}", label, what) };
            ctx.violation(&key, format!("{}: at the end heap memory holds: {}\n{}", label, what, session.shown));
        }
    });
    ctx.note("program on a terminal: passwords entered through rpassword");
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    library(&ctx, ctx.pick(2, 3), Backing::File);
    library(&ctx, ctx.pick(3, 4), Backing::Mock);
    values(&ctx);
    generated(&ctx);
    invocations(&ctx);
    shell(&ctx, 1);
    terminal(&ctx);
    shell(&ctx, 2);
    if ctx.thorough {
        shell(&ctx, 3);
    }
    ctx.finish(
        "model_checking",
        "after each explored history, at each moment the vault is locked, and after it was dropped, all heap memory ever allocated is searched for all eight byte pieces of every secret that was in use",
        &[
            "memory released and reused by other data is not distinguished: nothing is ever reused here, so everything not erased is found",
            "stack memory, registers and kernel buffers are not searched, neither are derived forms other than Base64",
            "scrypt replaced by a fast stand-in that keeps no copies",
        ],
    )
}
