//! C11: files written disclose no secrets or names.

use crate::c01;
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, Raw};
use crate::refcli::Cmd;
use crate::util::Ctx;
use std::collections::{BTreeMap, HashMap, HashSet};

// All longer than ten bytes and with characters not occurring in Base64, so that no accidental match is possible.
const PRIMARY: &str = "primary-pass word!";
const PRIMARY2: &str = "the_second-primary.one";
const SITE_A: &str = "secret-site.example";
const SITE_B: &str = "other_place.invalid";
const SITE_C: &str = "alias-name.example.org";
const NAME: &str = "user.name@mail-host";
const NAME2: &str = "d\u{f6}ppelg\u{e4}nger-us\u{e9}r";
const STORED: &str = "stored-value: \"#1\"";
const STORED2: &str = "another st\u{f6}red v\u{e4}lue";
const NOTES: &str = "some notes, to be kept secret";
const NOTES2: &str = "two lines?\\ of \u{1F600} notes...";

/// Windows to look for, by the form of the data they are looked for in.
#[derive(Default, Clone)]
pub struct Needles {
    /// Exact bytes (several encodings), window length 10
    plain: HashMap<[u8; 10], String>,
    /// XOR of neighbouring bytes, differences of neighbouring bytes
    xor: HashMap<[u8; 10], String>,
    sub: HashMap<[u8; 10], String>,
}

fn windows(data: &[u8], map: &mut HashMap<[u8; 10], String>, what: &str) {
    for w in data.windows(10) {
        map.entry(w.try_into().unwrap()).or_insert_with(|| what.to_string());
    }
}
fn xor(data: &[u8]) -> Vec<u8> {
    data.windows(2).map(|w| w[0] ^ w[1]).collect()
}
fn sub(data: &[u8]) -> Vec<u8> {
    data.windows(2).map(|w| w[1].wrapping_sub(w[0])).collect()
}

fn bits(data: &[u8], alphabet: &[u8], width: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let (mut acc, mut n) = (0u32, 0);
    for &b in data {
        acc = acc << 8 | b as u32;
        n += 8;
        while n >= width {
            n -= width;
            out.push(alphabet[(acc >> n) as usize & ((1 << width) - 1)]);
        }
        acc &= (1 << n) - 1;
    }
    out
}

impl Needles {
    pub fn add(&mut self, secret: &[u8], what: &str) {
        let mut add = |data: &[u8], form: &str| windows(data, &mut self.plain, &format!("{} ({})", what, form));
        let mut reversed = secret.to_vec();
        reversed.reverse();
        for (data, form) in [(secret.to_vec(), ""), (reversed, "reversed ")] {
            add(&data, &format!("{}plain", form));
            add(&data.to_ascii_uppercase(), &format!("{}upper case", form));
            add(&data.to_ascii_lowercase(), &format!("{}lower case", form));
            let hex: String = data.iter().map(|b| format!("{:02x}", b)).collect();
            add(hex.as_bytes(), &format!("{}hex", form));
            add(hex.to_uppercase().as_bytes(), &format!("{}hex", form));
            // All alignments of Base64 and Base32 in several alphabets
            for skip in 0..5.min(data.len()) {
                let d = &data[skip..];
                for a in [b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"] {
                    add(&bits(d, a, 6), &format!("{}Base64", form));
                }
                for a in [b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567", refc::BASE32, b"abcdefghijklmnopqrstuvwxyz234567"] {
                    add(&bits(d, a, 5), &format!("{}Base32", form));
                }
            }
        }
        let mut utf16 = Vec::new();
        let mut percent = String::new();
        let mut decimal = String::new();
        for &b in secret {
            utf16.extend([b, 0]);
            percent += &if b.is_ascii_alphanumeric() { (b as char).to_string() } else { format!("%{:02X}", b) };
            decimal += &format!("{},", b);
        }
        add(&utf16, "UTF-16");
        add(percent.as_bytes(), "percent-encoded");
        add(decimal.as_bytes(), "numbers");
        add(decimal.replace(',', ", ").as_bytes(), "numbers");
        if let Ok(t) = std::str::from_utf8(secret) {
            let json = serde_json::to_string(t).unwrap();
            add(json[1..json.len() - 1].as_bytes(), "JSON");
            let escaped: String = t.encode_utf16().map(|u| if u < 128 { (u as u8 as char).to_string() } else { format!("\\u{:04x}", u) }).collect();
            add(escaped.as_bytes(), "JSON escapes");
            let rot: String = t.chars().map(|c| match c { 'a'..='z' => ((c as u8 - b'a' + 13) % 26 + b'a') as char, 'A'..='Z' => ((c as u8 - b'A' + 13) % 26 + b'A') as char, c => c }).collect();
            add(rot.as_bytes(), "ROT13");
        }
        windows(&xor(secret), &mut self.xor, &format!("{} (XOR)", what));
        windows(&sub(secret), &mut self.sub, &format!("{} (shifted)", what));
        // Hashes without key, whole and by parts
        use sha2::Digest;
        let hash = sha2::Sha256::digest(secret);
        windows(&hash, &mut self.plain, &format!("{} (hash)", what));
        for skip in 0..3 {
            windows(&bits(&hash[skip..], b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/", 6), &mut self.plain, &format!("{} (hash)", what));
        }
        let hex: String = hash.iter().map(|b| format!("{:02x}", b)).collect();
        windows(hex.as_bytes(), &mut self.plain, &format!("{} (hash)", what));
    }
    fn find_in(&self, data: &[u8]) -> Option<String> {
        let look = |d: &[u8], map: &HashMap<[u8; 10], String>| d.windows(10).find_map(|w| map.get(w).cloned());
        look(data, &self.plain).or_else(|| look(&xor(data), &self.xor)).or_else(|| look(&sub(data), &self.sub))
    }
    /// Looks in the data and in everything encoded in it.
    pub fn find(&self, data: &[u8]) -> Option<String> {
        self.deep(data, 0)
    }
    fn deep(&self, data: &[u8], depth: usize) -> Option<String> {
        if let Some(f) = self.find_in(data) {
            return Some(f);
        }
        if depth == 2 {
            return None;
        }
        // Base64 and hex runs
        let mut from = 0;
        let of = |b: u8| b.is_ascii_alphanumeric() || b"+/-_".contains(&b);
        while from < data.len() {
            if !of(data[from]) {
                from += 1;
                continue;
            }
            let mut to = from;
            while to < data.len() && of(data[to]) {
                to += 1;
            }
            let run = &data[from..to];
            if run.len() >= 12 {
                for part in run.split(|b| *b == b'_').chain([run]) {
                    let mut acc = 0u32;
                    let mut n = 0;
                    let mut out = Vec::new();
                    for &b in part {
                        let d = match b {
                            b'A'..=b'Z' => b - b'A',
                            b'a'..=b'z' => b - b'a' + 26,
                            b'0'..=b'9' => b - b'0' + 52,
                            b'+' | b'-' => 62,
                            _ => 63,
                        };
                        acc = acc << 6 | d as u32;
                        n += 6;
                        if n >= 8 {
                            n -= 8;
                            out.push((acc >> n) as u8);
                            acc &= (1 << n) - 1;
                        }
                    }
                    if let Some(f) = self.deep(&out, depth + 1) {
                        return Some(format!("{}, encoded", f));
                    }
                }
            }
            from = to;
        }
        None
    }
}

/// Everything that is secret in whatever state the alphabet leads to.
fn constants(names: bool) -> Needles {
    let mut n = Needles::default();
    for p in [PRIMARY, PRIMARY2] {
        n.add(p.as_bytes(), "primary password");
    }
    for p in [STORED, STORED2] {
        n.add(p.as_bytes(), "stored password");
    }
    for p in [NOTES, NOTES2] {
        n.add(p.as_bytes(), "notes");
    }
    if names {
        for p in [SITE_A, SITE_B, SITE_C] {
            n.add(p.as_bytes(), "site name");
            n.add(format!("www.{}", p).as_bytes(), "site name");
        }
        for p in [NAME, NAME2] {
            n.add(p.as_bytes(), "user name");
        }
    }
    for primary in [PRIMARY, PRIMARY2] {
        for site in [SITE_A, SITE_B, SITE_C] {
            for name in [NAME, NAME2] {
                for rev in ["", "2"] {
                    n.add(refc::generate(primary, site, name, rev, 16, 15).as_bytes(), "generated password");
                }
            }
        }
    }
    n
}

/// All entry keys have the opaque form, values are two Base64 parts.
fn opaque(raw: &Raw) -> Result<(), String> {
    let digest = |s: &str| refc::unb64(s).map_or(false, |d| d.len() == 32);
    for (k, v) in raw {
        let good = match k.as_str() {
            "salt" => refc::unb64(v).map_or(false, |d| d.len() == 16),
            "hmac-secret" => refc::split_value(v).is_some(),
            k => {
                let parts: Vec<&str> = k.split(':').collect();
                parts[0] == "site" && (2..=3).contains(&parts.len()) && parts[1..].iter().all(|p| digest(p)) && refc::split_value(v).is_some()
            }
        };
        if !good {
            return Err(format!("entry {:?}: {:?} isn't opaque", k, v));
        }
    }
    Ok(())
}

/// Digests and values of two storages have nothing to do with each other.
fn unrelated(a: &Raw, b: &Raw) -> Result<(), String> {
    let pieces = |r: &Raw| -> BTreeMap<[u8; 10], String> {
        let mut m = BTreeMap::new();
        for (k, v) in r {
            let mut texts: Vec<&str> = vec![v];
            if k.starts_with("site:") {
                texts.extend(k[5..].split(':'));
            }
            for t in texts {
                for part in t.split('_') {
                    let d = refc::unb64(part).unwrap_or_else(|| part.as_bytes().to_vec());
                    for w in d.windows(10) {
                        m.insert(w.try_into().unwrap(), k.clone());
                    }
                }
            }
        }
        m
    };
    let (a, b) = (pieces(a), pieces(b));
    for (w, k) in &a {
        if let Some(l) = b.get(w) {
            return Err(format!("entries {} and {} of independent storages have data in common", k, l));
        }
    }
    Ok(())
}

/// Within one storage no two values and no two (unequal) digests have anything in common.
fn distinct(raw: &Raw) -> Result<(), String> {
    let mut seen: HashMap<[u8; 10], String> = HashMap::new();
    let mut digests: HashSet<&str> = HashSet::new();
    for (k, v) in raw {
        let mut texts: Vec<&str> = v.split('_').collect();
        if k.starts_with("site:") {
            texts.extend(k[5..].split(':').filter(|d| digests.insert(d)));
        }
        for t in texts {
            let d = refc::unb64(t).unwrap_or_else(|| t.as_bytes().to_vec());
            for w in d.windows(10) {
                if let Some(other) = seen.insert(w.try_into().unwrap(), k.clone()) {
                    return Err(format!("{} and {} have data in common", other, k));
                }
            }
        }
    }
    Ok(())
}

fn alphabet() -> Vec<Op> {
    vec![
        gen(SITE_A, NAME, "", 16, 15),
        gen(&format!("www.{}", SITE_B), NAME, "2", 16, 15),
        stored(SITE_A, NAME, "2", STORED),
        stored(SITE_B, NAME, "", STORED),
        stored(SITE_B, NAME2, "", STORED2),
        notes(SITE_A, NAME, "", NOTES),
        notes(SITE_A, NAME, "2", NOTES2),
        notes(SITE_B, NAME, "", NOTES),
        alias(SITE_C, SITE_A),
        alias(SITE_B, SITE_C),
        unalias(SITE_C),
        remove(SITE_A, NAME, ""),
        Op::RemoveSites(vec![s(SITE_A)]),
        Op::Get { site: s(SITE_A), name: s(NAME), rev: s("") },
        Op::List { site: s(SITE_A), pattern: s("*") },
        Op::Recovery { site: s(SITE_A), name: s(NAME), rev: s("2") },
        Op::Lock,
        Op::Unlock(s(PRIMARY)),
        Op::Unlock(s(PRIMARY2)),
        Op::Reset(s(PRIMARY)),
        Op::Reset(s(PRIMARY2)),
    ]
}

fn check_file(bytes: &[u8], primary: &str, needles: &Needles) -> Result<Raw, String> {
    if let Some(f) = needles.find(bytes) {
        return Err(format!("the storage file discloses a {}", f));
    }
    let raw = refc::parse_file(std::str::from_utf8(bytes).map_err(|e| e.to_string())?)?;
    opaque(&raw)?;
    distinct(&raw)?;
    let opened = refc::open(&raw, primary)?;
    let mut keys = Needles::default();
    keys.add(&opened.key, "encryption key");
    keys.add(&opened.hmac_secret, "lookup secret");
    if let Some(f) = keys.find(bytes) {
        return Err(format!("the storage file discloses a {}", f));
    }
    Ok(raw)
}

/// Everything the program has written to files.
fn check_written(place: &Place, res: &Res, needles: &Needles, history: Option<(&str, &Needles)>) -> Result<u64, String> {
    let mut n = 0;
    let mut histories: HashSet<String> = HashSet::new();
    for l in &res.log {
        if let Some(c) = l.strip_prefix("CREATE ").or_else(|| l.strip_prefix("OP ")) {
            if let Some(f) = needles.find_in(c.as_bytes()).filter(|_| l.starts_with("CREATE")) {
                return Err(format!("file name {:?} discloses a {}", c, f));
            }
            if let (Some((h, _)), Some((path, ino))) = (history, c.rsplit_once(' ')) {
                if l.starts_with("CREATE") && path.starts_with(h) {
                    histories.insert(ino.to_string());
                }
            }
        }
        if let Some(path) = l.strip_prefix("OUTSIDE ") {
            n += 1;
            if let Some(f) = std::fs::read(path).ok().and_then(|d| needles.find(&d)) {
                return Err(format!("file {} discloses a {}", path, f));
            }
        }
        if let Some(d) = l.strip_prefix("DATA ") {
            let (ino, hex) = d.split_once(' ').ok_or("damaged log")?;
            let data: Vec<u8> = hex.as_bytes().chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
            n += 1;
            let needles = if histories.contains(ino) { history.unwrap().1 } else { needles };
            if let Some(f) = needles.find(&data) {
                return Err(format!("a file discloses a {} while it is written: {:?}", f, String::from_utf8_lossy(&data)));
            }
        }
    }
    for (name, data) in place.tree() {
        let needles = match history {
            Some((h, hn)) if name.starts_with(h) => hn,
            _ => needles,
        };
        n += 1;
        if let Some(f) = data.as_deref().and_then(|d| needles.find(d)).or_else(|| needles.find_in(name.as_bytes())) {
            return Err(format!("file {} discloses a {}", name, f));
        }
    }
    Ok(n)
}

fn commands() -> Vec<(Cmd, Vec<&'static str>)> {
    let recovery = |site: &str| Cmd::AddStored { site: s(site), name: s(NAME), rev: None, recovery: true, yes: true };
    vec![
        (Cmd::SetPrimary { yes: true }, vec![PRIMARY, PRIMARY]),
        (Cmd::SetPrimary { yes: false }, vec!["y", PRIMARY2, PRIMARY2]),
        (Cmd::SetPrimary { yes: true }, vec![PRIMARY2, PRIMARY]),
        (clix::add(SITE_A, NAME, None, None, 0, true), vec![PRIMARY]),
        (clix::add(SITE_B, NAME, Some("2"), None, 0, false), vec![PRIMARY, "y"]),
        (clix::add_stored(SITE_A, NAME, Some("2"), true), vec![PRIMARY, STORED]),
        (clix::add_stored(SITE_B, NAME2, None, false), vec![PRIMARY2, PRIMARY, "y", STORED2]),
        (recovery(SITE_B), vec![PRIMARY, "CODE"]),
        (recovery(SITE_B), vec![PRIMARY, STORED2, "CODE"]),
        (clix::notes(SITE_A, NAME, None, true), vec![PRIMARY, NOTES]),
        (clix::notes(SITE_A, NAME, Some("2"), true), vec![PRIMARY, NOTES2]),
        (clix::notes(SITE_A, NAME, None, false), vec![PRIMARY]),
        (clix::alias(SITE_C, SITE_A), vec![PRIMARY]),
        (clix::alias(SITE_B, SITE_C), vec![PRIMARY]),
        (clix::unalias(SITE_C), vec![PRIMARY]),
        (clix::show_alias(SITE_C), vec![PRIMARY]),
        (clix::show(SITE_A, NAME, None), vec![PRIMARY]),
        (clix::show(SITE_A, NAME, Some("2")), vec![PRIMARY]),
        (clix::list(7), vec![PRIMARY]),
        (clix::list_for(SITE_A, Some("*"), 0), vec![PRIMARY]),
        (clix::remove(SITE_A, NAME, None), vec![PRIMARY]),
        (clix::show(SITE_A, NAME, None), vec![STORED, NOTES]),
    ]
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let needles = constants(true);
    // The search itself has to work.
    for (text, find) in [
        (format!("xx{}yy", PRIMARY), true),
        (refc::b64(format!("a{}", STORED).as_bytes()), true),
        (refc::b64(refc::b64(NOTES.as_bytes()).as_bytes()), true),
        (NAME.bytes().map(|b| format!("{:02x}", b)).collect(), true),
        (SITE_A.bytes().map(|b| (b ^ 3) as char).collect(), true),
        (refc::digest(SITE_A.as_bytes(), NAME), false),
        (refc::base32(STORED.as_bytes()), true),
    ] {
        if needles.find(text.as_bytes()).is_some() != find {
            ctx.violation("search", format!("searching {:?} doesn't work", text));
        }
    }
    ctx.note(&format!("{} windows of ten bytes searched for, in plain data and after decoding", needles.plain.len() + needles.xor.len() + needles.sub.len()));

    // Every state of the session; the file behind it.
    let init = vec![Model::initial(PRIMARY, Default::default())];
    let extra = |edge: &mut Edge| -> Result<(), String> {
        let text = match edge.live {
            Live::File(_, path) => std::fs::read(path).map_err(|e| e.to_string())?,
            Live::Mock(..) => refc::file_text(edge.raw_after).into_bytes(),
        };
        check_file(&text, &edge.after.primary, &needles)?;
        // Nothing else in the directory.
        if let Live::File(_, path) = edge.live {
            for e in std::fs::read_dir(path.parent().unwrap()).unwrap().flatten() {
                if e.path() != *path {
                    if let Some(f) = std::fs::read(e.path()).ok().and_then(|d| needles.find(&d)) {
                        return Err(format!("file {:?} discloses a {}", e.path(), f));
                    }
                }
            }
        }
        Ok(())
    };
    let obs = vec![Op::List { site: s(SITE_A), pattern: s("*") }, Op::Get { site: s(SITE_A), name: s(NAME), rev: s("") }];
    Explore { ctx: &ctx, what: "sessions", init: init.clone(), ops: alphabet(), obs: obs.clone(), depth: ctx.pick(4, 6), max_states: ctx.pick(20_000, 300_000), backings: vec![Backing::Mock], reopen: false, reread: false, extra: Some(&extra) }.bfs();
    Explore { ctx: &ctx, what: "sessions on files", init: init.clone(), ops: alphabet(), obs, depth: ctx.pick(2, 3), max_states: 100_000, backings: vec![Backing::File], reopen: true, reread: false, extra: Some(&extra) }.bfs();

    // Texts of any kind in every field, whatever exists already: the entries are opaque.
    let mut texts: Vec<String> = crate::c02::texts(ctx.thorough);
    texts.extend(c01::site_variants());
    texts.extend(c01::name_variants());
    texts.extend(c01::rev_variants());
    texts.extend(["http://a.com/path?q=1#f", "localhost/forum", "/etc/passwd", "a/b/c", "user:password@a.com", "192.168.1.1", "[::1]", "file:///x", "a.com,b.com", "a;b", "a|b", "a=b&c", "salt", "hmac-secret", "check", "data", "C:\\x"].map(s));
    texts.retain(|t| t.len() < 5000);
    texts.sort();
    texts.dedup();
    ctx.par(texts.len(), |k| {
        let t = &texts[k];
        let tail = format!("{} end of it", t);
        let mut own = Needles::default();
        // The keys of the base data are no secret.
        if t.bytes().collect::<HashSet<_>>().len() > 4 && t != "hmac-secret" {
            own.add(t.as_bytes(), "text");
        }
        let tail = if t == "hmac-secret" { s("end of it, secret") } else { tail };
        own.add(&tail.as_bytes()[tail.len().saturating_sub(40)..], "text");
        let all = vec![
            alias(t, "nothing here"),
            alias("alias.com", t),
            alias(t, &tail),
            alias(&tail, t),
            gen(t, t, t, 16, 15),
            stored(t, &tail, "", &tail),
            stored("a.com", "n", "", t),
            stored("a.com", t, &tail, t),
            notes("a.com", "n", "", &tail),
            notes(t, t, t, &tail),
            unalias("alias.com"),
            unalias(t),
            remove(t, t, t),
            Op::RemoveSites(vec![t.clone()]),
            Op::Reset(tail.clone()),
        ];
        // Names are the same in another storage, their keys aren't.
        let names: Vec<&Op> = all.iter().filter(|o| !matches!(o, Op::Remove { .. } | Op::RemoveSites(..) | Op::Reset(..))).collect();
        let raws: Vec<Raw> = (0..2)
            .map(|_| {
                let mut live = Live::open(Backing::Mock, &Raw::new(), &scratch_file(&ctx));
                live.exec(&Op::Reset(s(PRIMARY)));
                for op in &names {
                    live.exec(op);
                }
                live.raw().unwrap_or_default()
            })
            .collect();
        ctx.eval(1);
        if let Err(e) = unrelated(&raws[0], &raws[1]) {
            ctx.violation("texts", format!("{:?} in two storages: {}", t.chars().take(100).collect::<String>(), e));
            return;
        }
        // Each operation first and all of them in a row
        for first in 0..all.len() {
            let file = scratch_file(&ctx);
            let mut live = Live::open(Backing::Mock, &Raw::new(), &file);
            let mut m = Model::default();
            let mut path: Vec<Op> = Vec::new();
            let start = Op::Reset(s(PRIMARY));
            for op in std::iter::once(&start).chain(all[first..].iter()).chain(all[..first].iter()).take(if ctx.thorough || k % 4 == 0 { 16 } else { 3 }) {
                let expected = m.apply(op);
                path.push(op.clone());
                let got = live.exec(op);
                ctx.eval(1);
                ctx.trans(1);
                let r = (|| {
                    if !matches(&expected, &got) {
                        return Err(format!("yields {:?}, expected {:?}", got, expected));
                    }
                    if !op.modifying() {
                        return Ok(());
                    }
                    let raw = live.raw()?;
                    opaque(&raw)?;
                    distinct(&raw)?;
                    // Every key is what the storage's own secret makes of the names.
                    let opened = refc::open(&raw, &m.primary)?;
                    if opened.content.passwords.len() != m.content.passwords.len() {
                        return Err(format!("holds {} instead of {}", crate::libx::show(&opened.content), crate::libx::show(&m.content)));
                    }
                    match own.find(refc::file_text(&raw).as_bytes()) {
                        Some(f) => Err(format!("the storage file discloses a {}", f)),
                        None => Ok(()),
                    }
                })();
                if let Err(e) = r {
                    let d: String = format!("{:?}", path).chars().take(2000).collect();
                    ctx.violation("texts", format!("{:?}: {}\n=> {}", t.chars().take(100).collect::<String>(), d, e));
                    return;
                }
            }
            ctx.trace(1);
        }
    });
    ctx.note(&format!("{} texts in every field, with each operation as the first one", texts.len()));

    // The same sequence under two primary passwords, before and after a reset, and once again.
    let ops: Vec<Op> = alphabet().into_iter().filter(|o| o.modifying() && !matches!(o, Op::Reset(_))).collect();
    let len = ctx.pick(3, 4);
    let total = ops.len().pow(len);
    ctx.par(total, |k| {
        let mut rest = k;
        let path: Vec<&Op> = (0..len).map(|_| { let o = &ops[rest % ops.len()]; rest /= ops.len(); o }).collect();
        let mut raws: Vec<Raw> = Vec::new();
        let file = scratch_file(&ctx);
        for start in [&[PRIMARY][..], &[PRIMARY], &[PRIMARY2], &[PRIMARY, PRIMARY]] {
            let mut live = Live::open(Backing::Mock, &Raw::new(), &file);
            for (i, p) in start.iter().enumerate() {
                live.exec(&Op::Reset(s(p)));
                for op in &path {
                    live.exec(op);
                }
                if i + 1 < start.len() {
                    raws.push(live.raw().unwrap_or_default());
                }
            }
            raws.push(live.raw().unwrap_or_default());
        }
        ctx.trans(1);
        ctx.trace(raws.len() as u64);
        for a in 0..raws.len() {
            for b in a + 1..raws.len() {
                ctx.eval(1);
                if let Err(e) = unrelated(&raws[a], &raws[b]) {
                    ctx.violation("unrelated", format!("{:?}: {}", path, e));
                }
            }
        }
    });
    ctx.note(&format!("all {}^{} sequences in five independent storages compared pairwise", ops.len(), len));

    // The program: sequences of commands, everything written on the way.
    let cmds = commands();
    let salt = *b"0123456789abcdef";
    let code = refc::recovery_plain(STORED2, &salt, &refc::storage_key(PRIMARY, &salt), b"nonce nonce ");
    let mut prompts = constants(false);
    prompts.add(code.as_bytes(), "recovery code");
    prompts.add(refc::recovery_pretty(&code).as_bytes(), "recovery code");
    let input = |l: &[&str]| lines(&l.iter().map(|x| if *x == "CODE" { code.as_str() } else { *x }).collect::<Vec<_>>());
    let depth = ctx.pick(2, 3);
    let total = cmds.len().pow(depth);
    ctx.par(total, |k| {
        let place = Place::new(&ctx);
        let mut m = Model::initial(PRIMARY, Default::default());
        m.apply(&stored(SITE_A, NAME, "2", STORED));
        place.write(&raw_for(&m));
        let mut rest = k;
        let mut log = String::new();
        for i in 0..depth {
            let (cmd, l) = &cmds[rest % cmds.len()];
            rest /= cmds.len();
            log += &format!("  {} <{}>\n", cmd.args().join(" "), l.join("|"));
            let opts = Opts { log: true, seed: Some(k as u64 * 8 + i as u64), ..Default::default() };
            let res = place.run(&ctx, &cmd.args(), &input(l), &opts);
            ctx.trans(1);
            ctx.trace(1);
            let r = res.orderly().and_then(|_| check_written(&place, &res, &needles, None)).and_then(|n| {
                ctx.eval(n);
                let bytes = place.read().ok_or("no storage file")?;
                check_file(&bytes, PRIMARY, &needles).or_else(|_| check_file(&bytes, PRIMARY2, &needles))
            });
            if let Err(e) = r {
                ctx.violation(&format!("commands {}", cmd.args().join(" ")), format!("{}=> {}", log, e));
                return;
            }
        }
        ctx.state(1);
    });
    ctx.note(&format!("all {}^{} command sequences of the program, everything written to any file", cmds.len(), depth));

    // File operations that fail or processes that die, whatever stays behind.
    let plans: Vec<String> = (0..16).flat_map(|k| ["K", "E5", "E28", "E13", "T100", "S7"].iter().map(move |a| format!("{}:{}", k, a)).chain([format!("{}:F28", k)])).collect();
    ctx.par(cmds.len() * plans.len(), |k| {
        let (cmd, l) = &cmds[k % cmds.len()];
        let plan = &plans[k / cmds.len()];
        let place = Place::new(&ctx);
        let mut m = Model::initial(PRIMARY, Default::default());
        m.apply(&stored(SITE_A, NAME, "2", STORED));
        m.apply(&gen(SITE_A, NAME, "", 16, 15));
        m.apply(&alias(SITE_C, SITE_A));
        place.write(&raw_for(&m));
        let opts = Opts { log: true, plan: plan.clone(), seed: Some(90_000 + k as u64), ..Default::default() };
        let res = place.run(&ctx, &cmd.args(), &input(l), &opts);
        ctx.trans(1);
        match check_written(&place, &res, &needles, None) {
            Ok(n) => ctx.eval(n),
            Err(e) => ctx.violation(&format!("fault {}", cmd.args().join(" ")), format!("{} <{}> with {}\n=> {}", cmd.args().join(" "), l.join("|"), plan, e)),
        }
    });

    // The shell: sequences of commands with answers to prompts, history file.
    let mut shell: Vec<(String, Option<Cmd>, Vec<&str>)> =
        cmds.iter().filter(|c| !matches!(c.0, Cmd::SetPrimary { .. })).map(|(c, l)| (c.shell_line(), Some(c.clone()), l.clone())).collect();
    for line in ["lock", "set-primary -y", "nonsense", "help add", "'unfinished"] {
        shell.push((s(line), None, vec![]));
    }
    let depth = ctx.pick(2, 3);
    let total = shell.len().pow(depth);
    for history in ["home/history", ""] {
        let step = if history.is_empty() { ctx.pick(7, 1) } else { 1 };
        ctx.par(total.div_ceil(step), |k| {
            let k = k * step;
            let place = Place::new(&ctx);
            let mut m = Model::initial(PRIMARY, Default::default());
            m.apply(&stored(SITE_A, NAME, "2", STORED));
            place.write(&raw_for(&m));
            m.unlocked = false;
            let default = "home/.config";
            let args_ = if history.is_empty() {
                // The default location has to exist for the history to be saved.
                let _ = std::fs::create_dir_all(place.dir.join(format!("{}/PfP", default)));
                let _ = std::fs::create_dir_all(place.dir.join(format!("{}/pfp", default)));
                args(&["shell"])
            } else {
                args(&["shell", "-s", place.dir.join(history).to_str().unwrap()])
            };
            let mut rest = k;
            let mut script: Vec<String> = Vec::new();
            for _ in 0..depth {
                let (line, cmd, l) = &shell[rest % shell.len()];
                rest /= shell.len();
                script.push(line.clone());
                if let Some(cmd) = cmd {
                    // Exactly the lines asked for, all others would be commands.
                    let l: Vec<&str> = l.iter().map(|x| if *x == "CODE" { code.as_str() } else { *x }).collect();
                    script.extend(clix::shell_answers(&mut m, cmd, &l).1);
                }
                if line == "lock" {
                    m.unlocked = false;
                }
            }
            script.push(s("exit"));
            let script: Vec<&str> = script.iter().map(|l| l.as_str()).collect();
            let opts = Opts { log: true, seed: Some(200_000 + k as u64), ..Default::default() };
            let res = place.run(&ctx, &args_, &lines(&script), &opts);
            ctx.trans(depth as u64);
            ctx.trace(1);
            let which = if history.is_empty() { default } else { history };
            let r = res.orderly().and_then(|_| check_written(&place, &res, &needles, Some((which, &prompts))));
            match r {
                Ok(n) => ctx.eval(n),
                Err(e) => ctx.violation(&format!("shell {:?}", script), format!("shell with {:?}\n=> {}", script, e)),
            }
            if res.ok() && !history.is_empty() && std::fs::metadata(place.dir.join(history)).is_err() {
                ctx.violation("history", format!("no history was written\n{}", res.describe()));
            }
        });
    }
    ctx.note(&format!("all {}^{} command sequences in the shell, history file searched for everything entered at prompts", shell.len(), depth));
    ctx.finish(
        "model_checking",
        "in every state reached, every byte written to any file is searched for every ten byte window of every secret in many encodings, also inside of decoded data; entries have the opaque form and are what the format says (decrypted by an independent reader), independent storages have no data in common",
        &["the list of encodings is finite; other reversible encodings are excluded by the strict reader as every part of the file is accounted for", "AES-GCM and HMAC-SHA-256 are taken as given"],
    )
}
