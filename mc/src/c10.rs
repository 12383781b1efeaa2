//! C10: mistyped recovery codes are noticed and located, never decoded wrongly.

use crate::c01::{empty, PRIMARY};
use crate::c09::{layouts, real_decode};
use crate::cli::*;
use crate::clix;
use crate::model::*;
use crate::refc::{self, Decoded};
use crate::refcli::{self, Cmd, Input};
use crate::util::Ctx;
use std::collections::HashMap;
use std::sync::Mutex;

const SALT: &[u8; 16] = b"0123456789abcdef";

/// A damaged code, everything about the result compared.
fn check(ctx: &Ctx, code: &str, original: &str, password: &str) -> Result<Decoded, String> {
    ctx.eval(1);
    let want = refc::recovery_decode(code, PRIMARY);
    let got = real_decode(code, PRIMARY).map_err(|e| format!("{:?}: {}", code, e))?;
    if let Decoded::Password(p) = &got {
        if p != password {
            return Err(format!("{:?} was accepted as {:?} instead of {:?}", code, p, password));
        }
        if refc::recovery_clean(code) != original {
            return Err(format!("{:?} was accepted although it isn't the code {:?}", code, original));
        }
    }
    let rejected = |d: &Decoded| matches!(d, Decoded::WrongVersion | Decoded::Insufficient | Decoded::Undecryptable | Decoded::NotText);
    if got != want && !(rejected(&got) && rejected(&want)) {
        return Err(format!("{:?} yields {:?}, expected {:?}", code, got, want));
    }
    Ok(got)
}

struct Sample {
    password: String,
    code: String,
}

fn sample(password: &str, nonce: &[u8; 12]) -> Sample {
    Sample { password: password.to_string(), code: refc::recovery_plain(password, SALT, &refc::storage_key(PRIMARY, SALT), nonce) }
}

/// All single mistakes and, within a window, all pairs of mistakes.
fn single(code: &str, pos: usize, double: usize) -> Vec<String> {
    let c: Vec<char> = code.chars().collect();
    let mut v = Vec::new();
    let text = |x: &[char]| x.iter().collect::<String>();
    let alphabet: Vec<char> = refc::BASE32.iter().map(|&b| b as char).collect();
    let at = |x: &[char], i: usize, r: &[char], skip: usize| -> Vec<char> {
        let mut y = x[..i].to_vec();
        y.extend(r);
        y.extend(&x[(i + skip).min(x.len())..]);
        y
    };
    for &a in alphabet.iter().chain(['0', '1', 'O', 'I', ' ', '*', '\u{e4}'].iter()) {
        v.push(text(&at(&c, pos, &[a], 1)));
        v.push(text(&at(&c, pos, &[a], 0)));
    }
    v.push(text(&at(&c, pos, &[], 1)));
    for n in 2..=c.len() - pos {
        if n < 40 || n % 24 == 0 {
            v.push(text(&at(&c, pos, &[], n)));
        }
    }
    v.push(text(&c[..pos]));
    if pos < c.len() {
        v.push(text(&at(&c, pos, &[c[pos], c[pos]], 1)));
        for other in pos + 1..c.len() {
            let mut y = c.clone();
            y.swap(pos, other);
            v.push(text(&y));
            // A part moved or repeated
            let part = c[pos..other].to_vec();
            let mut y = c[..other].to_vec();
            y.extend(&part);
            y.extend(&c[other..]);
            v.push(text(&y));
            let mut y = c.clone();
            y[pos..other].reverse();
            v.push(text(&y));
        }
        for other in pos + 1..(pos + 1 + double).min(c.len()) {
            for &a in &alphabet {
                for &b in &alphabet {
                    let mut y = c.clone();
                    y[pos] = a;
                    y[other] = b;
                    v.push(text(&y));
                }
            }
            // One missing here, one too many there, and vice versa
            for &a in &alphabet {
                let mut y = c.clone();
                y.insert(other, a);
                y.remove(pos);
                v.push(text(&y));
                let mut y = c.clone();
                y.remove(other);
                y.insert(pos, a);
                v.push(text(&y));
            }
        }
    }
    v
}

/// All arrangements of whole lines, from this and other codes.
fn arrangements(lines: &[String], max: usize, f: &mut dyn FnMut(&[usize])) {
    fn rec(n: usize, left: usize, cur: &mut Vec<usize>, f: &mut dyn FnMut(&[usize])) {
        f(cur);
        if left == 0 {
            return;
        }
        for i in 0..n {
            cur.push(i);
            rec(n, left - 1, cur, f);
            cur.pop();
        }
    }
    rec(lines.len(), max, &mut Vec::new(), f);
}

fn chunks(code: &str) -> Vec<String> {
    code.as_bytes().chunks(24).map(|c| String::from_utf8_lossy(c).into_owned()).collect()
}

// ---- entering a code with the program ----

/// What has happened in the dialogue after some lines.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Phase {
    /// Complete lines accepted so far and the rest
    Asking(String),
    /// Complete code with extra data, waiting for an answer
    Extra(String),
    Done(Option<String>),
}

#[derive(Clone, Debug, Default)]
struct Said {
    /// Canonical text of lines named as accepted, in order
    out: Vec<String>,
    err: Vec<String>,
}

fn advance(phase: &Phase, line: &str, said: &mut Said) -> Phase {
    let line = line.trim();
    match phase {
        Phase::Asking(accepted) => {
            if line.is_empty() {
                return Phase::Done(None);
            }
            let code = accepted.clone() + line;
            let clean = refc::recovery_clean(&code);
            match refc::recovery_decode(&code, PRIMARY) {
                Decoded::Password(p) => Phase::Done(Some(p)),
                Decoded::Extra(n) => {
                    said.out.push(refc::recovery_pretty(&clean[..24 * n]));
                    Phase::Extra(clean[..24 * n].to_string())
                }
                Decoded::Mismatch(n) => {
                    said.err.push(refc::recovery_pretty(&clean[..24 * n]));
                    Phase::Asking(clean[..24 * n].to_string())
                }
                Decoded::Incomplete => Phase::Asking(clean),
                _ => Phase::Done(None),
            }
        }
        Phase::Extra(code) => match line.to_lowercase().as_str() {
            "" | "y" | "yes" => match refc::recovery_decode(code, PRIMARY) {
                Decoded::Password(p) => Phase::Done(Some(p)),
                _ => Phase::Done(None),
            },
            "n" | "no" => Phase::Done(None),
            _ => phase.clone(),
        },
        Phase::Done(_) => phase.clone(),
    }
}

fn dialogue(ctx: &Ctx, script: &[&str], said: &Said, no: u64) -> Result<(), String> {
    let place = Place::new(ctx);
    let opts = Opts { seed: Some(no), ..Default::default() };
    let m = {
        let mut m = empty();
        m.apply(&stored("old.com", "n", "", "kept"));
        m
    };
    let cmd = Cmd::AddStored { site: s("a.com"), name: s("n"), rev: None, recovery: true, yes: false };
    let mut l = vec![PRIMARY];
    l.extend(script);
    let input = lines(&l);
    let st = clix::step(ctx, &place, clix::initial_bytes(&m).as_deref(), &m, &cmd, &input, &opts)?;
    ctx.trans(1);
    ctx.trace(1);
    let (out, err) = (st.res.out(), st.res.err());
    // The accepted lines are repeated to the user each time, in this order.
    let mut rest = err.as_str();
    for t in &said.err {
        if t.is_empty() {
            continue;
        }
        match rest.find(&format!("\n{}\n", t)) {
            Some(p) => rest = &rest[p + t.len() + 1..],
            None => return Err(format!("the lines accepted aren't told, expected {:?}\n{}", t, st.res.describe())),
        }
    }
    let mut rest = out.as_str();
    for t in &said.out {
        match rest.find(&format!("\n{}\n", t)) {
            Some(p) => rest = &rest[p + t.len() + 1..],
            None => return Err(format!("the complete code isn't told before asking about extra data, expected {:?}\n{}", t, st.res.describe())),
        }
    }
    // Every line has been asked for.
    let mut input: Input = clix::to_lines(&lines(script));
    let mut asked = 0;
    refcli::dialogue(PRIMARY, &mut input, &mut asked);
    let prompts = out.matches("Next line of your recovery code").count() + out.matches("(Y/n)").count();
    if prompts != asked {
        return Err(format!("asked {} times, expected {}\n{}", prompts, asked, st.res.describe()));
    }
    Ok(())
}

/// The whole dialogue as a state machine: every line of the alphabet in every state reached.
fn dialogues(ctx: &Ctx, what: &str, alphabet: &[String], depth: usize) {
    let mut frontier: Vec<(Phase, Vec<usize>, Said)> = vec![(Phase::Asking(String::new()), vec![], Said::default())];
    let mut seen: HashMap<Phase, ()> = Default::default();
    seen.insert(frontier[0].0.clone(), ());
    let mut closed = false;
    for level in 0..depth {
        let next: Mutex<Vec<(Phase, Vec<usize>, Said)>> = Default::default();
        ctx.par(frontier.len() * alphabet.len(), |k| {
            let (phase, path, said) = &frontier[k / alphabet.len()];
            let mut path = path.clone();
            path.push(k % alphabet.len());
            let script: Vec<&str> = path.iter().map(|&i| alphabet[i].as_str()).collect();
            let mut said = said.clone();
            let after = advance(phase, script[script.len() - 1], &mut said);
            if let Err(e) = dialogue(ctx, &script, &said, (level * 1_000_000 + k) as u64) {
                ctx.violation(&format!("{} {:?}", what, script), format!("{}: entering {:?}\n{}", what, script, e));
            }
            next.lock().unwrap().push((after, path, said));
        });
        let mut next = next.into_inner().unwrap();
        next.sort_by(|a, b| a.1.cmp(&b.1));
        frontier.clear();
        for n in next {
            if matches!(n.0, Phase::Done(_)) || seen.contains_key(&n.0) {
                continue;
            }
            seen.insert(n.0.clone(), ());
            frontier.push(n);
        }
        if ctx.stopped() {
            break;
        }
        if frontier.is_empty() {
            closed = true;
            break;
        }
    }
    ctx.state(seen.len() as u64);
    ctx.note(&format!("{}: {} dialogue states, {} lines as answers, {}", what, seen.len(), alphabet.len(), if closed { "closed".to_string() } else { format!("depth {}", depth) }));
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let samples = [
        sample("s3cret", b"nonce 0 none"),
        sample("another password", b"\xff\x00\x80nonce 0 1"),
        sample("a password for which quite some lines are required", b"nonce 3 nonc"),
    ];
    for x in &samples {
        if check(&ctx, &x.code, &x.code, &x.password) != Ok(Decoded::Password(x.password.clone())) {
            ctx.violation("intact", format!("{:?} does not decode", x.code));
        }
    }
    // Single mistakes and pairs.
    let used = &samples[..ctx.pick(2, 3)];
    let items: Vec<(usize, usize)> = used.iter().enumerate().flat_map(|(i, x)| (0..=x.code.len()).map(move |p| (i, p))).collect();
    let double = ctx.pick(6, 24);
    ctx.par(items.len(), |k| {
        let (i, pos) = items[k];
        let x = &used[i];
        for c in single(&x.code, pos, double) {
            ctx.state(1);
            ctx.trans(1);
            match check(&ctx, &c, &x.code, &x.password) {
                Ok(d) => ctx.outcome(&format!("{:?}", d).chars().take_while(|c| *c != '(').collect::<String>()),
                Err(e) => ctx.violation(&format!("mistake at {} in {}", pos, i), e),
            }
            if ctx.stopped() {
                return;
            }
        }
    });
    ctx.note(&format!("all single mistakes at each place of {} codes, all pairs within {} characters", used.len(), double));

    // Layouts of damaged codes are reported alike.
    for x in &samples {
        let c = refc::recovery_pretty(&x.code);
        for pos in 0..c.len() {
            if !refc::BASE32.contains(&c.as_bytes()[pos]) {
                continue;
            }
            let ch = if c.as_bytes()[pos] == b'X' { "Y" } else { "X" };
            let bad = format!("{}{}{}", &c[..pos], ch, &c[pos + 1..]);
            for l in layouts(&bad) {
                if let Err(e) = check(&ctx, &l, &x.code, &x.password) {
                    ctx.violation("damaged layout", e);
                }
            }
        }
    }

    // Arrangements of lines, also from other codes of the same storage and of other storages.
    let a = chunks(&samples[0].code);
    let b = chunks(&sample("s3crex", b"nonce 0 nonf").code);
    let other_key = refc::storage_key("other primary", SALT);
    let c = chunks(&refc::recovery_plain("s3cret", SALT, &other_key, b"nonce 0 none"));
    let long = chunks(&samples[2].code);
    for (what, set, original, password, max) in [
        ("own lines", a.clone(), &samples[0].code, "s3cret", ctx.pick(6, 8)),
        ("own lines and those of another password", a.iter().chain(b.iter()).cloned().collect(), &samples[0].code, "", ctx.pick(5, 6)),
        ("own lines and those for another primary password", a.iter().chain(c.iter()).cloned().collect(), &samples[0].code, "s3cret", ctx.pick(5, 6)),
        ("lines of a longer code", long.clone(), &samples[2].code, samples[2].password.as_str(), ctx.pick(5, 7)),
    ] {
        let n = set.len();
        let second = sample("s3crex", b"nonce 0 nonf");
        ctx.par(n, |first| {
            arrangements(&set, max - 1, &mut |rest| {
                if ctx.stopped() {
                    return;
                }
                let mut code = set[first].clone();
                for &r in rest {
                    code += &set[r];
                }
                ctx.state(1);
                ctx.trans(1);
                let r = if password.is_empty() && refc::recovery_clean(&code) == second.code { check(&ctx, &code, &second.code, &second.password) } else { check(&ctx, &code, original, if password.is_empty() { "s3cret" } else { password }) };
                if let Err(e) = r {
                    ctx.violation(what, e);
                }
                // The first characters of another line
                if rest.len() < 5 {
                    for cut in [1, 23] {
                        if let Err(e) = check(&ctx, &(code.clone() + &set[(first + 1) % n][..cut]), original, password) {
                            ctx.violation(what, e);
                        }
                    }
                }
            });
        });
        ctx.note(&format!("{}: all sequences of up to {} of {} lines", what, max, n));
    }

    // Very long codes, line numbers repeat after 256.
    let long = sample(&"l".repeat(14 * 270), b"nonce 5 nonc");
    let rows = chunks(&long.code);
    if check(&ctx, &long.code, &long.code, &long.password) != Ok(Decoded::Password(long.password.clone())) {
        ctx.violation("long code", "long code does not decode".into());
    }
    ctx.par(rows.len(), |i| {
        for j in [i + 1, (i + 256) % rows.len(), 0, rows.len() - 1] {
            let mut r = rows.clone();
            if j < r.len() && j != i {
                r.swap(i, j);
                if let Err(e) = check(&ctx, &r.concat(), &long.code, &long.password) {
                    ctx.violation("long code", e.chars().rev().take(300).collect::<String>().chars().rev().collect());
                }
                r = rows.clone();
                r[i] = rows[j].clone();
                if let Err(e) = check(&ctx, &r.concat(), &long.code, &long.password) {
                    ctx.violation("long code", e.chars().rev().take(300).collect::<String>().chars().rev().collect());
                }
            }
            let mut r = rows.clone();
            r.remove(i);
            if let Err(e) = check(&ctx, &r.concat(), &long.code, &long.password) {
                ctx.violation("long code", e.chars().rev().take(300).collect::<String>().chars().rev().collect());
            }
            r.truncate(i);
            if let Err(e) = check(&ctx, &r.concat(), &long.code, &long.password) {
                ctx.violation("long code", e.chars().rev().take(300).collect::<String>().chars().rev().collect());
            }
        }
    });

    // Codes with right checksums but other data: every length, version and plaintext of these.
    let key = refc::storage_key(PRIMARY, SALT);
    for version in 0..=255u8 {
        let code = refc::recovery_from_plaintext(b"ab\0\0\0\0\0\0\0\0\0", SALT, &key, b"nonce 6 nonc", version);
        let got = check(&ctx, &code, &code, "ab");
        match got {
            Ok(Decoded::Password(_)) if version == 1 => {}
            Ok(Decoded::WrongVersion) if version != 1 => {}
            other => ctx.violation("version", format!("version {} yields {:?}", version, other)),
        }
    }
    for lines in 1..=6usize {
        for version in [0, 1, 2, 255] {
            for fill in [0u8, 1, 0x55, 0xff] {
                let mut data = vec![fill; lines * 14];
                data[0] = version;
                let code = refc::recovery_from_data(&data);
                match check(&ctx, &code, &code, "") {
                    Ok(Decoded::Password(p)) => ctx.violation("invented", format!("{:?} was accepted as {:?}", code, p)),
                    Ok(_) => {}
                    Err(e) => ctx.violation("invented", e),
                }
            }
        }
    }
    // Not valid as text: all single bytes and some pairs, at all places of the password.
    for place in 0..11usize {
        for byte in 0..=255u8 {
            for next in [None, Some(0u8), Some(b'x'), Some(0x80), Some(0xbf), Some(0xff)] {
                let mut plain = vec![b'p'; 11];
                plain[place] = byte;
                if let (Some(n), true) = (next, place < 10) {
                    plain[place + 1] = n;
                }
                let code = refc::recovery_from_plaintext(&plain, SALT, &key, b"nonce 7 nonc", 1);
                let mut end = plain.clone();
                while end.last() == Some(&0) {
                    end.pop();
                }
                let text = String::from_utf8(end);
                match (check(&ctx, &code, &code, text.as_deref().unwrap_or("")), text) {
                    (Ok(Decoded::Password(_)), Ok(_)) | (Ok(Decoded::NotText), Err(_)) => {}
                    (other, _) => ctx.violation("not text", format!("plaintext {:?} yields {:?}", plain, other)),
                }
            }
        }
    }

    // The dialogue of the program.
    let l: Vec<String> = refc::recovery_pretty(&samples[0].code).lines().map(|l| l.to_string()).collect();
    let typo = |t: &str| format!("{}{}", if t.starts_with('X') { "Y" } else { "X" }, &t[1..]);
    let other: Vec<String> = refc::recovery_pretty(&c.concat()).lines().map(|l| l.to_string()).collect();
    let mut alphabet = vec![
        l[0].clone(), l[1].clone(), l[2].clone(), l[3].clone(), typo(&l[0]), typo(&l[1]), typo(&l[3]),
        l[1][..14].to_string(), l[1][15..].to_string(), format!("{} {}", l[0], l[1]), format!("{}{}", l[2], typo(&l[3])), l.concat(),
        format!("{} {}", l[3], "ABC"), format!("{}{}", l[3], l[3]), format!("{}{}{}", l[1], typo(&l[2]), l[3]), other[3].clone(), other.concat(),
    ]
    .into_iter()
    .collect::<Vec<_>>();
    alphabet.extend(["", "  ", "--", "y", "n", "yes", "no", "No", "maybe", "Y", "0", "\u{e4}"].iter().map(|x| x.to_string()));
    dialogues(&ctx, "dialogue", &alphabet, ctx.pick(5, 8));
    // Any division into lines: every cut, and (thorough) every pair of cuts.
    let code = samples[0].code.clone();
    let mut cuts: Vec<Vec<usize>> = (1..code.len()).map(|c| vec![c]).collect();
    for a in 1..code.len() {
        for b in a + 1..code.len() {
            if ctx.thorough || (a * 7 + b) % 16 == 0 {
                cuts.push(vec![a, b]);
            }
        }
    }
    cuts.push((1..code.len()).collect());
    cuts.push((1..code.len()).step_by(5).collect());
    ctx.par(cuts.len(), |i| {
        let mut parts = Vec::new();
        let mut from = 0;
        for &c in &cuts[i] {
            parts.push(&code[from..c]);
            from = c;
        }
        parts.push(&code[from..]);
        // Complete, with one part mistyped and entered again, and given up before the end.
        let bad = parts[0].replace('A', "B").replace(parts[0].chars().next().unwrap(), "C");
        let mut with_typo = vec![bad.as_str()];
        with_typo.extend(&parts);
        for script in [parts.clone(), parts[..parts.len() - 1].to_vec(), with_typo] {
            let mut said = Said::default();
            let mut phase = Phase::Asking(String::new());
            for line in &script {
                phase = advance(&phase, line, &mut said);
            }
            if let Err(e) = dialogue(&ctx, &script, &said, 5_000_000 + i as u64) {
                ctx.violation(&format!("cut {:?}", cuts[i]), format!("entering {:?}\n{}", script, e));
            }
        }
    });
    ctx.note(&format!("{} divisions of a code into lines", cuts.len()));
    ctx.finish(
        "model_checking",
        "every enumerated damaged code yields exactly the result of an independent decoder (kind and line), never a password unless it is the undamaged code; the dialogue is explored as a state machine with the real program",
        &["AES-GCM is taken as given: a code with matching checksums but other content is rejected by it"],
    )
}
