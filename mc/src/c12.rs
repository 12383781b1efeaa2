//! C12: nonces, salts and secrets are always fresh and unpredictable.

use crate::c01::{empty, populated, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, Raw};
use crate::refcli::Cmd;
use crate::util::{hex, Ctx};
use std::collections::{HashMap, HashSet};

/// Everything random ever seen in a storage.
#[derive(Default)]
pub struct Seen {
    /// (key, nonce) of encryptions, with the ciphertext
    nonces: HashMap<(Vec<u8>, Vec<u8>), String>,
    salts: HashSet<Vec<u8>>,
    secrets: HashSet<Vec<u8>>,
    last: Raw,
}

impl Seen {
    /// Takes note of a saved state. Each value that is new must have a nonce never seen before.
    pub fn saved(&mut self, raw: &Raw, primary: &str, reset: bool) -> Result<(), String> {
        let opened = refc::open(raw, primary)?;
        if opened.salt.len() != 16 {
            return Err(format!("salt has {} bytes", opened.salt.len()));
        }
        if opened.hmac_secret.len() != 32 {
            return Err(format!("lookup secret has {} bytes", opened.hmac_secret.len()));
        }
        if reset {
            if !self.salts.insert(opened.salt.clone()) {
                return Err("salt was used before".into());
            }
            if !self.secrets.insert(opened.hmac_secret.clone()) {
                return Err("lookup secret was used before".into());
            }
        } else {
            self.salts.insert(opened.salt.clone());
            self.secrets.insert(opened.hmac_secret.clone());
        }
        for (k, v) in raw {
            if k == "salt" || self.last.get(k) == Some(v) {
                continue;
            }
            let (nonce, _) = refc::split_value(v).ok_or("value is malformed")?;
            self.encryption(&opened.key, nonce, v)?;
        }
        self.last = raw.clone();
        Ok(())
    }
    pub fn encryption(&mut self, key: &[u8], nonce: Vec<u8>, value: &str) -> Result<(), String> {
        if nonce.len() != 12 {
            return Err(format!("nonce has {} bytes", nonce.len()));
        }
        if let Some(old) = self.nonces.insert((key.to_vec(), nonce.clone()), value.to_string()) {
            return Err(format!("nonce {} was used before with the same key, for {:?} and now for {:?}", hex(&nonce), old, value));
        }
        Ok(())
    }
    pub fn code(&mut self, code: &str, primary: &str) -> Result<(), String> {
        let clean = refc::recovery_clean(code);
        let data: Vec<u8> = refc::unbase32(&clean).ok_or("recovery code is malformed")?.chunks(15).flat_map(|l| l[..14].to_vec()).collect();
        let key = refc::storage_key(primary, &data[1..17]);
        self.encryption(&key, data[17..29].to_vec(), &clean)
    }
    pub fn encryptions(&self) -> usize {
        self.nonces.len()
    }
    /// No random value contains a part of another one.
    pub fn unrelated(&self) -> Result<(), String> {
        let mut parts: HashMap<Vec<u8>, String> = HashMap::new();
        let mut add = |value: &[u8], what: String| -> Result<(), String> {
            for w in value.windows(6) {
                if let Some(other) = parts.get(w) {
                    if *other != what {
                        return Err(format!("{} and {} share the bytes {}", other, what, hex(w)));
                    }
                }
                if w.iter().all(|b| *b == w[0]) || w.windows(2).all(|p| p[1] == p[0].wrapping_add(1)) {
                    return Err(format!("{} contains the bytes {}", what, hex(w)));
                }
                parts.insert(w.to_vec(), what.clone());
            }
            Ok(())
        };
        for (i, s) in self.salts.iter().enumerate() {
            add(s, format!("salt {}", i))?;
        }
        for (i, s) in self.secrets.iter().enumerate() {
            add(s, format!("lookup secret {}", i))?;
        }
        for (i, ((_, n), _)) in self.nonces.iter().enumerate() {
            add(n, format!("nonce {}", i))?;
        }
        Ok(())
    }
}

/// All sequences of operations (with recovery codes and new sessions), all encryptions tracked.
fn sequences(ctx: &Ctx, backing: Backing, length: usize) {
    #[derive(Clone, Debug)]
    enum Step {
        Do(Op),
        Code,
        Session,
        Relock,
    }
    let steps = vec![
        Step::Do(stored("a.com", "n", "", "same")),
        Step::Do(gen("a.com", "n", "2", 8, 15)),
        Step::Do(notes("a.com", "n", "", "same")),
        Step::Do(alias("b.com", "a.com")),
        Step::Do(unalias("b.com")),
        Step::Do(remove("a.com", "n", "")),
        Step::Do(Op::Reset(s(PRIMARY))),
        Step::Code,
        Step::Session,
        Step::Relock,
    ];
    let n = steps.len();
    ctx.par(n.pow(length as u32), |k| {
        let mut rest = k;
        let mut live = Live::open(backing, &Raw::new(), &scratch_file(ctx));
        let mut model = Model::default();
        let mut seen = Seen::default();
        let mut log = String::new();
        // Codes for repeated writes need something stored first.
        let mut path = vec![Step::Do(Op::Reset(s(PRIMARY))), Step::Do(stored("a.com", "n", "", "same"))];
        for _ in 0..length {
            path.push(steps[rest % n].clone());
            rest /= n;
        }
        for step in &path {
            log += &format!("  {:?}\n", step);
            let verdict = match step {
                Step::Do(op) => {
                    let expected = model.apply(op);
                    let got = live.exec(op);
                    if !matches(&expected, &got) {
                        Err(format!("yields {:?}, expected {:?}", got, expected))
                    } else {
                        live.raw().and_then(|raw| seen.saved(&raw, &model.primary, matches!(op, Op::Reset(_))))
                    }
                }
                Step::Code => {
                    if model.content.passwords.contains_key(&model.id("a.com", "n", "")) {
                        live.recovery_code("a.com", "n", "").and_then(|c| seen.code(&c, &model.primary))
                    } else {
                        Ok(())
                    }
                }
                Step::Session => live.reopen().and_then(|l| {
                    live = l;
                    match live.exec(&Op::Unlock(model.primary.clone())) {
                        Out::Unit => Ok(()),
                        o => Err(format!("{:?}", o)),
                    }
                }),
                Step::Relock => {
                    live.exec(&Op::Lock);
                    live.exec(&Op::Unlock(model.primary.clone()));
                    live.raw().and_then(|raw| seen.saved(&raw, &model.primary, false))
                }
            };
            if let Err(e) = verdict {
                ctx.violation("sequence", format!("{}=> {}", log, e));
                return;
            }
        }
        if let Err(e) = seen.unrelated() {
            ctx.violation("related", format!("{}=> {}", log, e));
        }
        ctx.eval(seen.encryptions() as u64);
        ctx.trans(length as u64);
        ctx.trace(1);
    });
    ctx.state(n.pow(length as u32) as u64);
    ctx.note(&format!("{:?}: all {}^{} sequences after set-up, all encryptions of each lifetime tracked", backing, n, length));
}

/// One long lifetime: the same value written again and again.
fn lifetime(ctx: &Ctx, rounds: usize) {
    let mut live = Live::open(Backing::Mock, &Raw::new(), &scratch_file(ctx));
    let mut seen = Seen::default();
    live.exec(&Op::Reset(s(PRIMARY)));
    for i in 0..rounds {
        let op = match i % 4 {
            0 => stored("a.com", "n", "", "same"),
            1 => notes("a.com", "n", "", "same"),
            2 => gen("a.com", "n", "2", 8, 15),
            _ => alias("b.com", "a.com"),
        };
        live.exec(&op);
        let verdict = live.raw().and_then(|raw| seen.saved(&raw, PRIMARY, false)).and_then(|_| if i % 4 == 3 { live.recovery_code("a.com", "n", "").and_then(|c| seen.code(&c, PRIMARY)) } else { Ok(()) });
        if let Err(e) = verdict {
            ctx.violation("lifetime", format!("operation {} ({:?}): {}", i, op, e));
            return;
        }
    }
    if let Err(e) = seen.unrelated() {
        ctx.violation("lifetime", e);
    }
    ctx.count("encryptions in one lifetime", seen.encryptions() as u64);
    let nonces: Vec<Vec<u8>> = seen.nonces.keys().map(|k| k.1.clone()).collect();
    if let Err(e) = independent(&nonces, "nonce of one lifetime") {
        ctx.violation("dependent nonces", e);
    }
    // Many resets
    let mut seen = Seen::default();
    for i in 0..rounds.min(4000) {
        live.exec(&Op::Reset(s(PRIMARY)));
        if let Err(e) = live.raw().and_then(|raw| seen.saved(&raw, PRIMARY, true)) {
            ctx.violation("resets", format!("reset {}: {}", i, e));
            return;
        }
    }
    if let Err(e) = seen.unrelated() {
        ctx.violation("resets", e);
    }
    // Salts and secrets are independent of the password and of anything earlier: every bit takes both values.
    let collect = |values: Vec<Vec<u8>>, what: &str| {
        ctx.count(&format!("values compared byte by byte ({})", what), values.len() as u64);
        if let Err(e) = independent(&values, what) {
            ctx.violation(&format!("dependent {}", what), e);
        }
        let len = values[0].len();
        for byte in 0..len {
            for bit in 0..8 {
                let ones = values.iter().filter(|v| v[byte] >> bit & 1 == 1).count();
                if ones == 0 || ones == values.len() {
                    ctx.violation(&format!("constant {}", what), format!("bit {} of byte {} of the {} is always {}", bit, byte, what, (ones > 0) as u8));
                    return;
                }
            }
        }
    };
    collect(seen.salts.iter().cloned().collect(), "salt");
    collect(seen.secrets.iter().cloned().collect(), "lookup secret");
    collect(seen.nonces.keys().map(|k| k.1.clone()).collect(), "nonce");
}

/// No part of a random value can be told from its other parts: every byte takes any value, any two
/// bytes take any combination of values and no bit is a linear combination of others.
fn independent(values: &[Vec<u8>], what: &str) -> Result<(), String> {
    let len = values[0].len();
    let n = values.len();
    assert!(n >= 1500, "{} values", n);
    for a in 0..len {
        let distinct = values.iter().map(|v| v[a]).collect::<HashSet<u8>>().len();
        if distinct < 200 {
            return Err(format!("byte {} of {} random values ({}) takes {} values only", a, n, what, distinct));
        }
        for b in 0..a {
            let pairs = values.iter().take(4000).map(|v| (v[a], v[b])).collect::<HashSet<_>>().len();
            if pairs * 10 < n.min(4000) * 9 {
                return Err(format!("bytes {} and {} of {} random values ({}) depend on each other", b, a, n.min(4000), what));
            }
        }
    }
    // With a constant bit added.
    let rows: Vec<Vec<u8>> = values.iter().map(|v| v.iter().copied().chain([1]).collect()).collect();
    let rank = rank(&rows, len * 8 + 1);
    if rank != len * 8 + 1 {
        return Err(format!("{} random values ({}) of {} bits have only {} independent bits", n, what, len * 8, rank - 1));
    }
    Ok(())
}

/// The system's random source decides: the same numbers give the same values, any different ones unrelated values.
fn source(ctx: &Ctx, seeds: u64) {
    let script: Vec<(Cmd, Vec<&str>)> = vec![
        (Cmd::SetPrimary { yes: true }, vec![PRIMARY, PRIMARY]),
        (clix::add_stored("a.com", "n", None, true), vec![PRIMARY, "same"]),
        (clix::add_stored("a.com", "n", None, true), vec![PRIMARY, "same"]),
        (clix::notes("a.com", "n", None, true), vec![PRIMARY, "same"]),
        (clix::alias("b.com", "a.com"), vec![PRIMARY]),
        (clix::list(2), vec![PRIMARY]),
        (clix::list(2), vec![PRIMARY]),
        (clix::add("a.com", "n", Some("2"), None, 0, true), vec![PRIMARY]),
        (Cmd::SetPrimary { yes: true }, vec![PRIMARY, PRIMARY]),
        (clix::add_stored("a.com", "n", None, true), vec![PRIMARY, "same"]),
    ];
    // Part 1: a lifetime over many processes with the real random source.
    ctx.par(ctx.pick(8, 40), |_| {
        let place = Place::new(ctx);
        let mut seen = Seen::default();
        for (cmd, input) in &script {
            let res = place.run(ctx, &cmd.args(), &lines(input), &Opts::default());
            let mut verdict = res.orderly().and_then(|_| place.raw()).and_then(|raw| seen.saved(&raw, PRIMARY, matches!(cmd, Cmd::SetPrimary { .. })));
            for line in res.out().split("Recovery code:\n").skip(1) {
                let code: String = line.lines().take_while(|l| l.trim().len() == 29).collect::<Vec<_>>().join("\n");
                verdict = verdict.and_then(|_| seen.code(&code, PRIMARY));
            }
            ctx.trace(1);
            ctx.trans(1);
            if let Err(e) = verdict {
                ctx.violation("processes", format!("{:?}: {}\n{}", cmd, e, res.describe()));
                return;
            }
        }
        if let Err(e) = seen.unrelated() {
            ctx.violation("processes", e);
        }
        ctx.eval(seen.encryptions() as u64);
    });
    // Part 2: everything random is a function of the system's random numbers, and of all of them.
    let results: std::sync::Mutex<Vec<(u64, Vec<Vec<u8>>)>> = Default::default();
    ctx.par(seeds as usize * 2, |i| {
        let seed = (i as u64 / 2) * 7919 + 1;
        let place = Place::new(ctx);
        let mut values = Vec::new();
        for (k, (cmd, input)) in script.iter().enumerate().take(4) {
            let res = place.run(ctx, &cmd.args(), &lines(input), &Opts { seed: Some(seed * 100 + k as u64), ..Default::default() });
            let r = res.orderly().and_then(|_| place.raw()).and_then(|raw| refc::open(&raw, PRIMARY).map(|o| (raw, o)));
            match r {
                Err(e) => {
                    ctx.violation("seeded", format!("{:?}: {}\n{}", cmd, e, res.describe()));
                    return;
                }
                Ok((raw, o)) => {
                    values.push(o.salt);
                    values.push(o.hmac_secret);
                    for (k, v) in &raw {
                        if k != "salt" {
                            values.push(refc::split_value(v).map(|v| v.0).unwrap_or_default());
                        }
                    }
                }
            }
        }
        ctx.trans(4);
        ctx.trace(1);
        ctx.eval(values.len() as u64);
        results.lock().unwrap().push((seed, values));
    });
    let results = results.into_inner().unwrap();
    // Sorted per run: keys depend on the secret, so that the order of values differs.
    let mut by_seed: HashMap<u64, Vec<Vec<u8>>> = HashMap::new();
    for (seed, values) in results {
        match by_seed.get(&seed) {
            None => {
                by_seed.insert(seed, values);
            }
            Some(other) => {
                if *other != values {
                    ctx.violation("other source", format!("random source seeded with {}: values differ between two runs, they come from elsewhere\n{:?}\n{:?}", seed, other.iter().map(|v| hex(v)).collect::<Vec<_>>(), values.iter().map(|v| hex(v)).collect::<Vec<_>>()));
                }
            }
        }
    }
    let mut all: HashMap<Vec<u8>, u64> = HashMap::new();
    for (seed, values) in &by_seed {
        for v in values {
            if let Some(other) = all.insert(v.clone(), *seed) {
                if other != *seed {
                    ctx.violation("source ignored", format!("value {} appears with random numbers {} and {}", hex(v), other, seed));
                }
            }
        }
    }
    let runs: Vec<&Vec<Vec<u8>>> = by_seed.values().collect();
    if !runs.is_empty() && !ctx.has_violations() {
        for pos in 0..runs[0].len() {
            for byte in 0..runs[0][pos].len() {
                let mut or = 0u8;
                let mut and = 255u8;
                for r in &runs {
                    or |= r[pos][byte];
                    and &= r[pos][byte];
                }
                if runs.len() >= 40 && (or != 255 || and != 0) {
                    ctx.violation("not in full length", format!("byte {} of value {} does not depend on the system's random numbers: bits always set {:08b}, ever set {:08b}", byte, pos, and, or));
                }
            }
        }
    }
    ctx.state(seeds);
}

/// The random values created by a fixed sequence of operations, with the number of random bytes used.
fn created(ctx: &Ctx, seed: u64, flip: Option<usize>) -> Result<(Vec<(String, Vec<u8>)>, usize), String> {
    struct Restore;
    impl Drop for Restore {
        fn drop(&mut self) {
            getrandom::verif::set(None);
        }
    }
    // Generators of this thread are seeded when used the first time.
    Live::open(Backing::Mock, &Raw::new(), &scratch_file(ctx)).exec(&Op::Reset(s(PRIMARY)));
    let _restore = Restore;
    getrandom::verif::set(Some(getrandom::verif::Stream { seed, flip, drawn: 0 }));
    let mut live = Live::open(Backing::Mock, &Raw::new(), &scratch_file(ctx));
    let steps = [
        Some(Op::Reset(s(PRIMARY))),
        Some(stored("a.com", "n", "", "same")),
        Some(stored("a.com", "n", "", "same")),
        Some(notes("a.com", "n", "", "same")),
        Some(gen("a.com", "n", "2", 8, 15)),
        Some(alias("b.com", "a.com")),
        None,
        None,
        Some(Op::Reset(s(PRIMARY))),
        Some(stored("a.com", "n", "", "same")),
        Some(Op::Reset(s("second pw"))),
    ];
    let mut primary = PRIMARY.to_string();
    let mut values: Vec<(String, Vec<u8>)> = Vec::new();
    let mut last = Raw::new();
    for (i, step) in steps.iter().enumerate() {
        match step {
            None => {
                let code = live.recovery_code("a.com", "n", "")?;
                let data: Vec<u8> = refc::unbase32(&refc::recovery_clean(&code)).ok_or("recovery code is malformed")?.chunks(15).flat_map(|l| l[..14].to_vec()).collect();
                values.push((format!("step {}: salt in recovery code", i), data[1..17].to_vec()));
                values.push((format!("step {}: nonce of recovery code", i), data[17..29].to_vec()));
            }
            Some(op) => {
                if let Op::Reset(p) = op {
                    primary = p.clone();
                }
                if live.exec(op) != Out::Unit {
                    return Err(format!("{:?} fails", op));
                }
                let raw = live.raw()?;
                let opened = refc::open(&raw, &primary)?;
                if matches!(op, Op::Reset(_)) {
                    values.push((format!("step {}: salt", i), opened.salt.clone()));
                    values.push((format!("step {}: lookup secret", i), opened.hmac_secret.clone()));
                }
                for (k, v) in &raw {
                    if k == "salt" || last.get(k) == Some(v) {
                        continue;
                    }
                    let plain = refc::decrypt_value(&opened.key, v).ok_or("entry cannot be decrypted")?;
                    let what = match serde_json::from_slice::<serde_json::Value>(&plain) {
                        Ok(value) if k != "hmac-secret" => value.to_string(),
                        _ => k.clone(),
                    };
                    values.push((format!("step {}: nonce of {}", i, what), refc::split_value(v).ok_or("value is malformed")?.0));
                }
                last = raw;
            }
        }
    }
    // The salt of recovery codes is the one of the storage, not a new one.
    let known: Vec<Vec<u8>> = values.iter().filter(|v| v.0.ends_with(": salt")).map(|v| v.1.clone()).collect();
    values.retain(|v| !v.0.ends_with("salt in recovery code") || !known.contains(&v.1));
    values.sort();
    let drawn = getrandom::verif::set(None).map_or(0, |s| s.drawn);
    Ok((values, drawn))
}

/// Each bit the random source provides is inverted, one at a time. No bit influences two of the values
/// created, and each value is influenced by as many bits as it has.
fn dependence(ctx: &Ctx, seeds: u64) {
    for seed in 0..seeds {
        let (base, drawn) = match (created(ctx, seed, None), created(ctx, seed, None)) {
            (Ok(a), Ok(b)) if a == b => a,
            (Ok(_), Ok(_)) => {
                ctx.note("random numbers come from a source that isn't controlled, which of them are used for what was not decided");
                return;
            }
            (Err(e), _) | (_, Err(e)) => {
                ctx.violation("dependence", e);
                return;
            }
        };
        let bits = drawn * 8;
        let changes: Vec<std::sync::Mutex<Vec<Vec<u8>>>> = base.iter().map(|_| Default::default()).collect();
        ctx.par(bits, |bit| {
            let (values, _) = match created(ctx, seed, Some(bit)) {
                Ok(v) => v,
                Err(e) => {
                    ctx.violation("dependence", format!("random bit {} inverted: {}", bit, e));
                    return;
                }
            };
            ctx.eval(1);
            ctx.trans(11);
            ctx.trace(1);
            if values.len() != base.len() || values.iter().zip(&base).any(|(a, b)| a.0 != b.0 || a.1.len() != b.1.len()) {
                ctx.violation("dependence", format!("random bit {} decides which values are created: {:?} instead of {:?}", bit, values.iter().map(|v| &v.0).collect::<Vec<_>>(), base.iter().map(|v| &v.0).collect::<Vec<_>>()));
                return;
            }
            let mut changed = Vec::new();
            for (i, (a, b)) in values.iter().zip(&base).enumerate() {
                if a.1 != b.1 {
                    changed.push(&b.0);
                    changes[i].lock().unwrap().push(a.1.iter().zip(&b.1).map(|(x, y)| x ^ y).collect());
                }
            }
            if changed.len() > 1 {
                ctx.violation("shared randomness", format!("the same random bit ({}) influences several values: {:?}", bit, changed));
            }
        });
        if ctx.has_violations() || ctx.stopped() {
            return;
        }
        for (i, (name, value)) in base.iter().enumerate() {
            let changes = changes[i].lock().unwrap();
            let rank = rank(&changes, value.len() * 8);
            // A few bits less than there are could still be the result of mixing.
            if rank + 8 < value.len() * 8 {
                ctx.violation("less randomness", format!("{}: {} bits are determined by {} independent random bits only", name, value.len() * 8, rank));
            }
        }
        ctx.state(bits as u64);
        ctx.count("random bits inverted", bits as u64);
    }
}

/// Number of linearly independent rows.
fn rank(rows: &[Vec<u8>], bits: usize) -> usize {
    let mut basis: Vec<Vec<u8>> = vec![Vec::new(); bits];
    let mut rank = 0;
    for row in rows {
        let mut row = row.clone();
        while let Some(lead) = (0..bits).find(|b| row[b / 8] >> (b % 8) & 1 == 1) {
            if basis[lead].is_empty() {
                basis[lead] = row;
                rank += 1;
                break;
            }
            for (x, y) in row.iter_mut().zip(&basis[lead]) {
                *x ^= y;
            }
        }
    }
    rank
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let _ = (empty(), populated());
    for length in 1..=ctx.pick(4, 5) {
        sequences(&ctx, Backing::Mock, length);
    }
    sequences(&ctx, Backing::File, ctx.pick(3, 4));
    dependence(&ctx, ctx.pick(1, 8));
    lifetime(&ctx, ctx.pick(4000, 40_000));
    source(&ctx, ctx.pick(60, 300));
    ctx.finish(
        "model_checking",
        "all operation sequences up to the stated length on the real code, all encryptions of the lifetime of each storage tracked; the program itself is run with the system's random source replaced by enumerated streams",
        &["the system's random source and the cryptographic generator seeded by it are trusted", "scrypt is replaced by a fast function depending on all inputs"],
    )
}
