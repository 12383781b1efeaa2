//! C08: generated passwords are reproducible and honour length and character rules.

use crate::c01::{self, empty, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc;
use crate::util::{guarded, Ctx};
use pfp::passwords::Passwords;
use secrecy::ExposeSecret;
use std::collections::HashSet;

/// Characters a user might mistake for another, or websites choke on.
const AMBIGUOUS: &str = "IlO01\"'\\`";

/// The rules as such, without the algorithm.
fn rules(pw: &str, len: usize, classes: u8) -> Result<(), String> {
    if pw.chars().count() != len || pw.len() != len {
        return Err(format!("{:?} does not have length {}", pw, len));
    }
    let mut seen = 0u8;
    for c in pw.chars() {
        if AMBIGUOUS.contains(c) {
            return Err(format!("{:?} contains the ambiguous character {:?}", pw, c));
        }
        let class = match c {
            'a'..='z' => 1,
            'A'..='Z' => 2,
            '0'..='9' => 4,
            '!'..='~' => 8,
            _ => return Err(format!("{:?} contains {:?}", pw, c)),
        };
        if class & classes == 0 {
            return Err(format!("{:?} contains {:?}, this type is not allowed ({:04b})", pw, c, classes));
        }
        seen |= class;
    }
    if len >= classes.count_ones() as usize && seen != classes {
        return Err(format!("{:?} lacks an allowed character type ({:04b})", pw, classes));
    }
    Ok(())
}

/// A session with a generated password of given length and types.
fn session(len: usize, classes: u8) -> Result<Passwords<MockIO>, String> {
    let mut m = empty();
    m.apply(&gen("a.com", "n", "", len, classes));
    let (io, _) = MockIO::new(&raw_for(&m), false);
    let mut p = Passwords::new(io);
    p.unlock(secret(PRIMARY)).map_err(|e| format!("{:?}", e))?;
    Ok(p)
}

fn derive(p: &Passwords<MockIO>, bytes: &[u8]) -> Result<String, String> {
    scrypt::verif::set_override(Some(bytes));
    let r = guarded(|| p.get("a.com", "n", ""));
    scrypt::verif::set_override(None);
    match r {
        Ok(Ok(t)) => Ok(t.expose_secret().clone()),
        Ok(Err(e)) => Err(format!("{:?}", e)),
        Err(e) => Err(format!("panic: {}", e)),
    }
}

fn check(p: &Passwords<MockIO>, bytes: &[u8], classes: u8) -> Result<String, String> {
    let got = derive(p, bytes).map_err(|e| format!("bytes {:?}, types {:04b}: {}", bytes, classes, e))?;
    let want = refc::bytes_to_password(bytes, classes);
    if got != want {
        return Err(format!("bytes {:?}, types {:04b}: {:?} generated, expected {:?}", bytes, classes, got, want));
    }
    rules(&got, bytes.len(), classes).map_err(|e| format!("bytes {:?}: {}", bytes, e))?;
    Ok(got)
}

/// Bit mask of the character types occurring in the password.
fn seen(pw: &str) -> u8 {
    (0..4).map(|i| if pw.chars().any(|c| refc::CLASSES[i].contains(c)) { 1 << i } else { 0 }).sum()
}

/// All states (position, types seen so far) of the generator for a length and set of types, with
/// all 256 bytes as transitions from each, and several continuations after each.
fn automaton(ctx: &Ctx, len: usize, classes: u8) -> Result<(), String> {
    let p = session(len, classes)?;
    let mut level: Vec<(u8, Vec<u8>)> = vec![(0, vec![])];
    for pos in 0..len {
        let mut known: HashSet<u8> = Default::default();
        let mut next = Vec::new();
        for (_, prefix) in &level {
            ctx.state(1);
            for byte in 0..=255u8 {
                let mut after = None;
                for rest in 0..ctx.pick(2, 5) {
                    let mut bytes = prefix.clone();
                    bytes.push(byte);
                    while bytes.len() < len {
                        let n = bytes.len() as u8;
                        bytes.push(match rest {
                            0 => 0,
                            1 => 255,
                            2 => byte,
                            3 => n.wrapping_mul(67).wrapping_add(byte),
                            _ => n.wrapping_mul(181) ^ byte,
                        });
                    }
                    let pw = check(&p, &bytes, classes)?;
                    ctx.eval(1);
                    after = Some((seen(&pw[..pos + 1]), bytes[..pos + 1].to_vec()));
                    if pos + 1 == len {
                        break;
                    }
                }
                ctx.trans(1);
                ctx.trace(1);
                let (s, prefix) = after.unwrap();
                if known.insert(s) {
                    next.push((s, prefix));
                }
            }
        }
        level = next;
    }
    Ok(())
}

/// All byte sequences of this length.
fn complete(ctx: &Ctx, len: usize, classes: u8, first: std::ops::Range<usize>) -> Result<(), String> {
    let p = session(len, classes)?;
    // Bytes equivalent for all pool sizes are left out beyond length two.
    let size: Vec<usize> = (0..4).filter(|i| classes >> i & 1 == 1).map(|i| refc::CLASSES[i].len()).collect();
    let bound = if len <= 2 { 256 } else { size.iter().sum::<usize>() };
    let mut bytes = vec![0u8; len];
    for a in first {
        if a >= bound {
            break;
        }
        bytes[0] = a as u8;
        let n = (bound as u64).pow(len as u32 - 1);
        for k in 0..n {
            let mut k = k;
            for b in bytes[1..].iter_mut() {
                *b = (k % bound as u64) as u8;
                k /= bound as u64;
            }
            check(&p, &bytes, classes)?;
        }
        ctx.eval(n);
        ctx.trans(n);
        if ctx.stopped() || ctx.out_of_time() {
            ctx.incomplete(&format!("all byte sequences of length {}", len));
            return Ok(());
        }
    }
    Ok(())
}

/// What goes into the key derivation.
fn inputs(live: &mut Live, m: &mut Model, site: &str, name: &str, rev: &str, len: usize, classes: u8) -> Result<(), String> {
    let op = gen(site, name, rev, len, classes);
    if m.apply(&op) != live.exec(&op) {
        return Err(format!("{:?} does not do what it should", op));
    }
    let get = Op::Get { site: s(site), name: s(name), rev: s(rev) };
    let expected = m.apply(&get);
    scrypt::verif::record_calls();
    let got = live.exec(&get);
    let calls = scrypt::verif::take_calls();
    if got != expected {
        return Err(format!("{:?} yields {:?}, expected {:?}", get, got, expected));
    }
    if let Out::Text(t) = &got {
        rules(t, len, classes)?;
    }
    let id = m.id(site, name, rev);
    let want = scrypt::verif::Call {
        password: m.primary.as_bytes().to_vec(),
        salt: refc::generation_salt(&id.0, &id.1, &id.2).into_bytes(),
        log_n: 15,
        r: 8,
        p: 1,
        len,
    };
    if !calls.contains(&want) {
        return Err(format!("key derivation was called with {:?}, expected {:?}", calls, want));
    }
    Ok(())
}

pub fn run(ctx: Ctx) -> i32 {
    // First of all the derivation with the real parameters, known results.
    scrypt::verif::set_fast(false);
    let known: [(&str, &str, &str, &str, usize, u8, &str); 2] = [
        ("foobar", "example.com", "blubber", "", 16, 15, "SUDJjn&%:nBe}cr8"),
        ("foobar", "example.info", "test", "yet another", 8, 5, "rjtfxqf4"),
    ];
    ctx.par(known.len(), |i| {
        let (primary, site, name, rev, len, classes, want) = known[i];
        let r = (|| -> Result<(), String> {
            if refc::generate(primary, site, name, rev, len, classes) != want {
                return Err("the reference implementation does not produce the known password".into());
            }
            let mut m = Model::initial(primary, Default::default());
            m.unlocked = true;
            let mut live = Live::open(Backing::Mock, &raw_for(&m), &scratch_file(&ctx));
            live.exec(&Op::Unlock(s(primary)));
            live.exec(&gen(site, name, rev, len, classes));
            let got = live.exec(&Op::Get { site: s(site), name: s(name), rev: s(rev) });
            if got != Out::Text(s(want)) {
                return Err(format!("{:?} generated, expected {:?}", got, want));
            }
            // The same by the program, in a storage set up by itself.
            let place = Place::new(&ctx);
            let opts = Opts { real_scrypt: true, seed: Some(7 + i as u64), ..Default::default() };
            let r = place.run(&ctx, &args(&["set-primary"]), &lines(&[primary, primary]), &opts);
            if !r.ok() {
                return Err(r.describe());
            }
            let mask = 15 & !classes;
            let r = place.run(&ctx, &clix::add(site, name, Some(if rev.is_empty() { "1" } else { rev }), Some(len), mask, false).args(), &lines(&[primary]), &opts);
            if !r.ok() {
                return Err(r.describe());
            }
            let r = place.run(&ctx, &clix::show(site, name, Some(if rev.is_empty() { "1" } else { rev })).args(), &lines(&[primary]), &opts);
            if !r.out().ends_with(&format!("Password retrieved.{}\n", want)) {
                return Err(format!("expected {:?}\n{}", want, r.describe()));
            }
            Ok(())
        })();
        ctx.eval(3);
        if let Err(e) = r {
            ctx.violation("known passwords", format!("{} {} {}: {}", site, name, rev, e));
        }
    });
    if ctx.thorough {
        // More passwords with the real derivation, against the reference implementation.
        let mut list = Vec::new();
        for primary in ["foobar", "pässwörd \u{1F600}", &"long ".repeat(30)] {
            for (site, name, rev) in [("a.com", "n", ""), ("ä.com", "", "2"), ("a.com", "n:1", "1 "), ("", "x", "\u{1F600}")] {
                for (len, classes) in [(1, 1), (4, 15), (24, 8), (33, 7)] {
                    list.push((primary.to_string(), site, name, rev, len, classes));
                }
            }
        }
        ctx.par(list.len(), |i| {
            let (primary, site, name, rev, len, classes) = &list[i];
            let m = Model::initial(primary, Default::default());
            let mut live = Live::open(Backing::Mock, &raw_for(&m), &scratch_file(&ctx));
            live.exec(&Op::Unlock(primary.clone()));
            live.exec(&gen(site, name, rev, *len, *classes));
            let got = live.exec(&Op::Get { site: s(site), name: s(name), rev: s(rev) });
            let want = Out::Text(refc::generate(primary, site, name, rev, *len, *classes));
            ctx.eval(1);
            if got != want {
                ctx.violation("real derivation", format!("{:?}: {:?} generated, expected {:?}", list[i], got, want));
            }
        });
    }

    scrypt::verif::set_fast(true);
    // From derived bytes to characters: the whole automaton for each length and set of types.
    let lens: Vec<usize> = ctx.pick((1..=24).collect(), (1..=40).chain([64, 100, 255, 256, 257]).collect());
    let mut items = Vec::new();
    for classes in 1..16u8 {
        for &len in &lens {
            items.push((len, classes));
        }
    }
    items.sort_by_key(|i| std::cmp::Reverse(i.0));
    ctx.par(items.len(), |i| {
        let (len, classes) = items[i];
        if let Err(e) = automaton(&ctx, len, classes) {
            ctx.violation(&format!("characters {} {}", len, classes), e);
        }
    });
    ctx.note(&format!("generator automaton: every length of {:?} with all 15 sets of types, every reachable (position, types seen) with all 256 bytes", lens));

    // All byte sequences of short passwords, without merging states.
    let mut items = Vec::new();
    for len in 1..=ctx.pick(2, 3) {
        for classes in 1..16u8 {
            for first in 0..16 {
                items.push((len, classes, first * 16..first * 16 + 16));
            }
        }
    }
    ctx.par(items.len(), |i| {
        let (len, classes, first) = items[i].clone();
        if let Err(e) = complete(&ctx, len, classes, first) {
            ctx.violation(&format!("all bytes {} {}", len, classes), e);
        }
    });
    ctx.note(&format!("all byte sequences up to length {}", ctx.pick(2, 3)));

    // What goes in: every site, name and revision of the adversarial alphabet, lengths and types.
    let sites = c01::site_variants();
    let names = c01::name_variants();
    let revs = c01::rev_variants();
    let mut ids: Vec<(String, String, String)> = Vec::new();
    for x in &sites {
        ids.push((x.clone(), s("n"), s("")));
        ids.push((x.clone(), s("n"), s("2")));
    }
    for x in &names {
        ids.push((s("a.com"), x.clone(), s("")));
        ids.push((s("a.com"), x.clone(), s("2")));
    }
    for x in &revs {
        ids.push((s("a.com"), s("n"), x.clone()));
    }
    if ctx.thorough {
        ids.clear();
        for x in &sites {
            for y in &names {
                for z in &revs {
                    ids.push((x.clone(), y.clone(), z.clone()));
                }
            }
        }
    }
    let primaries = ["primary pw", "PRIMARY PW", "primary pw ", "p\u{e4}ssw\u{f6}rd", "123456", " x "];
    ctx.par(ids.len(), |i| {
        let (site, name, rev) = &ids[i];
        for primary in &primaries[..ctx.pick(primaries.len(), 2)] {
            let mut m = Model::initial(primary, Default::default());
            let mut live = Live::open(Backing::Mock, &raw_for(&m), &scratch_file(&ctx));
            live.exec(&Op::Unlock(s(primary)));
            m.unlocked = true;
            for (len, classes) in [(16, 15), (17, 15), (16, 7), (4, 8), (24, 1)] {
                ctx.eval(1);
                ctx.trans(1);
                ctx.trace(1);
                if let Err(e) = inputs(&mut live, &mut m, site, name, rev, len, classes) {
                    ctx.violation(&format!("inputs {:?}", ids[i]), format!("primary {:?}, {:?} {} {:04b}: {}", primary, ids[i], len, classes, e));
                    return;
                }
            }
        }
    });
    ctx.note(&format!("inputs of the key derivation for {} ids", ids.len()));

    // Any length, with all sets of types: only the library has no limit.
    let mut lens: Vec<usize> = (1..=ctx.pick(1100, 5000)).collect();
    lens.extend([4095, 4096, 4097, 65535, 65536, 65537]);
    ctx.par(lens.len(), |i| {
        let len = lens[i];
        let mut m = Model::initial(PRIMARY, Default::default());
        let mut live = Live::open(Backing::Mock, &raw_for(&m), &scratch_file(&ctx));
        live.exec(&Op::Unlock(s(PRIMARY)));
        m.unlocked = true;
        for classes in 1..16 {
            ctx.eval(1);
            ctx.trans(1);
            ctx.trace(1);
            if let Err(e) = inputs(&mut live, &mut m, "a.com", "n", "", len, classes) {
                ctx.violation("length", format!("length {} {:04b}: {}", len, classes, e.chars().take(1000).collect::<String>()));
                return;
            }
        }
    });
    ctx.note(&format!("{} lengths with all sets of types", lens.len()));

    // Whatever happened before: values depend on nothing else. All operation sequences.
    let mut ops = vec![
        gen("a.com", "n", "", 16, 15),
        gen("www.a.com", "n", "1", 9, 3),
        gen("b.com", "n", "2", 16, 15),
        gen("a.com", "m", "2", 5, 12),
        stored("a.com", "n", "", "stored"),
        notes("a.com", "n", "", "16"),
        notes("b.com", "n", "2", "text"),
        remove("a.com", "n", ""),
        remove("b.com", "n", "2"),
        alias("b.com", "a.com"),
        unalias("b.com"),
        Op::Lock,
        Op::Unlock(s(PRIMARY)),
        Op::Reset(s("another one")),
        Op::Unlock(s("another one")),
    ];
    ops.extend(observations(&["a.com"], &["n"], &[""]));
    let obs = observations(&["a.com", "b.com", "www.b.com"], &["n", "m"], &["", "2"]);
    Explore {
        ctx: &ctx,
        what: "histories",
        init: vec![empty()],
        ops,
        obs,
        depth: ctx.pick(3, 5),
        max_states: 200_000,
        backings: vec![Backing::Mock],
        reopen: true,
        reread: true,
        extra: None,
    }
    .bfs();

    // The program with every length and set of types.
    let mut items = Vec::new();
    for exclude in 0..16u8 {
        for len in (4..=24usize).map(Some).chain([None, Some(3), Some(25), Some(0), Some(1000)]) {
            items.push((exclude, len));
        }
    }
    ctx.par(items.len(), |i| {
        let (exclude, len) = items[i];
        let place = Place::new(&ctx);
        let opts = Opts { seed: Some(1000 + i as u64), ..Default::default() };
        let before = clix::initial_bytes(&empty());
        let cmd = clix::add("a.com", "n", None, len, exclude, false);
        let r = clix::step(&ctx, &place, before.as_deref(), &empty(), &cmd, &lines(&[PRIMARY]), &opts).and_then(|st| {
            for cmd in [clix::show("a.com", "n", None), clix::show("www.a.com", "n", Some("1")), clix::list(5)] {
                clix::step(&ctx, &place, st.bytes.as_deref(), &st.after, &cmd, &lines(&[PRIMARY]), &opts)?;
            }
            let id = (s("a.com"), s("n"), s(""));
            if let Some(e) = st.after.content.passwords.get(&id) {
                rules(&st.after.value(&id, e), len.unwrap_or(16), !exclude & 15)?;
            }
            Ok(())
        });
        ctx.trans(4);
        ctx.trace(4);
        if let Err(e) = r {
            ctx.violation(&format!("program {} {:?}", exclude, len), format!("{}\n{}", cmd.args().join(" "), e));
        }
    });
    ctx.finish(
        "model_checking",
        "every derived byte sequence leads to the password of the documented algorithm (independent implementation), with the rules on length and characters checked separately; the inputs of the key derivation are exactly those documented",
        &[
            "the scrypt implementation itself is taken as given (verified on known passwords)",
            "for passwords longer than the fully enumerated ones the generator is taken to depend on earlier bytes only through the types seen so far; several continuations are tried after each transition",
        ],
    )
}
