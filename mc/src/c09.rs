//! C09: recovery codes restore exactly the password, for the right primary password only.

use crate::c01::{empty, PRIMARY};
use crate::c02;
use crate::c05;
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, Decoded, Kind};
use crate::refcli::Cmd;
use crate::util::{guarded, Ctx};
use pfp::error::Error;
use pfp::recovery_codes;
use secrecy::{ExposeSecret, SecretString};

pub fn decoded(r: Result<Result<SecretString, Error>, String>) -> Result<Decoded, String> {
    match r {
        Err(panic) => Err(format!("panic: {}", panic)),
        Ok(Ok(t)) => Ok(Decoded::Password(t.expose_secret().clone())),
        Ok(Err(e)) => match e {
            Error::RecoveryCodeChecksumMismatch { line } => Ok(Decoded::Mismatch(line)),
            Error::RecoveryCodeExtraData { line } => Ok(Decoded::Extra(line)),
            Error::RecoveryCodeIncomplete => Ok(Decoded::Incomplete),
            Error::RecoveryCodeWrongVersion => Ok(Decoded::WrongVersion),
            Error::RecoveryCodeInsufficientData => Ok(Decoded::Insufficient),
            Error::DecryptionFailure => Ok(Decoded::Undecryptable),
            Error::InvalidUtf8 { .. } => Ok(Decoded::NotText),
            other => Err(format!("unexpected error {:?}", other)),
        },
    }
}
/// What the real code makes of a recovery code.
pub fn real_decode(code: &str, primary: &str) -> Result<Decoded, String> {
    decoded(guarded(|| recovery_codes::decode(code, &secret(primary))))
}

pub fn live_decode(live: &Live, code: &str) -> Result<Decoded, String> {
    decoded(guarded(|| match live {
        Live::Mock(p, _) => p.decode_recovery_code(code),
        Live::File(p, _) => p.decode_recovery_code(code),
    }))
}

/// The same code the way somebody might enter it.
pub fn layouts(code: &str) -> Vec<String> {
    let plain = refc::recovery_clean(code);
    let each = |sep: &str, n: usize| plain.as_bytes().chunks(n).map(|c| String::from_utf8_lossy(c).into_owned()).collect::<Vec<_>>().join(sep);
    vec![
        code.to_string(),
        code.to_lowercase(),
        plain.clone(),
        plain.to_lowercase(),
        code.replace('\n', ""),
        code.replace('\n', "\r\n"),
        code.replace('\n', "\n\n"),
        format!("  {}\n", code.replace('\n', "\n    ")),
        code.replace([':', '-'], " "),
        code.replace([':', '-'], "\n"),
        code.replace(':', "-"),
        each(" ", 1),
        each("\n", 1).to_lowercase(),
        each(".;,", 5),
        each("\t", 24),
        each("\u{2014}", 7),
        each("\u{feff}\u{a0}", 11),
        each("0", 13),
        each("1IOio", 3),
        format!("\"{}\"", code),
        plain.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_lowercase() } else { c }).collect(),
    ]
}

/// Shape of the code: canonical text, and its length tells only the number of lines.
pub fn shape(code: &str, password: &str) -> Result<(), String> {
    let lines: Vec<&str> = code.split('\n').collect();
    let expected = (45 + password.len() + 13) / 14;
    if lines.len() != expected {
        return Err(format!("code has {} lines, for {} bytes there should be {}", lines.len(), password.len(), expected));
    }
    if refc::recovery_pretty(&refc::recovery_clean(code)) != code || lines.iter().any(|l| l.len() != 29) {
        return Err(format!("code is not made of complete lines: {:?}", code));
    }
    Ok(())
}

pub fn key_for(password: &str, what: &str) -> String {
    if password.ends_with('\0') {
        "trailing NUL".to_string()
    } else {
        what.to_string()
    }
}

fn storage(primary: &str, salt: &[u8; 16], password: Option<&str>) -> refc::Raw {
    let mut m = Model::initial(primary, Default::default());
    if let Some(p) = password {
        m.apply(&stored("a.com", "n", "2", p));
    }
    refc::Writer::new(primary, salt, &[0x17; 32]).write(&m.content)
}

fn roundtrip(ctx: &Ctx, password: &str, primary: &str, wrong: &[String]) -> Result<(), String> {
    let salt = *b"\x00\x7f\x80\xff5678ABCDefgh";
    let other_salt = *b"another salt ...";
    let path = scratch_file(ctx);
    let open = |salt: &[u8; 16], pw: Option<&str>, primary: &str| -> Result<Live, String> {
        let mut l = Live::open(Backing::Mock, &storage(primary, salt, pw), &path);
        match l.exec(&Op::Unlock(primary.to_string())) {
            Out::Unit => Ok(l),
            o => Err(format!("unlocking yields {:?}", o)),
        }
    };
    let mut live = open(&salt, Some(password), primary)?;
    let code = live.recovery_code("a.com", "n", "2")?;
    shape(&code, password)?;
    let want = Decoded::Password(password.to_string());
    let got = refc::recovery_decode(&code, primary);
    if got != want {
        return Err(format!("the code {:?} is not what it should be, the reference implementation gets {:?}", code, got));
    }
    let again = live.recovery_code("a.com", "n", "2")?;
    if again == code {
        return Err("the same code twice, its nonce was reused".into());
    }
    // Decoded here, in another storage, in a new one, with a code from elsewhere.
    let foreign = refc::recovery_plain(password, &other_salt, &refc::storage_key(primary, &other_salt), b"nonce 123456");
    let mut fresh = Live::open(Backing::Mock, &refc::Raw::new(), &path);
    if fresh.exec(&Op::Reset(primary.to_string())) != Out::Unit {
        return Err("cannot set up a new storage".into());
    }
    let others = [live, open(&other_salt, None, primary)?, fresh];
    for c in [&code, &again, &foreign] {
        for (i, l) in layouts(c).iter().enumerate() {
            ctx.eval(1);
            let got = real_decode(l, primary)?;
            if got != want {
                return Err(format!("{:?} (layout {} of {:?}) decodes to {:?}", l, i, c, got));
            }
        }
        for (i, live) in others.iter().enumerate() {
            ctx.eval(1);
            let got = live_decode(live, c)?;
            if got != want {
                return Err(format!("{:?} decodes to {:?} in storage {}", c, got, i));
            }
        }
    }
    // Nothing else decodes it.
    for w in wrong {
        ctx.eval(1);
        let got = real_decode(&code, w)?;
        if got != Decoded::Undecryptable {
            return Err(format!("with the primary password {:?} instead of {:?} the code decodes to {:?}", w, primary, got));
        }
        let mut l = Live::open(Backing::Mock, &storage(w, &salt, None), &path);
        if l.exec(&Op::Unlock(w.to_string())) != Out::Unit {
            return Err("cannot unlock".into());
        }
        let got = live_decode(&l, &code)?;
        if got != Decoded::Undecryptable {
            return Err(format!("in a storage with the primary password {:?} instead of {:?} the code decodes to {:?}", w, primary, got));
        }
    }
    Ok(())
}

/// Every stored password of the state: codes printed in this session, decoded everywhere.
fn all_codes(edge: &mut Edge) -> Result<(), String> {
    if !edge.after.unlocked {
        return match live_decode(edge.live, "AAAA") {
            Err(e) if e.contains("PasswordsLocked") => Ok(()),
            other => Err(format!("decoding while locked yields {:?}", other)),
        };
    }
    let entries: Vec<_> = edge.after.content.passwords.clone().into_iter().collect();
    for (id, e) in entries {
        if let Kind::Stored(p) = &e.kind {
            let code = edge.live.recovery_code(&id.0, &id.1, &id.2)?;
            shape(&code, p)?;
            let want = Decoded::Password(p.clone());
            for got in [refc::recovery_decode(&code, &edge.after.primary), live_decode(edge.live, &code)?, real_decode(&code, &edge.after.primary)?] {
                if got != want {
                    return Err(format!("code {:?} of {:?} decodes to {:?}", code, id, got));
                }
            }
            // By a session started before it was unlocked with another storage.
            let mut fresh = Live::open(Backing::Mock, &refc::Raw::new(), std::path::Path::new("/nonexistent"));
            fresh.exec(&Op::Reset(edge.after.primary.clone()));
            if live_decode(&fresh, &code)? != want {
                return Err(format!("code {:?} of {:?} does not decode in a new storage", code, id));
            }
            fresh.exec(&Op::Reset("entirely different".into()));
            if live_decode(&fresh, &code)? != Decoded::Undecryptable {
                return Err(format!("code {:?} of {:?} decodes with another primary password", code, id));
            }
        }
    }
    Ok(())
}

/// Codes shown by the program, entered in another storage set up by the program.
fn program(ctx: &Ctx, password: &str, n: u64) -> Result<(), String> {
    let place = Place::new(ctx);
    let opts = Opts { seed: Some(77_000 + n), ..Default::default() };
    let mut m = empty();
    m.apply(&stored("a.com", "n", "2", password));
    let r = clix::step(ctx, &place, clix::initial_bytes(&m).as_deref(), &m, &clix::list(2), &lines(&[PRIMARY]), &opts)?;
    let out = r.res.out();
    let code: Vec<&str> = out.lines().filter(|l| l.len() == 37 && l.as_bytes()[22] == b':').map(|l| l.trim()).collect();
    let code = code.join("\n");
    shape(&code, password)?;
    let cmd = Cmd::AddStored { site: s("b.com"), name: s("x"), rev: None, recovery: true, yes: false };
    for (i, layout) in layouts(&code).iter().enumerate() {
        for (primary, right) in [(PRIMARY, true), ("other primary", false)] {
            if !right && i % 4 != 0 {
                continue;
            }
            place.reset();
            let r = place.run(ctx, &Cmd::SetPrimary { yes: false }.args(), &lines(&[primary, primary]), &opts);
            if !r.ok() {
                return Err(r.describe());
            }
            let before = place.read();
            let model = Model { initialized: true, primary: s(primary), unlocked: false, content: Default::default() };
            let text: String = layout.lines().filter(|l| !l.trim().is_empty()).map(|l| format!("{}\n", l)).collect();
            let input = format!("{}\n{}", primary, text);
            let st = clix::step(ctx, &place, before.as_deref(), &model, &cmd, input.as_bytes(), &opts).map_err(|e| format!("entering {:?}: {}", layout, e))?;
            if st.res.ok() != right {
                return Err(format!("entering {:?}: {}", layout, st.res.describe()));
            }
            if right {
                let v = st.after.content.passwords.get(&(s("b.com"), s("x"), s(""))).map(|e| e.kind.clone());
                if v != Some(Kind::Stored(password.to_string())) {
                    return Err(format!("entering {:?} stored {:?}", layout, v));
                }
            }
            ctx.trans(2);
            ctx.trace(2);
        }
    }
    Ok(())
}

pub const VECTOR: &str = "AHLL-QKN7-S2AW:BEZF-3EB7-R923\n4ASW-WSGA-2YMR:TMB7-5WZ5-MRZJ\n2VCY-FK9C-5BUX:NH86-RDC6-QYMY\nELVM-RQ44-VB8T:VGPW-AW6K-DUQD";

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(false);
    // A code from the browser extension, with the real key derivation.
    let want = Decoded::Password(s("asdf"));
    if refc::recovery_decode(VECTOR, "foobar") != want {
        ctx.violation("known code", "the reference implementation does not decode the known code".into());
    }
    for l in layouts(VECTOR) {
        let got = real_decode(&l, "foobar");
        ctx.eval(1);
        if got != Ok(want.clone()) {
            ctx.violation("known code", format!("{:?} decodes to {:?}", l, got));
        }
    }
    for w in ["foobar ", "Foobar", "fooba", "foobar2"] {
        let got = real_decode(VECTOR, w);
        ctx.eval(1);
        if got != Ok(Decoded::Undecryptable) {
            ctx.violation("known code", format!("with primary password {:?} the known code decodes to {:?}", w, got));
        }
    }
    scrypt::verif::set_fast(true);

    // Every text as password.
    let mut texts = c02::texts(ctx.thorough);
    for n in [3000, 3535, 3536, 3538, 3539, 3540, 3552, 3553, 3554, 7105, 7106, 7140] {
        texts.push("w".repeat(n));
    }
    texts.retain(|t| t.len() <= 70_000);
    for n in 0..45 {
        texts.push(format!("{}\u{1F600}", "v".repeat(n)));
        texts.push(format!("{}\u{0}v", "v".repeat(n)));
        texts.push(format!("{}\u{0}", "v".repeat(n)));
    }
    texts.sort();
    texts.dedup();
    let few: Vec<String> = c05::similar(PRIMARY, false).into_iter().filter(|w| !w.ends_with('\0')).step_by(9).collect();
    ctx.par(texts.len(), |i| {
        let t = &texts[i];
        ctx.state(1);
        ctx.trans(1);
        ctx.trace(1);
        if let Err(e) = roundtrip(&ctx, t, PRIMARY, if t.len() < 200 { &few } else { &few[..2] }) {
            ctx.violation(&key_for(t, &format!("password {:?}", t)), format!("password {:?} ({} bytes): {}", t.chars().take(60).collect::<String>(), t.len(), e));
        }
    });
    ctx.sample(|| format!("{} passwords, each with its code in {} layouts, e.g. {:?}", texts.len(), layouts(VECTOR).len(), layouts(VECTOR)[9]));

    // All similar primary passwords.
    let primaries = [PRIMARY, "123456", "p\u{e4}ss \u{1F600}", "aaaaaa", &"k".repeat(64), &"k".repeat(65), &"k".repeat(200)];
    for p in primaries {
        let wrong: Vec<String> = c05::similar(p, ctx.thorough).into_iter().collect();
        let (nul, wrong): (Vec<String>, Vec<String>) = wrong.into_iter().partition(|w| w.trim_end_matches('\0') == p);
        let parts: Vec<&[String]> = wrong.chunks(40).collect();
        ctx.par(parts.len(), |i| {
            for pw in ["x", "some password 12"] {
                if let Err(e) = roundtrip(&ctx, pw, p, parts[i]) {
                    ctx.violation(&format!("primary {:?}", p), e);
                }
            }
        });
        for n in nul {
            // HMAC pads short keys with zeros.
            if p.len() < 64 {
                if let Err(e) = roundtrip(&ctx, "x", p, &[n]) {
                    ctx.violation("NUL after primary password", e);
                }
            }
        }
    }

    // Storages whose salt has something in common with the one in the code.
    let mut salts: Vec<[u8; 16]> = Vec::new();
    let base = *b"\x00\x7f\x80\xff5678ABCDefgh";
    for bit in 0..128 {
        let mut x = base;
        x[bit / 8] ^= 1 << (bit % 8);
        salts.push(x);
    }
    for n in 0..=16 {
        let (mut x, mut y) = (base, *b"Another salt .!.");
        x[n..].copy_from_slice(&y[n..]);
        y[n..].copy_from_slice(&base[n..]);
        salts.extend([x, y]);
    }
    let mut reversed = base;
    reversed.reverse();
    salts.extend([reversed, [0; 16], [0xff; 16]]);
    ctx.par(salts.len() * 4, |k| {
        let (mine, other) = if k % 2 == 0 { (base, salts[k / 4]) } else { (salts[k / 4], base) };
        let (primary, right) = if k / 2 % 2 == 0 { (PRIMARY, true) } else { ("primary pW", false) };
        let r = (|| {
            let mut live = Live::open(Backing::Mock, &storage(primary, &mine, Some("in here")), &scratch_file(&ctx));
            live.exec(&Op::Unlock(s(primary)));
            // Before and after the session was used, with codes of its own in between
            for round in 0..3 {
                let code = refc::recovery_plain("some password", &other, &refc::storage_key(PRIMARY, &other), b"nonce nonce ");
                let want = if right { Decoded::Password(s("some password")) } else { Decoded::Undecryptable };
                let got = live_decode(&live, &code)?;
                if got != want {
                    return Err(format!("decodes to {:?} in round {}", got, round));
                }
                ctx.eval(1);
                let own = live.recovery_code("a.com", "n", "2")?;
                if live_decode(&live, &own)? != Decoded::Password(s("in here")) {
                    return Err("a code of its own isn't decoded".into());
                }
                if round == 1 {
                    live.exec(&Op::Lock);
                    live.exec(&Op::Unlock(s(primary)));
                }
            }
            Ok(())
        })();
        ctx.trans(1);
        ctx.trace(1);
        if let Err(e) = r {
            ctx.violation(&format!("salt {:02x?}", other), format!("storage with salt {:02x?} and primary password {:?}, code with salt {:02x?}: {}", mine, primary, other, e));
        }
    });
    ctx.note(&format!("{} salts similar to the storage's", salts.len()));

    // Any character outside of the alphabet at any place.
    let salt = *b"0123456789abcdef";
    let code = refc::recovery_plain("some password", &salt, &refc::storage_key(PRIMARY, &salt), b"nonce nonce ");
    let mut inserts: Vec<String> = (0..128u8).filter(|c| !refc::BASE32.contains(&c.to_ascii_uppercase())).map(|c| (c as char).to_string()).collect();
    for t in ["\u{e4}", "\u{17f}", "\u{131}", "\u{212a}", "\u{fb01}", "\u{2013}", "\u{3000}", "\u{ff21}", "\u{1F600}", "\u{10ffff}", "----", "\r\n\r\n", ":\n", " - "] {
        inserts.push(t.to_string());
    }
    ctx.par(code.len() + 1, |i| {
        for ins in &inserts {
            for lower in [false, true] {
                let c = if lower { code.to_lowercase() } else { code.clone() };
                let text = format!("{}{}{}", &c[..i], ins, &c[i..]);
                ctx.eval(1);
                let got = real_decode(&text, PRIMARY);
                if got != Ok(Decoded::Password(s("some password"))) {
                    ctx.violation(&format!("insert {:?}", ins), format!("{:?} decodes to {:?}", text, got));
                }
            }
        }
        // And every pair of places.
        if i < code.len() {
            for j in i..code.len() {
                let text: String = code.chars().enumerate().map(|(k, c)| if k == i || k == j { format!("{} ", c.to_ascii_lowercase()) } else { c.to_string() }).collect();
                ctx.eval(1);
                let got = real_decode(&text, PRIMARY);
                if got != Ok(Decoded::Password(s("some password"))) {
                    ctx.violation("insert blanks", format!("{:?} decodes to {:?}", text, got));
                }
            }
        }
    });
    ctx.note(&format!("{} insertions at all {} places", inserts.len(), code.len() + 1));

    // Sessions of all kinds.
    let mut ops = vec![
        stored("a.com", "n", "", "first"),
        stored("a.com", "n", "", "a somewhat longer password"),
        stored("www.b.com", "n", "2", ""),
        stored("b.com", "m", "", "\u{e4}\u{1F600}"),
        gen("a.com", "n", "", 12, 15),
        notes("a.com", "n", "", "notes"),
        remove("a.com", "n", ""),
        alias("c.com", "b.com"),
        Op::Lock,
        Op::Unlock(s(PRIMARY)),
        Op::Reset(s(PRIMARY)),
        Op::Reset(s("another one")),
        Op::Unlock(s("another one")),
    ];
    for site in ["a.com", "b.com", "c.com"] {
        ops.push(Op::Recovery { site: s(site), name: s("n"), rev: s("") });
    }
    let obs: Vec<Op> = ["a.com", "b.com", "c.com"].iter().flat_map(|x| ["", "2"].map(|r| Op::Recovery { site: s(x), name: s("n"), rev: s(r) })).collect();
    Explore { ctx: &ctx, what: "sessions", init: vec![empty()], ops, obs, depth: ctx.pick(4, 6), max_states: 100_000, backings: vec![Backing::Mock], reopen: true, reread: true, extra: Some(&all_codes) }.bfs();

    // The program.
    let mut list: Vec<String> = ["x", "", "asdf", "eleven char", "twelve chars", "p\u{e4}ss \u{1F600} \"q\\", " blanks ", "0123456789012345678901234"].iter().map(|x| x.to_string()).collect();
    list.push("long ".repeat(60));
    if ctx.thorough {
        for n in 0..60 {
            list.push("t".repeat(n));
        }
        list.push("u".repeat(3600));
    }
    ctx.par(list.len(), |i| {
        if let Err(e) = program(&ctx, &list[i], i as u64) {
            ctx.violation(&format!("program {:?}", list[i]), format!("password {:?}: {}", list[i].chars().take(60).collect::<String>(), e));
        }
    });
    ctx.finish(
        "model_checking",
        "each stored password's code, in every state and for every text, is decoded by an independent implementation and by the real code in the same, another and a new storage, in all layouts, and rejected for every similar primary password; its length is a function of the number of lines only",
        &["AES-GCM and scrypt are taken as given", "known findings: passwords ending in NUL characters and NUL characters after the primary password"],
    )
}
