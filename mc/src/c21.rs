//! C21: displayed QR codes decode to exactly the password.

use crate::c01::{empty, populated};
use crate::cli::*;
use crate::clix;
use crate::libx::raw_for;
use crate::model::{self, Model};
use crate::qr;
use crate::refcli::strip;
use crate::util::Ctx;

const DIGITS: &str = "0123456789";
const ALNUM: &str = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:";

/// Largest number of characters per mode in version 40 with the lowest error correction level.
fn fits(text: &str) -> bool {
    if text.chars().all(|c| DIGITS.contains(c)) {
        text.len() <= 7089
    } else if text.chars().all(|c| ALNUM.contains(c)) {
        text.len() <= 4296
    } else {
        text.len() <= 2953
    }
}

/// Text of this length, without repetition
fn text(alphabet: &[char], len: usize, salt: usize) -> String {
    let mut state = (len * 2654435761 + salt * 40503 + 12345) as u32;
    (0..len)
        .map(|_| {
            state = state.wrapping_mul(1664525).wrapping_add(1013904223);
            alphabet[(state >> 16) as usize % alphabet.len()]
        })
        .collect()
}

/// Compares what was displayed with the password.
fn decode(ctx: &Ctx, out: &str, password: &str) -> Result<(), String> {
    let picture = out.strip_prefix("Password retrieved.\n").ok_or("the code doesn't start on a line of its own")?;
    let code = qr::read(&qr::modules(picture)?)?;
    if code.text != password.as_bytes() {
        return Err(format!("code decodes to {:?}", String::from_utf8_lossy(&code.text)));
    }
    ctx.outcome(&format!("version {:02}", code.version));
    ctx.outcome(&format!("error correction level {}", ["L", "M", "Q", "H"][code.level]));
    ctx.outcome(&format!("mask {}", code.mask));
    for m in code.modes {
        ctx.outcome(match m {
            1 => "numeric segment",
            2 => "alphanumeric segment",
            _ => "byte segment",
        });
    }
    Ok(())
}

fn check(ctx: &Ctx, model: &Model, site: &str, name: &str, rev: Option<&str>, long: bool) -> Result<(), String> {
    let place = Place::new(ctx);
    place.write(&raw_for(model));
    let before = place.read();
    let mut cmd = clix::show(site, name, rev).args();
    cmd.insert(1, if long { "--qrcode" } else { "-q" }.to_string());
    let res = place.run(ctx, &cmd, &lines(&[&model.primary]), &Opts::default());
    ctx.eval(1);
    ctx.trans(1);
    ctx.trace(1);
    let r = (|| -> Result<(), String> {
        res.orderly()?;
        if place.read() != before {
            return Err("storage file was changed".into());
        }
        let id = model.id(site, name, rev.unwrap_or("1"));
        let out = strip(&res.out());
        match model.content.passwords.get(&id).map(|e| model.value(&id, e)) {
            Some(password) if fits(&password) => {
                if !res.ok() {
                    return Err("failed although the password fits".into());
                }
                decode(ctx, &out, &password)
            }
            other => {
                if res.ok() || res.err().is_empty() {
                    return Err("should have failed with a message".into());
                }
                if out.contains(['\u{2580}', '\u{2584}', '\u{2588}']) {
                    return Err("partial code displayed".into());
                }
                if let Some(p) = other {
                    if p.len() > 10 && (out.contains(&p) || res.err().contains(&p)) {
                        return Err("password displayed".into());
                    }
                    ctx.outcome("too long");
                }
                Ok(())
            }
        }
    })();
    r.map_err(|e| format!("{}\n{}", e, res.describe()))
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let digits: Vec<char> = DIGITS.chars().collect();
    let alnum: Vec<char> = ALNUM.chars().collect();
    let ascii: Vec<char> = (32u8..127).map(|c| c as char).collect();
    let latin: Vec<char> = (0xa1..0x180).filter_map(char::from_u32).collect();
    let wide: Vec<char> = (0x4e00..0x4f00).filter_map(char::from_u32).collect();
    let emoji: Vec<char> = (0x1F600..0x1F640).filter_map(char::from_u32).collect();
    let mut passwords: Vec<String> = vec![String::new()];
    // Every length
    let step = ctx.pick(2, 1);
    for len in (1..=2960).filter(|l| l % step == 0 || *l <= 300 || *l > 2940) {
        passwords.push(text(&ascii, len, 1));
    }
    for len in (1..=4310).filter(|l| l % (step * 2) == 0 || *l <= 100 || *l > 4290) {
        passwords.push(text(&alnum, len, 2));
    }
    for len in (1..=7100).filter(|l| l % (step * 3) == 0 || *l <= 100 || *l > 7080) {
        passwords.push(text(&digits, len, 3));
    }
    for (alphabet, width) in [(&latin, 2), (&wide, 3), (&emoji, 4)] {
        for len in (1..=2970 / width).filter(|l| l % (step * 5) == 0 || *l <= 20 || *l > 2940 / width) {
            passwords.push(text(alphabet, len, 4));
        }
    }
    for len in [5000, 7090, 10000, 20000] {
        passwords.push(text(&ascii, len, 5));
        passwords.push(text(&digits, len, 6));
    }
    // Every character, alone and between others
    for c in (32..0x250).filter(|c| *c != 127).chain([9, 0x391, 0x3c9, 0x410, 0x44f, 0x5d0, 0x20ac, 0x2028, 0x2580, 0x2584, 0x2588, 0x3042, 0xac00, 0xe000, 0xfeff, 0xfffd, 0x10000, 0x1F511, 0x10ffff]).filter_map(char::from_u32) {
        passwords.push(c.to_string());
        passwords.push(format!("a{}b", c));
        passwords.push(format!("{}{}", c, c));
        if c < '\u{80}' {
            passwords.push(format!("A{}1", c));
            for t in ["1{}2", "{}12", "12{}", "{}0123456789", "0{}", "{}AB", "AB{}", "{}ab", "ab{}", "00{}00", "{}{}7"] {
                passwords.push(t.replace("{}", &c.to_string()));
            }
        }
    }
    // All short combinations of the classes of characters
    let classes = ['0', '9', 'A', 'Z', ' ', '$', ':', 'a', 'z', '~', '\u{e4}', '+', '-', '.'];
    for a in classes {
        for b in classes {
            passwords.push(format!("{}{}", a, b));
            for c in classes {
                passwords.push(format!("{}{}{}", a, b, c));
                if ctx.thorough {
                    for d in classes {
                        passwords.push(format!("{}{}{}{}", a, b, c, d));
                    }
                }
            }
        }
    }
    // Uniform contents lead to different masks and padding.
    for c in ['0', '1', 'A', 'a', ' ', '\u{e4}'] {
        for n in 1..ctx.pick(80, 400) {
            passwords.push(c.to_string().repeat(n));
        }
    }
    for salt in 0..ctx.pick(200, 4000) {
        passwords.push(text(&ascii, 4 + salt % 60, 100 + salt));
    }
    for t in ["https://example.com/", "HTTPS://EXAMPLE.COM/", "mailto:a@b.c", "tel:+12345", "007", "0x1f", "0X1F", "1e5", "1E5", "1.50", "-0", "+0", "true", "null", "NaN", "inf", "\u{661}\u{662}\u{663}", "\u{ff11}\u{ff12}", "%41", "a+b", "&amp;", "18446744073709551615", "18446744073709551616", "WIFI:S:net;T:WPA;P:secret;;", "one\ntwo", "\n", "tab\there", "nul\0inside", "\r\n", "otpauth://totp/a?secret=ABC", "\u{feff}bom", "e\u{301}", "Password retrieved.", "\u{1b}[0m", "\\", "\"'"] {
        passwords.push(t.to_string());
    }
    passwords.sort();
    passwords.dedup();
    ctx.par(passwords.len(), |i| {
        let pw = &passwords[i];
        let mut m = empty();
        m.apply(&model::stored("a.com", "n", "", pw));
        ctx.state(1);
        if let Err(e) = check(&ctx, &m, "a.com", "n", None, i % 2 == 0) {
            let short: String = pw.chars().take(40).collect();
            ctx.violation(&format!("{:?} ({} bytes)", short, pw.len()), format!("password {:?}\n=> {}", pw, e));
        }
    });
    ctx.note(&format!("{} stored passwords: every length up to the capacity in the thorough check (every {}th in this run, plus the first and last ones), every character up to U+024F, all combinations of character classes", passwords.len(), step));
    // Generated passwords, revisions, aliases, missing entries
    let mut gen = populated();
    for length in 4..=24 {
        for classes in 1..16 {
            gen.apply(&model::gen("g.com", &format!("n{}-{}", length, classes), if classes % 2 == 0 { "" } else { "x" }, length, classes));
        }
    }
    let mut wanted: Vec<(String, String, Option<String>)> = gen.content.passwords.keys().map(|id| (id.0.clone(), id.1.clone(), if id.2.is_empty() { None } else { Some(id.2.clone()) })).collect();
    for (s, n, r) in [("www.a.com", "n", Some("2")), ("c.com", "n", None), ("www.c.com", "n", Some("1")), ("missing.com", "n", None), ("a.com", "n", Some("3")), ("a.com", "N", None)] {
        wanted.push((s.into(), n.into(), r.map(|r| r.to_string())));
    }
    ctx.par(wanted.len(), |i| {
        let (s, n, r) = &wanted[i];
        ctx.state(1);
        if let Err(e) = check(&ctx, &gen, s, n, r.as_deref(), i % 2 == 0) {
            ctx.violation(&format!("{:?}", wanted[i]), format!("show -q {:?}\n=> {}", wanted[i], e));
        }
    });
    ctx.note(&format!("{} generated and other passwords", wanted.len()));
    // In the shell: several codes in a row, after other output.
    let sessions: Vec<Vec<usize>> = (0..125).map(|k| vec![k % 5, k / 5 % 5, k / 25]).collect();
    ctx.par(sessions.len(), |k| {
        let mut m = empty();
        m.apply(&model::stored("a.com", "n", "", "first password"));
        m.apply(&model::stored("b.com", "n", "", "12345"));
        m.apply(&model::stored("l.com", "n", "", &"long ".repeat(1000)));
        let place = Place::new(&ctx);
        place.write(&raw_for(&m));
        let cmds = ["show -q a.com n", "show --qrcode b.com n", "show a.com n", "show -q l.com n", "show -q missing.com n"];
        let mut input = String::new();
        for (i, &c) in sessions[k].iter().enumerate() {
            input += &format!("{}\n", cmds[c]);
            if i == 0 {
                input += &format!("{}\n", m.primary);
            }
        }
        let res = place.run(&ctx, &args(&["shell"]), input.as_bytes(), &Opts::default());
        ctx.trans(1);
        ctx.eval(1);
        let r = (|| -> Result<(), String> {
            res.orderly()?;
            let out = strip(&res.out());
            // Parts of the output starting with the message
            let parts: Vec<&str> = out.split("Password retrieved.").skip(1).collect();
            let shown: Vec<usize> = sessions[k].iter().cloned().filter(|c| *c != 4).collect();
            if parts.len() != shown.len() {
                return Err(format!("{} results, expected {}", parts.len(), shown.len()));
            }
            for (part, c) in parts.iter().zip(shown) {
                match c {
                    0 | 1 => decode(&ctx, &format!("Password retrieved.{}", part.replace("pfp> ", "")), ["first password", "12345"][c])?,
                    2 => {
                        if !part.starts_with("first password\n") {
                            return Err("password not shown".into());
                        }
                    }
                    _ => {
                        if part.contains(['\u{2580}', '\u{2584}', '\u{2588}']) {
                            return Err("partial code displayed".into());
                        }
                    }
                }
            }
            Ok(())
        })();
        if let Err(e) = r {
            ctx.violation(&format!("shell {:?}", sessions[k]), format!("{}\n=> {}\n{}", input, e, res.describe()));
        }
    });
    ctx.finish(
        "model_checking",
        "every password of the stated domain displayed by the real program and read by an independent strict QR code reader (function patterns, format, version, error correction and padding all verified)",
        &["dark modules are those drawn with the foreground colour", "text is encoded as UTF-8 bytes, digits or alphanumeric characters without character set indication"],
    )
}
