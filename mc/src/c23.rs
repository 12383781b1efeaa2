//! C23: unusable storage files give an orderly error and stay untouched.

use crate::c01::{populated, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::{self, Op};
use crate::refc::{self, Raw};
use crate::refcli::{self, Cmd};
use crate::util::{guarded, Ctx};
use serde_json::{json, Value};

pub struct Bad {
    pub what: String,
    pub bytes: Vec<u8>,
    /// The document is fine but its base data isn't: commands ask for the primary password.
    pub asks: bool,
}

fn valid() -> Value {
    json!({"application": "pfp", "format": 3, "data": raw_for(&populated())})
}

/// JSON text with fields in the given order, values written verbatim.
fn object(fields: &[(&str, String)]) -> String {
    format!("{{{}}}", fields.iter().map(|(k, v)| format!("{}:{}", Value::from(*k), v)).collect::<Vec<_>>().join(","))
}

/// Values of all types.
fn types() -> Vec<&'static str> {
    vec![
        "null", "true", "false", "0", "1", "2", "3", "4", "-3", "3.0", "3.5", "3e0", "30e-1", "259", "65539", "4294967299", "18446744073709551619", "1e400", "-0",
        "\"\"", "\"3\"", "\"pfp\"", "\"PFP\"", "\"pfp \"", "\" pfp\"", "\"pfp\\u0000\"", "\"pf\"", "\"pfpx\"", "\"easypasswords\"", "\"\\ud83d\\ude00\"", "[]", "[3]", "[\"pfp\"]", "{}",
        "{\"pfp\":3}", "{\"a\":\"b\"}", "{\"a\":1}", "{\"a\":null}", "{\"a\":[]}", "{\"salt\":\"AAAA\",\"hmac-secret\":null}", "[[\"salt\",\"AAAA\"]]",
    ]
}

/// Files that aren't storage documents at all, or have unusable base data.
pub fn unusable(all: bool) -> Vec<Bad> {
    let mut v: Vec<Bad> = Vec::new();
    let mut add = |what: &str, bytes: Vec<u8>, asks: bool| v.push(Bad { what: what.to_string(), bytes, asks });
    let text = valid().to_string();
    let data = valid()["data"].to_string();
    let app = "\"pfp\"".to_string();
    let three = "3".to_string();
    for t in types() {
        add(&format!("document {}", t), t.into(), false);
    }
    for t in ["", " ", "\n", "\0", "\u{feff}", "{", "}", "pfp", "<html>", "PK\u{3}\u{4}", "# comment", "'pfp'", "\r\n\r\n"] {
        add(&format!("text {:?}", t), t.into(), false);
    }
    for (what, t) in [
        ("BOM", format!("\u{feff}{}", text)),
        ("rubbish after it", format!("{}x", text)),
        ("twice", format!("{}{}", text, text)),
        ("twice, line break", format!("{}\n{}", text, text)),
        ("in an array", format!("[{}]", text)),
        ("comma after it", format!("{},", text)),
        ("brace after it", format!("{}}}", text)),
        ("NUL after it", format!("{}\0", text)),
        ("quotes around it", Value::from(text.clone()).to_string()),
        ("single quotes", text.replace('"', "'")),
        ("trailing comma", text.replace("}}", "},}")),
        ("trailing comma in data", text.replace("}}", ",}}").replace(",,", ",")),
        ("comment", text.replace("{\"app", "{/**/\"app")),
        ("control character", text.replace("pfp", "p\nfp")),
        ("unpaired surrogate", text.replace("\"salt\"", "\"\\ud800salt\"")),
        ("bad escape", text.replace("\"salt\"", "\"\\qsalt\"")),
        ("deep", "[".repeat(100_000)),
        ("deep objects", "{\"data\":".repeat(100_000)),
        ("deep data", object(&[("application", app.clone()), ("format", three.clone()), ("data", format!("{}{}", "{\"a\":".repeat(5000), "}".repeat(5000)))])),
        ("long", " ".repeat(3_000_000)),
    ] {
        add(what, t.into_bytes(), false);
    }
    for enc in 0..4 {
        let mut b = Vec::new();
        for u in text.encode_utf16() {
            b.extend(if enc & 1 == 0 { u.to_le_bytes() } else { u.to_be_bytes() });
        }
        if enc & 2 != 0 {
            b.splice(0..0, if enc & 1 == 0 { [0xff, 0xfe] } else { [0xfe, 0xff] });
        }
        add("UTF-16", b, false);
    }
    for bytes in [&b"\xff"[..], b"\xc0\x80", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe4"] {
        let mut b = text.clone().into_bytes();
        let at = text.find("salt").unwrap();
        b.splice(at..at, bytes.iter().copied());
        add("invalid UTF-8 in a key", b, false);
        let mut b = text.clone().into_bytes();
        b.extend(bytes);
        add("invalid UTF-8 at the end", b, false);
    }
    // Truncated everywhere
    let small = raw_for(&crate::c01::empty());
    let short = refc::file_text(&small);
    for cut in 0..short.len() {
        add(&format!("cut at {}", cut), short.as_bytes()[..cut].to_vec(), false);
    }
    if all {
        for cut in short.len().min(text.len())..text.len() {
            add(&format!("long one cut at {}", cut), text.as_bytes()[..cut].to_vec(), false);
        }
        for cut in 1..short.len() {
            add(&format!("start missing up to {}", cut), short.as_bytes()[cut..].to_vec(), false);
        }
    }
    // Each structural character missing, doubled or replaced
    for (i, c) in short.char_indices().filter(|(_, c)| "{}:,\"".contains(*c)) {
        add(&format!("without {} at {}", c, i), format!("{}{}", &short[..i], &short[i + 1..]).into_bytes(), false);
        // Doubled quotation marks etc.
        add(&format!("{} doubled at {}", c, i), format!("{}{}{}", &short[..i], c, &short[i..]).into_bytes(), false);
        for r in [';', '[', '\'', '='] {
            add(&format!("{} replaced by {} at {}", c, r, i), format!("{}{}{}", &short[..i], r, &short[i + 1..]).into_bytes(), false);
        }
    }
    // Fields
    let fields = [("application", app), ("data", data), ("format", three)];
    for i in 0..3 {
        let mut f = fields.to_vec();
        f.remove(i);
        add(&format!("{} missing", fields[i].0), object(&f).into_bytes(), false);
        let mut f = fields.to_vec();
        f.push(fields[i].clone());
        add(&format!("{} twice", fields[i].0), object(&f).into_bytes(), false);
        let mut f = fields.to_vec();
        f.insert(0, fields[i].clone());
        add(&format!("{} twice in front", fields[i].0), object(&f).into_bytes(), false);
        for t in types() {
            if t == fields[i].1 || i == 1 && (t == "{}" || t == "{\"a\":\"b\"}") {
                continue;
            }
            let mut f = fields.to_vec();
            f[i].1 = t.to_string();
            add(&format!("{} is {}", fields[i].0, t), object(&f).into_bytes(), false);
            // A wrong and the right one
            let mut f = fields.to_vec();
            f.push((fields[i].0, t.to_string()));
            add(&format!("{} and then {}", fields[i].0, t), object(&f).into_bytes(), false);
        }
        for renamed in [fields[i].0.to_uppercase(), format!("{}s", fields[i].0), format!(" {}", fields[i].0), fields[i].0[1..].to_string()] {
            let mut f = fields.to_vec();
            f[i].0 = &renamed;
            add(&format!("{} called {}", fields[i].0, renamed), object(&f).into_bytes(), false);
        }
    }
    for extra in ["version", "", "Data", "path", "saved_data", "comment", "__proto__"] {
        for value in ["null", "1", "\"x\"", "{}"] {
            for at in [0, 3] {
                let mut f = fields.to_vec();
                f.insert(at, (extra, value.to_string()));
                add(&format!("additional field {:?} {} at {}", extra, value, at), object(&f).into_bytes(), false);
            }
        }
    }
    // Values in the data that aren't text
    for t in types().into_iter().filter(|t| !t.starts_with('"')) {
        for key in ["salt", "hmac-secret", "site:abc", "other"] {
            let mut d = valid()["data"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.to_string())).collect::<Vec<_>>();
            d.retain(|(k, _)| k != key);
            d.push((key.to_string(), t.to_string()));
            let d: Vec<(&str, String)> = d.iter().map(|(k, v)| (k.as_str(), v.clone())).collect();
            let mut f = fields.to_vec();
            f[1].1 = object(&d);
            add(&format!("data entry {} is {}", key, t), object(&f).into_bytes(), false);
        }
    }
    // Base data
    let raw = raw_for(&populated());
    let mut base = |what: String, f: &dyn Fn(&mut Raw), asks: bool| {
        let mut r = raw.clone();
        f(&mut r);
        add(&what, refc::file_text(&r).into_bytes(), asks);
    };
    base("no data".into(), &|r| r.clear(), false);
    for key in ["salt", "hmac-secret"] {
        base(format!("{} missing", key), &|r| { r.remove(key); }, false);
        base(format!("{} in upper case", key), &|r| { let v = r.remove(key).unwrap(); r.insert(key.to_uppercase(), v); }, false);
    }
    base("only base data missing".into(), &|r| r.retain(|k, _| k.starts_with("site:")), false);
    for bad in ["", "=", "A", "AA", "AAA", "A===", "*", "!!!!", "AAAA ", " AAAA", "AA-_", "\u{e4}\u{e4}\u{e4}\u{e4}", "AAAA\n", "AAAAAAAA_AAAAAAAA", "\0"] {
        base(format!("salt {:?}", bad), &|r| { r.insert("salt".into(), bad.into()); }, true);
        base(format!("lookup secret {:?}", bad), &|r| { r.insert("hmac-secret".into(), bad.into()); }, true);
    }
    let salt = raw["salt"].clone();
    // Missing padding may be tolerated, the data is the same.
    for cut in 0..salt.trim_end_matches('=').len() {
        base(format!("salt cut at {}", cut), &|r| { r.insert("salt".into(), salt[..cut].into()); }, true);
    }
    let secret = raw["hmac-secret"].clone();
    for cut in 0..secret.trim_end_matches('=').len() {
        base(format!("lookup secret cut at {}", cut), &|r| { r.insert("hmac-secret".into(), secret[..cut].into()); }, true);
    }
    let (nonce, ciphertext) = refc::split_value(&secret).unwrap();
    for bit in 0..if all { ciphertext.len() * 8 } else { 64 } {
        let mut c = ciphertext.clone();
        c[bit / 8] ^= 1 << (bit % 8);
        base(format!("lookup secret with bit {} changed", bit), &|r| { r.insert("hmac-secret".into(), format!("{}_{}", refc::b64(&nonce), refc::b64(&c))); }, true);
    }
    for bit in 0..if all { 128 } else { 16 } {
        let mut s = refc::unb64(&salt).unwrap();
        s[bit / 8] ^= 1 << (bit % 8);
        base(format!("salt with bit {} changed", bit), &|r| { r.insert("salt".into(), refc::b64(&s)); }, true);
    }
    for len in [0, 1, 11, 13, 16, 64] {
        base(format!("nonce of {} bytes", len), &|r| { r.insert("hmac-secret".into(), format!("{}_{}", refc::b64(&vec![7; len]), refc::b64(&ciphertext))); }, true);
    }
    for len in 0..18 {
        base(format!("ciphertext of {} bytes", len), &|r| { r.insert("hmac-secret".into(), format!("{}_{}", refc::b64(&nonce), refc::b64(&vec![7; len]))); }, true);
    }
    base("three parts".into(), &|r| { r.insert("hmac-secret".into(), format!("{}_AAAA", secret)); }, true);
    let other = raw.iter().find(|(k, _)| k.starts_with("site:")).unwrap().1.clone();
    base("another value as lookup secret".into(), &|r| { r.insert("hmac-secret".into(), other.clone()); }, true);
    let key = refc::storage_key(PRIMARY, &refc::unb64(&salt).unwrap());
    for plain in [
        &b""[..], b"x", b"null", b"3", b"true", b"[]", b"{}", b"{\"a\":\"b\"}", b"\"", b"\"*\"", b"\"A\"", b"\"AAAA", b"\"AA-_\"", b"\"AAAA\"x", b"\"\xff\"", b"\xff", b"\"\\ud800\"", b"\"AAAA\" \"AAAA\"",
    ] {
        base(format!("lookup secret decrypts to {:?}", String::from_utf8_lossy(plain)), &|r| { r.insert("hmac-secret".into(), refc::encrypt_value(&key, b"nonce nonce ", plain)); }, true);
    }
    // Some changes give valid documents or leave everything as it was.
    v.retain(|b| b.asks || !accepted(&b.bytes));
    v
}

/// A document with complete base data (by an independent reader).
fn accepted(bytes: &[u8]) -> bool {
    std::str::from_utf8(bytes).ok().and_then(|t| refc::parse_file(t).ok()).map_or(false, |r| r.contains_key("salt") && r.contains_key("hmac-secret"))
}

/// All commands that need the data.
pub fn commands() -> Vec<(Cmd, Vec<&'static str>)> {
    vec![
        (clix::list(0), vec![]),
        (clix::list(7), vec![]),
        (clix::list_for("a.com", Some("n"), 1), vec![]),
        (clix::show("a.com", "n", None), vec![]),
        (clix::notes("a.com", "n", Some("2"), false), vec![]),
        (clix::notes("a.com", "n", Some("2"), true), vec!["new notes"]),
        (clix::add("a.com", "n", None, None, 0, true), vec![]),
        (clix::add("new.com", "n", None, None, 0, false), vec!["y"]),
        (clix::add_stored("a.com", "n", Some("2"), true), vec!["value"]),
        (Cmd::AddStored { site: "a.com".into(), name: "n".into(), rev: None, recovery: true, yes: true }, vec!["AAAA", ""]),
        (clix::remove("a.com", "n", None), vec![]),
        (clix::alias("x.com", "a.com"), vec![]),
        (clix::show_alias("c.com"), vec![]),
        (clix::unalias("c.com"), vec![]),
    ]
}

/// Output that shows data or claims that something was done.
fn claims(out: &str) -> Option<&'static str> {
    ["Password added", "Password removed", "Password retrieved", "Notes", "Currently no", "Alias added", "Alias removed", "is an alias", "Passwords for", "No matching", "s3cret", "other", "New primary"]
        .into_iter()
        .find(|c| refcli::strip(out).contains(c))
}

fn check(ctx: &Ctx, place: &Place, cmd: &[String], input: &[u8], opts: &Opts, asks: bool) -> Result<(), String> {
    let before = place.tree();
    let res = place.run(ctx, cmd, input, opts);
    ctx.eval(1);
    ctx.trans(1);
    ctx.trace(1);
    let wrap = |e: String| format!("{}\n{}", e, res.describe());
    res.orderly().map_err(wrap)?;
    if res.ok() {
        return Err(wrap("the command succeeded".into()));
    }
    if res.err().trim().is_empty() {
        return Err(wrap("no error message".into()));
    }
    if let Some(c) = claims(&res.out()) {
        return Err(wrap(format!("output contains {:?}", c)));
    }
    // No password can be right if there is nothing to check it with, so there is no point in asking for another.
    if !asks && res.out().matches(refcli::PROMPTS[0]).count() > 1 {
        return Err(wrap("the primary password is asked for again".into()));
    }
    if place.tree() != before {
        return Err(wrap("files were changed".into()));
    }
    Ok(())
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let bad = unusable(ctx.thorough);
    ctx.state(bad.len() as u64);
    ctx.count("unusable files", bad.len() as u64);

    // The library with each of them: errors, never panics, nothing written.
    let ops: Vec<Op> = {
        let mut v = vec![Op::Unlock(PRIMARY.into())];
        v.extend(crate::c01::full_alphabet(&["a.com"], &["n"], &["", "2"]));
        v.extend(observations(&["a.com", "c.com"], &["n"], &["2"]));
        v.push(Op::Recovery { site: "a.com".into(), name: "n".into(), rev: "2".into() });
        v
    };
    ctx.par(bad.len(), |k| {
        let b = &bad[k];
        let path = scratch_file(&ctx);
        std::fs::write(&path, &b.bytes).unwrap();
        let report = |e: String| ctx.violation(&format!("library: {}", b.what), format!("file: {}\n=> {}", b.what, e));
        // Base data missing counts as a readable document.
        let readable = std::str::from_utf8(&b.bytes).map_or(false, |t| refc::parse_file(t).is_ok());
        match guarded(|| Live::load(&path)) {
            Err(e) => report(format!("panic: {}", e)),
            Ok(Err(e)) => {
                if readable {
                    report(format!("not loaded: {}", e));
                }
            }
            Ok(Ok(mut live)) => {
                if !readable {
                    report("was loaded".into());
                }
                for op in &ops {
                    let out = live.exec(op);
                    ctx.eval(1);
                    let fine = match &out {
                        // Listing has no way to report errors, callers have to unlock first.
                        model::Out::Err(e) => e[0] != "panic" || matches!(op, Op::List { .. } | Op::ListSites { .. } | Op::Recovery { .. }),
                        model::Out::Passwords(p) => p.is_empty(),
                        model::Out::Sites(s) => s.is_empty(),
                        _ => false,
                    };
                    if !fine || live.unlocked() {
                        report(format!("{:?} yields {:?}, unlocked {}", op, out, live.unlocked()));
                    }
                }
            }
        }
        ctx.trans(ops.len() as u64);
        if std::fs::read(&path).ok().as_ref() != Some(&b.bytes) {
            report("the file was changed".into());
        }
        let dir = path.parent().unwrap();
        if std::fs::read_dir(dir).map_or(0, |d| d.count()) != 1 {
            report("there are additional files".into());
        }
    });

    // The program: every file with some commands, every command with one of each kind.
    let cmds = commands();
    let per = cmds.len();
    ctx.par(bad.len() * per, |k| {
        let b = &bad[k / per];
        let (cmd, more) = &cmds[k % per];
        let place = Place::new(&ctx);
        std::fs::write(&place.file, &b.bytes).unwrap();
        let mut l = vec![PRIMARY];
        l.extend(more);
        if let Err(e) = check(&ctx, &place, &cmd.args(), &lines(&l), &Opts { seed: Some(k as u64), ..Default::default() }, b.asks) {
            ctx.violation(&format!("{}: {}", b.what, cmd.args()[0]), format!("file: {} {:?}\n{} <{}>\n=> {}", b.what, String::from_utf8_lossy(&b.bytes[..b.bytes.len().min(400)]), cmd.args().join(" "), l.join("|"), e));
        }
    });
    ctx.note(&format!("{} unusable files, {} of {} commands each", bad.len(), per, cmds.len()));
    // Each command with each kind of damage, also more input than one password.
    let kinds = ["document {}", "text \"\"", "cut at 17", "application missing", "format is 4", "data is null", "no data", "salt missing", "hmac-secret missing", "salt \"*\"", "lookup secret \"\"", "lookup secret with bit 7 changed", "lookup secret decrypts to \"null\"", "format twice", "additional field \"version\" 1 at 0", "rubbish after it"];
    let chosen: Vec<&Bad> = bad.iter().filter(|b| kinds.contains(&b.what.as_str())).collect();
    if chosen.len() != kinds.len() {
        ctx.violation("kinds", format!("kinds of damage: {:?}", chosen.iter().map(|b| &b.what).collect::<Vec<_>>()));
    }
    ctx.par(chosen.len() * cmds.len() * 5, |k| {
        let b = chosen[k / cmds.len() / 5];
        let (cmd, more) = &cmds[k / 5 % cmds.len()];
        let place = Place::new(&ctx);
        std::fs::write(&place.file, &b.bytes).unwrap();
        let mut l = match k % 5 {
            0 => vec![PRIMARY],
            4 => vec![PRIMARY; 6],
            1 => vec!["short", "", PRIMARY, PRIMARY, "wrong password", PRIMARY],
            2 => vec![],
            _ => vec!["y", "y", PRIMARY],
        };
        if k % 5 != 2 {
            l.extend(more);
        }
        let default_path = k % 5 == 3;
        let mut a = cmd.args();
        if default_path {
            let dir = place.dir.join("home/.config/PfP");
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("storage.json"), &b.bytes).unwrap();
            std::fs::remove_file(&place.file).unwrap();
            a.insert(0, "--stdin-passwords".into());
        }
        if let Err(e) = check(&ctx, &place, &a, &lines(&l), &Opts { raw_args: default_path, ..Default::default() }, b.asks) {
            ctx.violation(&format!("{}: {}", b.what, cmd.args()[0]), format!("file: {}\n{} <{}>\n=> {}", b.what, cmd.args().join(" "), l.join("|"), e));
        }
    });

    // Files that cannot be found, opened or read.
    let plans = ["", "0:E13", "0:E5", "0:E24", "0:E40", "1:E5", "1:E21", "2:E5"];
    let setups = ["missing", "missing directory", "directory", "dangling link", "link loop", "file as directory", "fine"];
    ctx.par(cmds.len() * plans.len() * setups.len(), |k| {
        let (cmd, more) = &cmds[k % cmds.len()];
        let plan = plans[k / cmds.len() % plans.len()];
        let setup = setups[k / cmds.len() / plans.len()];
        if setup == "fine" && plan.is_empty() {
            return;
        }
        let mut place = Place::new(&ctx);
        match setup {
            "missing directory" => place.file = place.dir.join("no/such/dir/storage.json"),
            "directory" => std::fs::create_dir(&place.file).unwrap(),
            "dangling link" => std::os::unix::fs::symlink("nowhere.json", &place.file).unwrap(),
            "link loop" => std::os::unix::fs::symlink("storage.json", &place.file).unwrap(),
            "file as directory" => {
                std::fs::write(place.dir.join("file"), "x").unwrap();
                place.file = place.dir.join("file/storage.json");
            }
            "fine" => place.write(&raw_for(&populated())),
            _ => {}
        }
        let mut l = vec![PRIMARY];
        l.extend(more);
        if let Err(e) = check(&ctx, &place, &cmd.args(), &lines(&l), &Opts { plan: plan.into(), ..Default::default() }, false) {
            ctx.violation(&format!("{} {}: {}", setup, plan, cmd.args()[0]), format!("file: {}, fault {:?}\n{} <{}>\n=> {}", setup, plan, cmd.args().join(" "), l.join("|"), e));
        }
    });

    // The shell doesn't start without data; without base data its commands fail.
    ctx.par(bad.len().div_ceil(ctx.pick(4, 1)), |k| {
        let b = &bad[k * ctx.pick(4, 1)];
        let place = Place::new(&ctx);
        std::fs::write(&place.file, &b.bytes).unwrap();
        let readable = std::str::from_utf8(&b.bytes).map_or(false, |t| refc::parse_file(t).is_ok());
        let history = place.io_path("history");
        let a = args(&["shell", "-s", history.to_str().unwrap()]);
        let key = format!("{}: shell", b.what);
        if !readable {
            if let Err(e) = check(&ctx, &place, &a, &lines(&["list", PRIMARY, "exit"]), &Opts::default(), false) {
                ctx.violation(&key, format!("file: {}\n=> {}", b.what, e));
            }
            return;
        }
        let mut script: Vec<String> = Vec::new();
        let mut count = 0;
        for (cmd, _) in &cmds {
            if b.asks && count == 1 {
                // The primary password will be asked for again and again.
                script.extend([PRIMARY.to_string(), "short".into()]);
                break;
            }
            script.push(cmd.shell_line());
            count += 1;
        }
        let res = place.run(&ctx, &a, &lines(&script.iter().map(|s| s.as_str()).collect::<Vec<_>>()), &Opts::default());
        ctx.eval(1);
        ctx.trans(count as u64);
        ctx.trace(1);
        let errors = res.err().lines().filter(|l| !l.starts_with("Did not load")).count();
        let r = res.orderly().and_then(|_| match claims(&res.out()) {
            Some(c) => Err(format!("output contains {:?}", c)),
            None if place.read().as_ref() != Some(&b.bytes) => Err("the file was changed".into()),
            None if place.tree().len() != 2 => Err("there are additional files".into()),
            None if errors < count => Err(format!("{} errors reported for {} commands", errors, count)),
            None => Ok(()),
        });
        if let Err(e) = r {
            ctx.violation(&key, format!("file: {}\nshell: {}\n=> {}\n{}", b.what, script.join("|"), e, res.describe()));
        }
    });
    ctx.finish(
        "model_checking",
        "each unusable file with the commands needing its data, as real processes: failing exit code, error message, no data or confirmation shown, the directory byte for byte as before, ended by itself; the library with the same files: every operation fails",
        &["the list of damages is finite: all truncations and structural changes of small documents, all types for all fields, all bit changes of the base data"],
    )
}
