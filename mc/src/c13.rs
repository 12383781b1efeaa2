//! C13: storage files are interchangeable with the documented file format.

use crate::c01::{self, PRIMARY};
use crate::c07::permutations;
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, Content, Id, Raw, Writer};
use crate::refcli;
use crate::util::Ctx;
use serde_json::Value;

/// Sites, aliases and passwords of every kind, with texts that need care in JSON.
fn base() -> Model {
    let mut m = c01::populated();
    for op in [
        gen("g.com", "lower only", "3", 4, 1),
        notes("g.com", "lower only", "3", "\"quoted\" \\ / \u{8}\u{c}\n\r\t\u{1}\u{7f}"),
        gen("\u{e4}.com", "\u{1F600}\u{10FFFF}", "\u{2028}", 24, 8),
        stored("s.com", "na/me", "", "\u{1F511} \"pw\" \\u0041 \\"),
        stored("s.com", "empty", "", ""),
        alias("al.com", "\u{e4}.com"),
    ] {
        assert_eq!(m.apply(&op), Out::Unit);
    }
    m.unlocked = false;
    m
}

/// How a JSON text is written.
#[derive(Clone, Copy, Debug)]
struct Style {
    space: usize,
    escape: usize,
}

const SPACES: [&str; 6] = ["", " ", "\n", "\t", "\r\n    ", " \t\n\r "];

fn text_json(t: &str, escape: usize) -> String {
    let mut o = String::from("\"");
    let units = |o: &mut String, c: char, upper: bool| {
        for u in c.encode_utf16(&mut [0; 2]) {
            *o += &if upper { format!("\\u{:04X}", u) } else { format!("\\u{:04x}", u) };
        }
    };
    for (i, c) in t.chars().enumerate() {
        match escape {
            // Every character
            1 => units(&mut o, c, false),
            2 => units(&mut o, c, true),
            // Everything but ASCII
            3 if !c.is_ascii() => units(&mut o, c, i % 2 == 0),
            // Alternating
            4 if i % 2 == 0 => units(&mut o, c, i % 4 == 0),
            5 if i % 2 == 1 => units(&mut o, c, i % 4 == 1),
            _ => match c {
                '"' => o += "\\\"",
                '\\' => o += "\\\\",
                '/' if escape == 6 => o += "\\/",
                '\n' => o += "\\n",
                '\r' => o += "\\r",
                '\t' => o += "\\t",
                '\u{8}' => o += "\\b",
                '\u{c}' => o += "\\f",
                c if (c as u32) < 32 => units(&mut o, c, true),
                c => o.push(c),
            },
        }
    }
    o + "\""
}
const ESCAPES: usize = 7;

fn emit(fields: &[(String, Value)], style: Style) -> String {
    let ws = SPACES[style.space];
    let mut o = format!("{}{{", ws);
    for (i, (k, v)) in fields.iter().enumerate() {
        if i > 0 {
            o.push(',');
        }
        let value = match v {
            Value::String(t) => text_json(t, style.escape),
            Value::Object(map) => emit(&map.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>(), style),
            v => v.to_string(),
        };
        o += &format!("{ws}{}{ws}:{ws}{}{ws}", text_json(k, style.escape), value);
    }
    if fields.is_empty() {
        o += ws;
    }
    o + "}" + ws
}

fn fields(v: &Value) -> Vec<(String, Value)> {
    v.as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

/// A storage with all records written in the given way.
fn written(writer: &mut Writer, content: &Content, how: &dyn Fn(Vec<(String, Value)>) -> String) -> Raw {
    let mut raw = writer.base();
    for (site, alias) in &content.sites {
        let text = how(fields(&Writer::site_record(site, alias)));
        let v = writer.enc(text.as_bytes());
        raw.insert(writer.site_key(site), v);
    }
    for (id, e) in &content.passwords {
        let text = how(fields(&Writer::password_record(id, e)));
        let v = writer.enc(text.as_bytes());
        raw.insert(writer.password_key(id), v);
    }
    raw
}

fn everything(m: &Model) -> Vec<Op> {
    let mut obs = Vec::new();
    for id in m.content.passwords.keys() {
        for op in [
            Op::Has { site: id.0.clone(), name: id.1.clone(), rev: id.2.clone() },
            Op::Get { site: id.0.clone(), name: id.1.clone(), rev: id.2.clone() },
            Op::GetNotes { site: id.0.clone(), name: id.1.clone(), rev: id.2.clone() },
        ] {
            obs.push(op);
        }
    }
    for (site, _) in &m.content.sites {
        obs.push(Op::List { site: site.clone(), pattern: s("*") });
        obs.push(Op::GetAlias { site: site.clone() });
    }
    obs.push(Op::ListSites { pattern: s("*") });
    obs
}

/// The data is accepted, everything in it is usable and survives changes of other things.
fn usable(ctx: &Ctx, live: &mut Live, model: &Model, extra: &Raw, changes: bool) -> Result<(), String> {
    let mut m = model.clone();
    m.unlocked = false;
    let unlock = Op::Unlock(m.primary.clone());
    let mut step = |live: &mut Live, m: &mut Model, op: &Op| -> Result<(), String> {
        let expected = m.apply(op);
        let got = live.exec(op);
        if !matches(&expected, &got) {
            return Err(format!("{:?} yields {:?}, expected {:?}", op, got, expected));
        }
        Ok(())
    };
    step(live, &mut m, &unlock)?;
    ctx.eval(check_observations(live, &m, &everything(&m))?);
    if !changes {
        return Ok(());
    }
    for op in [
        gen("new.com", "new", "", 12, 3),
        notes("a.com", "n", "2", "changed"),
        alias("n.com", "new.com"),
        Op::Lock,
        unlock.clone(),
        unalias("n.com"),
        remove("new.com", "new", ""),
        Op::RemoveSites(vec![s("new.com")]),
    ] {
        step(live, &mut m, &op)?;
        ctx.eval(1);
        let mut raw = live.raw()?;
        for (k, v) in extra {
            if raw.remove(k).as_ref() != Some(v) {
                return Err(format!("after {:?} entry {:?} isn't there unchanged", op, k));
            }
        }
        let opened = refc::open(&raw, &m.primary).map_err(|e| format!("after {:?}: {}", op, e))?;
        if opened.content != m.content {
            return Err(format!("after {:?} the saved content is {}\nexpected {}", op, show(&opened.content), show(&m.content)));
        }
    }
    ctx.eval(check_observations(live, &m, &everything(&m))?);
    let mut again = live.reopen()?;
    m.unlocked = false;
    step(&mut again, &mut m, &unlock)?;
    ctx.eval(check_observations(&mut again, &m, &everything(&m))?);
    Ok(())
}

fn from_raw(ctx: &Ctx, raw: &Raw, model: &Model, extra: &Raw, changes: bool) -> Result<(), String> {
    let mut live = Live::open(Backing::Mock, raw, &scratch_file(ctx));
    ctx.trans(1);
    ctx.trace(1);
    usable(ctx, &mut live, model, extra, changes)
}
fn from_text(ctx: &Ctx, text: &str, model: &Model, extra: &Raw) -> Result<(), String> {
    let path = scratch_file(ctx);
    std::fs::write(&path, text).unwrap();
    let mut live = Live::load(&path).map_err(|e| format!("not accepted: {}", e))?;
    ctx.trans(1);
    ctx.trace(1);
    usable(ctx, &mut live, model, extra, true)
}

fn writer() -> Writer {
    Writer::new(PRIMARY, b"0123456789abcdef", &[0x42; 32])
}

/// One entry with its record as the only one (besides of its site).
fn single(text: &str, id: &Id) -> Raw {
    let mut w = writer();
    let mut raw = w.base();
    let v = w.enc(Writer::site_record(&id.0, &None).to_string().as_bytes());
    raw.insert(w.site_key(&id.0), v);
    let v = w.enc(text.as_bytes());
    raw.insert(w.password_key(id), v);
    raw
}

fn reading(ctx: &Ctx) {
    let m = base();
    // Records: all styles, several orders of fields
    let orders: usize = 6;
    let total = SPACES.len() * ESCAPES * orders * 2;
    ctx.par(total, |k| {
        let style = Style { space: k % SPACES.len(), escape: k / SPACES.len() % ESCAPES };
        let order = k / SPACES.len() / ESCAPES % orders;
        let empty_notes = k / SPACES.len() / ESCAPES / orders == 1;
        let raw = written(&mut writer(), &m.content, &|mut f| {
            if empty_notes && f.iter().any(|(k, _)| k == "type") && !f.iter().any(|(k, _)| k == "notes") {
                f.push((s("notes"), Value::String(String::new())));
            }
            let n = f.len();
            match order {
                0 => {}
                1 => f.reverse(),
                2 => f.rotate_left(n / 2),
                3 => f.sort_by(|a, b| a.0.cmp(&b.0)),
                4 => f.sort_by_key(|(k, _)| (k != "type", k.clone())),
                _ => f.sort_by_key(|(k, _)| (k == "type", k.clone())),
            }
            emit(&f, style)
        });
        if let Err(e) = from_raw(ctx, &raw, &m, &Raw::new(), true) {
            ctx.violation("record style", format!("records with {:?}, order {}, empty notes {}\n=> {}", style, order, empty_notes, e));
        }
    });
    ctx.note(&format!("{} ways of writing all records (white space, escapes, order, empty notes field)", total));

    // Every order of fields of every kind of record
    let mut count = 0;
    for (id, e) in &m.content.passwords {
        let all = fields(&Writer::password_record(id, e));
        let mut one = Model::initial(PRIMARY, Content::default());
        one.content.sites.insert(id.0.clone(), None);
        one.content.passwords.insert(id.clone(), e.clone());
        if count >= ctx.pick(2, 4) && all.len() > 8 || all.len() > 8 && e.notes.is_empty() != (count == 0) {
            continue;
        }
        if all.len() > 8 {
            count += 1;
        }
        // Long ones: all orders of all but the first and last fields unless there is time.
        let moving = all.len().min(ctx.pick(8, 9));
        let mut orders: Vec<Vec<usize>> = Vec::new();
        let rest: Vec<usize> = (moving..all.len()).collect();
        permutations(&mut (0..moving).collect(), 0, &mut |p| {
            let mut o = p.to_vec();
            // The other fields in several places
            let at = orders.len() % (p.len() + 1);
            for &r in &rest {
                o.insert(at, r);
            }
            orders.push(o);
        });
        ctx.count("field orders", orders.len() as u64);
        ctx.par(orders.len(), |k| {
            let f: Vec<(String, Value)> = orders[k].iter().map(|&i| all[i].clone()).collect();
            let text = emit(&f, Style { space: 0, escape: 0 });
            if let Err(e) = from_raw(ctx, &single(&text, id), &one, &Raw::new(), false) {
                ctx.violation("field order", format!("record {}\n=> {}", text, e));
            }
        });
    }

    // Each single character of each text escaped, each place with white space
    for (id, e) in &m.content.passwords {
        let plain = emit(&fields(&Writer::password_record(id, e)), Style { space: 0, escape: 0 });
        let mut one = Model::initial(PRIMARY, Content::default());
        one.content.sites.insert(id.0.clone(), None);
        one.content.passwords.insert(id.clone(), e.clone());
        let mut variants: Vec<String> = Vec::new();
        let (mut in_string, mut escaped) = (false, false);
        for (i, c) in plain.char_indices() {
            if !in_string {
                for ws in [" ", "\n", "\t", "\r"] {
                    if !plain[..i].ends_with(|c: char| c.is_alphanumeric()) || !c.is_alphanumeric() {
                        variants.push(format!("{}{}{}", &plain[..i], ws, &plain[i..]));
                    }
                }
            }
            if in_string && !escaped && c != '"' && c != '\\' {
                let u: String = c.encode_utf16(&mut [0; 2]).iter().map(|u| format!("\\u{:04x}", u)).collect();
                variants.push(format!("{}{}{}", &plain[..i], u, &plain[i + c.len_utf8()..]));
                variants.push(format!("{}{}{}", &plain[..i], u.to_uppercase().replace("\\U", "\\u"), &plain[i + c.len_utf8()..]));
            }
            if escaped {
                // Digits of an escape sequence follow, they don't matter here.
                escaped = false;
            } else if in_string && c == '\\' {
                escaped = true;
            } else if c == '"' {
                in_string = !in_string;
            }
        }
        // What is within \uXXXX stays as it is.
        variants.retain(|v| serde_json::from_str::<Value>(v).ok().as_ref() == serde_json::from_str::<Value>(&plain).ok().as_ref());
        ctx.count("single escapes and blanks", variants.len() as u64);
        ctx.par(variants.len(), |k| {
            if let Err(e) = from_raw(ctx, &single(&variants[k], id), &one, &Raw::new(), false) {
                ctx.violation("escape", format!("record {}\n=> {}", variants[k], e));
            }
        });
    }

    // Generated passwords of any length
    let mut lens: Vec<usize> = (1..=ctx.pick(1100, 5000)).collect();
    lens.extend([4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537, 100_000]);
    ctx.par(lens.len() * 3, |k| {
        let len = lens[k / 3];
        let id: Id = (s("a.com"), s("n"), s("2"));
        let classes = [15, 1, (len % 15 + 1) as u8][k % 3];
        let mut one = c01::empty();
        one.unlocked = true;
        assert_eq!(one.apply(&gen(&id.0, &id.1, &id.2, len, classes)), Out::Unit);
        one.unlocked = false;
        let text = emit(&fields(&Writer::password_record(&id, &one.content.passwords[&id])), Style { space: 0, escape: 0 });
        if let Err(e) = from_raw(ctx, &single(&text, &id), &one, &Raw::new(), k % 3 == 2) {
            ctx.violation("length", format!("record {}\n=> {}", text, e.chars().take(1000).collect::<String>()));
        }
    });
    ctx.note(&format!("{} lengths of generated passwords", lens.len()));

    // Salt and lookup secret: every byte value in every place, every length
    let mut bases: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let full: Vec<usize> = (0..16).collect();
    for &place in if ctx.thorough { &full[..] } else { &full[..1] } {
        for byte in 0..=255u8 {
            let mut salt = *b"0123456789abcdef";
            salt[place] = byte;
            salt[15 - place] = byte;
            let mut secret = [0x42; 32];
            secret[place] = byte;
            secret[31 - place] = byte;
            bases.push((salt.to_vec(), secret.to_vec()));
        }
    }
    for byte in 0..=255u8 {
        bases.push((vec![byte; 16], vec![byte; 32]));
    }
    for len in 0..=ctx.pick(80, 300) {
        bases.push((vec![0xE7; 16], vec![0x9C; len]));
        bases.push(((0..len).map(|i| i as u8).collect(), vec![0x9C; 32]));
    }
    ctx.par(bases.len(), |k| {
        let (salt, secret) = &bases[k];
        let mut w = Writer::new(PRIMARY, salt, secret);
        let raw = w.write(&m.content);
        if let Err(e) = from_raw(ctx, &raw, &m, &Raw::new(), k % 8 == 0) {
            ctx.violation("base data", format!("salt {:?}, lookup secret {:?}\n=> {}", salt, secret, e));
        }
    });
    // Recovery codes and generated passwords with salts of any bytes
    ctx.note(&format!("{} combinations of salt and lookup secret", bases.len()));

    // Nonces: every byte value in every place
    ctx.par(12 * 256, |k| {
        let mut nonce = [0x33u8; 12];
        nonce[k / 256] = k as u8;
        let mut w = writer();
        let mut raw = w.base();
        for (site, alias) in &m.content.sites {
            raw.insert(w.site_key(site), refc::encrypt_value(&w.key, &nonce, Writer::site_record(site, alias).to_string().as_bytes()));
        }
        for (id, e) in &m.content.passwords {
            raw.insert(w.password_key(id), refc::encrypt_value(&w.key, &nonce, Writer::password_record(id, e).to_string().as_bytes()));
        }
        if let Err(e) = from_raw(ctx, &raw, &m, &Raw::new(), false) {
            ctx.violation("nonce", format!("nonce {:?}\n=> {}", nonce, e));
        }
    });
}

/// All valid ways of writing the document around the data.
fn documents(ctx: &Ctx, m: &Model) -> Vec<(String, Raw)> {
    let raw = raw_for(m);
    let mut v: Vec<(String, Raw)> = Vec::new();
    let doc = |data: Value, order: &[usize], style: Style| {
        let f = [(s("application"), Value::from("pfp")), (s("format"), Value::from(3)), (s("data"), data)];
        let f: Vec<(String, Value)> = order.iter().map(|&i| f[i].clone()).collect();
        emit(&f, style)
    };
    let data: Value = raw.iter().map(|(k, v)| (k.clone(), Value::from(v.clone()))).collect::<serde_json::Map<_, _>>().into();
    permutations(&mut vec![0, 1, 2], 0, &mut |order| {
        for space in 0..SPACES.len() {
            for escape in 0..ESCAPES {
                v.push((doc(data.clone(), order, Style { space, escape }), Raw::new()));
            }
        }
    });
    // Entries in all orders (with as few of them as possible)
    let small = raw_for(&{
        let mut m = c01::empty();
        m.apply(&stored("a.com", "n", "2", "x"));
        m.apply(&alias("c.com", "a.com"));
        m
    });
    let entries: Vec<(String, String)> = small.into_iter().collect();
    let mut orders = Vec::new();
    permutations(&mut (0..entries.len()).collect(), 0, &mut |o| orders.push(o.to_vec()));
    for o in &orders {
        let body: Vec<String> = o.iter().map(|&i| format!("{}:{}", text_json(&entries[i].0, 0), text_json(&entries[i].1, 0))).collect();
        v.push((format!("{{\"application\":\"pfp\",\"format\":3,\"data\":{{{}}}}}", body.join(",")), Raw::from([(s(""), s("small"))])));
    }
    ctx.count("entry orders", orders.len() as u64);
    // Data this version knows nothing about
    for (k, value) in [
        ("unknown", "value"),
        ("", ""),
        ("sites", "{}"),
        ("site", "x"),
        ("salt2", "AAAA"),
        ("hmac-secret-backup", "AAAA_BBBB"),
        ("Site:x", "y"),
        ("sync:provider", "dropbox"),
        ("site-order", "[1,2]"),
        ("\u{e4}\"\\\n", "\u{1F600}\"\\\n\u{0}"),
    ] {
        let extra = Raw::from([(s(k), s(value))]);
        let mut with = raw.clone();
        with.extend(extra.clone());
        v.push((refc::file_text(&with), extra));
    }
    v
}

fn small_model() -> Model {
    let mut m = c01::empty();
    m.apply(&stored("a.com", "n", "2", "x"));
    m.apply(&alias("c.com", "a.com"));
    m
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    // Written files: whatever was done, an independent strict reader finds exactly what should be there.
    let sites = ["a.com", "www.b.com", "\u{e4}\"\\"];
    let names = ["n", "\u{1F600}"];
    let revs = ["", "2"];
    let mut ops = c01::full_alphabet(&sites, &names, &revs);
    // Callers remove sites only if they have no passwords, as the list command does (see below).
    ops.retain(|o| !matches!(o, Op::RemoveSites(_)));
    ops.push(Op::RemoveSites(vec![s("c.com")]));
    ops.extend([Op::Lock, Op::Unlock(s(PRIMARY)), Op::Reset(s(PRIMARY)), Op::Reset(s("another primary"))]);
    let extra = |edge: &mut Edge| -> Result<(), String> {
        if !edge.after.initialized {
            return Ok(());
        }
        let text = match edge.live {
            Live::File(_, path) => std::fs::read_to_string(path).map_err(|e| e.to_string())?,
            Live::Mock(..) => return Ok(()),
        };
        let raw = refc::parse_file(&text)?;
        let opened = refc::open(&raw, &edge.after.primary)?;
        if edge.op.modifying() && (opened.salt.len() != 16 || opened.hmac_secret.len() != 32) {
            return Err("salt or lookup secret has the wrong length".into());
        }
        for id in opened.content.passwords.keys() {
            // Other implementations find passwords by way of their site.
            if opened.content.sites.get(&id.0) != Some(&None) {
                return Err(format!("password {:?} without a site record", id));
            }
        }
        if opened.content != edge.after.content {
            return Err(format!("saved content is {}\nexpected {}", show(&opened.content), show(&edge.after.content)));
        }
        Ok(())
    };
    let init = vec![Model::default(), c01::empty(), c01::populated()];
    Explore { ctx: &ctx, what: "written documents", init, obs: vec![Op::ListSites { pattern: s("*") }], ops, depth: ctx.pick(3, 4), max_states: ctx.pick(20_000, 200_000), backings: vec![Backing::File], reopen: false, reread: false, extra: Some(&extra) }.bfs();
    // All texts in all places, as other implementations see them
    let texts = crate::c02::texts(ctx.thorough);
    ctx.par(texts.len(), |k| {
        let t = &texts[k];
        let file = scratch_file(&ctx);
        let mut live = Live::open(Backing::File, &Raw::new(), &file);
        let mut m = Model::default();
        let mut path: Vec<Op> = Vec::new();
        for op in [
            Op::Reset(s("primary word")),
            stored(t, "n", "", t),
            gen("a.com", t, "", 16, 5),
            stored("a.com", "n", t, "x"),
            notes("a.com", "n", t, t),
            notes("a.com", t, "", t),
            alias(&format!("al{}", t), "a.com"),
            alias("other.com", t),
        ] {
            let expected = m.apply(&op);
            path.push(op.clone());
            let got = live.exec(&op);
            ctx.eval(1);
            ctx.trans(1);
            let r = if matches(&expected, &got) { check_saved(&live, &m) } else { Err(format!("yields {:?}, expected {:?}", got, expected)) };
            if let Err(e) = r {
                let mut d = format!("{:?}", path);
                d.truncate(d.char_indices().nth(2000).map_or(d.len(), |c| c.0));
                ctx.violation("written texts", format!("{}\n=> {}", d, e));
                return;
            }
        }
    });
    ctx.note(&format!("{} texts written in every field", texts.len()));

    reading(&ctx);

    // Whole documents, by the library and by the program
    let m = base();
    let docs = documents(&ctx, &m);
    ctx.par(docs.len(), |k| {
        let (text, extra) = &docs[k];
        let (m, extra) = if extra.get("").map_or(false, |x| x == "small") { (small_model(), Raw::new()) } else { (m.clone(), extra.clone()) };
        // notes for a missing entry are an error in both
        if let Err(e) = from_text(&ctx, text, &m, &extra) {
            ctx.violation("document", format!("{}\n=> {}", text, e));
        }
    });
    ctx.note(&format!("{} documents (order, white space, escapes, additional data)", docs.len()));
    let step = ctx.pick(3, 1);
    let chosen: Vec<usize> = (0..docs.len()).step_by(step).chain(docs.len() - 10..docs.len()).collect();
    ctx.par(chosen.len(), |k| {
        let (text, extra) = &docs[chosen[k]];
        let (mut m, extra) = if extra.get("").map_or(false, |x| x == "small") { (small_model(), Raw::new()) } else { (c01::populated(), extra.clone()) };
        m.unlocked = false;
        let place = Place::new(&ctx);
        let mut text = text.clone();
        if !text.contains("small") && m.content == c01::populated().content {
            // The listing of texts with line breaks isn't unique, take simple ones.
            let raw = raw_for(&c01::populated());
            let style = chosen[k];
            let f = [(s("application"), Value::from("pfp")), (s("data"), raw.into_iter().chain(extra.clone()).map(|(k, v)| (k, Value::from(v))).collect::<serde_json::Map<_, _>>().into()), (s("format"), Value::from(3))];
            let mut f = f.to_vec();
            f.rotate_left(style % 3);
            text = emit(&f, Style { space: style / 3 % SPACES.len(), escape: style / 18 % ESCAPES });
        }
        std::fs::write(&place.file, &text).unwrap();
        for (cmd, input) in [
            (clix::list(7), vec![PRIMARY]),
            (clix::show("c.com", "n", Some("2")), vec![PRIMARY]),
            (clix::add("x.com", "n", None, None, 0, false), vec![PRIMARY]),
            (clix::notes("a.com", "n", Some("2"), true), vec![PRIMARY, "text"]),
            (clix::list(7), vec![PRIMARY]),
        ] {
            let mut e = refcli::simulate(&m, &cmd, &mut clix::to_lines(&lines(&input)));
            e.after.unlocked = false;
            let res = place.run(&ctx, &cmd.args(), &lines(&input), &Opts { seed: Some(k as u64), ..Default::default() });
            ctx.trans(1);
            ctx.trace(1);
            let r = refcli::check_result(&res, &e.after, &e).and_then(|_| {
                let mut raw = place.raw()?;
                for (k, v) in &extra {
                    if raw.remove(k).as_ref() != Some(v) {
                        return Err(format!("entry {:?} isn't there unchanged", k));
                    }
                }
                refcli::check_content(&refc::open(&raw, PRIMARY)?.content, &e)
            });
            if let Err(err) = r {
                ctx.violation("program", format!("{} with {}\n=> {}\n{}", cmd.args().join(" "), text, err, res.describe()));
                return;
            }
            m = e.after;
        }
    });
    ctx.finish(
        "model_checking",
        "every file written is decrypted by a strict independent reader (exact fields, keys derived independently, nothing left over) and has the model's content; every variant of valid documents is loaded by the real code, all content is retrieved, unrelated changes are saved and everything is compared again",
        &["the format is the one documented by the extension and used by the existing tests: field names and types, HMAC and AES-GCM layout", "texts contain no unpaired surrogates (not representable)"],
    )
}
