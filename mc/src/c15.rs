//! C15: listing shows every password exactly once and loses nothing.

use crate::c01::{empty, populated};
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::{self, Model, Op};
use crate::refc::{self, Content, Entry, Kind, Raw};
use crate::refcli::{self, Cmd};
use crate::util::Ctx;
use std::collections::HashSet;
use std::sync::Mutex;

/// Runs a command on these bytes and compares it with the reference. Returns what is stored afterwards.
fn on(ctx: &Ctx, place: &Place, bytes: &[u8], model: &Model, cmd: &Cmd) -> Result<(Model, Vec<u8>), String> {
    let mut start = model.clone();
    start.unlocked = false;
    let step = clix::step(ctx, place, Some(bytes), &start, cmd, &lines(&[&model.primary]), &Opts::default()).map_err(|e| format!("{}: {}", cmd.args().join(" "), e))?;
    ctx.trans(1);
    ctx.trace(1);
    Ok((step.after, step.bytes.unwrap_or_default()))
}

/// Lists the storage in various ways, then makes sure that everything is still there.
fn check(ctx: &Ctx, raw: &Raw, model: &Model, n: u64, full: bool) -> Result<(), String> {
    let place = Place::new(ctx);
    let mut bytes = refc::file_text(raw).into_bytes();
    let mut now = model.clone();
    now.unlocked = false;
    // Options rotate with the state, the complete listing comes first and last.
    let sites: Vec<String> = model.content.sites.keys().cloned().collect();
    let mut filters: Vec<Cmd> = vec![clix::list(7)];
    if full {
        filters.extend((0..7).map(|f| clix::list(f)));
    } else {
        filters.push(clix::list((n % 7) as u8));
    }
    if !sites.is_empty() {
        let count = if full { sites.len() } else { 1 };
        for k in 0..count {
            let site = &sites[(n as usize + k) % sites.len()];
            filters.push(clix::list_for(site, None, 7));
            filters.push(clix::list_for(site, Some(["n", "*", "m*", "?"][(n as usize / 3 + k) % 4]), 5));
        }
        filters.push(clix::list_for("*", Some(["n", "missing", "**"][n as usize % 3]), 4));
    }
    filters.push(clix::list_for("missing.*", None, 0));
    filters.push(clix::list(7));
    for cmd in &filters {
        let (after, after_bytes) = on(ctx, &place, &bytes, &now, cmd)?;
        // Compared with the previous state already, make sure that nothing is lost gradually.
        let expect = refcli::Expect { ok: Some(true), shown: refcli::Shown::Any, after: now.clone(), may_drop_sites: true, questions: 0 };
        refcli::check_content(&after.content, &expect)?;
        now = after;
        bytes = after_bytes;
    }
    if now.content.passwords != model.content.passwords {
        return Err("passwords lost or changed".into());
    }
    for (site, alias) in &model.content.sites {
        if alias.is_some() && now.content.sites.get(site) != Some(alias) {
            return Err(format!("alias {:?} lost", site));
        }
    }
    // Everything retrievable, under all names of the site.
    let ids: Vec<_> = model.content.passwords.keys().cloned().collect();
    for (k, id) in ids.iter().enumerate() {
        if !full && k as u64 != n % ids.len() as u64 {
            continue;
        }
        let mut names = vec![format!("www.{}", id.0)];
        names.extend(model.content.sites.iter().filter(|(_, a)| a.as_ref() == Some(&id.0)).map(|(s, _)| format!("www.{}", s)));
        for site in names {
            on(ctx, &place, &bytes, &now, &clix::show(&site, &id.1, Some(&id.2)))?;
        }
    }
    ctx.outcome(if ids.is_empty() { "no passwords" } else { "passwords listed" });
    ctx.outcome(if now.content.sites.len() < model.content.sites.len() { "records of sites without passwords dropped" } else { "nothing dropped" });
    Ok(())
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let seen: Mutex<HashSet<Content>> = Default::default();
    let extra = |edge: &mut Edge| -> Result<(), String> {
        let n = {
            let mut seen = seen.lock().unwrap();
            if !seen.insert(edge.after.content.clone()) {
                return Ok(());
            }
            seen.len() as u64
        };
        check(&ctx, edge.raw_after, edge.after, n, ctx.thorough || n % 8 == 0)
    };
    let explore = |what: &'static str, init: Vec<Model>, ops: Vec<Op>, depth: usize| {
        Explore { ctx: &ctx, what, init, ops, obs: vec![], depth, max_states: 1_000_000, backings: vec![Backing::Mock], reopen: false, reread: false, extra: Some(&extra) }.bfs();
    };
    let m = |s: &str| s.to_string();
    // Sites and aliases: everything reachable.
    let mut ops = Vec::new();
    let three = ["a.com", "b.com", "c.com"];
    for site in three {
        ops.push(model::stored(site, "n", "", &format!("pw of {}", site)));
        ops.push(model::remove(site, "n", ""));
        ops.push(model::unalias(site));
        for target in three {
            ops.push(model::alias(site, target));
        }
    }
    ops.push(model::alias("a.com", "unknown.com"));
    ops.push(model::alias("unknown.com", "a.com"));
    ops.push(model::unalias("unknown.com"));
    explore("sites and aliases", vec![empty()], ops, ctx.pick(5, 40));
    // Names, revisions, kinds and notes
    let mut ops = Vec::new();
    for (site, name, rev) in [("a.com", "n", ""), ("a.com", "n", "2"), ("a.com", "n 2", ""), ("a.com", "m", ""), ("b.com", "n", "")] {
        ops.push(model::stored(site, name, rev, &format!("stored {} {}", name, rev)));
        ops.push(model::gen(site, name, rev, 10, 5));
        ops.push(model::notes(site, name, rev, "some notes"));
        ops.push(model::remove(site, name, rev));
    }
    ops.push(model::alias("b.com", "a.com"));
    ops.push(model::alias("c.com", "a.com"));
    explore("names and kinds", vec![empty(), populated()], ops, ctx.pick(3, 5));
    // All pairs of passwords where the texts coincide when put together in one way or another
    let mut grid = Vec::new();
    for name in ["n", "n 2", "n2", "n 2 3", "N", "n ", " n", "n\t2"] {
        for rev in ["", "2", "3", "2 3", "02", " 2", "n 2"] {
            grid.push(("a.com", name, rev));
        }
    }
    let deep = ctx.thorough;
    grid.retain(|(_, name, rev)| deep || !(name.contains('\t') || *rev == "n 2" && name.len() > 1));
    for (site, name) in [("a.com n", "2"), ("a.co", "m n"), ("a.comn", "2"), ("A.com", "n"), ("a.com ", "n"), ("a", ".comn"), ("a.com\t", "n")] {
        grid.push((site, name, ""));
    }
    let pairs: Vec<(usize, usize)> = (0..grid.len()).flat_map(|x| (0..x).map(move |y| (x, y))).chain(std::iter::once((grid.len(), 0))).collect();
    ctx.par(pairs.len(), |i| {
        let (x, y) = pairs[i];
        let chosen: Vec<_> = if x == grid.len() { grid.clone() } else { vec![grid[x], grid[y]] };
        let mut model = empty();
        for (k, (site, name, rev)) in chosen.iter().enumerate() {
            model.apply(&model::stored(site, name, rev, &format!("value {}", k)));
        }
        ctx.state(1);
        if let Err(e) = check(&ctx, &raw_for(&model), &model, i as u64, chosen.len() > 2) {
            ctx.violation(&format!("coinciding texts {:?} {:?}", chosen[0], chosen[1]), format!("{:?}: {}", chosen, e.chars().take(4000).collect::<String>()));
        }
    });
    // All pairs of sites with similar names, each with an alias (also similar ones)
    let similar = ["a.com", "A.com", "a.COM", "A.COM", "a.com ", " a.com", "a.com.", ".a.com", "a.co", "aa.com", "a-com", "a.com/", "b.com", "\u{e4}.com", "a\u{308}.com", "\u{c4}.com", "", "A", "a", "Z.com", "z.com", "www.", "a.com:1", "_"];
    let pairs: Vec<(usize, usize, usize)> = (0..similar.len()).flat_map(|x| (0..x).flat_map(move |y| (0..3).map(move |k| (x, y, k)))).collect();
    ctx.par(pairs.len(), |i| {
        let (x, y, k) = pairs[i];
        let (x, y) = (similar[x], similar[y]);
        let mut model = empty();
        model.apply(&model::stored(&format!("www.{}", x), "n", "", "first value"));
        model.apply(&model::stored(&format!("www.{}", y), "n", "", "second value"));
        if k < 2 {
            model.apply(&model::alias("first.org", &format!("www.{}", x)));
        }
        if k > 0 {
            model.apply(&model::alias(&format!("{}{}_", x, y), &format!("www.{}", y)));
            model.apply(&model::alias(&format!("second.{}.org", x), &format!("www.{}", y)));
        }
        ctx.state(1);
        if let Err(e) = check(&ctx, &raw_for(&model), &model, i as u64, deep) {
            ctx.violation(&format!("similar sites {:?} {:?} {}", x, y, k), format!("{:?} {:?}: {}", x, y, e.chars().take(4000).collect::<String>()));
        }
    });
    ctx.note(&format!("{} constellations of sites with similar names and their aliases", pairs.len()));
    // All pairs of entries of different kinds, values and notes, with all options
    let mut kinds: Vec<(Kind, &str)> = Vec::new();
    for notes in ["", " ", "some notes", "\t"] {
        for value in ["", " ", "value", "\u{1F600}"] {
            kinds.push((Kind::Stored(m(value)), notes));
        }
        kinds.push((Kind::Generated { length: 4, classes: 15 }, notes));
        kinds.push((Kind::Generated { length: 16, classes: 1 }, notes));
    }
    ctx.par(kinds.len() * kinds.len(), |i| {
        let (x, y) = (&kinds[i / kinds.len()], &kinds[i % kinds.len()]);
        let mut model = empty();
        model.content.sites.insert(m("a.com"), None);
        for (name, (kind, notes)) in [("n", x), ("o", y)] {
            model.content.passwords.insert((m("a.com"), m(name), m("")), Entry { kind: kind.clone(), notes: notes.to_string() });
        }
        ctx.state(1);
        if let Err(e) = check(&ctx, &raw_for(&model), &model, 1, deep || i % 7 == 0 || i / kinds.len() == i % kinds.len()) {
            ctx.violation(&format!("kinds {:?} {:?}", x, y), format!("{:?} {:?}: {}", x, y, e.chars().take(4000).collect::<String>()));
        }
    });
    ctx.note(&format!("{} pairs of kinds of entries", kinds.len() * kinds.len()));
    // Names with www. prefix
    let mut ops = Vec::new();
    for site in ["a.com", "www.a.com", "www.www.a.com", "www.www.www.a.com", "www.", "www.www.", ""] {
        ops.push(model::stored(site, "n", "", &format!("pw of {:?}", site)));
        ops.push(model::remove(site, "n", ""));
        ops.push(model::alias(site, "b.com"));
        ops.push(model::alias("c.com", site));
    }
    ops.push(model::stored("b.com", "n", "", "b"));
    explore("www. prefixes", vec![empty()], ops, ctx.pick(3, 5));
    // Generated passwords: every length and character set
    let mut generated = empty();
    for length in 4..=24 {
        for classes in 1..16 {
            generated.apply(&model::gen(&format!("s{}.com", length), &format!("n{}", classes), if classes % 2 == 0 { "" } else { "7" }, length, classes));
        }
    }
    // Many sites with many aliases and passwords
    let mut many = empty();
    let (sites, each) = (ctx.pick(40, 200), 12);
    for i in 0..sites {
        for k in 0..(i % each) {
            many.apply(&model::stored(&format!("site{}.com", i), &format!("name{}", k % 5), &format!("{}", k / 5), &format!("value {} {}", i, k)));
            many.apply(&model::alias(&format!("alias{}-{}.com", i, k), &format!("site{}.com", i)));
        }
        many.content.sites.entry(format!("empty{}.com", i)).or_insert(None);
    }
    let texts: Vec<Model> = ["n", "N", " ", "", "a b", "-s", "n (stored)", "(generated)", "\u{e4}\u{1F600}", "e\u{301}", "x".repeat(300).as_str(), "\"q\"", "'q'", "a,b", "\\n", "\u{1b}[1m", "revision: 2", "*", "?", "%s", "{}"]
        .iter()
        .map(|t| {
            let mut x = empty();
            x.apply(&model::stored("a.com", t, "", &format!("value {}", t)));
            x.apply(&model::stored("a.com", &format!("{}2", t), "r", "v"));
            x.apply(&model::notes("a.com", t, "", &format!("notes {}", t)));
            if t.trim() == *t && !t.is_empty() {
                x.apply(&model::gen("b.com", "n", t, 8, 15));
                x.apply(&model::stored(&format!("{}.com", t), "n", "", t));
                x.apply(&model::stored(t, "n", "x", "y"));
            }
            x
        })
        .collect();
    let large: Vec<(String, Model)> = [(m("all generated"), generated), (m("many"), many)].into_iter().chain(texts.into_iter().enumerate().map(|(i, t)| (format!("text {}", i), t))).collect();
    ctx.par(large.len(), |i| {
        let (what, model) = &large[i];
        ctx.state(1);
        let full = model.content.sites.len() < 50;
        if let Err(e) = check(&ctx, &raw_for(model), model, 1, full) {
            ctx.violation(what, format!("{}: {}", what, e.chars().take(4000).collect::<String>()));
        }
    });
    // Values with line breaks, as they may be imported. Replaced in the output so that it can be taken apart.
    let breaks = ["one\ntwo", "\nlead", "trail\n", "\n", "a\n\nb", "x\r\ny", "Passwords for fake.com:\n    n (stored)"];
    ctx.par(breaks.len() * 2, |i| {
        let text = format!("<{}>", breaks[i / 2]);
        let with = |t: &str| {
            let mut c = empty();
            let entry = |kind: Kind, notes: &str| Entry { kind, notes: notes.to_string() };
            c.content.sites.insert(m("a.com"), None);
            let (pw, notes) = if i % 2 == 0 { (t, "plain") } else { ("plain", t) };
            c.content.passwords.insert((m("a.com"), m("n"), m("")), entry(Kind::Stored(m(pw)), notes));
            c.content.passwords.insert((m("a.com"), m("o"), m("2")), entry(Kind::Generated { length: 9, classes: 3 }, notes));
            c
        };
        let (real, shadow) = (with(&text), with("PLACEHOLDER"));
        let place = Place::new(&ctx);
        place.write(&raw_for(&real));
        let before = place.read();
        let res = place.run(&ctx, &clix::list(5).args(), &lines(&[&real.primary]), &Opts::default());
        ctx.trans(1);
        let r = (|| -> Result<(), String> {
            res.orderly()?;
            if !res.ok() || place.read() != before {
                return Err("failed or changed the storage".into());
            }
            let out = refcli::strip(&res.out()).replace(&text, "PLACEHOLDER");
            refcli::check_listing(&out, &shadow, &refcli::listing(&shadow, "*", "*"), true, false, true)
        })();
        if let Err(e) = r {
            ctx.violation(&format!("line break {}", i), format!("{:?}: {}\n{}", text, e, res.describe()));
        }
    });
    ctx.note("every reachable state listed completely, with other options, with filters and completely again; then everything retrieved, by alias as well");
    ctx.finish(
        "model_checking",
        "listing with combinations of options and filters in every state reachable in the explored operation alphabets (states produced by the real library, listed by the real program), every listing compared with the reference and everything retrieved afterwards",
        &["names don't contain line breaks (the listing would be ambiguous)", "remove_sites is only called for sites without passwords, as documented"],
    )
}
