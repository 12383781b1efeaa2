//! C01: the vault behaves as a map.

use crate::libx::*;
use crate::model::*;
use crate::refc::{Content, Entry, Kind};
use crate::util::Ctx;

pub const PRIMARY: &str = "primary pw";

pub fn empty() -> Model {
    Model::initial(PRIMARY, Content::default())
}

/// A storage with a bit of everything.
pub fn populated() -> Model {
    let mut m = empty();
    for op in [
        gen("a.com", "n", "", 16, 15),
        stored("a.com", "n", "2", "s3cret"),
        notes("a.com", "n", "2", "note"),
        stored("b.com", "m", "", "other"),
        alias("c.com", "a.com"),
    ] {
        assert_eq!(m.apply(&op), Out::Unit);
    }
    m
}

pub fn full_alphabet(sites: &[&str], names: &[&str], revs: &[&str]) -> Vec<Op> {
    let mut ops = Vec::new();
    for &site in sites {
        for &name in names {
            for &rev in revs {
                ops.push(gen(site, name, rev, 8, 15));
                ops.push(stored(site, name, rev, "pw"));
                ops.push(notes(site, name, rev, "text"));
                ops.push(remove(site, name, rev));
            }
        }
        for &target in sites {
            ops.push(alias(site, target));
        }
        ops.push(unalias(site));
        ops.push(Op::RemoveSites(vec![s(site)]));
    }
    ops
}

/// Texts that must be told apart (or, for www., not).
pub fn site_variants() -> Vec<String> {
    let mut v: Vec<String> = [
        "a.com", "www.a.com", "A.com", "WWW.a.com", "Www.a.com", "www.A.com", "a.com.", "a.co", ".a.com", "a.com ", " a.com", "a", "", "a.comm", "aa.com",
        "b.com", "www", "www.", "www.b.com", "www.www.a.com", "www.www.b.com", "www.www.www.a.com", "www.www.", "www.www", "www..a.com", "www.com", "com", "ww.a.com", "wwww.a.com", "www2.a.com", "m.a.com", "a.com/", "http://a.com", "a.com:80", "a:com", "a_com", "a*", "*", "?.com",
        "site:", "ä.com", "a\u{308}.com", "\u{1F600}", "\"a\"", "a\\b", "a\tb", "a\nb", "{}", "0", "1",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    v.push("x".repeat(64));
    v.push("x".repeat(65));
    v.push("x".repeat(300));
    v.push("y".to_string() + &"x".repeat(299));
    v
}
pub fn name_variants() -> Vec<String> {
    let mut v: Vec<String> = [
        "n", "N", "", " ", "n ", " n", "nn", "m", "n:1", "n\t", "1", "2", "01", "www.n", "n*", "*", "?", "me@a.com", "ñ", "n\u{303}", "\u{1F600}", "\"", "\\", "n\nm", "'", "_", "name",
    ]
    .iter()
    .map(|x| x.to_string())
    .collect();
    v.push("n".repeat(64));
    v.push("n".repeat(65));
    v.push("n".repeat(300));
    v
}
pub fn rev_variants() -> Vec<String> {
    let mut v: Vec<String> = ["", "1", "2", "01", "10", "11", " ", " 1", "1 ", "0", "-1", "+1", "1.0", "one", "yet another", "x", "X", "12", "21", "\u{661}", "1\n", "*"]
        .iter()
        .map(|x| x.to_string())
        .collect();
    v.push("1".repeat(100));
    v
}

/// Sizes of texts around which something might change.
pub fn lengths(thorough: bool) -> Vec<usize> {
    let mut v = vec![16, 31, 32, 33, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 2048, 4096, 4097, 10_000];
    if thorough {
        v.extend((1..130).chain([511, 513, 1023, 1500, 2047, 2049, 4095, 8191, 8192, 8193, 16_384, 32_768, 65_535, 65_536, 65_537, 100_000]));
    }
    v
}

/// Storages in which the two ids are used together.
pub fn pair_history(a: (&str, &str, &str), b: (&str, &str, &str)) -> Vec<Op> {
    vec![
        stored(a.0, a.1, a.2, "first"),
        notes(a.0, a.1, a.2, "remark"),
        gen(b.0, b.1, b.2, 12, 7),
        notes(b.0, b.1, b.2, "other remark"),
        stored(b.0, b.1, b.2, "second"),
        remove(a.0, a.1, a.2),
        notes(b.0, b.1, b.2, "third"),
    ]
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let both = vec![Backing::Mock, Backing::MockReverse];

    // One site under three names, two revisions, all kinds of changes: the complete state space.
    let mut ops = Vec::new();
    for site in ["a.com", "www.a.com", "b.com"] {
        for rev in ["1", "2"] {
            ops.push(gen(site, "n", rev, 16, 15));
            ops.push(gen(site, "n", rev, 4, 1));
            ops.push(stored(site, "n", rev, "s1"));
            ops.push(notes(site, "n", rev, ""));
            ops.push(notes(site, "n", rev, "text"));
            ops.push(remove(site, "n", rev));
        }
    }
    ops.extend([alias("b.com", "a.com"), unalias("b.com"), Op::RemoveSites(vec![s("a.com")]), Op::RemoveSites(vec![s("a.com"), s("b.com")])]);
    ops.push(Op::RemoveSites(vec![s("b.com"), s("missing.com")]));
    let close = Explore {
        ctx: &ctx,
        what: "one name, two revisions",
        init: vec![empty()],
        ops,
        obs: observations(&["a.com", "www.a.com", "b.com", "www.b.com"], &["n", "m"], &["", "1", "2"]),
        depth: ctx.pick(4, 30),
        max_states: 40_000,
        backings: vec![Backing::Mock],
        reopen: false,
        reread: false,
        extra: None,
    };
    close.bfs();

    // Wide alphabet, short histories, from an empty and a populated storage.
    let wide = Explore {
        ctx: &ctx,
        what: "wide alphabet",
        init: vec![empty(), populated()],
        ops: full_alphabet(&["a.com", "www.b.com", "c.com"], &["n", "m"], &["", "2"]),
        obs: observations(&["a.com", "b.com", "www.c.com"], &["n", "m", "N"], &["1", "2"]),
        depth: ctx.pick(2, 3),
        max_states: 2_000_000,
        backings: both.clone(),
        reopen: true,
        reread: false,
        extra: None,
    };
    wide.bfs();

    // All sequences without merging states, on a few operations that collide.
    let seqs = Explore {
        ctx: &ctx,
        what: "colliding operations",
        init: vec![empty()],
        ops: vec![
            stored("a.com", "n", "", "x"),
            gen("www.a.com", "n", "1", 8, 3),
            notes("a.com", "n", "1", "t"),
            remove("b.com", "n", ""),
            alias("b.com", "www.a.com"),
            unalias("b.com"),
            stored("b.com", "n", "2", "y"),
        ],
        obs: observations(&["a.com", "b.com"], &["n"], &["", "2"]),
        depth: 0,
        max_states: 0,
        backings: vec![Backing::Mock],
        reopen: false,
        reread: false,
        extra: None,
    };
    for len in 1..=ctx.pick(5, 6) {
        seqs.sequences(len);
    }

    // Every pair of texts in every position has to make different entries (or the same where stated).
    let mut hist = Vec::new();
    let sites = site_variants();
    let names = name_variants();
    let revs = rev_variants();
    for a in &sites {
        for b in &sites {
            hist.push(pair_history((a, "n", "2"), (b, "n", "2")));
        }
    }
    for a in &names {
        for b in &names {
            hist.push(pair_history(("a.com", a, ""), ("a.com", b, "")));
        }
    }
    for a in &revs {
        for b in &revs {
            hist.push(pair_history(("a.com", "n", a), ("a.com", "n", b)));
        }
    }
    // Text moving across the boundaries of site, name and revision.
    let parts = ["a", "b", "ab", "", "1", "a:b"];
    for a in parts {
        for b in parts {
            for c in parts {
                for d in parts {
                    hist.push(pair_history((a, b, c), (b, a, d)));
                    if ctx.thorough {
                        hist.push(pair_history((a, b, c), (c, d, a)));
                    }
                }
            }
        }
    }
    // Several entries of one site and sites sharing beginnings.
    let mut many = Vec::new();
    for i in 0..ctx.pick(30, 120) {
        many.push(stored(&format!("site{}.com", i % 7), &format!("n{}", i), "", &format!("pw{}", i)));
        many.push(notes(&format!("site{}.com", i % 7), &format!("n{}", i), "1", &format!("notes {}", i)));
        if i % 3 == 2 {
            many.push(remove(&format!("site{}.com", (i - 2) % 7), &format!("n{}", i - 2), ""));
        }
    }
    hist.push(many);
    let sweep = Explore {
        ctx: &ctx,
        what: "argument pairs",
        init: vec![empty()],
        ops: vec![],
        obs: vec![],
        depth: 0,
        max_states: 0,
        backings: vec![Backing::Mock],
        reopen: false,
        reread: false,
        extra: None,
    };
    // Long texts differing at the beginning or the end only
    for n in lengths(ctx.thorough) {
        let text = "x".repeat(n);
        for other in [format!("{}y", text), format!("{}y", &text[1..]), format!("y{}", &text[1..]), text[1..].to_string(), text.clone()] {
            hist.push(pair_history((&text, "n", "2"), (&other, "n", "2")));
            hist.push(pair_history(("a.com", &text, "2"), ("a.com", &other, "2")));
            hist.push(pair_history(("a.com", "n", &text), ("a.com", "n", &other)));
        }
    }
    sweep.histories(&hist);
    // Many entries, every kind of id
    let (many, few) = (ctx.pick(300, 1100), 5);
    let mut long = Vec::new();
    for kind in 0..4 {
        let id = |i: usize| match kind {
            0 => (format!("site{}.com", i), s("n"), s("")),
            1 => (s("a.com"), format!("n{}", i), s("")),
            2 => (s("a.com"), s("n"), format!("{}", i + 1)),
            _ => (format!("site{}.com", i % 20), format!("n{}", i / 20), format!("{}", i % 3 + 1)),
        };
        let add = |h: &mut Vec<Op>, i: usize| {
            let (site, name, rev) = id(i);
            h.push(if i % 2 == 0 { stored(&site, &name, &rev, &format!("pw{}", i)) } else { gen(&site, &name, &rev, 4 + i % 21, 1 + (i % 15) as u8) });
            if i % 3 == 0 {
                h.push(notes(&site, &name, &rev, &format!("notes {}", i)));
            }
        };
        let mut h = Vec::new();
        (0..many).for_each(|i| add(&mut h, i));
        long.push(h.clone());
        for i in (0..many).rev().filter(|i| i % few != 0) {
            let (site, name, rev) = id(i);
            h.push(remove(&site, &name, &rev));
        }
        long.push(h.clone());
        (0..many).filter(|i| i % 7 == 0).for_each(|i| add(&mut h, i));
        long.push(h);
    }
    // The same entry again and again
    let mut again = Vec::new();
    for i in 0..many {
        again.push(stored("a.com", "n", "", &format!("pw{}", i)));
        again.push(notes("a.com", "n", "", &format!("notes {}", i)));
        if i % 3 == 0 {
            again.push(remove("a.com", "n", ""));
        }
        if i % 5 == 0 {
            again.push(gen("a.com", "n", "", 16, 15));
        }
    }
    long.push(again);
    Explore { what: "many entries", reopen: true, backings: vec![Backing::Mock, Backing::File], ..sweep }.whole(&long);
    ctx.count("long histories", long.len() as u64);
    ctx.count("argument pair histories", hist.len() as u64);
    let _ = Entry { kind: Kind::Stored(String::new()), notes: String::new() };

    ctx.finish(
        "model_checking",
        "every operation of the alphabet is performed by the real Passwords type in every state reached; result, decrypted file content and all lookups are compared with two plain maps",
        &["scrypt is replaced by a fast function depending on all inputs", "the storage is in memory with a separate saved copy, key order ascending or descending"],
    )
}
