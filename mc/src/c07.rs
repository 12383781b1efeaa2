//! C07: aliases are transparent, consistent and never hide passwords.

use crate::c01::{self, empty, populated, PRIMARY};
use crate::cli::lines;
use crate::clix;
use crate::libx::*;
use crate::model::*;
use crate::refc::{self, Content};
use crate::util::Ctx;

/// What has to hold for the content of any storage.
pub fn invariants(c: &Content) -> Result<(), String> {
    for (site, alias) in &c.sites {
        if let Some(target) = alias {
            if target == site {
                return Err(format!("{:?} is an alias for itself", site));
            }
            if let Some(Some(next)) = c.sites.get(target) {
                return Err(format!("alias {:?} leads to {:?} which is an alias for {:?}", site, target, next));
            }
        }
    }
    for id in c.passwords.keys() {
        if let Some(Some(target)) = c.sites.get(&id.0) {
            return Err(format!("password {:?} is hidden, its site is an alias for {:?}", id, target));
        }
    }
    Ok(())
}

/// An operation through an alias has to do the same as on the site itself.
fn substituted(op: &Op, model: &Model) -> Option<Op> {
    let res = |s: &String| model.resolve(s);
    let new = match op {
        Op::SetGen { site, name, rev, len, classes } => Op::SetGen { site: res(site), name: name.clone(), rev: rev.clone(), len: *len, classes: *classes },
        Op::SetStored { site, name, rev, pw } => Op::SetStored { site: res(site), name: name.clone(), rev: rev.clone(), pw: pw.clone() },
        Op::SetNotes { site, name, rev, notes } => Op::SetNotes { site: res(site), name: name.clone(), rev: rev.clone(), notes: notes.clone() },
        Op::Remove { site, name, rev } => Op::Remove { site: res(site), name: name.clone(), rev: rev.clone() },
        Op::SetAlias { site, target } => Op::SetAlias { site: site.clone(), target: res(target) },
        _ => return None,
    };
    if new == *op {
        None
    } else {
        Some(new)
    }
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let extra = |edge: &mut Edge| -> Result<(), String> {
        let opened = refc::open(edge.raw_after, &edge.after.primary)?;
        invariants(&opened.content)?;
        // Same operation on the real site, starting from the same saved state.
        if let Some(op) = substituted(edge.op, edge.before) {
            let mut other = Live::open(Backing::Mock, edge.raw_before, std::path::Path::new("unused"));
            other.exec(&Op::Unlock(edge.before.primary.clone()));
            let out = other.exec(&op);
            if out != *edge.out {
                return Err(format!("{:?} on the real site yields {:?}, through the alias {:?}", op, out, edge.out));
            }
            if refc::open(&other.raw()?, &edge.before.primary)?.content != opened.content {
                return Err(format!("{:?} on the real site has different effects", op));
            }
        }
        Ok(())
    };
    let sites = ["a.com", "b.com", "c.com", "d.com"];
    let make_ops = |sites: &[&str], values: bool| {
        let mut ops = Vec::new();
        for &site in sites {
            ops.push(stored(site, "n", "", "pw"));
            ops.push(remove(site, "n", ""));
            if values {
                ops.push(gen(site, "n", "", 8, 15));
                ops.push(notes(site, "n", "", "text"));
            }
            for &target in sites {
                ops.push(alias(site, target));
            }
            ops.push(unalias(site));
            ops.push(Op::RemoveSites(vec![normalize(site)]));
        }
        ops
    };
    // All alias constellations of four sites (one of them with www. prefix), one password each.
    let mut ops = make_ops(&sites, false);
    ops.extend([alias("www.a.com", "b.com"), alias("a.com", "www.b.com"), alias("www.a.com", "a.com"), alias("a.com", "www.a.com"), stored("www.a.com", "n", "", "pw"), unalias("www.c.com"), remove("www.b.com", "n", "1")]);
    let closure = Explore {
        ctx: &ctx,
        what: "four sites",
        init: vec![empty()],
        ops,
        obs: observations(&["a.com", "www.b.com", "c.com", "d.com"], &["n"], &[""]),
        depth: 40,
        max_states: 100_000,
        backings: vec![Backing::Mock],
        reopen: false,
        reread: false,
        extra: Some(&extra),
    };
    closure.bfs();
    // With different values and kinds, both key orders and a new session.
    let values = Explore {
        ctx: &ctx,
        what: "values",
        init: vec![empty(), populated()],
        ops: make_ops(&["a.com", "b.com", "www.c.com"], true),
        obs: observations(&["a.com", "b.com", "c.com", "www.c.com"], &["n", "m"], &["", "2"]),
        depth: ctx.pick(4, 6),
        max_states: 100_000,
        backings: vec![Backing::Mock, Backing::MockReverse],
        reopen: true,
        reread: true,
        extra: Some(&extra),
    };
    values.bfs();
    // Sequences without merging states
    let seqs = Explore {
        ctx: &ctx,
        what: "alias sequences",
        init: vec![empty()],
        ops: vec![
            alias("a.com", "b.com"),
            alias("b.com", "c.com"),
            alias("c.com", "a.com"),
            alias("www.b.com", "a.com"),
            unalias("a.com"),
            stored("a.com", "n", "", "x"),
            stored("b.com", "n", "", "y"),
            remove("b.com", "n", ""),
        ],
        obs: observations(&["a.com", "b.com", "c.com"], &["n"], &[""]),
        depth: 0,
        max_states: 0,
        backings: vec![Backing::Mock],
        reopen: false,
        reread: false,
        extra: Some(&extra),
    };
    for length in 1..=ctx.pick(5, 6) {
        seqs.sequences(length);
    }
    // More sites: chains built in all orders
    let names = ["a.com", "b.com", "c.com", "d.com", "e.com"];
    let mut hist = Vec::new();
    let mut order = vec![0, 1, 2, 3];
    permutations(&mut order, 0, &mut |o| {
        for password in 0..5 {
            let mut h: Vec<Op> = o.iter().map(|&i| alias(names[i], names[i + 1])).collect();
            h.insert(2, stored(names[password], "n", "", "pw"));
            h.push(stored("a.com", "m", "", "other"));
            h.push(unalias("c.com"));
            h.push(alias("e.com", "www.c.com"));
            h.push(stored("d.com", "k", "", "third"));
            hist.push(h);
        }
    });
    Explore { what: "chains", init: vec![empty()], ops: vec![], obs: vec![], depth: 0, max_states: 0, backings: vec![Backing::Mock, Backing::File], reopen: true, reread: false, extra: Some(&extra), ctx: &ctx }.histories(&hist);
    // Sites whose names have something in common: every ordered pair of them, as aliases for each other and for a third site.
    let related = [
        "example.org", "sub.example.org", "a.sub.example.org", "myexample.org", "example.organic", "example.org.evil.com", "example.org:8080", "example.org/login", "Example.org", "example.com", "example", "org", "www",
        "m.example.org", "example-org", "exampl?.org", "*.example.org", "example.org.", " example.org", "пример.org",
    ];
    let mut hist = Vec::new();
    for x in related {
        for y in related {
            if x == y {
                continue;
            }
            for t in ["third.net", "www.example.org", "sub.example.org"] {
                let both = |pw: bool| {
                    let mut h = vec![alias(x, t), alias(y, t)];
                    if pw {
                        h.insert(0, stored(t, "n", "", "pw"));
                    }
                    h
                };
                for last in [
                    vec![unalias(x), unalias(y)],
                    vec![unalias(x), stored(x, "n", "", "own"), stored(y, "n", "", "other")],
                    vec![alias(x, "fourth.net"), stored(y, "n", "", "other"), unalias(x)],
                    vec![alias(t, "fourth.net"), unalias(x), stored(y, "n", "", "other")],
                    vec![remove(x, "n", ""), alias(x, y), unalias(y)],
                    vec![Op::RemoveSites(vec![normalize(x)]), stored(x, "n", "", "own")],
                ] {
                    let mut h = both(true);
                    h.extend(last);
                    hist.push(h);
                }
                let mut h = both(false);
                h.extend([unalias(x), gen(y, "n", "", 8, 15), alias(x, y), remove(x, "n", ""), alias(y, x)]);
                hist.push(h);
            }
            // Without any third site
            hist.push(vec![stored(x, "n", "", "own"), alias(y, x), stored(y, "m", "", "other"), remove(x, "n", ""), unalias(y), stored(y, "n", "", "third")]);
            hist.push(vec![stored(x, "n", "", "own"), stored(y, "n", "", "other"), alias(y, x), remove(y, "n", ""), alias(y, x), alias(x, y)]);
        }
    }
    let obs = observations(&["example.org", "www.sub.example.org", "third.net"], &["n"], &[""]);
    Explore { what: "related sites", init: vec![empty()], ops: vec![], obs, depth: 0, max_states: 0, backings: vec![Backing::Mock], reopen: false, reread: false, extra: Some(&extra), ctx: &ctx }.histories(&hist);
    // Long names, and very many aliases
    let mut hist = Vec::new();
    for n in c01::lengths(ctx.thorough) {
        let (x, y) = ("x".repeat(n), "x".repeat(n - 1) + "y");
        hist.push(vec![stored(&y, "n", "", "pw"), alias(&x, &y), stored(&x, "m", "", "other"), alias("short.com", &x), unalias(&x), stored(&x, "n", "", "own"), remove("short.com", "n", "")]);
        hist.push(vec![alias(&x, "a.com"), alias(&y, "a.com"), alias("a.com", &x), alias("a.com", "b.com"), unalias(&y)]);
    }
    for many in [20, ctx.pick(300, 1500)] {
        let names: Vec<String> = (0..many).map(|i| format!("alias{}.com", i)).collect();
        let mut h: Vec<Op> = names.iter().map(|n| alias(n, "a.com")).collect();
        hist.push(h.clone());
        h.push(alias("a.com", "b.com"));
        hist.push(h.clone());
        h.extend(names.iter().step_by(2).map(|n| unalias(n)));
        h.extend(names.iter().step_by(4).map(|n| stored(n, "n", "", "own")));
        h.push(stored("b.com", "n", "", "pw"));
        hist.push(h.clone());
        h.extend(names.iter().skip(1).step_by(2).map(|n| alias(n, "alias2.com")));
        hist.push(h);
    }
    Explore { what: "long names, many aliases", init: vec![empty()], ops: vec![], obs: vec![], depth: 0, max_states: 0, backings: vec![Backing::Mock], reopen: true, reread: false, extra: Some(&extra), ctx: &ctx }.whole(&hist);
    // The same with the program itself.
    let mut alphabet: clix::Alphabet = Vec::new();
    let sites = ["a.com", "b.com", "www.c.com"];
    for a in sites {
        for b in sites {
            alphabet.push((clix::alias(a, b), lines(&[PRIMARY])));
        }
        alphabet.push((clix::unalias(a), lines(&[PRIMARY])));
        alphabet.push((clix::show_alias(a), lines(&[PRIMARY])));
        alphabet.push((clix::add_stored(a, "n", None, true), lines(&[PRIMARY, "pw"])));
        alphabet.push((clix::show(a, "n", None), lines(&[PRIMARY])));
        alphabet.push((clix::remove(a, "n", None), lines(&[PRIMARY])));
    }
    alphabet.push((clix::list(5), lines(&[PRIMARY])));
    let check = |_: &crate::cli::Place, _: &Model, step: &clix::Step, _: &crate::refcli::Cmd| invariants(&step.after.content);
    clix::bfs(&ctx, "program", &[empty()], &|_| alphabet.clone(), ctx.pick(4, 12), Some(&check));
    ctx.finish(
        "model_checking",
        "every alias and password operation is performed by the real code in every constellation of aliases and passwords reached; besides comparison with the map model, each operation through an alias is repeated on the real site from the same saved state, and the alias invariants are checked on the decrypted file",
        &["scrypt is replaced by a fast function depending on all inputs", "storages are those produced by the program itself (no alias chains from elsewhere)"],
    )
}

pub fn permutations(v: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k == v.len() {
        f(v);
        return;
    }
    for i in k..v.len() {
        v.swap(k, i);
        permutations(v, k + 1, f);
        v.swap(k, i);
    }
}
