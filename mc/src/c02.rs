//! C02: everything saved is read back unchanged by a later session.

use crate::c01::{empty, full_alphabet, populated, PRIMARY};
use crate::libx::*;
use crate::model::*;
use crate::refc::Content;
use crate::util::Ctx;

/// Texts that have to survive being saved.
pub fn texts(thorough: bool) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    for c in 1u8..=0x7f {
        v.push((c as char).to_string());
        v.push(format!("a{}b", c as char));
    }
    for t in [
        "", "  ", " lead", "trail ", "\\u0041", "\\", "\\\\", "\\\"", "\"quoted\"", "{\"a\":1}", "[]", "null", "true", "</script>", "%41", "&amp;", "a=b&c=d", "line1\nline2\n", "\r\n", "\u{7f}",
        "\u{80}", "\u{9f}", "\u{a0}", "\u{ff}", "\u{100}", "ü", "u\u{308}", "\u{7ff}", "\u{800}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{1F600}", "\u{10ffff}", "\u{202e}abc",
        "\u{d7ff}\u{e000}", "日本語", "عربي", "\u{0}", "a\u{0}b", "_", "site:", "1", "01", "1.0", "-1", "www.", "password", "generated2", "stored",
    ] {
        v.push(t.to_string());
    }
    let max = if thorough { 400 } else { 100 };
    for n in 0..max {
        v.push("x".repeat(n));
        if n % 3 == 0 {
            v.push("é".repeat(n));
            v.push("\"".repeat(n));
        }
    }
    for n in [127usize, 128, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537, 200_000] {
        v.push("z".repeat(n));
        v.push("\u{1F600}".repeat(n / 4));
    }
    v
}

/// All sequences with all divisions into sessions.
fn sessions(ctx: &Ctx, ops: &[Op], length: usize) {
    let n = ops.len();
    let total = n.pow(length as u32);
    let obs = observations(&["a.com", "b.com"], &["n"], &["", "2"]);
    ctx.par(total, |k| {
        let mut rest = k;
        let path: Vec<&Op> = (0..length)
            .map(|_| {
                let op = &ops[rest % n];
                rest /= n;
                op
            })
            .collect();
        for mask in 0..1u32 << (length - 1) {
            let path_file = scratch_file(ctx);
            let mut live = Live::open(Backing::File, &raw_for(&empty()), &path_file);
            live.exec(&Op::Unlock(PRIMARY.to_string()));
            let mut model = empty();
            let mut log = String::new();
            for (i, op) in path.iter().enumerate() {
                if i > 0 && mask >> (i - 1) & 1 == 1 {
                    log += "  -- new session --\n";
                    let again = live.reopen();
                    match again {
                        Ok(l) => live = l,
                        Err(e) => {
                            ctx.violation(&format!("sessions:{}", log), format!("{}=> saved file does not load: {}", log, e));
                            return;
                        }
                    }
                    model.unlocked = true;
                    if live.exec(&Op::Unlock(model.primary.clone())) != Out::Unit {
                        ctx.violation(&format!("sessions:{}", log), format!("{}=> saved file does not unlock", log));
                        return;
                    }
                }
                log += &format!("  {:?}\n", op);
                let expected = model.apply(op);
                let got = live.exec(op);
                let verdict = if matches(&expected, &got) { Ok(()) } else { Err(format!("yields {:?}, expected {:?}", got, expected)) };
                let verdict = verdict.and_then(|_| check_saved(&live, &model)).and_then(|_| check_observations(&mut live, &model, &obs).map(|_| ()));
                if let Err(e) = verdict {
                    ctx.violation(&format!("sessions:{}", log), format!("{}=> {}", log, e));
                    return;
                }
                ctx.eval(1);
            }
            ctx.trans(1);
            ctx.trace(1);
        }
    });
    ctx.note(&format!("all {}^{} operation sequences, each with all {} divisions into sessions", n, length, 1 << (length - 1)));
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let file = Explore {
        ctx: &ctx,
        what: "file",
        init: vec![Model::default(), empty(), populated()],
        ops: {
            let mut ops = full_alphabet(&["a.com", "www.b.com", "c.com"], &["n"], &["", "2"]);
            ops.extend([Op::Lock, Op::Unlock(s(PRIMARY)), Op::Unlock(s("another one")), Op::Reset(s("another one")), Op::Reset(s(PRIMARY))]);
            ops
        },
        obs: observations(&["a.com", "b.com", "c.com"], &["n", "m"], &["1", "2"]),
        depth: ctx.pick(2, 3),
        max_states: 1_000_000,
        backings: vec![Backing::File],
        reopen: true,
        reread: true,
        extra: None,
    };
    file.bfs();

    let few = vec![
        stored("a.com", "n", "", "x"),
        gen("b.com", "n", "2", 8, 3),
        notes("a.com", "n", "1", "t"),
        remove("a.com", "n", ""),
        alias("b.com", "a.com"),
        Op::RemoveSites(vec![s("a.com")]),
        Op::Reset(s("another one")),
    ];
    for length in 1..=ctx.pick(4, 5) {
        sessions(&ctx, &few, length);
    }

    // Every text in every place.
    let all = texts(ctx.thorough);
    let mut hist = Vec::new();
    for t in &all {
        let long = t.len() > 20_000;
        hist.push(vec![stored("a.com", "n", "", t), notes("a.com", "n", "", t), gen("a.com", "n", "2", 9, 5), notes("a.com", "n", "2", t), stored("a.com", "n", "", "p"), notes("a.com", "n", "2", "")]);
        // Zero characters separate the parts of a key, names containing them aren't supported.
        if long || t.contains('\0') {
            continue;
        }
        hist.push(vec![stored(t, "n", "", "p"), gen("a.com", t, "", 5, 2), stored("a.com", "n", t, "q"), notes(t, "n", "", "x"), remove("a.com", t, ""), remove(t, "n", "")]);
        hist.push(vec![stored("a.com", t, t, t), alias(t, "a.com"), stored(t, "other", "", "v"), alias("b.com", t), unalias(t)]);
        hist.push(vec![Op::Reset(t.clone()), stored("a.com", "n", "", "p"), gen("a.com", "n", "2", 9, 5), Op::Lock, Op::Unlock(t.clone()), notes("a.com", "n", "", "x")]);
    }
    for len in 1..=ctx.pick(40, 100) {
        for classes in 1..16 {
            hist.push(vec![gen("a.com", "n", "", len, classes)]);
        }
    }
    // Many entries
    let mut many = Vec::new();
    for i in 0..ctx.pick(60, 300) {
        many.push(stored(&format!("site{}.com", i % 13), &format!("n{}", i), &format!("{}", i % 4), &format!("pw{}", i)));
        if i % 5 == 4 {
            many.push(alias(&format!("alias{}.com", i), &format!("site{}.com", i % 13)));
            many.push(remove(&format!("site{}.com", (i - 3) % 13), &format!("n{}", i - 3), &format!("{}", (i - 3) % 4)));
        }
    }
    hist.push(many);
    let sweep = Explore {
        ctx: &ctx,
        what: "texts",
        init: vec![Model::initial(PRIMARY, Content::default())],
        ops: vec![],
        obs: vec![],
        depth: 0,
        max_states: 0,
        backings: vec![Backing::File],
        reopen: true,
        reread: true,
        extra: None,
    };
    sweep.histories(&hist);
    ctx.count("text histories", hist.len() as u64);
    ctx.count("texts", all.len() as u64);

    ctx.finish(
        "model_checking",
        "every operation is performed by the real Passwords type on a real file in every state reached; the file is then read by the reference reader and by a new session of the program and compared with two plain maps",
        &["scrypt is replaced by a fast function depending on all inputs", "names, sites and revisions without NUL characters"],
    )
}
