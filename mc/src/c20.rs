//! C20: name and site filters select exactly the matching entries.

use crate::c01::empty;
use crate::cli::*;
use crate::clix;
use crate::libx::*;
use crate::model::{self, wild, Model, Op, Out};
use crate::util::Ctx;
use std::sync::atomic::{AtomicU64, Ordering};

/// All texts over the alphabet up to a length.
fn words(alphabet: &[char], max: usize) -> Vec<String> {
    let mut all = vec![String::new()];
    let mut last = vec![String::new()];
    for _ in 0..max {
        let mut next = Vec::new();
        for w in &last {
            for c in alphabet {
                next.push(format!("{}{}", w, c));
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}

const SPECIAL: [char; 34] = [
    'a', 'A', '.', '\\', '[', ']', '{', '}', '^', '$', '+', '(', '|', '\u{e9}', 'e', '\u{301}', '\u{1F600}', '\n', ' ', '%', '_', '-', '!', '/', ',', '"', '\'', '\t', '\u{df}', 'S', '0', '1', '\u{130}', 'i',
];

/// All patterns against a site with passwords of all names and against aliases and sites of all names.
fn library(ctx: &Ctx, what: &str, patterns: &[String], names: &[String], backing: Backing) {
    let mut by_name = empty();
    for n in names {
        by_name.apply(&model::stored("site.com", n, "", "x"));
    }
    by_name.apply(&model::alias("alias.com", "site.com"));
    // Other sites' passwords never show up.
    by_name.apply(&model::stored("other.com", "a", "", "y"));
    by_name.apply(&model::stored("other.com", "ab", "", "y"));
    // Sites of all these names, some of them aliases for another one.
    let mut by_site = empty();
    for (i, n) in names.iter().enumerate() {
        if i % 3 == 2 {
            by_site.apply(&model::alias(n, &names[(i * 7 + 1) % names.len()]));
        } else {
            by_site.apply(&model::stored(n, "n", "", "x"));
        }
    }
    let raws = [raw_for(&by_name), raw_for(&by_site)];
    let matched = AtomicU64::new(0);
    let chunk = 64;
    ctx.par(patterns.len().div_ceil(chunk), |k| {
        let mut live: Vec<Live> = raws.iter().map(|r| Live::open(backing, r, &scratch_file(ctx))).collect();
        let mut models = [by_name.clone(), by_site.clone()];
        for l in live.iter_mut() {
            l.exec(&Op::Unlock(by_name.primary.clone()));
        }
        for p in patterns.iter().skip(k * chunk).take(chunk) {
            let ops: [(usize, Op); 4] = [
                (0, Op::List { site: "site.com".into(), pattern: p.clone() }),
                (0, Op::List { site: "www.alias.com".into(), pattern: p.clone() }),
                (1, Op::ListSites { pattern: p.clone() }),
                (1, Op::List { site: names[(p.len() * 31 + 5) % names.len()].clone(), pattern: p.clone() }),
            ];
            for (i, (which, op)) in ops.iter().enumerate() {
                if i == 1 && p.len() > 4 {
                    continue;
                }
                let expect = models[*which].apply(op);
                let got = live[*which].exec(op);
                ctx.eval(names.len() as u64);
                ctx.trans(1);
                if let Out::Passwords(v) = &expect {
                    matched.fetch_add(v.len() as u64, Ordering::Relaxed);
                }
                if expect != got {
                    let brief = |o: &Out| match o {
                        Out::Passwords(v) => v.iter().map(|p| p.0 .1.clone()).collect::<Vec<_>>(),
                        Out::Sites(v) => v.iter().map(|p| p.0.clone()).collect(),
                        o => vec![format!("{:?}", o)],
                    };
                    let (e, g) = (brief(&expect), brief(&got));
                    let missing: Vec<_> = e.iter().filter(|x| !g.contains(x)).take(20).collect();
                    let extra: Vec<_> = g.iter().filter(|x| !e.contains(x)).take(20).collect();
                    ctx.violation(
                        &format!("{:?} in {}", p, what),
                        format!("{:?}\nleft out: {:?}\nshown although not matching: {:?}\n({} shown, {} expected)", op, missing, extra, g.len(), e.len()),
                    );
                }
            }
        }
    });
    ctx.state(patterns.len() as u64 * names.len() as u64);
    ctx.count("matching pairs", matched.into_inner());
    ctx.note(&format!("library, {}: {} patterns against {} names, as password names and as names and alias targets of sites", what, patterns.len(), names.len()));
}

/// The list command with all site and name filters.
fn program(ctx: &Ctx, what: &str, model: &Model, site_filters: &[String], name_filters: &[Option<String>], flags: u8) {
    let bytes = clix::initial_bytes(model);
    let input = lines(&[&model.primary]);
    let n = name_filters.len();
    let mut start = model.clone();
    start.unlocked = false;
    ctx.par(site_filters.len() * n, |k| {
        let cmd = clix::list_for(&site_filters[k / n], name_filters[k % n].as_deref(), flags);
        let place = Place::new(ctx);
        let r = clix::step(ctx, &place, bytes.as_deref(), &start, &cmd, &input, &Opts::default());
        ctx.trans(1);
        ctx.trace(1);
        if let Err(e) = r {
            ctx.violation(&format!("{:?} in {}", cmd, what), format!("{}\n=> {}", cmd.args().join(" "), e));
        }
    });
    ctx.state((site_filters.len() * n) as u64);
    ctx.note(&format!("list command, {}: {} site filters with {} name filters on {} sites and {} passwords", what, site_filters.len(), n, model.content.sites.len(), model.content.passwords.len()));
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    // Consistency of the reference with the definition, spelled out differently.
    fn naive(p: &[char], t: &[char]) -> bool {
        match p.first() {
            None => t.is_empty(),
            Some('*') => (0..=t.len()).any(|n| naive(&p[1..], &t[n..])),
            Some('?') => !t.is_empty() && naive(&p[1..], &t[1..]),
            Some(c) => t.first() == Some(c) && naive(&p[1..], &t[1..]),
        }
    }
    for p in words(&['a', 'b', '*', '?'], 4) {
        for t in words(&['a', 'b'], 4) {
            let (pc, tc): (Vec<char>, Vec<char>) = (p.chars().collect(), t.chars().collect());
            assert_eq!(naive(&pc, &tc), wild(&p, &t), "{:?} {:?}", p, t);
        }
    }
    // Wildcards and two letters
    let names = words(&['a', 'b'], ctx.pick(6, 8));
    library(&ctx, "two letters", &words(&['a', 'b', '*', '?'], ctx.pick(6, 8)), &names, Backing::Mock);
    // Longer patterns with few wildcards: backtracking
    let mut long = Vec::new();
    for w in words(&['a', 'b'], ctx.pick(3, 4)).iter() {
        for x in words(&['a', 'b'], ctx.pick(3, 4)).iter() {
            for y in words(&['a', 'b'], 2).iter() {
                for form in ["*{}*{}*{}", "{}*{}*{}", "{}*{}?{}", "*{}?{}*{}", "**{}{}*{}", "?{}*{}{}*"] {
                    let mut parts = form.split("{}");
                    long.push([parts.next().unwrap(), w, parts.next().unwrap(), x, parts.next().unwrap(), y, parts.next().unwrap()].concat());
                }
            }
        }
    }
    long.sort();
    long.dedup();
    library(&ctx, "long patterns", &long, &words(&['a', 'b'], ctx.pick(7, 9)), Backing::MockReverse);
    // Wildcard characters in names
    library(&ctx, "wildcards in names", &words(&['a', '*', '?'], ctx.pick(4, 6)), &words(&['a', '*', '?'], ctx.pick(4, 5)), Backing::File);
    // Upper and lower case, a third letter
    library(&ctx, "case", &words(&['a', 'A', '*', '?'], 4), &words(&['a', 'A', 'b'], 4), Backing::Mock);
    // Special characters
    let mut special_patterns = words(&[&SPECIAL[..], &['*', '?']].concat(), 2);
    for c in SPECIAL {
        for form in ["*{}", "{}*", "?{}", "{}?", "*{}*", "a{}*", "*{}a", "{}{}*", "?{}?", "**{}"] {
            special_patterns.push(form.replace("{}", &c.to_string()));
        }
    }
    let mut special_names = words(&SPECIAL, 2);
    special_names.extend(["www.a", "www.www.a", "ss", "SS", "strasse", "stra\u{df}e", "a.com", "sub.a.com", "A.COM", "a\u{0}", "n\u{0}m"].map(|s| s.to_string()));
    special_patterns.extend(["www.*", "*.a", "*ss*", "*.com", "*.COM", "a*\u{0}", "stra?e", "stra??e", "www.a", "*www.a*", "?ww.a"].map(|s| s.to_string()));
    library(&ctx, "special characters", &special_patterns, &special_names, Backing::Mock);
    // Long texts, many wildcards
    let mut names: Vec<String> = [10, 20, 30, 100, 1000].iter().flat_map(|&n| ["a".repeat(n), "a".repeat(n) + "b", "ab".repeat(n), "a".repeat(n) + "b" + &"a".repeat(n), "\u{e4}".repeat(n)]).collect();
    names.push(String::new());
    let mut patterns = Vec::new();
    for n in [1, 2, 5, 10, 15, 20] {
        for unit in ["*a", "a*", "*?", "?*", "*a?", "a*b", "**", "*\u{e4}", "?", "*aab", "*ab*a"] {
            for end in ["", "b", "*", "a", "?", "*b"] {
                patterns.push(unit.repeat(n) + end);
            }
        }
    }
    library(&ctx, "long texts", &patterns, &names, Backing::Mock);

    // The program. Sites with and without passwords, aliases to both.
    let mut m = empty();
    let sites = words(&['a', 'b'], 3);
    let pw = |m: &mut Model, site: &str, name: &str, rev: &str, v: &str| {
        m.apply(&model::stored(site, name, rev, v));
    };
    for (i, site) in sites.iter().enumerate().skip(1) {
        match i % 4 {
            0 => {
                m.apply(&model::alias(site, &sites[(i * 5 + 3) % sites.len()]));
            }
            1 => pw(&mut m, site, "a", "", &format!("value {}", i)),
            2 => {
                pw(&mut m, site, "ab", "", &format!("value {}", i));
                pw(&mut m, site, "b", "2", &format!("value {} 2", i));
                pw(&mut m, site, "b", "", "v");
                m.apply(&model::gen(site, "", "", 8, 5));
            }
            _ => {
                pw(&mut m, site, "aa", "", &format!("value {}", i));
                m.apply(&model::alias(&format!("{}.alias", site), site));
            }
        }
    }
    let filters = words(&['a', 'b', '*', '?'], ctx.pick(3, 4));
    let names: Vec<Option<String>> = [None].into_iter().chain(["*", "a", "?", "a*", "*b", "**", "", "?*", "*a*b*", "B"].into_iter().map(|s| Some(s.to_string()))).collect();
    program(&ctx, "two letters", &m, &filters, &names[..ctx.pick(4, names.len())], 5);
    let all_names: Vec<Option<String>> = words(&['a', 'b', '*', '?'], 3).into_iter().map(Some).collect();
    program(&ctx, "all name filters", &m, &["*", "a*", "*.alias", "?"].map(|s| s.to_string())[..ctx.pick(2, 4)], &all_names, 1);
    // Realistic and special names
    let mut m = empty();
    for (i, site) in ["example.com", "mail.example.com", "EXAMPLE.com", "example.org", "exampleXcom", "a+b.com", "[a].com", "a*b.com", "a?b.com", "b\u{fc}cher.de", "\u{1F600}.com", "www.www.x.com", "-x.com", "", " ", "user@host:8080", "sss.com", "1.11.111.com", "x\\y"].iter().enumerate() {
        for name in ["user", "USER", "user@example.com", "u*er", "\u{fc}ser", "first last"].iter().skip(i % 3).step_by(1 + i % 2) {
            pw(&mut m, site, name, if i % 2 == 0 { "" } else { "old" }, &format!("pw {} {}", site, name));
        }
    }
    m.apply(&model::alias("alias.net", "example.com"));
    m.apply(&model::alias("example.net", "EXAMPLE.com"));
    m.apply(&model::alias("shop.sss.com", "sss.com"));
    m.apply(&model::alias("nowhere.net", "target.net"));
    let filters: Vec<String> = [
        "*", "**", "", "?", "example.com", "Example.com", "EXAMPLE.COM", "*.com", "*.COM", "example.*", "example?com", "*example.com", "mail.*", "www.example.com", "www.*", "www.www.x.com", "www.x.com", "x.com", "*x.com", "[a].com", "[ab].com", "a*b.com", "a?b.com",
        "a+b.com", "a++b.com", "b?cher.de", "b??cher.de", "*.de", "?.com", "-x.com", "-*", "--", "-r", " ", " *", "user@*", "*:8080", "*ss.com", "*s.com", "*1.111.com", "*11.111.com", "alias.net", "*.net", "target.net", "n*", "nowhere.net", "x\\y", "x\\\\y", "x?y",
        "\\*", "*\\*", "(example|mail).com", "e.*", "^example.com$", "{example,mail}.com", "example.com,example.org", "example.com ", " example.com", "\u{1F600}*", "*\u{301}*",
    ]
    .map(|s| s.to_string())
    .to_vec();
    let names: Vec<Option<String>> =
        [None].into_iter().chain(["*", "user", "User", "USER", "u*er", "?ser", "*@*", "user@example.com", "", "first*", "first last", "*last", "\u{fc}*", "[u]ser", "*r", "-s", "--", "**", "?"].into_iter().map(|s| Some(s.to_string()))).collect();
    program(&ctx, "realistic names", &m, &filters, &names[..ctx.pick(6, names.len())], 7);
    ctx.finish(
        "model_checking",
        "every pattern up to the stated length over letters and wildcards against vaults holding every name up to the stated length, for the library's two filters and for the list command, compared with a matcher working by dynamic programming",
        &["characters are Unicode scalar values", "the reference matcher was compared with the literal recursive definition for all short patterns"],
    )
}
