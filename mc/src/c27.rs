//! C27: every command works on exactly the storage file named, by default the one in the user's configuration directory.

use crate::c01::{empty, populated, PRIMARY};
use crate::cli::*;
use crate::clix;
use crate::model::{self, Model};
use crate::refc;
use crate::refcli::{self, Cmd};
use crate::util::Ctx;
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};

const PID: u32 = 4711;

#[derive(Clone)]
struct Way {
    what: String,
    first: Vec<OsString>,
    /// The file meant, below the directory
    target: PathBuf,
    /// What is reported as its name
    named: OsString,
    env: Vec<(String, OsString)>,
    cwd: Option<&'static str>,
    /// The file is reached by a symbolic link of this name
    link: Option<PathBuf>,
    /// A symbolic link to a directory
    dir_link: Option<(&'static str, &'static str)>,
    no_home: bool,
}

fn os(b: &[u8]) -> OsString {
    OsString::from_vec(b.to_vec())
}
fn join(a: &str, b: &OsStr) -> OsString {
    let mut v = a.as_bytes().to_vec();
    v.extend(b.as_bytes());
    OsString::from_vec(v)
}

/// DIR stands for the directory.
const DIR: &str = "DIR";

fn ways(thorough: bool) -> Vec<Way> {
    let mut v = Vec::new();
    let mut with = |given: OsString, target: PathBuf, cwd: Option<&'static str>, link: Option<PathBuf>| {
        let dash = given.as_bytes().first() == Some(&b'-');
        let odd = given.as_bytes().first() == Some(&b'=');
        let mut forms: Vec<(&str, Vec<OsString>)> = vec![("--storage=", vec![join("--storage=", &given)])];
        if !dash {
            forms.push(("-c ", vec!["-c".into(), given.clone()]));
            forms.push(("--storage ", vec!["--storage".into(), given.clone()]));
        }
        if !odd {
            forms.push(("-cX", vec![join("-c", &given)]));
        }
        forms.push(("-c=", vec![join("-c=", &given)]));
        for (f, args) in forms {
            for flag in 0..2 {
                let mut first = args.clone();
                first.insert(if flag == 0 { 0 } else { args.len() }, "--stdin-passwords".into());
                v.push(Way { what: format!("{}{}", f, given.to_string_lossy()), first, target: target.clone(), named: given.clone(), env: vec![], cwd, link: link.clone(), dir_link: None, no_home: false });
            }
        }
    };
    let mut names: Vec<Vec<u8>> = [
        "storage.json", "other.json", "STORAGE.JSON", "Storage.json", ".hidden", "with blank.json", " lead.json", "trail.json ", "-dash.json", "--", "-", "-c", "=x.json", "\u{fc}ml\u{e4}ut.json", "u\u{308}mla\u{308}ut.json", "a'b\"c", "back\\slash.json", "new\nline", "*.json", "?", "[a-z]",
        "storage.json~", "storage.json.tmp", "storage.json.bak", "storage.json.4711-0.tmp", "$HOME", "~", "~root", "%HOME%", "storage", "storage.", "storage.xml", "a:b", "C:\\x.json", "file:x", "null", "0", "list", "help", "pfp", "PfP", "show a.com n", "\u{1F600}", "a,b", "a;b", "a&b", "@x", "#x", "x#y", "history.txt", "Cargo.toml", ".pfp-4711-0.tmp", ".pfp-4711-1.tmp",
        "\u{200b}x", "x\u{202e}y", "\t", "json",
    ]
    .iter()
    .map(|n| n.as_bytes().to_vec())
    .collect();
    names.extend([b"\xff.json".to_vec(), b"a\xc3".to_vec(), b"\x01\x7f".to_vec()]);
    for n in [100usize, 200, 230, 235, 240, 243, 244, 245, 250, 254, 255] {
        names.push(vec![b'n'; n]);
    }
    if thorough {
        for n in 1..256 {
            names.push(vec![b'k'; n]);
        }
        for b in 1..=255u8 {
            if b != b'/' {
                names.push(vec![b]);
                names.push(vec![b'x', b, b'y']);
            }
        }
        names.retain(|n| n != b".");
    }
    for n in &names {
        with(os(n), os(n).into(), None, None);
    }
    // Paths of all kinds
    for (given, target, cwd) in [
        ("./storage.json", "storage.json", None),
        (".//storage.json", "storage.json", None),
        ("home/../storage.json", "storage.json", None),
        ("sub/storage.json", "sub/storage.json", None),
        ("sub//deep/./storage.json", "sub/deep/storage.json", None),
        ("home/.config/PfP/storage.json", "home/.config/PfP/storage.json", None),
        ("home/.config/pfp/storage.json", "home/.config/pfp/storage.json", None),
        ("home/storage.json", "home/storage.json", None),
        ("../storage.json", "storage.json", Some("home")),
        ("storage.json", "home/storage.json", Some("home")),
        ("~/x.json", "~/x.json", None),
        ("$HOME/x.json", "$HOME/x.json", None),
        ("sub with blank/x.json", "sub with blank/x.json", None),
        ("\u{fc}/\u{e4}", "\u{fc}/\u{e4}", None),
        ("DIR/storage.json", "storage.json", None),
        ("DIR/sub/storage.json", "sub/storage.json", Some("home")),
        ("DIR//sub/../storage.json", "storage.json", Some("home")),
        ("DIR/a b/c.json", "a b/c.json", None),
    ] {
        with(given.into(), target.into(), cwd, None);
    }
    for (given, link, target) in [("link.json", "link.json", "real/data.json"), ("DIR/link.json", "link.json", "data"), ("sub/link", "sub/link", "storage.json"), ("./link.json", "link.json", "home/.config/PfP/other.json")] {
        with(given.into(), target.into(), None, Some(link.into()));
    }
    // Directories that are symbolic links
    for (given, target, cwd, dir_link) in [
        ("dl/storage.json", "deep/er/storage.json", None, ("dl", "deep/er")),
        ("dl/../storage.json", "deep/storage.json", None, ("dl", "deep/er")),
        ("DIR/dl/../storage.json", "deep/storage.json", Some("home"), ("dl", "deep/er")),
        ("./sub/dl/.././other.json", "home/.config/other.json", None, ("sub/dl", "home/.config/PfP")),
        ("../storage.json", "deep/storage.json", Some("dl"), ("dl", "deep/er")),
        ("storage.json", "deep/er/storage.json", Some("dl"), ("dl", "deep/er")),
        ("dl/../../storage.json", "storage.json", None, ("dl", "deep/er")),
    ] {
        let first = args(&["--stdin-passwords", "-c", given]).into_iter().map(|a| a.into()).collect();
        v.push(Way { what: format!("-c {}, {} being a link to {}", given, dir_link.0, dir_link.1), first, target: target.into(), named: given.into(), env: vec![], cwd, link: None, dir_link: Some(dir_link), no_home: false });
    }
    // By default
    let env = |list: &[(&str, &str)]| -> Vec<(String, OsString)> { list.iter().map(|(k, v)| (k.to_string(), v.into())).collect() };
    let mut default = |what: &str, target: &str, e: &[(&str, &str)], cwd: Option<&'static str>| {
        let named = join("DIR/", OsStr::new(target));
        v.push(Way { what: format!("default, {}", what), first: vec!["--stdin-passwords".into()], target: target.into(), named, env: env(e), cwd, link: None, dir_link: None, no_home: false });
    };
    let usual = "home/.config/PfP/storage.json";
    default("home", usual, &[], None);
    default("home, elsewhere", usual, &[], Some("home"));
    default("home is /home/x like", "users/j d/.config/PfP/storage.json", &[("HOME", "DIR/users/j d")], None);
    default("home with umlaut", "users/\u{fc}/.config/PfP/storage.json", &[("HOME", "DIR/users/\u{fc}")], None);
    default("configuration elsewhere", "cfg/PfP/storage.json", &[("XDG_CONFIG_HOME", "DIR/cfg")], None);
    default("configuration elsewhere with blank", "c f g/PfP/storage.json", &[("XDG_CONFIG_HOME", "DIR/c f g")], None);
    default("relative configuration ignored", usual, &[("XDG_CONFIG_HOME", "cfg")], None);
    default("empty configuration ignored", usual, &[("XDG_CONFIG_HOME", "")], None);
    default("other locations", usual, &[("XDG_DATA_HOME", "DIR/cfg"), ("XDG_CACHE_HOME", "DIR/cfg"), ("XDG_STATE_HOME", "DIR/cfg"), ("XDG_CONFIG_DIRS", "DIR/cfg"), ("XDG_DATA_DIRS", "DIR/cfg"), ("XDG_RUNTIME_DIR", "DIR/cfg")], None);
    default("other variables", usual, &[("APPDATA", "DIR/cfg"), ("LOCALAPPDATA", "DIR/cfg"), ("PWD", "DIR/cfg"), ("USERPROFILE", "DIR/cfg"), ("TMPDIR", "DIR/cfg"), ("PFP_STORAGE", "DIR/cfg/storage.json"), ("STORAGE", "DIR/cfg/storage.json"), ("PFP_CLI_STORAGE", "DIR/cfg/storage.json"), ("USER", "other"), ("LOGNAME", "other"), ("SUDO_USER", "other")], None);
    v
}

fn expand(x: &OsStr, dir: &Path) -> OsString {
    let b = x.as_bytes();
    match b.windows(DIR.len() + 1).position(|w| w == b"DIR/") {
        Some(p) => {
            let mut out = b[..p].to_vec();
            out.extend(dir.as_os_str().as_bytes());
            out.extend(&b[p + DIR.len()..]);
            OsString::from_vec(out)
        }
        None => x.to_os_string(),
    }
}

fn decoy_model() -> Model {
    let mut m = empty();
    m.apply(&model::stored("decoy.example", "n", "", "decoy value"));
    m.apply(&model::stored("a.com", "n", "", "decoy for a.com"));
    m.apply(&model::stored("a.com", "n", "2", "decoy number two"));
    m
}

/// Files which might be mistaken for it
fn decoys(way: &Way) -> Vec<PathBuf> {
    let target = way.link.as_ref().unwrap_or(&way.target);
    let name = target.file_name().unwrap();
    let dir = target.parent().unwrap();
    let mut v: Vec<PathBuf> = ["storage.json", "home/storage.json", "home/.config/PfP/storage.json", "home/.config/pfp/storage.json", "home/.config/storage.json", "home/.local/share/PfP/storage.json", "home/.pfp/storage.json", "cfg/storage.json", "cfg/PfP/storage.json", "cfg/pfp/storage.json", "home/cfg/PfP/storage.json", "pfp/storage.json", "PfP/storage.json", "storage"]
        .iter()
        .map(|x| x.into())
        .collect();
    for suffix in ["~", ".tmp", ".bak", ".json", ".new", ".4711-0.tmp", ".lock", ".old"] {
        let mut n = name.to_os_string();
        n.push(suffix);
        v.push(dir.join(n));
    }
    if let Some(n) = name.to_str() {
        for other in [n.to_lowercase(), n.to_uppercase(), n.trim().to_string(), n.trim_start_matches(['-', '=', '.', '~', '$']).to_string(), n.replace('\\', "/"), n.chars().take(n.chars().count().saturating_sub(1)).collect(), format!("={}", n), format!(".{}", n), n.split(['.', ' ', '#', ',', ';', '\n', ':']).next().unwrap().to_string()] {
            if !other.is_empty() && !other.starts_with('/') && other != "." && other != ".." {
                v.push(dir.join(&other));
                v.push(PathBuf::from(&other));
                v.push(Path::new("home").join(&other));
            }
        }
    }
    v.push(dir.join(format!(".pfp-{}-0.tmp", PID)));
    for other in ["home", "", "home/.config/PfP", "deep", "deep/er", "home/.config", "sub"] {
        v.push(Path::new(other).join(name));
    }
    v.sort();
    v.dedup();
    v.retain(|d| *d != way.target && Some(d) != way.link.as_ref());
    v
}

enum Run {
    One(Cmd, Vec<&'static str>),
    Shell(Vec<(Cmd, Vec<&'static str>)>),
}

fn runs() -> Vec<Run> {
    let p = PRIMARY;
    vec![
        Run::One(clix::list(5), vec![p]),
        Run::One(clix::show("a.com", "n", Some("2")), vec![p]),
        Run::One(Cmd::SetPrimary { yes: false }, vec!["y", "another pw", "another pw"]),
        Run::One(clix::add_stored("x.com", "n", None, false), vec![p, "new value"]),
        Run::Shell(vec![(clix::show("a.com", "n", Some("2")), vec![p]), (clix::add_stored("x.com", "n", None, true), vec!["new value"]), (clix::remove("b.com", "m", None), vec![]), (clix::list(5), vec![])]),
        Run::One(Cmd::SetPrimary { yes: true }, vec!["another pw", "another pw"]),
        Run::One(clix::add("a.com", "n", None, None, 0, true), vec![p]),
        Run::One(clix::remove("a.com", "n", None), vec![p]),
        Run::One(clix::notes("a.com", "n", None, true), vec![p, "some text"]),
        Run::One(clix::notes("a.com", "n", Some("2"), false), vec![p]),
        Run::One(clix::alias("d.com", "b.com"), vec![p]),
        Run::One(clix::unalias("c.com"), vec![p]),
        Run::One(clix::show_alias("c.com"), vec![p]),
        Run::One(Cmd::SetPrimary { yes: false }, vec!["n"]),
    ]
}

fn one(ctx: &Ctx, way: &Way, run: &Run, exists: bool, with_decoys: bool) -> Result<(), String> {
    let place = Place::new(ctx);
    let dir = std::fs::canonicalize(&place.dir).unwrap();
    let path = dir.join(&way.target);
    let make = |p: &Path| std::fs::create_dir_all(p.parent().unwrap()).unwrap();
    if let Some((link, to)) = way.dir_link {
        std::fs::create_dir_all(dir.join(to)).unwrap();
        make(&dir.join(link));
        std::os::unix::fs::symlink(dir.join(to), dir.join(link)).unwrap();
    }
    if let Some(cwd) = way.cwd {
        std::fs::create_dir_all(dir.join(cwd)).unwrap();
    }
    // Parts of a path followed by .. have to exist.
    let _ = std::fs::create_dir_all(dir.join("sub"));
    let start = if exists { populated() } else { Model::default() };
    let before = clix::initial_bytes(&start);
    if let Some(b) = &before {
        make(&path);
        std::fs::write(&path, b).unwrap();
    }
    if let Some(link) = &way.link {
        make(&path);
        make(&dir.join(link));
        std::os::unix::fs::symlink(&path, dir.join(link)).unwrap();
    }
    let mut there = Vec::new();
    if with_decoys {
        let text = clix::initial_bytes(&decoy_model()).unwrap();
        for d in decoys(way) {
            let full = dir.join(&d);
            // Some would have to be both file and directory, others have too long a name.
            if !full.starts_with(&path) && !path.starts_with(&full) && std::fs::create_dir_all(full.parent().unwrap()).is_ok() && !full.exists() && std::fs::write(&full, &text).is_ok() {
                there.push(d);
            }
        }
    }
    let tree = place.tree();
    let mut opts = Opts { raw_args: true, log: true, pid: Some(PID), seed: Some(3), cwd: way.cwd.map(|c| c.into()), no_home: way.no_home, ..Default::default() };
    opts.first_args = way.first.iter().map(|a| expand(a, &dir)).collect();
    opts.env = way.env.iter().map(|(k, v)| (k.clone(), expand(v, &dir))).collect();
    let mut m = Model { unlocked: false, ..start.clone() };
    let mut shown = Vec::new();
    let (res, expect) = match run {
        Run::One(cmd, l) => {
            let mut input = lines(l);
            if !exists && matches!(cmd, Cmd::SetPrimary { yes: false }) && l.len() == 3 {
                input = lines(&l[1..]);
            }
            let expect = refcli::simulate(&m, cmd, &mut clix::to_lines(&input));
            (place.run(ctx, &cmd.args(), &input, &opts), expect)
        }
        Run::Shell(list) => {
            let mut input = String::new();
            let mut expect = refcli::simulate(&m, &list[0].0, &mut clix::to_lines(&[]));
            for (cmd, l) in list {
                input += &format!("{}\n", cmd.shell_line());
                l.iter().for_each(|x| input += &format!("{}\n", x));
                expect = refcli::simulate(&m, cmd, &mut clix::to_lines(&lines(l)));
                m = expect.after.clone();
                m.unlocked = true;
            }
            shown = if exists { vec!["s3cret", "Password added.", "Password removed."] } else { vec![] };
            expect.ok = Some(exists);
            let a = args(&["shell", "-s", dir.join("home/h1st0ry").to_str().unwrap()]);
            (place.run(ctx, &a, input.as_bytes(), &opts), expect)
        }
    };
    ctx.eval(1);
    ctx.trans(1);
    ctx.trace(1);
    let wrap = |e: String| format!("{}\n{}", e, res.describe());
    res.orderly().map_err(wrap)?;
    match run {
        Run::One(cmd, l) => {
            refcli::check_result(&res, &expect.after, &expect).map_err(wrap)?;
            if matches!(cmd, Cmd::SetPrimary { .. }) && l.len() > 1 {
                let want = format!("New primary password set for {}.", expand(&way.named, &dir).to_string_lossy());
                if !res.out().contains(&want) {
                    return Err(wrap(format!("{:?} isn't displayed", want)));
                }
            }
        }
        Run::Shell(_) => {
            if Some(res.ok()) != expect.ok || shown.iter().any(|t| !res.out().contains(t)) {
                return Err(wrap("shell failed".into()));
            }
        }
    }
    if res.out().contains("decoy") || res.err().contains("decoy value") {
        return Err(wrap("another storage file was used".into()));
    }
    // The file itself
    let after = std::fs::read(&path).ok();
    if after != before {
        let b = after.ok_or_else(|| wrap("the storage file is missing".into()))?;
        let raw = refc::parse_file(std::str::from_utf8(&b).map_err(|e| e.to_string())?).map_err(wrap)?;
        let opened = refc::open(&raw, &expect.after.primary).map_err(wrap)?;
        if expect.ok != Some(true) {
            return Err(wrap("the storage file was changed".into()));
        }
        refcli::check_content(&opened.content, &expect).map_err(wrap)?;
    } else if expect.ok == Some(true) && expect.after.content != start.content || expect.after.initialized && !exists {
        return Err(wrap("the storage file was not changed".into()));
    }
    // Everything else
    let name = way.target.to_string_lossy().into_owned();
    let mut now = place.tree();
    now.remove("home/h1st0ry");
    for (k, content) in &now {
        if *k != name && way.link.as_ref().map_or(true, |l| l.to_string_lossy() != *k) && tree.get(k) != Some(content) && !(res.ok() && !exists && k.ends_with('/') && name.starts_with(k)) {
            return Err(wrap(format!("{} was {}", k, if tree.contains_key(k) { "changed" } else { "created" })));
        }
    }
    if let Some(k) = tree.keys().find(|k| !now.contains_key(*k)) {
        return Err(wrap(format!("{} was removed", k)));
    }
    for line in &res.log {
        let mut f = line.splitn(5, ' ');
        let (kind, name, rest) = (f.next(), f.nth(2).unwrap_or_default(), f.next().unwrap_or_default());
        if kind == Some("OUTSIDE") {
            return Err(wrap(format!("another file was written: {}", line)));
        }
        if kind == Some("OP") && (name.starts_with("open") && !name.contains("excl") || name == "unlink") {
            if let Some(d) = there.iter().find(|d| rest.starts_with(&format!("{} - ", d.to_string_lossy()))) {
                return Err(wrap(format!("{} was used: {}", d.display(), line)));
            }
        }
    }
    ctx.outcome(match (exists, res.ok()) {
        (true, true) => "existing file used",
        (true, false) => "existing file, command failed",
        (false, true) => "file created",
        (false, false) => "no file, command failed",
    });
    Ok(())
}

pub fn run(ctx: Ctx) -> i32 {
    scrypt::verif::set_fast(true);
    let ways = ways(ctx.thorough);
    let runs = runs();
    ctx.count("ways to name the storage file", ways.len() as u64);
    let few = ctx.pick(5, runs.len());
    let mut jobs = Vec::new();
    for (w, way) in ways.iter().enumerate() {
        for r in 0..runs.len() {
            for exists in [true, false] {
                // All commands for each location by default and for some other names
                if r < few || way.what.starts_with("default") || w % 10 == r % 10 {
                    jobs.push((w, r, exists, true));
                }
                if r < 3 && !exists {
                    jobs.push((w, r, exists, false));
                }
            }
        }
    }
    ctx.par(jobs.len(), |j| {
        let (w, r, exists, with_decoys) = jobs[j];
        ctx.state(1);
        if let Err(e) = one(&ctx, &ways[w], &runs[r], exists, with_decoys) {
            let cmd = match &runs[r] {
                Run::One(c, _) => c.args().join(" "),
                Run::Shell(_) => "shell".into(),
            };
            ctx.violation(&format!("{:?} {}", ways[w].what, cmd), format!("storage named {:?} ({}), {}: {}", ways[w].what, if exists { "existing" } else { "missing" }, cmd, e));
        }
    });
    nowhere(&ctx);
    directories(&ctx);
    environment(&ctx);
    ctx.finish(
        "model_checking",
        "each command is run as a real process with the storage file named in every way of a list (option forms, names, paths, links, environments), among other storage files that might be mistaken for it: result and content are those of the reference behaviour for the file named, all other files stay unchanged and aren't opened",
        &["names of a fixed list (thorough: all lengths, all single bytes)", "Linux: the configuration directory is the one of the XDG base directory specification"],
    )
}

/// No location is known by default.
fn nowhere(ctx: &Ctx) {
    use std::os::unix::fs::PermissionsExt;
    // A user the system doesn't know
    let user = Some((54_321, 54_321, vec![]));
    let target = ctx.verif.join("target");
    let reachable = target.ancestors().all(|d| std::fs::metadata(d).map_or(true, |m| m.permissions().mode() & 1 == 1));
    if unsafe { libc::getuid() } != 0 || !reachable {
        ctx.note("without a home directory: not possible here");
        return;
    }
    let runs = runs();
    ctx.par(runs.len() * 3, |k| {
        let place = Place::new(ctx);
        let bytes = clix::initial_bytes(&populated()).unwrap();
        let (how, run) = (k % 3, &runs[k / 3]);
        std::fs::write(place.dir.join("storage.json"), &bytes).unwrap();
        std::fs::set_permissions(place.dir.join("storage.json"), std::fs::Permissions::from_mode(0o666)).unwrap();
        for d in ["", "home"] {
            std::fs::set_permissions(place.dir.join(d), std::fs::Permissions::from_mode(0o777)).unwrap();
        }
        let before = place.tree();
        let named = how == 2;
        let mut opts = Opts { raw_args: true, no_home: true, user: user.clone(), first_args: vec!["--stdin-passwords".into()], ..Default::default() };
        if how == 1 {
            opts.env = vec![("XDG_DATA_HOME".into(), place.dir.clone().into())];
        }
        if named {
            opts.first_args.extend(["-c".into(), "storage.json".into()]);
        }
        let (a, input): (Vec<String>, Vec<u8>) = match run {
            Run::One(c, l) => (c.args(), lines(l)),
            Run::Shell(_) => (args(&["shell"]), lines(&["show a.com n -r 2", PRIMARY])),
        };
        let res = place.run(ctx, &a, &input, &opts);
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        let r = res.orderly().and_then(|_| {
            if named {
                if !res.ok() {
                    return Err("the command failed although the storage file was named".to_string());
                }
                return Ok(());
            }
            if res.ok() || res.stderr.is_empty() {
                return Err("there is no storage file, but no error".to_string());
            }
            if place.tree() != before {
                return Err("files were changed".into());
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(&format!("no home {}", a.join(" ")), format!("no home directory, {}{}\n=> {}\n{}", if named { "storage file named, " } else { "" }, a.join(" "), e, res.describe()));
        }
    });
    ctx.note("no home directory: orderly error, unless the storage file is named");
}

/// Something other than a file is named.
fn directories(ctx: &Ctx) {
    let runs = runs();
    let names = ["sub", "sub/", ".", "./", "..", "DIR", "DIR/", "DIR/sub", "home", "home/.config/PfP", "home/.config/PfP/", "storage.json/", "storage.json/.", "storage.json/storage.json", "sub/storage.json/x", "/", "new/", "new/.", ""];
    ctx.count("names of directories", names.len() as u64);
    ctx.par(names.len() * runs.len(), |k| {
        let (given, run) = (names[k % names.len()], &runs[k / names.len()]);
        if given == "/" || given == ".." {
            // Nothing outside of the directory should be touched, not even by a broken program.
            if !matches!(run, Run::One(Cmd::List { .. } | Cmd::Show { .. }, _)) {
                return;
            }
        }
        let place = Place::new(ctx);
        let dir = std::fs::canonicalize(&place.dir).unwrap();
        let bytes = clix::initial_bytes(&populated()).unwrap();
        for d in ["storage.json", "sub/storage.json", "home/storage.json", "home/.config/PfP/storage.json", "sub.json", "home.json"] {
            std::fs::create_dir_all(dir.join(d).parent().unwrap()).unwrap();
            std::fs::write(dir.join(d), &bytes).unwrap();
        }
        let mut before = place.tree();
        let mut opts = Opts { raw_args: true, ..Default::default() };
        opts.first_args = ["--stdin-passwords", "--storage"].iter().map(|a| a.into()).chain([if given == "DIR" { dir.clone().into() } else { expand(OsStr::new(given), &dir) }]).collect();
        let (a, input): (Vec<String>, Vec<u8>) = match run {
            Run::One(c, l) => (c.args(), lines(l)),
            Run::Shell(_) => (args(&["shell"]), lines(&["show a.com n -r 2", PRIMARY])),
        };
        let res = place.run(ctx, &a, &input, &opts);
        ctx.eval(1);
        ctx.trans(1);
        ctx.trace(1);
        ctx.state(1);
        let declined = matches!(run, Run::One(Cmd::SetPrimary { .. }, l) if l.len() == 1);
        let r = res.orderly().and_then(|_| {
            if res.ok() && !declined || !res.ok() && res.stderr.is_empty() {
                return Err("no file was named, but the command didn't fail with an error".to_string());
            }
            let mut now = place.tree();
            // Creating the directory is as far as it gets.
            for t in [&mut before, &mut now] {
                t.remove("new/");
            }
            if now != before {
                return Err("files were changed".into());
            }
            Ok(())
        });
        if let Err(e) = r {
            ctx.violation(&format!("directory {:?} {}", given, a.join(" ")), format!("storage named {:?}, {}\n=> {}\n{}", given, a.join(" "), e, res.describe()));
        }
    });
}

/// Only the variables meant to determine the location do.
fn environment(ctx: &Ctx) {
    let usual = "home/.config/PfP/storage.json";
    let way = |env: Vec<(String, OsString)>| Way { what: format!("default, {:?}", env), first: vec!["--stdin-passwords".into()], target: usual.into(), named: "DIR/home/.config/PfP/storage.json".into(), env, cwd: None, link: None, dir_link: None, no_home: false };
    // Which ones is it asking for?
    let runs = runs();
    let mut names = std::collections::BTreeSet::new();
    for run in &runs {
        for exists in [true, false] {
            let place = Place::new(ctx);
            let path = place.dir.join(usual);
            std::fs::create_dir_all(path.parent().unwrap()).unwrap();
            if exists {
                std::fs::write(&path, clix::initial_bytes(&populated()).unwrap()).unwrap();
            }
            let (a, input): (Vec<String>, Vec<u8>) = match run {
                Run::One(c, l) => (c.args(), lines(l)),
                Run::Shell(_) => (args(&["shell"]), lines(&["show a.com n -r 2", PRIMARY])),
            };
            let opts = Opts { raw_args: true, log: true, env: vec![("PFPMC_LOG_ENV".into(), "1".into())], first_args: vec!["--stdin-passwords".into()], ..Default::default() };
            let res = place.run(ctx, &a, &input, &opts);
            names.extend(res.log.iter().filter_map(|l| l.strip_prefix("ENV ")).map(|n| n.to_string()));
        }
    }
    let meant = ["HOME", "XDG_CONFIG_HOME"];
    let names: Vec<String> = names.into_iter().filter(|n| !meant.contains(&n.as_str()) && !n.starts_with("LD_") && !n.starts_with("RUST")).collect();
    let values = ["DIR/cfg", "DIR/cfg/storage.json", "DIR/", "cfg", "storage.json", "pfp", "1", ""];
    ctx.par(names.len() * values.len() * runs.len(), |k| {
        let (name, value, run) = (&names[k % names.len()], values[k / names.len() % values.len()], &runs[k / names.len() / values.len()]);
        let way = way(vec![(name.clone(), value.into())]);
        for exists in [true, false] {
            ctx.state(1);
            if let Err(e) = one(ctx, &way, run, exists, true) {
                ctx.violation(&format!("environment {}={} run {}", name, value, k / names.len() / values.len()), format!("{}={:?}: {}", name, value, e));
            }
        }
    });
    ctx.note(&format!("environment variables asked for besides {:?}, none has an influence: {:?}", meant, names));
}
