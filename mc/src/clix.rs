//! Exploration of the command line program: every transition is a real process.

use crate::cli::*;
use crate::model::Model;
use crate::refc;
use crate::refcli::*;
use crate::util::Ctx;
use std::collections::HashSet;
use std::sync::Mutex;

/// Lines of the input as the program is going to see them.
pub fn to_lines(input: &[u8]) -> Input {
    let text = String::from_utf8_lossy(input);
    let mut v: Input = text.split('\n').map(|l| l.to_string()).collect();
    if v.back().map_or(false, |l| l.is_empty()) {
        v.pop_back();
    }
    v
}

pub struct Step {
    pub expect: Expect,
    pub res: Res,
    pub bytes: Option<Vec<u8>>,
    /// The model brought in line with the records actually kept by listing.
    pub after: Model,
}

/// Runs one command on the storage file, compares everything with the reference.
pub fn step(ctx: &Ctx, place: &Place, before: Option<&[u8]>, model: &Model, cmd: &Cmd, input: &[u8], opts: &Opts) -> Result<Step, String> {
    place.reset();
    if let Some(b) = before {
        std::fs::write(&place.file, b).unwrap();
    }
    let mut model = model.clone();
    model.unlocked = false;
    let expect = simulate(&model, cmd, &mut to_lines(input));
    let res = place.run(ctx, &cmd.args(), input, opts);
    ctx.eval(1);
    let wrap = |e: String| format!("{}\n{}", e, res.describe());
    check_result(&res, &expect.after, &expect).map_err(wrap)?;
    let after = check_place(place, before, &model, cmd, &expect).map_err(wrap)?;
    Ok(Step { bytes: place.read(), expect, res, after })
}

/// Compares the directory with what it should contain after the command.
pub fn check_place(place: &Place, before: Option<&[u8]>, model: &Model, cmd: &Cmd, expect: &Expect) -> Result<Model, String> {
    let bytes = place.read();
    let unchanged = bytes.as_deref() == before;
    let mut after = expect.after.clone();
    after.unlocked = false;
    if expect.ok != Some(true) && !unchanged {
        return Err("storage file was changed by a command that failed or was declined".into());
    }
    if cmd.displays_only() && !matches!(cmd, Cmd::List { .. }) && !unchanged {
        return Err("storage file was changed by a command that only displays".into());
    }
    if !unchanged || after != *model {
        let bytes = bytes.ok_or("storage file is missing")?;
        let text = std::str::from_utf8(&bytes).map_err(|e| e.to_string())?;
        let raw = refc::parse_file(text).map_err(|e| format!("storage file: {}", e))?;
        let opened = refc::open(&raw, &after.primary).map_err(|e| format!("storage file: {}", e))?;
        check_content(&opened.content, expect)?;
        after.content = opened.content;
    }
    for (name, _) in place.tree() {
        if name != "storage.json" && name != "home/" {
            return Err(format!("unexpected file {} left behind", name));
        }
    }
    Ok(after)
}

pub type Alphabet = Vec<(Cmd, Vec<u8>)>;

pub fn initial_bytes(model: &Model) -> Option<Vec<u8>> {
    if model.initialized {
        Some(refc::file_text(&crate::libx::raw_for(model)).into_bytes())
    } else {
        None
    }
}

/// Breadth-first search over storage states with real processes as transitions.
pub fn bfs(
    ctx: &Ctx,
    what: &str,
    init: &[Model],
    alphabet: &(dyn Fn(&Model) -> Alphabet + Sync),
    depth: usize,
    extra: Option<&(dyn Fn(&Place, &Model, &Step, &Cmd) -> Result<(), String> + Sync)>,
) -> Vec<Model> {
    let init: Vec<Model> = init.iter().map(|m| Model { unlocked: false, ..m.clone() }).collect();
    let seen: Mutex<HashSet<Model>> = Mutex::new(init.iter().cloned().collect());
    let mut frontier: Vec<(Model, Option<Vec<u8>>, Vec<String>)> = init.iter().map(|m| (m.clone(), initial_bytes(m), vec![format!("start {}", crate::libx::show(&m.content))])).collect();
    let mut closed = false;
    for level in 0..depth {
        // One item per state and part of the alphabet to use all cores on narrow levels.
        let items: Vec<(usize, Cmd, Vec<u8>)> =
            frontier.iter().enumerate().flat_map(|(i, (m, _, _))| alphabet(m).into_iter().map(move |(c, inp)| (i, c, inp))).collect();
        let next: Mutex<Vec<(Model, Option<Vec<u8>>, Vec<String>)>> = Default::default();
        ctx.par(items.len(), |k| {
            let (i, cmd, input) = &items[k];
            let (model, bytes, path) = &frontier[*i];
            let place = Place::new(ctx);
            let opts = Opts { seed: Some(ctx.seed.wrapping_mul(1_000_003) + (level * 1_000_000 + k) as u64), ..Default::default() };
            let result = step(ctx, &place, bytes.as_deref(), model, cmd, input, &opts).and_then(|s| {
                if let Some(extra) = extra {
                    extra(&place, model, &s, cmd)?;
                }
                Ok(s)
            });
            ctx.trans(1);
            ctx.trace(1);
            let label = format!("{} <{}>", cmd.args().join(" "), String::from_utf8_lossy(input).replace('\n', "|"));
            match result {
                Err(e) => ctx.violation(
                    &format!("{}:{}", what, label),
                    format!("{}\n{}\n  {}\n=> {}", what, path.join("\n  "), label, e),
                ),
                Ok(s) => {
                    if s.after != *model && seen.lock().unwrap().insert(s.after.clone()) {
                        let mut path = path.clone();
                        path.push(label);
                        next.lock().unwrap().push((s.after, s.bytes, path));
                    }
                }
            }
        });
        let mut next = next.into_inner().unwrap();
        next.sort_by(|a, b| a.0.cmp(&b.0));
        if let Some(n) = next.last() {
            ctx.sample(|| format!("{}: {} => {}", what, n.2.join("; "), crate::libx::show(&n.0.content)));
        }
        frontier = next;
        if ctx.stopped() || ctx.out_of_time() {
            break;
        }
        if frontier.is_empty() {
            closed = true;
            break;
        }
    }
    let mut all: Vec<Model> = seen.into_inner().unwrap().into_iter().collect();
    all.sort();
    ctx.state(all.len() as u64);
    ctx.note(&format!("{}: {} states, {}", what, all.len(), if closed { "closed (all reachable states)".to_string() } else { format!("all command sequences up to length {} (merged by state)", depth) }));
    all
}

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn add(site: &str, name: &str, rev: Option<&str>, len: Option<usize>, exclude: u8, yes: bool) -> Cmd {
    Cmd::Add { site: s(site), name: s(name), rev: rev.map(s), len, exclude, yes }
}
pub fn add_stored(site: &str, name: &str, rev: Option<&str>, yes: bool) -> Cmd {
    Cmd::AddStored { site: s(site), name: s(name), rev: rev.map(s), recovery: false, yes }
}
pub fn remove(site: &str, name: &str, rev: Option<&str>) -> Cmd {
    Cmd::Remove { site: s(site), name: s(name), rev: rev.map(s) }
}
pub fn show(site: &str, name: &str, rev: Option<&str>) -> Cmd {
    Cmd::Show { site: s(site), name: s(name), rev: rev.map(s) }
}
pub fn notes(site: &str, name: &str, rev: Option<&str>, set: bool) -> Cmd {
    Cmd::Notes { site: s(site), name: s(name), rev: rev.map(s), set }
}
pub fn list(flags: u8) -> Cmd {
    Cmd::List { site: None, name: None, show: flags & 1 != 0, recovery: flags & 2 != 0, verbose: flags & 4 != 0 }
}
pub fn list_for(site: &str, name: Option<&str>, flags: u8) -> Cmd {
    Cmd::List { site: Some(s(site)), name: name.map(s), show: flags & 1 != 0, recovery: flags & 2 != 0, verbose: flags & 4 != 0 }
}
pub fn alias(site: &str, target: &str) -> Cmd {
    Cmd::Alias { site: s(site), target: Some(s(target)), remove: false }
}
pub fn unalias(site: &str) -> Cmd {
    Cmd::Alias { site: s(site), target: None, remove: true }
}
pub fn show_alias(site: &str) -> Cmd {
    Cmd::Alias { site: s(site), target: None, remove: false }
}

/// The answers a shell session in the given state takes for a command: those intended, without passwords already
/// known and without those never asked for, completed where more is asked. Brings the model up to date.
pub fn shell_answers(m: &mut Model, cmd: &Cmd, answers: &[&str]) -> (Expect, Vec<String>) {
    let skip = if m.unlocked && !matches!(cmd, Cmd::SetPrimary { .. }) { answers.iter().take_while(|a| a.contains("primary")).count() } else { 0 };
    let mut input: Input = answers[skip..].iter().map(|a| a.to_string()).collect();
    input.extend([m.primary.clone(), s("n"), s(""), s(""), s("")]);
    let all: Vec<String> = input.iter().cloned().collect();
    let e = simulate(m, cmd, &mut input);
    *m = e.after.clone();
    (e, all[..all.len() - input.len()].to_vec())
}

/// Command line arguments which might get special treatment, the first ones (number in the result) being the most unusual.
pub fn words() -> (Vec<String>, usize) {
    let mut words: Vec<String> = [
        "plain", "two words", " lead", "trail ", "a'b", "a\"b", "a\\b", "\\", "''", "\"\"", "a\\'b", "-x", "--", "#a", "$HOME", "`ls`", "a;b", "\u{fc}", "\u{1F600}", "*", "~", "a\tb", "!1", "a|b", "&", ">f", "(a)", "{a,b}", "a=b", "%s", "\\n", "", " ", "a  b", "'", "\"", "$", "exit", "lock",
        "~/x", "~root", "~root/x", "$HOME/x", "${HOME}", "%HOME%", "$(ls)", "$$", "$1", "$?", "!!", "!$", "^a^b", "a && b", "a#b", "# a", "\\x41", "\\u00e4", "&amp;", "%20", "a[b]", "[ab]", "a?", "-", "---", "-n", "--name", "@x", "+x", "=x", ":x", ",x", ".", "..", "./x", "/x", "x/", "\u{a0}", "x\u{a0}", "help", "shell", "true", "null", "0", "007",
    ]
    .iter()
    .map(|w| w.to_string())
    .collect();
    // Each character at each end and in the middle
    let characters = words.len();
    for c in (0x20u8..0x7f).map(char::from).chain(['\t', '\u{e9}', '\u{a0}', '\u{200b}', '\u{feff}', '\u{2019}', '\u{fffd}']) {
        for word in [format!("{}", c), format!("{}x", c), format!("x{}", c), format!("x{}x", c), format!("{}{}", c, c), format!("{}/x", c)] {
            if !words.contains(&word) {
                words.push(word);
            }
        }
    }
    // Comments, operators and the like
    let mut marks: Vec<String> = (0x21u8..0x7f).map(char::from).filter(|c| c.is_ascii_punctuation()).flat_map(|c| [c.to_string(), format!("{}{}", c, c)]).collect();
    marks.extend(["/*", "*/", "<!--", "-->", "->", "=>", ">>>", "###", "---", "://", "REM", "\\n", "\\\n"].map(|m| m.replace('\n', "n")));
    for m in marks {
        words.push(format!("x {} y", m));
        words.push(format!("x{}y z", m));
    }
    (words, characters)
}
