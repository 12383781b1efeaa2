//! Reference behaviour of the command line program: what each command has to do, print and return
//! in a given state with given input.

use crate::cli::Res;
use crate::model::{Model, Op, Out};
use crate::refc::{self, Content, Entry, Id, Kind};
use std::collections::{BTreeMap, VecDeque};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Cmd {
    SetPrimary { yes: bool },
    Add { site: String, name: String, rev: Option<String>, len: Option<usize>, exclude: u8, yes: bool },
    AddStored { site: String, name: String, rev: Option<String>, recovery: bool, yes: bool },
    Remove { site: String, name: String, rev: Option<String> },
    Show { site: String, name: String, rev: Option<String> },
    Notes { site: String, name: String, rev: Option<String>, set: bool },
    List { site: Option<String>, name: Option<String>, show: bool, recovery: bool, verbose: bool },
    Alias { site: String, target: Option<String>, remove: bool },
}

pub const PROMPTS: [&str; 8] = [
    "Your primary password: ",
    "Password to be stored: ",
    "New primary password: ",
    "Repeat primary password: ",
    "Please enter new notes to be stored:",
    "A password with this domain/name/revision combination already exists. Overwrite? (y/N) ",
    "Changing primary password will remove all existing data. Continue? (y/N) ",
    "Next line of your recovery code (empty line to abort): ",
];

/// Output without prompts.
pub fn strip(out: &str) -> String {
    let mut t = out.to_string();
    for p in PROMPTS {
        t = t.replace(p, "");
    }
    t
}

fn push(v: &mut Vec<String>, flag: bool, s: &str) {
    if flag {
        v.push(s.to_string());
    }
}

impl Cmd {
    pub fn args(&self) -> Vec<String> {
        let mut v = Vec::new();
        let rev_arg = |v: &mut Vec<String>, rev: &Option<String>| {
            if let Some(r) = rev {
                v.push(format!("--revision={}", r));
            }
        };
        match self {
            Cmd::SetPrimary { yes } => {
                v.push("set-primary".into());
                push(&mut v, *yes, "-y");
            }
            Cmd::Add { site, name, rev, len, exclude, yes } => {
                v.push("add".into());
                rev_arg(&mut v, rev);
                if let Some(l) = len {
                    v.push("-l".into());
                    v.push(l.to_string());
                }
                for (i, f) in ["-w", "-u", "-d", "-s"].iter().enumerate() {
                    push(&mut v, exclude >> i & 1 == 1, f);
                }
                push(&mut v, *yes, "-y");
                v.extend(["--".into(), site.clone(), name.clone()]);
            }
            Cmd::AddStored { site, name, rev, recovery, yes } => {
                v.push("add-stored".into());
                rev_arg(&mut v, rev);
                push(&mut v, *recovery, "-c");
                push(&mut v, *yes, "-y");
                v.extend(["--".into(), site.clone(), name.clone()]);
            }
            Cmd::Remove { site, name, rev } => {
                v.push("remove".into());
                rev_arg(&mut v, rev);
                v.extend(["--".into(), site.clone(), name.clone()]);
            }
            Cmd::Show { site, name, rev } => {
                v.push("show".into());
                rev_arg(&mut v, rev);
                v.extend(["--".into(), site.clone(), name.clone()]);
            }
            Cmd::Notes { site, name, rev, set } => {
                v.push("notes".into());
                rev_arg(&mut v, rev);
                push(&mut v, *set, "-s");
                v.extend(["--".into(), site.clone(), name.clone()]);
            }
            Cmd::List { site, name, show, recovery, verbose } => {
                v.push("list".into());
                push(&mut v, *show, "-s");
                push(&mut v, *recovery, "-r");
                push(&mut v, *verbose, "-v");
                if let Some(s) = site {
                    v.push("--".into());
                    v.push(s.clone());
                    if let Some(n) = name {
                        v.push(n.clone());
                    }
                }
            }
            Cmd::Alias { site, target, remove } => {
                v.push("alias".into());
                push(&mut v, *remove, "-r");
                v.push("--".into());
                v.push(site.clone());
                if let Some(t) = target {
                    v.push(t.clone());
                }
            }
        }
        v
    }
    /// The command as entered in the shell.
    pub fn shell_line(&self) -> String {
        self.args()
            .iter()
            .map(|a| {
                if !a.is_empty() && a.chars().all(|c| c.is_ascii_alphanumeric() || "-._:=@".contains(c)) {
                    a.clone()
                } else {
                    format!("'{}'", a)
                }
            })
            .collect::<Vec<_>>()
            .join(" ")
    }
    pub fn displays_only(&self) -> bool {
        match self {
            Cmd::Show { .. } | Cmd::List { .. } => true,
            Cmd::Notes { set, .. } => !set,
            Cmd::Alias { target, remove, .. } => target.is_none() && !remove,
            _ => false,
        }
    }
}

/// What the user enters, line by line.
pub type Input = VecDeque<String>;

#[derive(Clone, Debug, PartialEq)]
pub enum Shown {
    /// Standard output, without prompts, is exactly this
    Exact(String),
    /// A listing
    Listing { sites: BTreeMap<String, Site>, show: bool, recovery: bool, verbose: bool },
    Nothing,
    Any,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Site {
    pub aliases: Vec<String>,
    pub passwords: Vec<(Id, Entry)>,
}

#[derive(Clone, Debug)]
pub struct Expect {
    /// Some(true): exit code 0, Some(false): failure, None: either (the user declined)
    pub ok: Option<bool>,
    pub shown: Shown,
    pub after: Model,
    /// Listing may drop records of sites without passwords.
    pub may_drop_sites: bool,
    /// Number of lines read as answers to questions
    pub questions: usize,
}

/// Answers to yes/no questions.
#[derive(PartialEq)]
enum Answer {
    Yes,
    No,
}

fn confirm(input: &mut Input, asked: &mut usize) -> Answer {
    loop {
        *asked += 1;
        match input.pop_front() {
            None => return Answer::No,
            Some(l) => match l.trim().to_lowercase().as_str() {
                "y" | "yes" => return Answer::Yes,
                "n" | "no" | "" => return Answer::No,
                _ => {}
            },
        }
    }
}

/// A line entered for a secret. None if the input ended or isn't text (marked by the replacement character).
fn entered(input: &mut Input) -> Option<String> {
    input.pop_front().filter(|l| !l.contains('\u{fffd}'))
}

/// Entering a recovery code line by line.
pub fn dialogue(primary: &str, input: &mut Input, asked: &mut usize) -> Option<String> {
    let mut accepted = String::new();
    loop {
        *asked += 1;
        let line = input.pop_front()?;
        if line.contains('\u{fffd}') {
            continue;
        }
        let line = line.trim();
        if line.is_empty() {
            return None;
        }
        let code = accepted.clone() + line;
        let clean = refc::recovery_clean(&code);
        match refc::recovery_decode(&code, primary) {
            refc::Decoded::Password(p) => return Some(p),
            refc::Decoded::Extra(n) => {
                let complete = &clean[..24 * n];
                loop {
                    *asked += 1;
                    match input.pop_front().as_deref().map(|l| l.trim().to_lowercase()).as_deref() {
                        Some("") | Some("y") | Some("yes") | None => {
                            return match refc::recovery_decode(complete, primary) {
                                refc::Decoded::Password(p) => Some(p),
                                _ => None,
                            }
                        }
                        Some("n") | Some("no") => return None,
                        _ => {}
                    }
                }
            }
            refc::Decoded::Mismatch(n) => accepted = clean[..24 * n].to_string(),
            refc::Decoded::Incomplete => accepted = clean,
            _ => return None,
        }
    }
}

fn fail(model: &Model, asked: usize) -> Expect {
    Expect { ok: Some(false), shown: Shown::Any, after: model.clone(), may_drop_sites: false, questions: asked }
}

/// Asks for the primary password. False: input ended.
pub fn unlock(model: &mut Model, input: &mut Input) -> bool {
    while !model.unlocked {
        match entered(input) {
            None => return false,
            Some(l) => {
                let l = l.trim();
                if l.len() >= 6 && l == model.primary {
                    model.unlocked = true;
                }
            }
        }
    }
    true
}

pub fn listing(model: &Model, site_filter: &str, name_filter: &str) -> BTreeMap<String, Site> {
    use crate::model::wild;
    let mut chosen: BTreeMap<String, Site> = BTreeMap::new();
    for (site, alias) in &model.content.sites {
        match alias {
            Some(target) => {
                if wild(site_filter, site) || wild(site_filter, target) {
                    chosen.entry(target.clone()).or_default().aliases.push(site.clone());
                }
            }
            None => {
                if wild(site_filter, site) {
                    chosen.entry(site.clone()).or_default();
                }
            }
        }
    }
    for (site, s) in chosen.iter_mut() {
        for (id, e) in &model.content.passwords {
            if id.0 == *site && wild(name_filter, &id.1) {
                s.passwords.push((id.clone(), e.clone()));
            }
        }
    }
    chosen.retain(|_, s| !s.passwords.is_empty());
    chosen
}

/// Runs a command on the model. `model.unlocked` tells whether the session has been unlocked.
pub fn simulate(model: &Model, cmd: &Cmd, input: &mut Input) -> Expect {
    let mut m = model.clone();
    let mut asked = 0;
    let done = |m: Model, shown: Shown, asked: usize| Expect { ok: Some(true), shown, after: m, may_drop_sites: false, questions: asked };
    let declined = |m: Model, asked: usize| Expect { ok: None, shown: Shown::Nothing, after: m, may_drop_sites: false, questions: asked };
    let rev = |r: &Option<String>| r.clone().unwrap_or_else(|| "1".into());
    if let Cmd::SetPrimary { yes } = cmd {
        if m.initialized && !yes && confirm(input, &mut asked) == Answer::No {
            return declined(m, asked);
        }
        let first = match entered(input) {
            Some(l) => l.trim().to_string(),
            None => return fail(model, asked),
        };
        if first.len() < 6 {
            return fail(model, asked);
        }
        match entered(input) {
            Some(l) if l.trim() == first => {}
            _ => return fail(model, asked),
        }
        m.apply(&Op::Reset(first));
        return done(m, Shown::Any, asked);
    }
    if let Cmd::Add { len: Some(len), .. } = cmd {
        if !(4..=24).contains(len) {
            // Rejected together with the command line, before anything is asked.
            return fail(model, asked);
        }
    }
    if !m.initialized || !unlock(&mut m, input) {
        return Expect { after: Model { unlocked: model.unlocked, ..m }, ..fail(model, asked) };
    }
    let has = |m: &Model, site: &str, name: &str, r: &str| m.content.passwords.contains_key(&m.id(site, name, r));
    match cmd {
        Cmd::SetPrimary { .. } => unreachable!(),
        Cmd::Add { site, name, rev: r, len, exclude, yes } => {
            let classes = !exclude & 15;
            if classes == 0 {
                return fail(&m, asked);
            }
            if !yes && has(&m, site, name, &rev(r)) && confirm(input, &mut asked) == Answer::No {
                return declined(m, asked);
            }
            m.apply(&Op::SetGen { site: site.clone(), name: name.clone(), rev: rev(r), len: len.unwrap_or(16), classes });
            done(m, Shown::Exact("Password added.\n".into()), asked)
        }
        Cmd::AddStored { site, name, rev: r, recovery, yes } => {
            if !yes && has(&m, site, name, &rev(r)) && confirm(input, &mut asked) == Answer::No {
                return declined(m, asked);
            }
            if *recovery {
                return match crate::refcli::dialogue(&m.primary, input, &mut asked) {
                    Some(pw) => {
                        m.apply(&Op::SetStored { site: site.clone(), name: name.clone(), rev: rev(r), pw });
                        Expect { shown: Shown::Any, ..done(m, Shown::Any, asked) }
                    }
                    None => fail(&m, asked),
                };
            }
            let pw = match entered(input) {
                Some(l) => l.trim().to_string(),
                None => return fail(&m, asked),
            };
            m.apply(&Op::SetStored { site: site.clone(), name: name.clone(), rev: rev(r), pw });
            done(m, Shown::Exact("Password added.\n".into()), asked)
        }
        Cmd::Remove { site, name, rev: r } => match m.apply(&Op::Remove { site: site.clone(), name: name.clone(), rev: rev(r) }) {
            Out::Unit => done(m, Shown::Exact("Password removed.\n".into()), asked),
            _ => fail(&m, asked),
        },
        Cmd::Show { site, name, rev: r } => match m.apply(&Op::Get { site: site.clone(), name: name.clone(), rev: rev(r) }) {
            Out::Text(t) => done(m, Shown::Exact(format!("Password retrieved.{}\n", t)), asked),
            _ => fail(&m, asked),
        },
        Cmd::Notes { site, name, rev: r, set } => match m.apply(&Op::GetNotes { site: site.clone(), name: name.clone(), rev: rev(r) }) {
            Out::Text(t) => {
                let mut text = if t.is_empty() {
                    "Currently no notes are stored for this password.\n".to_string()
                } else {
                    format!("Notes for this password: {}\n", t)
                };
                if *set {
                    let notes = match entered(input) {
                        Some(l) => l,
                        None => return fail(&m, asked),
                    };
                    text += if notes.is_empty() { "Notes removed.\n" } else { "Notes stored.\n" };
                    m.apply(&Op::SetNotes { site: site.clone(), name: name.clone(), rev: rev(r), notes });
                }
                done(m, Shown::Exact(text), asked)
            }
            _ => fail(&m, asked),
        },
        Cmd::Alias { site, target: Some(target), .. } => match m.apply(&Op::SetAlias { site: site.clone(), target: target.clone() }) {
            Out::Unit => done(m, Shown::Exact("Alias added.\n".into()), asked),
            _ => fail(&m, asked),
        },
        Cmd::Alias { site, target: None, remove: true } => match m.apply(&Op::RemoveAlias { site: site.clone() }) {
            Out::Unit => done(m, Shown::Exact("Alias removed.\n".into()), asked),
            _ => fail(&m, asked),
        },
        Cmd::Alias { site, target: None, remove: false } => match m.apply(&Op::GetAlias { site: site.clone() }) {
            Out::Text(t) => done(m, Shown::Exact(format!("'{}' is an alias for '{}'.\n", site, t)), asked),
            _ => fail(&m, asked),
        },
        Cmd::List { site, name, show, recovery, verbose } => {
            let sites = listing(&m, site.as_deref().unwrap_or("*"), name.as_deref().unwrap_or("*"));
            let shown = if sites.is_empty() {
                Shown::Exact("No matching passwords found.\n".into())
            } else {
                Shown::Listing { sites, show: *show, recovery: *recovery, verbose: *verbose }
            };
            Expect { may_drop_sites: true, ..done(m, shown, asked) }
        }
    }
}

/// Parsed output of the list command.
#[derive(Debug, Default, Clone, PartialEq)]
pub struct ListedSite {
    pub aliases: Vec<String>,
    /// Header line and the lines below it (without indentation)
    pub items: Vec<(String, Vec<String>)>,
}

pub fn parse_listing(text: &str) -> Result<Vec<(String, ListedSite)>, String> {
    let mut out: Vec<(String, ListedSite)> = Vec::new();
    let mut in_aliases = false;
    let body = text.strip_suffix('\n').ok_or("listing does not end with a line break")?;
    for line in body.split('\n') {
        if let Some(site) = line.strip_prefix("Passwords for ").and_then(|l| l.strip_suffix(':')) {
            out.push((site.to_string(), ListedSite::default()));
            in_aliases = false;
            continue;
        }
        let site = out.last_mut().ok_or_else(|| format!("unexpected line {:?}", line))?;
        if in_aliases && line.starts_with("             ") {
            site.1.aliases.push(line.trim().trim_end_matches(',').to_string());
        } else if let Some(a) = line.strip_prefix("    Aliases: ").filter(|_| site.1.items.is_empty()) {
            site.1.aliases.push(a.trim_end_matches(',').to_string());
            in_aliases = a.ends_with(',');
            continue;
        } else if let Some(detail) = line.strip_prefix("        ") {
            site.1.items.last_mut().ok_or_else(|| format!("unexpected line {:?}", line))?.1.push(detail.to_string());
        } else if let Some(header) = line.strip_prefix("    ") {
            site.1.items.push((header.to_string(), Vec::new()));
        } else {
            return Err(format!("unexpected line {:?}", line));
        }
    }
    Ok(out)
}

pub fn check_listing(text: &str, model: &Model, sites: &BTreeMap<String, Site>, show: bool, recovery: bool, verbose: bool) -> Result<(), String> {
    let mut parsed = parse_listing(text)?;
    parsed.sort_by(|a, b| a.0.cmp(&b.0));
    let names: Vec<&String> = parsed.iter().map(|p| &p.0).collect();
    let expected: Vec<&String> = sites.keys().collect();
    if names != expected {
        return Err(format!("sites listed {:?}, expected {:?}", names, expected));
    }
    for (name, got) in parsed {
        let want = &sites[&name];
        let mut a = got.aliases.clone();
        a.sort();
        let mut b = if verbose { want.aliases.clone() } else { vec![] };
        b.sort();
        if a != b {
            return Err(format!("aliases of {} listed as {:?}, expected {:?}", name, a, b));
        }
        let mut want_items: Vec<(String, Vec<String>)> = Vec::new();
        for (id, e) in &want.passwords {
            let kind = match e.kind {
                Kind::Generated { .. } => "generated",
                Kind::Stored(_) => "stored",
            };
            let header = if id.2.is_empty() { format!("{} ({})", id.1, kind) } else { format!("{} ({}, revision: {})", id.1, kind, id.2) };
            let mut details = Vec::new();
            if show {
                details.push(model.value(id, e));
            }
            if recovery {
                if let Kind::Stored(pw) = &e.kind {
                    details.push(format!("Recovery code of {:?}", pw));
                }
            }
            if verbose {
                if !e.notes.is_empty() {
                    details.push(format!("Notes: {}", e.notes));
                }
                if let Kind::Generated { length, classes } = &e.kind {
                    details.push(format!("Length: {}", length));
                    let chars: Vec<&str> = ["abc", "ABC", "789", "+^;"].iter().enumerate().filter(|(i, _)| classes >> i & 1 == 1).map(|(_, c)| *c).collect();
                    details.push(format!("Allowed characters: {}", chars.join(" ")));
                }
            }
            want_items.push((header, details));
        }
        let mut got_items = Vec::new();
        for (header, details) in got.items {
            let mut reduced = Vec::new();
            let mut i = 0;
            while i < details.len() {
                if recovery && details[i] == "Recovery code:" {
                    let mut code = String::new();
                    i += 1;
                    while i < details.len() && details[i].len() == 29 && details[i].as_bytes()[14] == b':' {
                        code += &details[i];
                        i += 1;
                        if !matches!(refc::recovery_decode(&code, &model.primary), refc::Decoded::Incomplete) {
                            break;
                        }
                    }
                    match refc::recovery_decode(&code, &model.primary) {
                        refc::Decoded::Password(p) => reduced.push(format!("Recovery code of {:?}", p)),
                        other => return Err(format!("recovery code {:?} of {} decodes to {:?}", code, header, other)),
                    }
                } else {
                    reduced.push(details[i].clone());
                    i += 1;
                }
            }
            got_items.push((header, reduced));
        }
        want_items.sort();
        got_items.sort();
        if want_items != got_items {
            return Err(format!("listed for {}: {:?}\nexpected: {:?}", name, got_items, want_items));
        }
    }
    Ok(())
}

/// Compares what a command printed and returned.
pub fn check_result(res: &Res, model: &Model, e: &Expect) -> Result<(), String> {
    res.orderly()?;
    match e.ok {
        Some(true) if !res.ok() => return Err("command failed, it should have succeeded".into()),
        Some(false) if res.ok() => return Err("command succeeded, it should have failed".into()),
        _ => {}
    }
    check_output(&strip(&res.out()), &res.err(), model, e)
}

const CONFIRMATIONS: [&str; 8] = [
    "Password added.",
    "Password removed.",
    "Alias added.",
    "Alias removed.",
    "Notes stored.",
    "Notes removed.",
    "New primary password set",
    "Password retrieved.",
];

pub fn check_output(out: &str, err: &str, model: &Model, e: &Expect) -> Result<(), String> {
    if e.ok != Some(true) {
        for c in CONFIRMATIONS {
            if out.contains(c) {
                return Err(format!("{:?} was reported although nothing of the kind should have happened", c));
            }
        }
    }
    if e.ok == Some(false) && err.is_empty() {
        return Err("command failed without any message".into());
    }
    match &e.shown {
        Shown::Exact(t) => {
            if out != t {
                return Err(format!("displayed {:?}, expected {:?}", out, t));
            }
        }
        Shown::Listing { sites, show, recovery, verbose } => check_listing(out, model, sites, *show, *recovery, *verbose)?,
        Shown::Nothing => {
            if !out.trim().is_empty() {
                return Err(format!("displayed {:?}, expected nothing", out));
            }
        }
        Shown::Any => {}
    }
    Ok(())
}

/// Compares saved content, allowing for dropped records of sites without passwords where permitted.
pub fn check_content(saved: &Content, e: &Expect) -> Result<(), String> {
    if *saved == e.after.content {
        return Ok(());
    }
    if e.may_drop_sites && saved.passwords == e.after.content.passwords {
        let used = |s: &String| e.after.content.passwords.keys().any(|id| id.0 == *s);
        let ok = saved.sites.iter().all(|(k, v)| e.after.content.sites.get(k) == Some(v))
            && e.after.content.sites.iter().all(|(k, v)| saved.sites.contains_key(k) || (v.is_none() && !used(k)));
        if ok {
            return Ok(());
        }
    }
    Err(format!("saved content is {}\nexpected {}", crate::libx::show(saved), crate::libx::show(&e.after.content)))
}
