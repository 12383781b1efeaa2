//! Commands changing the storage, for crash and fault enumeration.

use crate::c01::{empty, populated, PRIMARY};
use crate::cli::lines;
use crate::clix::{self, *};
use crate::model::{self, Model};
use crate::refc;
use crate::refcli::{self, Cmd, Expect};

pub struct Case {
    pub name: &'static str,
    pub start: Model,
    pub cmd: Cmd,
    pub input: Vec<u8>,
    /// Location of the storage file below the directory
    pub file: &'static str,
    /// The storage file is a symbolic link to this
    pub link: Option<&'static str>,
    /// How the storage file is named on the command line, if not by its absolute path
    pub given: Option<&'static str>,
    /// Another name of the storage file
    pub also: Option<&'static str>,
    pub mode: Option<u32>,
}

impl Case {
    pub fn expect(&self) -> Expect {
        let mut m = self.start.clone();
        m.unlocked = false;
        refcli::simulate(&m, &self.cmd, &mut clix::to_lines(&self.input))
    }
    pub fn before(&self) -> Option<Vec<u8>> {
        clix::initial_bytes(&self.start)
    }
}

pub fn big() -> Model {
    let mut m = populated();
    for i in 0..40 {
        m.apply(&model::stored(&format!("site{}.example", i), "user", "", &"p".repeat(100)));
        m.apply(&model::notes(&format!("site{}.example", i), "user", "", &"some text ".repeat(30)));
    }
    m
}

/// Three sites without passwords, listing drops them.
pub fn dropping() -> Model {
    let mut m = populated();
    m.apply(&model::remove("b.com", "m", ""));
    for site in ["e.com", "f.com"] {
        m.apply(&model::stored(site, "m", "", "other"));
        m.apply(&model::remove(site, "m", ""));
    }
    m
}

pub fn all(large: bool) -> Vec<Case> {
    let mut v = Vec::new();
    let mut with = |name, start: Model, cmd, more: &[&str], set_primary: bool| {
        let mut l = if set_primary { vec![] } else { vec![PRIMARY] };
        l.extend(more);
        v.push(Case { name, start, cmd, input: lines(&l), file: "storage.json", link: None, given: None, also: None, mode: None });
    };
    let p = populated();
    with("set-primary first", Model::default(), Cmd::SetPrimary { yes: false }, &["another pw", "another pw"], true);
    with("set-primary again", p.clone(), Cmd::SetPrimary { yes: true }, &["another pw", "another pw"], true);
    with("set-primary confirmed", p.clone(), Cmd::SetPrimary { yes: false }, &["y", "another pw", "another pw"], true);
    with("add to empty", empty(), add("x.com", "n", None, None, 0, false), &[], false);
    with("add", p.clone(), add("x.com", "n", None, Some(20), 8, false), &[], false);
    with("add replacing", p.clone(), add("c.com", "n", Some("2"), None, 0, true), &[], false);
    with("add-stored", p.clone(), add_stored("b.com", "new", None, false), &["stored value"], false);
    with("add-stored replacing", p.clone(), add_stored("b.com", "m", None, false), &["y", "stored value"], false);
    with("remove", p.clone(), remove("a.com", "n", Some("2")), &[], false);
    with("notes", p.clone(), notes("a.com", "n", None, true), &["some text"], false);
    with("notes cleared", p.clone(), notes("a.com", "n", Some("2"), true), &[""], false);
    with("alias", p.clone(), alias("d.com", "c.com"), &[], false);
    with("unalias", p.clone(), unalias("c.com"), &[], false);
    with("list dropping sites", dropping(), list(5), &[], false);
    if large {
        with("add to large", big(), add("x.com", "n", None, None, 0, false), &[], false);
        with("remove from large", big(), remove("site7.example", "user", None), &[], false);
        with("set-primary large", big(), Cmd::SetPrimary { yes: true }, &["another pw", "another pw"], true);
    }
    let added = || (p.clone(), add("x.com", "n", None, None, 0, false), lines(&[PRIMARY]));
    let first = || (Model::default(), Cmd::SetPrimary { yes: false }, lines(&["another pw", "another pw"]));
    let case = |name, (start, cmd, input): (Model, Cmd, Vec<u8>), file| Case { name, start, cmd, input, file, link: None, given: None, also: None, mode: None };
    v.push(Case { link: Some("real/data.json"), ..case("linked", added(), "storage.json") });
    v.push(Case { link: Some("real/data.json"), ..case("linked, not there yet", first(), "storage.json") });
    v.push(case("new directory", first(), "sub/dir/storage.json"));
    v.push(case("directory", (p.clone(), remove("a.com", "n", None), lines(&[PRIMARY])), "sub/storage.json"));
    v.push(Case { given: Some("storage.json"), ..case("relative name", added(), "storage.json") });
    v.push(Case { given: Some("storage.json"), ..case("relative name, not there yet", first(), "storage.json") });
    v.push(Case { given: Some("./storage.json"), ..case("dot and name, not there yet", first(), "storage.json") });
    v.push(Case { given: Some("sub/storage.json"), ..case("relative directory", added(), "sub/storage.json") });
    v.push(Case { given: Some("sub/dir/storage.json"), ..case("relative directories, not there yet", first(), "sub/dir/storage.json") });
    v.push(Case { given: Some("home/../storage.json"), ..case("up and down", added(), "storage.json") });
    v.push(Case { given: Some("storage.json"), link: Some("real/data.json"), ..case("relative name, linked", added(), "storage.json") });
    v.push(Case { also: Some("other.json"), ..case("two names", added(), "storage.json") });
    v.push(Case { also: Some("home/other.json"), mode: Some(0o644), ..case("two names in two directories", (p.clone(), Cmd::SetPrimary { yes: true }, lines(&["another pw", "another pw"])), "storage.json") });
    v.push(Case { mode: Some(0o400), ..case("read-only file", added(), "storage.json") });
    v.push(Case { mode: Some(0o666), ..case("file everybody may write", added(), "storage.json") });
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Which {
    Before,
    After,
    /// The command leaves the content as it is.
    Both,
}

/// Tells whether this is the state before or the state after the command.
pub fn classify(bytes: Option<&[u8]>, before: Option<&[u8]>, expect: &Expect) -> Result<Which, String> {
    if bytes == before {
        return Ok(Which::Before);
    }
    let bytes = bytes.ok_or("storage file is missing")?;
    let text = std::str::from_utf8(bytes).map_err(|_| format!("storage file is damaged, {} bytes", bytes.len()))?;
    let raw = refc::parse_file(text).map_err(|e| format!("storage file is damaged ({} bytes): {}", bytes.len(), e))?;
    let opened = refc::open(&raw, &expect.after.primary).map_err(|e| format!("storage file is damaged: {}", e))?;
    refcli::check_content(&opened.content, expect)?;
    Ok(Which::After)
}

/// Names a plan and what is at this place.
pub fn ops(log: &[String]) -> Vec<OpLine> {
    log.iter()
        .filter_map(|l| {
            let mut w = l.split(' ');
            if w.next()? != "OP" {
                return None;
            }
            Some(OpLine {
                no: w.next()?.parse().ok()?,
                modifies: w.next()? == "W",
                name: w.next()?.to_string(),
                path: w.next()?.to_string(),
                path2: w.next()?.to_string(),
                len: w.next()?.parse().ok()?,
            })
        })
        .collect()
}

#[derive(Clone, Debug)]
pub struct OpLine {
    pub no: usize,
    pub modifies: bool,
    pub name: String,
    pub path: String,
    pub path2: String,
    pub len: i64,
}


/// Sets up the directory for a case.
pub fn prepare(place: &mut crate::cli::Place, case: &Case) {
    place.reset();
    place.file = place.dir.join(case.file);
    let mut target = place.file.clone();
    if let Some(link) = case.link {
        target = place.dir.join(link);
        std::fs::create_dir_all(target.parent().unwrap()).unwrap();
        std::os::unix::fs::symlink(&target, &place.file).unwrap();
    }
    if let Some(bytes) = case.before() {
        std::fs::create_dir_all(target.parent().unwrap()).unwrap();
        std::fs::write(&target, bytes).unwrap();
        if let Some(also) = case.also {
            std::fs::hard_link(&target, place.dir.join(also)).unwrap();
        }
        if let Some(mode) = case.mode {
            std::fs::set_permissions(&target, std::os::unix::fs::PermissionsExt::from_mode(mode)).unwrap();
        }
    }
    place.given = case.given.map(|g| g.into());
}

pub fn label(case: &Case) -> String {
    format!("{}: {} <{}>", case.name, case.cmd.args().join(" "), String::from_utf8_lossy(&case.input).replace('\n', "|"))
}

/// Parsed storage content for the model after the command, as it really is.
pub fn model_of(bytes: Option<&[u8]>, primary: &str) -> Result<Model, String> {
    match bytes {
        None => Ok(Model::default()),
        Some(b) => {
            let raw = refc::parse_file(std::str::from_utf8(b).map_err(|e| e.to_string())?)?;
            let opened = refc::open(&raw, primary)?;
            Ok(Model { initialized: true, primary: primary.to_string(), unlocked: false, content: opened.content })
        }
    }
}
