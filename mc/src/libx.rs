//! Drives the real `Passwords` type, on an in-memory or a file-based storage.

use crate::model::{Model, Op, Out};
use crate::refc::{self, Content, Entry, Id, Kind, Raw};
use crate::util::{guarded, Ctx};
use pfp::error::Error;
use pfp::passwords::Passwords;
use pfp::storage_io::{FileIO, StorageIO};
use pfp::storage_types::{CharacterSet, CharacterType, Password};
use secrecy::{ExposeSecret, SecretString};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::rc::Rc;
use std::sync::Mutex;

pub fn secret(s: &str) -> SecretString {
    SecretString::new(s.to_string())
}

pub fn charset(classes: u8) -> CharacterSet {
    let mut c = CharacterSet::empty();
    for (i, t) in [CharacterType::Lower, CharacterType::Upper, CharacterType::Digit, CharacterType::Symbol].iter().enumerate() {
        if classes >> i & 1 == 1 {
            c.insert(*t);
        }
    }
    c
}
pub fn classes(c: CharacterSet) -> u8 {
    [CharacterType::Lower, CharacterType::Upper, CharacterType::Digit, CharacterType::Symbol]
        .iter()
        .enumerate()
        .map(|(i, t)| if c.contains(*t) { 1 << i } else { 0 })
        .sum()
}

thread_local! {
    static DEBUG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// How things returned by the library present themselves, collected since the last call.
pub fn take_debug() -> String {
    DEBUG.with(|d| std::mem::take(&mut *d.borrow_mut()))
}

fn note_debug(text: String) {
    DEBUG.with(|d| {
        let mut d = d.borrow_mut();
        if d.len() < 100_000 {
            d.push_str(&text);
            d.push('\n');
        }
    });
}

/// Debug and Display output of a value, empty if its type doesn't have any.
struct Probe<'a, T>(&'a T);
trait Shows {
    fn debug(&self) -> String;
}
impl<T: std::fmt::Debug> Shows for Probe<'_, T> {
    fn debug(&self) -> String {
        format!("{:?} {:#?}", self.0, self.0)
    }
}
trait Hides {
    fn debug(&self) -> String {
        String::new()
    }
}
impl<T> Hides for &Probe<'_, T> {}
trait Displays {
    fn display(&self) -> String;
}
impl<T: std::fmt::Display> Displays for Probe<'_, T> {
    fn display(&self) -> String {
        format!("{}", self.0)
    }
}
trait Lacks {
    fn display(&self) -> String {
        String::new()
    }
}
impl<T> Lacks for &Probe<'_, T> {}

/// Debug output is collected.
pub static PROBING: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

macro_rules! probe {
    ($e:expr) => {
        if PROBING.load(std::sync::atomic::Ordering::Relaxed) {
            note_debug((&Probe($e)).debug() + &(&Probe($e)).display())
        }
    };
}

pub fn error_kind(e: &Error) -> &'static str {
    probe!(e);
    match e {
        Error::CreateDirFailure { .. } => "CreateDirFailure",
        Error::FileReadFailure { .. } => "FileReadFailure",
        Error::FileWriteFailure { .. } => "FileWriteFailure",
        Error::StorageNotInitialized => "StorageNotInitialized",
        Error::UnexpectedStorageFormat => "UnexpectedStorageFormat",
        Error::PasswordsLocked => "PasswordsLocked",
        Error::KeyMissing => "KeyMissing",
        Error::UnexpectedData => "UnexpectedData",
        Error::InvalidCiphertext => "InvalidCiphertext",
        Error::InvalidBase64 { .. } => "InvalidBase64",
        Error::InvalidJson { .. } => "InvalidJson",
        Error::InvalidUtf8 { .. } => "InvalidUtf8",
        Error::DecryptionFailure => "DecryptionFailure",
        Error::NoSuchAlias => "NoSuchAlias",
        Error::AliasToSelf => "AliasToSelf",
        Error::SiteHasPasswords => "SiteHasPasswords",
        Error::RecoveryCodeExtraData { .. } => "RecoveryCodeExtraData",
        Error::RecoveryCodeChecksumMismatch { .. } => "RecoveryCodeChecksumMismatch",
        Error::RecoveryCodeIncomplete => "RecoveryCodeIncomplete",
        Error::RecoveryCodeWrongVersion => "RecoveryCodeWrongVersion",
        Error::RecoveryCodeInsufficientData => "RecoveryCodeInsufficientData",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}

// ---- in-memory storage with a separate "file" ----

#[derive(Default, Debug)]
pub struct Shared {
    pub mem: Raw,
    pub file: Raw,
    pub flushes: u64,
    /// Fail this and the following n-1 flush calls.
    pub fail: u64,
}

#[derive(Debug)]
pub struct MockIO {
    data: BTreeMap<String, String>,
    reverse: bool,
    pub shared: Rc<RefCell<Shared>>,
}

impl MockIO {
    pub fn new(raw: &Raw, reverse: bool) -> (MockIO, Rc<RefCell<Shared>>) {
        let shared = Rc::new(RefCell::new(Shared { mem: raw.clone(), file: raw.clone(), ..Default::default() }));
        (MockIO { data: raw.clone(), reverse, shared: shared.clone() }, shared)
    }
}

impl StorageIO for MockIO {
    fn contains_key(&self, key: &str) -> bool {
        self.data.contains_key(key)
    }
    fn get(&self, key: &str) -> Result<&String, Error> {
        self.data.get(key).ok_or(Error::KeyMissing)
    }
    fn set(&mut self, key: String, value: String) {
        self.shared.borrow_mut().mem.insert(key.clone(), value.clone());
        self.data.insert(key, value);
    }
    fn remove(&mut self, key: &str) -> Result<(), Error> {
        self.shared.borrow_mut().mem.remove(key);
        self.data.remove(key).map(|_| ()).ok_or(Error::KeyMissing)
    }
    fn clear(&mut self) {
        self.shared.borrow_mut().mem.clear();
        self.data.clear();
    }
    fn keys(&self) -> Box<dyn Iterator<Item = &String> + '_> {
        if self.reverse {
            Box::new(self.data.keys().rev())
        } else {
            Box::new(self.data.keys())
        }
    }
    fn flush(&mut self) -> Result<(), Error> {
        let mut shared = self.shared.borrow_mut();
        shared.flushes += 1;
        if shared.fail > 0 {
            shared.fail -= 1;
            self.data = shared.file.clone();
            shared.mem = shared.file.clone();
            return Err(Error::FileWriteFailure { error: std::io::Error::from_raw_os_error(libc::ENOSPC) });
        }
        shared.file = self.data.clone();
        Ok(())
    }
}

/// Where the storage of a session lives.
pub enum Live {
    Mock(Passwords<MockIO>, Rc<RefCell<Shared>>),
    File(Passwords<FileIO>, PathBuf),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Backing {
    Mock,
    MockReverse,
    File,
}

macro_rules! on {
    ($live:expr, $p:ident => $e:expr) => {
        match $live {
            Live::Mock($p, _) => $e,
            Live::File($p, _) => $e,
        }
    };
}

fn unit(r: Result<(), Error>) -> Out {
    match r {
        Ok(()) => Out::Unit,
        Err(e) => Out::Err(vec![error_kind(&e)]),
    }
}
fn text(r: Result<SecretString, Error>) -> Out {
    match r {
        Ok(t) => {
            probe!(&t);
            Out::Text(t.expose_secret().clone())
        }
        Err(e) => Out::Err(vec![error_kind(&e)]),
    }
}

pub fn convert(p: &Password) -> (Id, Entry) {
    probe!(p);
    probe!(p.id());
    probe!(p.notes());
    match p {
        Password::Generated(p) => probe!(p),
        Password::Stored(p) => {
            probe!(p);
            probe!(p.password());
        }
    }
    let id = (p.id().site().to_string(), p.id().name().to_string(), p.id().revision().to_string());
    let kind = match p {
        Password::Generated(p) => Kind::Generated { length: p.length(), classes: classes(p.charset()) },
        Password::Stored(p) => Kind::Stored(p.password().expose_secret().clone()),
    };
    (id, Entry { kind, notes: p.notes().expose_secret().clone() })
}

fn exec_on<IO: StorageIO>(p: &mut Passwords<IO>, op: &Op) -> Out {
    match op {
        Op::Reset(pw) => unit(p.reset(secret(pw))),
        Op::Unlock(pw) => unit(p.unlock(secret(pw))),
        Op::Lock => {
            p.lock();
            Out::Unit
        }
        Op::SetGen { site, name, rev, len, classes } => unit(p.set_generated(site, name, rev, *len, charset(*classes))),
        Op::SetStored { site, name, rev, pw } => unit(p.set_stored(site, name, rev, secret(pw))),
        Op::SetNotes { site, name, rev, notes } => unit(p.set_notes(site, name, rev, secret(notes))),
        Op::Remove { site, name, rev } => unit(p.remove(site, name, rev)),
        Op::SetAlias { site, target } => unit(p.set_alias(site, target)),
        Op::RemoveAlias { site } => unit(p.remove_alias(site)),
        Op::RemoveSites(sites) => unit(p.remove_sites(sites)),
        Op::Has { site, name, rev } => match p.has(site, name, rev) {
            Ok(b) => Out::Bool(b),
            Err(e) => Out::Err(vec![error_kind(&e)]),
        },
        Op::Get { site, name, rev } => text(p.get(site, name, rev)),
        Op::GetNotes { site, name, rev } => text(p.get_notes(site, name, rev)),
        Op::GetAlias { site } => match p.get_alias(site) {
            Ok(t) => Out::Text(t),
            Err(e) => Out::Err(vec![error_kind(&e)]),
        },
        Op::List { site, pattern } => {
            let mut v: Vec<_> = p.list(site, pattern).map(|p| convert(&p)).collect();
            v.sort();
            Out::Passwords(v)
        }
        Op::ListSites { pattern } => {
            let mut v: Vec<_> = p.list_sites(pattern).inspect(|s| probe!(s)).map(|s| (s.name().to_string(), s.alias().map(|a| a.to_string()))).collect();
            v.sort();
            Out::Sites(v)
        }
        Op::Recovery { site, name, rev } => {
            let rev = crate::model::revision(rev);
            let found = p.list(site, "*").find_map(|p| match p {
                Password::Stored(p) if p.id().name() == name && p.id().revision() == rev => Some(p),
                _ => None,
            });
            match found {
                None => Out::Err(vec!["KeyMissing"]),
                Some(found) => match p.get_recovery_code(&found) {
                    Ok(code) => text(p.decode_recovery_code(&code)),
                    Err(e) => Out::Err(vec![error_kind(&e)]),
                },
            }
        }
    }
}

impl Live {
    pub fn open(backing: Backing, raw: &Raw, path: &Path) -> Live {
        match backing {
            Backing::File => {
                if raw.is_empty() {
                    let _ = std::fs::remove_file(path);
                    Live::File(Passwords::new(FileIO::new(path)), path.to_path_buf())
                } else {
                    std::fs::write(path, refc::file_text(raw)).expect("storage file");
                    Live::load(path).expect("storage file written by the reference writer should load")
                }
            }
            _ => {
                let (io, shared) = MockIO::new(raw, backing == Backing::MockReverse);
                Live::Mock(Passwords::new(io), shared)
            }
        }
    }
    pub fn load(path: &Path) -> Result<Live, String> {
        match guarded(|| FileIO::load(path)) {
            Ok(Ok(io)) => Ok(Live::File(Passwords::new(io), path.to_path_buf())),
            Ok(Err(e)) => Err(format!("{:?}", e)),
            Err(e) => Err(e),
        }
    }
    /// A new session on the data saved by this one.
    pub fn reopen(&self) -> Result<Live, String> {
        match self {
            Live::File(_, path) => Live::load(path),
            Live::Mock(_, shared) => {
                let (io, shared) = MockIO::new(&shared.borrow().file, false);
                Ok(Live::Mock(Passwords::new(io), shared))
            }
        }
    }
    /// Content of the storage file.
    pub fn raw(&self) -> Result<Raw, String> {
        match self {
            Live::Mock(_, shared) => Ok(shared.borrow().file.clone()),
            Live::File(_, path) => match std::fs::read_to_string(path) {
                Ok(text) => refc::parse_file(&text),
                Err(e) if e.kind() == std::io::ErrorKind::NotFound => Ok(Raw::new()),
                Err(e) => Err(e.to_string()),
            },
        }
    }
    pub fn exec(&mut self, op: &Op) -> Out {
        match guarded(|| on!(self, p => exec_on(p, op))) {
            Ok(out) => out,
            Err(_) => Out::Err(vec!["panic"]),
        }
    }
    /// Debug and Display output of the vault itself.
    pub fn debug(&self) -> String {
        match self {
            Live::Mock(p, _) => probe!(p),
            Live::File(p, path) => {
                probe!(p);
                match FileIO::load(path) {
                    Ok(io) => probe!(&io),
                    Err(e) => probe!(&e),
                }
            }
        }
        take_debug()
    }
    pub fn unlocked(&self) -> bool {
        on!(self, p => p.unlocked())
    }
    pub fn initialized(&self) -> bool {
        on!(self, p => p.initialized())
    }
    pub fn recovery_code(&mut self, site: &str, name: &str, rev: &str) -> Result<String, String> {
        fn code<IO: StorageIO>(p: &Passwords<IO>, site: &str, name: &str, rev: &str) -> Result<String, String> {
            for pw in p.list(site, "*") {
                if let Password::Stored(s) = &pw {
                    if s.id().name() == name && s.id().revision() == rev {
                        return p.get_recovery_code(s).map_err(|e| format!("{:?}", e));
                    }
                }
            }
            Err("no such password".into())
        }
        match guarded(|| on!(self, p => code(p, site, name, rev))) {
            Ok(r) => r,
            Err(p) => Err(p),
        }
    }
}

pub fn matches(expected: &Out, got: &Out) -> bool {
    match (expected, got) {
        (Out::Err(allowed), Out::Err(got)) => allowed.contains(&got[0]),
        (e, g) => e == g,
    }
}

/// Writes a storage with this content by means of the reference writer.
pub fn raw_for(model: &Model) -> Raw {
    if !model.initialized {
        return Raw::new();
    }
    refc::Writer::new(&model.primary, b"0123456789abcdef", &[0x42; 32]).write(&model.content)
}

/// Read-only operations whose answers determine everything a user can see.
pub fn observations(sites: &[&str], names: &[&str], revs: &[&str]) -> Vec<Op> {
    let mut v = Vec::new();
    let s = |x: &str| x.to_string();
    for site in sites {
        for name in names {
            for rev in revs {
                v.push(Op::Has { site: s(site), name: s(name), rev: s(rev) });
                v.push(Op::Get { site: s(site), name: s(name), rev: s(rev) });
                v.push(Op::GetNotes { site: s(site), name: s(name), rev: s(rev) });
            }
        }
        v.push(Op::GetAlias { site: s(site) });
        v.push(Op::List { site: s(site), pattern: s("*") });
    }
    v.push(Op::ListSites { pattern: s("*") });
    v
}

/// Observations for everything mentioned in these operations.
pub fn mentioned(ops: &[Op]) -> Vec<Op> {
    let mut sites: Vec<&str> = Vec::new();
    let mut names: Vec<&str> = Vec::new();
    let mut revs: Vec<&str> = Vec::new();
    for op in ops {
        match op {
            Op::SetGen { site, name, rev, .. }
            | Op::SetStored { site, name, rev, .. }
            | Op::SetNotes { site, name, rev, .. }
            | Op::Remove { site, name, rev } => {
                sites.push(site);
                names.push(name);
                revs.push(rev);
            }
            Op::SetAlias { site, target } => {
                sites.push(site);
                sites.push(target);
            }
            Op::RemoveAlias { site } => sites.push(site),
            Op::RemoveSites(s) => sites.extend(s.iter().map(|s| s.as_str())),
            _ => {}
        }
    }
    for v in [&mut sites, &mut names, &mut revs] {
        v.sort();
        v.dedup();
    }
    observations(&sites, &names, &revs)
}

/// Compares the saved data with the model, strictly.
pub fn check_saved(live: &Live, model: &Model) -> Result<(), String> {
    let raw = live.raw()?;
    if !model.initialized {
        return if raw.is_empty() { Ok(()) } else { Err("storage was written although nothing has been set up".into()) };
    }
    let opened = refc::open(&raw, &model.primary)?;
    if opened.content != model.content {
        return Err(format!("saved content is {}\nexpected {}", show(&opened.content), show(&model.content)));
    }
    if let Live::Mock(_, shared) = live {
        let shared = shared.borrow();
        if shared.mem != shared.file {
            let mem = refc::open(&shared.mem, &model.primary);
            if mem.map(|m| m.content).as_ref() != Ok(&model.content) {
                return Err("data in memory differs from the saved data".into());
            }
        }
    }
    Ok(())
}

pub fn show(c: &Content) -> String {
    let short = |s: &str| -> String {
        if s.len() > 60 {
            format!("{}... ({} bytes)", s.chars().take(40).collect::<String>(), s.len())
        } else {
            s.to_string()
        }
    };
    let mut t = String::from("{");
    for (s, a) in &c.sites {
        t += &format!(" {:?}->{:?};", short(s), a);
    }
    for ((s, n, r), e) in &c.passwords {
        let kind = match &e.kind {
            Kind::Generated { length, classes } => format!("gen {} {:04b}", length, classes),
            Kind::Stored(p) => format!("stored {:?}", short(p)),
        };
        t += &format!(" ({:?},{:?},{:?}): {} notes {:?};", short(s), short(n), short(r), kind, short(&e.notes));
    }
    t + " }"
}

pub fn check_observations(live: &mut Live, model: &Model, obs: &[Op]) -> Result<u64, String> {
    let mut m = model.clone();
    for op in obs {
        let expected = m.apply(op);
        let got = live.exec(op);
        if !matches(&expected, &got) {
            return Err(format!("{:?} yields {:?}, expected {:?}", op, got, expected));
        }
    }
    if live.unlocked() != model.unlocked || live.initialized() != model.initialized {
        return Err(format!(
            "unlocked {} (expected {}), initialized {} (expected {})",
            live.unlocked(),
            model.unlocked,
            live.initialized(),
            model.initialized
        ));
    }
    Ok(obs.len() as u64)
}

/// One transition of the real code that has been checked against the model.
pub struct Edge<'a> {
    pub before: &'a Model,
    pub after: &'a Model,
    pub raw_before: &'a Raw,
    pub raw_after: &'a Raw,
    pub op: &'a Op,
    pub out: &'a Out,
    pub live: &'a mut Live,
}

pub struct Explore<'a> {
    pub ctx: &'a Ctx,
    pub what: &'a str,
    pub init: Vec<Model>,
    pub ops: Vec<Op>,
    pub obs: Vec<Op>,
    pub depth: usize,
    pub max_states: usize,
    pub backings: Vec<Backing>,
    /// Additionally perform every operation in a new session on the saved data.
    pub reopen: bool,
    /// Also compare what a new session on the saved data sees after each operation.
    pub reread: bool,
    pub extra: Option<&'a (dyn Fn(&mut Edge) -> Result<(), String> + Sync)>,
}

fn path_text(init: &Model, path: &[Op]) -> String {
    let mut t = format!("start: primary {:?} initialized {} unlocked {} {}\n", init.primary, init.initialized, init.unlocked, show(&init.content));
    for op in path {
        let mut line = format!("{:?}", op);
        if line.len() > 400 {
            line = line.chars().take(400).collect();
        }
        t += &format!("  {}\n", line);
    }
    t
}

thread_local! {
    static FILE_NO: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

pub fn scratch_file(ctx: &Ctx) -> PathBuf {
    let id = format!("{:?}", std::thread::current().id());
    let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
    let dir = ctx.scratch.join(format!("t{}", id));
    let _ = std::fs::create_dir_all(&dir);
    dir.join("storage.json")
}

impl<'a> Explore<'a> {
    /// Starts a session in the given initial state.
    pub fn start(&self, init: &Model, raw: &Raw, backing: Backing) -> Result<Live, String> {
        let mut live = Live::open(backing, raw, &scratch_file(self.ctx));
        if init.initialized && init.unlocked {
            let out = live.exec(&Op::Unlock(init.primary.clone()));
            if out != Out::Unit {
                return Err(format!("valid storage does not unlock: {:?}", out));
            }
        }
        Ok(live)
    }

    /// Runs `ops` from the start, checking results of each and everything after the last.
    fn run(&self, init: &Model, raw: &Raw, backing: Backing, path: &[Op], reopen_before_last: bool, obs: &[Op]) -> Result<Model, String> {
        let mut live = self.start(init, raw, backing)?;
        let mut model = init.clone();
        let last = path.len().saturating_sub(1);
        for (i, op) in path.iter().enumerate() {
            if i == last && reopen_before_last && model.initialized {
                live = live.reopen()?;
                if model.unlocked {
                    let out = live.exec(&Op::Unlock(model.primary.clone()));
                    if out != Out::Unit {
                        return Err(format!("saved data does not unlock: {:?}", out));
                    }
                }
            }
            let before = model.clone();
            let raw_before = if i == last { live.raw()? } else { Raw::new() };
            let expected = model.apply(op);
            let got = live.exec(op);
            if !matches(&expected, &got) {
                return Err(format!("{:?} yields {:?}, expected {:?}", op, got, expected));
            }
            if i == last {
                check_saved(&live, &model)?;
                let n = check_observations(&mut live, &model, obs)?;
                self.ctx.eval(n + 1);
                if self.reread && model.initialized {
                    let mut again = live.reopen()?;
                    let mut m = model.clone();
                    m.unlocked = true;
                    let out = again.exec(&Op::Unlock(m.primary.clone()));
                    if out != Out::Unit {
                        return Err(format!("saved data does not unlock in a new session: {:?}", out));
                    }
                    check_observations(&mut again, &m, obs).map_err(|e| format!("in a new session: {}", e))?;
                }
                if let Some(extra) = self.extra {
                    let raw_after = live.raw()?;
                    extra(&mut Edge {
                        before: &before,
                        after: &model,
                        raw_before: &raw_before,
                        raw_after: &raw_after,
                        op,
                        out: &got,
                        live: &mut live,
                    })?;
                }
            }
        }
        Ok(model)
    }

    fn report(&self, init: &Model, path: &[Op], backing: Backing, reopened: bool, error: String) {
        self.ctx.violation(
            &format!("{}:{:?}", self.what, path.last()),
            format!(
                "{} ({:?}{})\n{}=> {}",
                self.what,
                backing,
                if reopened { ", new session before the last operation" } else { "" },
                path_text(init, path),
                error
            ),
        );
    }

    /// Breadth-first search over model states, every transition performed by the real code.
    pub fn bfs(&self) -> usize {
        let seen: Mutex<HashSet<Model>> = Mutex::new(self.init.iter().cloned().collect());
        let raws: Vec<Raw> = self.init.iter().map(raw_for).collect();
        let mut frontier: Vec<(Model, usize, Vec<Op>)> = self.init.iter().enumerate().map(|(i, m)| (m.clone(), i, vec![])).collect();
        let mut total = frontier.len();
        let mut closed = false;
        for level in 0..self.depth {
            let next: Mutex<HashMap<Model, (usize, Vec<Op>)>> = Default::default();
            self.ctx.par(frontier.len(), |f| {
                let (state, init_no, path) = &frontier[f];
                let init = &self.init[*init_no];
                for op in &self.ops {
                    if self.ctx.stopped() {
                        return;
                    }
                    let mut full = path.clone();
                    full.push(op.clone());
                    let mut target = None;
                    for &backing in &self.backings {
                        for reopened in if self.reopen && !path.is_empty() { vec![false, true] } else { vec![false] } {
                            match self.run(init, &raws[*init_no], backing, &full, reopened, &self.obs) {
                                Ok(m) => {
                                    self.ctx.trace(1);
                                    target = Some(m);
                                }
                                Err(e) => {
                                    self.report(init, &full, backing, reopened, e);
                                    return;
                                }
                            }
                        }
                    }
                    self.ctx.trans(1);
                    let target = target.unwrap();
                    if target != *state {
                        let mut seen = seen.lock().unwrap();
                        if seen.len() < self.max_states && seen.insert(target.clone()) {
                            next.lock().unwrap().insert(target, (*init_no, full));
                        }
                    }
                }
            });
            let mut next: Vec<_> = next.into_inner().unwrap().into_iter().map(|(m, (i, p))| (m, i, p)).collect();
            next.sort();
            if let Some((m, i, p)) = next.last() {
                self.ctx.sample(|| format!("{} depth {}: {}=> {}", self.what, level + 1, path_text(&self.init[*i], p), show(&m.content)));
            }
            total += next.len();
            if self.ctx.stopped() {
                break;
            }
            if next.is_empty() {
                closed = true;
                break;
            }
            frontier = next;
        }
        if seen.lock().unwrap().len() >= self.max_states {
            self.ctx.incomplete(&format!("{}: state limit {} reached", self.what, self.max_states));
        }
        self.ctx.state(total as u64);
        self.ctx.note(&format!(
            "{}: {} states, {} operations, {}",
            self.what,
            total,
            self.ops.len(),
            if closed { "closed (all reachable states)".to_string() } else { format!("all operation sequences up to length {} (merged by state)", self.depth) }
        ));
        total
    }

    /// All operation sequences of the given length without merging states.
    pub fn sequences(&self, length: usize) {
        let n = self.ops.len();
        let raws: Vec<Raw> = self.init.iter().map(raw_for).collect();
        self.ctx.par(n * self.init.len(), |k| {
            let init = &self.init[k / n];
            let raw = &raws[k / n];
            let mut idx = vec![0usize; length];
            idx[0] = k % n;
            loop {
                let path: Vec<Op> = idx.iter().map(|&i| self.ops[i].clone()).collect();
                for &backing in &self.backings {
                    if let Err(e) = self.run(init, raw, backing, &path, false, &self.obs) {
                        self.report(init, &path, backing, false, e);
                        return;
                    }
                    self.ctx.trace(1);
                }
                self.ctx.trans(1);
                let mut pos = length - 1;
                loop {
                    if pos == 0 {
                        return;
                    }
                    idx[pos] += 1;
                    if idx[pos] < n {
                        break;
                    }
                    idx[pos] = 0;
                    pos -= 1;
                }
                if self.ctx.stopped() {
                    return;
                }
                if self.ctx.out_of_time() {
                    self.ctx.incomplete(&format!("{}: sequences of length {}", self.what, length));
                    return;
                }
            }
        });
        self.ctx.note(&format!("{}: all {}^{} operation sequences without merging states", self.what, n, length));
    }

    /// Runs given histories completely, checking everything after each step.
    /// Long histories: the results of all operations are checked, everything else at the end only.
    pub fn whole(&self, histories: &[Vec<Op>]) {
        let raws: Vec<Raw> = self.init.iter().map(raw_for).collect();
        self.ctx.par(histories.len() * self.init.len(), |k| {
            let init = &self.init[k % self.init.len()];
            let raw = &raws[k % self.init.len()];
            let path = &histories[k / self.init.len()];
            let mut obs = self.obs.clone();
            obs.extend(mentioned(path));
            for &backing in &self.backings {
                if let Err(e) = self.run(init, raw, backing, path, self.reopen, &obs) {
                    self.report(init, path, backing, self.reopen, e);
                    return;
                }
                self.ctx.trans(path.len() as u64);
                self.ctx.trace(1);
            }
        });
    }
    pub fn histories(&self, histories: &[Vec<Op>]) {
        let raws: Vec<Raw> = self.init.iter().map(raw_for).collect();
        self.ctx.par(histories.len() * self.init.len(), |k| {
            let init = &self.init[k % self.init.len()];
            let raw = &raws[k % self.init.len()];
            let path = &histories[k / self.init.len()];
            let mut obs = self.obs.clone();
            obs.extend(mentioned(path));
            for &backing in &self.backings {
                for reopened in if self.reopen { vec![false, true] } else { vec![false] } {
                    for end in 1..=path.len() {
                        if let Err(e) = self.run(init, raw, backing, &path[..end], reopened && end > 1, &obs) {
                            self.report(init, &path[..end], backing, reopened, e);
                            return;
                        }
                        self.ctx.trans(1);
                        self.ctx.trace(1);
                    }
                }
            }
        });
    }
}
