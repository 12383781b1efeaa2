//! Reference model of the vault: two plain maps. Deliberately boring.

use crate::refc::{self, Content, Entry, Id, Kind};

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Op {
    Reset(String),
    Unlock(String),
    Lock,
    SetGen { site: String, name: String, rev: String, len: usize, classes: u8 },
    SetStored { site: String, name: String, rev: String, pw: String },
    SetNotes { site: String, name: String, rev: String, notes: String },
    Remove { site: String, name: String, rev: String },
    SetAlias { site: String, target: String },
    RemoveAlias { site: String },
    RemoveSites(Vec<String>),
    /// Read-only operations
    Has { site: String, name: String, rev: String },
    Get { site: String, name: String, rev: String },
    GetNotes { site: String, name: String, rev: String },
    GetAlias { site: String },
    List { site: String, pattern: String },
    ListSites { pattern: String },
    /// Recovery code of a stored password, decoded again.
    Recovery { site: String, name: String, rev: String },
}

/// Result of an operation as far as callers can see it.
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Out {
    Unit,
    Bool(bool),
    Text(String),
    Passwords(Vec<(Id, Entry)>),
    Sites(Vec<(String, Option<String>)>),
    /// One of these error kinds
    Err(Vec<&'static str>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Model {
    pub initialized: bool,
    pub primary: String,
    /// The running session has been unlocked (with `primary`).
    pub unlocked: bool,
    pub content: Content,
}

pub fn normalize(site: &str) -> String {
    site.strip_prefix("www.").unwrap_or(site).to_string()
}
pub fn revision(rev: &str) -> String {
    if rev == "1" { String::new() } else { rev.to_string() }
}

fn err(kind: &'static str) -> Out {
    Out::Err(vec![kind])
}

/// `*` any text, `?` one character, everything else itself. By dynamic programming.
pub fn wild(pattern: &str, text: &str) -> bool {
    let p: Vec<char> = pattern.chars().collect();
    let t: Vec<char> = text.chars().collect();
    let mut row: Vec<bool> = (0..=t.len()).map(|j| j == 0).collect();
    for &c in &p {
        let mut next = vec![false; t.len() + 1];
        for j in 0..=t.len() {
            next[j] = match c {
                '*' => row[j] || (j > 0 && next[j - 1]),
                '?' => j > 0 && row[j - 1],
                c => j > 0 && row[j - 1] && t[j - 1] == c,
            };
        }
        row = next;
    }
    row[t.len()]
}

impl Model {
    pub fn initial(primary: &str, content: Content) -> Model {
        Model { initialized: true, primary: primary.to_string(), unlocked: true, content }
    }

    pub fn resolve(&self, site: &str) -> String {
        let site = normalize(site);
        match self.content.sites.get(&site) {
            Some(Some(alias)) => alias.clone(),
            _ => site,
        }
    }
    pub fn id(&self, site: &str, name: &str, rev: &str) -> Id {
        (self.resolve(site), name.to_string(), revision(rev))
    }
    pub fn value(&self, id: &Id, entry: &Entry) -> String {
        match &entry.kind {
            Kind::Stored(p) => p.clone(),
            Kind::Generated { length, classes } => refc::generate(&self.primary, &id.0, &id.1, &id.2, *length, *classes),
        }
    }
    fn has_passwords(&self, site: &str) -> bool {
        self.content.passwords.keys().any(|id| id.0 == site)
    }

    /// Performs the operation, returns what the caller should see.
    pub fn apply(&mut self, op: &Op) -> Out {
        let locked = err("PasswordsLocked");
        match op {
            Op::Reset(pw) => {
                *self = Model::initial(pw, Content::default());
                return Out::Unit;
            }
            Op::Unlock(pw) => {
                return if !self.initialized {
                    err("StorageNotInitialized")
                } else if *pw == self.primary {
                    self.unlocked = true;
                    Out::Unit
                } else {
                    err("DecryptionFailure")
                };
            }
            Op::Lock => {
                self.unlocked = false;
                return Out::Unit;
            }
            Op::List { .. } | Op::ListSites { .. } if !self.unlocked => return Out::Err(vec!["panic", "PasswordsLocked"]),
            Op::Recovery { .. } if !self.unlocked => return Out::Err(vec!["PasswordsLocked", "panic", "StorageNotInitialized"]),
            _ if !self.unlocked => return locked,
            _ => {}
        }
        match op {
            Op::Reset(_) | Op::Unlock(_) | Op::Lock => unreachable!(),
            Op::SetGen { site, name, rev, len, classes } => {
                let id = self.id(site, name, rev);
                self.content.sites.entry(id.0.clone()).or_insert(None);
                let kind = Kind::Generated { length: *len, classes: *classes };
                self.content.passwords.insert(id, Entry { kind, notes: String::new() });
                Out::Unit
            }
            Op::SetStored { site, name, rev, pw } => {
                let id = self.id(site, name, rev);
                self.content.sites.entry(id.0.clone()).or_insert(None);
                self.content.passwords.insert(id, Entry { kind: Kind::Stored(pw.clone()), notes: String::new() });
                Out::Unit
            }
            Op::SetNotes { site, name, rev, notes } => {
                let id = self.id(site, name, rev);
                match self.content.passwords.get_mut(&id) {
                    Some(entry) => {
                        entry.notes = notes.clone();
                        Out::Unit
                    }
                    None => err("KeyMissing"),
                }
            }
            Op::Remove { site, name, rev } => {
                let id = self.id(site, name, rev);
                match self.content.passwords.remove(&id) {
                    Some(_) => Out::Unit,
                    None => err("KeyMissing"),
                }
            }
            Op::SetAlias { site, target } => {
                let site = normalize(site);
                let target = self.resolve(target);
                let mut errors = Vec::new();
                if self.has_passwords(&site) {
                    errors.push("SiteHasPasswords");
                }
                if site == target {
                    errors.push("AliasToSelf");
                }
                if !errors.is_empty() {
                    return Out::Err(errors);
                }
                for alias in self.content.sites.values_mut() {
                    if alias.as_ref() == Some(&site) {
                        *alias = Some(target.clone());
                    }
                }
                self.content.sites.insert(site, Some(target));
                Out::Unit
            }
            Op::RemoveAlias { site } => {
                let site = normalize(site);
                match self.content.sites.get(&site) {
                    Some(Some(_)) => {
                        self.content.sites.remove(&site);
                        Out::Unit
                    }
                    _ => err("NoSuchAlias"),
                }
            }
            Op::RemoveSites(sites) => {
                if sites.iter().any(|s| !self.content.sites.contains_key(s)) {
                    return err("KeyMissing");
                }
                for s in sites {
                    self.content.sites.remove(s);
                }
                Out::Unit
            }
            Op::Has { site, name, rev } => Out::Bool(self.content.passwords.contains_key(&self.id(site, name, rev))),
            Op::Get { site, name, rev } => {
                let id = self.id(site, name, rev);
                match self.content.passwords.get(&id) {
                    Some(e) => Out::Text(self.value(&id, e)),
                    None => err("KeyMissing"),
                }
            }
            Op::GetNotes { site, name, rev } => match self.content.passwords.get(&self.id(site, name, rev)) {
                Some(e) => Out::Text(e.notes.clone()),
                None => err("KeyMissing"),
            },
            Op::GetAlias { site } => match self.content.sites.get(&normalize(site)) {
                Some(Some(a)) => Out::Text(a.clone()),
                _ => err("NoSuchAlias"),
            },
            Op::List { site, pattern } => {
                let site = self.resolve(site);
                Out::Passwords(
                    self.content
                        .passwords
                        .iter()
                        .filter(|(id, _)| id.0 == site && wild(pattern, &id.1))
                        .map(|(id, e)| (id.clone(), e.clone()))
                        .collect(),
                )
            }
            Op::ListSites { pattern } => Out::Sites(
                self.content
                    .sites
                    .iter()
                    .filter(|(s, a)| wild(pattern, s) || a.as_ref().map_or(false, |a| wild(pattern, a)))
                    .map(|(s, a)| (s.clone(), a.clone()))
                    .collect(),
            ),
            Op::Recovery { site, name, rev } => match self.content.passwords.get(&self.id(site, name, rev)) {
                Some(Entry { kind: Kind::Stored(p), .. }) => Out::Text(p.clone()),
                _ => err("KeyMissing"),
            },
        }
    }
}

impl Op {
    pub fn read_only(&self) -> bool {
        matches!(
            self,
            Op::Has { .. } | Op::Get { .. } | Op::GetNotes { .. } | Op::GetAlias { .. } | Op::List { .. } | Op::ListSites { .. } | Op::Recovery { .. }
        )
    }
    /// Changes what is in the storage file when it succeeds.
    pub fn modifying(&self) -> bool {
        !self.read_only() && !matches!(self, Op::Unlock(_) | Op::Lock)
    }
}

pub fn s(x: &str) -> String {
    x.to_string()
}
pub fn gen(site: &str, name: &str, rev: &str, len: usize, classes: u8) -> Op {
    Op::SetGen { site: s(site), name: s(name), rev: s(rev), len, classes }
}
pub fn stored(site: &str, name: &str, rev: &str, pw: &str) -> Op {
    Op::SetStored { site: s(site), name: s(name), rev: s(rev), pw: s(pw) }
}
pub fn notes(site: &str, name: &str, rev: &str, notes: &str) -> Op {
    Op::SetNotes { site: s(site), name: s(name), rev: s(rev), notes: s(notes) }
}
pub fn remove(site: &str, name: &str, rev: &str) -> Op {
    Op::Remove { site: s(site), name: s(name), rev: s(rev) }
}
pub fn alias(site: &str, target: &str) -> Op {
    Op::SetAlias { site: s(site), target: s(target) }
}
pub fn unalias(site: &str) -> Op {
    Op::RemoveAlias { site: s(site) }
}
