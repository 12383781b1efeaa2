//! Independent reference implementation of the PfP storage format (version 3), password generation
//! and recovery codes, written from the format description, sharing only the basic cryptographic
//! primitives (AES, HMAC, SHA-2, scrypt) with the program.

use aes_gcm::aead::{Aead, NewAead};
use hmac::Mac;
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn kdf(password: &[u8], salt: &[u8], len: usize) -> Vec<u8> {
    let mut out = vec![0u8; len];
    scrypt::scrypt(password, salt, &scrypt::Params::new(15, 8, 1).unwrap(), &mut out).unwrap();
    out
}

/// The extension treats the salt as a string with one character per byte and encodes it as UTF-8.
pub fn storage_key(primary: &str, salt: &[u8]) -> Vec<u8> {
    let mut s = Vec::new();
    for &b in salt {
        if b < 0x80 {
            s.push(b);
        } else {
            s.push(0xC0 | (b >> 6));
            s.push(0x80 | (b & 0x3F));
        }
    }
    kdf(primary.as_bytes(), &s, 32)
}

pub fn b64(data: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut out = String::with_capacity((data.len() + 2) / 3 * 4);
    for c in data.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            if i <= c.len() {
                out.push(A[(v >> (18 - 6 * i) & 63) as usize] as char);
            } else {
                out.push('=');
            }
        }
    }
    out
}

/// Strict decoder: canonical, padded Base64 only.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::new();
    for c in b.chunks(4) {
        let mut v = 0u32;
        let mut pad = 0;
        for &x in c {
            let d = match x {
                b'A'..=b'Z' => x - b'A',
                b'a'..=b'z' => x - b'a' + 26,
                b'0'..=b'9' => x - b'0' + 52,
                b'+' => 62,
                b'/' => 63,
                b'=' => {
                    pad += 1;
                    0
                }
                _ => return None,
            };
            if pad > 0 && x != b'=' {
                return None;
            }
            v = v << 6 | d as u32;
        }
        let bytes = [(v >> 16) as u8, (v >> 8) as u8, v as u8];
        if pad > 2 {
            return None;
        }
        out.extend_from_slice(&bytes[..3 - pad]);
    }
    if b64(&out) == s {
        Some(out)
    } else {
        None
    }
}

pub fn gcm_encrypt(key: &[u8], nonce: &[u8], plain: &[u8]) -> Vec<u8> {
    aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key))
        .encrypt(aes_gcm::Nonce::from_slice(nonce), plain)
        .unwrap()
}
pub fn gcm_decrypt(key: &[u8], nonce: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if nonce.len() != 12 {
        return None;
    }
    aes_gcm::Aes256Gcm::new(aes_gcm::Key::from_slice(key))
        .decrypt(aes_gcm::Nonce::from_slice(nonce), data)
        .ok()
}

pub fn split_value(value: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let (n, c) = value.split_once('_')?;
    Some((unb64(n)?, unb64(c)?))
}
pub fn encrypt_value(key: &[u8], nonce: &[u8], plain: &[u8]) -> String {
    format!("{}_{}", b64(nonce), b64(&gcm_encrypt(key, nonce, plain)))
}
pub fn decrypt_value(key: &[u8], value: &str) -> Option<Vec<u8>> {
    let (n, c) = split_value(value)?;
    gcm_decrypt(key, &n, &c)
}

pub fn digest(secret: &[u8], data: &str) -> String {
    let mut mac = hmac::Hmac::<sha2::Sha256>::new_from_slice(secret).unwrap();
    mac.update(data.as_bytes());
    b64(&mac.finalize().into_bytes())
}

// ---- password generation ----

pub const CLASSES: [&str; 4] = [
    "abcdefghjkmnpqrstuvwxyz",
    "ABCDEFGHJKMNPQRSTUVWXYZ",
    "23456789",
    "!#$%&()*+,-./:;<=>?@[]^_{|}~",
];

pub fn generation_salt(site: &str, name: &str, revision: &str) -> String {
    if revision.is_empty() || revision == "1" {
        format!("{}\0{}", site, name)
    } else {
        format!("{}\0{}\0{}", site, name, revision)
    }
}

/// Turns derived bytes into a password. `classes`: bit mask of allowed character classes.
pub fn bytes_to_password(bytes: &[u8], classes: u8) -> String {
    let mut missing: Vec<usize> = (0..4).filter(|i| classes >> i & 1 == 1).collect();
    let all = missing.clone();
    let mut out = String::new();
    for (pos, &byte) in bytes.iter().enumerate() {
        let remaining = bytes.len() - pos;
        // As soon as the remaining places are all needed for missing classes, only these are used.
        let pool: String = if missing.len() >= remaining { &missing } else { &all }
            .iter()
            .map(|&i| CLASSES[i])
            .collect();
        let pool = pool.as_bytes();
        let c = pool[byte as usize % pool.len()] as char;
        out.push(c);
        missing.retain(|&i| !CLASSES[i].contains(c));
    }
    out
}

pub fn generate(primary: &str, site: &str, name: &str, revision: &str, len: usize, classes: u8) -> String {
    let bytes = kdf(primary.as_bytes(), generation_salt(site, name, revision).as_bytes(), len);
    bytes_to_password(&bytes, classes)
}

// ---- recovery codes ----

pub const BASE32: &[u8; 32] = b"ABCDEFGHJKLMNPQRSTUVWXYZ23456789";

pub fn base32(data: &[u8]) -> String {
    let mut out = String::new();
    let (mut acc, mut bits) = (0u32, 0);
    for &b in data {
        acc = acc << 8 | b as u32;
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push(BASE32[(acc >> bits & 31) as usize] as char);
        }
        acc &= (1 << bits) - 1;
    }
    out
}
pub fn unbase32(s: &str) -> Option<Vec<u8>> {
    let mut out = Vec::new();
    let (mut acc, mut bits) = (0u32, 0);
    for c in s.bytes() {
        acc = acc << 5 | BASE32.iter().position(|&x| x == c)? as u32;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            out.push((acc >> bits) as u8);
            acc &= (1 << bits) - 1;
        }
    }
    Some(out)
}

pub fn pearson(data: &[u8], start: u8) -> u8 {
    let t = |x: u8| ((x as u32 + 379) * 467 & 255) as u8;
    data.iter().fold(t(start), |h, b| t(h ^ b))
}

/// Complete recovery code as plain Base32 text (no punctuation).
pub fn recovery_plain(password: &str, salt: &[u8], key: &[u8], nonce: &[u8]) -> String {
    let mut plain = password.as_bytes().to_vec();
    while (1 + 16 + 12 + 16 + plain.len()) % 14 != 0 {
        plain.push(0);
    }
    recovery_from_plaintext(&plain, salt, key, nonce, 1)
}
pub fn recovery_from_plaintext(plain: &[u8], salt: &[u8], key: &[u8], nonce: &[u8], version: u8) -> String {
    let mut data = vec![version];
    data.extend_from_slice(salt);
    data.extend_from_slice(nonce);
    data.extend(gcm_encrypt(key, nonce, plain));
    recovery_from_data(&data)
}
/// Adds checksums and encodes (data length must be a multiple of 14).
pub fn recovery_from_data(data: &[u8]) -> String {
    let blocks: Vec<&[u8]> = data.chunks(14).collect();
    let mut out = Vec::new();
    for (i, block) in blocks.iter().enumerate() {
        out.extend_from_slice(block);
        let start = if i == blocks.len() - 1 { 255 - (i & 255) as u8 } else { (i & 255) as u8 };
        out.push(pearson(block, start));
    }
    base32(&out)
}

pub fn recovery_clean(code: &str) -> String {
    code.chars()
        .map(|c| c.to_ascii_uppercase())
        .filter(|&c| (c as u32) < 128 && BASE32.contains(&(c as u8)))
        .collect()
}

/// Canonical punctuation: groups of four, "-" within and ":" between the halves of a line.
pub fn recovery_pretty(plain: &str) -> String {
    plain
        .as_bytes()
        .chunks(24)
        .map(|line| {
            line.chunks(12)
                .map(|half| {
                    half.chunks(4)
                        .map(|g| std::str::from_utf8(g).unwrap().to_string())
                        .collect::<Vec<_>>()
                        .join("-")
                })
                .collect::<Vec<_>>()
                .join(":")
        })
        .collect::<Vec<_>>()
        .join("\n")
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Decoded {
    Password(String),
    Mismatch(usize),
    Incomplete,
    Extra(usize),
    WrongVersion,
    Insufficient,
    Undecryptable,
    NotText,
}

pub fn recovery_decode(code: &str, primary: &str) -> Decoded {
    let clean = recovery_clean(code);
    let complete_lines = clean.len() / 24;
    let mut data = Vec::new();
    let mut done = None;
    for i in 0..complete_lines {
        let line = unbase32(&clean[i * 24..i * 24 + 24]).unwrap();
        let (block, sum) = line.split_at(14);
        data.extend_from_slice(block);
        if sum[0] == pearson(block, 255 - (i & 255) as u8) {
            done = Some(i + 1);
            break;
        } else if sum[0] != pearson(block, (i & 255) as u8) {
            return Decoded::Mismatch(i);
        }
    }
    let end = match done {
        None => return Decoded::Incomplete,
        Some(n) => n,
    };
    if clean.len() > end * 24 {
        return Decoded::Extra(end);
    }
    if data[0] != 1 {
        return Decoded::WrongVersion;
    }
    if data.len() < 45 {
        return Decoded::Insufficient;
    }
    let key = storage_key(primary, &data[1..17]);
    match gcm_decrypt(&key, &data[17..29], &data[29..]) {
        None => Decoded::Undecryptable,
        Some(mut plain) => {
            while plain.last() == Some(&0) {
                plain.pop();
            }
            match String::from_utf8(plain) {
                Ok(s) => Decoded::Password(s),
                Err(_) => Decoded::NotText,
            }
        }
    }
}

// ---- storage content ----

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Kind {
    Generated { length: usize, classes: u8 },
    Stored(String),
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Entry {
    pub kind: Kind,
    pub notes: String,
}

/// (site, name, revision), revision "" meaning none.
pub type Id = (String, String, String);

#[derive(Debug, Clone, PartialEq, Eq, Hash, Default, PartialOrd, Ord)]
pub struct Content {
    pub sites: BTreeMap<String, Option<String>>,
    pub passwords: BTreeMap<Id, Entry>,
}

pub type Raw = BTreeMap<String, String>;

pub struct Opened {
    pub salt: Vec<u8>,
    pub key: Vec<u8>,
    pub hmac_secret: Vec<u8>,
    pub content: Content,
}

fn record(plain: &[u8]) -> Result<Map<String, Value>, String> {
    let text = std::str::from_utf8(plain).map_err(|e| e.to_string())?;
    match serde_json::from_str(text) {
        Ok(Value::Object(map)) => Ok(map),
        other => Err(format!("record is not an object: {:?}", other)),
    }
}

fn text(map: &Map<String, Value>, key: &str) -> Result<String, String> {
    map.get(key)
        .and_then(|v| v.as_str())
        .map(|s| s.to_string())
        .ok_or_else(|| format!("field {} missing or not a string in {:?}", key, map))
}

fn only(map: &Map<String, Value>, allowed: &[&str]) -> Result<(), String> {
    for k in map.keys() {
        if !allowed.contains(&k.as_str()) {
            return Err(format!("unexpected field {:?} in {:?}", k, map));
        }
    }
    Ok(())
}

/// Number of keys in the JSON text, including duplicates. The text has to be valid.
fn count_keys(text: &str) -> usize {
    let b = text.as_bytes();
    let (mut i, mut n) = (0, 0);
    while i < b.len() {
        if b[i] == b'"' {
            i += 1;
            while b[i] != b'"' {
                i += if b[i] == b'\\' { 2 } else { 1 };
            }
            let rest = text[i + 1..].trim_start();
            if rest.starts_with(':') {
                n += 1;
            }
        }
        i += 1;
    }
    n
}

/// Parses a storage document (the JSON text of the file).
pub fn parse_file(text: &str) -> Result<Raw, String> {
    let v: Value = serde_json::from_str(text).map_err(|e| format!("not JSON: {}", e))?;
    if let Some(data) = v.get("data").and_then(|d| d.as_object()) {
        if count_keys(text) != 3 + data.len() {
            return Err("duplicate or additional fields in the document".into());
        }
    }
    let map = v.as_object().ok_or("document is not an object")?;
    only(map, &["application", "format", "data"])?;
    if map.get("application") != Some(&json!("pfp")) || map.get("format") != Some(&json!(3)) {
        return Err("application or format field is wrong".into());
    }
    let data = map.get("data").and_then(|d| d.as_object()).ok_or("no data object")?;
    data.iter()
        .map(|(k, v)| Ok((k.clone(), v.as_str().ok_or("value is not a string")?.to_string())))
        .collect()
}

/// Strict reader of storage content: every entry has to be decryptable, be found under the key
/// belonging to it and have exactly the fields of the format.
pub fn open(raw: &Raw, primary: &str) -> Result<Opened, String> {
    let salt = unb64(raw.get("salt").ok_or("salt missing")?).ok_or("salt is not Base64")?;
    let key = storage_key(primary, &salt);
    let secret = decrypt_value(&key, raw.get("hmac-secret").ok_or("hmac-secret missing")?).ok_or("hmac-secret cannot be decrypted")?;
    let secret: String = serde_json::from_slice(&secret).map_err(|e| format!("hmac-secret: {}", e))?;
    let hmac_secret = unb64(&secret).ok_or("hmac-secret is not Base64")?;
    let mut content = Content::default();
    for (k, v) in raw {
        if k == "salt" || k == "hmac-secret" {
            continue;
        }
        let plain = decrypt_value(&key, v).ok_or_else(|| format!("entry {} cannot be decrypted", k))?;
        let map = record(&plain)?;
        let site = self::text(&map, "site")?;
        let site_key = format!("site:{}", digest(&hmac_secret, &site));
        if let Some(kind) = map.get("type") {
            let name = self::text(&map, "name")?;
            let revision = self::text(&map, "revision")?;
            if revision == "1" {
                return Err(format!("revision 1 stored explicitly: {:?}", map));
            }
            let expected = format!("{}:{}", site_key, digest(&hmac_secret, &format!("{}\0{}\0{}", site, name, revision)));
            if *k != expected {
                return Err(format!("record {:?} under wrong key {}", map, k));
            }
            let notes = if map.contains_key("notes") { self::text(&map, "notes")? } else { String::new() };
            let kind = match kind.as_str() {
                Some("generated2") => {
                    only(&map, &["type", "site", "name", "revision", "length", "lower", "upper", "number", "symbol", "notes"])?;
                    let mut classes = 0;
                    for (i, f) in ["lower", "upper", "number", "symbol"].iter().enumerate() {
                        match map.get(*f) {
                            Some(Value::Bool(true)) => classes |= 1 << i,
                            Some(Value::Bool(false)) => {}
                            _ => return Err(format!("field {} missing in {:?}", f, map)),
                        }
                    }
                    let length = map.get("length").and_then(|l| l.as_u64()).ok_or("length missing")? as usize;
                    Kind::Generated { length, classes }
                }
                Some("stored") => {
                    only(&map, &["type", "site", "name", "revision", "password", "notes"])?;
                    Kind::Stored(self::text(&map, "password")?)
                }
                other => return Err(format!("unknown type {:?}", other)),
            };
            if content.passwords.insert((site, name, revision), Entry { kind, notes }).is_some() {
                return Err(format!("duplicate record {}", k));
            }
        } else {
            only(&map, &["site", "alias"])?;
            if *k != site_key {
                return Err(format!("site record {:?} under wrong key {}", map, k));
            }
            let alias = if map.contains_key("alias") { Some(self::text(&map, "alias")?) } else { None };
            content.sites.insert(site, alias);
        }
    }
    Ok(Opened { salt, key, hmac_secret, content })
}

/// Writer of storage content, nonces are numbered.
pub struct Writer {
    pub salt: Vec<u8>,
    pub key: Vec<u8>,
    pub hmac_secret: Vec<u8>,
    pub nonce: u64,
}

impl Writer {
    pub fn new(primary: &str, salt: &[u8], hmac_secret: &[u8]) -> Writer {
        Writer { salt: salt.to_vec(), key: storage_key(primary, salt), hmac_secret: hmac_secret.to_vec(), nonce: 1 }
    }
    pub fn enc(&mut self, plain: &[u8]) -> String {
        let mut nonce = [0xA5u8; 12];
        nonce[..8].copy_from_slice(&self.nonce.to_be_bytes());
        self.nonce += 1;
        encrypt_value(&self.key, &nonce, plain)
    }
    pub fn base(&mut self) -> Raw {
        let secret = serde_json::to_vec(&json!(b64(&self.hmac_secret))).unwrap();
        let secret = self.enc(&secret);
        BTreeMap::from([("salt".to_string(), b64(&self.salt)), ("hmac-secret".to_string(), secret)])
    }
    pub fn site_key(&self, site: &str) -> String {
        format!("site:{}", digest(&self.hmac_secret, site))
    }
    pub fn password_key(&self, id: &Id) -> String {
        format!("{}:{}", self.site_key(&id.0), digest(&self.hmac_secret, &format!("{}\0{}\0{}", id.0, id.1, id.2)))
    }
    pub fn site_record(site: &str, alias: &Option<String>) -> Value {
        match alias {
            Some(a) => json!({"site": site, "alias": a}),
            None => json!({ "site": site }),
        }
    }
    pub fn password_record(id: &Id, e: &Entry) -> Value {
        let mut v = match &e.kind {
            Kind::Generated { length, classes } => json!({"type": "generated2", "site": id.0, "name": id.1, "revision": id.2,
                "length": length, "lower": classes & 1 != 0, "upper": classes & 2 != 0,
                "number": classes & 4 != 0, "symbol": classes & 8 != 0}),
            Kind::Stored(p) => json!({"type": "stored", "site": id.0, "name": id.1, "revision": id.2, "password": p}),
        };
        if !e.notes.is_empty() {
            v["notes"] = json!(e.notes);
        }
        v
    }
    pub fn write(&mut self, content: &Content) -> Raw {
        let mut raw = self.base();
        for (site, alias) in &content.sites {
            let v = self.enc(Self::site_record(site, alias).to_string().as_bytes());
            raw.insert(self.site_key(site), v);
        }
        for (id, e) in &content.passwords {
            let v = self.enc(Self::password_record(id, e).to_string().as_bytes());
            raw.insert(self.password_key(id), v);
        }
        raw
    }
}

pub fn file_text(raw: &Raw) -> String {
    json!({"application": "pfp", "format": 3, "data": raw}).to_string()
}
