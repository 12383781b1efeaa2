//! Stand-in for scrypt 0.10.0 used by the verification harness.
//!
//! * Real mode: the algorithm of the original crate (romix.rs is copied verbatim). The result of
//!   the expensive part is remembered per (password, salt, parameters) within the process and,
//!   if PFPMC_SCRYPT_DIR is set, in files of that directory.
//! * Fast mode (environment variable PFPMC_SCRYPT=fast, or `verif::set_fast`): cost parameter 2
//!   instead of the requested one, with all requested parameters mixed into the salt. The result
//!   still depends on every bit of every input, so that scrypt is treated as an ideal function.
//! * `verif::set_override`: the caller chooses the derived bytes (thread-local).

use hmac::Hmac;
use pbkdf2::pbkdf2;
use sha2::{Digest, Sha256};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU8, Ordering};
use std::sync::Mutex;

pub mod errors {
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    pub struct InvalidOutputLen;
    #[derive(Copy, Clone, Debug, Eq, PartialEq)]
    pub struct InvalidParams;
    impl std::fmt::Display for InvalidOutputLen {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("invalid output buffer length")
        }
    }
    impl std::fmt::Display for InvalidParams {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("scrypt parameters are invalid")
        }
    }
    impl std::error::Error for InvalidOutputLen {}
    impl std::error::Error for InvalidParams {}
}
mod romix;

#[derive(Clone, Copy, Debug)]
pub struct Params {
    log_n: u8,
    r: u32,
    p: u32,
}

impl Params {
    pub fn new(log_n: u8, r: u32, p: u32) -> Result<Params, errors::InvalidParams> {
        if r == 0 || p == 0 || (log_n as usize) >= usize::BITS as usize {
            return Err(errors::InvalidParams);
        }
        let n: usize = 1 << log_n;
        let r128 = (r as usize).checked_mul(128).ok_or(errors::InvalidParams)?;
        r128.checked_mul(n).ok_or(errors::InvalidParams)?;
        r128.checked_mul(p as usize).ok_or(errors::InvalidParams)?;
        if (log_n as usize) >= r as usize * 16 || r as usize * p as usize >= 0x4000_0000 {
            return Err(errors::InvalidParams);
        }
        Ok(Params { log_n, r, p })
    }
    pub fn recommended() -> Params {
        Params { log_n: 15, r: 8, p: 1 }
    }
    pub fn log_n(&self) -> u8 {
        self.log_n
    }
    pub fn r(&self) -> u32 {
        self.r
    }
    pub fn p(&self) -> u32 {
        self.p
    }
}

impl Default for Params {
    fn default() -> Params {
        Params::recommended()
    }
}

/// Interface for the harness.
pub mod verif {
    use super::*;

    #[derive(Clone, Debug, PartialEq, Eq)]
    pub struct Call {
        pub password: Vec<u8>,
        pub salt: Vec<u8>,
        pub log_n: u8,
        pub r: u32,
        pub p: u32,
        pub len: usize,
    }

    thread_local! {
        pub(crate) static OVERRIDE: RefCell<Option<Vec<u8>>> = const { RefCell::new(None) };
        pub(crate) static CALLS: RefCell<Option<Vec<Call>>> = const { RefCell::new(None) };
    }
    /// 0: not decided yet, 1: real, 2: fast
    pub(crate) static MODE: AtomicU8 = AtomicU8::new(0);

    pub fn set_fast(fast: bool) {
        MODE.store(if fast { 2 } else { 1 }, Ordering::SeqCst);
    }
    /// Derived bytes to be produced by this thread (shorter than requested: padded with zeros).
    pub fn set_override(bytes: Option<&[u8]>) {
        OVERRIDE.with(|o| *o.borrow_mut() = bytes.map(|b| b.to_vec()));
    }
    pub fn record_calls() {
        CALLS.with(|c| *c.borrow_mut() = Some(Vec::new()));
    }
    pub fn take_calls() -> Vec<Call> {
        CALLS.with(|c| c.borrow_mut().take().unwrap_or_default())
    }
}

static MEMO: Mutex<Option<HashMap<[u8; 32], Vec<u8>>>> = Mutex::new(None);

fn fast_mode() -> bool {
    match verif::MODE.load(Ordering::SeqCst) {
        0 => {
            let fast = std::env::var_os("PFPMC_SCRYPT").map_or(false, |v| v == "fast");
            verif::set_fast(fast);
            fast
        }
        mode => mode == 2,
    }
}

fn mixed_block(password: &[u8], salt: &[u8], log_n: u8, r: u32, p: u32) -> Vec<u8> {
    let n = 1usize << log_n;
    let r128 = r as usize * 128;
    let mut b = vec![0u8; p as usize * r128];
    pbkdf2::<Hmac<Sha256>>(password, salt, 1, &mut b);
    let mut v = vec![0u8; n * r128];
    let mut t = vec![0u8; r128];
    for chunk in &mut b.chunks_mut(r128) {
        romix::scrypt_ro_mix(chunk, &mut v, &mut t, n);
    }
    b
}

fn cache_file(key: &[u8; 32]) -> Option<std::path::PathBuf> {
    let mut path = std::path::PathBuf::from(std::env::var_os("PFPMC_SCRYPT_DIR")?);
    path.push(key.iter().map(|b| format!("{:02x}", b)).collect::<String>());
    Some(path)
}

pub fn scrypt(
    password: &[u8],
    salt: &[u8],
    params: &Params,
    output: &mut [u8],
) -> Result<(), errors::InvalidOutputLen> {
    if output.is_empty() || output.len() / 32 > 0xffff_ffff {
        return Err(errors::InvalidOutputLen);
    }
    verif::CALLS.with(|c| {
        if let Some(calls) = c.borrow_mut().as_mut() {
            calls.push(verif::Call {
                password: password.to_vec(),
                salt: salt.to_vec(),
                log_n: params.log_n,
                r: params.r,
                p: params.p,
                len: output.len(),
            });
        }
    });
    let overridden = verif::OVERRIDE.with(|o| {
        if let Some(bytes) = o.borrow().as_ref() {
            for (i, b) in output.iter_mut().enumerate() {
                *b = bytes.get(i).copied().unwrap_or(0);
            }
            true
        } else {
            false
        }
    });
    if overridden {
        return Ok(());
    }

    if fast_mode() {
        // Same structure with a single 128 byte block and N=2, all parameters mixed into the salt.
        let mut hash = Sha256::new();
        hash.update(salt);
        hash.update([params.log_n]);
        hash.update(params.r.to_le_bytes());
        hash.update(params.p.to_le_bytes());
        let b = mixed_block(password, &hash.finalize(), 1, 1, 1);
        pbkdf2::<Hmac<Sha256>>(password, &b, 1, output);
        return Ok(());
    }

    let mut hash = Sha256::new();
    hash.update((password.len() as u64).to_le_bytes());
    hash.update(password);
    hash.update((salt.len() as u64).to_le_bytes());
    hash.update(salt);
    hash.update([params.log_n]);
    hash.update(params.r.to_le_bytes());
    hash.update(params.p.to_le_bytes());
    let key: [u8; 32] = hash.finalize().into();

    let known = MEMO
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_ref()
        .and_then(|m| m.get(&key).cloned());
    let b = match known {
        Some(b) => b,
        None => {
            let size = params.r as usize * 128 * params.p as usize;
            let file = cache_file(&key);
            let stored = file
                .as_ref()
                .and_then(|f| std::fs::read(f).ok())
                .filter(|b| b.len() == size);
            let b = stored.unwrap_or_else(|| {
                let b = mixed_block(password, salt, params.log_n, params.r, params.p);
                if let Some(f) = &file {
                    let tmp = f.with_extension(std::process::id().to_string());
                    if std::fs::write(&tmp, &b).is_ok() {
                        let _ = std::fs::rename(&tmp, f);
                    }
                }
                b
            });
            MEMO.lock()
                .unwrap_or_else(|e| e.into_inner())
                .get_or_insert_with(HashMap::new)
                .insert(key, b.clone());
            b
        }
    };
    pbkdf2::<Hmac<Sha256>>(password, &b, 1, output);
    Ok(())
}
