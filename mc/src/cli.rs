//! Runs the real command line program in a controlled environment.

use crate::refc::{self, Raw};
use crate::util::Ctx;
use std::ffi::OsString;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

/// A directory of its own in which the program runs: DIR/storage.json, DIR/home, ...
pub struct Place {
    pub dir: PathBuf,
    pub file: PathBuf,
    /// How the storage file is named on the command line, if not by its absolute path
    pub given: Option<PathBuf>,
    io: PathBuf,
}

#[derive(Clone, Debug, Default)]
pub struct Res {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    pub log: Vec<String>,
}

#[derive(Clone, Default)]
pub struct Opts {
    pub plan: String,
    pub log: bool,
    pub seed: Option<u64>,
    pub pid: Option<u32>,
    pub mark: bool,
    pub real_scrypt: bool,
    /// Directory remembering scrypt results
    pub no_stdin_passwords: bool,
    pub wait: bool,
    /// Without -c
    pub default_path: bool,
    pub env: Vec<(String, OsString)>,
    pub preload_first: Option<PathBuf>,
    /// Command line is complete, no options are added.
    pub raw_args: bool,
    /// Put before the other arguments
    pub first_args: Vec<OsString>,
    pub no_home: bool,
    /// Working directory below the directory
    pub cwd: Option<PathBuf>,
    pub umask: Option<u32>,
    /// User, group and further groups
    pub user: Option<(u32, u32, Vec<u32>)>,
}

thread_local! {
    static NO: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

impl Place {
    pub fn new(ctx: &Ctx) -> Place {
        let id = format!("{:?}", std::thread::current().id());
        let id: String = id.chars().filter(|c| c.is_ascii_digit()).collect();
        let n = NO.with(|n| {
            n.set(n.get() + 1);
            n.get()
        });
        let base = ctx.scratch.join(format!("p{}-{}", id, n));
        let dir = base.join("d");
        let io = base.join("io");
        std::fs::create_dir_all(dir.join("home")).expect("scratch directory");
        std::fs::create_dir_all(&io).expect("scratch directory");
        Place { file: dir.join("storage.json"), given: None, dir, io }
    }

    pub fn write(&self, raw: &Raw) {
        std::fs::write(&self.file, refc::file_text(raw)).expect("storage file");
    }
    pub fn read(&self) -> Option<Vec<u8>> {
        std::fs::read(&self.file).ok()
    }
    pub fn raw(&self) -> Result<Raw, String> {
        let bytes = std::fs::read(&self.file).map_err(|e| e.to_string())?;
        refc::parse_file(std::str::from_utf8(&bytes).map_err(|e| e.to_string())?)
    }
    /// Removes everything from the directory (but not the directory).
    pub fn reset(&self) {
        for e in std::fs::read_dir(&self.dir).unwrap().flatten() {
            if e.file_type().map_or(false, |t| t.is_dir()) {
                let _ = std::fs::remove_dir_all(e.path());
            } else {
                let _ = std::fs::remove_file(e.path());
            }
        }
        std::fs::create_dir_all(self.dir.join("home")).unwrap();
    }
    /// All files and directories below the directory with their contents.
    pub fn tree(&self) -> std::collections::BTreeMap<String, Option<Vec<u8>>> {
        fn walk(dir: &Path, prefix: &str, out: &mut std::collections::BTreeMap<String, Option<Vec<u8>>>) {
            for e in std::fs::read_dir(dir).into_iter().flatten().flatten() {
                let name = format!("{}{}", prefix, e.file_name().to_string_lossy());
                if e.file_type().map_or(false, |t| t.is_dir()) {
                    out.insert(format!("{}/", name), None);
                    walk(&e.path(), &format!("{}/", name), out);
                } else {
                    out.insert(name, std::fs::read(e.path()).ok());
                }
            }
        }
        let mut out = Default::default();
        walk(&self.dir, "", &mut out);
        out
    }

    pub fn log_path(&self) -> PathBuf {
        self.io.join("log")
    }
    pub fn io_path(&self, name: &str) -> PathBuf {
        self.io.join(name)
    }

    pub fn command(&self, ctx: &Ctx, args: &[String], opts: &Opts) -> Command {
        let target = ctx.verif.join("target");
        let mut cmd = Command::new(target.join("cli/debug/pfp-cli"));
        if !opts.raw_args {
            if !opts.no_stdin_passwords {
                cmd.arg("--stdin-passwords");
            }
            if opts.wait {
                cmd.arg("--wait");
            }
            if !opts.default_path {
                cmd.arg("-c").arg(self.given.as_ref().unwrap_or(&self.file));
            }
        }
        cmd.args(&opts.first_args);
        cmd.args(args);
        cmd.env_clear();
        let mut preload = OsString::new();
        if let Some(first) = &opts.preload_first {
            preload.push(first);
            preload.push(":");
        }
        preload.push(target.join("preload.so"));
        cmd.env("LD_PRELOAD", preload)
            .env("PFPMC_ROOT", &self.dir)
            .env("PFPMC_LIMIT", "30")
            .env("HOME", self.dir.join("home"))
            .env("TERM", "xterm");
        if !opts.real_scrypt {
            cmd.env("PFPMC_SCRYPT", "fast");
        } else {
            cmd.env("PFPMC_SCRYPT_DIR", target.join("kdf"));
        }
        if let Some(pid) = opts.pid {
            cmd.env("PFPMC_PID", pid.to_string());
        }
        if let Some(seed) = opts.seed {
            cmd.env("PFPMC_SEED", seed.to_string());
        }
        if !opts.plan.is_empty() {
            cmd.env("PFPMC_PLAN", &opts.plan);
        }
        if opts.log {
            let _ = std::fs::remove_file(self.log_path());
            cmd.env("PFPMC_LOG", self.log_path());
        }
        if opts.mark {
            cmd.env("PFPMC_MARK", "1");
        }
        for (k, v) in &opts.env {
            cmd.env(k, v);
        }
        if opts.no_home {
            cmd.env_remove("HOME");
        }
        cmd.current_dir(opts.cwd.as_ref().map_or(self.dir.clone(), |c| self.dir.join(c)));
        if opts.umask.is_some() || opts.user.is_some() {
            let (umask, user) = (opts.umask, opts.user.clone());
            unsafe {
                cmd.pre_exec(move || {
                    if let Some(umask) = umask {
                        libc::umask(umask);
                    }
                    if let Some((uid, gid, groups)) = &user {
                        if libc::setgroups(groups.len(), groups.as_ptr()) != 0 || libc::setgid(*gid) != 0 || libc::setuid(*uid) != 0 {
                            return Err(std::io::Error::last_os_error());
                        }
                    }
                    Ok(())
                });
            }
        }
        cmd
    }

    pub fn run(&self, ctx: &Ctx, args: &[String], input: &[u8], opts: &Opts) -> Res {
        let input_path = self.io.join("in");
        std::fs::write(&input_path, input).expect("input file");
        let out_path = self.io.join("out");
        let err_path = self.io.join("err");
        let mut cmd = self.command(ctx, args, opts);
        cmd.stdin(Stdio::from(std::fs::File::open(&input_path).unwrap()))
            .stdout(Stdio::from(std::fs::File::create(&out_path).unwrap()))
            .stderr(Stdio::from(std::fs::File::create(&err_path).unwrap()));
        let status = match cmd.status() {
            Ok(s) => s,
            Err(e) => {
                eprintln!("cannot run the program: {}", e);
                std::process::exit(2);
            }
        };
        ctx.count("program runs", 1);
        Res {
            code: status.code(),
            signal: status.signal(),
            stdout: std::fs::read(&out_path).unwrap_or_default(),
            stderr: std::fs::read(&err_path).unwrap_or_default(),
            log: if opts.log { self.read_log() } else { Vec::new() },
        }
    }

    pub fn read_log(&self) -> Vec<String> {
        std::fs::read_to_string(self.log_path()).unwrap_or_default().lines().map(|l| l.to_string()).collect()
    }
}

impl Drop for Place {
    fn drop(&mut self) {
        if let Some(base) = self.dir.parent() {
            let _ = std::fs::remove_dir_all(base);
        }
    }
}

impl Res {
    pub fn out(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn err(&self) -> String {
        String::from_utf8_lossy(&self.stderr).into_owned()
    }
    /// Ended by itself, without panic.
    pub fn orderly(&self) -> Result<(), String> {
        if let Some(s) = self.signal {
            return Err(format!("ended by signal {} (endless loop or crash)", s));
        }
        if self.code == Some(101) || self.err().contains("panicked at") {
            return Err(format!("panic: {}", self.err()));
        }
        Ok(())
    }
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    pub fn describe(&self) -> String {
        let short = |s: String| if s.len() > 1500 { s.chars().take(1500).collect::<String>() + "..." } else { s };
        format!("exit {:?} signal {:?}\nstdout: {:?}\nstderr: {:?}", self.code, self.signal, short(self.out()), short(self.err()))
    }
}

pub fn args(list: &[&str]) -> Vec<String> {
    list.iter().map(|s| s.to_string()).collect()
}
pub fn lines(list: &[&str]) -> Vec<u8> {
    list.iter().map(|l| format!("{}\n", l)).collect::<String>().into_bytes()
}
