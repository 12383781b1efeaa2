//! Runs a program with a terminal of its own, the way rpassword expects it.

use std::os::unix::io::FromRawFd;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

#[derive(Debug, Default)]
pub struct Session {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    /// Everything shown on the terminal, standard error included
    pub shown: String,
    /// Number of lines of the script typed
    pub typed: usize,
    pub timeout: bool,
    /// The terminal would have displayed what is typed when a secret was asked for
    pub echo: bool,
    /// Settings of the terminal at the end are those from before
    pub restored: bool,
}

fn settings(fd: i32) -> libc::termios {
    unsafe {
        let mut t = std::mem::zeroed();
        libc::tcgetattr(fd, &mut t);
        t
    }
}

/// Waits for any of the prompts each time, then types the next bytes. Ends when the script is used up and the program
/// exits. If the program asks for more than the script has, an end of file is typed.
pub fn run(cmd: Command, prompts: &[&str], script: &[Vec<u8>]) -> Session {
    run_secret(cmd, prompts, &[], script)
}

/// The same, where some of the prompts ask for secrets: typing starts once the terminal doesn't display it.
pub fn run_secret(mut cmd: Command, prompts: &[&str], secret: &[&str], script: &[Vec<u8>]) -> Session {
    unsafe {
        let master = libc::posix_openpt(libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        if master < 0 || libc::grantpt(master) != 0 || libc::unlockpt(master) != 0 {
            eprintln!("no terminal available");
            std::process::exit(2);
        }
        let mut name = [0 as libc::c_char; 128];
        if libc::ptsname_r(master, name.as_mut_ptr(), name.len()) != 0 {
            eprintln!("no terminal available");
            std::process::exit(2);
        }
        let slave = libc::open(name.as_ptr(), libc::O_RDWR | libc::O_NOCTTY | libc::O_CLOEXEC);
        let size = libc::winsize { ws_row: 50, ws_col: 500, ws_xpixel: 0, ws_ypixel: 0 };
        libc::ioctl(master, libc::TIOCSWINSZ, &size);
        let initial = settings(master);
        cmd.stdin(Stdio::from_raw_fd(libc::fcntl(slave, libc::F_DUPFD_CLOEXEC, 3)))
            .stdout(Stdio::from_raw_fd(libc::fcntl(slave, libc::F_DUPFD_CLOEXEC, 3)))
            .stderr(Stdio::from_raw_fd(libc::fcntl(slave, libc::F_DUPFD_CLOEXEC, 3)));
        cmd.pre_exec(|| {
            libc::setsid();
            if libc::ioctl(0, libc::TIOCSCTTY, 0) != 0 {
                return Err(std::io::Error::last_os_error());
            }
            Ok(())
        });
        let mut child = match cmd.spawn() {
            Ok(c) => c,
            Err(e) => {
                eprintln!("cannot run the program: {}", e);
                std::process::exit(2);
            }
        };
        drop(cmd);
        libc::close(slave);
        let mut out: Vec<u8> = Vec::new();
        let mut seen = 0;
        let mut s = Session::default();
        let end = Instant::now() + Duration::from_secs(40);
        let mut buf = [0u8; 65536];
        loop {
            let mut p = libc::pollfd { fd: master, events: libc::POLLIN, revents: 0 };
            let n = libc::poll(&mut p, 1, 1000);
            if n > 0 {
                let n = libc::read(master, buf.as_mut_ptr() as *mut _, buf.len());
                if n <= 0 {
                    break;
                }
                out.extend(&buf[..n as usize]);
            } else if Instant::now() > end {
                s.timeout = true;
                let _ = child.kill();
                break;
            }
            let fresh = &out[seen..];
            if prompts.iter().any(|p| fresh.windows(p.len()).any(|w| w == p.as_bytes())) {
                if secret.iter().any(|p| fresh.windows(p.len()).any(|w| w == p.as_bytes())) {
                    let wait = Instant::now() + Duration::from_secs(5);
                    while settings(master).c_lflag & libc::ECHO != 0 && Instant::now() < wait {
                        std::thread::sleep(Duration::from_micros(200));
                    }
                    s.echo |= settings(master).c_lflag & libc::ECHO != 0;
                }
                seen = out.len();
                let bytes: &[u8] = match script.get(s.typed) {
                    Some(b) => b,
                    None => b"\x04",
                };
                s.typed += 1;
                let mut done = 0;
                while done < bytes.len() {
                    let n = libc::write(master, bytes[done..].as_ptr() as *const _, bytes.len() - done);
                    if n <= 0 {
                        break;
                    }
                    done += n as usize;
                }
                if s.typed > script.len() + 20 {
                    s.timeout = true;
                    let _ = child.kill();
                    break;
                }
            }
        }
        let end = settings(master);
        s.restored = (end.c_iflag, end.c_oflag, end.c_cflag, end.c_lflag, end.c_cc) == (initial.c_iflag, initial.c_oflag, initial.c_cflag, initial.c_lflag, initial.c_cc);
        libc::close(master);
        if let Ok(status) = child.wait() {
            s.code = status.code();
            s.signal = status.signal();
        }
        s.shown = String::from_utf8_lossy(&out).replace("\r\n", "\n");
        s
    }
}
