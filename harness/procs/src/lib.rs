//! Run a closure in a forked child, with its stdin fed and stdout/stderr captured.
use std::io::Write;
use std::time::{Duration, Instant};

pub struct Spec<'a> {
    /// chunks to feed to stdin, with a pause (µs) before each; None: stdin is /dev/null
    pub stdin: Option<&'a [(u64, Vec<u8>)]>,
    /// read captured output in pieces of this size with a pause (µs) between
    pub slow_reader: Option<(usize, u64)>,
    pub timeout: Duration,
    /// deliver SIGALRM every so many µs to the child (handler installed, no SA_RESTART)
    pub signals_us: Option<u64>,
}
impl Default for Spec<'_> {
    fn default() -> Self {
        Spec { stdin: None, slow_reader: None, timeout: Duration::from_secs(20), signals_us: None }
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum End {
    Exit(i32),
    Signal(i32),
    Timeout,
}
pub struct Out {
    pub end: End,
    pub stdout: Vec<u8>,
    pub stderr: Vec<u8>,
    /// what the child sent through its side channel
    pub side: Vec<u8>,
}

extern "C" fn on_alarm(_: i32) {}

fn pipe() -> (i32, i32) {
    let mut p = [0i32; 2];
    assert_eq!(unsafe { libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC) }, 0, "pipe");
    (p[0], p[1])
}
fn nonblock(fd: i32) {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL);
        libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK);
    }
}

/// Side channel of the child (a pipe; writes are complete).
pub struct Side(i32);
impl Side {
    pub fn send(&mut self, b: &[u8]) {
        let mut r = b;
        while !r.is_empty() {
            let n = unsafe { libc::write(self.0, r.as_ptr().cast(), r.len()) };
            if n > 0 {
                r = &r[n as usize..];
            } else if std::io::Error::last_os_error().raw_os_error() != Some(libc::EINTR) {
                unsafe { libc::_exit(97) }
            }
        }
    }
}

/// Forks; the child runs `f` and exits with its result.  Panics in the child give exit code 101.
pub fn run(spec: Spec, f: impl FnOnce(&mut Side) -> i32) -> Out {
    let _ = std::io::stdout().flush();
    let _ = std::io::stderr().flush();
    let (ir, iw) = pipe();
    let (or, ow) = pipe();
    let (er, ew) = pipe();
    let (sr, sw) = pipe();
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            if spec.stdin.is_some() {
                libc::dup2(ir, 0);
            } else {
                let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
                libc::dup2(n, 0);
            }
            libc::dup2(ow, 1);
            libc::dup2(ew, 2);
            for fd in [ir, iw, or, ow, er, ew, sr] {
                libc::close(fd);
            }
            libc::setpgid(0, 0);
            if let Some(us) = spec.signals_us {
                let mut sa: libc::sigaction = std::mem::zeroed();
                sa.sa_sigaction = on_alarm as *const () as usize;
                libc::sigaction(libc::SIGALRM, &sa, std::ptr::null_mut());
                let tv = libc::timeval { tv_sec: 0, tv_usec: us as i64 };
                libc::setitimer(libc::ITIMER_REAL, &libc::itimerval { it_interval: tv, it_value: tv }, std::ptr::null_mut());
            }
        }
        let mut side = Side(sw);
        let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut side))) {
            Ok(c) => c,
            Err(_) => 101,
        };
        unsafe { libc::_exit(code) }
    }
    unsafe {
        for fd in [ir, ow, ew, sw] {
            libc::close(fd);
        }
    }
    for fd in [iw, or, er, sr] {
        nonblock(fd);
    }
    // SIGPIPE must not kill us when the child stops reading
    unsafe { libc::signal(libc::SIGPIPE, libc::SIG_IGN) };
    let start = Instant::now();
    let mut out = Out { end: End::Timeout, stdout: vec![], stderr: vec![], side: vec![] };
    let mut open = [true; 3];
    let fds = [or, er, sr];
    let mut feed: std::collections::VecDeque<(u64, Vec<u8>)> = spec.stdin.map(|s| s.iter().cloned().collect()).unwrap_or_default();
    let mut in_open = true;
    let mut waited = false;
    let mut buf = vec![0u8; 65536];
    while open.iter().any(|x| *x) {
        if start.elapsed() > spec.timeout {
            break;
        }
        if in_open {
            match feed.front_mut() {
                None => {
                    unsafe { libc::close(iw) };
                    in_open = false;
                }
                Some((pause, data)) => {
                    if !waited {
                        waited = true;
                        if *pause > 0 {
                            std::thread::sleep(Duration::from_micros(*pause));
                        }
                    }
                    if data.is_empty() {
                        feed.pop_front();
                        waited = false;
                        continue;
                    }
                    let n = unsafe { libc::write(iw, data.as_ptr().cast(), data.len()) };
                    if n > 0 {
                        data.drain(..n as usize);
                        if !data.is_empty() {
                            // pipe full; fall through to poll
                        } else {
                            continue;
                        }
                    } else {
                        let e = std::io::Error::last_os_error().raw_os_error();
                        if e == Some(libc::EPIPE) {
                            unsafe { libc::close(iw) };
                            in_open = false;
                        }
                    }
                }
            }
        }
        let mut pf: Vec<libc::pollfd> = vec![];
        for i in 0..3 {
            if open[i] {
                pf.push(libc::pollfd { fd: fds[i], events: libc::POLLIN, revents: 0 });
            }
        }
        if in_open {
            pf.push(libc::pollfd { fd: iw, events: libc::POLLOUT, revents: 0 });
        }
        let left = spec.timeout.saturating_sub(start.elapsed()).as_millis() as i32;
        unsafe { libc::poll(pf.as_mut_ptr(), pf.len() as u64, left.min(200).max(1)) };
        for i in 0..3 {
            if !open[i] {
                continue;
            }
            let cap = match spec.slow_reader {
                Some((n, us)) if i == 0 => {
                    if us > 0 {
                        std::thread::sleep(Duration::from_micros(us));
                    }
                    n.clamp(1, buf.len())
                }
                _ => buf.len(),
            };
            let n = unsafe { libc::read(fds[i], buf.as_mut_ptr().cast(), cap) };
            if n > 0 {
                let dst = match i {
                    0 => &mut out.stdout,
                    1 => &mut out.stderr,
                    _ => &mut out.side,
                };
                dst.extend_from_slice(&buf[..n as usize]);
            } else if n == 0 {
                open[i] = false;
            } else {
                let e = std::io::Error::last_os_error().raw_os_error();
                if e != Some(libc::EAGAIN) && e != Some(libc::EINTR) {
                    open[i] = false;
                }
            }
        }
    }
    if in_open {
        unsafe { libc::close(iw) };
    }
    let mut st = 0;
    if open.iter().any(|x| *x) {
        unsafe {
            libc::kill(-pid, libc::SIGKILL);
            libc::kill(pid, libc::SIGKILL);
            libc::waitpid(pid, &mut st, 0);
        }
    } else {
        // all pipes closed: the child is exiting (or closed them itself)
        loop {
            let r = unsafe { libc::waitpid(pid, &mut st, libc::WNOHANG) };
            if r == pid {
                out.end = if libc::WIFEXITED(st) { End::Exit(libc::WEXITSTATUS(st)) } else { End::Signal(libc::WTERMSIG(st)) };
                break;
            }
            if start.elapsed() > spec.timeout {
                unsafe {
                    libc::kill(-pid, libc::SIGKILL);
                    libc::kill(pid, libc::SIGKILL);
                    libc::waitpid(pid, &mut st, 0);
                }
                break;
            }
            std::thread::sleep(Duration::from_micros(50));
        }
    }
    for fd in fds {
        unsafe { libc::close(fd) };
    }
    out
}
