//! A node process that loads and runs WebAssembly modules.
use std::io::{BufReader, Read, Write};
use std::os::fd::AsRawFd;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::Mutex;

struct Node {
    child: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
static NODE: Mutex<Option<Node>> = Mutex::new(None);
const SCRIPT: &str = include_str!("node.js");

pub struct Import {
    pub name: String,
    pub params: Vec<&'static str>,
    pub ret: &'static str,
}
pub struct Run {
    pub f: String,
    pub params: Vec<&'static str>,
    pub ret: &'static str,
    pub args: Vec<String>,
    pub answers: Vec<String>,
    /// outcome of each fd_write in turn: -1 writes all, k > 0 at most k bytes, -e fails with errno e
    pub writes: Vec<i32>,
}
#[derive(Debug)]
pub enum Reply {
    Bad(String),
    Timeout,
    Runs(Vec<Res>),
}
#[derive(Debug)]
pub struct Res {
    /// ok, trap or js
    pub kind: String,
    pub value: String,
    pub events: String,
    pub out: Vec<u8>,
}
fn start() -> Node {
    let mut child = Command::new("node")
        .args(["--stack-size=900", "-e", SCRIPT])
        .env_clear()
        .env("PATH", std::env::var("PATH").unwrap_or_default())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("node");
    let i = child.stdin.take().unwrap();
    let o = BufReader::new(child.stdout.take().unwrap());
    Node { child, i, o }
}
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::with_capacity(b.len() * 4 / 3 + 4);
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for k in 0..4 {
            if k <= c.len() {
                s.push(A[(n >> (18 - 6 * k) & 63) as usize] as char);
            } else {
                s.push('=');
            }
        }
    }
    s
}
fn arr<S: AsRef<str>>(v: &[S]) -> String {
    format!("[{}]", v.iter().map(|x| format!("\"{}\"", x.as_ref())).collect::<Vec<_>>().join(","))
}
pub fn run(wasm: &[u8], imports: &[Import], runs: &[Run], timeout_ms: i32) -> Reply {
    let mut g = NODE.lock().unwrap_or_else(|e| e.into_inner());
    let q = format!(
        "{{\"wasm\":\"{}\",\"imports\":[{}],\"runs\":[{}]}}\n",
        b64(wasm),
        imports.iter().map(|i| format!("{{\"name\":\"{}\",\"params\":{},\"ret\":\"{}\"}}", i.name, arr(&i.params), i.ret)).collect::<Vec<_>>().join(","),
        runs.iter().map(|r| format!("{{\"f\":\"{}\",\"params\":{},\"ret\":\"{}\",\"args\":{},\"answers\":{},\"writes\":{:?}}}", r.f, arr(&r.params), r.ret, arr(&r.args), arr(&r.answers), r.writes)).collect::<Vec<_>>().join(",")
    );
    let n = g.get_or_insert_with(start);
    let sent = n.i.write_all(q.as_bytes()).and_then(|_| n.i.flush());
    let mut line = String::new();
    let mut ok = sent.is_ok();
    if ok {
        let mut p = libc::pollfd { fd: n.o.get_ref().as_raw_fd(), events: libc::POLLIN, revents: 0 };
        let deadline = std::time::Instant::now() + std::time::Duration::from_millis(timeout_ms as u64);
        let mut buf = vec![];
        loop {
            if let Some(k) = buf.iter().position(|b| *b == b'\n') {
                line = String::from_utf8_lossy(&buf[..k]).into_owned();
                break;
            }
            let left = deadline.saturating_duration_since(std::time::Instant::now()).as_millis() as i32;
            let r = unsafe { libc::poll(&mut p, 1, left) };
            if r < 0 && std::io::Error::last_os_error().kind() == std::io::ErrorKind::Interrupted {
                continue;
            }
            if r <= 0 {
                let mut n = g.take().unwrap();
                let _ = n.child.kill();
                let _ = n.child.wait();
                return Reply::Timeout;
            }
            let mut b = [0u8; 65536];
            match n.o.get_mut().read(&mut b) {
                Ok(0) => {
                    ok = false;
                    break;
                }
                Ok(k) => buf.extend_from_slice(&b[..k]),
                Err(e) if e.kind() == std::io::ErrorKind::Interrupted => {}
                Err(_) => {
                    ok = false;
                    break;
                }
            }
        }
    }
    if !ok {
        let mut n = g.take().unwrap();
        let _ = n.child.kill();
        let st = n.child.wait();
        return Reply::Bad(format!("node ended: {st:?}"));
    }
    let line = line.trim_end_matches('\n');
    if let Some(m) = line.strip_prefix("bad\u{1f}") {
        return Reply::Bad(m.to_string());
    }
    if let Some(m) = line.strip_prefix("fail\u{1f}") {
        return Reply::Bad(format!("cannot be instantiated: {m}"));
    }
    if line.is_empty() {
        return Reply::Runs(vec![]);
    }
    Reply::Runs(
        line.split('\u{1e}')
            .map(|r| {
                let f: Vec<&str> = r.split('\u{1f}').collect();
                let hex = f.get(3).copied().unwrap_or("");
                Res {
                    kind: f[0].into(),
                    value: f.get(1).copied().unwrap_or("").into(),
                    events: f.get(2).copied().unwrap_or("").into(),
                    out: (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect(),
                }
            })
            .collect(),
    )
}
