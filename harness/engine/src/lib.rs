//! Choice-tape property-based testing engine.
//!
//! A case is a pure function of a tape of `u64` choices.  Generation draws fresh
//! choices from a seeded RNG; shrinking edits the recorded tape (delete spans,
//! zero spans, lower values) and re-runs the case; a replay file stores the tape.

use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::time::{Duration, Instant};

// ---------------------------------------------------------------- RNG / tape

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed ^ 0x9E3779B97F4A7C15)
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

#[derive(Clone)]
pub struct Tape {
    pub data: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
    limit: usize,
}

impl Tape {
    pub fn fresh(seed: u64) -> Self {
        Tape { data: vec![], pos: 0, rng: Some(Rng::new(seed)), limit: 1 << 20 }
    }
    pub fn replay(data: Vec<u64>) -> Self {
        Tape { data, pos: 0, rng: None, limit: 1 << 20 }
    }
    pub fn used(&self) -> usize {
        self.pos.min(self.data.len())
    }
    /// Hash of the choices made so far.
    pub fn hash(&self) -> u64 {
        self.data[..self.used()].iter().fold(0xcbf29ce484222325u64, |h, x| (h ^ x).wrapping_mul(0x100000001b3).rotate_left(23))
    }
    /// Uniform value in `0..n` (n >= 1).  Zero is the "simplest" choice.
    pub fn below(&mut self, n: u64) -> u64 {
        let n = n.max(1);
        if self.pos >= self.limit {
            return 0;
        }
        let v = if self.pos < self.data.len() {
            self.data[self.pos] % n
        } else if let Some(r) = &mut self.rng {
            let v = r.next() % n;
            self.data.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn u64(&mut self) -> u64 {
        if self.pos >= self.limit {
            return 0;
        }
        let v = if self.pos < self.data.len() {
            self.data[self.pos]
        } else if let Some(r) = &mut self.rng {
            let v = r.next();
            self.data.push(v);
            v
        } else {
            0
        };
        self.pos += 1;
        v
    }
    pub fn range(&mut self, lo: i64, hi_incl: i64) -> i64 {
        lo + self.below((hi_incl - lo + 1) as u64) as i64
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    pub fn idx(&mut self, n: usize) -> usize {
        self.below(n as u64) as usize
    }
    /// true with probability num/den; false is the simple choice.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        let i = self.idx(xs.len());
        &xs[i]
    }
    /// Weighted index.
    pub fn weighted(&mut self, ws: &[u32]) -> usize {
        let total: u64 = ws.iter().map(|w| *w as u64).sum();
        let mut v = self.below(total.max(1));
        for (i, w) in ws.iter().enumerate() {
            if v < *w as u64 {
                return i;
            }
            v -= *w as u64;
        }
        0
    }
    /// Interesting integer, biased to boundaries.
    pub fn int_edge(&mut self) -> i64 {
        match self.below(8) {
            0 => self.range(0, 3),
            1 => -self.range(0, 3),
            2 => self.range(-200, 200),
            3 => {
                let k = self.below(64);
                (1u64 << k) as i64
            }
            4 => {
                let k = self.below(64);
                ((1u64 << k) as i64).wrapping_sub(1)
            }
            5 => {
                let k = self.below(64);
                (1u64 << k).wrapping_neg() as i64
            }
            6 => *self.pick(&[i64::MIN, i64::MAX, i32::MIN as i64, i32::MAX as i64, i16::MIN as i64, i16::MAX as i64, -128, 127, 128, 255, 256, 65535, 65536, u32::MAX as i64]),
            _ => self.u64() as i64,
        }
    }
}

pub fn hash_str(s: &str) -> u64 {
    let mut h = Fnv(0xcbf29ce484222325);
    s.hash(&mut h);
    h.finish()
}
pub struct Fnv(pub u64);
impl Hasher for Fnv {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.0 ^= *b as u64;
            self.0 = self.0.wrapping_mul(0x100000001b3);
        }
    }
}

// ---------------------------------------------------------------- cases

/// What one executed case reports.
#[derive(Default)]
pub struct Case {
    /// Non-trivial by the lane's rule.
    pub nontrivial: bool,
    /// Identity of the case for distinctness.
    pub key: u64,
    /// Human-readable rendering (lazily produced when `want_render`).
    pub render: String,
    /// Histogram labels.
    pub tags: Vec<String>,
}

#[derive(Debug, Clone)]
pub struct Failure {
    pub msg: String,
    pub render: String,
}

pub type CaseResult = Result<Case, Failure>;

pub fn fail<T>(msg: impl Into<String>, render: impl Into<String>) -> Result<T, Failure> {
    Err(Failure { msg: msg.into(), render: render.into() })
}

pub struct Lane {
    pub name: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// Maximum parallel threads (0 = default).
    pub threads: usize,
    pub run: fn(&mut Tape) -> CaseResult,
}

pub struct Property {
    pub id: &'static str,
    pub lanes: Vec<Lane>,
    pub assumptions: Vec<&'static str>,
    /// Exhaustive or one-off sweeps (not generated): return number of evaluations.
    pub sweeps: Vec<(&'static str, fn() -> Result<SweepInfo, Failure>)>,
}

pub struct SweepInfo {
    pub evaluations: usize,
    pub nontrivial: usize,
    pub sample: String,
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<Option<String>> = const { std::cell::RefCell::new(None) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "<non-string panic>".into()
        };
        if std::env::var_os("VP_BT").is_some() {
            eprintln!("panic: {m} at {loc}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC_MSG.with(|p| *p.borrow_mut() = Some(format!("{m} at {loc}")));
    }));
}

/// Run `f`, turning a panic into `Err(message)`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(PANIC_MSG.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())),
    }
}

thread_local! { static NOTE: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// Remember a rendering of the current case, shown if the code under test panics.
pub fn note(s: &str) {
    NOTE.with(|n| {
        let mut n = n.borrow_mut();
        n.clear();
        n.push_str(s);
    })
}

fn run_case(f: fn(&mut Tape) -> CaseResult, tape: &mut Tape) -> CaseResult {
    note("");
    match guard(|| f(tape)) {
        Ok(r) => r,
        Err(m) => Err(Failure { msg: format!("panic: {m}"), render: NOTE.with(|n| n.borrow().clone()) }),
    }
}

/// Failure class: text up to the first '|' or the first 60 chars.
fn class(msg: &str) -> String {
    if let Some(i) = msg.find('|') { msg[..i].to_string() } else { msg.chars().take(40).collect() }
}

fn shrink(f: fn(&mut Tape) -> CaseResult, data: Vec<u64>, first: Failure, budget: Duration, reject: &dyn Fn(&str) -> bool) -> (Vec<u64>, Failure, usize) {
    let start = Instant::now();
    let cls = class(&first.msg);
    let mut best = data;
    let mut bestf = first;
    let mut tries = 0usize;
    let mut attempt = |cand: Vec<u64>, best: &mut Vec<u64>, bestf: &mut Failure| -> bool {
        tries += 1;
        let mut t = Tape::replay(cand);
        if let Err(fl) = run_case(f, &mut t) {
            if class(&fl.msg) == cls && !reject(&fl.msg) {
                let used = t.used();
                let mut d = t.data;
                d.truncate(used);
                while d.last() == Some(&0) {
                    d.pop();
                }
                if d.len() < best.len() || (d.len() == best.len() && d < *best) {
                    *best = d;
                    *bestf = fl;
                    return true;
                }
            }
        }
        false
    };
    loop {
        let mut progress = false;
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if start.elapsed() > budget {
                    return (best, bestf, tries);
                }
                let end = (i + size).min(best.len());
                let mut cand = best.clone();
                cand.drain(i..end);
                if attempt(cand, &mut best, &mut bestf) {
                    progress = true;
                    continue;
                }
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut cand = best.clone();
                    cand[i..end].fill(0);
                    if attempt(cand, &mut best, &mut bestf) {
                        progress = true;
                    }
                }
                i += size;
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // lower individual values
        let mut i = 0;
        while i < best.len() {
            if start.elapsed() > budget {
                return (best, bestf, tries);
            }
            let v = best[i];
            for nv in [v / 2, v.saturating_sub(1), 1] {
                if nv < v && i < best.len() {
                    let mut cand = best.clone();
                    cand[i] = nv;
                    if attempt(cand, &mut best, &mut bestf) {
                        progress = true;
                        break;
                    }
                }
            }
            i += 1;
        }
        if !progress {
            return (best, bestf, tries);
        }
    }
}

// ---------------------------------------------------------------- evidence / driver

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}


fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}…[{} bytes]", &s[..e], s.len())
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

struct Known {
    property: String,
    lane: String,
    needle: String,
    what: String,
}

/// known-findings.txt lines: `known: property=<id> lane=<lane> match=<substring of failure message> :: <what>`
fn load_known() -> Vec<Known> {
    let p = format!("{}/known-findings.txt", verif_dir());
    let mut out = vec![];
    if let Ok(s) = std::fs::read_to_string(p) {
        for l in s.lines() {
            let Some(r) = l.strip_prefix("known: ") else { continue };
            let Some((head, what)) = r.split_once(" :: ") else { continue };
            let mut k = Known { property: String::new(), lane: String::new(), needle: String::new(), what: what.into() };
            if let Some((a, m)) = head.split_once(" match=") {
                k.needle = m.to_string();
                for w in a.split_whitespace() {
                    if let Some(v) = w.strip_prefix("property=") {
                        k.property = v.into();
                    }
                    if let Some(v) = w.strip_prefix("lane=") {
                        k.lane = v.into();
                    }
                }
                out.push(k);
            }
        }
    }
    out
}


// ---------------------------------------------------------------- worker side
use std::sync::atomic::AtomicU64;
static CASE_START_MS: AtomicU64 = AtomicU64::new(0);
static CASE_SEED: AtomicU64 = AtomicU64::new(0);
static SHRINK_UNTIL_MS: AtomicU64 = AtomicU64::new(0);
static CUR_LANE: Mutex<String> = Mutex::new(String::new());
static T0: std::sync::OnceLock<Instant> = std::sync::OnceLock::new();
static OUT: Mutex<Vec<u8>> = Mutex::new(Vec::new());

fn now_ms() -> u64 {
    T0.get_or_init(Instant::now).elapsed().as_millis() as u64 + 1
}
/// A single case running longer than this is reported as non-termination.
fn hang_limit_ms() -> u64 {
    std::env::var("VP_HANG_S").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(120) * 1000
}
fn rec(out: &mut Vec<u8>, tag: &str, parts: &[&str]) {
    out.extend_from_slice(format!("{tag} {}\n", parts.len()).as_bytes());
    for p in parts {
        out.extend_from_slice(format!("{}\n", p.len()).as_bytes());
        out.extend_from_slice(p.as_bytes());
        out.push(b'\n');
    }
}
fn parse_recs(b: &[u8]) -> Vec<(String, Vec<String>)> {
    let mut i = 0;
    let mut out = vec![];
    let line = |i: &mut usize| -> Option<String> {
        let st = *i;
        while *i < b.len() && b[*i] != b'\n' {
            *i += 1;
        }
        if *i >= b.len() {
            return None;
        }
        *i += 1;
        Some(String::from_utf8_lossy(&b[st..*i - 1]).into_owned())
    };
    while i < b.len() {
        let Some(h) = line(&mut i) else { break };
        let Some((tag, n)) = h.rsplit_once(' ') else { break };
        let Ok(n) = n.parse::<usize>() else { break };
        let mut parts = vec![];
        for _ in 0..n {
            let Some(l) = line(&mut i) else { return out };
            let Ok(l) = l.parse::<usize>() else { return out };
            if i + l > b.len() {
                return out;
            }
            parts.push(String::from_utf8_lossy(&b[i..i + l]).into_owned());
            i += l + 1;
        }
        out.push((tag.to_string(), parts));
    }
    out
}
fn tape_str(t: &[u64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn flush_out() {
    if let Some(p) = std::env::var_os("VP_OUT") {
        let o = OUT.lock().unwrap();
        let _ = std::fs::write(p, &*o);
    }
}
fn spawn_watchdog() {
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(300));
        let now = now_ms();
        let su = SHRINK_UNTIL_MS.load(Ordering::SeqCst);
        if su != 0 && now > su {
            flush_out();
            std::process::exit(0);
        }
        let st = CASE_START_MS.load(Ordering::SeqCst);
        if st != 0 && now.saturating_sub(st) > hang_limit_ms() {
            let lane = CUR_LANE.lock().unwrap().clone();
            let cs = CASE_SEED.load(Ordering::SeqCst);
            rec(&mut OUT.lock().unwrap(), "rawfail", &[&lane, &cs.to_string(), "case did not terminate within the hang limit"]);
            flush_out();
            std::process::exit(0);
        }
    });
}

struct Opt {
    thorough: bool,
    seed: u64,
    lane: Option<String>,
    cases: Option<usize>,
}

fn worker(p: &Property, o: &Opt, shard: usize, nshards: usize) -> ! {
    now_ms();
    spawn_watchdog();
    let inflight = std::env::var_os("VP_INFLIGHT").and_then(|f| std::fs::OpenOptions::new().create(true).truncate(true).write(true).open(f).ok());
    let mark = |txt: &str| {
        if let Some(f) = &inflight {
            use std::os::unix::fs::FileExt;
            let mut r = [b' '; 96];
            let b = txt.as_bytes();
            r[..b.len().min(95)].copy_from_slice(&b[..b.len().min(95)]);
            r[95] = b'\n';
            let _ = f.write_all_at(&r, 0);
        }
    };
    let known = load_known();
    let shrink_budget = Duration::from_secs(if o.thorough { 120 } else { 30 });
    let stopfile = std::env::var_os("VP_STOP").map(std::path::PathBuf::from);
    for (i, (name, f)) in p.sweeps.iter().enumerate() {
        if o.lane.as_deref().is_some_and(|l| l != *name) || i % nshards != shard {
            continue;
        }
        let t0 = Instant::now();
        *CUR_LANE.lock().unwrap() = name.to_string();
        CASE_SEED.store(0, Ordering::SeqCst);
        CASE_START_MS.store(now_ms(), Ordering::SeqCst);
        mark(&format!("{name} 0"));
        note("");
        let r = guard(f);
        CASE_START_MS.store(0, Ordering::SeqCst);
        let mut out = OUT.lock().unwrap();
        match r {
            Ok(Ok(info)) => rec(&mut out, "sweep", &[name, &info.evaluations.to_string(), &info.nontrivial.to_string(), &info.sample, &format!("{:.3}", t0.elapsed().as_secs_f64())]),
            Ok(Err(fl)) => rec(&mut out, "fail", &[name, "", &fl.msg, &fl.render]),
            Err(m) => rec(&mut out, "fail", &[name, "", &format!("panic: {m}"), &NOTE.with(|n| n.borrow().clone())]),
        }
    }
    for lane in &p.lanes {
        if o.lane.as_deref().is_some_and(|l| l != lane.name) {
            continue;
        }
        *CUR_LANE.lock().unwrap() = lane.name.to_string();
        let t0 = Instant::now();
        let n = o.cases.unwrap_or(if o.thorough { lane.thorough } else { lane.quick });
        let base = hash_str(&format!("{}/{}/{}", o.seed, p.id, lane.name));
        let mut ev = 0usize;
        let mut keys = HashSet::<u64>::new();
        let mut tags = BTreeMap::<String, usize>::new();
        let mut kn_hit = BTreeMap::<String, usize>::new();
        let mut samples: Vec<(usize, String)> = vec![];
        let sp = stopfile.as_ref().map(|d| d.with_extension(lane.name));
        let mut k = shard;
        while k < n {
            if ev % 16 == 0 && sp.as_ref().is_some_and(|s| s.exists()) {
                break;
            }
            let case_seed = base.wrapping_add((k as u64).wrapping_mul(0x9E3779B97F4A7C15));
            let mut t = Tape::fresh(case_seed);
            CASE_SEED.store(case_seed, Ordering::SeqCst);
            CASE_START_MS.store(now_ms(), Ordering::SeqCst);
            mark(&format!("{} {case_seed}", lane.name));
            let r = run_case(lane.run, &mut t);
            CASE_START_MS.store(0, Ordering::SeqCst);
            ev += 1;
            match r {
                Ok(c) => {
                    for tg in c.tags {
                        *tags.entry(tg).or_insert(0) += 1;
                    }
                    if c.nontrivial {
                        keys.insert(c.key);
                        if samples.len() < 6 || ev % 500 == 0 {
                            samples.push((k, c.render));
                        }
                    }
                }
                Err(fl) => {
                    if let Some(kn) = known.iter().find(|kn| kn.property == p.id && kn.lane == lane.name && fl.msg.contains(&kn.needle)) {
                        *kn_hit.entry(kn.what.clone()).or_insert(0) += 1;
                    } else {
                        if let Some(s) = &sp {
                            let _ = std::fs::write(s, b"x");
                        }
                        eprintln!("lane {} case {k} failed: {}", lane.name, clip(&fl.msg, 1500));
                        let mark_at = OUT.lock().unwrap().len();
                        rec(&mut OUT.lock().unwrap(), "fail", &[lane.name, &tape_str(&t.data), &fl.msg, &fl.render]);
                        flush_out();
                        SHRINK_UNTIL_MS.store(now_ms() + shrink_budget.as_millis() as u64 + 20_000, Ordering::SeqCst);
                        let kf: Vec<&Known> = known.iter().filter(|kn| kn.property == p.id && kn.lane == lane.name).collect();
                        let reject = |m: &str| kf.iter().any(|kn| m.contains(&kn.needle));
                        let (d, f2, tries) = shrink(lane.run, t.data.clone(), fl, shrink_budget, &reject);
                        SHRINK_UNTIL_MS.store(0, Ordering::SeqCst);
                        eprintln!("shrunk to {} choices in {tries} tries: {}", d.len(), clip(&f2.msg, 3000));
                        let mut out = OUT.lock().unwrap();
                        out.truncate(mark_at);
                        rec(&mut out, "fail", &[lane.name, &tape_str(&d), &f2.msg, &f2.render]);
                        break;
                    }
                }
            }
            k += nshards;
        }
        samples.sort_by_key(|(k, s)| (s.len() / 200, *k));
        let mut out = OUT.lock().unwrap();
        rec(&mut out, "lane", &[lane.name, &ev.to_string(), &format!("{:.3}", t0.elapsed().as_secs_f64())]);
        for key in keys {
            rec(&mut out, "key", &[lane.name, &format!("{key:x}")]);
        }
        for (k, v) in tags {
            rec(&mut out, "tag", &[&format!("{}.{k}", lane.name), &v.to_string()]);
        }
        for (k, v) in kn_hit {
            rec(&mut out, "known", &[&k, &v.to_string()]);
        }
        for (k, s) in samples.iter().filter(|(_, s)| !s.is_empty()).take(2) {
            rec(&mut out, "sample", &[lane.name, &k.to_string(), s]);
        }
    }
    mark("");
    flush_out();
    std::process::exit(0)
}

// ---------------------------------------------------------------- parent side

/// Entry point: `<bin> <property> [--tier quick|thorough] [--replay file] [--lane l] [--cases n]`
pub fn main(props: Vec<Property>) {
    install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut replay = None;
    let mut o = Opt { thorough: false, seed: 1, lane: None, cases: None };
    let mut shard: Option<(usize, usize)> = None;
    let mut i = 2;
    while i < args.len() {
        let v = args.get(i + 1).cloned().unwrap_or_default();
        match args[i].as_str() {
            "--tier" => tier = v,
            "--replay" => replay = Some(v),
            "--lane" => o.lane = Some(v),
            "--cases" => o.cases = Some(v.parse().unwrap()),
            "--shard" => {
                let (a, b) = v.split_once('/').unwrap();
                shard = Some((a.parse().unwrap(), b.parse().unwrap()));
            }
            x => {
                eprintln!("unknown arg {x}");
                std::process::exit(2)
            }
        }
        i += 2;
    }
    o.thorough = tier == "thorough";
    o.seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let Some(p) = props.into_iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    };
    if let Some(file) = replay {
        std::process::exit(do_replay(&p, &file));
    }
    if let Some((a, b)) = shard {
        std::thread::scope(|s| {
            let h = std::thread::Builder::new().stack_size(256 << 20).spawn_scoped(s, || worker(&p, &o, a, b)).unwrap();
            let _ = h.join();
        });
        std::process::exit(101);
    }
    parent(&p, &o)
}

fn parent(p: &Property, o: &Opt) -> ! {
    let start = Instant::now();
    let ncpu = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4).min(8);
    let maxthreads = p.lanes.iter().map(|l| if l.threads == 0 { ncpu } else { l.threads }).max().unwrap_or(1);
    let n = ncpu.min(maxthreads.max(1)).max(if p.sweeps.is_empty() { 1 } else { ncpu.min(p.sweeps.len()) });
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("vp-run-{}", std::process::id()));
    std::fs::create_dir_all(&tmp).expect("scratch dir");
    let mut kids = vec![];
    for k in 0..n {
        let mut c = std::process::Command::new(&exe);
        c.arg(p.id).args(["--tier", if o.thorough { "thorough" } else { "quick" }, "--shard", &format!("{k}/{n}")]);
        if let Some(l) = &o.lane {
            c.args(["--lane", l]);
        }
        if let Some(l) = &o.cases {
            c.args(["--cases", &l.to_string()]);
        }
        c.env("VERIF_SEED", o.seed.to_string()).env("VP_OUT", tmp.join(format!("out{k}"))).env("VP_INFLIGHT", tmp.join(format!("inf{k}"))).env("VP_STOP", tmp.join("stop"));
        kids.push(c.spawn().expect("spawn worker"));
    }
    let mut crashes: Vec<(String, String, String)> = vec![]; // lane, seed, msg
    let mut broken = vec![];
    let mut recs: Vec<(String, Vec<String>)> = vec![];
    for (k, mut kid) in kids.into_iter().enumerate() {
        let st = kid.wait().expect("wait");
        if st.code() == Some(0) {
            recs.extend(parse_recs(&std::fs::read(tmp.join(format!("out{k}"))).unwrap_or_default()));
        } else {
            recs.extend(parse_recs(&std::fs::read(tmp.join(format!("out{k}"))).unwrap_or_default()));
            let text = std::fs::read_to_string(tmp.join(format!("inf{k}"))).unwrap_or_default();
            let mut w = text.split_whitespace();
            if let (Some(a), Some(b)) = (w.next(), w.next()) {
                crashes.push((a.into(), b.into(), format!("hard crash of the process running the code under test ({st})")));
            } else {
                broken.push(format!("worker {k} ended with {st} and no case in flight"));
            }
        }
    }
    let _ = std::fs::remove_dir_all(&tmp);
    let mut evaluations = 0usize;
    let mut distinct = HashSet::<String>::new();
    let mut lane_ev = BTreeMap::<String, (usize, f64)>::new();
    let mut lane_keys = BTreeMap::<String, usize>::new();
    let mut tags = BTreeMap::<String, usize>::new();
    let mut known_hit = BTreeMap::<String, usize>::new();
    let mut samples: Vec<(String, usize, String)> = vec![];
    let mut sweep_nt = 0usize;
    let mut lane_info = vec![];
    let mut fails: BTreeMap<String, Vec<(Vec<u64>, String, String)>> = BTreeMap::new();
    let int = |s: &str| s.parse::<usize>().unwrap_or(0);
    for (tag, f) in recs {
        match tag.as_str() {
            "sweep" => {
                evaluations += int(&f[1]);
                sweep_nt += int(&f[2]);
                if !f[3].is_empty() {
                    samples.push((f[0].clone(), 0, f[3].clone()));
                }
                lane_info.push(format!("{{\"lane\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{},\"kind\":\"enumeration\"}}", json_str(&f[0]), f[1], f[2], f[4]));
            }
            "lane" => {
                evaluations += int(&f[1]);
                let e = lane_ev.entry(f[0].clone()).or_insert((0, 0.0));
                e.0 += int(&f[1]);
                e.1 = e.1.max(f[2].parse().unwrap_or(0.0));
            }
            "key" => {
                if distinct.insert(format!("{}/{}", f[0], f[1])) {
                    *lane_keys.entry(f[0].clone()).or_insert(0) += 1;
                }
            }
            "tag" => *tags.entry(f[0].clone()).or_insert(0) += int(&f[1]),
            "known" => *known_hit.entry(f[0].clone()).or_insert(0) += int(&f[1]),
            "sample" => samples.push((f[0].clone(), int(&f[1]), f[2].clone())),
            "fail" => fails.entry(f[0].clone()).or_default().push((f[1].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), f[2].clone(), f[3].clone())),
            "rawfail" => crashes.push((f[0].clone(), f[1].clone(), f[2].clone())),
            _ => {}
        }
    }
    for (l, (ev, w)) in &lane_ev {
        lane_info.push(format!("{{\"lane\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"wall_s\":{:.2}}}", json_str(l), ev, lane_keys.get(l).copied().unwrap_or(0), w));
    }
    let mut rules: Vec<String> = p.lanes.iter().filter(|l| o.lane.as_deref().is_none_or(|x| x == l.name)).map(|l| format!("{}: {}", l.name, l.rule)).collect();
    for (n, _) in &p.sweeps {
        rules.push(format!("{n}: enumeration, every case counted once"));
    }
    // Write replays
    let dir = verif_dir();
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    let mut lines = vec![];
    for (lane, mut v) in fails {
        v.sort_by_key(|x| (x.0.len(), x.1.len()));
        let (tape, msg, render) = v.into_iter().next().unwrap();
        let path = format!("{dir}/replays/{}-{}.replay", p.id, lane);
        let _ = std::fs::write(&path, format!("property={}\nlane={lane}\ntape={}\n--- message\n{msg}\n--- case\n{render}\n--- how to replay\n{dir}/check.sh {} --replay {path}\n", p.id, tape_str(&tape), p.id));
        lines.push((format!("--- {} lane {lane}: {}\n{}", p.id, clip(&msg, 6000), clip(&render, 6000)), format!("VIOLATION property={} replay={}", p.id, path)));
    }
    for (lane, seed, msg) in crashes {
        let path = format!("{dir}/replays/{}-{}-raw.replay", p.id, lane);
        let _ = std::fs::write(&path, format!("property={}\nlane={lane}\nseed={seed}\n--- message\n{msg}\n--- how to replay\n{dir}/check.sh {} --replay {path}\n", p.id, p.id));
        lines.push((format!("--- {} lane {lane} case seed {seed}: {msg}", p.id), format!("VIOLATION property={} replay={}", p.id, path)));
    }
    let ndist = distinct.len() + sweep_nt;
    let mut shown: BTreeMap<String, usize> = BTreeMap::new();
    samples.sort_by_key(|(l, k, s)| (l.clone(), s.len() / 200, *k));
    let samples: Vec<String> = samples
        .into_iter()
        .filter(|(l, _, _)| {
            let e = shown.entry(l.clone()).or_insert(0);
            *e += 1;
            *e <= 2
        })
        .map(|(l, _, s)| format!("[{l}] {}", clip(&s, 1800)))
        .collect();
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    let ev = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \"lanes\": [{}],\n  \"histogram\": {{{}}},\n  \"known_findings_hit\": {{{}}}\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(if o.thorough { "thorough" } else { "quick" }),
        o.seed,
        evaluations,
        ndist,
        json_str(&rules.join(" || ")),
        samples.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        lane_info.join(", "),
        tags.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
        known_hit.iter().map(|(k, v)| format!("{}: {}", json_str(k), v)).collect::<Vec<_>>().join(", "),
        p.assumptions.iter().map(|s| json_str(s)).collect::<Vec<_>>().join(", "),
        start.elapsed().as_secs_f64(),
        lines.len()
    );
    std::fs::write(format!("{dir}/evidence/{}.json", p.id), ev).expect("write evidence");
    for k in load_known().iter().filter(|k| k.property == p.id) {
        println!("KNOWN-FINDING: property={} {}", p.id, k.what);
    }
    for l in &lane_info {
        println!("{l}");
    }
    if std::env::var_os("VP_TAGS").is_some() {
        for (k, v) in &tags {
            println!("  {k}: {v}");
        }
        for (k, v) in &known_hit {
            println!("  known {k}: {v}");
        }
    }
    println!("{}: {} evaluations, {} distinct non-trivial, {:.1}s", p.id, evaluations, ndist, start.elapsed().as_secs_f64());
    for (a, b) in &lines {
        println!("{a}\n{b}");
    }
    for b in &broken {
        eprintln!("{b}");
    }
    use std::io::Write;
    let _ = std::io::stdout().flush();
    std::process::exit(if !lines.is_empty() { 1 } else if !broken.is_empty() { 3 } else { 0 });
}

fn do_replay(p: &Property, file: &str) -> i32 {
    let s = std::fs::read_to_string(file).expect("replay file");
    let mut lane = String::new();
    let mut tape = vec![];
    let mut case_seed: Option<u64> = None;
    for l in s.lines() {
        if let Some(v) = l.strip_prefix("lane=") {
            lane = v.into();
        } else if let Some(v) = l.strip_prefix("tape=") {
            tape = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        } else if let Some(v) = l.strip_prefix("seed=") {
            case_seed = v.parse().ok();
        } else if l.starts_with("---") {
            break;
        }
    }
    let fl = if let Some(l) = p.lanes.iter().find(|l| l.name == lane) {
        let run = l.run;
        std::thread::Builder::new().stack_size(256 << 20).spawn(move || run_case(run, &mut match case_seed { Some(s) => Tape::fresh(s), None => Tape::replay(tape) }).err()).unwrap().join().unwrap()
    } else if let Some((_, f)) = p.sweeps.iter().find(|(n, _)| *n == lane) {
        match guard(f) {
            Ok(Ok(_)) => None,
            Ok(Err(f)) => Some(f),
            Err(m) => Some(Failure { msg: m, render: String::new() }),
        }
    } else {
        eprintln!("no lane {lane}");
        return 2;
    };
    match fl {
        Some(f) => {
            println!("{}\n{}", f.msg, f.render);
            println!("VIOLATION property={} replay={}", p.id, file);
            1
        }
        None => {
            println!("replay passes");
            0
        }
    }
}
