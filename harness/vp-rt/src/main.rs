//! Runtime library properties.
use engine::*;
use procs::{End, Spec};
use std::collections::BTreeMap;
use std::fmt::Write;
use tribute_runtime::*;

unsafe extern "C" {
    fn __asan_init();
    // the evidence type is private to the runtime; the ABI only passes an opaque pointer
    #[link_name = "__tribute_evidence_empty"]
    fn ev_empty() -> *mut u8;
    #[link_name = "__tribute_evidence_lookup"]
    fn ev_lookup(ev: *const u8, id: i32) -> i32;
    #[link_name = "__tribute_evidence_extend"]
    fn ev_extend(ev: *const u8, id: i32, tag: i32, tr: *const u8, h: *const u8) -> *mut u8;
    #[link_name = "__tribute_evidence_lookup_tr"]
    fn ev_tr(ev: *const u8, id: i32) -> *const u8;
    #[link_name = "__tribute_evidence_lookup_handler"]
    fn ev_handler(ev: *const u8, id: i32) -> *const u8;
}

fn gen_bytes(t: &mut Tape, max: usize) -> Vec<u8> {
    let n = match t.idx(6) {
        0 => 0,
        1 => 1,
        2 => t.upto(max),
        _ => t.upto(12.min(max)),
    };
    let alpha = t.idx(4);
    (0..n)
        .map(|_| match alpha {
            0 => *t.pick(b"ab"),
            1 => *t.pick(&[0u8, 0xff, 0x80, 0x7f]),
            _ => t.idx(256) as u8,
        })
        .collect()
}
/// A Bytes value laid out the way compiled code lays it out.
fn mk_bytes(b: &[u8]) -> *mut TributeBytes {
    unsafe {
        let data = __tribute_alloc(b.len() as u64);
        if !b.is_empty() {
            std::ptr::copy_nonoverlapping(b.as_ptr(), data, b.len());
        }
        let raw = __tribute_alloc(tribute_rc::HEADER_SIZE + 16);
        let x = tribute_rc::RcBox::<TributeBytes>::init(raw, 0);
        (*x).payload.ptr = data;
        (*x).payload.len = b.len() as u64;
        &raw mut (*x).payload
    }
}
unsafe fn rc_of(p: *const TributeBytes) -> (u32, u32) {
    let h = (p as *const u8).wrapping_sub(8) as *const u32;
    unsafe { (h.read(), h.add(1).read()) }
}
unsafe fn content(p: *const TributeBytes) -> Vec<u8> {
    unsafe {
        if (*p).len == 0 {
            vec![]
        } else {
            std::slice::from_raw_parts((*p).ptr, (*p).len as usize).to_vec()
        }
    }
}
fn show(b: &[u8]) -> String {
    if b.len() > 24 {
        format!("{:?}..({})", &b[..24], b.len())
    } else {
        format!("{b:?}")
    }
}

fn bytes_case(t: &mut Tape) -> CaseResult {
    struct V {
        p: *mut TributeBytes,
        m: Vec<u8>,
        rc: u32,
    }
    let mut vs: Vec<V> = vec![];
    let mut log = String::new();
    let steps = 3 + t.upto(20);
    let mut interesting = 0;
    let big = t.chance(1, 8);
    let max = if big { 70_000 } else { 60 };
    let mut total = 0usize;
    for _ in 0..steps {
        let k = if vs.is_empty() { 0 } else { t.weighted(&[3, 5, 6, 2, 6, 1]) };
        macro_rules! ck {
            ($c:expr, $($a:tt)*) => { if !($c) { return fail(format!($($a)*), log); } };
        }
        match k {
            0 => {
                let m = gen_bytes(t, max);
                let _ = writeln!(log, "v{} = bytes {}", vs.len(), show(&m));
                note(&log);
                vs.push(V { p: mk_bytes(&m), m, rc: 1 });
            }
            1 => {
                let (a, b) = (t.idx(vs.len()), t.idx(vs.len()));
                if total > 400_000 {
                    continue;
                }
                let _ = writeln!(log, "v{} = concat v{a} v{b}", vs.len());
                note(&log);
                let p = unsafe { __tribute_bytes_concat(vs[a].p, vs[b].p) };
                let mut m = vs[a].m.clone();
                m.extend_from_slice(&vs[b].m);
                total += m.len();
                interesting += (!m.is_empty()) as usize;
                ck!(vs.iter().all(|v| v.p != p), "concat returned an existing value");
                vs.push(V { p, m, rc: 1 });
            }
            2 => {
                let a = t.idx(vs.len());
                let n = vs[a].m.len();
                let x = t.upto(n);
                let y = x + t.upto(n - x);
                let _ = writeln!(log, "v{} = slice v{a} {x} {y}", vs.len());
                note(&log);
                let p = unsafe { __tribute_bytes_slice_or_panic(vs[a].p, x as u32, y as u32) };
                interesting += (y > x) as usize;
                vs[a].rc += 1;
                ck!(vs.iter().all(|v| v.p != p), "slice returned an existing value");
                let m = vs[a].m[x..y].to_vec();
                vs.push(V { p, m, rc: 1 });
            }
            3 => {
                let a = t.idx(vs.len());
                let r = unsafe { __tribute_bytes_len(vs[a].p) };
                ck!(r as usize == vs[a].m.len(), "length of v{a} is {r}, expected {}", vs[a].m.len());
            }
            4 => {
                let (a, b) = (t.idx(vs.len()), t.idx(vs.len()));
                let pos = |t: &mut Tape, n: usize| -> u32 {
                    match t.idx(8) {
                        0 => n as u32,
                        1 => n as u32 + 1,
                        2 => u32::MAX - t.upto(2) as u32,
                        3 => 0,
                        _ => t.upto(n) as u32,
                    }
                };
                let (x, y) = (pos(t, vs[a].m.len()), pos(t, vs[b].m.len()));
                let ra = vs[a].m.len().saturating_sub(x as usize);
                let rb = vs[b].m.len().saturating_sub(y as usize);
                let l = match t.idx(6) {
                    0 => 0,
                    1 => u32::MAX - t.upto(2) as u32,
                    2 => ra.min(rb) as u32,
                    3 => ra.min(rb) as u32 + 1,
                    4 => ra.max(rb) as u32,
                    _ => t.upto(ra.min(rb)) as u32,
                };
                let _ = writeln!(log, "range_equal v{a} {x} v{b} {y} {l}");
                note(&log);
                let r = unsafe { __tribute_bytes_range_equal(vs[a].p, x, vs[b].p, y, l) };
                let (x, y, l) = (x as usize, y as usize, l as usize);
                let want = x + l <= vs[a].m.len() && y + l <= vs[b].m.len() && vs[a].m[x..x + l] == vs[b].m[y..y + l];
                interesting += (l > 0 && x + l <= vs[a].m.len() && y + l <= vs[b].m.len()) as usize;
                ck!(r == want as u32, "range_equal gave {r}, expected {want}: {} and {}", show(&vs[a].m), show(&vs[b].m));
            }
            _ => {
                // out-of-range slice: the process must stop
                let a = t.idx(vs.len());
                let n = vs[a].m.len() as u32;
                let (x, y) = match t.idx(4) {
                    0 => (0, n + 1 + t.upto(3) as u32),
                    1 => (n + 1, n + 1),
                    2 => (1 + t.upto(3) as u32, 0),
                    _ => (u32::MAX, u32::MAX),
                };
                let _ = writeln!(log, "slice v{a} {x} {y} (out of range)");
                note(&log);
                let p = vs[a].p as usize;
                let o = procs::run(Spec::default(), |_| unsafe {
                    __tribute_bytes_slice_or_panic(p as *const _, x, y);
                    0
                });
                interesting += 1;
                ck!(o.end == End::Signal(libc::SIGABRT), "slice {x}..{y} of {n} bytes did not abort: {:?}", o.end);
            }
        }
        for (i, v) in vs.iter().enumerate() {
            unsafe {
                ck!((*v.p).len as usize == v.m.len(), "after the last step v{i} has length {}, expected {}", (*v.p).len, v.m.len());
                let c = content(v.p);
                ck!(c == v.m, "after the last step v{i} holds {}, expected {}", show(&c), show(&v.m));
                let (rc, rtti) = rc_of(v.p);
                ck!(rc == v.rc, "after the last step v{i} has {rc} references, expected {}", v.rc);
                ck!(rtti == 0, "after the last step v{i} has type index {rtti}");
            }
        }
    }
    Ok(Case { nontrivial: interesting >= 3, key: hash_str(&log), render: log, tags: if big { vec!["large".into()] } else { vec![] } })
}

// ------------------------------------------------------------------ evidence
fn evidence_case(t: &mut Tape) -> CaseResult {
    let ids: Vec<i32> = {
        let n = 1 + t.upto(9);
        (0..n).map(|_| if t.bool() { t.range(-3, 8) as i32 } else { t.int_edge() as i32 }).collect()
    };
    let mut evs: Vec<(usize, BTreeMap<i32, (i32, usize, usize)>)> = vec![(unsafe { ev_empty() } as usize, BTreeMap::new())];
    let mut log = format!("ids {ids:?}\n");
    let steps = 2 + t.upto(24);
    let mut repl = 0;
    for s in 0..steps {
        let from = if t.chance(2, 3) { evs.len() - 1 } else { t.idx(evs.len()) };
        let id = *t.pick(&ids);
        let tag = if t.bool() { s as i32 } else { t.int_edge() as i32 };
        let (tr, h) = (if t.bool() { 0 } else { 0x1000 + s * 16 }, if t.bool() { 0 } else { 0x8000 + s * 16 });
        let _ = writeln!(log, "e{} = extend e{from} {id} tag={tag} tr={tr:#x} h={h:#x}", evs.len());
        note(&log);
        let p = unsafe { ev_extend(evs[from].0 as *const u8, id, tag, tr as *const u8, h as *const u8) } as usize;
        let mut m = evs[from].1.clone();
        repl += m.insert(id, (tag, tr, h)).is_some() as usize;
        evs.push((p, m));
        for (i, (p, m)) in evs.iter().enumerate() {
            for (id, want) in m {
                let got = unsafe { (ev_lookup(*p as *const u8, *id), ev_tr(*p as *const u8, *id) as usize, ev_handler(*p as *const u8, *id) as usize) };
                if got != *want {
                    return fail(format!("lookup of {id} in e{i} gave {got:x?}, expected {want:x?}"), log);
                }
            }
        }
    }
    Ok(Case { nontrivial: repl > 0 && evs.len() > 4, key: hash_str(&log), render: log, tags: vec![] })
}

fn tags_case(t: &mut Tape) -> CaseResult {
    // several threads initialise the runtime at the same time and draw tags
    let nt = 1 + t.upto(7);
    let mut plan: Vec<(u64, usize, usize)> = (0..nt).map(|_| (t.below(60), 1 + t.upto(2), 1 + t.upto(40))).collect();
    if t.chance(1, 100) {
        // a long-running program
        plan[0].2 = *t.pick(&[300usize, 33_000, 40_000, 70_000, 140_000]);
    }
    let text = format!("threads (pause µs, inits, tags): {plan:?}");
    let plan2 = plan.clone();
    let o = procs::run(Spec::default(), move |side| {
        let bar = std::sync::Arc::new(std::sync::Barrier::new(nt));
        let hs: Vec<_> = plan2
            .into_iter()
            .map(|(p, inits, n)| {
                let bar = bar.clone();
                std::thread::spawn(move || {
                    bar.wait();
                    for _ in 0..p * 20 {
                        std::hint::spin_loop();
                    }
                    let mut out = vec![];
                    for _ in 0..inits {
                        __tribute_init();
                        for _ in 0..n {
                            out.push(__tribute_next_tag());
                        }
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            let v = h.join().unwrap();
            side.send(&(v.len() as u32).to_le_bytes());
            for x in v {
                side.send(&x.to_le_bytes());
            }
        }
        0
    });
    if o.end != End::Exit(0) {
        return fail(format!("initialising and drawing tags ended with {:?}: {}", o.end, String::from_utf8_lossy(&o.stderr)), text);
    }
    let w: Vec<i32> = o.side.chunks(4).map(|c| i32::from_le_bytes(c.try_into().unwrap())).collect();
    let mut i = 0;
    for (k, (_, inits, n)) in plan.iter().enumerate() {
        let len = w[i] as usize;
        let tags = &w[i + 1..i + 1 + len];
        i += 1 + len;
        if len != inits * n {
            return fail(format!("thread {k} drew {len} tags"), text);
        }
        let mut s: Vec<i32> = tags.to_vec();
        s.sort();
        s.dedup();
        if s.len() != len {
            let mut seen = std::collections::HashSet::new();
            let d = tags.iter().position(|x| !seen.insert(*x)).unwrap();
            return fail(format!("thread {k} drew tag {} twice (second time as draw {d})", tags[d]), text);
        }
    }
    Ok(Case { nontrivial: nt > 1, key: hash_str(&text), render: text, tags: vec![] })
}

// ------------------------------------------------------------------ stdin
fn gen_input(t: &mut Tape) -> Vec<u8> {
    let mut out = vec![];
    let pieces = t.upto(12);
    let long = t.chance(1, 3);
    for _ in 0..pieces {
        match t.idx(12) {
            0 => out.push(b'\n'),
            1 => out.extend(b"\r\n"),
            2 => out.extend(b"\r"),
            3 => out.extend(b"\r\r\n"),
            4 => out.extend("é√𝄞한".as_bytes()),
            5 => out.extend(*t.pick(&[&b"\xff"[..], b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\xf0\x9d\x84"])),
            6 => out.push(0),
            7 | 8 if long => {
                // around the reader's buffer size
                let n = *t.pick(&[8190usize, 8191, 8192, 8193, 4096, 16384, 20000, 5000]);
                out.extend((0..n).map(|i| b'a' + (i % 26) as u8));
            }
            _ => {
                let n = t.upto(9);
                out.extend((0..n).map(|_| *t.pick(b"abc xyz\t")));
                if t.chance(2, 3) {
                    out.push(b'\n');
                }
            }
        }
    }
    out
}
#[derive(Clone, PartialEq, Debug)]
enum Line {
    Text(Vec<u8>),
    Eof,
    Bad,
    Sys(i32, Vec<u8>),
}
fn model_lines(input: &[u8]) -> Vec<Line> {
    let mut out = vec![];
    let mut rest = input;
    while !rest.is_empty() {
        let l = match rest.iter().position(|b| *b == b'\n') {
            Some(i) => {
                let mut l = &rest[..i];
                rest = &rest[i + 1..];
                if l.ends_with(b"\r") {
                    l = &l[..l.len() - 1];
                }
                l
            }
            None => std::mem::take(&mut rest),
        };
        out.push(if std::str::from_utf8(l).is_ok() { Line::Text(l.to_vec()) } else { Line::Bad });
    }
    out
}
fn show_line(l: &Line) -> String {
    match l {
        Line::Text(b) => format!("line {}", show(b)),
        Line::Sys(c, m) => format!("system error {c} {:?}", String::from_utf8_lossy(m)),
        x => format!("{x:?}"),
    }
}
/// Reads `n` lines and sends them through the side channel.
fn read_n(side: &mut procs::Side, n: usize) {
    for _ in 0..n {
        unsafe {
            let r = __tribute_io_read_line();
            let mut rec = vec![(*r).tag as u8];
            rec.extend((*r).code.to_le_bytes());
            for p in [(*r).bytes, (*r).message] {
                if p.is_null() {
                    rec.push(0);
                } else {
                    rec.push(1);
                    let (rc, rtti) = rc_of(p);
                    rec.extend(rc.to_le_bytes());
                    rec.extend(rtti.to_le_bytes());
                    let c = content(p);
                    rec.extend((c.len() as u32).to_le_bytes());
                    rec.extend(c);
                }
            }
            __tribute_io_read_line_result_dealloc(r);
            side.send(&rec);
        }
    }
}
fn parse_side(b: &[u8]) -> Result<Vec<Line>, String> {
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        let tag = b[i] as u32;
        let code = i32::from_le_bytes(b[i + 1..i + 5].try_into().unwrap());
        i += 5;
        let mut parts = vec![];
        for _ in 0..2 {
            i += 1;
            if b[i - 1] == 0 {
                parts.push(None);
                continue;
            }
            let u = |k: usize| u32::from_le_bytes(b[k..k + 4].try_into().unwrap());
            if u(i) != 1 || u(i + 4) != 0 {
                return Err(format!("a returned Bytes value has {} references and type index {}", u(i), u(i + 4)));
            }
            let n = u(i + 8) as usize;
            parts.push(Some(b[i + 12..i + 12 + n].to_vec()));
            i += 12 + n;
        }
        let p1 = parts.pop().unwrap();
        let p0 = parts.pop().unwrap();
        out.push(match (tag, code, p0, p1) {
            (IO_READ_LINE, 0, Some(x), None) => Line::Text(x),
            (IO_READ_END_OF_FILE, 0, None, None) => Line::Eof,
            (IO_READ_INVALID_ENCODING, 0, None, None) => Line::Bad,
            (IO_READ_SYSTEM, c, None, Some(m)) => Line::Sys(c, m),
            x => return Err(format!("malformed result {x:?}")),
        });
    }
    Ok(out)
}
fn stdin_case(t: &mut Tape) -> CaseResult {
    let input = gen_input(t);
    let mut want = model_lines(&input);
    let extra = 1 + t.upto(2);
    for _ in 0..extra {
        want.push(Line::Eof);
    }
    // chunking
    let mut chunks = vec![];
    let mut rest = &input[..];
    let mode = t.idx(4);
    while !rest.is_empty() && chunks.len() < 60 {
        let n = match mode {
            0 => rest.len(),
            1 => 1,
            2 => 1 + t.upto(6),
            _ => 1 + t.upto(9000),
        }
        .min(rest.len());
        chunks.push((if t.chance(1, 3) { t.below(300) } else { 0 }, rest[..n].to_vec()));
        rest = &rest[n..];
    }
    chunks.push((0, rest.to_vec()));
    let signals = if t.chance(1, 3) { Some(150) } else { None };
    let asan = t.chance(1, 3);
    let fault = t.idx(8);
    // a read that fails in the middle of a line: whole lines first, then a piece of one, then EAGAIN
    let whole: Vec<u8> = if fault == 2 { (0..t.upto(3)).flat_map(|_| { let mut l: Vec<u8> = (0..t.upto(6)).map(|_| *t.pick(b"abc xyz")).collect(); l.push(b'\n'); l }).collect() } else { vec![] };
    let piece: Vec<u8> = if fault == 2 { (0..t.upto(9)).map(|_| *t.pick(b"abc xyz\r\xc3")).collect() } else { vec![] };
    let text = format!("input {} in {} chunks (mode {mode}), signals {signals:?}, sanitizer {asan}, fault {fault} {:?} {:?}\ninput escaped: {}", input.len(), chunks.len(), whole.escape_ascii().to_string(), piece.escape_ascii().to_string(), clip_s(&input.escape_ascii().to_string()));
    note(&text);
    let n = want.len();
    let o = procs::run(Spec { stdin: Some(&chunks), signals_us: signals, ..Default::default() }, |side| {
        if asan {
            unsafe { __asan_init() };
        }
        __tribute_init();
        read_n(side, n);
        if fault < 2 {
            unsafe {
                libc::close(0);
                if fault == 1 {
                    libc::open(c"/".as_ptr(), libc::O_RDONLY);
                }
            }
            read_n(side, 2);
        }
        if fault == 2 {
            let mut fds = [0; 2];
            unsafe {
                libc::pipe(fds.as_mut_ptr());
                libc::write(fds[1], whole.as_ptr().cast(), whole.len());
                libc::write(fds[1], piece.as_ptr().cast(), piece.len());
                libc::fcntl(fds[0], libc::F_SETFL, libc::O_NONBLOCK);
                libc::dup2(fds[0], 0);
            }
            read_n(side, model_lines(&whole).len() + 1);
        }
        0
    });
    if o.end != End::Exit(0) {
        return fail(format!("reading ended with {:?}: {}", o.end, String::from_utf8_lossy(&o.stderr)), text);
    }
    if fault < 2 {
        let code = if fault == 0 { libc::EBADF } else { libc::EISDIR };
        for _ in 0..2 {
            want.push(Line::Sys(code, b"stdin read failed".to_vec()));
        }
    }
    if fault == 2 {
        want.extend(model_lines(&whole));
        want.push(Line::Sys(libc::EAGAIN, vec![]));
    }
    let got = match parse_side(&o.side) {
        Ok(g) => g,
        Err(e) => return fail(e, text),
    };
    for i in 0..want.len().max(got.len()) {
        let same = match (want.get(i), got.get(i)) {
            (Some(Line::Sys(a, _)), Some(Line::Sys(b, m))) => a == b && !m.is_empty(),
            (a, b) => a == b,
        };
        if !same {
            return fail(format!("read {i} gave {:?}, expected {:?}", got.get(i).map(show_line), want.get(i).map(show_line)), text);
        }
    }
    let nl = want.len();
    Ok(Case { nontrivial: nl > 3 && input.len() > 4, key: hash_str(&text), render: text, tags: vec![format!("mode{mode}")] })
}
fn clip_s(s: &str) -> String {
    if s.len() > 600 { format!("{}…", s.chars().take(600).collect::<String>()) } else { s.to_string() }
}

// ------------------------------------------------------------------ stdout
fn stdout_case(t: &mut Tape) -> CaseResult {
    #[derive(Clone, Debug)]
    enum W {
        Int(i32),
        Nat(u32),
        Float(f64),
        Raw(Vec<u8>),
        Newline,
        Bytes(Vec<u8>),
        Io(Vec<u8>, u32),
    }
    let large = t.chance(1, 4);
    let max = if large { 200_000 } else { 40 };
    let big = |t: &mut Tape| -> Vec<u8> {
        if large && t.chance(1, 2) {
            let n = t.upto(max);
            let k = t.idx(251);
            (0..n).map(|i| ((i * 7 + k) % 251) as u8).collect()
        } else {
            gen_bytes(t, 40)
        }
    };
    let n = 1 + t.upto(12);
    let ops: Vec<W> = (0..n)
        .map(|_| match t.idx(8) {
            0 => W::Int(t.int_edge() as i32),
            1 => W::Nat(t.int_edge() as u32),
            2 => W::Float(f64::from_bits(t.u64())),
            3 => W::Float(*t.pick(&[0.0, -0.0, 1.0, 0.1, 1e21, 1e-7, f64::MAX, f64::MIN_POSITIVE, 5e-324, f64::INFINITY, f64::NEG_INFINITY, 123456789.125])),
            4 => W::Raw(big(t)),
            5 => W::Newline,
            6 => W::Bytes(big(t)),
            _ => {
                let b = big(t);
                W::Io(b, t.below(2) as u32)
            }
        })
        .collect();
    let sig = if t.chance(1, 2) { Some(100) } else { None };
    let slow = if t.chance(1, 2) { Some((1 + t.upto(5000), t.below(40))) } else { None };
    let mut text = format!("signals {sig:?}, reader {slow:?}\n");
    for o in &ops {
        let _ = match o {
            W::Raw(b) => writeln!(text, "print_bytes {}", show(b)),
            W::Bytes(b) => writeln!(text, "bytes_print {}", show(b)),
            W::Io(b, n) => writeln!(text, "io_write {} newline={n}", show(b)),
            x => writeln!(text, "{x:?}"),
        };
    }
    note(&text);
    let ops2 = ops.clone();
    let o = procs::run(Spec { signals_us: sig, slow_reader: slow, ..Default::default() }, move |_| {
        __tribute_init();
        for o in ops2 {
            unsafe {
                match o {
                    W::Int(x) => __tribute_print_int(x),
                    W::Nat(x) => __tribute_print_nat(x),
                    W::Float(x) => __tribute_print_float(x),
                    W::Raw(b) => __tribute_print_bytes(b.as_ptr(), b.len() as u64),
                    W::Newline => __tribute_print_newline(),
                    W::Bytes(b) => __tribute_bytes_print(mk_bytes(&b)),
                    W::Io(b, n) => __tribute_io_write(mk_bytes(&b), n),
                }
            }
        }
        0
    });
    if o.end != End::Exit(0) {
        return fail(format!("writing ended with {:?}", o.end), text);
    }
    let mut r = &o.stdout[..];
    for (i, op) in ops.iter().enumerate() {
        let want: Vec<u8> = match op {
            W::Int(x) => format!("{x}\n").into_bytes(),
            W::Nat(x) => format!("{x}\n").into_bytes(),
            W::Float(x) => {
                let Some(e) = r.iter().position(|b| *b == b'\n') else { return fail(format!("output of write {i} has no end of line"), text) };
                let s = String::from_utf8_lossy(&r[..e]).into_owned();
                let ok = match s.parse::<f64>() {
                    Ok(y) => y.to_bits() == x.to_bits() || (x.is_nan() && y.is_nan()),
                    Err(_) => false,
                };
                if !ok {
                    return fail(format!("write {i}: {x:?} printed as {s:?}"), text);
                }
                r = &r[e + 1..];
                continue;
            }
            W::Raw(b) | W::Bytes(b) => b.clone(),
            W::Newline => b"\n".to_vec(),
            W::Io(b, n) => {
                let mut b = b.clone();
                if *n == 1 {
                    b.push(b'\n');
                }
                b
            }
        };
        if !r.starts_with(&want) {
            let k = r.iter().zip(&want).take_while(|(a, b)| a == b).count();
            return fail(format!("output of write {i} differs at byte {k} of {} (then follow {})", want.len(), show(&r[k..])), text);
        }
        r = &r[want.len()..];
    }
    if !r.is_empty() {
        return fail(format!("{} bytes of extra output", r.len()), text);
    }
    Ok(Case { nontrivial: ops.len() > 2, key: hash_str(&text), render: text, tags: if large { vec!["large".into()] } else { vec![] } })
}

// ------------------------------------------------------------------ allocator
fn alloc_case(t: &mut Tape) -> CaseResult {
    let asan = t.bool();
    let many = t.chance(1, 12);
    let n = 3 + t.upto(if many { 400 } else { 60 });
    let big = !many && t.chance(1, 10);
    #[derive(Clone, Debug)]
    enum A {
        Alloc(u64),
        Free(usize),
        FreeNull(u64),
    }
    let mut plan = vec![];
    let mut live: Vec<usize> = vec![];
    let mut na = 0;
    for _ in 0..n {
        if live.is_empty() || (live.len() < 40 && t.chance(3, 5)) {
            let sz = match t.idx(8) {
                0 => 0,
                1 => t.upto(9) as u64,
                2 => *t.pick(&[7u64, 8, 9, 15, 16, 24, 31, 32, 33, 40, 63, 64, 65]),
                3 if big => *t.pick(&[65536u64, 300_000, 1 << 20, (1 << 20) + 1]),
                _ if many => t.upto(24) as u64,
                _ => t.upto(300) as u64,
            };
            plan.push(A::Alloc(sz));
            live.push(na);
            na += 1;
        } else if t.chance(1, 20) {
            plan.push(A::FreeNull(t.upto(40) as u64));
        } else {
            let k = t.idx(live.len());
            plan.push(A::Free(live.swap_remove(k)));
        }
    }
    let text = format!("sanitizer {asan}\n{}", plan.iter().map(|p| format!("{p:?}")).collect::<Vec<_>>().join(" "));
    note(&text);
    let plan2 = plan.clone();
    let o = procs::run(Spec::default(), move |side| unsafe {
        if asan {
            __asan_init();
        }
        let mut v: Vec<Option<(usize, u64)>> = vec![];
        let pat = |i: usize, k: u64| (i as u64 * 31 + k * 7 + 1) as u8;
        let mut freed: std::collections::VecDeque<(usize, u64)> = Default::default();
        let mut freed_sum = 0u64;
        macro_rules! bad {
            ($($a:tt)*) => {{ side.send(format!($($a)*).as_bytes()); return 1; }};
        }
        for a in plan2 {
            match a {
                A::Alloc(sz) => {
                    let p = __tribute_alloc(sz) as usize;
                    if sz == 0 {
                        if p != 0 {
                            bad!("allocating 0 bytes gave a pointer");
                        }
                        v.push(Some((0, 0)));
                        continue;
                    }
                    if p == 0 || p % 8 != 0 {
                        bad!("allocation of {sz} bytes at {p:#x}: null or misaligned");
                    }
                    for (i, o) in v.iter().enumerate() {
                        if let Some((q, s)) = o {
                            if *s > 0 && p < *q + *s as usize && *q < p + sz as usize {
                                bad!("allocation {} overlaps live allocation {i}", v.len());
                            }
                        }
                    }
                    if asan {
                        for (q, s) in &freed {
                            if p < *q + *s as usize && *q < p + sz as usize {
                                bad!("allocation {} reuses memory that is still in quarantine", v.len());
                            }
                        }
                    }
                    let i = v.len();
                    for k in 0..sz {
                        *((p + k as usize) as *mut u8) = pat(i, k);
                    }
                    v.push(Some((p, sz)));
                }
                A::Free(i) => {
                    let (p, sz) = v[i].take().unwrap();
                    __tribute_dealloc(p as *mut u8, sz);
                    if asan && sz > 0 {
                        freed.push_back((p, sz));
                        freed_sum += sz + 64;
                        while freed_sum > 1 << 20 {
                            let (_, s) = freed.pop_front().unwrap();
                            freed_sum -= s + 64;
                        }
                        for (q, s) in &freed {
                            for k in -32..*s as isize + 32 {
                                if *((*q as isize + k) as *const u8) != 0xFD {
                                    bad!("freed memory in quarantine is not poisoned at byte {k} of {s}");
                                }
                            }
                        }
                    }
                }
                A::FreeNull(s) => __tribute_dealloc(std::ptr::null_mut(), s),
            }
            for (i, o) in v.iter().enumerate() {
                if let Some((p, s)) = o {
                    for k in 0..*s {
                        if *((p + k as usize) as *const u8) != pat(i, k) {
                            bad!("contents of live allocation {i} changed at byte {k} of {s}");
                        }
                    }
                }
            }
        }
        0
    });
    if o.end != End::Exit(0) || !o.stderr.is_empty() {
        return fail(format!("{} ({:?}) {}", String::from_utf8_lossy(&o.side), o.end, String::from_utf8_lossy(&o.stderr)), text);
    }
    Ok(Case { nontrivial: plan.iter().any(|p| matches!(p, A::Free(_))) && na > 3, key: hash_str(&text), render: text, tags: vec![format!("asan={asan}")] })
}

/// One heap error in a sanitized program: it must be reported when the block is released.
fn asan_case(t: &mut Tape) -> CaseResult {
    let sz = match t.idx(4) {
        0 => 1 + t.upto(8) as u64,
        1 => *t.pick(&[8u64, 16, 24, 32, 64, 4096]),
        _ => 1 + t.upto(300) as u64,
    };
    let noise: Vec<u64> = (0..t.upto(6)).map(|_| t.upto(100) as u64).collect();
    let kind = t.idx(4);
    let off: i64 = match kind {
        0 => -(1 + t.upto(31) as i64),
        1 => sz as i64 + t.upto(31) as i64,
        _ => 0,
    };
    let byte = loop {
        let b = t.idx(256) as u8;
        if b != 0xCC {
            break b;
        }
    };
    let frees = if t.chance(1, 10) { t.upto(200) } else { t.upto(5) };
    let text = format!("{} size {sz} offset {off} byte {byte:#x}, other allocations {noise:?}, {frees} frees in between", ["underflow write", "overflow write", "double free", "no error"][kind]);
    note(&text);
    let o = procs::run(Spec::default(), |side| unsafe {
        __asan_init();
        __tribute_init();
        let others: Vec<(*mut u8, u64)> = noise.iter().map(|s| (__tribute_alloc(*s), *s)).collect();
        let p = __tribute_alloc(sz);
        std::ptr::write_bytes(p, 0x11, sz as usize);
        if kind < 2 {
            *p.offset(off as isize) = byte;
        }
        for (q, s) in others.iter().take(frees) {
            __tribute_dealloc(*q, *s);
        }
        __tribute_dealloc(p, sz);
        side.send(b"1");
        if kind == 2 {
            for _ in 0..frees {
                let q = __tribute_alloc(sz);
                std::ptr::write_bytes(q, 0xCC, sz as usize);
                __tribute_dealloc(q, sz);
            }
            __tribute_dealloc(p, sz);
        }
        side.send(b"2");
        0
    });
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let want_side: &[u8] = match kind {
        0 | 1 => b"",
        2 => b"1",
        _ => b"12",
    };
    let ok = o.side == want_side && if kind == 3 { o.end == End::Exit(0) && err.is_empty() } else { o.end == End::Signal(libc::SIGABRT) && err.contains("ERROR: TributeASan") };
    if !ok {
        return fail(format!("ended with {:?}, stderr {err:?}, progress {:?}", o.end, String::from_utf8_lossy(&o.side)), text);
    }
    Ok(Case { nontrivial: kind != 3, key: hash_str(&text), render: text, tags: vec![["underflow", "overflow", "double-free", "clean"][kind].into()] })
}

/// Requests that can never be met stop the program instead of returning a bad pointer.
fn oom_case(t: &mut Tape) -> CaseResult {
    let asan = t.bool();
    let sz = match t.idx(4) {
        0 => u64::MAX - t.upto(70) as u64,
        1 => i64::MAX as u64 - t.upto(70) as u64,
        2 => i64::MAX as u64 + 1 + t.upto(70) as u64,
        _ => (1u64 << (48 + t.upto(14))) + t.upto(100) as u64,
    };
    let concat = t.bool();
    let text = format!("request {sz:#x}, sanitizer {asan}, through concat {concat}");
    let o = procs::run(Spec::default(), |side| unsafe {
        if asan {
            __asan_init();
        }
        if concat {
            let a = mk_bytes(b"");
            (*a).len = sz;
            let b = mk_bytes(b"");
            (*b).len = u64::MAX - sz;
            (*b).len += 1;
            __tribute_bytes_concat(a, b);
        } else {
            let p = __tribute_alloc(sz);
            side.send(format!("{p:?}").as_bytes());
        }
        0
    });
    if o.end != End::Signal(libc::SIGABRT) {
        return fail(format!("did not abort: {:?} {}", o.end, String::from_utf8_lossy(&o.side)), text);
    }
    Ok(Case { nontrivial: true, key: hash_str(&text), render: text, tags: vec![] })
}

fn main() {
    engine::main(vec![
        Property {
            id: "C16",
            lanes: vec![Lane { name: "bytes", rule: "history with at least three concatenations, slices or comparisons of non-empty ranges", quick: 30_000, thorough: 600_000, threads: 0, run: bytes_case }],
            assumptions: vec!["values are laid out as compiled code lays them out (refcount, type index, pointer, length)"],
            sweeps: vec![],
        },
        Property {
            id: "C17",
            lanes: vec![
                Lane { name: "evidence", rule: "a handler for an ability already handled is installed, and more than three evidences exist", quick: 40_000, thorough: 800_000, threads: 0, run: evidence_case },
                Lane { name: "tags", rule: "more than one thread initialises the runtime", quick: 3_000, thorough: 60_000, threads: 0, run: tags_case },
            ],
            assumptions: vec!["lookups are made only for abilities that were installed (the compiler's obligation)", "thread schedules are those the OS produces"],
            sweeps: vec![],
        },
        Property {
            id: "C18",
            lanes: vec![
                Lane { name: "stdin", rule: "at least three reads on more than four bytes of input", quick: 6_000, thorough: 100_000, threads: 0, run: stdin_case },
                Lane { name: "stdout", rule: "more than two writes", quick: 6_000, thorough: 100_000, threads: 0, run: stdout_case },
            ],
            assumptions: vec!["standard output is a blocking descriptor whose reader stays"],
            sweeps: vec![],
        },
        Property {
            id: "C19",
            lanes: vec![
                Lane { name: "alloc", rule: "more than three allocations and at least one release", quick: 10_000, thorough: 200_000, threads: 0, run: alloc_case },
                Lane { name: "sanitizer", rule: "a heap error is injected", quick: 10_000, thorough: 100_000, threads: 0, run: asan_case },
                Lane { name: "impossible", rule: "every request", quick: 1_500, thorough: 20_000, threads: 0, run: oom_case },
            ],
            assumptions: vec!["programs are single-threaded (as the sanitizer documents)", "writes of the red-zone byte value itself are invisible to the sanitizer"],
            sweeps: vec![],
        },
    ]);
}
