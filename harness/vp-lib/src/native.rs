//! Library programs compiled for the native target behave as written.
use crate::exec;
use crate::lang::*;
use crate::{load, pipe, shared};
use engine::*;
use irkit::gen_ir::T;
use irkit::interp::Val;
use irkit::pretty;
use procs::{End, Spec};
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, Ordering};
use trunk_ir::context::IrContext;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;

/// While on, allocations of the runtime come from the checking heap.
pub static ON: AtomicBool = AtomicBool::new(false);
pub struct Routed;
unsafe impl GlobalAlloc for Routed {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.align() <= 8 && ON.swap(false, Ordering::Relaxed) {
            let p = exec::heap_alloc(l.size() as u64);
            ON.store(true, Ordering::Relaxed);
            p as *mut u8
        } else {
            unsafe { System.alloc(l) }
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if l.align() <= 8 && ON.swap(false, Ordering::Relaxed) {
            exec::heap_dealloc(p as usize, l.size() as u64);
            ON.store(true, Ordering::Relaxed);
        } else {
            unsafe { System.dealloc(p, l) }
        }
    }
}

pub struct Prog {
    pub p: P,
    pub ctx: IrContext,
    pub module: OpRef,
    pub text: String,
    pub runs: Vec<([i32; 2], Result<i32, Halt>, Vec<u8>, u32)>,
    pub input: Option<Vec<u8>>,
}
pub fn prepare(t: &mut Tape, c: Cfg) -> Prog {
    let p = generate(t, c);
    let (ctx, module) = emit(&p, c.lists, c.slices, c.reads, c.boxes);
    let text = show(&p);
    note(&text);
    let input = match c.reads && !t.chance(1, 8) {
        true => Some((0..t.upto(9)).flat_map(|_| t.pick(&[&b"ab"[..], b"\n", b"\r\n", b"\xff", b"\xc3\xa9", b"x\n", b"\r", b"0"]).to_vec()).collect::<Vec<u8>>()),
        false => None,
    };
    let mut runs = vec![];
    for _ in 0..3 {
        let a = [*t.pick(&[0, 1, -1, 2, 5, i32::MIN, i32::MAX]), *t.pick(&[0, 1, 2, 3, 7, -1])];
        let mut r = Run::new(&p, 4000, input.clone());
        r.narrow = c.narrow;
        let v = r.call(p.fs.len() - 1, vec![V::I(a[0]), V::I(a[1])]).map(|v| if let V::I(x) = v { x } else { 0 });
        runs.push((a, v, std::mem::take(&mut r.out), r.steps));
    }
    Prog { p, ctx, module, text, runs, input }
}
pub fn show(p: &P) -> String {
    p.fs.iter().enumerate().map(|(i, f)| format!("fn {}({:?}) -> {:?} =\n  {:?}\n", p.names[i], f.params, f.ret, f.body)).collect()
}
unsafe extern "C" {
    fn __tribute_alloc();
    fn __tribute_dealloc();
    fn __tribute_bytes_len();
    fn __tribute_bytes_concat();
    fn __tribute_bytes_range_equal();
    fn __tribute_bytes_slice_or_panic();
    fn __tribute_io_write();
    fn __tribute_io_read_line();
    fn __tribute_io_read_line_result_dealloc();
}
pub fn symbol(n: &str) -> Option<usize> {
    Some(match n {
        "__tribute_alloc" => __tribute_alloc as *const () as usize,
        "__tribute_dealloc" => __tribute_dealloc as *const () as usize,
        "__tribute_bytes_len" => __tribute_bytes_len as *const () as usize,
        "__tribute_bytes_concat" => __tribute_bytes_concat as *const () as usize,
        "__tribute_bytes_range_equal" => __tribute_bytes_range_equal as *const () as usize,
        "__tribute_bytes_slice_or_panic" => __tribute_bytes_slice_or_panic as *const () as usize,
        "__tribute_io_write" => __tribute_io_write as *const () as usize,
        "__tribute_io_read_line" => __tribute_io_read_line as *const () as usize,
        "__tribute_io_read_line_result_dealloc" => __tribute_io_read_line_result_dealloc as *const () as usize,
        n => return shared::runtime_symbol(n),
    })
}
pub fn compile(p: &mut Prog, opt: bool, o: pipe::Opt) -> Result<Vec<u8>, Failure> {
    let m = Module::new(&p.ctx, p.module).unwrap();
    let r = (|| {
        shared::shared(&mut p.ctx, m)?;
        if opt {
            shared::target(&mut p.ctx, m, true, &["entry".to_string()])?;
        } else {
            let t = tribute_passes::generic_type_converter(&mut p.ctx);
            trunk_ir::conversion::resolve_unrealized_casts(&mut p.ctx, m, &t);
        }
        if std::env::var("VP_DUMP").is_ok() {
            eprintln!("=== target\n{}", pretty::canon(&p.ctx, p.module, false, false));
        }
        let ro = pipe::lower(&mut p.ctx, p.module, o)?;
        pipe::emit(&p.ctx, p.module, &ro)
    })();
    r.or_else(|e| fail(format!("compilation failed: {e}"), format!("{}\nLOWERED\n{}", p.text, pretty::canon(&p.ctx, p.module, false, false))))
}
pub fn lossy(b: &[u8]) -> String {
    b.escape_ascii().to_string()
}
fn run_all(p: &Prog, obj: &[u8], traps: bool, extra: &str) -> Result<usize, Failure> {
    let img = match load::load(obj, &symbol) {
        Ok(i) => i,
        Err(e) => return fail(format!("object file cannot be linked: {e}"), format!("{}\n{extra}", p.text)),
    };
    let mut n = 0;
    for (a, want, out, _) in &p.runs {
        let exact = match want {
            Ok(_) => true,
            Err(Halt::Fuel | Halt::Open) => continue,
            Err(_) => traps,
        };
        exec::log_reset();
        let chunks: Option<Vec<(u64, Vec<u8>)>> = p.input.as_ref().map(|i| vec![(0, i.clone())]);
        let o = procs::run(Spec { stdin: chunks.as_deref(), ..Spec::default() }, |_| {
            if chunks.is_none() {
                unsafe { libc::close(0) };
            }
            let Some(f) = img.func("entry") else { return 77 };
            unsafe { shared::__tribute_init() };
            exec::heap_init(60_000);
            ON.store(true, Ordering::Relaxed);
            let args = [Val::I(a[0] as i64), Val::I(a[1] as i64)];
            let f: extern "C" fn(i32, i32) -> i32 = unsafe { std::mem::transmute(f) };
            let v = f(a[0], a[1]);
            ON.store(false, Ordering::Relaxed);
            let _ = args;
            exec::log(&format!("{v}"));
            0
        });
        let got = exec::log_read();
        if o.end == End::Exit(exec::EXIT_HEAP_FULL) {
            continue;
        }
        let ok = match want {
            Ok(v) => o.end == End::Exit(0) && got == v.to_string() && o.stdout == *out,
            // an optimised program may have lost the trap of an unused operation
            Err(_) if !exact => matches!(o.end, End::Exit(0) | End::Signal(libc::SIGILL | libc::SIGFPE | libc::SIGABRT)),
            Err(Halt::Abort) => o.end == End::Signal(libc::SIGABRT) && o.stdout == *out,
            Err(_) => matches!(o.end, End::Signal(libc::SIGILL | libc::SIGFPE)) && o.stdout == *out,
        };
        if !ok {
            return fail(
                format!("compiled code differs| entry({}, {}) should give {want:?} and print {:?}; it gave [{got}], printed {:?}, ended with {:?} {}", a[0], a[1], lossy(out), lossy(&o.stdout), o.end, String::from_utf8_lossy(&o.stderr)),
                format!("{}\n{extra}", p.text),
            );
        }
        n += 1;
    }
    Ok(n)
}
fn case(t: &mut Tape) -> CaseResult {
    go(t, false)
}
fn box_case(t: &mut Tape) -> CaseResult {
    go(t, true)
}
fn go(t: &mut Tape, boxes: bool) -> CaseResult {
    let lists = t.chance(2, 3);
    let opt = t.bool();
    let c = Cfg { lists, slices: t.bool(), strings: t.bool(), prints: t.bool(), reads: t.chance(1, 3), partial: t.chance(1, 3), boxes, narrow: false, pages: false, size: 4 + t.upto(16) };
    let o = pipe::Opt { borrowed: t.bool(), temps: t.bool(), paired: t.bool(), ..pipe::Opt::base() };
    let mut p = prepare(t, c);
    let obj = compile(&mut p, opt, o)?;
    let n = run_all(&p, &obj, !opt, &format!("{c:?} {o:?} optimised={opt} input={:?}", p.input.as_ref().map(|i| lossy(i))))?;
    let mut tags = vec![];
    if p.runs.iter().any(|r| matches!(r.1, Err(Halt::Trap | Halt::Abort))) {
        tags.push("trap".to_string());
    }
    Ok(Case { nontrivial: n > 0 && p.runs.iter().any(|r| r.3 >= 8) && (!boxes || p.text.contains("Unbx(")), key: hash_str(&p.text), render: p.text.clone(), tags })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C27",
        lanes: vec![Lane { name: "library", rule: "a run of at least eight evaluation steps is compared", quick: 3000, thorough: 60_000, threads: 0, run: case }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
pub fn box_lane() -> Lane {
    Lane { name: "native-box", rule: "a run of at least eight evaluation steps of a program that unboxes is compared", quick: 2500, thorough: 60_000, threads: 0, run: box_case }
}
