//! A program that is started runs its main function, once, and ends.
use crate::lang::*;
use crate::native::{self, ON, lossy, show};
use crate::node::{self, Reply};
use crate::{exec, load, pipe, shared};
use engine::*;
use irkit::b::*;
use irkit::pretty;
use procs::{End, Spec};
use std::sync::atomic::Ordering;
use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;

struct Prog {
    p: P,
    ctx: IrContext,
    module: OpRef,
    text: String,
    want: Result<(), Halt>,
    out: Vec<u8>,
    steps: u32,
    input: Option<Vec<u8>>,
    evidence: bool,
    has_main: bool,
}
fn bx(e: E) -> Box<E> {
    Box::new(e)
}
fn nat(op: &'static str, a: E, b: E) -> E {
    E::Bin(op, bx(a), bx(b), false)
}
fn prepare(t: &mut Tape, c: Cfg, native: bool) -> Prog {
    let mut p = generate(t, c);
    let entry = p.fs.len() - 1;
    let add = |p: &mut P, n: &str, f: F| {
        p.names.push(n.into());
        p.fs.push(f);
        p.fs.len() - 1
    };
    let digit = E::If(Ty::Bytes, bx(nat("Nat::==", nat("Nat::%", E::Var(1), E::Int(2)), E::Int(1))), bx(E::Bytes(Blob(b"1".to_vec()))), bx(E::Bytes(Blob(b"0".to_vec()))));
    let bits = add(&mut p, "show_bits", F { params: vec![Ty::Nat, Ty::Nat], ret: Ty::Nat, body: Body::Count(E::Int(0), E::Print(bx(digit), bx(E::Bool(false)), bx(nat("Nat::/", E::Var(1), E::Int(2))))), evidence: false });
    let evidence = t.chance(1, 3);
    let ret = match native {
        true => *t.pick(&[Ty::Nil, Ty::Int, Ty::Float, Ty::Str, Ty::Bytes, Ty::Bool]),
        false => Ty::Nil,
    };
    let value = match ret {
        Ty::Nil => E::Nil,
        Ty::Int => E::Int(*t.pick(&[7, 1, -1])),
        Ty::Float => E::Float(1.5),
        Ty::Str => E::Str("result".into()),
        Ty::Bytes => E::Bytes(Blob(b"result".to_vec())),
        _ => E::Bool(true),
    };
    let say = |s: &str, k: E| E::Print(bx(E::Bytes(Blob(s.as_bytes().to_vec()))), bx(E::Bool(true)), bx(k));
    let has_main = t.chance(15, 16);
    // functions whose names resemble main's
    let mut decoys = vec![];
    for n in ["app::main", "main2", "entry_main", "_start2"] {
        if t.chance(1, 5) {
            let f = F { params: vec![], ret: Ty::Int, body: Body::Plain(say(n, E::Int(decoys.len() as i32 + 5))), evidence: false };
            decoys.push(add(&mut p, n, f));
        }
    }
    let (main, again) = (p.fs.len(), p.fs.len() + 1);
    let order = t.bool();
    let (main, again) = if order { (main, again) } else { (again, main) };
    let recurse = t.chance(1, 2);
    let calls = t.upto(2) + 1;
    // what main does, from the last thing to the first; every call binds one variable
    let n_vars = calls * 2 + decoys.len();
    let mut body = value;
    if recurse {
        let cond = if c.reads {
            nat("Nat::==", E::Len(bx(E::ReadLine)), E::Int(1))
        } else {
            nat("Nat::==", E::Call(entry, vec![E::Int(1), E::Int(1)]), E::Int(123_456_789))
        };
        let to = if t.bool() { main } else { again };
        let call = if t.chance(1, 3) { E::CallRef(to, vec![]) } else { E::Call(to, vec![]) };
        body = E::If(ret, bx(cond), bx(call), bx(body));
    }
    if t.bool() {
        body = say("end of main", body);
    }
    let mut lets = vec![];
    for _ in 0..calls {
        let a = vec![E::Int(*t.pick(&[0, 1, -1, 5, i32::MIN])), E::Int(*t.pick(&[0, 1, 2, 3, 7]))];
        lets.push(if t.chance(1, 4) { E::CallRef(entry, a) } else { E::Call(entry, a) });
        let v = lets.len() - 1;
        lets.push(E::Call(bits, vec![E::Int(32), E::Var(v)]));
    }
    for d in &decoys {
        lets.push(E::Call(*d, vec![]));
    }
    debug_assert_eq!(lets.len(), n_vars);
    for l in lets.into_iter().rev() {
        body = E::Let(bx(l), bx(body));
    }
    if t.bool() {
        body = say("start of main", body);
    }
    let fm = F { params: vec![], ret, body: Body::Plain(body), evidence };
    let back = if t.bool() { E::Call(main, vec![]) } else { E::CallRef(main, vec![]) };
    let fa = F { params: vec![], ret, body: Body::Plain(if t.bool() { say("again", back) } else { back }), evidence };
    let main_name = if has_main { "main" } else { "not_main" };
    if order {
        add(&mut p, main_name, fm);
        add(&mut p, "again", fa);
    } else {
        add(&mut p, "again", fa);
        add(&mut p, main_name, fm);
    }
    let (ctx, module) = emit(&p, c.lists, c.slices, c.reads, c.boxes);
    let text = format!("{}evidence={evidence}", show(&p));
    note(&text);
    let input = match c.reads && !t.chance(1, 8) {
        true => Some((0..t.upto(9)).flat_map(|_| t.pick(&[&b"ab"[..], b"\n", b"\r\n", b"\xff", b"z\n", b"x\n", b"\r", b"0"]).to_vec()).collect::<Vec<u8>>()),
        false => None,
    };
    let mut r = Run::new(&p, 20_000, input.clone());
    let want = r.call(main, vec![]).map(|_| ());
    let (out, steps) = (std::mem::take(&mut r.out), r.steps);
    Prog { p, ctx, module, text, want, out, steps, input, evidence, has_main }
}

// ---------------------------------------------------------------- native

unsafe extern "C" {
    fn __tribute_io_write(b: *const u8, n: u32);
    fn __tribute_evidence_empty() -> *mut u8;
}
extern "C" fn init() {
    let on = ON.swap(false, Ordering::Relaxed);
    exec::log("I");
    unsafe { shared::__tribute_init() };
    ON.store(on, Ordering::Relaxed);
}
extern "C" fn asan() {
    exec::log("A");
}
extern "C" fn empty() -> *mut u8 {
    exec::log("E");
    unsafe { __tribute_evidence_empty() }
}
extern "C" fn write(b: *const u8, n: u32) {
    exec::log("w");
    unsafe { __tribute_io_write(b, n) }
}
fn symbol(n: &str) -> Option<usize> {
    Some(match n {
        "__tribute_init" => init as *const () as usize,
        "__asan_init" => asan as *const () as usize,
        "__tribute_evidence_empty" => empty as *const () as usize,
        "__tribute_io_write" => write as *const () as usize,
        n => return native::symbol(n),
    })
}
fn native_case(t: &mut Tape) -> CaseResult {
    let opt = t.bool();
    let c = Cfg { lists: t.chance(1, 4), slices: t.bool(), strings: t.bool(), prints: t.bool(), reads: t.chance(1, 2), partial: t.chance(1, 5), boxes: false, narrow: false, pages: false, size: 3 + t.upto(6) };
    let o = pipe::Opt { borrowed: t.bool(), temps: t.bool(), paired: t.bool(), entrypoint: true, sanitize: t.bool() };
    let mut p = prepare(t, c, true);
    let declared = t.chance(1, 4);
    let extra = format!("{c:?} {o:?} optimised={opt} declared={declared} input={:?}", p.input.as_ref().map(|i| lossy(i)));
    let m = Module::new(&p.ctx, p.module).unwrap();
    if declared {
        // the declarations exist already
        let nil = core(&mut p.ctx, "nil");
        for n in ["__tribute_init", "__asan_init"] {
            let b = block(&mut p.ctx, &[]);
            put0(&mut p.ctx, b, "func.unreachable", &[], &[], &[]);
            let reg = region(&mut p.ctx, &[b]);
            let op = func(&mut p.ctx, n, nil, &[], Some(reg), &[("abi", Attribute::String("C".into()))]);
            let blk = m.first_block(&p.ctx).unwrap();
            p.ctx.push_op(blk, op);
        }
    }
    let r = (|| {
        let keep = ["not_main".to_string(), "__tribute_init".to_string(), "__asan_init".to_string()];
        shared::shared(&mut p.ctx, m)?;
        if opt {
            shared::target(&mut p.ctx, m, true, &keep)?;
        } else {
            let cm = core_dialect::Module::from_op(&p.ctx, m.op()).unwrap();
            tribute_passes::native::evidence::prepare_native_evidence_runtime(&mut p.ctx, m);
            let mut pm = PassManager::new();
            pm.nest::<func_dialect::Func>().add_pass(tribute_passes::native::evidence::LowerEvidenceToNative);
            pm.run(&mut p.ctx, cm).map_err(|e| format!("native evidence: {e}"))?;
        }
        let ro = pipe::lower(&mut p.ctx, p.module, o)?;
        pipe::emit(&p.ctx, p.module, &ro)
    })();
    let obj = r.or_else(|e: String| fail(format!("compilation failed: {e}"), format!("{}\n{extra}\nLOWERED\n{}", p.text, pretty::canon(&p.ctx, p.module, false, false))))?;
    let txt = || format!("{}\n{extra}", p.text);
    let img = match load::load(&obj, &symbol) {
        Ok(i) => i,
        Err(e) => return fail(format!("object file cannot be linked: {e}"), txt()),
    };
    let mut done = false;
    if !p.has_main {
        if img.exact("main").is_some() {
            return fail("a program without main was given one", txt());
        }
    } else if !matches!(p.want, Err(Halt::Fuel | Halt::Open)) && (p.want.is_ok() || !opt) {
        let Some(f) = img.exact("main") else { return fail("the object file has no main", txt()) };
        exec::log_reset();
        let chunks: Option<Vec<(u64, Vec<u8>)>> = p.input.as_ref().map(|i| vec![(0, i.clone())]);
        let out = procs::run(Spec { stdin: chunks.as_deref(), ..Spec::default() }, |_| {
            if chunks.is_none() {
                unsafe { libc::close(0) };
            }
            exec::heap_init(60_000);
            ON.store(true, Ordering::Relaxed);
            let f: extern "C" fn() -> i32 = unsafe { std::mem::transmute(f) };
            let v = f();
            ON.store(false, Ordering::Relaxed);
            exec::log("X");
            v
        });
        if out.end == End::Exit(exec::EXIT_HEAP_FULL) {
            return Ok(Case { nontrivial: false, key: 0, render: String::new(), tags: vec![] });
        }
        let log = exec::log_read();
        let head = format!("{}I{}", if o.sanitize { "A" } else { "" }, if p.evidence { "E" } else { "" });
        let rest = log.strip_prefix(&head);
        let ended = match &p.want {
            Ok(()) => out.end == End::Exit(0) && log.ends_with('X'),
            Err(Halt::Abort) => out.end == End::Signal(libc::SIGABRT),
            Err(_) => matches!(out.end, End::Signal(libc::SIGILL | libc::SIGFPE)),
        };
        if !rest.is_some_and(|r| r.trim_end_matches('X').chars().all(|c| c == 'w')) {
            return fail(format!("start-up sequence| expected {head} and then the program, got {log}"), txt());
        }
        if !ended || out.stdout != p.out {
            return fail(format!("a started program| should end with {:?} and print {:?}; it ended with {:?} and printed {:?} {}", p.want, lossy(&p.out), out.end, lossy(&out.stdout), String::from_utf8_lossy(&out.stderr)), txt());
        }
        done = true;
    }
    let mut tags = vec![];
    for (n, b) in [("evidence", p.evidence), ("trap", done && p.want.is_err()), ("main is entered again", p.out.windows(6).any(|w| w == b"again\n")), ("no main", !p.has_main)] {
        if b {
            tags.push(n.to_string());
        }
    }
    Ok(Case { nontrivial: done && p.steps >= 8, key: hash_str(&p.text), render: p.text.clone(), tags })
}

// ---------------------------------------------------------------- wasm

fn wasm_case(t: &mut Tape) -> CaseResult {
    let opt = t.bool();
    let c = Cfg { lists: false, slices: false, reads: false, strings: t.bool(), prints: t.bool(), partial: t.chance(1, 5), boxes: false, narrow: false, pages: false, size: 3 + t.upto(8) };
    let mut p = prepare(t, c, false);
    let exported = t.chance(1, 4);
    let extra = format!("{c:?} optimised={opt} exported={exported}");
    let m = Module::new(&p.ctx, p.module).unwrap();
    let r = (|| {
        shared::shared(&mut p.ctx, m)?;
        let keep = ["not_main".to_string()];
        if opt {
            shared::target(&mut p.ctx, m, false, &keep)?;
        } else {
            trunk_ir::transforms::eliminate_dead_functions_with_config(&mut p.ctx, m, trunk_ir::transforms::GlobalDceConfig { extra_entry_points: keep.to_vec(), recursive: true });
        }
        if exported && p.has_main {
            let blk = m.first_block(&p.ctx).unwrap();
            let x = mk(&mut p.ctx, "wasm.export_func", O { attrs: vec![("name".into(), Attribute::String("main".into())), ("func".into(), Attribute::Symbol(sym("main")))], ..O::default() });
            p.ctx.push_op(blk, x);
        }
        let ctx = &mut p.ctx;
        tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| format!("lower_to_wasm: {e}"))?;
        let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
        let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
        if !r.unresolved.is_empty() {
            return Err(format!("{} unresolved casts", r.unresolved.len()));
        }
        tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| format!("finalize: {e}"))?;
        trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m).map(|b| b.bytes).map_err(|e| format!("emit: {e}"))
    })();
    let wasm = r.or_else(|e: String| fail(format!("compilation failed: {e}"), format!("{}\n{extra}\nLOWERED\n{}", p.text, pretty::canon(&p.ctx, p.module, false, false))))?;
    let txt = || format!("{}\n{extra}", p.text);
    let known = !matches!(p.want, Err(Halt::Fuel | Halt::Open)) && (p.want.is_ok() || !opt);
    let mut runs = vec![];
    let run = |f: &str| node::Run { f: f.into(), params: vec![], ret: "nil", args: vec![], answers: vec![], writes: vec![] };
    if !p.has_main || known {
        // twice: nothing of a run is left for the next
        runs = vec![run("_start"), run("_start")];
        if !p.evidence {
            runs.push(run("main"));
        }
    }
    let res = match node::run(&wasm, &[], &runs, 20_000) {
        Reply::Bad(m) => return fail(format!("module is rejected| {m}"), txt()),
        Reply::Timeout => return fail("compiled module does not end, the program does", txt()),
        Reply::Runs(r) => r,
    };
    if res.len() != runs.len() {
        return fail(format!("internal: {} answers for {} runs", res.len(), runs.len()), txt());
    }
    for (q, r) in runs.iter().zip(&res) {
        if !p.has_main {
            if r.kind != "js" {
                return fail("a program without main was given one", txt());
            }
            continue;
        }
        let kind = if p.want.is_ok() { "ok" } else { "trap" };
        if r.kind != kind || r.out != p.out {
            return fail(format!("a started module| {} should end with {:?} and print {:?}; it ended with {} {} and printed {:?}", q.f, p.want, lossy(&p.out), r.kind, r.value, lossy(&r.out)), txt());
        }
    }
    let done = p.has_main && known;
    let mut tags = vec![];
    for (n, b) in [("evidence", p.evidence), ("trap", done && p.want.is_err()), ("no main", !p.has_main)] {
        if b {
            tags.push(n.to_string());
        }
    }
    let _ = &p.p;
    Ok(Case { nontrivial: done && p.steps >= 8, key: hash_str(&p.text), render: p.text.clone(), tags })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C31",
        lanes: vec![
            Lane { name: "native-start", rule: "the program is started and takes at least eight evaluation steps", quick: 2000, thorough: 40_000, threads: 0, run: native_case },
            Lane { name: "wasm-start", rule: "the module is started and takes at least eight evaluation steps", quick: 6000, thorough: 100_000, threads: 0, run: wasm_case },
        ],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
