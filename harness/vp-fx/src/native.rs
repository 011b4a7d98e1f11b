//! Programs with closures and effect handlers, compiled for the native target, behave as written.
use crate::exec::{self, Ext};
use crate::fxi::{self, Stop};
use crate::genfx::*;
use crate::{load, pipe, shared};
use engine::*;
use irkit::gen_ir::T;
use irkit::interp::{self, Val};
use irkit::pretty;
use procs::{End, Spec};
use trunk_ir::rewrite::Module;

const FUEL: u64 = 20_000;

pub struct Prog {
    pub p: FxProg,
    pub text: String,
    pub runs: Vec<(String, Vec<i64>, fxi::Outcome)>,
}
pub fn prepare(t: &mut Tape, cfg: FxCfg) -> Result<Prog, Failure> {
    let p = generate(t, cfg);
    let text = pretty::canon(&p.ctx, p.module, false, false);
    note(&text);
    let mut inputs = vec![];
    for e in &p.entries {
        for _ in 0..2 {
            inputs.push((e.clone(), vec![t.range(-2, 5), t.range(-9, 9)]));
        }
    }
    let mut p = Prog { p, text, runs: vec![] };
    for (e, a) in inputs {
        let o = fxi::run(&mut p.p.ctx, p.p.module, &e, &a, FUEL);
        if let Err(Stop::Stuck(m)) = &o.result {
            return fail(format!("generator bug: stuck on input: {m}"), p.text.clone());
        }
        p.runs.push((e, a, o));
    }
    Ok(p)
}
fn dump(p: &Prog, what: &str) {
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("=== {what}\n{}", pretty::canon(&p.p.ctx, p.p.module, false, false));
    }
}
fn compile(p: &mut Prog, o: pipe::Opt) -> Result<Vec<u8>, Failure> {
    let m = Module::new(&p.p.ctx, p.p.module).unwrap();
    let bad = |p: &Prog, e: String| fail(format!("compilation failed: {e}"), format!("{}\nLOWERED\n{}", p.text, pretty::canon(&p.p.ctx, p.p.module, false, false)));
    if let Err(e) = shared::shared(&mut p.p.ctx, m) {
        return bad(p, e);
    }
    dump(p, "shared");
    if let Err(e) = shared::target(&mut p.p.ctx, m, true, &p.p.entries) {
        return bad(p, e);
    }
    dump(p, "target");
    let ro = match pipe::lower(&mut p.p.ctx, p.p.module, o) {
        Ok(r) => r,
        Err(e) => return bad(p, e),
    };
    dump(p, "lowered");
    match pipe::emit(&p.p.ctx, p.p.module, &ro) {
        Ok(b) => Ok(b),
        Err(e) => bad(p, e),
    }
}
fn run_all(p: &Prog, obj: &[u8], extra: &str) -> Result<usize, Failure> {
    let stubs = exec::make_stubs(vec![Ext { name: "obs".into(), params: vec![T::I32], ret: T::I32 }]);
    let img = match load::load(obj, &|n| stubs.get(n).copied().or_else(|| shared::runtime_symbol(n))) {
        Ok(i) => i,
        Err(e) => return fail(format!("object file cannot be linked: {e}"), format!("{}\n{extra}", p.text)),
    };
    let todo: Vec<usize> = (0..p.runs.len()).filter(|i| p.runs[*i].2.result.is_ok()).collect();
    let mut n = 0;
    for &i in &todo {
        let (e, a, want) = &p.runs[i];
        exec::log_reset();
        let o = procs::run(Spec::default(), |_| {
            let Some(f) = img.func(e) else { return 77 };
            unsafe { shared::__tribute_init() };
            exec::reset();
            exec::heap_init(60_000);
            let args: Vec<Val> = a.iter().map(|x| Val::I(*x)).collect();
            let v = unsafe { exec::call(f, &[T::I32, T::I32], &args, T::I32) };
            exec::log(&format!("R {}\n", interp::show(&v)));
            0
        });
        let got = exec::log_read();
        if o.end == End::Exit(exec::EXIT_HEAP_FULL) {
            continue;
        }
        let ev: String = want.trace.iter().map(exec::show_event).collect();
        let w = format!("{ev}R {}\n", want.result.as_ref().unwrap());
        if got != w || o.end != End::Exit(0) {
            let err = String::from_utf8_lossy(&o.stderr);
            return fail(
                format!("compiled code differs| @{e}({a:?}) should do [{}]; compiled code did [{}], ended with {:?} {err}", w.trim().replace('\n', "; "), got.trim().replace('\n', "; "), o.end),
                format!("{}\n{extra}", p.text),
            );
        }
        n += 1;
    }
    Ok(n)
}
pub fn cfg(t: &mut Tape) -> FxCfg {
    let kind = t.weighted(&[4, 2, 2]);
    FxCfg { floats: t.bool(), pairs: t.bool(), closures: t.chance(2, 3), ops: kind != 1, fns: kind != 2, obs: true, direct_closures: t.bool(), size: 4 + t.upto(14) }
}
fn effects(t: &mut Tape) -> CaseResult {
    let c = cfg(t);
    let o = pipe::Opt { borrowed: t.bool(), temps: t.bool(), paired: t.bool(), ..pipe::Opt::base() };
    let mut p = prepare(t, c)?;
    let obj = compile(&mut p, o)?;
    let n = run_all(&p, &obj, &format!("{o:?}"))?;
    let mut tags = vec![];
    let d = p.runs.iter().filter(|r| r.2.result == Err(Stop::Diverge)).count();
    if d > 0 {
        tags.push("diverge".to_string());
    }
    let ok: Vec<_> = p.runs.iter().filter(|r| r.2.result.is_ok()).collect();
    let eff = ok.iter().map(|r| r.2.performs + r.2.fn_calls + r.2.closure_calls).sum::<usize>();
    Ok(Case { nontrivial: n > 0 && eff > 0, key: hash_str(&p.text), render: p.text.clone(), tags })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C25",
        lanes: vec![Lane { name: "effects", rule: "a run to completion that performs an operation or calls a closure is compared", quick: 1500, thorough: 40_000, threads: 0, run: effects }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
