//! WebAssembly modules are valid and compute what the IR says.
use crate::node::{self, Import, Reply, Run};
use engine::*;
use irkit::b::*;
use irkit::gen_ir::*;
use irkit::interp::{self, Outcome, Stop, Val};
use irkit::pretty;
use trunk_ir::context::IrContext;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;

const FUEL: u64 = 6000;

pub struct Prog {
    pub g: Gen,
    pub text: String,
    pub runs: Vec<(Sig, Vec<Val>, Outcome)>,
}
fn callable(s: &Sig) -> bool {
    !s.external && !matches!(s.ret, T::Adt(_)) && s.params.iter().all(|p| !matches!(p, T::Adt(_)))
}
pub fn prepare(t: &mut Tape, cfg: &Cfg, ninputs: usize) -> Prog {
    let g = gen_module(t, cfg);
    let mut runs = vec![];
    for s in g.sigs.iter().filter(|s| callable(s)) {
        for a in gen_inputs(t, s, ninputs) {
            let o = interp::run(&g.ctx, g.module, &s.name, &a, FUEL);
            runs.push((s.clone(), a, o));
        }
    }
    let text = pretty::canon(&g.ctx, g.module, false, false);
    note(&text);
    Prog { g, text, runs }
}
/// Replaces external functions by imports and exports all others.
fn make_exports(g: &mut Gen) {
    let m = Module::new(&g.ctx, g.module).unwrap();
    let blk = m.first_block(&g.ctx).unwrap();
    for s in g.sigs.clone() {
        if s.external {
            let op = *g.ctx.block(blk).ops.iter().find(|o| g.ctx.op(**o).attributes.get_symbol("sym_name") == Some(sym(&s.name))).unwrap();
            let ty = g.ctx.op(op).attributes.get_type("type").unwrap();
            let imp = mk(&mut g.ctx, "wasm.import_func", O { attrs: vec![("module".into(), Attribute::Symbol(sym("env"))), ("name".into(), Attribute::Symbol(sym(&s.name))), ("sym_name".into(), Attribute::Symbol(sym(&s.name))), ("type".into(), Attribute::Type(ty))], ..O::default() });
            g.ctx.insert_op_before(blk, op, imp);
            g.ctx.remove_op_from_block(blk, op);
        } else if callable(&s) {
            let e = mk(&mut g.ctx, "wasm.export_func", O { attrs: vec![("name".into(), Attribute::String(s.name.as_str().into())), ("func".into(), Attribute::Symbol(sym(&s.name)))], ..O::default() });
            g.ctx.push_op(blk, e);
        }
    }
}
pub fn lower(ctx: &mut IrContext, op: OpRef) -> Result<Vec<u8>, String> {
    let m = Module::new(ctx, op).ok_or("not a module")?;
    tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| format!("lower_to_wasm: {e}"))?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| format!("finalize: {e}"))?;
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("LOWERED\n{}", pretty::canon(ctx, op, false, false));
    }
    trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m).map(|b| b.bytes).map_err(|e| format!("emit: {e}"))
}
fn tyn(t: T) -> &'static str {
    match t {
        T::Nil => "nil",
        T::Adt(_) => "adt",
        t => t.name(),
    }
}
fn run_all(p: &Prog, wasm: &[u8], keep_traps: bool, extra: &str) -> Result<usize, Failure> {
    let imports: Vec<Import> = p.g.sigs.iter().filter(|s| s.external).map(|s| Import { name: s.name.clone(), params: s.params.iter().map(|t| tyn(*t)).collect(), ret: tyn(s.ret) }).collect();
    let todo: Vec<&(Sig, Vec<Val>, Outcome)> = p
        .runs
        .iter()
        .filter(|r| match &r.2.result {
            Ok(_) => true,
            Err(Stop::Fuel) => false,
            Err(Stop::Trap(m)) => keep_traps && *m != "removf",
            Err(_) => keep_traps,
        })
        .collect();
    for r in &todo {
        if let Err(Stop::Stuck(m)) = &r.2.result {
            return fail(format!("generator bug: stuck on input: {m}"), p.text.clone());
        }
    }
    let runs: Vec<Run> = todo.iter().map(|(s, a, o)| Run { f: s.name.clone(), params: s.params.iter().map(|t| tyn(*t)).collect(), ret: tyn(s.ret), args: a.iter().map(interp::show).collect(), answers: o.trace.iter().map(|e| e.ret.clone()).collect(), writes: vec![] }).collect();
    let ctxt = || format!("{}\n{extra}", p.text);
    let res = match node::run(wasm, &imports, &runs, 20_000) {
        Reply::Bad(m) => return fail(format!("module is rejected| {m}"), ctxt()),
        Reply::Timeout => return fail("compiled module does not end, the program does", ctxt()),
        Reply::Runs(r) => r,
    };
    if res.len() != runs.len() {
        return fail(format!("internal: {} answers for {} runs", res.len(), runs.len()), ctxt());
    }
    let mut n = 0;
    for ((s, a, want), r) in todo.iter().zip(&res) {
        let ev = want.trace.iter().map(|e| format!("{}({})", e.callee, e.args.join(", "))).collect::<Vec<_>>().join("; ");
        let ok = match &want.result {
            Ok(vs) => {
                let w = if s.ret == T::Nil { "()".to_string() } else { vs.first().cloned().unwrap_or("()".into()) };
                n += 1;
                r.kind == "ok" && r.value == w && r.events == ev
            }
            Err(_) => r.kind == "trap" && r.events == ev,
        };
        if !ok {
            return fail(
                format!("compiled module differs| @{}({}) should give {:?} with external calls [{ev}]; it gave {} {} with [{}]", s.name, a.iter().map(interp::show).collect::<Vec<_>>().join(", "), want.result, r.kind, r.value, r.events),
                ctxt(),
            );
        }
    }
    Ok(n)
}
fn compile(p: &mut Prog) -> Result<Vec<u8>, Failure> {
    make_exports(&mut p.g);
    let text = p.text.clone();
    match lower(&mut p.g.ctx, p.g.module) {
        Ok(b) => Ok(b),
        Err(e) => fail(format!("compilation failed: {e}"), format!("{text}\nLOWERED\n{}", pretty::canon(&p.g.ctx, p.g.module, false, false))),
    }
}
fn wasm_cfg(t: &mut Tape) -> Cfg {
    let all = vec![T::I32, T::I64, T::I1, T::F64, T::F32];
    let huge = t.chance(1, 40);
    let max_stmts = if huge { 250 } else { 4 + t.upto(14) };
    let scalars = if huge && t.bool() { vec![*t.pick(&all[..2])] } else { all };
    Cfg { scalars, cf: false, switches: false, if_nil: true, i1_casts: false, simple_loops: true, extern_attrs: true, paths: true, max_stmts, ..Cfg::base() }
}
fn scalar_case(t: &mut Tape) -> CaseResult {
    let cfg = wasm_cfg(t);
    let mut p = prepare(t, &cfg, 3);
    let w = compile(&mut p)?;
    let n = run_all(&p, &w, true, "")?;
    Ok(Case { nontrivial: n > 0 && p.g.stats.ops >= 6, key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
fn adt_cfg(t: &mut Tape) -> Cfg {
    let c = wasm_cfg(t);
    // indirect calls derive their signature from the arguments, which may be of a variant type
    let heavy = t.chance(2, 3);
    Cfg { adt: true, indirect: false, adt_repr: Repr::Typeref, wide: true, deep_reads: true, heavy, ..c }
}
fn adt_case(t: &mut Tape) -> CaseResult {
    let cfg = adt_cfg(t);
    let mut p = prepare(t, &cfg, 3);
    let w = compile(&mut p)?;
    let n = run_all(&p, &w, true, "")?;
    Ok(Case { nontrivial: n > 0 && p.g.stats.adt_ops >= 1, key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
fn optimise(ctx: &mut IrContext, m: Module, k: usize, keep: &[String]) -> Result<(), String> {
    use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
    use trunk_ir::ops::DialectOp;
    use trunk_ir::pass::PassManager;
    use trunk_ir::transforms as tf;
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|_| "not a core.module".to_string())?;
    match k {
        0 => {
            let mut cache = trunk_ir::analysis::AnalysisCache::new();
            tf::inline_functions(ctx, m, &mut cache);
        }
        1 => {
            let extra_entry_points = keep.iter().map(|s| s.to_string().into()).collect();
            tf::eliminate_dead_functions_with_config(ctx, m, tf::GlobalDceConfig { extra_entry_points, recursive: true });
        }
        2 => {
            let mut pm = PassManager::new();
            pm.nest::<func_dialect::Func>().add_pass(tf::canonicalize_pass());
            pm.run(ctx, cm).map_err(|e| format!("canonicalize: {e}"))?;
        }
        _ => {
            let mut pm = PassManager::new();
            pm.nest::<func_dialect::Func>().add_pass(tf::dce_pass(tf::dce::DceConfig::default()));
            pm.run(ctx, cm).map_err(|e| format!("dce: {e}"))?;
        }
    }
    Ok(())
}
fn opt_case(t: &mut Tape) -> CaseResult {
    let cfg = if t.bool() { adt_cfg(t) } else { wasm_cfg(t) };
    let cfg = Cfg { const_bias: 5, ..cfg };
    let mut p = prepare(t, &cfg, 3);
    let m = Module::new(&p.g.ctx, p.g.module).unwrap();
    let keep: Vec<String> = p.runs.iter().map(|r| r.0.name.clone()).collect();
    let n = 1 + t.upto(3);
    let mut names = vec![];
    for _ in 0..n {
        let k = t.idx(4);
        names.push(["inline", "dce_funcs", "canonicalize", "dce"][k]);
        if let Err(e) = optimise(&mut p.g.ctx, m, k, &keep) {
            return fail(format!("optimisation failed: {e}"), p.text.clone());
        }
    }
    let w = compile(&mut p)?;
    let n = run_all(&p, &w, false, &format!("{names:?}"))?;
    Ok(Case { nontrivial: n > 0 && p.g.stats.ops >= 6, key: hash_str(&p.text) ^ hash_str(&names.join(",")), render: format!("{names:?}\n{}", p.text), tags: vec![] })
}
fn det_case(t: &mut Tape) -> CaseResult {
    let cfg = if t.chance(2, 3) { adt_cfg(t) } else { wasm_cfg(t) };
    let t2 = t.clone();
    let mut p = prepare(t, &cfg, 0);
    let a = compile(&mut p)?;
    for _ in 0..3 {
        let mut q = prepare(&mut t2.clone(), &cfg, 0);
        let b = compile(&mut q)?;
        if a != b {
            let at = a.iter().zip(&b).position(|(x, y)| x != y);
            return fail(format!("compiling the same module twice gives different binaries| {} and {} bytes, first difference at {at:?}", a.len(), b.len()), p.text.clone());
        }
    }
    Ok(Case { nontrivial: p.g.stats.ops >= 6, key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C23",
        lanes: vec![
            Lane { name: "scalar", rule: "a run to completion is compared and the program has at least six operations", quick: 6000, thorough: 120_000, threads: 0, run: scalar_case },
            Lane { name: "adt", rule: "a run to completion is compared and the program builds or takes apart a value", quick: 20_000, thorough: 120_000, threads: 0, run: adt_case },
            Lane { name: "optimised", rule: "a run to completion is compared and the program has at least six operations", quick: 6000, thorough: 120_000, threads: 0, run: opt_case },
        ],
        assumptions: vec![],
        sweeps: vec![],
    },
    Property {
        id: "C24",
        lanes: vec![Lane { name: "wasm-det", rule: "the program has at least six operations", quick: 6000, thorough: 120_000, threads: 0, run: det_case }],
        assumptions: vec![],
        sweeps: vec![],
    },
    Property {
        id: "C39",
        lanes: vec![Lane { name: "direct", rule: "at least two calls of the history end normally and are compared", quick: 50_000, thorough: 400_000, threads: 0, run: crate::direct::case }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
