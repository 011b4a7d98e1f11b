//! Programs with closures, compiled for WebAssembly, behave as written.
use crate::fxi::Stop;
use crate::genfx::*;
use crate::native::{Prog, prepare};
use crate::node::{self, Import, Reply, Run};
use crate::shared;
use engine::*;
use irkit::b::*;
use irkit::pretty;
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;

fn make_exports(p: &mut FxProg) {
    let m = Module::new(&p.ctx, p.module).unwrap();
    let blk = m.first_block(&p.ctx).unwrap();
    let named = |p: &FxProg, n: &str| p.ctx.block(blk).ops.iter().copied().find(|o| p.ctx.op(*o).attributes.get_symbol("sym_name") == Some(sym(n)));
    if let Some(op) = named(p, "obs") {
        let ty = p.ctx.op(op).attributes.get_type("type").unwrap();
        let imp = mk(&mut p.ctx, "wasm.import_func", O { attrs: vec![("module".into(), Attribute::Symbol(sym("env"))), ("name".into(), Attribute::Symbol(sym("obs"))), ("sym_name".into(), Attribute::Symbol(sym("obs"))), ("type".into(), Attribute::Type(ty))], ..O::default() });
        p.ctx.insert_op_before(blk, op, imp);
        p.ctx.remove_op_from_block(blk, op);
    }
    for e in p.entries.clone() {
        let x = mk(&mut p.ctx, "wasm.export_func", O { attrs: vec![("name".into(), Attribute::String(e.as_str().into())), ("func".into(), Attribute::Symbol(sym(&e)))], ..O::default() });
        p.ctx.push_op(blk, x);
    }
}
fn dump(p: &Prog, what: &str) {
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("=== {what}\n{}", pretty::canon(&p.p.ctx, p.p.module, false, false));
    }
}
fn stages(p: &mut Prog) -> Result<Vec<u8>, String> {
    let m = Module::new(&p.p.ctx, p.p.module).unwrap();
    shared::shared(&mut p.p.ctx, m)?;
    dump(p, "shared");
    shared::target(&mut p.p.ctx, m, false, &p.p.entries.clone())?;
    dump(p, "target");
    make_exports(&mut p.p);
    let ctx = &mut p.p.ctx;
    tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| format!("lower_to_wasm: {e}"))?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| format!("finalize: {e}"))?;
    dump(p, "lowered");
    trunk_ir_wasm_backend::emit_module_to_wasm(&mut p.p.ctx, m).map(|b| b.bytes).map_err(|e| format!("emit: {e}"))
}
fn compile(p: &mut Prog) -> Result<Vec<u8>, Failure> {
    match stages(p) {
        Ok(b) => Ok(b),
        Err(e) => fail(format!("compilation failed: {e}"), format!("{}\nLOWERED\n{}", p.text, pretty::canon(&p.p.ctx, p.p.module, false, false))),
    }
}
fn run_all(p: &Prog, wasm: &[u8]) -> Result<usize, Failure> {
    let imports = [Import { name: "obs".into(), params: vec!["i32"], ret: "i32" }];
    let todo: Vec<_> = p.runs.iter().filter(|r| r.2.result.is_ok()).collect();
    let runs: Vec<Run> = todo.iter().map(|(e, a, o)| Run { f: e.clone(), params: vec!["i32", "i32"], ret: "i32", args: a.iter().map(|x| x.to_string()).collect(), answers: o.trace.iter().map(|e| e.ret.clone()).collect(), writes: vec![] }).collect();
    let res = match node::run(wasm, &imports, &runs, 20_000) {
        Reply::Bad(m) => return fail(format!("module is rejected| {m}"), p.text.clone()),
        Reply::Timeout => return fail("compiled module does not end, the program does", p.text.clone()),
        Reply::Runs(r) => r,
    };
    if res.len() != runs.len() {
        return fail(format!("internal: {} answers for {} runs", res.len(), runs.len()), p.text.clone());
    }
    let mut n = 0;
    for ((e, a, want), r) in todo.iter().zip(&res) {
        let ev = want.trace.iter().map(|e| format!("{}({})", e.callee, e.args.join(", "))).collect::<Vec<_>>().join("; ");
        let w = want.result.as_ref().unwrap().to_string();
        if r.kind != "ok" || r.value != w || r.events != ev {
            return fail(format!("compiled module differs| @{e}({a:?}) should give {w} with external calls [{ev}]; it gave {} {} with [{}]", r.kind, r.value, r.events), p.text.clone());
        }
        n += 1;
    }
    Ok(n)
}
fn case(t: &mut Tape) -> CaseResult {
    let c = FxCfg { ops: false, fns: false, closures: true, pairs: false, ..crate::native::cfg(t) };
    let mut p = prepare(t, c)?;
    let w = compile(&mut p)?;
    let n = run_all(&p, &w)?;
    let mut tags = vec![];
    if p.runs.iter().any(|r| r.2.result == Err(Stop::Diverge)) {
        tags.push("diverge".to_string());
    }
    let eff = p.runs.iter().filter(|r| r.2.result.is_ok()).map(|r| r.2.performs + r.2.fn_calls + r.2.closure_calls).sum::<usize>();
    Ok(Case { nontrivial: n > 0 && eff > 0, key: hash_str(&p.text), render: p.text.clone(), tags })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C26",
        lanes: vec![Lane { name: "wasm-closures", rule: "a run to completion that calls a closure is compared", quick: 20_000, thorough: 300_000, threads: 0, run: case }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
