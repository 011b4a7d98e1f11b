//! Library programs compiled for WebAssembly behave as written.
use crate::lang::*;
use crate::native::{Prog, prepare};
use crate::node::{self, Reply};
use crate::shared;
use engine::*;
use irkit::b::*;
use irkit::pretty;
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;

fn stages(p: &mut Prog, opt: bool) -> Result<Vec<u8>, String> {
    let m = Module::new(&p.ctx, p.module).unwrap();
    shared::shared(&mut p.ctx, m)?;
    if opt {
        shared::target(&mut p.ctx, m, false, &["entry".to_string()])?;
    } else {
        let extra_entry_points = vec!["entry".to_string()];
        trunk_ir::transforms::eliminate_dead_functions_with_config(&mut p.ctx, m, trunk_ir::transforms::GlobalDceConfig { extra_entry_points, recursive: true });
        let t = tribute_passes::generic_type_converter(&mut p.ctx);
        trunk_ir::conversion::resolve_unrealized_casts(&mut p.ctx, m, &t);
    }
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("=== target\n{}", pretty::canon(&p.ctx, p.module, false, false));
    }
    let blk = m.first_block(&p.ctx).unwrap();
    let x = mk(&mut p.ctx, "wasm.export_func", O { attrs: vec![("name".into(), Attribute::String("entry".into())), ("func".into(), Attribute::Symbol(sym("entry")))], ..O::default() });
    p.ctx.push_op(blk, x);
    let ctx = &mut p.ctx;
    tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| format!("lower_to_wasm: {e}"))?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| format!("finalize: {e}"))?;
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("=== lowered\n{}", pretty::canon(&p.ctx, p.module, false, false));
    }
    trunk_ir_wasm_backend::emit_module_to_wasm(&mut p.ctx, m).map(|b| b.bytes).map_err(|e| format!("emit: {e}"))
}
fn run_all(p: &Prog, wasm: &[u8], traps: bool, writes: &[i32], extra: &str) -> Result<usize, Failure> {
    let txt = || format!("{}\n{extra}", p.text);
    let todo: Vec<_> = p.runs.iter().filter(|r| match &r.1 { Ok(_) => true, Err(Halt::Fuel | Halt::Open) => false, Err(_) => traps }).collect();
    let runs: Vec<node::Run> = todo.iter().map(|(a, ..)| node::Run { f: "entry".into(), params: vec!["i32", "i32"], ret: "i32", args: a.iter().map(|x| x.to_string()).collect(), answers: vec![], writes: writes.to_vec() }).collect();
    let res = match node::run(wasm, &[], &runs, 20_000) {
        Reply::Bad(m) => return fail(format!("module is rejected| {m}"), txt()),
        Reply::Timeout => return fail("compiled module does not end, the program does", txt()),
        Reply::Runs(r) => r,
    };
    if res.len() != runs.len() {
        return fail(format!("internal: {} answers for {} runs", res.len(), runs.len()), txt());
    }
    let mut n = 0;
    for ((a, want, out, _), r) in todo.iter().zip(&res) {
        let ok = r.out == *out
            && match want {
                Ok(v) => r.kind == "ok" && r.value == v.to_string(),
                Err(_) => r.kind == "trap",
            };
        if !ok {
            return fail(format!("compiled module differs| entry({}, {}) should give {want:?} and print {:?}; it gave {} {} and printed {:?}", a[0], a[1], out.escape_ascii().to_string(), r.kind, r.value, r.out.escape_ascii().to_string()), txt());
        }
        n += 1;
    }
    Ok(n)
}
fn case(t: &mut Tape) -> CaseResult {
    go(t, false)
}
fn box_case(t: &mut Tape) -> CaseResult {
    go(t, true)
}
fn go(t: &mut Tape, boxes: bool) -> CaseResult {
    let opt = t.bool();
    let c = Cfg { lists: false, slices: false, reads: false, strings: t.bool(), prints: t.chance(2, 3), partial: t.chance(1, 3), boxes, narrow: boxes, pages: t.chance(1, 8), size: 4 + t.upto(16) };
    let mut writes = vec![];
    if c.prints && t.bool() {
        for _ in 0..t.upto(6) {
            writes.push(*t.pick(&[-1, 1, 2, 3, -27, 5]));
        }
    }
    let mut p = prepare(t, c);
    let w = match stages(&mut p, opt) {
        Ok(b) => b,
        Err(e) => return fail(format!("compilation failed: {e}"), format!("{}\nLOWERED\n{}", p.text, pretty::canon(&p.ctx, p.module, false, false))),
    };
    let n = run_all(&p, &w, !opt, &writes, &format!("{c:?} optimised={opt} writes={writes:?}"))?;
    Ok(Case { nontrivial: n > 0 && p.runs.iter().any(|r| r.3 >= 8) && (!boxes || p.text.contains("Unbx(")), key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C28",
        lanes: vec![Lane { name: "wasm-library", rule: "a run of at least eight evaluation steps is compared", quick: 12_000, thorough: 200_000, threads: 0, run: case }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
pub fn box_lane() -> Lane {
    Lane { name: "wasm-box", rule: "a run of at least eight evaluation steps of a program that unboxes is compared", quick: 6000, thorough: 100_000, threads: 0, run: box_case }
}
