//! C33: direct-style control converted to continuation-passing style behaves as written.
use crate::ast::*;
use crate::low::Low;
use crate::{mkir, sem};
use engine::*;
use tribute_passes::tribute_control_to_cps::{tribute_control_to_cps, verify_tribute_control_post_cps};
use trunk_ir::context::IrContext;
use trunk_ir::printer::print_module;
use trunk_ir::refs::OpRef;
use trunk_ir::types::Attribute;

fn entry_ok(f: &Func) -> bool {
    f.body.is_some() && f.ty.needs == 0 && f.ty.params.iter().all(|t| *t == Ty::I32)
}
struct Want {
    module: &'static str,
    func: String,
    args: Vec<i64>,
    run: sem::Run,
}
fn wants(p: &Prog, module: &'static str, t: &mut Tape, st: &mut sem::Stats, out: &mut Vec<Want>) {
    for (i, f) in p.funcs.iter().enumerate() {
        if !entry_ok(f) {
            continue;
        }
        for _ in 0..2 {
            let args: Vec<i64> = f.params.iter().map(|_| t.range(-2, 4)).collect();
            let run = sem::run(p, i, &args, st, false);
            out.push(Want { module, func: f.name.clone(), args, run });
            if f.params.is_empty() {
                break;
            }
        }
    }
    if let Some(n) = &p.nested {
        wants(n, "inner", t, st, out);
    }
}
fn find_module(root: OpRef, low: &Low, name: &str) -> Option<OpRef> {
    low.modules().into_iter().find(|m| if name == "inner" { *m != root } else { *m == root })
}
fn each_op(ctx: &IrContext, op: OpRef, f: &mut dyn FnMut(OpRef)) {
    f(op);
    for r in ctx.op(op).regions.iter().copied() {
        for b in ctx.region(r).blocks.iter().copied() {
            for o in ctx.block(b).ops.iter().copied() {
                each_op(ctx, o, f);
            }
        }
    }
}
/// Gives some functions, lambdas and plain operations an attribute of their own, which conversion has to keep.
fn annotate(ctx: &mut IrContext, root: OpRef, t: &mut Tape) -> Vec<(i128, String)> {
    let mut ops = vec![];
    each_op(ctx, root, &mut |o| {
        let n = format!("{}.{}", ctx.op(o).dialect, ctx.op(o).name);
        if n.starts_with("arith.") || n.starts_with("adt.") || ["tribute_control.func", "tribute_control.lambda", "scf.if", "scf.switch"].contains(&n.as_str()) {
            ops.push((o, n));
        }
    });
    let mut v = vec![];
    for (o, n) in ops {
        if t.chance(1, 6) {
            let k = v.len() as i128;
            ctx.op_mut(o).attributes.insert(irkit::b::sym("mark"), Attribute::Int(k));
            v.push((k, n));
        }
    }
    v
}
fn behaves(t: &mut Tape) -> CaseResult {
    let p = gen_prog(t, true);
    let mut st = sem::Stats::default();
    let mut ws = vec![];
    wants(&p, "top", t, &mut st, &mut ws);
    let mut ctx = IrContext::new();
    let root = mkir::build(&mut ctx, &p, "m");
    let m = mkir::module(&ctx, root);
    let decls = mkir::decls(&mut ctx, &p);
    let alias = t.chance(1, 4);
    if alias {
        let ft = mkir::fn_ty(&mut ctx, &p.funcs[t.idx(3)].ty.clone());
        ctx.register_type_alias(irkit::b::sym("Cb"), ft);
    }
    let notes = annotate(&mut ctx, root, t);
    let before = print_module(&ctx, root);
    let r = guard(|| tribute_control_to_cps(&mut ctx, m, &decls)).map_err(|e| Failure { msg: format!("conversion panics: {e}"), render: before.clone() })?;
    if let Err(e) = r {
        return fail(format!("well-formed module is rejected: {e}"), before);
    }
    let after = print_module(&ctx, root);
    let both = || format!("{before}\n--- converted\n{after}");
    if let Err(e) = verify_tribute_control_post_cps(&ctx, m) {
        return fail(format!("converted module fails its own boundary: {e}"), both());
    }
    if after.contains("tribute_control") {
        return fail("converted module still mentions tribute_control", both());
    }
    for (f, _) in p.funcs.iter().map(|f| (f, 0)) {
        let Some(n) = f.extra else { continue };
        let op = m.ops(&ctx).into_iter().find(|o| ctx.op(*o).attributes.get_symbol("sym_name") == Some(irkit::b::sym(&f.name)));
        let Some(op) = op else { return fail(format!("function @{} is gone", f.name), both()) };
        if ctx.op(op).attributes.get(&irkit::b::sym("note")) != Some(&Attribute::Int(n as i128)) {
            return fail(format!("attribute of @{} is lost", f.name), both());
        }
    }
    let mut seen = std::collections::HashMap::new();
    each_op(&ctx, root, &mut |o| {
        if let Some(Attribute::Int(n)) = ctx.op(o).attributes.get(&irkit::b::sym("mark")) {
            seen.insert(*n, format!("{}.{}", ctx.op(o).dialect, ctx.op(o).name));
        }
    });
    // code after an operation that never returns may go
    let dead = |p: &Prog| p.vars.iter().any(|v| *v == Ty::Never);
    let dead = dead(&p) || p.nested.as_ref().is_some_and(|n| dead(n));
    for (n, name) in &notes {
        if dead && name != "tribute_control.func" {
            continue;
        }
        match seen.get(n) {
            None => return fail(format!("attribute mark = {n} of {name} is lost"), both()),
            Some(x) if !name.starts_with("tribute_control") && x != name => return fail(format!("{name} marked {n} became {x}"), both()),
            _ => {}
        }
    }
    let nested = p.nested.is_some();
    let mut low = Low::new(&mut ctx, root);
    if let Err(e) = low.static_check(root) {
        return fail(e, both());
    }
    let mut ran = 0;
    for w in &ws {
        if matches!(w.run.end, sem::End::OutOfFuel | sem::End::Outside) {
            continue;
        }
        let Some(mo) = find_module(root, &low, w.module) else { return fail("nested module is gone", both()) };
        match low.run(mo, &w.func, &w.args) {
            Err(e) => return fail(format!("@{}({:?}) of {}: {e}", w.func, w.args, w.module), both()),
            Ok(r) if r.end == sem::End::OutOfFuel => return fail(format!("@{}({:?}) of {}: converted code does not finish; source gives {:?}", w.func, w.args, w.module, w.run), both()),
            Ok(r) if r != w.run => return fail(format!("@{}({:?}) of {}: source gives {:?}, converted code {:?}", w.func, w.args, w.module, w.run, r), both()),
            Ok(_) => ran += 1,
        }
    }
    let mut tags = vec![];
    if nested {
        tags.push("nested-module".into());
    }
    if ws.iter().any(|w| w.run.end == sem::End::Trap) {
        tags.push("second-resume".into());
    }
    if st.resumes > 0 {
        tags.push("resume".into());
    }
    if st.fn_performs > 0 {
        tags.push("fn-op".into());
    }
    if st.performs > st.resumes {
        tags.push("abort".into());
    }
    if ws.iter().any(|w| w.run.end == sem::End::Outside) {
        tags.push("outside".into());
    }
    if ws.iter().any(|w| w.run.end == sem::End::OutOfFuel) {
        tags.push("fuel".into());
    }
    Ok(Case { nontrivial: ran > 0 && st.performs + st.fn_performs + st.ind > 0, key: hash_str(&before), render: before, tags })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C33",
        lanes: vec![Lane { name: "behaves", rule: "a compared run performs an operation or calls through a callable value", quick: 20_000, thorough: 400_000, threads: 0, run: behaves },
            Lane { name: "known", rule: "every program", quick: 16, thorough: 16, threads: 1, run: crate::known::known }],
        assumptions: vec![],
        sweeps: vec![],
    },
    Property {
        id: "C34",
        lanes: vec![Lane { name: "control-text", rule: "the module contains a lambda", quick: 8_000, thorough: 300_000, threads: 0, run: crate::text::control_text }],
        assumptions: vec![],
        sweeps: vec![],
    },
    Property {
        id: "C35",
        lanes: vec![
            Lane { name: "mutated", rule: "the changed text still parses", quick: 40_000, thorough: 800_000, threads: 0, run: crate::text::mutated },
            Lane { name: "refuses", rule: "a violation was injected", quick: 50_000, thorough: 800_000, threads: 0, run: crate::reject::refuses },
        ],
        assumptions: vec![],
        sweeps: vec![],
    },
    Property {
        id: "C38",
        lanes: vec![Lane { name: "physical", rule: "a violation was injected", quick: 20_000, thorough: 800_000, threads: 0, run: crate::post::post }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
