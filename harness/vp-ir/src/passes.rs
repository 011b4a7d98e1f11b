//! Semantics-preservation of the IR transforms.
use engine::*;
use irkit::gen_ir::*;
use irkit::interp::{self, Outcome, Stop};
use irkit::{pretty, wf};
use trunk_ir::context::IrContext;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;

pub struct Prepared {
    pub g: Gen,
    pub runs: Vec<(String, Vec<irkit::interp::Val>, Outcome)>,
    pub text: String,
}

pub const FUEL: u64 = 6000;

pub fn prepare(t: &mut Tape, cfg: &Cfg) -> Prepared {
    let g = gen_module(t, cfg);
    finish(t, g)
}
pub fn finish(t: &mut Tape, g: Gen) -> Prepared {
    let mut runs = vec![];
    for s in g.sigs.iter().filter(|s| !s.external && s.params.iter().all(|p| !matches!(p, T::Adt(_)))) {
        for a in gen_inputs(t, s, 3) {
            let o = interp::run(&g.ctx, g.module, &s.name, &a, FUEL);
            runs.push((s.name.clone(), a, o));
        }
    }
    let text = pretty::canon(&g.ctx, g.module, false, false);
    note(&text);
    Prepared { g, runs, text }
}

pub fn wf_all(ctx: &IrContext, m: OpRef) -> Result<(), String> {
    wf::check(ctx, m, &wf::Opts { dominance: true, uses: true, branches: true })
}

/// Compare all recorded runs against the transformed module.  `keep_traps`: a trapping run must still trap.
pub fn compare(p: &Prepared, keep_traps: bool, missing_ok: impl Fn(&str) -> bool) -> Result<usize, Failure> {
    let after = || irkit::pretty::canon(&p.g.ctx, p.g.module, false, false);
    let mut compared = 0;
    for (f, a, o) in &p.runs {
        if missing_ok(f) {
            continue;
        }
        if let Err(Stop::Stuck(m)) = &o.result {
            return fail(format!("generator bug: stuck on input: {m}"), p.text.clone());
        }
        if o.result == Err(Stop::Fuel) {
            continue;
        }
        let o2 = interp::run(&p.g.ctx, p.g.module, f, a, FUEL * 12);
        let ok = match (&o.result, &o2.result) {
            (Ok(x), Ok(y)) => x == y && o.trace == o2.trace,
            (Err(Stop::Trap(_)), r) | (Err(Stop::Unreachable), r) => match r {
                Err(Stop::Stuck(_)) => false,
                Err(Stop::Trap(_)) | Err(Stop::Unreachable) => !keep_traps || o.trace == o2.trace,
                _ => !keep_traps,
            },
            _ => false,
        };
        if !ok {
            return fail(
                format!("behaviour changed| @{f}({}) before: {:?} trace {:?}; after: {:?} trace {:?}", a.iter().map(interp::show).collect::<Vec<_>>().join(", "), o.result, o.trace, o2.result, o2.trace),
                format!("BEFORE\n{}\nAFTER\n{}", p.text, after()),
            );
        }
        if o.result.is_ok() {
            compared += 1;
        }
    }
    Ok(compared)
}

pub fn case_of(p: &Prepared, nontrivial: bool, tags: Vec<String>) -> Case {
    Case { nontrivial, key: hash_str(&p.text), render: p.text.clone(), tags }
}

fn wf_or_fail(p: &Prepared, what: &str) -> Result<(), Failure> {
    if let Err(e) = wf_all(&p.g.ctx, p.g.module) {
        return fail(format!("ill-formed IR after {what}| {e}"), format!("BEFORE\n{}\nAFTER\n{}", p.text, pretty::canon(&p.g.ctx, p.g.module, false, false)));
    }
    let m = Module::new(&p.g.ctx, p.g.module).unwrap();
    let r = trunk_ir::validation::validate_all(&p.g.ctx, m);
    if !r.is_ok() {
        return fail(format!("validator rejects IR after {what}| {r}"), format!("BEFORE\n{}\nAFTER\n{}", p.text, pretty::canon(&p.g.ctx, p.g.module, false, false)));
    }
    Ok(())
}

fn canon_cfg() -> Cfg {
    Cfg { unrealized: true, const_bias: 6, adt: true, struct_set: true, ..Cfg::base() }
}

fn canonicalize(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { region_cf: t.chance(1, 4), ..canon_cfg() };
    let mut p = prepare(t, &cfg);
    let m = Module::new(&p.g.ctx, p.g.module).unwrap();
    let r = trunk_ir::transforms::canonicalize(&mut p.g.ctx, m);
    wf_or_fail(&p, "canonicalize")?;
    let n = compare(&p, true, |_| false)?;
    let _ = &r;
    let changed = pretty::canon(&p.g.ctx, p.g.module, false, false) != p.text;
    Ok(case_of(&p, n > 0 && changed, vec![]))
}


use std::collections::{BTreeMap, BTreeSet, HashMap};
use trunk_ir::dialect::func;
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::symbol::Symbol;
use trunk_ir::types::Attribute;

pub fn walk(ctx: &IrContext, op: OpRef, f: &mut dyn FnMut(OpRef)) {
    f(op);
    for &r in &ctx.op(op).regions {
        for &b in &ctx.region(r).blocks {
            for &o in &ctx.block(b).ops {
                walk(ctx, o, f);
            }
        }
    }
}
pub fn opname(ctx: &IrContext, op: OpRef) -> String {
    format!("{}.{}", ctx.op(op).dialect, ctx.op(op).name)
}
pub fn histogram(ctx: &IrContext, root: OpRef) -> BTreeMap<String, usize> {
    let mut m = BTreeMap::new();
    walk(ctx, root, &mut |o| *m.entry(opname(ctx, o)).or_insert(0) += 1);
    m
}
/// Move a random subset of functions into nested modules, rewriting symbol references to qualified names.
pub fn nest_some(t: &mut Tape, g: &mut Gen) -> bool {
    let body = g.ctx.op(g.module).regions[0];
    let blk = g.ctx.region(body).blocks[0];
    let ops = g.ctx.block(blk).ops.to_vec();
    let mut ren: HashMap<String, String> = HashMap::new();
    let mut groups: Vec<Vec<OpRef>> = vec![vec![], vec![]];
    for o in ops {
        if opname(&g.ctx, o) != "func.func" || g.ctx.op(o).regions.is_empty() || !t.chance(1, 3) {
            continue;
        }
        let k = t.idx(2);
        groups[k].push(o);
    }
    if groups[0].is_empty() && groups[1].is_empty() {
        return false;
    }
    // groups[1] is nested one level deeper with probability 1/2
    let deep = t.bool();
    let mut inner: Vec<OpRef> = vec![];
    for (k, grp) in groups.iter().enumerate() {
        for &o in grp {
            let n = g.ctx.op(o).attributes.get_symbol("sym_name").unwrap().to_string();
            let q = match (k, deep) {
                (0, _) => format!("n0::{n}"),
                (1, true) => format!("n0::n1::{n}"),
                _ => format!("n1::{n}"),
            };
            ren.insert(n, q);
            g.ctx.remove_op_from_block(blk, o);
        }
    }
    let mut g0 = groups[0].clone();
    if !groups[1].is_empty() {
        let m1 = irkit::b::module(&mut g.ctx, "n1", &groups[1]);
        if deep {
            g0.push(m1);
        } else {
            inner.push(m1);
        }
    }
    if !g0.is_empty() {
        inner.push(irkit::b::module(&mut g.ctx, "n0", &g0));
    }
    for m in inner {
        if t.bool() {
            g.ctx.push_op(blk, m);
        } else if let Some(&first) = g.ctx.block(blk).ops.first() {
            g.ctx.insert_op_before(blk, first, m);
        } else {
            g.ctx.push_op(blk, m);
        }
    }
    let mut all = vec![];
    walk(&g.ctx, g.module, &mut |o| all.push(o));
    for o in all {
        for key in ["callee", "func_ref"] {
            if let Some(s) = g.ctx.op(o).attributes.get_symbol(key)
                && let Some(q) = ren.get(&s.to_string())
            {
                let q = Symbol::from_dynamic(q);
                g.ctx.op_mut(o).attributes.insert(Symbol::from_dynamic(key), Attribute::Symbol(q));
            }
        }
    }
    for s in &mut g.sigs {
        if let Some(q) = ren.get(&s.name) {
            s.name = q.clone();
        }
    }
    true
}

/// Give a function another name, at its definition and at every reference.
fn rename(g: &mut Gen, from: &str, to: &str) {
    let mut all = vec![];
    walk(&g.ctx, g.module, &mut |o| all.push(o));
    for o in all {
        for key in ["callee", "func_ref", "sym_name"] {
            if g.ctx.op(o).attributes.get_symbol(key).is_some_and(|s| s == from) {
                g.ctx.op_mut(o).attributes.insert(Symbol::from_dynamic(key), Attribute::Symbol(Symbol::from_dynamic(to)));
            }
        }
    }
    for s in &mut g.sigs {
        if s.name == from {
            s.name = to.into();
        }
    }
}

pub fn prepare_nested(t: &mut Tape, cfg: &Cfg, nest: bool) -> Prepared {
    let mut g = gen_module(t, cfg);
    if nest {
        nest_some(t, &mut g);
    }
    finish(t, g)
}

const IMPURE: [&str; 16] = [
    "func.call", "func.call_indirect", "func.tail_call", "func.tail_call_indirect", "func.return", "func.unreachable", "func.func", "cf.br", "cf.cond_br", "scf.yield", "scf.break", "scf.continue", "scf.case", "scf.default", "adt.struct_set",
    "mem.store",
];

fn dce(t: &mut Tape) -> CaseResult {
    let mut cfg = canon_cfg();
    cfg.const_bias = 2;
    cfg.unreachable_blocks = t.chance(1, 4);
    cfg.region_cf = t.chance(1, 4);
    let mut p = prepare(t, &cfg);
    let before = histogram(&p.g.ctx, p.g.module);
    let module = Module::new(&p.g.ctx, p.g.module).unwrap();
    let via_pass = t.chance(1, 3);
    let mut removed = None;
    if via_pass {
        let mut pm = PassManager::<trunk_ir::dialect::core::Module>::new();
        pm.nest::<func::Func>().add_pass(trunk_ir::transforms::dce_pass(trunk_ir::transforms::DceConfig::default()));
        let cm = trunk_ir::dialect::core::Module::from_op(&p.g.ctx, p.g.module).unwrap();
        if let Err(e) = pm.run(&mut p.g.ctx, cm) {
            return fail(format!("dce pass failed| {e:?}"), p.text.clone());
        }
    } else {
        let r = trunk_ir::transforms::eliminate_dead_code(&mut p.g.ctx, module, trunk_ir::transforms::DceConfig::default());
        if !r.reached_fixpoint {
            return fail("dce did not reach a fixpoint|", p.text.clone());
        }
        removed = Some(r.removed_count);
    }
    wf_or_fail(&p, "dce")?;
    let after = histogram(&p.g.ctx, p.g.module);
    let tot = |h: &BTreeMap<String, usize>| h.values().sum::<usize>();
    for k in IMPURE {
        if before.get(k) != after.get(k) {
            return fail(format!("dce removed a side-effecting {k}| {:?} -> {:?}", before.get(k), after.get(k)), p.text.clone());
        }
    }
    if let Some(n) = removed
        && n != tot(&before) - tot(&after)
    {
        return fail(format!("dce removed_count {n} but {} ops are gone|", tot(&before) - tot(&after)), p.text.clone());
    }
    let mut left = None;
    walk(&p.g.ctx, p.g.module, &mut |o| {
        if p.g.ctx.op(o).dialect == Symbol::new("arith") && p.g.ctx.op_results(o).iter().all(|&v| p.g.ctx.uses(v).is_empty()) {
            left = Some(o);
        }
    });
    if let Some(o) = left {
        return fail(format!("dce left a dead {}|", opname(&p.g.ctx, o)), p.text.clone());
    }
    let n = compare(&p, false, |_| false)?;
    Ok(case_of(&p, n > 0 && tot(&after) < tot(&before), vec![]))
}

fn refs_of(ctx: &IrContext, f: OpRef) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    walk(ctx, f, &mut |o| {
        for key in ["callee", "func_ref"] {
            if let Some(x) = ctx.op(o).attributes.get_symbol(key) {
                s.insert(x.to_string());
            }
        }
    });
    s
}
pub fn funcs_of(ctx: &IrContext, m: OpRef) -> BTreeMap<String, OpRef> {
    fn go(ctx: &IrContext, op: OpRef, prefix: &str, out: &mut BTreeMap<String, OpRef>) {
        for &r in &ctx.op(op).regions {
            for &b in &ctx.region(r).blocks {
                for &o in &ctx.block(b).ops {
                    let n = ctx.op(o).attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_default();
                    match opname(ctx, o).as_str() {
                        "func.func" => {
                            out.insert(format!("{prefix}{n}"), o);
                        }
                        "core.module" => go(ctx, o, &format!("{prefix}{n}::"), out),
                        _ => {}
                    }
                }
            }
        }
    }
    let mut out = BTreeMap::new();
    go(ctx, m, "", &mut out);
    out
}

fn gdce(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { max_funcs: 7, max_stmts: 6, max_depth: 2, adt: true, extern_attrs: true, ..Cfg::base() };
    let nest = t.chance(1, 3);
    let mut g = gen_module(t, &cfg);
    for entry in ["main", "_start"] {
        if t.chance(1, 3) {
            let own: Vec<String> = g.sigs.iter().filter(|s| !s.external && s.name != "main").map(|s| s.name.clone()).collect();
            if !own.is_empty() {
                let n = t.pick(&own).clone();
                rename(&mut g, &n, entry);
            }
        }
    }
    if nest {
        nest_some(t, &mut g);
    }
    let mut p = finish(t, g);
    // roots: main and _start in any module, functions with an abi, extra entry points
    let names: Vec<String> = p.g.sigs.iter().filter(|s| !s.external).map(|s| s.name.clone()).collect();
    let mut roots: BTreeSet<String> = BTreeSet::new();
    let mut extra = vec![];
    let fs = funcs_of(&p.g.ctx, p.g.module);
    for n in &names {
        match t.weighted(&[5, 1, 2]) {
            1 => {
                let o = fs[n];
                p.g.ctx.op_mut(o).attributes.insert(Symbol::new("abi"), Attribute::String("C".into()));
                roots.insert(n.clone());
            }
            2 => {
                extra.push(if t.bool() { n.clone() } else { n.rsplit("::").next().unwrap().to_string() });
                roots.insert(n.clone());
            }
            _ => {}
        }
    }
    for (n, o) in &fs {
        if p.g.ctx.op(*o).attributes.get("abi").is_some() {
            roots.insert(n.clone());
        }
        let base = n.rsplit("::").next().unwrap();
        if base == "main" || base == "_start" || extra.iter().any(|e| e == n || e == base) {
            roots.insert(n.clone());
        }
    }
    if t.chance(1, 4) {
        let n = t.pick(&names).clone();
        let body = p.g.ctx.op(p.g.module).regions[0];
        let blk = p.g.ctx.region(body).blocks[0];
        irkit::b::put0(&mut p.g.ctx, blk, "wasm.export_func", &[], &[("func", Attribute::Symbol(irkit::b::sym(&n))), ("name", Attribute::String("x".into()))], &[]);
        roots.insert(n);
    }
    let mut reach: BTreeSet<String> = BTreeSet::new();
    let mut work: Vec<String> = roots.into_iter().collect();
    while let Some(n) = work.pop() {
        if !reach.insert(n.clone()) {
            continue;
        }
        if let Some(&f) = fs.get(&n) {
            work.extend(refs_of(&p.g.ctx, f));
        }
    }
    let expect: BTreeSet<String> = fs.keys().filter(|n| reach.contains(*n)).cloned().collect();
    let module = Module::new(&p.g.ctx, p.g.module).unwrap();
    let r = trunk_ir::transforms::eliminate_dead_functions_with_config(&mut p.g.ctx, module, trunk_ir::transforms::GlobalDceConfig { extra_entry_points: extra.clone(), recursive: true });
    let after = funcs_of(&p.g.ctx, p.g.module);
    let got: BTreeSet<String> = after.keys().cloned().collect();
    if let Some(n) = expect.difference(&got).next() {
        return fail(format!("reachable function removed| @{n}; extra entry points {extra:?}"), p.text.clone());
    }
    if let Some(n) = got.difference(&expect).next() {
        return fail(format!("unreachable function kept| @{n}; extra entry points {extra:?}"), p.text.clone());
    }
    if r.removed_count != fs.len() - after.len() || r.removed_functions.len() != r.removed_count {
        return fail(format!("removed_count {} but {} functions are gone|", r.removed_count, fs.len() - after.len()), p.text.clone());
    }
    wf_or_fail(&p, "global dce")?;
    let n = compare(&p, true, |f| !got.contains(f))?;
    Ok(case_of(&p, n > 0 && got.len() < fs.len(), if nest { vec!["nested".into()] } else { vec![] }))
}

/// Adds calls guarded by a constant false, so that the call graph is arbitrary while execution is unchanged.
fn add_edges(t: &mut Tape, g: &mut Gen) {
    use irkit::b::*;
    let fs = funcs_of(&g.ctx, g.module);
    let names: Vec<String> = g.sigs.iter().filter(|s| !s.external && fs.contains_key(&s.name)).map(|s| s.name.clone()).collect();
    let callees: Vec<Sig> = g.sigs.iter().filter(|s| !s.external && fs.contains_key(&s.name) && !s.params.iter().any(|p| matches!(p, T::Adt(_) | T::Nil))).cloned().collect();
    if callees.is_empty() {
        return;
    }
    let k = t.upto(6);
    for _ in 0..k {
        let a = fs[&names[t.idx(names.len())]];
        let s = callees[t.idx(callees.len())].clone();
        let c = &mut g.ctx;
        let r = c.op(a).regions[0];
        let entry = c.region(r).blocks[0];
        let first = c.block(entry).ops[0];
        let i1 = core(c, "i1");
        let cond = mk(c, "arith.const", O { results: vec![i1], attrs: vec![("value".into(), Attribute::Bool(false))], ..O::default() });
        let then = block(c, &[]);
        let mut args = vec![];
        for p in &s.params {
            let v = gen_val(t, *p);
            let tr = ty(c, &g.adts, *p);
            args.push(put1(c, then, "arith.const", &[], tr, &[("value", const_attr(&v))]));
        }
        let rt = ty(c, &g.adts, s.ret);
        put(c, then, "func.call", O { operands: args, results: vec![rt], attrs: vec![("callee".into(), Attribute::Symbol(sym(&s.name)))], ..O::default() });
        put0(c, then, "scf.yield", &[], &[], &[]);
        let els = block(c, &[]);
        put0(c, els, "scf.yield", &[], &[], &[]);
        let (rt_, re) = (region(c, &[then]), region(c, &[els]));
        let cv = c.op_result(cond, 0);
        let iff = mk(c, "scf.if", O { operands: vec![cv], regions: vec![rt_, re], ..O::default() });
        c.insert_op_before(entry, first, cond);
        c.insert_op_before(entry, first, iff);
    }
}

fn call_sites(ctx: &IrContext, m: OpRef) -> BTreeMap<String, usize> {
    let mut h = BTreeMap::new();
    walk(ctx, m, &mut |o| {
        if matches!(opname(ctx, o).as_str(), "func.call" | "func.tail_call") {
            *h.entry(ctx.op(o).attributes.get_symbol("callee").unwrap().to_string()).or_insert(0) += 1;
        }
    });
    h
}

/// Operations in the body, those of nested regions included.
fn body_size(ctx: &IrContext, f: OpRef) -> usize {
    let mut n = 0;
    walk(ctx, f, &mut |_| n += 1);
    n - 1
}

fn inline(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { max_funcs: 6, max_stmts: 7, max_depth: 2, adt: t.chance(1, 3), struct_set: true, cf: t.chance(1, 3), region_cf: t.chance(1, 4), extern_attrs: t.bool(), ..Cfg::base() };
    let nest = t.chance(1, 4);
    let mut g = gen_module(t, &cfg);
    if nest {
        nest_some(t, &mut g);
    }
    if t.bool() {
        add_edges(t, &mut g);
    }
    if t.chance(1, 3) {
        let own: Vec<OpRef> = funcs_of(&g.ctx, g.module).into_values().filter(|&o| !g.ctx.op(o).regions.is_empty()).collect();
        if !own.is_empty() {
            let o = *t.pick(&own);
            g.ctx.op_mut(o).attributes.insert(Symbol::new("abi"), Attribute::String("C".into()));
        }
    }
    let mut p = finish(t, g);
    let module = Module::new(&p.g.ctx, p.g.module).unwrap();
    let config = trunk_ir::transforms::InlineConfig { size_threshold: *t.pick(&[16usize, 0, 4, 40, 1000]), always_inline_single_call_site: t.chance(3, 4), inline_across_func_constant: t.chance(1, 4) };
    // Functions that must be left as calls: recursive (over calls and references), bodyless or
    // foreign, several blocks, and, unless allowed, functions whose reference escapes.
    let fs = funcs_of(&p.g.ctx, p.g.module);
    let edges: BTreeMap<String, BTreeSet<String>> = fs.iter().map(|(n, &o)| (n.clone(), refs_of(&p.g.ctx, o))).collect();
    let mut escapes = BTreeSet::new();
    walk(&p.g.ctx, p.g.module, &mut |o| {
        if opname(&p.g.ctx, o) == "func.constant"
            && let Some(s) = p.g.ctx.op(o).attributes.get_symbol("func_ref")
        {
            escapes.insert(s.to_string());
        }
    });
    let mut keep: BTreeMap<String, &str> = BTreeMap::new();
    let mut recs = 0;
    let sites = call_sites(&p.g.ctx, p.g.module);
    let n_sites = |n: &String| sites.get(n).copied().unwrap_or(0);
    for (n, &o) in &fs {
        let mut seen: BTreeSet<&String> = BTreeSet::new();
        let mut work: Vec<&String> = edges[n].iter().collect();
        while let Some(x) = work.pop() {
            if seen.insert(x)
                && let Some(e) = edges.get(x)
            {
                work.extend(e.iter());
            }
        }
        let c = &p.g.ctx;
        if seen.contains(n) {
            keep.insert(n.clone(), "recursive");
            recs += 1;
        } else if c.op(o).attributes.get("abi").is_some() {
            keep.insert(n.clone(), "abi");
        } else if c.op(o).regions.is_empty() || c.region(c.op(o).regions[0]).blocks.len() != 1 {
            keep.insert(n.clone(), "no single-block body");
        } else if escapes.contains(n) && !config.inline_across_func_constant {
            keep.insert(n.clone(), "escaping");
        } else if edges[n].is_empty() && body_size(c, o) > config.size_threshold && !(config.always_inline_single_call_site && !escapes.contains(n) && n_sites(n) == 1) {
            // Nothing is ever spliced into a function without calls, and only inlining it takes
            // its call sites away: both figures are those of the input throughout.
            keep.insert(n.clone(), "too large");
        }
    }
    let before = fs.len();
    let mut sc = trunk_ir::analysis::AnalysisCache::new();
    if t.bool() {
        sc.get::<trunk_ir::transforms::CallGraph>(&p.g.ctx, p.g.module);
    }
    let r = trunk_ir::transforms::inline_functions_with_config(&mut p.g.ctx, module, config.clone(), &mut sc);
    if funcs_of(&p.g.ctx, p.g.module).len() != before {
        return fail("inlining changed the set of functions|", p.text.clone());
    }
    wf_or_fail(&p, "inlining")?;
    let now = call_sites(&p.g.ctx, p.g.module);
    for (n, why) in &keep {
        let (x, y) = (sites.get(n).copied().unwrap_or(0), now.get(n).copied().unwrap_or(0));
        if y < x {
            return fail(format!("a call to a {why} function was inlined| @{n}: {x} call sites before, {y} after, {config:?}"), format!("{}\nAFTER\n{}", p.text, pretty::canon(&p.g.ctx, p.g.module, false, false)));
        }
    }
    // What the caller's cache now says about the module is true of the module.
    let cached = sc.get::<trunk_ir::transforms::CallGraph>(&p.g.ctx, p.g.module);
    let fresh = trunk_ir::transforms::build_call_graph(&p.g.ctx, module);
    if cached.edges != fresh.edges || cached.func_ops != fresh.func_ops || cached.has_constant_ref != fresh.has_constant_ref || cached.call_site_count != fresh.call_site_count {
        return fail("the call graph cached after inlining is not that of the module|", p.text.clone());
    }
    // Nothing the configuration asks to inline is left.
    let mut left = None;
    walk(&p.g.ctx, p.g.module, &mut |o| {
        let c = &p.g.ctx;
        if !matches!(opname(c, o).as_str(), "func.call" | "func.tail_call") {
            return;
        }
        let n = c.op(o).attributes.get_symbol("callee").unwrap().to_string();
        let Some(&f) = fs.get(&n) else { return };
        if matches!(keep.get(&n), Some(&("recursive" | "abi" | "no single-block body" | "escaping"))) {
            return;
        }
        let b = c.region(c.op(f).regions[0]).blocks[0];
        let ret = *c.block(b).ops.last().unwrap();
        if opname(c, ret) != "func.return" || (opname(c, o) == "func.call" && c.op_results(o).len() != c.op_operands(ret).len()) {
            return;
        }
        let single = config.always_inline_single_call_site && !escapes.contains(&n) && now[&n] == 1;
        if single || body_size(c, f) <= config.size_threshold {
            left = Some(n);
        }
    });
    if let Some(n) = left {
        return fail(format!("a call the configuration asks to inline is left| @{n}, {config:?}"), format!("{}\nAFTER\n{}", p.text, pretty::canon(&p.g.ctx, p.g.module, false, false)));
    }
    let n = compare(&p, true, |_| false)?;
    let mut tags = vec![];
    if recs > 1 {
        tags.push("mutual-recursion".into());
    }
    Ok(case_of(&p, n > 0 && r.inlined_count > 0, tags))
}

fn inline_one(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { max_funcs: 4, max_stmts: 7, max_depth: 2, adt: t.bool(), struct_set: true, region_cf: t.chance(1, 4), ..Cfg::base() };
    let mut p = prepare(t, &cfg);
    let fs = funcs_of(&p.g.ctx, p.g.module);
    let mut calls = vec![];
    walk(&p.g.ctx, p.g.module, &mut |o| {
        if matches!(opname(&p.g.ctx, o).as_str(), "func.call" | "func.tail_call") {
            calls.push(o)
        }
    });
    let mut done = 0;
    let k = 1 + t.idx(3);
    for _ in 0..k {
        if calls.is_empty() {
            break;
        }
        let i = t.idx(calls.len());
        let c = calls.swap_remove(i);
        let callee = p.g.ctx.op(c).attributes.get_symbol("callee").unwrap().to_string();
        let before = pretty::canon(&p.g.ctx, p.g.module, false, false);
        match trunk_ir::transforms::inline_single_call(&mut p.g.ctx, c, fs[&callee]) {
            Ok(()) => done += 1,
            Err(_) => {
                if before != pretty::canon(&p.g.ctx, p.g.module, false, false) {
                    return fail("a rejected inline modified the IR|", p.text.clone());
                }
            }
        }
    }
    wf_or_fail(&p, "inline_single_call")?;
    let n = compare(&p, true, |_| false)?;
    Ok(case_of(&p, n > 0 && done > 0, vec![]))
}

fn scf2cf(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { cf: t.chance(1, 3), region_cf: t.chance(1, 3), break_in_if: t.chance(1, 3), adt: t.chance(1, 3), struct_set: true, max_depth: 4, max_stmts: 10, ..Cfg::base() };
    let mut p = prepare(t, &cfg);
    let had = histogram(&p.g.ctx, p.g.module).iter().filter(|(k, _)| k.starts_with("scf.")).map(|x| x.1).sum::<usize>();
    if t.chance(1, 3) {
        let mut pm = PassManager::<trunk_ir::dialect::core::Module>::new();
        pm.nest::<func::Func>().add_pass(trunk_ir::transforms::scf_to_cf_pass());
        let cm = trunk_ir::dialect::core::Module::from_op(&p.g.ctx, p.g.module).unwrap();
        if let Err(e) = pm.run(&mut p.g.ctx, cm) {
            return fail(format!("scf_to_cf pass failed| {e:?}"), p.text.clone());
        }
    } else {
        let module = Module::new(&p.g.ctx, p.g.module).unwrap();
        trunk_ir::transforms::lower_scf_to_cf(&mut p.g.ctx, module);
    }
    if let Some((k, _)) = histogram(&p.g.ctx, p.g.module).iter().find(|(k, _)| k.starts_with("scf.")) {
        return fail(format!("{k} left after scf_to_cf|"), format!("BEFORE\n{}\nAFTER\n{}", p.text, pretty::canon(&p.g.ctx, p.g.module, false, false)));
    }
    wf_or_fail(&p, "scf_to_cf")?;
    let n = compare(&p, true, |_| false)?;
    Ok(case_of(&p, n > 0 && had > 3, vec![]))
}

fn pipeline(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { adt: t.chance(1, 2), struct_set: true, region_cf: t.chance(1, 4), unrealized: false, max_funcs: 5, max_stmts: 9, ..Cfg::base() };
    let nest = t.chance(1, 6);
    let mut p = prepare_nested(t, &cfg, nest);
    let names: Vec<String> = p.g.sigs.iter().filter(|s| !s.external).map(|s| s.name.clone()).collect();
    let mut am = trunk_ir::analysis::AnalysisCache::new();
    let mut kill = false;
    let mut log = vec![];
    let k = 2 + t.idx(6);
    let root = t.pick(&names).clone();
    let mut gone = false;
    for _ in 0..k {
        let module = Module::new(&p.g.ctx, p.g.module).unwrap();
        let c = &mut p.g.ctx;
        match t.idx(6) {
            0 => {
                trunk_ir::transforms::canonicalize(c, module);
                log.push("canonicalize")
            }
            1 => {
                trunk_ir::transforms::eliminate_dead_code(c, module, trunk_ir::transforms::DceConfig::default());
                kill = true;
                log.push("dce")
            }
            2 => {
                am.invalidate_all(p.g.module);
                trunk_ir::transforms::inline_functions(c, module, &mut am);
                log.push("inline")
            }
            3 => {
                trunk_ir::transforms::lower_scf_to_cf(c, module);
                log.push("scf_to_cf")
            }
            4 => {
                trunk_ir::transforms::eliminate_dead_functions_with_config(c, module, trunk_ir::transforms::GlobalDceConfig { extra_entry_points: vec![root.clone()], recursive: true });
                gone = true;
                log.push("gdce")
            }
            _ => {
                let r = root.rsplit("::").next().unwrap();
                let mut pm = PassManager::<trunk_ir::dialect::core::Module>::new();
                let only = t.bool();
                let _ = (r, only);
                pm.nest::<func::Func>().add_pass(trunk_ir::transforms::canonicalize_pass()).add_pass(trunk_ir::transforms::dce_pass(Default::default()));
                let cm = trunk_ir::dialect::core::Module::from_op(c, p.g.module).unwrap();
                kill = true;
                if let Err(e) = pm.run(c, cm) {
                    return fail(format!("pass manager failed| {e:?}"), p.text.clone());
                }
                log.push("pm(canonicalize,dce)")
            }
        }
    }
    let what = log.join(",");
    wf_or_fail(&p, &what).map_err(|mut f| {
        f.msg = f.msg.replace(&what, "pass sequence") + &format!(" [{what}]");
        f
    })?;
    let left = funcs_of(&p.g.ctx, p.g.module);
    let n = compare(&p, !kill, |f| f != root && gone && !left.contains_key(f)).map_err(|mut f| {
        f.render = format!("passes: {what}\n{}", f.render);
        f
    })?;
    let changed = pretty::canon(&p.g.ctx, p.g.module, false, false) != p.text;
    let mut c = case_of(&p, n > 0 && changed, vec![]);
    c.key ^= hash_str(&what);
    Ok(c)
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C05",
            lanes: vec![Lane { name: "canonicalize", rule: "random structured/CFG module, canonicalize changed it and at least one run returned normally", quick: 40000, thorough: 1500000, threads: 0, run: canonicalize }],
            assumptions: vec![],
            sweeps: vec![],
        },
        Property {
            id: "C06",
            lanes: vec![
                Lane { name: "dce", rule: "random module, dce removed at least one op and one run returned normally", quick: 25000, thorough: 800000, threads: 0, run: dce },
                Lane { name: "gdce", rule: "random multi-function module, at least one function removed and one surviving run returned normally", quick: 25000, thorough: 900000, threads: 0, run: gdce },
            ],
            assumptions: vec![],
            sweeps: vec![],
        },
        Property {
            id: "C07",
            lanes: vec![
                Lane { name: "inline", rule: "random multi-function module, calls guarded by a constant false give arbitrary call graphs; functions that must stay calls are recomputed from the input; non-trivial: at least one call inlined and one run returned normally", quick: 40000, thorough: 1000000, threads: 0, run: inline },
                Lane { name: "inline-one", rule: "random module, one to three single call sites inlined and one run returned normally", quick: 15000, thorough: 500000, threads: 0, run: inline_one },
            ],
            assumptions: vec![],
            sweeps: vec![],
        },
        Property {
            id: "C08",
            lanes: vec![
                Lane { name: "scf-to-cf", rule: "random structured module with more than three scf ops, one run returned normally", quick: 25000, thorough: 800000, threads: 0, run: scf2cf },
                Lane { name: "pass-sequences", rule: "random module and random sequence of 2-7 passes that changed it, one run returned normally", quick: 20000, thorough: 700000, threads: 0, run: pipeline },
            ],
            assumptions: vec![],
            sweeps: vec![],
        },
    ]
}

/// Links and use lists only (no dominance).
pub fn wf_links(ctx: &IrContext, m: OpRef) -> Result<(), String> {
    wf::check(ctx, m, &wf::Opts { dominance: false, uses: true, branches: false })
}
