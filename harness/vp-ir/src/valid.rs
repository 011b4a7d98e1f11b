//! C04: the validators against an independent restatement of what they promise.
use crate::passes::*;
use engine::*;
use irkit::b::{self, O};
use irkit::gen_ir::*;
use std::collections::{BTreeMap, BTreeSet};
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::*;
use trunk_ir::validation::*;

fn all_ops(ctx: &IrContext, root: OpRef) -> Vec<OpRef> {
    let mut v = vec![];
    walk(ctx, root, &mut |o| v.push(o));
    v.retain(|o| *o != root);
    v
}
fn full(ctx: &IrContext, o: OpRef) -> String {
    format!("{}.{}", ctx.op(o).dialect, ctx.op(o).name)
}
fn region_of_op(ctx: &IrContext, o: OpRef) -> Option<RegionRef> {
    ctx.op(o).parent_block.and_then(|bl| ctx.block(bl).parent_region)
}
fn is_fn(ctx: &IrContext, o: OpRef) -> bool {
    matches!(full(ctx, o).as_str(), "func.func" | "wasm.func")
}
/// Naive visibility: the region that defines `v` encloses `user` and lies inside the function.
fn visible(ctx: &IrContext, user: OpRef, v: ValueRef) -> bool {
    let def = match ctx.value_def(v) {
        ValueDef::OpResult(o, _) => region_of_op(ctx, o),
        ValueDef::BlockArg(bl, _) => ctx.block(bl).parent_region,
    };
    let Some(def) = def else { return false };
    let mut cur = region_of_op(ctx, user);
    while let Some(r) = cur {
        if r == def {
            return true;
        }
        let Some(p) = ctx.region(r).parent_op else { return false };
        if is_fn(ctx, p) {
            return false;
        }
        cur = region_of_op(ctx, p);
    }
    false
}
fn enclosing_fn(ctx: &IrContext, o: OpRef) -> Option<OpRef> {
    let mut cur = o;
    loop {
        let r = region_of_op(ctx, cur)?;
        let p = ctx.region(r).parent_op?;
        if is_fn(ctx, p) {
            return Some(p);
        }
        cur = p;
    }
}
fn is_never(ctx: &IrContext, t: TypeRef) -> bool {
    let d = ctx.types.get(t);
    d.dialect == b::sym("core") && d.name == b::sym("never")
}
fn tail_ok(n: &str) -> bool {
    ["func.tail_call", "func.tail_call_indirect", "func.unreachable", "ability.perform", "ability.handle_dispatch", "scf.if", "scf.switch"].contains(&n)
}
/// Does the operation violate a local rule?
fn op_bad(ctx: &IrContext, o: OpRef) -> bool {
    let d = ctx.op(o);
    match full(ctx, o).as_str() {
        "arith.cmpf" => match d.attributes.get(b::sym("predicate")) {
            Some(Attribute::Symbol(p)) => !["oeq", "une", "olt", "ole", "ogt", "oge"].contains(&p.to_string().as_str()),
            _ => true,
        },
        "scf.if" => {
            if ctx.op_operands(o).len() != 1 || d.regions.len() != 2 {
                return true;
            }
            d.regions.iter().any(|r| {
                let bl = &ctx.region(*r).blocks;
                if bl.len() != 1 {
                    return true;
                }
                let Some(last) = ctx.block(bl[0]).ops.last().copied() else { return true };
                if full(ctx, last) == "scf.yield" {
                    return ctx.op_operands(last).len() != ctx.op_results(o).len();
                }
                let rt = ctx.op_result_types(o);
                !(rt.len() == 1 && is_never(ctx, rt[0]) && tail_ok(&full(ctx, last)))
            })
        }
        "scf.loop" => ctx.op_results(o).len() > 1,
        "scf.switch" => !ctx.op_results(o).is_empty(),
        "func.tail_call_indirect" => {
            if !ctx.op_results(o).is_empty() {
                return true;
            }
            let ops = ctx.op_operands(o);
            if ops.is_empty() {
                return true;
            }
            let mut t = ctx.types.get(ctx.value_ty(ops[0]));
            if t.dialect == b::sym("closure") && t.name == b::sym("closure") {
                if t.params.len() != 1 {
                    return true;
                }
                t = ctx.types.get(t.params[0]);
            }
            if !(t.dialect == b::sym("core") && t.name == b::sym("func")) || t.params.is_empty() {
                return true;
            }
            if !is_never(ctx, t.params[0]) || t.params.len() != ops.len() {
                return true;
            }
            ops[1..].iter().zip(&t.params[1..]).any(|(v, e)| ctx.value_ty(*v) != *e)
        }
        _ => false,
    }
}

fn validate(t: &mut Tape) -> Result<Case, Failure> {
    let mut cfg = Cfg::base();
    cfg.max_stmts = 8;
    cfg.adt = true;
    let mut g = gen_module(t, &cfg);
    if t.chance(1, 4) {
        nest_some(t, &mut g);
    }
    let root = g.module;
    let ctx = &mut g.ctx;
    let m = Module::new(ctx, root).unwrap();
    let before = irkit::pretty::canon(ctx, root, false, false);
    note(&before);
    let r = validate_all(ctx, m);
    if !r.is_ok() {
        return fail(format!("valid module rejected| {r}"), before);
    }
    validate_call_arity(ctx, m);
    if !ctx.take_diagnostics().is_empty() {
        return fail("valid module gets arity warnings|", before);
    }
    let mut log = vec![];
    let ops0 = all_ops(ctx, root);
    let mut values: Vec<ValueRef> = vec![];
    for o in &ops0 {
        values.extend(ctx.op_results(*o));
        for rg in ctx.op(*o).regions.to_vec() {
            for bl in ctx.region(rg).blocks.to_vec() {
                values.extend(ctx.block_args(bl));
            }
        }
    }
    let i32t = b::core(ctx, "i32");
    let f64t = b::core(ctx, "f64");
    let never = b::core(ctx, "never");
    let n = t.upto(4);
    for _ in 0..n {
        let ops: Vec<OpRef> = all_ops(ctx, root).into_iter().filter(|o| enclosing_fn(ctx, *o).is_some()).collect();
        if ops.is_empty() || values.is_empty() {
            break;
        }
        match t.weighted(&[5, 3, 3, 3, 3, 3, 2, 2]) {
            0 => {
                let with: Vec<OpRef> = ops.iter().copied().filter(|o| !ctx.op_operands(*o).is_empty()).collect();
                if with.is_empty() {
                    continue;
                }
                let o = *t.pick(&with);
                let i = t.idx(ctx.op_operands(o).len());
                let v = *t.pick(&values);
                ctx.set_op_operand(o, i as u32, v);
                log.push(format!("operand {i} of {} := {v:?}", full(ctx, o)));
            }
            1 => {
                let o = *t.pick(&ops);
                ctx.detach_op(o);
                log.push(format!("detach {} {o}", full(ctx, o)));
            }
            2 => {
                // arity change of a call
                let calls: Vec<OpRef> = ops.iter().copied().filter(|o| full(ctx, *o) == "func.call" || full(ctx, *o) == "func.tail_call").collect();
                if calls.is_empty() {
                    continue;
                }
                let o = *t.pick(&calls);
                let k = ctx.op_operands(o).len();
                if k > 0 && t.bool() {
                    ctx.remove_op_operand(o, t.idx(k) as u32);
                } else {
                    let v = *t.pick(&values);
                    ctx.push_op_operand(o, v);
                }
                log.push(format!("arity of call {o}"));
            }
            3 => {
                // a fresh op of a verified kind with a random shape, placed before some op
                let at = *t.pick(&ops);
                let bl = ctx.op(at).parent_block.unwrap();
                let nv = t.upto(3);
                let operands: Vec<ValueRef> = (0..nv).map(|_| *t.pick(&values)).collect();
                let op = match t.below(3) {
                    0 => {
                        let p = *t.pick(&["oeq", "une", "olt", "ole", "ogt", "oge", "one", "ueq", "uno", "ord", "eq", "ult", "oeqq", ""]);
                        let attrs = match t.below(6) {
                            0 => vec![],
                            1 => vec![("predicate".to_string(), Attribute::String(p.to_owned()))],
                            _ => vec![("predicate".to_string(), Attribute::Symbol(b::sym(p)))],
                        };
                        let i1 = b::core(ctx, "i1");
                        b::mk(ctx, "arith.cmpf", O { operands, attrs, results: vec![i1], ..O::default() })
                    }
                    1 => {
                        let k = t.upto(3);
                        let bb = b::block(ctx, &[]);
                        b::put(ctx, bb, "scf.break", O { operands: values[..1].to_vec(), ..O::default() });
                        let rg = b::region(ctx, &[bb]);
                        b::mk(ctx, "scf.loop", O { operands, results: vec![i32t; k], regions: vec![rg], ..O::default() })
                    }
                    _ => {
                        let k = t.upto(2);
                        let bb = b::block(ctx, &[]);
                        let rg = b::region(ctx, &[bb]);
                        b::mk(ctx, "scf.switch", O { operands, results: vec![i32t; k], regions: vec![rg], ..O::default() })
                    }
                };
                ctx.insert_op_before(bl, at, op);
                log.push(format!("insert {} {op}", full(ctx, op)));
            }
            4 => {
                let at = *t.pick(&ops);
                let bl = ctx.op(at).parent_block.unwrap();
                let nr = *t.pick(&[2usize, 2, 2, 1, 3, 0]);
                let nres = *t.pick(&[1usize, 1, 0, 2]);
                let never_res = t.chance(1, 2);
                let mut regions = vec![];
                for _ in 0..nr {
                    let nb = *t.pick(&[1usize, 1, 1, 1, 0, 2]);
                    let mut bls = vec![];
                    for _ in 0..nb {
                        let bb = b::block(ctx, &[]);
                        let term = *t.pick(&["scf.yield", "scf.yield", "scf.yield", "func.tail_call", "func.unreachable", "ability.perform", "ability.handle_dispatch", "scf.switch", "func.return", "func.call", "ability.resume", "scf.loop", "cf.br", ""]);
                        let k = if t.chance(3, 4) { nres } else { t.upto(2) };
                        if !term.is_empty() {
                            let vs = if term == "scf.yield" { (0..k).map(|_| *t.pick(&values)).collect() } else { vec![] };
                            b::put(ctx, bb, term, O { operands: vs, ..O::default() });
                        }
                        if t.chance(1, 8) {
                            b::put(ctx, bb, "t.after", O::default());
                        }
                        bls.push(bb);
                    }
                    regions.push(b::region(ctx, &bls));
                }
                let nc = *t.pick(&[1usize, 1, 1, 0, 2]);
                let operands = (0..nc).map(|_| *t.pick(&values)).collect();
                let res = if never_res { vec![never; nres] } else { vec![i32t; nres] };
                let op = b::mk(ctx, "scf.if", O { operands, results: res, regions, ..O::default() });
                ctx.insert_op_before(bl, at, op);
                log.push(format!("insert scf.if {op}"));
            }
            5 => {
                let at = *t.pick(&ops);
                let bl = ctx.op(at).parent_block.unwrap();
                let np = t.upto(3);
                let params: Vec<TypeRef> = (0..np).map(|_| if t.bool() { i32t } else { f64t }).collect();
                let ret = if t.chance(3, 4) { never } else { i32t };
                let mut ct = b::fnty(ctx, ret, &params);
                match t.below(8) {
                    0 => ct = i32t,
                    1 => ct = ctx.types.intern(TypeDataBuilder::new(b::sym("core"), b::sym("func")).build()),
                    2 => ct = ctx.types.intern(TypeDataBuilder::new(b::sym("closure"), b::sym("closure")).build()),
                    3 => ct = ctx.types.intern(TypeDataBuilder::new(b::sym("closure"), b::sym("closure")).param(ct).param(ct).build()),
                    4 | 5 => ct = ctx.types.intern(TypeDataBuilder::new(b::sym("closure"), b::sym("closure")).param(ct).build()),
                    _ => {}
                }
                let c = b::mk(ctx, "t.val", O { results: vec![ct], ..O::default() });
                ctx.insert_op_before(bl, at, c);
                let mut operands = vec![ctx.op_result(c, 0)];
                for p in &params {
                    let ty = if t.chance(1, 8) { f64t } else { *p };
                    let a = b::mk(ctx, "t.val", O { results: vec![ty], ..O::default() });
                    ctx.insert_op_before(bl, at, a);
                    operands.push(ctx.op_result(a, 0));
                }
                match t.below(8) {
                    0 => {
                        operands.pop();
                    }
                    1 => {
                        let x = *operands.last().unwrap();
                        operands.push(x)
                    }
                    _ => {}
                }
                let results = if t.chance(1, 8) { vec![never] } else { vec![] };
                let op = b::mk(ctx, "func.tail_call_indirect", O { operands, results, ..O::default() });
                ctx.insert_op_before(bl, at, op);
                log.push(format!("insert func.tail_call_indirect {op}"));
            }
            7 => {
                // overwrite an operand list behind the use lists' back (must stay the last corruption: the list is shared)
                let (a, c) = (*t.pick(&ops), *t.pick(&ops));
                let l = ctx.op(c).operands;
                ctx.op_mut(a).operands = l;
                log.push(format!("operands of {a} overwritten by those of {c}"));
                break;
            }
            _ => {
                // a user outside the module keeps a use-list entry alive
                let v = *t.pick(&values);
                let op = b::mk(ctx, "t.ghost", O { operands: vec![v, v], ..O::default() });
                log.push(format!("detached user {op} of {v:?}"));
            }
        }
    }
    let after = || format!("{before}\nCORRUPTIONS\n{}", log.join("\n"));
    note(&after());
    // ---- expectations
    let ops = all_ops(ctx, root);
    let mut scope: BTreeMap<(String, String, usize), usize> = BTreeMap::new();
    let mut bad: BTreeSet<String> = BTreeSet::new();
    let mut in_mod: BTreeSet<OpRef> = BTreeSet::new();
    let mut vals: BTreeSet<ValueRef> = BTreeSet::new();
    for o in &ops {
        in_mod.insert(*o);
        vals.extend(ctx.op_operands(*o));
        vals.extend(ctx.op_results(*o));
        for rg in &ctx.op(*o).regions {
            for bl in &ctx.region(*rg).blocks {
                vals.extend(ctx.block_args(*bl));
            }
        }
        if op_bad(ctx, *o) {
            bad.insert(o.to_string());
        }
        if let Some(f) = enclosing_fn(ctx, *o) {
            let name = ctx.op(f).attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_default();
            for (i, v) in ctx.op_operands(*o).iter().enumerate() {
                if !visible(ctx, *o, *v) {
                    *scope.entry((name.clone(), full(ctx, *o), i)).or_default() += 1;
                }
            }
        }
    }
    let mut stale: usize = vals
        .iter()
        .map(|v| ctx.uses(*v).iter().filter(|u| !in_mod.contains(&u.user) || ctx.op_operands(u.user).get(u.operand_index as usize) != Some(v)).count())
        .sum();
    for o in &ops {
        for (i, v) in ctx.op_operands(*o).iter().enumerate() {
            if !ctx.uses(*v).iter().any(|u| u.user == *o && u.operand_index as usize == i) {
                stale += 1;
            }
        }
    }
    // ---- actual
    let mut got_scope: BTreeMap<(String, String, usize), usize> = BTreeMap::new();
    for e in &validate_value_integrity(ctx, m).errors {
        if let ValidationError::StaleValue { function_name, consumer_op, operand_index, .. } = e {
            *got_scope.entry((function_name.clone(), consumer_op.clone(), *operand_index)).or_default() += 1;
        } else {
            return fail(format!("unexpected kind of scope error| {e}"), after());
        }
    }
    if got_scope != scope {
        return fail(format!("scope errors differ| validator {got_scope:?}, expected {scope:?}"), after());
    }
    let uc = validate_use_chains(ctx, m).errors.len();
    if uc != stale {
        return fail(format!("use-chain errors differ| validator {uc}, expected {stale}"), after());
    }
    let mut got_bad: BTreeSet<String> = BTreeSet::new();
    for e in &validate_operation_verifiers(ctx, m).errors {
        let s = e.to_string();
        let id = s.split('(').nth(1).and_then(|x| x.split(')').next()).unwrap_or("?").to_string();
        got_bad.insert(id);
    }
    if got_bad != bad {
        return fail(format!("operation verifier disagrees| validator flags {got_bad:?}, expected {bad:?}"), after());
    }
    let any = !scope.is_empty() || stale > 0 || !bad.is_empty();
    let all = validate_all(ctx, m);
    if all.is_ok() == any {
        return fail(format!("validate_all is_ok={} although errors={any}|", all.is_ok()), after());
    }
    // call arity: top-level functions of this module only
    let top: Vec<OpRef> = ctx.region(m.body(ctx).unwrap()).blocks.iter().flat_map(|bl| ctx.block(*bl).ops.to_vec()).collect();
    let mut arity: BTreeMap<String, usize> = BTreeMap::new();
    let mut sigs: BTreeMap<String, usize> = BTreeMap::new();
    for o in &top {
        if is_fn(ctx, *o) {
            if let (Some(s), Some(ty)) = (ctx.op(*o).attributes.get_symbol("sym_name"), ctx.op(*o).attributes.get_type("type")) {
                sigs.insert(s.to_string(), ctx.types.get(ty).params.len() - 1);
            }
        }
    }
    for f in top.iter().filter(|o| is_fn(ctx, **o)) {
        for o in all_ops(ctx, *f) {
            if matches!(full(ctx, o).as_str(), "func.call" | "func.tail_call") {
                if let Some(c) = ctx.op(o).attributes.get_symbol("callee") {
                    if let Some(e) = sigs.get(&c.to_string()) {
                        if *e != ctx.op_operands(o).len() {
                            *arity.entry(c.to_string()).or_default() += 1;
                        }
                    }
                }
            }
        }
    }
    validate_call_arity(ctx, m);
    let warns = ctx.take_diagnostics();
    let exp: usize = arity.values().sum();
    if warns.len() != exp {
        return fail(format!("arity warnings differ| validator {}, expected {exp}", warns.len()), after());
    }
    let mut tags = vec![];
    if !scope.is_empty() {
        tags.push("scope error".to_string());
    }
    if stale > 0 {
        tags.push("stale use".into());
    }
    if !bad.is_empty() {
        tags.push("verifier error".into());
    }
    if exp > 0 {
        tags.push("arity".into());
    }
    if !any {
        tags.push("clean".into());
    }
    let s = after();
    Ok(Case { nontrivial: any || exp > 0 || ops.len() > 12, key: hash_str(&s), render: s, tags })
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C04",
        lanes: vec![Lane { name: "validate", rule: "generated valid module with 0-4 random corruptions (out-of-scope operands, detached operations, ghost users, malformed verified operations, call arity); non-trivial: something is wrong with it, or more than 12 operations", quick: 60_000, thorough: 2_000_000, threads: 8, run: validate }],
        assumptions: vec!["functions are not nested in functions"],
        sweeps: vec![],
    }]
}
