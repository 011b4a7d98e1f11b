//! Independent structural well-formedness checker.
use std::collections::{HashMap, HashSet};
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;

#[derive(Default)]
struct S {
    branches: bool,
    ops: HashSet<OpRef>,
    blocks: HashSet<BlockRef>,
    regions: HashSet<RegionRef>,
    uses: HashMap<ValueRef, Vec<(OpRef, u32)>>,
    vals: Vec<ValueRef>,
}

pub struct Opts {
    pub dominance: bool,
    pub uses: bool,
    /// branching ops must be last in their block
    pub branches: bool,
}

pub fn check(ctx: &IrContext, root: OpRef, o: &Opts) -> Result<(), String> {
    let mut s = S { branches: o.branches, ..S::default() };
    walk(ctx, root, &mut s)?;
    if o.uses {
        for v in &s.vals {
            let mut want = s.uses.remove(v).unwrap_or_default();
            let mut got: Vec<(OpRef, u32)> = ctx.uses(*v).iter().map(|u| (u.user, u.operand_index)).collect();
            want.sort();
            got.sort();
            if want != got {
                return Err(format!("use list of {v:?} is {got:?}, operands say {want:?}"));
            }
        }
        if let Some((v, u)) = s.uses.iter().next() {
            return Err(format!("operand {v:?} used by {u:?} is defined nowhere in the tree"));
        }
    }
    if o.dominance {
        let mut scope = HashSet::new();
        dom_op(ctx, root, &mut scope)?;
    }
    Ok(())
}

fn walk(ctx: &IrContext, op: OpRef, s: &mut S) -> Result<(), String> {
    if !s.ops.insert(op) {
        return Err(format!("op {op:?} appears twice"));
    }
    let d = ctx.op(op);
    let rt = ctx.op_result_types(op);
    let rs = ctx.op_results(op);
    if rt.len() != rs.len() {
        return Err(format!("op {op:?}: {} results, {} result types", rs.len(), rt.len()));
    }
    for (i, r) in rs.iter().enumerate() {
        if ctx.value_def(*r) != ValueDef::OpResult(op, i as u32) {
            return Err(format!("result {i} of {op:?} has def {:?}", ctx.value_def(*r)));
        }
        if ctx.value_ty(*r) != rt[i] {
            return Err(format!("result {i} of {op:?} value_ty mismatch"));
        }
        s.vals.push(*r);
    }
    for (i, v) in ctx.op_operands(op).iter().enumerate() {
        s.uses.entry(*v).or_default().push((op, i as u32));
    }
    for r in &d.regions {
        if !s.regions.insert(*r) {
            return Err(format!("region {r:?} appears twice"));
        }
        let rd = ctx.region(*r);
        if rd.parent_op != Some(op) {
            return Err(format!("region {r:?} parent_op is {:?}, expected {op:?}", rd.parent_op));
        }
        for b in &rd.blocks {
            if !s.blocks.insert(*b) {
                return Err(format!("block {b:?} appears twice"));
            }
            let bd = ctx.block(*b);
            if bd.parent_region != Some(*r) {
                return Err(format!("block {b:?} parent_region is {:?}, expected {r:?}", bd.parent_region));
            }
            let args = ctx.block_args(*b);
            if args.len() != bd.args.len() {
                return Err(format!("block {b:?}: {} arg values, {} arg decls", args.len(), bd.args.len()));
            }
            for (i, a) in args.iter().enumerate() {
                if ctx.value_def(*a) != ValueDef::BlockArg(*b, i as u32) {
                    return Err(format!("arg {i} of {b:?} has def {:?}", ctx.value_def(*a)));
                }
                if ctx.value_ty(*a) != bd.args[i].ty {
                    return Err(format!("arg {i} of {b:?} value_ty mismatch"));
                }
                s.vals.push(*a);
            }
            let n = bd.ops.len();
            for (i, o) in bd.ops.iter().enumerate() {
                if ctx.op(*o).parent_block != Some(*b) {
                    return Err(format!("op {o:?} parent_block is {:?}, expected {b:?}", ctx.op(*o).parent_block));
                }
                for su in &ctx.op(*o).successors {
                    if !rd.blocks.contains(su) {
                        return Err(format!("successor {su:?} of {o:?} is not in its region"));
                    }
                    if s.branches && i + 1 != n {
                        return Err(format!("branch {o:?} is not last in its block"));
                    }
                }
                walk(ctx, *o, s)?;
            }
        }
    }
    Ok(())
}

fn isolated(ctx: &IrContext, op: OpRef) -> bool {
    let d = ctx.op(op);
    (d.dialect == Symbol::new("func") && d.name == Symbol::new("func")) || (d.dialect == Symbol::new("core") && d.name == Symbol::new("module"))
}

fn dom_op(ctx: &IrContext, op: OpRef, scope: &mut HashSet<ValueRef>) -> Result<(), String> {
    for r in ctx.op(op).regions.clone() {
        let mut inner = if isolated(ctx, op) { HashSet::new() } else { scope.clone() };
        dom_region(ctx, r, &mut inner)?;
    }
    Ok(())
}

fn dom_region(ctx: &IrContext, r: RegionRef, scope: &mut HashSet<ValueRef>) -> Result<(), String> {
    let blocks: Vec<BlockRef> = ctx.region(r).blocks.to_vec();
    let n = blocks.len();
    if n == 0 {
        return Ok(());
    }
    let idx: HashMap<BlockRef, usize> = blocks.iter().enumerate().map(|(i, b)| (*b, i)).collect();
    let succ: Vec<Vec<usize>> = blocks.iter().map(|b| ctx.block(*b).ops.iter().flat_map(|o| ctx.op(*o).successors.iter().filter_map(|s| idx.get(s).copied()).collect::<Vec<_>>()).collect()).collect();
    let reach = |rem: usize| {
        let mut seen = vec![false; n];
        let mut st = vec![];
        if rem != 0 {
            st.push(0);
        }
        while let Some(x) = st.pop() {
            if seen[x] || x == rem {
                continue;
            }
            seen[x] = true;
            st.extend(succ[x].iter().copied());
        }
        seen
    };
    let all = reach(usize::MAX);
    let without: Vec<Vec<bool>> = if n > 1 { (0..n).map(reach).collect() } else { vec![vec![false]] };
    for i in 0..n {
        if !all[i] {
            continue;
        }
        let mut vis = scope.clone();
        for d in 0..n {
            if d != i && all[d] && !without[d][i] {
                for a in ctx.block_args(blocks[d]) {
                    vis.insert(*a);
                }
                for o in &ctx.block(blocks[d]).ops {
                    vis.extend(ctx.op_results(*o).iter().copied());
                }
            }
        }
        for a in ctx.block_args(blocks[i]) {
            vis.insert(*a);
        }
        for o in ctx.block(blocks[i]).ops.clone() {
            for (k, v) in ctx.op_operands(o).iter().enumerate() {
                if !vis.contains(v) {
                    return Err(format!("operand {k} of {}.{} ({o:?}) does not dominate its use", ctx.op(o).dialect, ctx.op(o).name));
                }
            }
            for s in &ctx.op(o).successors {
                if ctx.op(o).name == Symbol::new("br") {
                    let na = ctx.block_args(*s).len();
                    let no = ctx.op_operands(o).len();
                    if na != no {
                        return Err(format!("branch passes {no} values to a block with {na} arguments"));
                    }
                    for (a, v) in ctx.block_args(*s).iter().zip(ctx.op_operands(o)) {
                        if ctx.value_ty(*a) != ctx.value_ty(*v) {
                            return Err("branch argument type mismatch".into());
                        }
                    }
                } else if ctx.op(o).name == Symbol::new("cond_br") && !ctx.block_args(*s).is_empty() {
                    return Err("cond_br to a block with arguments".into());
                }
            }
            dom_op(ctx, o, &mut vis)?;
            vis.extend(ctx.op_results(o).iter().copied());
        }
    }
    Ok(())
}
