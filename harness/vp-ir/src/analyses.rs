//! C12: analyses against naive restatements of their definitions.
use crate::passes::walk;
use engine::*;
use irkit::b::{self, O};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::ops::ControlFlow;
use std::sync::atomic::{AtomicU64, Ordering};
use trunk_ir::analysis::{Analysis, AnalysisCache};
use trunk_ir::context::IrContext;
use trunk_ir::dominance::DominatorTree;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::transforms::{build_call_graph, recursive_functions, tarjan_scc};
use trunk_ir::types::Attribute;
use trunk_ir::walk::{WalkAction, walk_block, walk_op, walk_region};

fn dominance(t: &mut Tape) -> Result<Case, Failure> {
    let mut ctx = IrContext::new();
    let n = t.upto(9);
    let bls: Vec<BlockRef> = (0..n).map(|_| b::block(&mut ctx, &[])).collect();
    let foreign = b::block(&mut ctx, &[]);
    let _fr = b::region(&mut ctx, &[foreign]);
    let mut succ: Vec<Vec<BlockRef>> = vec![];
    let mut invalid = false;
    for i in 0..n {
        let mut s = vec![];
        match t.weighted(&[2, 4, 5, 1, 1]) {
            0 => {}
            k @ (1 | 2 | 3) => {
                for _ in 0..k {
                    // biased to nearby blocks so that loops and joins are common
                    let j = if t.chance(2, 3) { (i + 1 + t.upto(2)).min(n - 1) } else { t.idx(n) };
                    s.push(bls[j]);
                }
            }
            _ => {
                if t.chance(1, 3) {
                    s.push(foreign);
                    invalid = true;
                }
                s.push(bls[t.idx(n)]);
            }
        }
        // earlier operations, possibly with successors of their own, which do not count
        for _ in 0..t.upto(1) {
            let ss = if t.chance(1, 4) { vec![bls[t.idx(n)]] } else { vec![] };
            b::put(&mut ctx, bls[i], "t.op", O { succs: ss, ..O::default() });
        }
        let empty = s.is_empty() && t.bool();
        if empty {
            let last = ctx.block(bls[i]).ops.last().copied();
            succ.push(last.map(|o| ctx.op(o).successors.to_vec()).unwrap_or_default());
        } else {
            b::put(&mut ctx, bls[i], "t.term", O { succs: s.clone(), ..O::default() });
            succ.push(s);
        }
    }
    let r = b::region(&mut ctx, &bls);
    let idx: HashMap<BlockRef, usize> = bls.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
    let render = succ.iter().enumerate().map(|(i, s)| format!("{i} -> {:?}", s.iter().map(|x| idx.get(x).map(|v| *v as i64).unwrap_or(-1)).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n");
    note(&render);
    let d = DominatorTree::compute(&ctx, r);
    let reach = |avoid: Option<usize>| -> HashSet<usize> {
        let mut seen = HashSet::new();
        let mut st = vec![];
        if n > 0 && avoid != Some(0) {
            st.push(0);
        }
        while let Some(x) = st.pop() {
            if seen.insert(x) {
                for s in &succ[x] {
                    if let Some(j) = idx.get(s) {
                        if avoid != Some(*j) {
                            st.push(*j);
                        }
                    }
                }
            }
        }
        seen
    };
    let all = reach(None);
    if d.entry() != bls.first().copied() || d.region() != r {
        return fail("wrong entry or region|", render);
    }
    if d.is_valid() == invalid {
        return fail(format!("is_valid {} although a successor outside the region exists: {invalid}|", d.is_valid()), render);
    }
    for i in 0..n {
        if d.is_reachable(bls[i]) != all.contains(&i) {
            return fail(format!("is_reachable wrong| block {i}: {}", d.is_reachable(bls[i])), render);
        }
        let without = reach(Some(i));
        for j in 0..n {
            let want = all.contains(&i) && all.contains(&j) && (i == j || !without.contains(&j));
            if d.dominates(bls[i], bls[j]) != want {
                return fail(format!("dominance wrong| dominates({i}, {j}) = {}, expected {want}", !want), render);
            }
        }
        if d.successors(bls[i]) != succ[i].as_slice() {
            return fail(format!("successors wrong| block {i}: {:?}", d.successors(bls[i])), render);
        }
        let mut want: Vec<BlockRef> = vec![];
        for j in 0..n {
            for s in &succ[j] {
                if *s == bls[i] {
                    want.push(bls[j]);
                }
            }
        }
        let mut got = d.predecessors(bls[i]).to_vec();
        got.sort();
        want.sort();
        if got != want {
            return fail(format!("predecessors wrong| block {i}: {got:?}, expected {want:?}"), render);
        }
    }
    if d.is_reachable(foreign) || d.dominates(foreign, foreign) {
        return fail("a block of another region is reachable|", render);
    }
    Ok(Case { nontrivial: all.len() >= 4, key: hash_str(&render), render, tags: vec![] })
}

fn call_graph(t: &mut Tape) -> Result<Case, Failure> {
    let mut ctx = IrContext::new();
    let nf = 1 + t.upto(7);
    // module tree: path per function
    let mods = ["", "a", "a::b", "c", "a::a", "a::b::a"];
    let used: Vec<usize> = (0..nf).map(|_| if t.chance(2, 3) { 0 } else { t.idx(mods.len()) }).collect();
    let qual: Vec<String> = (0..nf).map(|i| if used[i] == 0 { format!("f{i}") } else { format!("{}::f{i}", mods[used[i]]) }).collect();
    let nil = b::core(&mut ctx, "nil");
    let mut edges: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut sites: BTreeMap<String, usize> = BTreeMap::new();
    let mut consts: BTreeSet<String> = BTreeSet::new();
    let mut per: Vec<Vec<OpRef>> = vec![vec![]; mods.len()];
    let dense = t.chance(1, 3);
    for i in 0..nf {
        let body = if t.chance(1, 8) {
            None
        } else {
            let blk = b::block(&mut ctx, &[]);
            let mut cur = blk;
            let k = t.upto(if dense { 4 } else { 2 });
            for _ in 0..k {
                // a ring or a random edge, or an unknown callee
                let callee = match t.weighted(&[4, 4, 1]) {
                    0 => qual[(i + 1) % nf].clone(),
                    1 => qual[t.idx(nf)].clone(),
                    _ => format!("ext{}", t.upto(1)),
                };
                if t.chance(1, 4) {
                    // nest inside a region
                    let inner = b::block(&mut ctx, &[]);
                    let rg = b::region(&mut ctx, &[inner]);
                    b::put(&mut ctx, cur, "t.wrap", O { regions: vec![rg], ..O::default() });
                    cur = inner;
                }
                let (name, key) = *t.pick(&[("func.call", "callee"), ("func.call", "callee"), ("func.tail_call", "callee"), ("func.constant", "func_ref"), ("t.call", "callee")]);
                b::put(&mut ctx, cur, name, O { attrs: vec![(key.into(), Attribute::Symbol(b::sym(&callee)))], ..O::default() });
                match name {
                    "func.constant" => {
                        consts.insert(callee.clone());
                        edges.entry(qual[i].clone()).or_default().insert(callee);
                    }
                    "t.call" => {}
                    _ => {
                        *sites.entry(callee.clone()).or_default() += 1;
                        edges.entry(qual[i].clone()).or_default().insert(callee);
                    }
                }
            }
            Some(b::region(&mut ctx, &[blk]))
        };
        let f = b::func(&mut ctx, &format!("f{i}"), nil, &[], body, &[]);
        per[used[i]].push(f);
    }
    let mba = b::module(&mut ctx, "a", &per[5]);
    let mut b_ops = per[2].clone();
    b_ops.insert(t.idx(b_ops.len() + 1), mba);
    let mb = b::module(&mut ctx, "b", &b_ops);
    let maa = b::module(&mut ctx, "a", &per[4]);
    let mut a_ops = per[1].clone();
    for x in [mb, maa] {
        a_ops.insert(t.idx(a_ops.len() + 1), x);
    }
    let ma = b::module(&mut ctx, "a", &a_ops);
    let mc = b::module(&mut ctx, "c", &per[3]);
    let mut top = per[0].clone();
    for x in [ma, mc] {
        top.insert(t.idx(top.len() + 1), x);
    }
    let root = b::module(&mut ctx, "m", &top);
    let m = Module::new(&ctx, root).unwrap();
    let render = format!("functions {qual:?}\nedges {edges:?}\nconstants {consts:?}");
    note(&render);
    let g = build_call_graph(&ctx, m);
    let got_edges: BTreeMap<String, BTreeSet<String>> = g.edges.iter().filter(|(_, v)| !v.is_empty()).map(|(k, v)| (k.to_string(), v.iter().map(|s| s.to_string()).collect())).collect();
    if got_edges != edges {
        return fail(format!("call graph edges| {got_edges:?}"), render);
    }
    let fs: BTreeSet<String> = g.func_ops.keys().map(|s| s.to_string()).collect();
    let want: BTreeSet<String> = qual.iter().cloned().collect();
    if fs != want {
        return fail(format!("call graph functions| {fs:?}"), render);
    }
    for (k, op) in &g.func_ops {
        let short = ctx.op(*op).attributes.get_symbol("sym_name").unwrap().to_string();
        if k.to_string().rsplit("::").next() != Some(short.as_str()) {
            return fail(format!("call graph maps {k} to @{short}|"), render);
        }
    }
    if g.call_site_count.iter().filter(|(_, n)| **n > 0).map(|(k, n)| (k.to_string(), *n)).collect::<BTreeMap<_, _>>() != sites {
        return fail(format!("call site counts| {:?}", g.call_site_count), render);
    }
    if g.has_constant_ref.iter().map(|s| s.to_string()).collect::<BTreeSet<_>>() != consts {
        return fail(format!("constant references| {:?}", g.has_constant_ref), render);
    }
    // recursion: reaches itself by at least one edge among defined functions
    let reach = |s: &str| -> BTreeSet<String> {
        let mut seen = BTreeSet::new();
        let mut st: Vec<String> = edges.get(s).into_iter().flatten().cloned().collect();
        while let Some(x) = st.pop() {
            if want.contains(&x) && seen.insert(x.clone()) {
                st.extend(edges.get(&x).into_iter().flatten().cloned());
            }
        }
        seen
    };
    let rs: BTreeMap<String, BTreeSet<String>> = want.iter().map(|f| (f.clone(), reach(f))).collect();
    let rec: BTreeSet<String> = want.iter().filter(|f| rs[*f].contains(*f)).cloned().collect();
    let got: BTreeSet<String> = recursive_functions(&g).iter().map(|s| s.to_string()).collect();
    if got != rec {
        return fail(format!("recursive functions| reported {got:?}, actual {rec:?}"), render);
    }
    let scc: BTreeMap<String, u32> = tarjan_scc(&g).into_iter().map(|(k, v)| (k.to_string(), v)).collect();
    if scc.keys().cloned().collect::<BTreeSet<_>>() != want {
        return fail(format!("SCC ids| {scc:?}"), render);
    }
    for x in &want {
        for y in &want {
            let same = x == y || (rs[x].contains(y) && rs[y].contains(x));
            if same != (scc[x] == scc[y]) {
                return fail(format!("SCC| {x} and {y}: same component {same}, ids {} {}", scc[x], scc[y]), render);
            }
        }
    }
    let tag = if rec.is_empty() { "acyclic" } else { "recursive" };
    Ok(Case { nontrivial: edges.len() >= 2, key: hash_str(&render), render, tags: vec![tag.into()] })
}

static CLOCK: AtomicU64 = AtomicU64::new(0);
struct A0(u64, OpRef);
struct A1(u64, OpRef);
impl Analysis for A0 {
    fn compute(_: &IrContext, target: OpRef) -> Self {
        A0(CLOCK.fetch_add(1, Ordering::Relaxed), target)
    }
}
impl Analysis for A1 {
    fn compute(_: &IrContext, target: OpRef) -> Self {
        A1(CLOCK.fetch_add(1, Ordering::Relaxed), target)
    }
}
fn cache(t: &mut Tape) -> Result<Case, Failure> {
    let mut ctx = IrContext::new();
    let ops: Vec<OpRef> = (0..3).map(|_| b::mk(&mut ctx, "t.op", O::default())).collect();
    let mut c = AnalysisCache::new();
    let mut model: BTreeMap<(u8, usize), u64> = BTreeMap::new();
    let mut log = vec![];
    // results a client still holds
    let mut held: Vec<std::sync::Arc<dyn std::any::Any + Send + Sync>> = vec![];
    let n = 1 + t.upto(14);
    for _ in 0..n {
        let k = t.idx(3);
        let which = t.below(2) as u8;
        let step = t.weighted(&[6, 3, 2, 2, 1]);
        log.push(format!("{step} A{which} op{k}"));
        let render = || log.join("; ");
        match step {
            0 => {
                let before = CLOCK.load(Ordering::Relaxed);
                let (v, o) = if which == 0 {
                    let a = c.get::<A0>(&ctx, ops[k]);
                    if t.bool() {
                        held.push(a.clone());
                    }
                    (a.0, a.1)
                } else {
                    let a = c.get::<A1>(&ctx, ops[k]);
                    if t.bool() {
                        held.push(a.clone());
                    }
                    (a.0, a.1)
                };
                let computed = CLOCK.load(Ordering::Relaxed) != before;
                let want = model.get(&(which, k)).copied();
                if want.is_some() == computed || want.is_some_and(|w| w != v) || o != ops[k] {
                    return fail(format!("analysis cache get| computed {computed}, cached {want:?}, got {v} for {o:?}"), render());
                }
                model.insert((which, k), v);
            }
            1 => {
                let v = if which == 0 { c.get_cached::<A0>(ops[k]).map(|a| a.0) } else { c.get_cached::<A1>(ops[k]).map(|a| a.0) };
                if v != model.get(&(which, k)).copied() {
                    return fail(format!("analysis cache get_cached| {v:?}"), render());
                }
            }
            2 => {
                if which == 0 {
                    c.invalidate::<A0>(ops[k])
                } else {
                    c.invalidate::<A1>(ops[k])
                }
                model.remove(&(which, k));
            }
            3 => {
                c.invalidate_all(ops[k]);
                model.retain(|x, _| x.1 != k);
            }
            _ => {
                c.clear();
                model.clear();
            }
        }
        if c.len() != model.len() || c.is_empty() != model.is_empty() {
            return fail(format!("analysis cache len| {} vs {}", c.len(), model.len()), log.join("; "));
        }
    }
    let s = log.join("; ");
    Ok(Case { nontrivial: n >= 4, key: hash_str(&s), render: s, tags: vec![] })
}

fn walking(t: &mut Tape) -> Result<Case, Failure> {
    let mut ctx = IrContext::new();
    fn gen_(t: &mut Tape, ctx: &mut IrContext, depth: usize, budget: &mut usize) -> OpRef {
        let mut regions = vec![];
        if depth < 4 {
            for _ in 0..t.weighted(&[5, 3, 1, 1, 1]) {
                let mut bls = vec![];
                for _ in 0..t.upto(2) {
                    let bl = b::block(ctx, &[]);
                    for _ in 0..t.upto(3) {
                        if *budget > 0 {
                            *budget -= 1;
                            let o = gen_(t, ctx, depth + 1, budget);
                            ctx.push_op(bl, o);
                        }
                    }
                    bls.push(bl);
                }
                regions.push(b::region(ctx, &bls));
            }
        }
        let name = if t.chance(1, 4) { "scf.yield" } else { "t.op" };
        b::mk(ctx, name, O { regions, ..O::default() })
    }
    let root = gen_(t, &mut ctx, 0, &mut 25);
    let mut pre = vec![];
    walk(&ctx, root, &mut |o| pre.push(o));
    let skip: HashSet<OpRef> = pre.iter().copied().filter(|_| t.chance(1, 5)).collect();
    let stop = if t.chance(1, 3) { Some(*t.pick(&pre)) } else { None };
    // model: pre-order, do not enter skipped ops, end after the stop op
    fn model(ctx: &IrContext, o: OpRef, skip: &HashSet<OpRef>, stop: Option<OpRef>, out: &mut Vec<OpRef>) -> bool {
        out.push(o);
        if Some(o) == stop {
            return true;
        }
        if skip.contains(&o) {
            return false;
        }
        for r in &ctx.op(o).regions {
            for bl in &ctx.region(*r).blocks {
                for c in &ctx.block(*bl).ops {
                    if model(ctx, *c, skip, stop, out) {
                        return true;
                    }
                }
            }
        }
        false
    }
    let render = format!("{}\nskip {skip:?} stop {stop:?}", irkit::pretty::canon(&ctx, root, false, false));
    let mut seen = vec![];
    let mut f = |o: OpRef| -> ControlFlow<OpRef, WalkAction> {
        seen.push(o);
        if Some(o) == stop {
            return ControlFlow::Break(o);
        }
        ControlFlow::Continue(if skip.contains(&o) { WalkAction::Skip } else { WalkAction::Advance })
    };
    let mut want = vec![];
    let (r, broke) = match t.below(3) {
        0 => (walk_op(&ctx, root, &mut f), model(&ctx, root, &skip, stop, &mut want)),
        1 if !ctx.op(root).regions.is_empty() => {
            let rg = ctx.op(root).regions[0];
            let mut br = false;
            for bl in &ctx.region(rg).blocks {
                for c in &ctx.block(*bl).ops {
                    br = br || model(&ctx, *c, &skip, stop, &mut want);
                }
            }
            (walk_region(&ctx, rg, &mut f), br)
        }
        _ => {
            let bl = ctx.op(root).regions.iter().flat_map(|r| ctx.region(*r).blocks.to_vec()).next();
            let Some(bl) = bl else { return Ok(Case { nontrivial: false, key: 0, render, tags: vec![] }) };
            let mut br = false;
            for c in &ctx.block(bl).ops {
                br = br || model(&ctx, *c, &skip, stop, &mut want);
            }
            (walk_block(&ctx, bl, &mut f), br)
        }
    };
    if let Some(rg) = ctx.op(root).regions.first().copied() {
        // only the operations of one kind are shown to the visitor
        let is = |o: OpRef| ctx.op(o).name == b::sym("yield");
        let (skip, stop) = (skip.iter().copied().filter(|o| is(*o)).collect::<HashSet<_>>(), stop.filter(|o| is(*o)));
        let mut want = vec![];
        let mut br = false;
        for bl in &ctx.region(rg).blocks {
            for c in &ctx.block(*bl).ops {
                br = br || model(&ctx, *c, &skip, stop, &mut want);
            }
        }
        want.retain(|o| is(*o));
        let mut got = vec![];
        let r = trunk_ir::walk::walk_typed::<trunk_ir::dialect::scf::Yield, OpRef>(&ctx, rg, &mut |y| {
            let o = y.op_ref();
            got.push(o);
            if Some(o) == stop {
                return ControlFlow::Break(o);
            }
            ControlFlow::Continue(if skip.contains(&o) { WalkAction::Skip } else { WalkAction::Advance })
        });
        if got != want || r.is_break() != br {
            return fail(format!("typed walk| visited {got:?}, expected {want:?}"), render);
        }
    }
    if seen != want {
        return fail(format!("walk order| visited {seen:?}, expected {want:?}"), render);
    }
    if r.is_break() != broke || (broke && r != ControlFlow::Break(stop.unwrap())) {
        return fail("walk result|", render);
    }
    Ok(Case { nontrivial: want.len() >= 4, key: hash_str(&render), render, tags: vec![] })
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C12",
        lanes: vec![
            Lane { name: "dominance", rule: "random control-flow graph of up to 9 blocks with loops, joins, unreachable blocks and successors outside the region; every pair checked against removal reachability; non-trivial: at least four reachable blocks", quick: 150_000, thorough: 6_000_000, threads: 0, run: dominance },
            Lane { name: "call-graph", rule: "up to 8 functions in nested modules with calls, tail calls, constant references and unknown callees at any nesting; graph, recursion and components against transitive closure; non-trivial: at least two callers", quick: 80_000, thorough: 3_000_000, threads: 0, run: call_graph },
            Lane { name: "analysis-cache", rule: "history of get / get_cached / invalidate / invalidate_all / clear; non-trivial: at least four steps", quick: 30_000, thorough: 500_000, threads: 0, run: cache },
            Lane { name: "walk", rule: "random op tree with skip and stop sets; non-trivial: at least four visits", quick: 120000, thorough: 500_000, threads: 0, run: walking },
        ],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
