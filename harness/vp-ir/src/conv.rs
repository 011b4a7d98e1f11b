//! C09: conversion targets and the pattern applicator; C10: type conversion, signatures, casts.
//! The oracle is a small re-implementation on a model tree; real and model IR are compared by dump.
use engine::*;
use irkit::b::{self, O};
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::dialect::func;
use trunk_ir::ops::DialectOp;
use trunk_ir::refs::*;
use trunk_ir::rewrite::*;
use trunk_ir::types::Attribute;

pub const NT: usize = 6;
const D: [&str; 3] = ["da", "db", "dc"];
const N: [&str; 3] = ["o0", "o1", "o2"];

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
enum V {
    R(usize, usize),
    A(usize, usize),
}
#[derive(Clone, Debug)]
struct Node {
    d: String,
    n: String,
    k: i64,
    label: String,
    extra: Vec<(String, String)>,
    operands: Vec<V>,
    results: Vec<usize>,
    regions: Vec<usize>,
    parent: Option<usize>,
    /// only for functions: parameter and result types
    sig: Option<(Vec<usize>, usize)>,
}
#[derive(Clone, Debug, Default)]
struct M {
    nodes: Vec<Node>,
    blocks: Vec<(Vec<usize>, Vec<usize>)>,
    regions: Vec<Vec<usize>>,
}
impl M {
    fn node(&mut self, d: &str, n: &str, k: i64, label: &str, operands: Vec<V>, results: Vec<usize>, regions: Vec<usize>) -> usize {
        self.nodes.push(Node { d: d.into(), n: n.into(), k, label: label.into(), extra: vec![], operands, results, regions, parent: None, sig: None });
        self.nodes.len() - 1
    }
    fn push(&mut self, b: usize, o: usize) {
        self.blocks[b].1.push(o);
        self.nodes[o].parent = Some(b);
    }
    fn before(&mut self, b: usize, at: usize, o: usize) {
        let i = self.blocks[b].1.iter().position(|x| *x == at).unwrap();
        self.blocks[b].1.insert(i, o);
        self.nodes[o].parent = Some(b);
    }
    fn detach(&mut self, o: usize) {
        if let Some(b) = self.nodes[o].parent.take() {
            self.blocks[b].1.retain(|x| *x != o);
        }
    }
    fn ty(&self, v: V) -> usize {
        match v {
            V::R(n, i) => self.nodes[n].results[i],
            V::A(b, i) => self.blocks[b].0[i],
        }
    }
    fn rauw(&mut self, from: V, to: V) {
        for n in &mut self.nodes {
            for o in &mut n.operands {
                if *o == from {
                    *o = to;
                }
            }
        }
    }
    fn used(&self, v: V) -> bool {
        self.nodes.iter().any(|n| n.operands.contains(&v))
    }
}

/// Canonical text of a model tree.
fn dump_model(m: &M, root: usize) -> String {
    let mut num: BTreeMap<V, usize> = BTreeMap::new();
    fn walk(m: &M, op: usize, num: &mut BTreeMap<V, usize>) {
        for i in 0..m.nodes[op].results.len() {
            let n = num.len();
            num.insert(V::R(op, i), n);
        }
        for &r in &m.nodes[op].regions {
            for &bl in &m.regions[r] {
                for i in 0..m.blocks[bl].0.len() {
                    let n = num.len();
                    num.insert(V::A(bl, i), n);
                }
                for &o in &m.blocks[bl].1 {
                    walk(m, o, num);
                }
            }
        }
    }
    walk(m, root, &mut num);
    fn pr(m: &M, op: usize, num: &BTreeMap<V, usize>, ind: usize, s: &mut String) {
        let n = &m.nodes[op];
        let pad = "  ".repeat(ind);
        let res: Vec<String> = n.results.iter().enumerate().map(|(i, t)| format!("%{}:t{t}", num[&V::R(op, i)])).collect();
        let ops: Vec<String> = n.operands.iter().map(|v| num.get(v).map(|x| format!("%{x}")).unwrap_or("%gone".into())).collect();
        let sig = n.sig.as_ref().map(|(p, r)| format!(" sig{p:?}->{r}")).unwrap_or_default();
        let mut extra: Vec<String> = n.extra.iter().map(|(k, v)| format!("{k}={v}")).collect();
        extra.sort();
        *s += &format!("{pad}{} = {}.{} k{} '{}'{sig} {}({})\n", res.join(","), n.d, n.n, n.k, n.label, extra.join(","), ops.join(","));
        for &r in &n.regions {
            *s += &format!("{pad} region\n");
            for &bl in &m.regions[r] {
                let args: Vec<String> = m.blocks[bl].0.iter().enumerate().map(|(i, t)| format!("%{}:t{t}", num[&V::A(bl, i)])).collect();
                *s += &format!("{pad} block({})\n", args.join(","));
                for &o in &m.blocks[bl].1 {
                    pr(m, o, num, ind + 1, s);
                }
            }
        }
    }
    let mut s = String::new();
    pr(m, root, &num, 0, &mut s);
    s
}
pub fn tyname(ctx: &IrContext, t: TypeRef) -> String {
    let d = ctx.types.get(t);
    if d.dialect.to_string() == "test" { d.name.to_string() } else { format!("{}.{}", d.dialect, d.name) }
}
fn attr_text(ctx: &IrContext, a: &Attribute) -> String {
    match a {
        Attribute::Type(t) => tyname(ctx, *t),
        a => format!("{a:?}"),
    }
}
fn dump_real(ctx: &IrContext, root: OpRef) -> String {
    let mut num: HashMap<ValueRef, usize> = HashMap::new();
    fn walk(ctx: &IrContext, op: OpRef, num: &mut HashMap<ValueRef, usize>) {
        for v in ctx.op_results(op).to_vec() {
            let n = num.len();
            num.insert(v, n);
        }
        for &r in &ctx.op(op).regions {
            for &bl in &ctx.region(r).blocks {
                for v in ctx.block_args(bl).to_vec() {
                    let n = num.len();
                    num.insert(v, n);
                }
                for &o in &ctx.block(bl).ops {
                    walk(ctx, o, num);
                }
            }
        }
    }
    walk(ctx, root, &mut num);
    fn pr(ctx: &IrContext, op: OpRef, num: &HashMap<ValueRef, usize>, ind: usize, s: &mut String) {
        let pad = "  ".repeat(ind);
        let n = ctx.op(op);
        let val = |v: ValueRef| num.get(&v).map(|x| format!("%{x}")).unwrap_or("%gone".into());
        let res: Vec<String> = ctx.op_results(op).iter().map(|v| format!("{}:{}", val(*v), tyname(ctx, ctx.value_ty(*v)))).collect();
        let ops: Vec<String> = ctx.op_operands(op).iter().map(|v| val(*v)).collect();
        let (mut k, mut label, mut sig) = (0, String::new(), String::new());
        let mut extra = vec![];
        for (name, a) in n.attributes.iter() {
            match (name.to_string().as_str(), a) {
                ("k", Attribute::Int(x)) => k = *x as i64,
                ("label", Attribute::String(x)) => label = x.to_string(),
                ("type", Attribute::Type(t)) => {
                    let p: Vec<String> = ctx.types.get(*t).params.iter().map(|p| tyname(ctx, *p)[1..].to_string()).collect();
                    sig = format!(" sig[{}]->{}", p[1..].join(", "), p[0]);
                }
                (s, a) => extra.push(format!("{s}={}", attr_text(ctx, a))),
            }
        }
        extra.sort();
        *s += &format!("{pad}{} = {}.{} k{k} '{label}'{sig} {}({})\n", res.join(","), n.dialect, n.name, extra.join(","), ops.join(","));
        for &r in &n.regions {
            *s += &format!("{pad} region\n");
            for &bl in &ctx.region(r).blocks {
                let args: Vec<String> = ctx.block_args(bl).iter().map(|v| format!("{}:{}", val(*v), tyname(ctx, ctx.value_ty(*v)))).collect();
                *s += &format!("{pad} block({})\n", args.join(","));
                for &o in &ctx.block(bl).ops {
                    pr(ctx, o, num, ind + 1, s);
                }
            }
        }
    }
    let mut s = String::new();
    pr(ctx, root, &num, 0, &mut s);
    s
}

fn tt(ctx: &mut IrContext, i: usize) -> TypeRef {
    b::ty0(ctx, "test", &format!("t{i}"))
}
/// Builds the real IR of a model tree.
fn build(ctx: &mut IrContext, m: &M, root: usize) -> (OpRef, HashMap<usize, OpRef>) {
    let mut vals: HashMap<V, ValueRef> = HashMap::new();
    let mut ops: HashMap<usize, OpRef> = HashMap::new();
    // Create ops inner-first but in an order where operands exist: values come from earlier ops in
    // enclosing blocks, so blocks are created with ops appended as they come.
    fn op(ctx: &mut IrContext, m: &M, i: usize, vals: &mut HashMap<V, ValueRef>, ops: &mut HashMap<usize, OpRef>) -> OpRef {
        let n = &m.nodes[i];
        let mut regions = vec![];
        for &r in &n.regions {
            let mut bls = vec![];
            for &bl in &m.regions[r] {
                let tys: Vec<TypeRef> = m.blocks[bl].0.iter().map(|t| tt(ctx, *t)).collect();
                let rb = b::block(ctx, &tys);
                for (j, v) in ctx.block_args(rb).to_vec().into_iter().enumerate() {
                    vals.insert(V::A(bl, j), v);
                }
                for &o in &m.blocks[bl].1 {
                    let ro = op(ctx, m, o, vals, ops);
                    ctx.push_op(rb, ro);
                }
                bls.push(rb);
            }
            regions.push(b::region(ctx, &bls));
        }
        let results: Vec<TypeRef> = n.results.iter().map(|t| tt(ctx, *t)).collect();
        let mut attrs: Vec<(String, Attribute)> = vec![];
        if n.k != 0 {
            attrs.push(("k".into(), Attribute::Int(n.k as i128)));
        }
        if !n.label.is_empty() {
            attrs.push(("label".into(), Attribute::String(n.label.clone().into())));
        }
        if let Some((p, r)) = &n.sig {
            let rt = tt(ctx, *r);
            let ps: Vec<TypeRef> = p.iter().map(|t| tt(ctx, *t)).collect();
            let ft = b::fnty(ctx, rt, &ps);
            attrs.push(("type".into(), Attribute::Type(ft)));
        }
        for (k, v) in &n.extra {
            attrs.push((k.clone(), extra_attr(v)));
        }
        let operands = n.operands.iter().map(|v| vals[v]).collect();
        let ro = b::mk(ctx, &format!("{}.{}", n.d, n.n), O { operands, results, attrs, regions, ..O::default() });
        for (j, v) in ctx.op_results(ro).to_vec().into_iter().enumerate() {
            vals.insert(V::R(i, j), v);
        }
        ops.insert(i, ro);
        ro
    }
    let r = op(ctx, m, root, &mut vals, &mut ops);
    (r, ops)
}
/// Extra attributes are held in the model as the Debug text of these.
fn extra_attr(v: &str) -> Attribute {
    for a in extra_pool() {
        if format!("{a:?}") == v {
            return a;
        }
    }
    unreachable!("{v}")
}
fn extra_pool() -> Vec<Attribute> {
    let mut v: Vec<Attribute> = (0..8).map(|i| Attribute::Symbol(b::sym(&format!("f{i}")))).collect();
    v.push(Attribute::String("C".into()));
    v.push(Attribute::Int(7));
    v.push(Attribute::Unit);
    v.push(Attribute::Bool(true));
    v
}

// ---------------------------------------------------------------- generation

struct G<'a> {
    t: &'a mut Tape,
    m: M,
    budget: usize,
    next: usize,
}
impl G<'_> {
    fn block(&mut self, args: Vec<usize>, env: &mut Vec<V>, depth: usize, casts: bool) -> usize {
        self.m.blocks.push((args, vec![]));
        let bl = self.m.blocks.len() - 1;
        let mark = env.len();
        for i in 0..self.m.blocks[bl].0.len() {
            env.push(V::A(bl, i));
        }
        let n = 1 + self.t.upto(4);
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            self.op(bl, env, depth, casts);
        }
        env.truncate(mark);
        bl
    }
    fn args(&mut self) -> Vec<usize> {
        (0..self.t.upto(2)).map(|_| self.t.idx(NT)).collect()
    }
    fn op(&mut self, bl: usize, env: &mut Vec<V>, depth: usize, casts: bool) {
        let mut operands: Vec<V> = vec![];
        if !env.is_empty() {
            for _ in 0..self.t.upto(2) {
                let i = self.t.idx(env.len());
                operands.push(env[i]);
            }
        }
        if casts && !env.is_empty() && self.t.chance(1, 2) {
            let i = self.t.idx(env.len());
            let ty = self.t.idx(NT);
            let id = self.m.node("core", "unrealized_conversion_cast", 0, "", vec![env[i]], vec![ty], vec![]);
            self.m.push(bl, id);
            env.push(V::R(id, 0));
            return;
        }
        let mut regions = vec![];
        if depth < 3 && self.t.chance(1, 3) {
            for _ in 0..1 + self.t.upto(1) {
                let mut bls = vec![];
                for _ in 0..1 + self.t.upto(1) {
                    let a = self.args();
                    bls.push(self.block(a, env, depth + 1, casts));
                }
                self.m.regions.push(bls);
                regions.push(self.m.regions.len() - 1);
            }
        }
        let results: Vec<usize> = if self.t.chance(2, 3) { vec![self.t.idx(NT)] } else { vec![] };
        let d = *self.t.pick(&D);
        let n = *self.t.pick(&N);
        let k = self.t.idx(3) as i64;
        let label = format!("x{}", self.next);
        self.next += 1;
        let id = self.m.node(d, n, k, &label, operands, results.clone(), regions);
        self.m.push(bl, id);
        if !results.is_empty() {
            env.push(V::R(id, 0));
        }
    }
}

/// A module with functions and free-standing ops. Returns the model, its root and the functions.
fn gen_tree(t: &mut Tape, casts: bool) -> (M, usize, Vec<usize>) {
    let mut g = G { t, m: M::default(), budget: 24, next: 0 };
    g.m.blocks.push((vec![], vec![]));
    let top = 0;
    let mut funcs = vec![];
    let n = 1 + g.t.upto(3);
    for i in 0..n {
        if g.t.chance(2, 3) {
            let a = g.args();
            let mut env = vec![];
            let mut bls = vec![g.block(a.clone(), &mut env, 1, casts)];
            if g.t.chance(1, 4) {
                let a2 = g.args();
                bls.push(g.block(a2, &mut env, 1, casts));
            }
            g.m.regions.push(bls);
            let r = g.m.regions.len() - 1;
            let ret = g.t.idx(NT);
            let id = g.m.node("func", "func", 0, "", vec![], vec![], vec![r]);
            g.m.nodes[id].extra.push(("sym_name".into(), format!("{:?}", Attribute::Symbol(b::sym(&format!("f{i}"))))));
            g.m.nodes[id].sig = Some((a, ret));
            g.m.push(top, id);
            funcs.push(id);
        } else {
            let mut env = vec![];
            g.op(top, &mut env, 0, casts);
        }
    }
    g.m.regions.push(vec![top]);
    let r = g.m.regions.len() - 1;
    let root = g.m.node("core", "module", 0, "", vec![], vec![], vec![r]);
    let nm = format!("{:?}", Attribute::Symbol(b::sym("f7")));
    g.m.nodes[root].extra.push(("sym_name".into(), nm));
    (g.m, root, funcs)
}

// ---------------------------------------------------------------- conversion target

type Table = [u8; 3];
#[derive(Clone, Debug, Default)]
struct Target {
    dialects: BTreeMap<&'static str, bool>,
    ops: BTreeMap<(&'static str, &'static str), bool>,
    rec_static: Vec<(&'static str, &'static str)>,
    dyn_ops: BTreeMap<(&'static str, &'static str), Table>,
    rec_dyn: Vec<(&'static str, &'static str)>,
    dyn_dialects: BTreeMap<&'static str, Table>,
    dyn_unknown: Option<Table>,
}
fn dec(x: u8) -> LegalityDecision {
    match x {
        0 => LegalityDecision::Legal,
        1 => LegalityDecision::Illegal,
        _ => LegalityDecision::Defer,
    }
}
fn k_of(ctx: &IrContext, op: OpRef) -> usize {
    match ctx.op(op).attributes.get("k") {
        Some(Attribute::Int(x)) => *x as usize,
        _ => 0,
    }
}
fn gen_target(t: &mut Tape) -> Target {
    let mut g = Target::default();
    let tab = |t: &mut Tape| -> Table { [t.idx(3) as u8, t.idx(3) as u8, t.idx(3) as u8] };
    let all_d: [&'static str; 5] = ["da", "db", "dc", "func", "core"];
    for d in all_d {
        if t.chance(1, 3) {
            let l = t.bool();
            g.dialects.insert(d, l);
        }
        if t.chance(1, 5) {
            let x = tab(t);
            g.dyn_dialects.insert(d, x);
        }
    }
    let mut keys: Vec<(&'static str, &'static str)> = vec![("func", "func"), ("core", "unrealized_conversion_cast")];
    for d in D {
        for n in N {
            keys.push((d, n));
        }
    }
    for key in keys {
        if t.chance(1, 3) {
            let l = t.bool();
            g.ops.insert(key, l);
            if l && t.chance(1, 3) {
                g.rec_static.push(key);
            }
        }
        if t.chance(1, 5) {
            let x = tab(t);
            g.dyn_ops.insert(key, x);
            if t.chance(1, 3) {
                g.rec_dyn.push(key);
            }
        }
    }
    if t.chance(1, 4) {
        g.dyn_unknown = Some(tab(t));
    }
    if t.chance(1, 6) {
        // rules of a single kind
        let full = std::mem::take(&mut g);
        match t.idx(6) {
            0 => g.dyn_unknown = Some(full.dyn_unknown.unwrap_or_else(|| tab(t))),
            1 => g.dialects = full.dialects,
            2 => g.dyn_dialects = full.dyn_dialects,
            3 => g.ops = full.ops,
            4 => g.dyn_ops = full.dyn_ops,
            _ => {
                g.dyn_ops = full.dyn_ops;
                g.rec_dyn = full.rec_dyn;
            }
        }
    }
    g
}
fn real_target(g: &Target, builder: bool) -> ConversionTarget {
    let mut c = ConversionTarget::new();
    for (d, l) in &g.dialects {
        if builder {
            c = if *l { c.legal_dialect(d) } else { c.illegal_dialect(d) };
        } else if *l {
            c.add_legal_dialect(d)
        } else {
            c.add_illegal_dialect(d)
        }
    }
    for ((d, n), l) in &g.ops {
        if builder {
            c = if *l { c.legal_op(d, n) } else { c.illegal_op(d, n) };
        } else if *l {
            c.add_legal_op(d, n)
        } else {
            c.add_illegal_op(d, n)
        }
    }
    for (d, n) in &g.rec_static {
        if builder {
            c = c.recursive_legal_op(d, n);
        } else {
            c.add_recursive_legal_op(d, n);
        }
    }
    for ((d, n), x) in &g.dyn_ops {
        let x = *x;
        let f = move |ctx: &IrContext, op: OpRef| dec(x[k_of(ctx, op)]);
        if builder {
            c = c.dynamic_op(d, n, f);
        } else {
            c.add_dynamic_op(d, n, f);
        }
    }
    for (d, n) in &g.rec_dyn {
        if builder {
            c = c.recursive_dynamic_op(d, n);
        } else {
            c.add_recursive_dynamic_op(d, n);
        }
    }
    for (d, x) in &g.dyn_dialects {
        let x = *x;
        let f = move |ctx: &IrContext, op: OpRef| dec(x[k_of(ctx, op)]);
        if builder {
            c = c.dynamic_dialect(d, f);
        } else {
            c.add_dynamic_dialect(d, f);
        }
    }
    if let Some(x) = g.dyn_unknown {
        let f = move |ctx: &IrContext, op: OpRef| dec(x[k_of(ctx, op)]);
        if builder {
            c = c.dynamic_unknown(f);
        } else {
            c.add_dynamic_unknown(f);
        }
    }
    c
}
impl Target {
    fn legal(&self, n: &Node) -> LegalityCheck {
        let k = n.k as usize;
        let key = (n.d.as_str(), n.n.as_str());
        let conv = |l: bool| if l { LegalityCheck::Legal } else { LegalityCheck::Illegal };
        let dy = |x: &Table| match x[k] {
            0 => Some(LegalityCheck::Legal),
            1 => Some(LegalityCheck::Illegal),
            _ => None,
        };
        if let Some(c) = self.dyn_ops.get(&key).and_then(dy) {
            return c;
        }
        if let Some(l) = self.ops.get(&key) {
            return conv(*l);
        }
        if let Some(c) = self.dyn_dialects.get(key.0).and_then(dy) {
            return c;
        }
        if let Some(l) = self.dialects.get(key.0) {
            return conv(*l);
        }
        self.dyn_unknown.as_ref().and_then(dy).unwrap_or(LegalityCheck::Unknown)
    }
    fn rec(&self, n: &Node) -> bool {
        let key = (n.d.as_str(), n.n.as_str());
        let dynamic = self.rec_dyn.iter().any(|x| *x == key) && self.dyn_ops[&key][n.k as usize] == 0;
        dynamic || self.rec_static.iter().any(|x| *x == key) && self.legal(n) == LegalityCheck::Legal
    }
    fn failures(&self, m: &M, region: usize, full: bool, out: &mut Vec<String>) {
        for &bl in &m.regions[region] {
            for &o in &m.blocks[bl].1 {
                let n = &m.nodes[o];
                let l = self.legal(n);
                if l == LegalityCheck::Illegal || full && l == LegalityCheck::Unknown {
                    out.push(format!("{}.{} k{} '{}' {l:?}", n.d, n.n, n.k, n.label));
                }
                if !self.rec(n) {
                    for &r in &n.regions {
                        self.failures(m, r, full, out);
                    }
                }
            }
        }
    }
}
fn real_failures(ctx: &IrContext, v: &[IllegalOp]) -> Vec<String> {
    v.iter()
        .map(|f| {
            let o = ctx.op(f.op);
            let label = match o.attributes.get("label") {
                Some(Attribute::String(s)) => s.to_string(),
                _ => String::new(),
            };
            format!("{}.{} k{} '{label}' {:?}", f.dialect, f.name, k_of(ctx, f.op), f.legality)
        })
        .collect()
}
fn sorted(mut v: Vec<String>) -> Vec<String> {
    v.sort();
    v
}

fn legality(t: &mut Tape) -> CaseResult {
    let casts = t.bool();
    let (m, root, _) = gen_tree(t, casts);
    let g = gen_target(t);
    let mut ctx = IrContext::new();
    let (op, ops) = build(&mut ctx, &m, root);
    let text = format!("{}{g:?}", dump_model(&m, root));
    note(&text);
    let rt = real_target(&g, t.bool());
    for (i, o) in &ops {
        let (got, want) = (rt.is_legal(&ctx, *o), g.legal(&m.nodes[*i]));
        if got != want {
            return fail(format!("is_legal answered {got:?}, rules say {want:?}| {}.{} k{}", m.nodes[*i].d, m.nodes[*i].n, m.nodes[*i].k), text);
        }
        let (got, want) = (rt.is_recursively_legal(&ctx, *o), g.rec(&m.nodes[*i]));
        if got != want {
            return fail(format!("is_recursively_legal answered {got}, rules say {want}| {}.{} k{}", m.nodes[*i].d, m.nodes[*i].n, m.nodes[*i].k), text);
        }
    }
    let body = ctx.op(op).regions[0];
    let mut nf = 0;
    for full in [false, true] {
        let mut want = vec![];
        g.failures(&m, m.nodes[root].regions[0], full, &mut want);
        let v = if full { rt.verify_full(&ctx, body) } else { rt.verify(&ctx, body) };
        let got = real_failures(&ctx, &v);
        nf += want.len();
        if sorted(got.clone()) != sorted(want.clone()) {
            return fail(format!("verification (full={full}) reported the wrong operations| got {got:?} want {want:?}"), text);
        }
    }
    Ok(Case { key: hash_str(&text), nontrivial: nf > 1 && ops.len() > 4, render: text, tags: vec![] })
}

// ---------------------------------------------------------------- type maps

#[derive(Clone, Debug, Default)]
struct TyMap {
    fns: Vec<[Option<usize>; NT]>,
}
impl TyMap {
    fn conv(&self, t: usize) -> Option<usize> {
        self.fns.iter().find_map(|f| f[t])
    }
    fn or_id(&self, t: usize) -> usize {
        self.conv(t).unwrap_or(t)
    }
}
fn gen_map(t: &mut Tape) -> TyMap {
    let n = t.upto(2);
    let mut m = TyMap::default();
    for _ in 0..n {
        let mut f = [None; NT];
        for i in 0..NT {
            if t.chance(1, 3) {
                // mostly towards higher numbers, so that most maps settle
                f[i] = Some(if t.chance(1, 8) { t.idx(NT) } else { i + t.idx(NT - i) });
            }
        }
        m.fns.push(f);
    }
    m
}
fn real_map(ctx: &mut IrContext, m: &TyMap) -> TypeConverter {
    let mut tc = TypeConverter::new();
    let tys: Vec<TypeRef> = (0..NT).map(|i| tt(ctx, i)).collect();
    for f in &m.fns {
        let f = *f;
        let tys = tys.clone();
        tc.add_conversion(move |_, ty| {
            let i = tys.iter().position(|x| *x == ty)?;
            f[i].map(|j| tys[j])
        });
    }
    tc
}

// ---------------------------------------------------------------- scripted patterns

#[derive(Clone, Debug)]
enum Act {
    No,
    TrueNothing,
    Replace(&'static str, &'static str, i64),
    PrefixReplace(&'static str, &'static str, i64),
    PrefixOnly,
    ModuleReplace(&'static str, &'static str, i64),
    Erase,
    DropNext,
}
#[derive(Clone, Debug)]
struct Pat {
    d: Option<&'static str>,
    n: Option<&'static str>,
    k: Option<i64>,
    act: Act,
}
fn gen_pats(t: &mut Tape) -> Vec<Pat> {
    (0..t.upto(5))
        .map(|_| {
            let d = if t.chance(3, 4) { Some(*t.pick(&D)) } else { None };
            let n = if t.chance(3, 4) { Some(*t.pick(&N)) } else { None };
            let k = if t.chance(1, 3) { Some(t.idx(3) as i64) } else { None };
            let nd = *t.pick(&D);
            let nn = *t.pick(&N);
            let nk = t.idx(3) as i64;
            let act = match t.weighted(&[5, 3, 1, 2, 3, 1, 1, 2]) {
                0 => Act::Replace(nd, nn, nk),
                1 => Act::PrefixReplace(nd, nn, nk),
                2 => Act::PrefixOnly,
                3 => Act::ModuleReplace(nd, nn, nk),
                4 => Act::Erase,
                5 => Act::No,
                6 => Act::TrueNothing,
                _ => Act::DropNext,
            };
            Pat { d, n, k, act }
        })
        .collect()
}
impl RewritePattern for Pat {
    fn match_and_rewrite(&self, ctx: &mut IrContext, op: OpRef, rw: &mut PatternRewriter<'_>) -> bool {
        let (d, n, k) = (ctx.op(op).dialect.to_string(), ctx.op(op).name.to_string(), k_of(ctx, op) as i64);
        if !D.contains(&d.as_str()) || self.d.is_some_and(|x| x != d) || self.n.is_some_and(|x| x != n) || self.k.is_some_and(|x| x != k) {
            return false;
        }
        let label = match ctx.op(op).attributes.get("label") {
            Some(Attribute::String(s)) => s.to_string(),
            _ => String::new(),
        };
        let mk = |ctx: &mut IrContext, d: &str, n: &str, k: i64, label: String, operands: Vec<ValueRef>, results: Vec<TypeRef>, regions: Vec<RegionRef>| {
            let mut attrs = vec![];
            if k != 0 {
                attrs.push(("k".to_string(), Attribute::Int(k as i128)));
            }
            attrs.push(("label".into(), Attribute::String(label.into())));
            b::mk(ctx, &format!("{d}.{n}"), O { operands, results, attrs, regions, ..O::default() })
        };
        match &self.act {
            Act::No => false,
            Act::TrueNothing => true,
            Act::Replace(nd, nn, nk) | Act::PrefixReplace(nd, nn, nk) | Act::ModuleReplace(nd, nn, nk) => {
                let operands = ctx.op_operands(op).to_vec();
                let results = rw.result_types(ctx, op);
                for (i, r) in results.iter().enumerate() {
                    assert_eq!(rw.result_type(ctx, op, i), Some(*r), "result_type disagrees with result_types");
                }
                let regions: Vec<RegionRef> = ctx.op(op).regions.to_vec();
                for r in &regions {
                    ctx.detach_region(*r);
                }
                let new = mk(ctx, nd, nn, *nk, format!("{label}r"), operands.clone(), results, regions);
                match self.act {
                    Act::PrefixReplace(..) => {
                        let ty: Vec<TypeRef> = operands.iter().map(|v| rw.get_value_type(ctx, *v)).collect();
                        let p1 = mk(ctx, "dc", "o2", 2, format!("{label}p"), operands.clone(), ty.clone(), vec![]);
                        let v: Vec<ValueRef> = ctx.op_results(p1).to_vec();
                        let p2 = mk(ctx, "db", "o2", 1, format!("{label}q"), v, vec![], vec![]);
                        if k == 0 {
                            rw.insert_op(p1);
                            rw.insert_op(p2);
                            rw.replace_op(new);
                        } else {
                            rw.replace_with_prefix(vec![p1, p2], new);
                        }
                    }
                    Act::ModuleReplace(..) => {
                        let mo = mk(ctx, "da", "o2", 1, format!("{label}m"), vec![], vec![], vec![]);
                        rw.add_module_op(mo);
                        rw.replace_op(new);
                    }
                    _ => rw.replace_op(new),
                }
                true
            }
            Act::PrefixOnly => {
                let p = mk(ctx, "dc", "o1", 0, "po".into(), vec![], vec![], vec![]);
                rw.insert_op(p);
                true
            }
            Act::Erase => {
                if !ctx.op(op).regions.is_empty() {
                    return false;
                }
                if ctx.op_results(op).is_empty() {
                    rw.erase_op(vec![]);
                    true
                } else if let Some(v) = ctx.op_operands(op).first().copied() {
                    rw.erase_op(vec![v; ctx.op_results(op).len()]);
                    true
                } else {
                    false
                }
            }
            Act::DropNext => {
                let bl = ctx.op(op).parent_block.unwrap();
                let ops = ctx.block(bl).ops.to_vec();
                let i = ops.iter().position(|x| *x == op).unwrap();
                let Some(next) = ops.get(i + 1).copied() else { return false };
                if ctx.op_results(next).iter().any(|v| !ctx.uses(*v).is_empty()) || ctx.op(next).dialect == Symbol::new("func") || !ctx.op(next).regions.is_empty() {
                    return false;
                }
                trunk_ir::rewrite::erase_op(ctx, next);
                let p = mk(ctx, "dc", "o0", 0, format!("{label}d"), vec![], vec![], vec![]);
                rw.insert_op(p);
                true
            }
        }
    }
    fn name(&self) -> &'static str {
        "Pat"
    }
}

struct Sim {
    m: M,
    target: Target,
    map: TyMap,
    auto: bool,
    pats: Vec<Pat>,
    module_block: Option<usize>,
}
impl Sim {
    fn region(&mut self, r: usize) -> usize {
        let mut c = 0;
        for bl in self.m.regions[r].clone() {
            c += self.block(bl);
        }
        c
    }
    fn block(&mut self, bl: usize) -> usize {
        let mut c = 0;
        if self.auto {
            for i in 0..self.m.blocks[bl].0.len() {
                let t = self.m.blocks[bl].0[i];
                if let Some(x) = self.map.conv(t)
                    && x != t
                {
                    self.m.blocks[bl].0[i] = x;
                    c += 1;
                }
            }
        }
        for op in self.m.blocks[bl].1.clone() {
            if self.m.nodes[op].parent != Some(bl) || self.target.rec(&self.m.nodes[op]) {
                continue;
            }
            for r in self.m.nodes[op].regions.clone() {
                c += self.region(r);
            }
            if self.m.nodes[op].parent != Some(bl) {
                continue;
            }
            if self.target.legal(&self.m.nodes[op]) == LegalityCheck::Legal {
                continue;
            }
            if self.auto && self.m.nodes[op].n != "unrealized_conversion_cast" {
                for i in 0..self.m.nodes[op].operands.len() {
                    let v = self.m.nodes[op].operands[i];
                    let t = self.m.ty(v);
                    if let Some(x) = self.map.conv(t)
                        && x != t
                    {
                        let id = self.m.node("core", "unrealized_conversion_cast", 0, "", vec![v], vec![x], vec![]);
                        self.m.before(bl, op, id);
                        self.m.nodes[op].operands[i] = V::R(id, 0);
                        c += 1;
                    }
                }
            }
            for p in self.pats.clone() {
                if self.apply(bl, op, &p) {
                    c += 1;
                    break;
                }
            }
        }
        c
    }
    fn apply(&mut self, bl: usize, op: usize, p: &Pat) -> bool {
        let n = self.m.nodes[op].clone();
        if !D.contains(&n.d.as_str()) || p.d.is_some_and(|x| x != n.d) || p.n.is_some_and(|x| x != n.n) || p.k.is_some_and(|x| x != n.k) {
            return false;
        }
        match &p.act {
            Act::No | Act::TrueNothing => false,
            Act::Replace(d, nn, k) | Act::PrefixReplace(d, nn, k) | Act::ModuleReplace(d, nn, k) => {
                let results = n.results.iter().map(|t| self.map.or_id(*t)).collect();
                self.m.nodes[op].regions.clear();
                let new = self.m.node(d, nn, *k, &format!("{}r", n.label), n.operands.clone(), results, n.regions.clone());
                match p.act {
                    Act::PrefixReplace(..) => {
                        let ty: Vec<usize> = n.operands.iter().map(|v| self.map.or_id(self.m.ty(*v))).collect();
                        let p1 = self.m.node("dc", "o2", 2, &format!("{}p", n.label), n.operands.clone(), ty.clone(), vec![]);
                        let p2 = self.m.node("db", "o2", 1, &format!("{}q", n.label), (0..ty.len()).map(|i| V::R(p1, i)).collect(), vec![], vec![]);
                        self.m.before(bl, op, p1);
                        self.m.before(bl, op, p2);
                    }
                    Act::ModuleReplace(..) => {
                        if let Some(mb) = self.module_block {
                            let mo = self.m.node("da", "o2", 1, &format!("{}m", n.label), vec![], vec![], vec![]);
                            self.m.push(mb, mo);
                        }
                    }
                    _ => {}
                }
                for i in 0..n.results.len() {
                    self.m.rauw(V::R(op, i), V::R(new, i));
                }
                self.m.before(bl, op, new);
                self.m.detach(op);
                self.m.nodes[op].operands.clear();
                true
            }
            Act::PrefixOnly => {
                let p = self.m.node("dc", "o1", 0, "po", vec![], vec![], vec![]);
                self.m.before(bl, op, p);
                true
            }
            Act::Erase => {
                if !n.regions.is_empty() || !n.results.is_empty() && n.operands.is_empty() {
                    return false;
                }
                for i in 0..n.results.len() {
                    self.m.rauw(V::R(op, i), n.operands[0]);
                }
                self.m.detach(op);
                self.m.nodes[op].operands.clear();
                true
            }
            Act::DropNext => {
                let ops = &self.m.blocks[bl].1;
                let i = ops.iter().position(|x| *x == op).unwrap();
                let Some(&next) = ops.get(i + 1) else { return false };
                let x = &self.m.nodes[next];
                if (0..x.results.len()).any(|i| self.m.used(V::R(next, i))) || x.d == "func" || !x.regions.is_empty() {
                    return false;
                }
                self.m.detach(next);
                self.m.nodes[next].operands.clear();
                let p = self.m.node("dc", "o0", 0, &format!("{}d", n.label), vec![], vec![], vec![]);
                self.m.before(bl, op, p);
                true
            }
        }
    }
}

fn applicator(t: &mut Tape) -> CaseResult {
    let (m, root, funcs) = gen_tree(t, false);
    let target = if t.chance(1, 3) { Target::default() } else { gen_target(t) };
    let map = if t.bool() { gen_map(t) } else { TyMap::default() };
    let auto = t.bool();
    run_applicator(t, m, root, funcs, target, map, auto)
}
fn auto_types(t: &mut Tape) -> CaseResult {
    let casts = t.chance(1, 3);
    let (m, root, funcs) = gen_tree(t, casts);
    let target = if t.bool() { Target::default() } else { gen_target(t) };
    let map = gen_map(t);
    run_applicator(t, m, root, funcs, target, map, true)
}
fn run_applicator(t: &mut Tape, m: M, root: usize, funcs: Vec<usize>, target: Target, map: TyMap, auto: bool) -> CaseResult {
    let pats = gen_pats(t);
    let max = *t.pick(&[10usize, 1, 2, 3, 5]);
    let scope = if !funcs.is_empty() && t.chance(1, 4) { Some(funcs[t.idx(funcs.len())]) } else { None };
    let mode = t.idx(3);
    let mut ctx = IrContext::new();
    let (op, ops) = build(&mut ctx, &m, root);
    let text = format!("{}{target:?}\n{map:?} auto={auto} max={max} scope={scope:?} mode={mode}\n{pats:?}", dump_model(&m, root));
    note(&text);
    // model
    let region = match scope {
        Some(f) => m.nodes[f].regions[0],
        None => m.nodes[root].regions[0],
    };
    let mut sim = Sim { m, target: target.clone(), map: map.clone(), auto, pats: pats.clone(), module_block: if scope.is_none() { Some(0) } else { None } };
    let (mut iters, mut total, mut fix) = (0, 0, false);
    for _ in 0..max {
        iters += 1;
        let c = sim.region(region);
        total += c;
        if sim.m.nodes.len() > 400 {
            // rewriting grows without bound: not worth simulating
            return Ok(Case { key: hash_str(&text), nontrivial: false, render: text, tags: vec!["growing".into()] });
        }
        if c == 0 {
            fix = true;
            break;
        }
    }
    // real
    let tc = real_map(&mut ctx, &map);
    let mut app = PatternApplicator::new(tc).with_target(real_target(&target, t.bool())).with_auto_type_conversion(auto);
    if max != 10 {
        app = app.with_max_iterations(max);
    }
    for p in &pats {
        app = if t.bool() { app.add_pattern(p.clone()) } else { app.add_pattern_box(Box::new(p.clone())) };
    }
    const B: &str = "boundary";
    let go = |ctx: &mut IrContext| -> Result<ApplyResult, ConversionError> {
        macro_rules! run {
            ($s:expr) => {
                match mode {
                    0 => Ok(app.apply_partial(ctx, $s)),
                    1 => app.apply_partial_conversion(ctx, $s, B),
                    _ => app.apply_full_conversion(ctx, $s, B),
                }
            };
        }
        match scope {
            Some(f) => run!(func::Func::from_op(ctx, ops[&f]).unwrap()),
            None => run!(Module::new(ctx, op).unwrap()),
        }
    };
    let r = go(&mut ctx);
    let (want, got) = (dump_model(&sim.m, root), dump_real(&ctx, op));
    if want != got {
        return fail("the applicator did not do what the rules say|", format!("{text}\nWANT\n{want}GOT\n{got}"));
    }
    if let Err(e) = crate::passes::wf_links(&ctx, op) {
        return fail(format!("inconsistent IR after the applicator| {e}"), text);
    }
    let mut bad = vec![];
    if mode > 0 {
        sim.target.failures(&sim.m, region, mode == 2, &mut bad);
    }
    match r {
        Ok(a) => {
            if !bad.is_empty() {
                return fail(format!("conversion succeeded with illegal operations left| {bad:?}"), text);
            }
            if (a.iterations, a.total_changes, a.reached_fixpoint) != (iters, total, fix) {
                return fail(format!("wrong summary| got {:?} want {:?}", (a.iterations, a.total_changes, a.reached_fixpoint), (iters, total, fix)), text);
            }
        }
        Err(e) => {
            let got = real_failures(&ctx, e.operations());
            if sorted(got.clone()) != sorted(bad.clone()) || e.boundary() != B {
                return fail(format!("wrong conversion error| got {got:?} at {} want {bad:?}", e.boundary()), text);
            }
        }
    }
    Ok(Case { key: hash_str(&text), nontrivial: total > 2, render: text, tags: if fix { vec![] } else { vec!["no-fixpoint".into()] } })
}

// ---------------------------------------------------------------- signatures

fn signatures(t: &mut Tape) -> CaseResult {
    let mut m = M::default();
    m.blocks.push((vec![], vec![]));
    let map = {
        let mut x = gen_map(t);
        if x.fns.is_empty() {
            x = gen_map(t);
        }
        x
    };
    let wasm_too = t.bool();
    let extra = extra_pool();
    let nf = 1 + t.upto(3);
    let mut containers = vec![0usize];
    for i in 0..nf {
        if t.chance(1, 5) {
            // a nested module
            m.blocks.push((vec![], vec![]));
            let nb = m.blocks.len() - 1;
            m.regions.push(vec![nb]);
            let r = m.regions.len() - 1;
            let id = m.node("core", "module", 0, "", vec![], vec![], vec![r]);
            m.nodes[id].extra.push(("sym_name".into(), format!("{:?}", extra[i])));
            let c = containers[t.idx(containers.len())];
            m.push(c, id);
            containers.push(nb);
        }
        let wasm = t.chance(1, 3);
        let params: Vec<usize> = (0..t.upto(3)).map(|_| t.idx(NT)).collect();
        let ret = t.idx(NT);
        let mut regions = vec![];
        let body = t.chance(4, 5);
        if body {
            let mut args = params.clone();
            if t.chance(1, 8) {
                args.push(0); // arity mismatch: must be left alone
            }
            m.blocks.push((args.clone(), vec![]));
            let e = m.blocks.len() - 1;
            let mut bls = vec![e];
            for _ in 0..1 + t.upto(2) {
                let operands: Vec<V> = (0..args.len()).filter(|_| t.bool()).map(|j| V::A(e, j)).collect();
                let rt = t.idx(NT);
                let id = m.node("da", "o0", 0, "u", operands, vec![rt], vec![]);
                m.push(e, id);
            }
            if t.chance(1, 3) {
                m.blocks.push((params.clone(), vec![]));
                bls.push(m.blocks.len() - 1);
            }
            m.regions.push(bls);
            regions.push(m.regions.len() - 1);
        }
        let id = m.node(if wasm { "wasm" } else { "func" }, "func", 0, "", vec![], vec![], regions);
        m.nodes[id].sig = Some((params, ret));
        m.nodes[id].extra.push(("sym_name".into(), format!("{:?}", extra[i])));
        for (j, key) in ["abi", "export", "inline", "zz"].iter().enumerate() {
            if t.chance(1, 3) {
                let a = format!("{:?}", extra[8 + j]);
                m.nodes[id].extra.push((key.to_string(), a));
            }
        }
        let c = containers[t.idx(containers.len())];
        m.push(c, id);
    }
    m.regions.push(vec![0]);
    let r = m.regions.len() - 1;
    let root = m.node("core", "module", 0, "", vec![], vec![], vec![r]);
    m.nodes[root].extra.push(("sym_name".into(), format!("{:?}", extra[7])));
    let mut ctx = IrContext::new();
    let (op, _) = build(&mut ctx, &m, root);
    let text = format!("{}{map:?} wasm={wasm_too}", dump_model(&m, root));
    note(&text);
    // model: repeat the map at most ten times
    let mut changed = 0;
    let mut w = m.clone();
    for f in 0..w.nodes.len() {
        if w.nodes[f].n != "func" || w.nodes[f].d == "wasm" && !wasm_too {
            continue;
        }
        for _ in 0..10 {
            let (p, r) = w.nodes[f].sig.clone().unwrap();
            let np: Vec<usize> = p.iter().map(|x| map.or_id(*x)).collect();
            let nr = map.or_id(r);
            if np == p && nr == r {
                break;
            }
            if np != p
                && let Some(&rg) = w.nodes[f].regions.first()
            {
                let e = w.regions[rg][0];
                if w.blocks[e].0.len() != np.len() {
                    break;
                }
                w.blocks[e].0 = np.clone();
            }
            w.nodes[f].sig = Some((np, nr));
            changed += 1;
        }
    }
    let tc = real_map(&mut ctx, &map);
    let mut app = PatternApplicator::new(tc).add_pattern(FuncSignatureConversionPattern);
    if wasm_too {
        app = app.add_pattern(WasmFuncSignatureConversionPattern);
    }
    let module = Module::new(&ctx, op).unwrap();
    app.apply_partial(&mut ctx, module);
    let (want, got) = (dump_model(&w, root), dump_real(&ctx, op));
    if want != got {
        return fail("signature conversion did not convert exactly the declared types|", format!("{text}\nWANT\n{want}GOT\n{got}"));
    }
    if let Err(e) = crate::passes::wf_links(&ctx, op) {
        return fail(format!("inconsistent IR after signature conversion| {e}"), text);
    }
    Ok(Case { key: hash_str(&text), nontrivial: changed > 0, render: text, tags: vec![] })
}

// ---------------------------------------------------------------- casts

fn casts(t: &mut Tape) -> CaseResult {
    let (m, root, _) = gen_tree(t, true);
    let map = gen_map(t);
    // materializer: pairs it can convert, with 0, 1 or 2 operations
    let mut table = [[None::<u8>; NT]; NT];
    for row in table.iter_mut() {
        for c in row.iter_mut() {
            if t.chance(3, 5) {
                *c = Some(t.idx(3) as u8);
            }
        }
    }
    let with_mat = t.chance(7, 8);
    let mut ctx = IrContext::new();
    let (op, _) = build(&mut ctx, &m, root);
    let text = format!("{}{map:?} mat={with_mat} {table:?}", dump_model(&m, root));
    note(&text);
    // model
    let mut w = m.clone();
    let mut resolved = 0;
    let mut unresolved: Vec<(usize, usize)> = vec![];
    fn go(w: &mut M, r: usize, map: &TyMap, table: &[[Option<u8>; NT]; NT], with: bool, resolved: &mut usize, un: &mut Vec<(usize, usize)>) {
        for bl in w.regions[r].clone() {
            for op in w.blocks[bl].1.clone() {
                if w.nodes[op].n != "unrealized_conversion_cast" {
                    for r in w.nodes[op].regions.clone() {
                        go(w, r, map, table, with, resolved, un);
                    }
                    continue;
                }
                let v = w.nodes[op].operands[0];
                let to = map.or_id(w.nodes[op].results[0]);
                let from = w.ty(v);
                let value = if from == to {
                    Some(v)
                } else if with && let Some(n) = table[from][to] {
                    let mut x = v;
                    for i in 0..n {
                        let id = w.node("mat", "cast", i as i64, &format!("{from}-{to}"), vec![x], vec![to], vec![]);
                        w.before(bl, op, id);
                        x = V::R(id, 0);
                    }
                    Some(x)
                } else {
                    None
                };
                match value {
                    Some(x) => {
                        w.rauw(V::R(op, 0), x);
                        w.detach(op);
                        w.nodes[op].operands.clear();
                        *resolved += 1;
                    }
                    None => un.push((from, to)),
                }
            }
        }
    }
    go(&mut w, m.nodes[root].regions[0], &map, &table, with_mat, &mut resolved, &mut unresolved);
    let mut tc = real_map(&mut ctx, &map);
    let tys: Rc<Vec<TypeRef>> = Rc::new((0..NT).map(|i| tt(&mut ctx, i)).collect());
    if with_mat {
        let ty = tys.clone();
        tc.set_materializer(move |ctx, _loc, v, from, to| {
            let i = ty.iter().position(|x| *x == from)?;
            let j = ty.iter().position(|x| *x == to)?;
            let n = table[i][j]?;
            let mut ops = vec![];
            let mut x = v;
            for k in 0..n {
                let mut attrs = vec![];
                if k != 0 {
                    attrs.push(("k".to_string(), Attribute::Int(k as i128)));
                }
                attrs.push(("label".into(), Attribute::String(format!("{i}-{j}").into())));
                let o = b::mk(ctx, "mat.cast", O { operands: vec![x], results: vec![to], attrs, ..O::default() });
                x = ctx.op_result(o, 0);
                ops.push(o);
            }
            Some(trunk_ir::rewrite::type_converter::MaterializeResult { value: x, ops })
        });
    }
    let module = Module::new(&ctx, op).unwrap();
    let r = trunk_ir::conversion::resolve_unrealized_casts(&mut ctx, module, &tc);
    let (want, got) = (dump_model(&w, root), dump_real(&ctx, op));
    if want != got {
        return fail("cast resolution produced the wrong IR|", format!("{text}\nWANT\n{want}GOT\n{got}"));
    }
    let mut gu: Vec<(usize, usize)> = r.unresolved.iter().map(|u| (tys.iter().position(|x| *x == u.from_type).unwrap_or(99), tys.iter().position(|x| *x == u.to_type).unwrap_or(99))).collect();
    gu.sort();
    let n_un = unresolved.len();
    unresolved.sort();
    if r.resolved_count != resolved || gu != unresolved {
        return fail(format!("wrong cast resolution summary| resolved {} want {resolved}; unresolved {gu:?} want {unresolved:?}", r.resolved_count), text);
    }
    if let Err(e) = crate::passes::wf_links(&ctx, op) {
        return fail(format!("inconsistent IR after cast resolution| {e}"), text);
    }
    Ok(Case { key: hash_str(&text), nontrivial: resolved + n_un > 1, render: text, tags: if n_un > 0 { vec!["unresolved".into()] } else { vec![] } })
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C09",
            lanes: vec![
                Lane { name: "legality", rule: "random op tree and target (static, dynamic and recursive rules at op, dialect and fallback tier); non-trivial: at least two failing verdicts and five ops", quick: 80_000, thorough: 3_000_000, threads: 0, run: legality },
                Lane { name: "applicator", rule: "random op tree, target, type map, scope and 0-5 scripted patterns (replace, prefix, erase, module ops, erase a sibling); final IR, summary and error against a model; non-trivial: at least three changes", quick: 80_000, thorough: 3_000_000, threads: 0, run: applicator },
            ],
            assumptions: vec!["patterns report every change they make through the rewriter, as the applicator's documentation asks"],
            sweeps: vec![],
        },
        Property {
            id: "C10",
            lanes: vec![
                Lane { name: "auto-types", rule: "random op tree with automatic block-argument and operand conversion under a random type map; non-trivial: at least three changes", quick: 60_000, thorough: 2_000_000, threads: 0, run: auto_types },
                Lane { name: "signatures", rule: "random func.func and wasm.func definitions and declarations, nested modules, random type map; non-trivial: at least one signature changed", quick: 60_000, thorough: 2_000_000, threads: 0, run: signatures },
                Lane { name: "casts", rule: "random nested casts and cast chains, random type map and partial materializer; non-trivial: at least two casts decided", quick: 60_000, thorough: 2_000_000, threads: 0, run: casts },
            ],
            assumptions: vec![],
            sweeps: vec![],
        },
    ]
}
