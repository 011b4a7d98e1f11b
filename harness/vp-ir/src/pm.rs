//! C11: pass manager dispatch against a model of the documented order and hook rules.
use engine::*;
use irkit::b::{self, O};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;
use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core, func, scf};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::*;
use trunk_ir::refs::*;
use trunk_ir::types::Attribute;

const NAMES: [&str; 16] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11", "p12", "p13", "p14", "p15"];

#[derive(Clone, Copy, PartialEq, Debug)]
enum Kind {
    Module,
    Func,
    If,
}
#[derive(Clone, Debug)]
enum Act {
    Nop,
    Fail,
    EraseSelf,
    Erase(usize),
    Add,
}
#[derive(Clone, Debug)]
struct Mgr {
    kind: Kind,
    id: usize,
    passes: Vec<usize>,
    nested: Vec<Mgr>,
    ver: bool,
    inst: bool,
}
#[derive(Clone, Debug)]
struct Node {
    kind: Kind,
    name: String,
    parent: Option<usize>,
    kids: Vec<usize>,
}
type Script = BTreeMap<(usize, usize), Act>;
type VScript = BTreeMap<(usize, usize, usize), ()>;

fn gen_mgr(t: &mut Tape, kind: Kind, depth: usize, next_pass: &mut usize, next_mgr: &mut usize) -> Mgr {
    let id = *next_mgr;
    *next_mgr += 1;
    let mut passes = vec![];
    for _ in 0..t.upto(3) {
        if *next_pass < NAMES.len() {
            passes.push(*next_pass);
            *next_pass += 1;
        }
    }
    let mut nested = vec![];
    if depth < 3 {
        for _ in 0..t.upto(2) {
            let k = *t.pick(&[Kind::Func, Kind::Func, Kind::Func, Kind::Module, Kind::If]);
            nested.push(gen_mgr(t, k, depth + 1, next_pass, next_mgr));
        }
    }
    Mgr { kind, id, passes, nested, ver: t.chance(1, 3), inst: t.chance(1, 3) }
}

struct Model {
    nodes: Vec<Node>,
    log: Vec<String>,
    script: Script,
    vscript: VScript,
}
impl Model {
    fn attached(&self, n: usize, root: usize) -> bool {
        let mut c = n;
        while c != root {
            match self.nodes[c].parent {
                Some(p) => c = p,
                None => return false,
            }
        }
        true
    }
    fn erase(&mut self, n: usize) {
        if let Some(p) = self.nodes[n].parent.take() {
            self.nodes[p].kids.retain(|k| *k != n);
        }
    }
    fn collect(&self, n: usize, k: Kind, out: &mut Vec<usize>) {
        if self.nodes[n].kind == k {
            out.push(n);
        }
        for c in &self.nodes[n].kids {
            self.collect(*c, k, out);
        }
    }
    fn run(&mut self, m: &Mgr, target: usize, ver: Option<usize>, inst: Option<usize>) -> Result<(), String> {
        let ver = if m.ver { Some(m.id) } else { ver };
        let inst = if m.inst { Some(m.id) } else { inst };
        let pre = self.nodes[target].parent.is_some();
        for p in &m.passes {
            self.log.push(format!("run {} on {}", NAMES[*p], self.nodes[target].name));
            match self.script.get(&(*p, target)).cloned().unwrap_or(Act::Nop) {
                Act::Nop => {}
                Act::Fail => return Err(format!("{} exec", NAMES[*p])),
                Act::EraseSelf => {
                    if pre {
                        self.erase(target)
                    }
                }
                Act::Erase(k) => {
                    if self.attached(k, 0) && k != 0 {
                        self.erase(k)
                    }
                }
                Act::Add => self.add(target, *p),
            }
            if pre && self.nodes[target].parent.is_none() {
                return Ok(());
            }
            if let Some(i) = inst {
                self.log.push(format!("inst m{i} {} {}", NAMES[*p], self.nodes[target].name));
            }
            if let Some(v) = ver {
                self.log.push(format!("verify m{v} {}", self.nodes[target].name));
                if self.vscript.contains_key(&(v, *p, target)) {
                    return Err(format!("{} verify", NAMES[*p]));
                }
            }
        }
        for n in &m.nested {
            let mut ts = vec![];
            self.collect(target, n.kind, &mut ts);
            for x in ts {
                if !self.attached(x, target) {
                    continue;
                }
                if n.kind == Kind::If {
                    return Err("nested-pass-manager verify".into());
                }
                self.run(n, x, ver, inst)?;
            }
        }
        Ok(())
    }
    /// append a function to the module enclosing (or being) `target`
    fn add(&mut self, target: usize, p: usize) {
        let mut c = target;
        while self.nodes[c].kind != Kind::Module {
            match self.nodes[c].parent {
                Some(x) => c = x,
                None => return,
            }
        }
        let id = self.nodes.len();
        self.nodes.push(Node { kind: Kind::Func, name: format!("add{p}_{target}"), parent: Some(c), kids: vec![] });
        self.nodes[c].kids.push(id);
    }
}

struct World {
    log: RefCell<Vec<String>>,
    script: Script,
    vscript: VScript,
    by_name: RefCell<BTreeMap<String, usize>>,
    ops: RefCell<Vec<OpRef>>,
    cur_pass: RefCell<usize>,
}
fn name_of(ctx: &IrContext, o: OpRef) -> String {
    ctx.op(o).attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_else(|| "?".into())
}
fn within(ctx: &IrContext, o: OpRef, root: OpRef) -> bool {
    let mut c = o;
    while c != root {
        match ctx.op(c).parent_block.and_then(|bl| ctx.block(bl).parent_region).and_then(|r| ctx.region(r).parent_op) {
            Some(p) => c = p,
            None => return false,
        }
    }
    true
}
fn act(w: &World, p: usize, ctx: &mut IrContext, op: OpRef) -> PassRunResult {
    let name = name_of(ctx, op);
    w.log.borrow_mut().push(format!("run {} on {name}", NAMES[p]));
    *w.cur_pass.borrow_mut() = p;
    let node = w.by_name.borrow()[&name];
    let root = w.ops.borrow()[0];
    match w.script.get(&(p, node)).cloned().unwrap_or(Act::Nop) {
        Act::Nop => {}
        Act::Fail => return Err("scripted".into()),
        Act::EraseSelf => {
            if ctx.op(op).parent_block.is_some() {
                trunk_ir::rewrite::erase_op(ctx, op);
            }
        }
        Act::Erase(k) => {
            let o = w.ops.borrow()[k];
            if k != 0 && within(ctx, o, root) {
                trunk_ir::rewrite::erase_op(ctx, o);
            }
        }
        Act::Add => {
            let mut c = op;
            loop {
                if ctx.op(c).name == b::sym("module") {
                    break;
                }
                match ctx.op(c).parent_block.and_then(|bl| ctx.block(bl).parent_region).and_then(|r| ctx.region(r).parent_op) {
                    Some(x) => c = x,
                    None => return Ok(()),
                }
            }
            let nm = format!("add{p}_{node}");
            let nil = b::core(ctx, "nil");
            let blk = b::block(ctx, &[]);
            b::put0(ctx, blk, "func.return", &[], &[], &[]);
            let rg = b::region(ctx, &[blk]);
            let f = b::func(ctx, &nm, nil, &[], Some(rg), &[]);
            let mb = ctx.region(ctx.op(c).regions[0]).blocks[0];
            ctx.push_op(mb, f);
            let id = w.ops.borrow().len();
            w.ops.borrow_mut().push(f);
            w.by_name.borrow_mut().insert(nm, id);
        }
    }
    Ok(())
}
fn install<T: DialectOp + 'static>(pm: &mut PassManager<T>, m: &Mgr, w: &Rc<World>) {
    // hooks and nested managers may be registered before or after passes: the order between them does not matter
    for p in &m.passes {
        let (p, w) = (*p, w.clone());
        pm.add_pass(pass_fn::<T, _>(NAMES[p], move |ctx: &mut IrContext, t: T| act(&w, p, ctx, t.op_ref())));
    }
    if m.inst {
        let (w, id) = (w.clone(), m.id);
        pm.with_instrumentation(move |ctx, n, op| w.log.borrow_mut().push(format!("inst m{id} {n} {}", name_of(ctx, op))));
    }
    if m.ver {
        let (w, id) = (w.clone(), m.id);
        pm.with_verifier(move |ctx, op| {
            let nm = name_of(ctx, op);
            w.log.borrow_mut().push(format!("verify m{id} {nm}"));
            let node = w.by_name.borrow()[&nm];
            if w.vscript.contains_key(&(id, *w.cur_pass.borrow(), node)) { Err(VerifyError { message: "scripted".into() }) } else { Ok(()) }
        });
    }
    for n in &m.nested {
        match n.kind {
            Kind::Func => install(pm.nest::<func::Func>(), n, w),
            Kind::Module => install(pm.nest::<core::Module>(), n, w),
            Kind::If => install(pm.nest::<scf::If>(), n, w),
        }
    }
}

fn build(t: &mut Tape, ctx: &mut IrContext, nodes: &mut Vec<Node>, ops: &mut Vec<OpRef>, kind: Kind, parent: Option<usize>, depth: usize) -> usize {
    let id = nodes.len();
    nodes.push(Node { kind, name: format!("n{id}"), parent, kids: vec![] });
    ops.push(OpRef::from_u32(0));
    let blk = b::block(ctx, &[]);
    let nk = if kind == Kind::Module { 1 + t.upto(3) } else { 0 };
    for _ in 0..nk {
        let k = if depth < 2 && t.chance(1, 4) { Kind::Module } else { Kind::Func };
        let c = build(t, ctx, nodes, ops, k, Some(id), depth + 1);
        nodes[id].kids.push(c);
        ctx.push_op(blk, ops[c]);
    }
    let nil = b::core(ctx, "nil");
    let op = if kind == Kind::Module {
        let r = b::region(ctx, &[blk]);
        b::mk(ctx, "core.module", O { attrs: vec![("sym_name".into(), Attribute::Symbol(b::sym(&nodes[id].name)))], regions: vec![r], ..O::default() })
    } else {
        if t.chance(1, 6) {
            // a structured op, which may not anchor a nested manager
            let i1 = b::core(ctx, "i1");
            let c = b::put1(ctx, blk, "arith.const", &[], i1, &[("value", Attribute::Int(1))]);
            let mut rs = vec![];
            for _ in 0..2 {
                let bb = b::block(ctx, &[]);
                b::put0(ctx, bb, "scf.yield", &[], &[], &[]);
                rs.push(b::region(ctx, &[bb]));
            }
            let iid = nodes.len();
            nodes.push(Node { kind: Kind::If, name: format!("n{iid}"), parent: Some(id), kids: vec![] });
            nodes[id].kids.push(iid);
            let o = b::put(ctx, blk, "scf.if", O { operands: vec![c], regions: rs, attrs: vec![("sym_name".into(), Attribute::Symbol(b::sym(&format!("n{iid}"))))], ..O::default() });
            ops.push(o);
        }
        b::put0(ctx, blk, "func.return", &[], &[], &[]);
        let r = b::region(ctx, &[blk]);
        b::func(ctx, &nodes[id].name.clone(), nil, &[], Some(r), &[])
    };
    ops[id] = op;
    id
}

fn dispatch(t: &mut Tape) -> Result<Case, Failure> {
    let mut ctx = IrContext::new();
    let (mut nodes, mut ops) = (vec![], vec![]);
    build(t, &mut ctx, &mut nodes, &mut ops, Kind::Module, None, 0);
    let (mut np, mut nm) = (0, 0);
    let root = gen_mgr(t, Kind::Module, 0, &mut np, &mut nm);
    let mut script = Script::new();
    let mut vscript = VScript::new();
    if np > 0 {
        for _ in 0..t.upto(5) {
            let p = t.idx(np);
            let n = t.idx(nodes.len());
            let a = match t.weighted(&[2, 2, 4, 2]) {
                0 => Act::Fail,
                1 => Act::EraseSelf,
                2 => Act::Erase(t.idx(nodes.len())),
                _ => Act::Add,
            };
            // an scf.if is never a target; erasing it inside a function is fine
            script.insert((p, n), a);
        }
        for _ in 0..t.upto(2) {
            vscript.insert((t.idx(nm), t.idx(np), t.idx(nodes.len())), ());
        }
    }
    let render = format!("tree {nodes:?}\nmanager {root:?}\nscript {script:?}\nverifier failures {vscript:?}");
    note(&render);
    let mut model = Model { nodes: nodes.clone(), log: vec![], script: script.clone(), vscript: vscript.clone() };
    let want = model.run(&root, 0, None, None);
    let w = Rc::new(World {
        log: RefCell::new(vec![]),
        script,
        vscript,
        by_name: RefCell::new(nodes.iter().enumerate().map(|(i, n)| (n.name.clone(), i)).collect()),
        ops: RefCell::new(ops.clone()),
        cur_pass: RefCell::new(0),
    });
    let mut pm = PassManager::<core::Module>::new();
    install(&mut pm, &root, &w);
    let target = core::Module::from_op(&ctx, ops[0]).unwrap();
    let got = pm.run(&mut ctx, target).map_err(|e| match e.kind() {
        PassErrorKind::Execution(_) => format!("{} exec", e.pass_name()),
        PassErrorKind::Verification(_) => format!("{} verify", e.pass_name()),
    });
    let log = w.log.borrow().clone();
    if log != model.log || got != want {
        let i = log.iter().zip(&model.log).position(|(a, c)| a != c).unwrap_or(log.len().min(model.log.len()));
        return fail(format!("pass dispatch differs| at event {i}: real {:?}, model {:?}; result real {got:?}, model {want:?}", log.get(i), model.log.get(i)), format!("{render}\nREAL {log:#?}\nMODEL {:#?}", model.log));
    }
    let mut tags = vec![];
    if got.is_err() {
        tags.push("error".to_string());
    }
    if log.iter().any(|l| l.starts_with("inst")) {
        tags.push("instrumentation".into());
    }
    if log.iter().any(|l| l.starts_with("verify")) {
        tags.push("verifier".into());
    }
    Ok(Case { nontrivial: log.iter().filter(|l| l.starts_with("run")).count() >= 3, key: hash_str(&render), render, tags })
}

pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C11",
        lanes: vec![Lane { name: "dispatch", rule: "random module tree, manager tree (nested managers, inherited and overriding hooks) and script of failing, erasing and appending passes; non-trivial: at least three pass runs", quick: 60_000, thorough: 3_000_000, threads: 0, run: dispatch }],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
