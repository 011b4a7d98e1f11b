//! Reference interpreter for programs with closures and effect handlers (before any lowering).
//!
//! Evidence is an environment of handlers. Two are carried: `lex`, that of the place where a continuation
//! closure was written, and `dyn_`, that of its caller. Where the two disagree on a handler the program is
//! outside what the evidence-passing scheme defines, and the run is dropped (`Stop::Diverge`).
use irkit::interp::{Event, Val, default_extern, show};
use std::collections::HashMap;
use std::rc::Rc;
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::types::Attribute;

#[derive(Clone)]
pub enum V {
    I(i64),
    F(f64),
    Obj(Rc<(Option<String>, Vec<V>)>),
    Clo(Rc<Clo>),
    Null,
    Ev,
}
pub struct Clo {
    body: Body,
    conv: Option<i64>,
    lex: Ev,
}
enum Body {
    Lambda(OpRef, HashMap<ValueRef, V>),
    Named(String, V),
}
#[derive(Clone, Default)]
pub struct Ev(Option<Rc<Node>>);
pub struct Node {
    ability: TypeRef,
    owner: i64,
    handler: V,
    tr: V,
    next: Ev,
}
impl Ev {
    fn get(&self, a: TypeRef) -> Option<&Node> {
        let mut p = &self.0;
        while let Some(n) = p {
            if n.ability == a {
                return Some(n);
            }
            p = &n.next.0;
        }
        None
    }
}
#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    Diverge,
    Fuel,
    Stuck(String),
}
type R<T> = Result<T, Stop>;
fn stuck<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Stuck(m.into()))
}
#[derive(Clone, Debug)]
pub struct Outcome {
    pub result: R<i64>,
    pub trace: Vec<Event>,
    pub performs: usize,
    pub fn_calls: usize,
    pub escapes: usize,
    pub foreign: usize,
    pub closure_calls: usize,
    pub max_handlers: usize,
}
struct Frame {
    env: HashMap<ValueRef, V>,
    lex: Ev,
    dyn_: Ev,
}
enum Flow {
    Next,
    Yield(V),
    Return(V),
}
pub struct Fxi<'a> {
    ctx: &'a IrContext,
    funcs: HashMap<String, OpRef>,
    evt: TypeRef,
    fuel: u64,
    depth: usize,
    next_owner: i64,
    pub o: Outcome,
    ext: u64,
    handlers: usize,
}
fn geti(d: &trunk_ir::context::OperationData, n: &str) -> Option<i64> {
    match d.attributes.get(n) {
        Some(Attribute::Int(x)) => Some(*x as i64),
        _ => None,
    }
}
fn s(x: &str) -> Symbol {
    Symbol::from_dynamic(x)
}
impl<'a> Fxi<'a> {
    fn get(&self, f: &Frame, v: ValueRef) -> R<V> {
        if self.ctx.value_ty(v) == self.evt {
            return Ok(V::Ev);
        }
        match f.env.get(&v) {
            Some(v) => Ok(v.clone()),
            None => stuck("value not available"),
        }
    }
    fn int(&self, f: &Frame, v: ValueRef) -> R<i64> {
        match self.get(f, v)? {
            V::I(x) => Ok(x),
            _ => stuck("integer expected"),
        }
    }
    fn block(&mut self, f: &mut Frame, b: BlockRef, args: Vec<V>) -> R<Flow> {
        let ba = self.ctx.block_args(b).to_vec();
        if ba.len() != args.len() {
            return stuck(format!("{} arguments for {} parameters", args.len(), ba.len()));
        }
        for (p, a) in ba.into_iter().zip(args) {
            f.env.insert(p, a);
        }
        let ops = self.ctx.block(b).ops.to_vec();
        // the call that runs the body of a handle
        let mut body_of: HashMap<OpRef, usize> = HashMap::new();
        for (i, o) in ops.iter().enumerate() {
            if self.is(*o, "ability", "legacy_handle_dispatch")
                && let ValueDef::OpResult(c, _) = self.ctx.value_def(self.ctx.op_operands(*o)[0])
            {
                body_of.insert(c, i);
            }
        }
        let mut i = 0;
        while i < ops.len() {
            if let Some(&h) = body_of.get(&ops[i]) {
                for o in &ops[i + 1..h] {
                    self.op(f, *o)?;
                }
                self.handle(f, ops[i], ops[h])?;
                i = h + 1;
                continue;
            }
            match self.op(f, ops[i])? {
                Flow::Next => i += 1,
                x => return Ok(x),
            }
        }
        stuck("block without terminator")
    }
    fn is(&self, o: OpRef, d: &str, n: &str) -> bool {
        let x = self.ctx.op(o);
        x.dialect == s(d) && x.name == s(n)
    }
    fn region(&mut self, f: &mut Frame, r: RegionRef, args: Vec<V>) -> R<V> {
        let b = self.ctx.region(r).blocks[0];
        match self.block(f, b, args)? {
            Flow::Yield(v) => Ok(v),
            _ => stuck("region must yield"),
        }
    }
    fn handle(&mut self, f: &mut Frame, call: OpRef, h: OpRef) -> R<()> {
        let ops = self.ctx.op_operands(h).to_vec();
        let owner = self.int(f, ops[1])?;
        let (handler, tr) = (self.get(f, ops[2])?, self.get(f, ops[3])?);
        let regions = self.ctx.op(h).regions.to_vec();
        let inner = self.ctx.block(self.ctx.region(regions[0]).blocks[0]).ops.to_vec();
        let mut done = None;
        let mut abilities: Vec<TypeRef> = vec![];
        for o in inner {
            if self.is(o, "ability", "done") {
                done = Some(self.ctx.op(o).regions[0]);
            } else if let Some(t) = self.ctx.op(o).attributes.get_type("ability_ref")
                && !abilities.contains(&t)
            {
                abilities.push(t);
            }
        }
        let mut args = vec![];
        for v in self.ctx.op_operands(call).to_vec() {
            args.push(self.get(f, v)?);
        }
        let ext = |e: &Ev| {
            let mut e = e.clone();
            for a in &abilities {
                e = Ev(Some(Rc::new(Node { ability: *a, owner, handler: handler.clone(), tr: tr.clone(), next: e })));
            }
            e
        };
        let V::Clo(c) = args.remove(0) else { return stuck("handle body is not a closure") };
        self.handlers += 1;
        self.o.max_handlers = self.o.max_handlers.max(self.handlers);
        let a = self.call(&c, args, ext(&c.lex), ext(&f.dyn_))?;
        self.handlers -= 1;
        let V::Obj(x) = &a else { return stuck("the answer of a handled body is not a control value") };
        let r = match x.0.as_deref() {
            Some("Normal") => self.region(f, done.ok_or(Stop::Stuck("no done region".into()))?, vec![x.1[0].clone()])?,
            Some("Escape") => {
                let V::I(o) = x.1[0] else { return stuck("owner is not an integer") };
                if o == owner {
                    self.o.escapes += 1;
                    self.region(f, regions[1], vec![x.1[1].clone()])?
                } else {
                    self.o.foreign += 1;
                    a.clone()
                }
            }
            _ => return stuck("not a control value"),
        };
        let res = self.ctx.op_result(h, 0);
        f.env.insert(res, r);
        Ok(())
    }
    /// runs a closure; untagged ones take `lex`/`dyn_` as given
    fn call(&mut self, c: &Clo, args: Vec<V>, lex: Ev, dyn_: Ev) -> R<V> {
        match &c.body {
            Body::Lambda(op, caps) => {
                let b = self.ctx.region(self.ctx.op(*op).regions[0]).blocks[0];
                self.enter(b, caps.clone(), args, lex, dyn_)
            }
            Body::Named(n, env) => {
                let Some(fo) = self.funcs.get(n).copied() else { return stuck("no such function") };
                let b = self.ctx.region(self.ctx.op(fo).regions[0]).blocks[0];
                let mut a = vec![V::Ev, env.clone()];
                a.extend(args);
                self.enter(b, HashMap::new(), a, lex, dyn_)
            }
        }
    }
    fn enter(&mut self, b: BlockRef, env: HashMap<ValueRef, V>, args: Vec<V>, lex: Ev, dyn_: Ev) -> R<V> {
        self.depth += 1;
        if self.depth > 300 {
            return Err(Stop::Fuel);
        }
        let mut f = Frame { env, lex, dyn_ };
        let r = match self.block(&mut f, b, args)? {
            Flow::Return(v) => v,
            _ => return stuck("function must return"),
        };
        self.depth -= 1;
        Ok(r)
    }
    fn op(&mut self, f: &mut Frame, o: OpRef) -> R<Flow> {
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        self.fuel -= 1;
        let d = self.ctx.op(o);
        let name = format!("{}.{}", d.dialect, d.name);
        let operands = self.ctx.op_operands(o).to_vec();
        let regions = d.regions.to_vec();
        let attr_sym = |n: &str| d.attributes.get_symbol(n).map(|x| x.to_string()).unwrap_or_default();
        let conv = geti(d, "tribute.calling_convention");
        let a = |me: &Self, f: &Frame, i: usize| me.get(f, operands[i]);
        let v = match name.as_str() {
            "arith.const" => match d.attributes.get("value") {
                Some(Attribute::Int(x)) => {
                    let t = self.ctx.value_ty(self.ctx.op_result(o, 0));
                    if self.ctx.types.get(t).name == s("anyref") { V::Null } else { V::I(*x as i64) }
                }
                Some(Attribute::FloatBits(x)) => V::F(f64::from_bits(*x)),
                _ => return stuck("constant"),
            },
            "arith.addi" => V::I((self.int(f, operands[0])? as i32).wrapping_add(self.int(f, operands[1])? as i32) as i64),
            "arith.subi" => V::I((self.int(f, operands[0])? as i32).wrapping_sub(self.int(f, operands[1])? as i32) as i64),
            "arith.muli" => V::I((self.int(f, operands[0])? as i32).wrapping_mul(self.int(f, operands[1])? as i32) as i64),
            "arith.xor" => V::I((self.int(f, operands[0])? as i32 ^ self.int(f, operands[1])? as i32) as i64),
            "arith.cmpi" => {
                let (x, y) = (self.int(f, operands[0])?, self.int(f, operands[1])?);
                V::I(match attr_sym("predicate").as_str() {
                    "eq" => x == y,
                    "slt" => x < y,
                    "sle" => x <= y,
                    "sge" => x >= y,
                    _ => return stuck("predicate"),
                } as i64)
            }
            "arith.addf" | "arith.subf" | "arith.mulf" | "arith.cmpf" => {
                let (V::F(x), V::F(y)) = (a(self, f, 0)?, a(self, f, 1)?) else { return stuck("float expected") };
                match name.as_str() {
                    "arith.addf" => V::F(x + y),
                    "arith.subf" => V::F(x - y),
                    "arith.mulf" => V::F(x * y),
                    _ => V::I((x < y) as i64),
                }
            }
            "core.unrealized_conversion_cast" => {
                let v = a(self, f, 0)?;
                let t = self.ctx.types.get(self.ctx.value_ty(self.ctx.op_result(o, 0)));
                let ok = match t.name.to_string().as_str() {
                    "i32" => matches!(v, V::I(_)),
                    "f64" => matches!(v, V::F(_)),
                    "closure" => matches!(v, V::Clo(_)),
                    "struct" => matches!(v, V::Obj(_)),
                    _ => true,
                };
                if !ok {
                    // an answer of another handle was taken for ours (see resume in genfx)
                    return Err(Stop::Diverge);
                }
                v
            }
            "adt.ref_null" => V::Null,
            "adt.struct_new" | "adt.variant_new" => {
                let mut vs = vec![];
                for x in &operands {
                    vs.push(self.get(f, *x)?);
                }
                V::Obj(Rc::new((d.attributes.get_symbol("tag").map(|x| x.to_string()), vs)))
            }
            "adt.variant_is" => {
                let V::Obj(x) = a(self, f, 0)? else { return stuck("variant_is of a non-object") };
                V::I((x.0.as_deref() == Some(attr_sym("tag").as_str())) as i64)
            }
            "adt.variant_cast" => a(self, f, 0)?,
            "adt.struct_get" | "adt.variant_get" => {
                let V::Obj(x) = a(self, f, 0)? else { return stuck("field of a non-object") };
                if let Some(t) = d.attributes.get_symbol("tag")
                    && x.0.as_deref() != Some(t.to_string().as_str())
                {
                    // an unchecked assumption of the surrounding code does not hold here
                    return Err(Stop::Diverge);
                }
                let k = geti(d, "field").unwrap() as usize;
                match x.1.get(k) {
                    Some(v) => v.clone(),
                    None => return stuck("no such field"),
                }
            }
            "effect.fresh_prompt_tag" => {
                self.next_owner += 1;
                V::I(self.next_owner)
            }
            "scf.if" => {
                let c = self.int(f, operands[0])?;
                self.region(f, regions[if c != 0 { 0 } else { 1 }], vec![])?
            }
            "scf.yield" => return Ok(Flow::Yield(a(self, f, 0)?)),
            "func.return" => return Ok(Flow::Return(a(self, f, 0)?)),
            "func.unreachable" => return stuck("unreachable reached"),
            "closure.lambda" => {
                let mut env = HashMap::new();
                for x in &operands {
                    env.insert(*x, self.get(f, *x)?);
                }
                V::Clo(Rc::new(Clo { body: Body::Lambda(o, env), conv, lex: f.lex.clone() }))
            }
            "closure.new" => V::Clo(Rc::new(Clo { body: Body::Named(attr_sym("func_ref"), a(self, f, 0)?), conv, lex: f.lex.clone() })),
            "func.call" => {
                let n = attr_sym("callee");
                let mut args = vec![];
                for x in &operands {
                    args.push(self.get(f, *x)?);
                }
                let Some(fo) = self.funcs.get(&n).copied() else { return stuck("no such function") };
                if self.ctx.op(fo).attributes.get("abi").is_some() {
                    let V::I(x) = args[0] else { return stuck("obs") };
                    self.ext += 1;
                    let vs = [Val::I(x)];
                    let r = default_extern(&n, &vs, self.ext, "i32");
                    self.o.trace.push(Event { callee: n, args: vec![show(&vs[0])], ret: show(&r) });
                    let Val::I(r) = r else { unreachable!() };
                    V::I(r)
                } else {
                    let c = geti(self.ctx.op(fo), "tribute.calling_convention").unwrap_or(0);
                    let b = self.ctx.region(self.ctx.op(fo).regions[0]).blocks[0];
                    let (l, y) = if c == 0 { Default::default() } else { (f.lex.clone(), f.dyn_.clone()) };
                    self.enter(b, HashMap::new(), args, l, y)?
                }
            }
            "func.call_indirect" => {
                let mut args = vec![];
                for x in &operands {
                    args.push(self.get(f, *x)?);
                }
                let V::Clo(c) = args.remove(0) else { return stuck("call of a non-closure") };
                if conv != c.conv {
                    return stuck("calling conventions differ");
                }
                let (l, y) = match c.conv {
                    None => (c.lex.clone(), f.dyn_.clone()),
                    Some(0) => Default::default(),
                    Some(_) => (f.lex.clone(), f.dyn_.clone()),
                };
                self.o.closure_calls += c.conv.is_some() as usize;
                self.call(&c, args, l, y)?
            }
            "ability.legacy_perform" | "ability.legacy_call" => {
                let t = d.attributes.get_type("ability_ref").unwrap();
                let an = self.ctx.types.get(t).attrs.get_symbol("name");
                let idx = tribute_ir::dialect::ability::compute_op_idx(an, d.attributes.get_symbol("op_name")) as i64;
                let (Some(x), Some(y)) = (f.lex.get(t), f.dyn_.get(t)) else {
                    if f.lex.get(t).is_some() || f.dyn_.get(t).is_some() {
                        return Err(Stop::Diverge);
                    }
                    return stuck("no handler");
                };
                if x.owner != y.owner {
                    return Err(Stop::Diverge);
                }
                let per = name == "ability.legacy_perform";
                let (h, owner) = (if per { y.handler.clone() } else { y.tr.clone() }, y.owner);
                let V::Clo(c) = h else { return stuck("handler is not a closure") };
                let args = if per {
                    self.o.performs += 1;
                    let p = if operands.len() > 1 { a(self, f, 1)? } else { V::Null };
                    vec![a(self, f, 0)?, V::I(owner), V::I(idx), p]
                } else {
                    self.o.fn_calls += 1;
                    let p = if !operands.is_empty() { a(self, f, 0)? } else { V::Null };
                    vec![V::I(idx), p]
                };
                self.call(&c, args, c.lex.clone(), f.dyn_.clone())?
            }
            _ => return stuck(format!("unknown operation {name}")),
        };
        let r = self.ctx.op_result(o, 0);
        f.env.insert(r, v);
        Ok(Flow::Next)
    }
}
pub fn run(ctx: &mut IrContext, module: OpRef, f: &str, args: &[i64], fuel: u64) -> Outcome {
    let evt = tribute_ir::dialect::ability::evidence_adt_type_ref(ctx);
    let ctx = &*ctx;
    let mut funcs = HashMap::new();
    for o in &ctx.block(ctx.region(ctx.op(module).regions[0]).blocks[0]).ops {
        if let Some(n) = ctx.op(*o).attributes.get_symbol("sym_name") {
            funcs.insert(n.to_string(), *o);
        }
    }
    let o = Outcome { result: Err(Stop::Fuel), trace: vec![], performs: 0, fn_calls: 0, escapes: 0, foreign: 0, closure_calls: 0, max_handlers: 0 };
    let b = ctx.region(ctx.op(funcs[f]).regions[0]).blocks[0];
    let mut m = Fxi { ctx, funcs, evt, fuel, depth: 0, next_owner: 0, o, ext: 0, handlers: 0 };
    let r = m.enter(b, HashMap::new(), args.iter().map(|x| V::I(*x)).collect(), Ev::default(), Ev::default());
    m.o.result = match r {
        Ok(V::I(x)) => Ok(x),
        Ok(_) => stuck("result is not an integer"),
        Err(e) => Err(e),
    };
    m.o
}
