//! Interpreter and static checks for the converted (func / closure / ability) module.
use crate::sem::{self, End, Run};
use irkit::b::sym;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use tribute_ir::dialect::ability;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::types::Attribute;

#[derive(Clone)]
enum V {
    I(i64),
    S(TypeRef, Rc<RefCell<Vec<V>>>),
    C(Rc<Clo>),
    Ev(Rc<Vec<(TypeRef, V, V)>>),
    Halt,
    /// Value erased to anyref with its static type.
    Any(TypeRef, Box<V>),
}
enum Clo {
    Lam { op: OpRef, caps: HashMap<ValueRef, V>, ev: Option<V> },
    Func { func: OpRef, env: V },
}
enum Out {
    Next,
    Return(Option<V>),
    Yield(Vec<V>),
    Tail(V, Vec<V>),
    TailFn(OpRef, Vec<V>),
}
enum Stop {
    Trap,
    Fuel,
    Bad(String),
}
type R<T> = Result<T, Stop>;
fn bad<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Bad(m.into()))
}
pub struct Low<'a> {
    pub ctx: &'a IrContext,
    funcs: HashMap<OpRef, HashMap<String, OpRef>>,
    ev_ty: TypeRef,
    payload: HashMap<OpRef, TypeRef>,
    trace: Vec<(u8, i64)>,
    fuel: usize,
}
struct Fr {
    env: HashMap<ValueRef, V>,
    ev: Option<V>,
    module: OpRef,
}
fn name_of(ctx: &IrContext, op: OpRef) -> String {
    format!("{}.{}", ctx.op(op).dialect, ctx.op(op).name)
}
fn is_ty(ctx: &IrContext, t: TypeRef, d: &str, n: &str) -> bool {
    ctx.types.get(t).dialect == sym(d) && ctx.types.get(t).name == sym(n)
}
fn closure_sig(ctx: &IrContext, t: TypeRef) -> Option<(TypeRef, Vec<TypeRef>, i64, i64)> {
    if !is_ty(ctx, t, "closure", "closure") {
        return None;
    }
    let d = ctx.types.get(t);
    let f = ctx.types.get(*d.params.first()?);
    if f.dialect != sym("core") || f.name != sym("func") {
        return None;
    }
    let a = |k: &str| match d.attrs.get(&sym(k)) {
        Some(Attribute::Int(n)) => *n as i64,
        _ => -1,
    };
    Some((f.params[0], f.params[1..].to_vec(), a("tribute.calling_convention"), a("tribute.closure_environment_index")))
}
fn func_sig(ctx: &IrContext, f: OpRef) -> Option<(TypeRef, Vec<TypeRef>)> {
    let t = ctx.op(f).attributes.get_type("type")?;
    let d = ctx.types.get(t);
    (d.dialect == sym("core") && d.name == sym("func")).then(|| (d.params[0], d.params[1..].to_vec()))
}
fn walk(ctx: &IrContext, op: OpRef, f: &mut dyn FnMut(OpRef) -> Result<(), String>) -> Result<(), String> {
    f(op)?;
    for r in ctx.op(op).regions.iter() {
        for b in ctx.region(*r).blocks.iter() {
            for o in ctx.block(*b).ops.iter() {
                walk(ctx, *o, f)?;
            }
        }
    }
    Ok(())
}

impl<'a> Low<'a> {
    pub fn new(ctx: &'a mut IrContext, root: OpRef) -> Self {
        let ev_ty = ability::evidence_adt_type_ref(ctx);
        // payload types of every perform/call, computed up front (interning needs &mut)
        let mut todo = vec![];
        walk(ctx, root, &mut |o| {
            let n = name_of(ctx, o);
            if n == "ability.call" || n == "ability.perform" {
                let skip = usize::from(n == "ability.perform");
                let tys: Vec<TypeRef> = ctx.op_operands(o)[skip..].iter().map(|v| ctx.value_ty(*v)).collect();
                todo.push((o, tys));
            }
            Ok(())
        })
        .unwrap();
        let mut payload = HashMap::new();
        for (o, tys) in todo {
            let a = ctx.op(o).attributes.get_type("ability_ref").unwrap();
            let n = ctx.op(o).attributes.get_symbol("op_name").unwrap();
            payload.insert(o, ability::operation_payload_type_ref(ctx, a, n, tys));
        }
        let mut funcs: HashMap<OpRef, HashMap<String, OpRef>> = HashMap::new();
        fn scan(ctx: &IrContext, m: OpRef, out: &mut HashMap<OpRef, HashMap<String, OpRef>>) {
            out.entry(m).or_default();
            for r in ctx.op(m).regions.iter() {
                for b in ctx.region(*r).blocks.iter() {
                    for o in ctx.block(*b).ops.iter() {
                        match name_of(ctx, *o).as_str() {
                            "core.module" => scan(ctx, *o, out),
                            "func.func" => {
                                let n = ctx.op(*o).attributes.get_symbol("sym_name").unwrap().to_string();
                                out.get_mut(&m).unwrap().insert(n, *o);
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        scan(ctx, root, &mut funcs);
        Low { ctx, funcs, ev_ty, payload, trace: vec![], fuel: 0 }
    }
    pub fn func(&self, module: OpRef, n: &str) -> Option<OpRef> {
        self.funcs.get(&module)?.get(n).copied()
    }
    pub fn count_dups(&self, module: OpRef) -> usize {
        self.funcs[&module].len()
    }
    pub fn modules(&self) -> Vec<OpRef> {
        self.funcs.keys().copied().collect()
    }
    fn cc(&self, op: OpRef) -> i64 {
        match self.ctx.op(op).attributes.get(&sym("tribute.calling_convention")) {
            Some(Attribute::Int(n)) => *n as i64,
            _ => -1,
        }
    }
    fn module_of(&self, op: OpRef) -> OpRef {
        let mut o = op;
        loop {
            let b = self.ctx.op(o).parent_block.expect("attached");
            let r = self.ctx.block(b).parent_region.expect("attached");
            o = self.ctx.region(r).parent_op.expect("attached");
            if name_of(self.ctx, o) == "core.module" {
                return o;
            }
        }
    }
    /// Types agree at every call, capture lists are what the body uses, conventions match signatures.
    pub fn static_check(&self, root: OpRef) -> Result<(), String> {
        let ctx = self.ctx;
        walk(ctx, root, &mut |op| {
            let n = name_of(ctx, op);
            let tys = |vs: &[ValueRef]| vs.iter().map(|v| ctx.value_ty(*v)).collect::<Vec<_>>();
            let ops = ctx.op_operands(op);
            let at = || format!("{n} in the converted module");
            if n.starts_with("tribute_control.") {
                return Err(format!("{n} is left in the converted module"));
            }
            match n.as_str() {
                "func.func" => {
                    let Some((ret, ps)) = func_sig(ctx, op) else { return Err(format!("{} has no core.func type", at())) };
                    if let Some(r) = ctx.op(op).regions.first() {
                        let b = ctx.region(*r).blocks[0];
                        if tys(ctx.block_args(b)) != ps {
                            return Err(format!("{}: block arguments do not match the signature", at()));
                        }
                    }
                    self.conv_shape(op, self.cc(op), &ps, ret, is_adapter(ctx, op))?;
                }
                "closure.lambda" => {
                    let Some((ret, ps, cc, env)) = closure_sig(ctx, ctx.op_result_types(op)[0]) else { return Err(format!("{}: result is not a closure", at())) };
                    let b = ctx.region(ctx.op(op).regions[0]).blocks[0];
                    if tys(ctx.block_args(b)) != ps {
                        return Err(format!("{}: block arguments do not match the closure type", at()));
                    }
                    if cc != self.cc(op) {
                        return Err(format!("{}: convention attribute {} but closure type says {cc}", at(), self.cc(op)));
                    }
                    let has_ev = ps.first() == Some(&self.ev_ty);
                    if env != i64::from(has_ev) {
                        return Err(format!("{}: environment slot {env} with {} leading evidence parameter", at(), if has_ev { "a" } else { "no" }));
                    }
                    if cc == 2 && !is_ty(ctx, ret, "core", "never") || cc < 2 && is_ty(ctx, ret, "core", "never") {
                        return Err(format!("{}: convention {cc} with the wrong result type", at()));
                    }
                }
                "closure.new" => {
                    let Some((ret, ps, cc, env)) = closure_sig(ctx, ctx.op_result_types(op)[0]) else { return Err(format!("{}: result is not a closure", at())) };
                    let m = self.module_of(op);
                    let s = ctx.op(op).attributes.get_symbol("func_ref").map(|s| s.to_string()).unwrap_or_default();
                    let Some(f) = self.func(m, &s) else { return Err(format!("{}: no function @{s} in its module", at())) };
                    let (fr, fp) = func_sig(ctx, f).unwrap();
                    let mut w = fp.clone();
                    if env < 0 || env as usize >= w.len() {
                        return Err(format!("{}: environment slot {env} is outside @{s}", at()));
                    }
                    w.remove(env as usize);
                    if w != ps || fr != ret {
                        return Err(format!("{}: closure type does not match @{s} without its environment", at()));
                    }
                    if cc != self.cc(op) || cc != self.cc(f) {
                        return Err(format!("{}: conventions of closure type, op and @{s} differ", at()));
                    }
                }
                "func.call" | "func.tail_call" => {
                    let m = self.module_of(op);
                    let s = ctx.op(op).attributes.get_symbol("callee").map(|s| s.to_string()).unwrap_or_default();
                    let Some(f) = self.func(m, &s) else { return Err(format!("{}: no function @{s} in its module", at())) };
                    let (fr, fp) = func_sig(ctx, f).unwrap();
                    if tys(ops) != fp {
                        return Err(format!("{}: arguments do not match @{s}", at()));
                    }
                    if self.cc(op) != self.cc(f) {
                        return Err(format!("{}: convention differs from @{s}", at()));
                    }
                    if n == "func.call" && ctx.op_result_types(op) != [fr] {
                        return Err(format!("{}: result type differs from @{s}", at()));
                    }
                }
                "func.call_indirect" | "func.tail_call_indirect" => {
                    let Some((ret, ps, cc, _)) = closure_sig(ctx, ctx.value_ty(ops[0])) else { return Err(format!("{}: callee is not a closure", at())) };
                    if tys(&ops[1..]) != ps {
                        return Err(format!("{}: arguments do not match the callee's closure type", at()));
                    }
                    if cc != self.cc(op) {
                        return Err(format!("{}: convention {} but callee is {cc}", at(), self.cc(op)));
                    }
                    if n == "func.call_indirect" && ctx.op_result_types(op) != [ret] {
                        return Err(format!("{}: result type differs from the callee's", at()));
                    }
                }
                _ => {}
            }
            Ok(())
        })
    }
    fn conv_shape(&self, op: OpRef, cc: i64, ps: &[TypeRef], ret: TypeRef, adapter: bool) -> Result<(), String> {
        let n = self.ctx.op(op).attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_default();
        let ev = ps.first() == Some(&self.ev_ty);
        if (cc >= 1) != ev {
            return Err(format!("@{n}: convention {cc} but evidence parameter present: {ev}"));
        }
        if cc == 2 {
            let k = ps.get(1 + usize::from(adapter)).and_then(|t| closure_sig(self.ctx, *t));
            let ok = matches!(k, Some((r, p, 2, 0)) if is_ty(self.ctx, r, "core", "never") && p.len() == 1);
            if !ok || !is_ty(self.ctx, ret, "core", "never") {
                return Err(format!("@{n}: CPS function without a completion continuation after evidence"));
            }
        }
        Ok(())
    }

    // ------------------------------------------------------------ execution
    fn get(&self, fr: &Fr, v: ValueRef) -> R<V> {
        match fr.env.get(&v) {
            Some(x) => Ok(x.clone()),
            None => bad(format!("value {v} is not available where it is used (missing capture or order)")),
        }
    }
    fn int(&self, fr: &Fr, v: ValueRef) -> R<i64> {
        match self.get(fr, v)? {
            V::I(n) => Ok(n),
            _ => bad("integer expected"),
        }
    }
    fn bind(&self, fr: &mut Fr, b: BlockRef, args: Vec<V>) -> R<()> {
        let a = self.ctx.block_args(b);
        if a.len() != args.len() {
            return bad(format!("block takes {} arguments, {} passed", a.len(), args.len()));
        }
        for (v, x) in a.iter().zip(args) {
            if self.ctx.value_ty(*v) == self.ev_ty {
                if !matches!(x, V::Ev(_)) {
                    return bad("evidence parameter receives something else");
                }
                fr.ev = Some(x.clone());
            }
            fr.env.insert(*v, x);
        }
        Ok(())
    }
    fn enter_clo(&mut self, c: &Clo, args: Vec<V>) -> R<Out> {
        match c {
            Clo::Lam { op, caps, ev } => {
                let mut fr = Fr { env: caps.clone(), ev: ev.clone(), module: self.module_of(*op) };
                let b = self.ctx.region(self.ctx.op(*op).regions[0]).blocks[0];
                self.bind(&mut fr, b, args)?;
                self.block(&mut fr, b)
            }
            Clo::Func { func, env } => {
                let at = usize::from(self.cc(*func) >= 1);
                let mut a = args;
                if at > a.len() {
                    return bad("closure called with too few arguments");
                }
                a.insert(at, env.clone());
                self.enter_fn(*func, a)
            }
        }
    }
    fn enter_fn(&mut self, f: OpRef, args: Vec<V>) -> R<Out> {
        let Some(r) = self.ctx.op(f).regions.first().copied() else {
            // @trace_*: external
            let cc = self.cc(f) as u8;
            let want = [1, 2, 3][cc as usize];
            if args.len() != want {
                return bad(format!("external function of convention {cc} called with {} arguments", args.len()));
            }
            let V::I(n) = args[want - 1] else { return bad("external function needs an integer") };
            self.trace.push((cc, n));
            let v = V::I(sem::wrap(n + 1 + cc as i64));
            return Ok(if cc == 2 { Out::Tail(args[1].clone(), vec![v]) } else { Out::Return(Some(v)) });
        };
        let mut fr = Fr { env: HashMap::new(), ev: None, module: self.module_of(f) };
        let b = self.ctx.region(r).blocks[0];
        self.bind(&mut fr, b, args)?;
        self.block(&mut fr, b)
    }
    /// Run to a value: the callable returns, or a tail transfer reaches the halt continuation.
    fn drive(&mut self, mut o: Out) -> R<(bool, V)> {
        loop {
            self.fuel = self.fuel.saturating_sub(1);
            if self.fuel == 0 {
                return Err(Stop::Fuel);
            }
            o = match o {
                Out::Return(Some(v)) => return Ok((false, v)),
                Out::Tail(V::Halt, a) => match <[V; 1]>::try_from(a) {
                    Ok([v]) => return Ok((true, v)),
                    Err(_) => return bad("halt continuation called with the wrong number of values"),
                },
                Out::Tail(V::C(c), a) => self.enter_clo(&c, a)?,
                Out::TailFn(f, a) => self.enter_fn(f, a)?,
                Out::Tail(..) => return bad("tail call of something that is not a closure"),
                Out::Next | Out::Return(None) | Out::Yield(_) => return bad("callable body ends without a transfer"),
            };
        }
    }
    fn direct(&mut self, o: Out) -> R<V> {
        match o {
            Out::Return(Some(v)) => Ok(v),
            Out::Return(None) | Out::Next | Out::Yield(_) => bad("direct callable ends without returning a value"),
            Out::Tail(..) | Out::TailFn(..) => bad("direct callable ends in a tail transfer"),
        }
    }
    fn block(&mut self, fr: &mut Fr, b: BlockRef) -> R<Out> {
        let ops = self.ctx.block(b).ops.to_vec();
        let n = ops.len();
        for (i, op) in ops.into_iter().enumerate() {
            match self.op(fr, op)? {
                Out::Next => {}
                o => {
                    if i + 1 != n {
                        return bad(format!("{} is not last in its block", name_of(self.ctx, op)));
                    }
                    return Ok(o);
                }
            }
        }
        Ok(Out::Next)
    }
    fn region1(&mut self, fr: &mut Fr, r: RegionRef, args: Vec<V>) -> R<Out> {
        let b = self.ctx.region(r).blocks[0];
        let save = fr.ev.clone();
        self.bind(fr, b, args)?;
        let o = self.block(fr, b)?;
        fr.ev = save;
        Ok(o)
    }
    fn dispatch(&self, fr: &Fr, op: OpRef) -> R<(V, V, V, i64)> {
        let a = self.ctx.op(op).attributes.get_type("ability_ref").unwrap();
        let on = self.ctx.op(op).attributes.get_symbol("op_name").unwrap();
        let Some(V::Ev(ev)) = fr.ev.clone() else { return bad(format!("{} where no evidence is in reach", name_of(self.ctx, op))) };
        let Some((_, tr, h)) = ev.iter().rev().find(|e| e.0 == a) else { return bad(format!("operation {on} is performed where its handler is not in evidence")) };
        let an = self.ctx.types.get(a).attrs.get_symbol("name");
        Ok((V::Ev(ev.clone()), tr.clone(), h.clone(), ability::compute_op_idx(an, Some(on)) as i64))
    }
    fn op(&mut self, fr: &mut Fr, op: OpRef) -> R<Out> {
        self.fuel = self.fuel.saturating_sub(1);
        if self.fuel == 0 {
            return Err(Stop::Fuel);
        }
        let ctx = self.ctx;
        let n = name_of(ctx, op);
        let ops = ctx.op_operands(op).to_vec();
        let attr = |k: &str| ctx.op(op).attributes.get(&sym(k)).cloned();
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                fr.env.insert(ctx.op_result(op, 0), v);
                Ok(Out::Next)
            }};
        }
        macro_rules! vals {
            ($s:expr) => {{
                let mut o = vec![];
                for v in $s {
                    o.push(self.get(fr, *v)?);
                }
                o
            }};
        }
        match n.as_str() {
            "arith.const" => match attr("value") {
                Some(Attribute::Int(i)) => set!(V::I(i as i64)),
                _ => bad("constant without a value"),
            },
            "arith.addi" | "arith.subi" | "arith.muli" => {
                let (a, b) = (self.int(fr, ops[0])?, self.int(fr, ops[1])?);
                set!(V::I(sem::arith(&n[6..], a, b)))
            }
            "arith.cmpi" => {
                let (a, b) = (self.int(fr, ops[0])?, self.int(fr, ops[1])?);
                let Some(Attribute::Symbol(p)) = attr("predicate") else { return bad("cmpi without predicate") };
                set!(V::I(sem::cmp(&p.to_string(), a, b)))
            }
            "adt.struct_new" => {
                let vs = vals!(&ops);
                let Some(Attribute::Type(t)) = attr("type") else { return bad("struct_new without type") };
                set!(V::S(t, Rc::new(RefCell::new(vs))))
            }
            "adt.struct_get" | "adt.struct_set" => {
                let V::S(t, c) = self.get(fr, ops[0])? else { return bad("struct expected") };
                let (Some(Attribute::Type(want)), Some(Attribute::Int(i))) = (attr("type"), attr("field")) else { return bad("struct access without type or field") };
                if t != want {
                    return bad("struct access with another struct type");
                }
                let i = i as usize;
                if i >= c.borrow().len() {
                    return bad("struct access beyond the last field");
                }
                if n == "adt.struct_set" {
                    let v = self.get(fr, ops[1])?;
                    c.borrow_mut()[i] = v;
                    return Ok(Out::Next);
                }
                let v = c.borrow()[i].clone();
                set!(v)
            }
            "core.unrealized_conversion_cast" => {
                let v = self.get(fr, ops[0])?;
                let from = ctx.value_ty(ops[0]);
                let to = ctx.op_result_types(op)[0];
                if is_ty(ctx, to, "tribute_rt", "anyref") {
                    return set!(V::Any(from, Box::new(v)));
                }
                match v {
                    V::Any(t, x) => {
                        // a resumption's answer type is only known at its perform site
                        if t != to && !(is_ty(ctx, t, "closure", "closure") && is_ty(ctx, to, "closure", "closure")) {
                            return bad(format!("erased value of one type is read as another ({} as {})", irkit::pretty::type_str(ctx, t), irkit::pretty::type_str(ctx, to)));
                        }
                        set!(*x)
                    }
                    v if from == to => set!(v),
                    _ => bad("cast between unrelated types"),
                }
            }
            "closure.lambda" => {
                let mut caps = HashMap::new();
                for v in &ops {
                    caps.insert(*v, self.get(fr, *v)?);
                }
                set!(V::C(Rc::new(Clo::Lam { op, caps, ev: fr.ev.clone() })))
            }
            "closure.new" => {
                let env = self.get(fr, ops[0])?;
                let s = ctx.op(op).attributes.get_symbol("func_ref").unwrap().to_string();
                let Some(func) = self.func(fr.module, &s) else { return bad(format!("closure.new: no @{s}")) };
                set!(V::C(Rc::new(Clo::Func { func, env })))
            }
            "func.call" => {
                let s = ctx.op(op).attributes.get_symbol("callee").unwrap().to_string();
                let Some(f) = self.func(fr.module, &s) else { return bad(format!("call: no @{s}")) };
                let a = vals!(&ops);
                let o = self.enter_fn(f, a)?;
                let v = self.direct(o)?;
                set!(v)
            }
            "func.call_indirect" => {
                let V::C(c) = self.get(fr, ops[0])? else { return bad("call_indirect of a non-closure") };
                let a = vals!(&ops[1..]);
                let o = self.enter_clo(&c, a)?;
                let v = self.direct(o)?;
                set!(v)
            }
            "func.tail_call" => {
                let s = ctx.op(op).attributes.get_symbol("callee").unwrap().to_string();
                let Some(f) = self.func(fr.module, &s) else { return bad(format!("tail_call: no @{s}")) };
                Ok(Out::TailFn(f, vals!(&ops)))
            }
            "func.tail_call_indirect" => {
                let c = self.get(fr, ops[0])?;
                Ok(Out::Tail(c, vals!(&ops[1..])))
            }
            "func.return" => {
                let v = vals!(&ops);
                Ok(Out::Return(v.into_iter().next()))
            }
            "func.unreachable" => Err(Stop::Trap),
            "scf.yield" => Ok(Out::Yield(vals!(&ops))),
            "scf.if" => {
                let c = self.int(fr, ops[0])? & 1 != 0;
                let r = ctx.op(op).regions[usize::from(!c)];
                match self.region1(fr, r, vec![])? {
                    Out::Yield(vs) => {
                        let rs = ctx.op_results(op).to_vec();
                        if rs.len() != vs.len() {
                            return bad("scf.if branch yields the wrong number of values");
                        }
                        for (r, v) in rs.into_iter().zip(vs) {
                            fr.env.insert(r, v);
                        }
                        Ok(Out::Next)
                    }
                    Out::Next => bad("scf.if branch without terminator"),
                    o => Ok(o),
                }
            }
            "scf.switch" => {
                let d = self.int(fr, ops[0])?;
                let b = ctx.region(ctx.op(op).regions[0]).blocks[0];
                let (mut hit, mut def) = (None, None);
                for a in ctx.block(b).ops.iter() {
                    match name_of(ctx, *a).as_str() {
                        "scf.case" => {
                            if let Some(Attribute::Int(v)) = ctx.op(*a).attributes.get(&sym("value"))
                                && *v as i64 == d
                                && hit.is_none()
                            {
                                hit = Some(*a);
                            }
                        }
                        "scf.default" => def = Some(*a),
                        x => return bad(format!("{x} in scf.switch")),
                    }
                }
                let Some(a) = hit.or(def) else { return Ok(Out::Next) };
                match self.region1(fr, ctx.op(a).regions[0], vec![])? {
                    Out::Yield(vs) if vs.is_empty() => Ok(Out::Next),
                    Out::Next | Out::Yield(_) => bad("scf.switch arm without terminator"),
                    o => Ok(o),
                }
            }
            "ability.call" => {
                let (ev, tr, _, idx) = self.dispatch(fr, op)?;
                let vs = vals!(&ops);
                let t = self.payload[&op];
                let pl = V::Any(t, Box::new(V::S(t, Rc::new(RefCell::new(vs)))));
                let V::C(c) = tr else { return bad("tail-resumptive dispatcher is not a closure") };
                let o = self.enter_clo(&c, vec![ev, V::I(idx), pl])?;
                match self.direct(o)? {
                    V::Any(t, v) if t == ctx.op_result_types(op)[0] => set!(*v),
                    V::Any(..) => bad("fn operation returns a value of another type"),
                    _ => bad("dispatcher returns an unerased value"),
                }
            }
            "ability.perform" => {
                let (ev, _, h, idx) = self.dispatch(fr, op)?;
                let k = self.get(fr, ops[0])?;
                let vs = vals!(&ops[1..]);
                let t = self.payload[&op];
                let pl = V::Any(t, Box::new(V::S(t, Rc::new(RefCell::new(vs)))));
                let kt = ctx.value_ty(ops[0]);
                Ok(Out::Tail(h, vec![ev, V::Any(kt, Box::new(k)), V::I(idx), pl]))
            }
            "ability.handle_dispatch" => {
                let vs = vals!(&ops);
                let V::Ev(base) = vs[0].clone() else { return bad("handle_dispatch without evidence") };
                let Some(Attribute::List(refs)) = attr("ability_refs") else { return bad("handle_dispatch without ability_refs") };
                if vs.len() != 1 + 2 * refs.len() {
                    return bad("handle_dispatch with the wrong number of dispatchers");
                }
                let mut e = (*base).clone();
                for (i, r) in refs.iter().enumerate() {
                    let Attribute::Type(a) = r else { return bad("ability_refs element is not a type") };
                    e.push((*a, vs[1 + 2 * i].clone(), vs[2 + 2 * i].clone()));
                }
                match self.region1(fr, ctx.op(op).regions[0], vec![V::Ev(Rc::new(e))])? {
                    Out::Next | Out::Yield(_) => bad("handle_dispatch body ends without a transfer"),
                    o => Ok(o),
                }
            }
            _ => bad(format!("unexpected {n} in the converted module")),
        }
    }
    fn show(&self, v: &V) -> String {
        match v {
            V::I(n) => n.to_string(),
            V::S(_, c) => {
                let c = c.borrow();
                format!("({})", c.iter().map(|x| self.show(x)).collect::<Vec<_>>().join(", "))
            }
            V::C(_) => "callable".into(),
            V::Any(_, v) => format!("erased {}", self.show(v)),
            _ => "?".into(),
        }
    }
    pub fn run(&mut self, module: OpRef, name: &str, args: &[i64]) -> Result<Run, String> {
        self.trace.clear();
        self.fuel = 400_000;
        let Some(f) = self.func(module, name) else { return Err(format!("function @{name} is gone")) };
        let cc = self.cc(f);
        let mut a = vec![];
        if cc >= 1 {
            a.push(V::Ev(Rc::new(vec![])));
        }
        if cc == 2 {
            a.push(V::Halt);
        }
        a.extend(args.iter().map(|n| V::I(*n)));
        let r = self.enter_fn(f, a).and_then(|o| self.drive(o));
        let end = match r {
            Ok((halted, v)) => {
                if halted != (cc == 2) {
                    return Err(format!("@{name} of convention {cc} {}", if halted { "reached the halt continuation" } else { "returned instead of completing through its continuation" }));
                }
                End::Value(self.show(&v))
            }
            Err(Stop::Trap) => End::Trap,
            Err(Stop::Fuel) => End::OutOfFuel,
            Err(Stop::Bad(m)) => return Err(m),
        };
        Ok(Run { trace: self.trace.clone(), end })
    }
}
pub fn is_adapter(ctx: &IrContext, f: OpRef) -> bool {
    // an adapter takes the erased environment right after optional evidence
    let Some((_, ps)) = func_sig(ctx, f) else { return false };
    ps.iter().take(2).any(|t| is_ty(ctx, *t, "tribute_rt", "anyref"))
}
