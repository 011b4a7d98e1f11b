//! Random programs with closures and effect handlers, in the form the compiler's front end hands to the
//! shared passes (closure.lambda, ability.legacy_*, continuation-passing functions).
use engine::*;
use irkit::b::*;
use std::collections::HashSet;
use tribute_ir::dialect::ability;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::types::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Conv {
    Direct = 0,
    Ev = 1,
    Cps = 2,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Int,
    Flt,
    Bool,
    /// a two-field struct
    Pair,
    Fn(Box<FnTy>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct FnTy {
    pub conv: Conv,
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub row: u32,
}
#[derive(Clone, Debug)]
pub struct Op {
    pub name: String,
    pub is_fn: bool,
    pub params: Vec<Ty>,
    pub ret: Ty,
}
#[derive(Clone, Debug)]
pub struct Ability {
    pub name: String,
    /// which instance of a parametrised ability (0: no parameter)
    pub inst: usize,
    pub ops: Vec<Op>,
}
#[derive(Clone)]
pub struct FnDef {
    pub name: String,
    pub t: FnTy,
    pub recursive: bool,
}
#[derive(Clone)]
struct Resume {
    k: ValueRef,
    owner: ValueRef,
    arg: Ty,
    ret: Ty,
}
#[derive(Clone)]
struct Scope {
    vars: Vec<(ValueRef, Ty)>,
    row: u32,
    ev: Option<ValueRef>,
    resume: Option<Resume>,
    /// functions of the program that may be called
    nf: usize,
}
#[derive(Clone, Copy, Debug)]
pub struct FxCfg {
    pub floats: bool,
    pub pairs: bool,
    pub closures: bool,
    pub ops: bool,
    pub fns: bool,
    pub obs: bool,
    pub direct_closures: bool,
    pub size: usize,
}
#[derive(Default, Clone, Debug)]
pub struct FxStats {
    pub performs: usize,
    pub handles: usize,
    pub resumes: usize,
    pub closures: usize,
    pub calls: usize,
    pub fn_ops: usize,
}
pub struct Fx<'a> {
    pub t: &'a mut Tape,
    pub ctx: IrContext,
    pub cfg: FxCfg,
    pub abilities: Vec<Ability>,
    pub fns: Vec<FnDef>,
    pub st: FxStats,
    mod_blk: BlockRef,
    budget: usize,
    tag: u32,
    have_identity: bool,
    have_normal: bool,
}
pub struct FxProg {
    pub ctx: IrContext,
    pub module: OpRef,
    /// entry functions take two i32 and give an i32
    pub entries: Vec<String>,
    pub st: FxStats,
}

impl<'a> Fx<'a> {
    // ---------------------------------------------------------------- types
    fn any(&mut self) -> TypeRef {
        ty0(&mut self.ctx, "tribute_rt", "anyref")
    }
    fn i32(&mut self) -> TypeRef {
        core(&mut self.ctx, "i32")
    }
    fn i1(&mut self) -> TypeRef {
        core(&mut self.ctx, "i1")
    }
    fn ev_ty(&mut self) -> TypeRef {
        ability::evidence_adt_type_ref(&mut self.ctx)
    }
    fn pair_ty(&mut self) -> TypeRef {
        let i = self.i32();
        let a = self.any();
        let f = |n: &str, t| Attribute::List(vec![Attribute::Symbol(sym(n)), Attribute::Type(t)]);
        self.ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym("Pair"))).attr(sym("fields"), Attribute::List(vec![f("a", i), f("b", a)])).build())
    }
    fn closure_of(&mut self, f: TypeRef) -> TypeRef {
        self.ctx.types.intern(TypeDataBuilder::new(sym("closure"), sym("closure")).param(f).build())
    }
    /// lowered parameter and result types of a function of this type
    fn lowered(&mut self, t: &FnTy) -> (Vec<TypeRef>, TypeRef) {
        let mut ps = vec![];
        if t.conv != Conv::Direct {
            ps.push(self.ev_ty());
        }
        if t.conv == Conv::Cps {
            ps.push(self.any());
        }
        for p in &t.params {
            ps.push(self.ty(p));
        }
        let r = if t.conv == Conv::Cps { self.any() } else { self.ty(&t.ret) };
        (ps, r)
    }
    fn ty(&mut self, t: &Ty) -> TypeRef {
        match t {
            Ty::Int => self.i32(),
            Ty::Flt => core(&mut self.ctx, "f64"),
            Ty::Bool => self.i1(),
            Ty::Pair => self.any(),
            Ty::Fn(f) => {
                let (ps, r) = self.lowered(f);
                let f = fnty(&mut self.ctx, r, &ps);
                self.closure_of(f)
            }
        }
    }
    fn kont_ty(&mut self) -> TypeRef {
        let a = self.any();
        let f = fnty(&mut self.ctx, a, &[a]);
        self.closure_of(f)
    }
    fn ability_ref(&mut self, i: usize) -> TypeRef {
        let n = sym(&self.abilities[i].name);
        let ps = ability_params(&mut self.ctx, self.abilities[i].inst);
        self.ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("ability_ref")).params(ps).attr(sym("name"), Attribute::Symbol(n)).build())
    }
    // ---------------------------------------------------------------- small pieces
    fn cast(&mut self, b: BlockRef, v: ValueRef, t: TypeRef) -> ValueRef {
        if self.ctx.value_ty(v) == t {
            return v;
        }
        put1(&mut self.ctx, b, "core.unrealized_conversion_cast", &[v], t, &[])
    }
    fn conv_attr(&mut self, op: OpRef, c: Conv) {
        self.ctx.op_mut(op).attributes.insert(sym("tribute.calling_convention"), Attribute::Int(c as i128));
    }
    fn int(&mut self, b: BlockRef, v: i64) -> ValueRef {
        let t = self.i32();
        put1(&mut self.ctx, b, "arith.const", &[], t, &[("value", Attribute::Int(v as i128))])
    }
    fn ret(&mut self, b: BlockRef, v: ValueRef) {
        put0(&mut self.ctx, b, "func.return", &[v], &[], &[]);
    }
    fn yld(&mut self, b: BlockRef, v: ValueRef) {
        put0(&mut self.ctx, b, "scf.yield", &[v], &[], &[]);
    }
    fn ev(&mut self, b: BlockRef, sc: &Scope) -> ValueRef {
        match sc.ev {
            Some(v) => v,
            None => {
                let t = self.ev_ty();
                put1(&mut self.ctx, b, "adt.ref_null", &[], t, &[("type", Attribute::Type(t))])
            }
        }
    }
    fn free_values(&self, r: RegionRef) -> Vec<ValueRef> {
        let mut defs = HashSet::new();
        let mut uses = vec![];
        fn go(c: &IrContext, r: RegionRef, defs: &mut HashSet<ValueRef>, uses: &mut Vec<ValueRef>) {
            for b in &c.region(r).blocks {
                defs.extend(c.block_args(*b).iter().copied());
                for o in &c.block(*b).ops {
                    uses.extend(c.op_operands(*o).iter().copied());
                    defs.extend(c.op_results(*o).iter().copied());
                    for r in &c.op(*o).regions {
                        go(c, *r, defs, uses);
                    }
                }
            }
        }
        go(&self.ctx, r, &mut defs, &mut uses);
        let mut seen = HashSet::new();
        uses.into_iter().filter(|v| !defs.contains(v) && seen.insert(*v)).collect()
    }
    /// closure.lambda with the free values of the body as captures
    fn lambda(&mut self, b: BlockRef, body: BlockRef, fun: TypeRef, conv: Option<Conv>) -> ValueRef {
        let r = region(&mut self.ctx, &[body]);
        let evt = self.ev_ty();
        let mut caps: Vec<ValueRef> = self.free_values(r).into_iter().filter(|v| self.ctx.value_ty(*v) != evt).collect();
        // the order of captures is not fixed, and unused values may be captured too
        if caps.len() > 1 && self.t.chance(1, 4) {
            caps.reverse();
        }
        let t = self.closure_of(fun);
        let op = put(&mut self.ctx, b, "closure.lambda", O { operands: caps, results: vec![t], regions: vec![r], ..O::default() });
        if let Some(c) = conv {
            self.conv_attr(op, c);
        }
        self.ctx.op_result(op, 0)
    }
    fn invoke(&mut self, b: BlockRef, k: ValueRef, v: ValueRef) -> ValueRef {
        let kt = self.kont_ty();
        let a = self.any();
        let k = self.cast(b, k, kt);
        let v = self.cast(b, v, a);
        put1(&mut self.ctx, b, "func.call_indirect", &[k, v], a, &[])
    }
    fn named_done(&mut self, b: BlockRef, normal: bool) -> ValueRef {
        let (a, e) = (self.any(), self.ev_ty());
        let name = if normal { "__normal_done_k" } else { "__identity_done_k" };
        let have = if normal { &mut self.have_normal } else { &mut self.have_identity };
        if !*have {
            *have = true;
            let bb = block(&mut self.ctx, &[e, a, a]);
            let mut v = self.ctx.block_arg(bb, 2);
            if normal {
                v = self.carrier(bb, "Normal", &[v]);
            }
            self.ret(bb, v);
            let r = region(&mut self.ctx, &[bb]);
            let f = func(&mut self.ctx, name, a, &[e, a, a], Some(r), &[]);
            let mb = self.mod_blk;
            self.ctx.push_op(mb, f);
        }
        let n = put1(&mut self.ctx, b, "adt.ref_null", &[], a, &[("type", Attribute::Type(a))]);
        let kt = self.kont_ty();
        put1(&mut self.ctx, b, "closure.new", &[n], kt, &[("func_ref", Attribute::Symbol(sym(name)))])
    }
    fn carrier(&mut self, b: BlockRef, tag: &str, vs: &[ValueRef]) -> ValueRef {
        let ct = ability::cps_control_type_ref(&mut self.ctx);
        let a = self.any();
        put1(&mut self.ctx, b, "adt.variant_new", vs, a, &[("type", Attribute::Type(ct)), ("tag", Attribute::Symbol(sym(tag)))])
    }
    fn carrier_get(&mut self, b: BlockRef, v: ValueRef, tag: &str, f: u32) -> ValueRef {
        let ct = ability::cps_control_type_ref(&mut self.ctx);
        let a = self.any();
        let t = if tag == "Escape" && f == 0 { self.i32() } else { a };
        let c = put1(&mut self.ctx, b, "adt.variant_cast", &[v], a, &[("type", Attribute::Type(ct)), ("tag", Attribute::Symbol(sym(tag)))]);
        put1(&mut self.ctx, b, "adt.variant_get", &[c], t, &[("type", Attribute::Type(ct)), ("tag", Attribute::Symbol(sym(tag))), ("field", Attribute::Int(f as i128))])
    }
    fn if_(&mut self, b: BlockRef, c: ValueRef, t: TypeRef, x: BlockRef, y: BlockRef) -> ValueRef {
        let rx = region(&mut self.ctx, &[x]);
        let ry = region(&mut self.ctx, &[y]);
        let op = put(&mut self.ctx, b, "scf.if", O { operands: vec![c], results: vec![t], regions: vec![rx, ry], ..O::default() });
        self.ctx.op_result(op, 0)
    }
    /// a continuation closure: (anyref) -> anyref
    fn kont(&mut self, b: BlockRef, sc: &Scope, ty: &Ty, rest: impl FnOnce(&mut Self, BlockRef, Scope, ValueRef) -> ValueRef) -> ValueRef {
        let a = self.any();
        let bb = block(&mut self.ctx, &[a]);
        let v = self.ctx.block_arg(bb, 0);
        let tt = self.ty(ty);
        let v = self.cast(bb, v, tt);
        let mut sc2 = sc.clone();
        sc2.vars.push((v, ty.clone()));
        let r = rest(self, bb, sc2, v);
        self.ret(bb, r);
        let f = fnty(&mut self.ctx, a, &[a]);
        self.lambda(b, bb, f, None)
    }
    // ---------------------------------------------------------------- pure expressions
    fn simple_ty(&mut self) -> Ty {
        let mut c = vec![Ty::Int, Ty::Int, Ty::Int];
        if self.cfg.floats {
            c.push(Ty::Flt);
        }
        if self.cfg.pairs {
            c.push(Ty::Pair);
        }
        self.t.pick(&c).clone()
    }
    fn atom(&mut self, b: BlockRef, sc: &Scope, t: &Ty) -> ValueRef {
        let c: Vec<ValueRef> = sc.vars.iter().filter(|v| v.1 == *t).map(|v| v.0).collect();
        if !c.is_empty() && !self.t.chance(1, 5) {
            // later variables are more interesting
            let i = if self.t.bool() { c.len() - 1 } else { self.t.idx(c.len()) };
            return c[i];
        }
        self.fresh(b, sc, t)
    }
    fn fresh(&mut self, b: BlockRef, sc: &Scope, t: &Ty) -> ValueRef {
        match t {
            Ty::Int => {
                let v = if self.t.chance(1, 8) { self.t.int_edge() as i32 as i64 } else { self.t.range(-3, 9) };
                self.int(b, v)
            }
            Ty::Flt => {
                let tt = self.ty(t);
                let v = *self.t.pick(&[0.0f64, 1.5, -2.25, 1e10, 0.1]);
                put1(&mut self.ctx, b, "arith.const", &[], tt, &[("value", Attribute::FloatBits(v.to_bits()))])
            }
            Ty::Bool => {
                let (x, y) = (self.atom(b, sc, &Ty::Int), self.atom(b, sc, &Ty::Int));
                let p = *self.t.pick(&["eq", "slt", "sge"]);
                let t = self.i1();
                put1(&mut self.ctx, b, "arith.cmpi", &[x, y], t, &[("predicate", Attribute::Symbol(sym(p)))])
            }
            Ty::Pair => {
                let x = self.atom(b, sc, &Ty::Int);
                let y = if self.t.chance(1, 3) && sc.vars.iter().any(|v| v.1 == Ty::Pair) { self.atom(b, sc, &Ty::Pair) } else { self.atom(b, sc, &Ty::Int) };
                let a = self.any();
                let y = self.cast(b, y, a);
                let p = self.pair_ty();
                let v = put1(&mut self.ctx, b, "adt.struct_new", &[x, y], p, &[("type", Attribute::Type(p))]);
                self.cast(b, v, a)
            }
            Ty::Fn(f) => {
                let f = (**f).clone();
                self.user_lambda(b, sc, &f)
            }
        }
    }
    fn pure(&mut self, b: BlockRef, sc: &Scope, t: &Ty) -> ValueRef {
        match t {
            Ty::Int => match self.t.weighted(&[3, 5, if self.cfg.pairs { 1 } else { 0 }, if self.cfg.floats { 1 } else { 0 }]) {
                1 => {
                    let (x, y) = (self.atom(b, sc, t), self.atom(b, sc, t));
                    let o = *self.t.pick(&["arith.addi", "arith.subi", "arith.muli", "arith.xor"]);
                    let tt = self.i32();
                    put1(&mut self.ctx, b, o, &[x, y], tt, &[])
                }
                2 => {
                    let p = self.atom(b, sc, &Ty::Pair);
                    let pt = self.pair_ty();
                    let p = self.cast(b, p, pt);
                    let tt = self.i32();
                    put1(&mut self.ctx, b, "adt.struct_get", &[p], tt, &[("type", Attribute::Type(pt)), ("field", Attribute::Int(0))])
                }
                3 => {
                    let (x, y) = (self.atom(b, sc, &Ty::Flt), self.atom(b, sc, &Ty::Flt));
                    let i1 = self.i1();
                    let c = put1(&mut self.ctx, b, "arith.cmpf", &[x, y], i1, &[("predicate", Attribute::Symbol(sym("olt")))]);
                    let tt = self.i32();
                    let (m, n) = (self.atom(b, sc, t), self.atom(b, sc, t));
                    let (bx, by) = (block(&mut self.ctx, &[]), block(&mut self.ctx, &[]));
                    self.yld(bx, m);
                    self.yld(by, n);
                    self.if_(b, c, tt, bx, by)
                }
                _ => self.atom(b, sc, t),
            },
            Ty::Flt => {
                if self.t.bool() {
                    let (x, y) = (self.atom(b, sc, t), self.atom(b, sc, t));
                    let o = *self.t.pick(&["arith.addf", "arith.subf", "arith.mulf"]);
                    let tt = self.ty(t);
                    put1(&mut self.ctx, b, o, &[x, y], tt, &[])
                } else {
                    self.atom(b, sc, t)
                }
            }
            _ => self.atom(b, sc, t),
        }
    }
    // ---------------------------------------------------------------- direct-style statements
    fn obs(&mut self, b: BlockRef, sc: &mut Scope) {
        let v = self.atom(b, sc, &Ty::Int);
        let t = self.i32();
        let r = put1(&mut self.ctx, b, "func.call", &[v], t, &[("callee", Attribute::Symbol(sym("obs")))]);
        sc.vars.push((r, Ty::Int));
    }
    fn pack(&mut self, b: BlockRef, vs: Vec<ValueRef>) -> Vec<ValueRef> {
        if vs.len() <= 1 {
            return vs;
        }
        let a = self.any();
        let vs: Vec<ValueRef> = vs.into_iter().map(|v| self.cast(b, v, a)).collect();
        let t = self.args_ty(vs.len());
        vec![put1(&mut self.ctx, b, "adt.struct_new", &vs, a, &[("type", Attribute::Type(t))])]
    }
    fn args_ty(&mut self, n: usize) -> TypeRef {
        let a = self.any();
        let fs = (0..n).map(|i| Attribute::List(vec![Attribute::Symbol(sym(&format!("_{i}"))), Attribute::Type(a)])).collect();
        self.ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym("__ability_args_tuple"))).attr(sym("fields"), Attribute::List(fs)).build())
    }
    fn ops_in(&self, row: u32, is_fn: bool) -> Vec<(usize, usize)> {
        let mut v = vec![];
        for (i, a) in self.abilities.iter().enumerate() {
            if row >> i & 1 == 1 {
                for (j, o) in a.ops.iter().enumerate() {
                    if o.is_fn == is_fn {
                        v.push((i, j));
                    }
                }
            }
        }
        v
    }
    fn callable(&self, sc: &Scope, convs: &[Conv]) -> Vec<usize> {
        (0..sc.nf.min(self.fns.len())).filter(|i| convs.contains(&self.fns[*i].t.conv) && self.fns[*i].t.row & !sc.row == 0).collect()
    }
    fn local_fns(&self, sc: &Scope, convs: &[Conv]) -> Vec<(ValueRef, FnTy)> {
        sc.vars
            .iter()
            .filter_map(|(v, t)| match t {
                Ty::Fn(f) if convs.contains(&f.conv) && f.row & !sc.row == 0 => Some((*v, (**f).clone())),
                _ => None,
            })
            .collect()
    }
    fn args(&mut self, b: BlockRef, sc: &Scope, ps: &[Ty], rec: bool) -> Vec<ValueRef> {
        ps.iter()
            .enumerate()
            .map(|(i, p)| {
                if i == 0 && rec {
                    let n = self.t.range(0, 4);
                    self.int(b, n)
                } else {
                    self.atom(b, sc, p)
                }
            })
            .collect()
    }
    /// A statement that is neither a perform nor a continuation-passing call.
    fn direct_stmt(&mut self, b: BlockRef, sc: &mut Scope) {
        let convs: &[Conv] = if sc.ev.is_some() || sc.row != 0 { &[Conv::Direct, Conv::Ev] } else { &[Conv::Direct, Conv::Ev] };
        let fs = self.callable(sc, convs);
        let mut lconvs = vec![Conv::Ev];
        if self.cfg.direct_closures {
            lconvs.push(Conv::Direct);
        }
        let ls = self.local_fns(sc, &lconvs);
        let fo = self.ops_in(sc.row, true);
        let w = [3, if self.cfg.obs { 2 } else { 0 }, if fs.is_empty() { 0 } else { 2 }, if ls.is_empty() { 0 } else { 3 }, if fo.is_empty() { 0 } else { 4 }, if self.cfg.closures { 2 } else { 0 }];
        match self.t.weighted(&w) {
            0 => {
                let t = self.simple_ty();
                let v = self.pure(b, sc, &t);
                sc.vars.push((v, t));
            }
            1 => self.obs(b, sc),
            2 => {
                self.st.calls += 1;
                let f = self.fns[*self.t.pick(&fs)].clone();
                let mut a = self.args(b, sc, &f.t.params, f.recursive);
                if f.t.conv == Conv::Ev {
                    let e = self.ev(b, sc);
                    a.insert(0, e);
                }
                let t = self.ty(&f.t.ret);
                let r = put1(&mut self.ctx, b, "func.call", &a, t, &[("callee", Attribute::Symbol(sym(&f.name)))]);
                let ValueDef::OpResult(o, _) = self.ctx.value_def(r) else { unreachable!() };
                self.conv_attr(o, f.t.conv);
                sc.vars.push((r, f.t.ret.clone()));
            }
            3 => {
                self.st.calls += 1;
                let (v, f) = self.t.pick(&ls).clone();
                let a = self.args(b, sc, &f.params, false);
                let r = self.call_closure(b, sc, v, &f, a, None);
                sc.vars.push((r, f.ret.clone()));
            }
            4 => {
                self.st.fn_ops += 1;
                let (i, j) = *self.t.pick(&fo);
                let o = self.abilities[i].ops[j].clone();
                let a = self.args(b, sc, &o.params, false);
                let a = self.pack(b, a);
                let (any, r) = (self.any(), self.ability_ref(i));
                let v = put1(&mut self.ctx, b, "ability.legacy_call", &a, any, &[("ability_ref", Attribute::Type(r)), ("op_name", Attribute::Symbol(sym(&o.name)))]);
                let t = self.ty(&o.ret);
                let v = self.cast(b, v, t);
                sc.vars.push((v, o.ret));
            }
            _ => {
                let f = self.closure_ty(sc);
                let v = self.user_lambda(b, sc, &f);
                sc.vars.push((v, Ty::Fn(Box::new(f))));
            }
        }
    }
    fn closure_ty(&mut self, sc: &Scope) -> FnTy {
        let mut cs = vec![Conv::Ev];
        if self.cfg.direct_closures {
            cs.push(Conv::Direct);
        }
        if self.cfg.ops {
            cs.push(Conv::Cps);
            cs.push(Conv::Cps);
        }
        let conv = *self.t.pick(&cs);
        let n = self.t.upto(2);
        FnTy { conv, params: (0..n).map(|_| self.simple_ty()).collect(), ret: self.simple_ty(), row: if conv == Conv::Direct { 0 } else { sc.row } }
    }
    fn call_closure(&mut self, b: BlockRef, sc: &Scope, v: ValueRef, f: &FnTy, args: Vec<ValueRef>, k: Option<ValueRef>) -> ValueRef {
        let mut a = vec![];
        if f.conv != Conv::Direct {
            a.push(self.ev(b, sc));
        }
        if f.conv == Conv::Cps {
            let any = self.any();
            let k = k.unwrap();
            let k = self.cast(b, k, any);
            a.push(k);
        }
        a.extend(args);
        let ps: Vec<TypeRef> = a.iter().map(|x| self.ctx.value_ty(*x)).collect();
        let r = if f.conv == Conv::Cps { self.any() } else { self.ty(&f.ret) };
        let ft = fnty(&mut self.ctx, r, &ps);
        let ct = self.closure_of(ft);
        let v = self.cast(b, v, ct);
        a.insert(0, v);
        let res = put1(&mut self.ctx, b, "func.call_indirect", &a, r, &[]);
        let ValueDef::OpResult(o, _) = self.ctx.value_def(res) else { unreachable!() };
        self.conv_attr(o, f.conv);
        res
    }
    fn user_lambda(&mut self, b: BlockRef, sc: &Scope, f: &FnTy) -> ValueRef {
        self.st.closures += 1;
        let (ps, r) = self.lowered(f);
        let bb = block(&mut self.ctx, &ps);
        let mut sc2 = sc.clone();
        sc2.resume = None;
        sc2.row = f.row;
        sc2.ev = None;
        let mut off = 0;
        if f.conv != Conv::Direct {
            sc2.ev = Some(self.ctx.block_arg(bb, 0));
            off += 1;
        }
        if f.conv == Conv::Cps {
            off += 1;
        }
        for (i, p) in f.params.iter().enumerate() {
            let v = self.ctx.block_arg(bb, (i + off) as u32);
            sc2.vars.push((v, p.clone()));
        }
        let save = self.budget;
        self.budget = self.budget.min(self.t.upto(5));
        let spent0 = self.budget;
        if f.conv == Conv::Cps {
            let k = self.ctx.block_arg(bb, 1);
            let v = self.comp(bb, sc2, k, &f.ret, true);
            self.ret(bb, v);
        } else {
            let v = self.direct_body(bb, sc2, &f.ret);
            self.ret(bb, v);
        }
        self.budget = save.saturating_sub(spent0 - self.budget.min(spent0));
        let ft = fnty(&mut self.ctx, r, &ps);
        self.lambda(b, bb, ft, Some(f.conv))
    }
    fn direct_body(&mut self, b: BlockRef, mut sc: Scope, want: &Ty) -> ValueRef {
        while self.budget > 0 && !self.t.chance(1, 6) {
            self.budget -= 1;
            if self.cfg.ops && self.budget > 2 && self.t.chance(1, 5) {
                // a handle closed at once
                let t = self.simple_ty();
                let k = self.named_done(b, false);
                // nothing outside may be escaped to from direct-style code
                let mut hs = sc.clone();
                hs.row = 0;
                let a = self.handle(b, &hs, k, &t);
                let tt = self.ty(&t);
                let v = self.cast(b, a, tt);
                sc.vars.push((v, t));
                continue;
            }
            self.direct_stmt(b, &mut sc);
        }
        self.pure(b, &sc, want)
    }
    // ---------------------------------------------------------------- computations
    /// Emits a computation of type `want` whose result goes to `k`; gives the control answer.
    fn comp(&mut self, b: BlockRef, mut sc: Scope, k: ValueRef, want: &Ty, handles: bool) -> ValueRef {
        loop {
            if self.budget == 0 || self.t.chance(1, 7) {
                // an arm that has not resumed yet usually does
                if let Some(r) = sc.resume.clone()
                    && r.ret == *want
                    && self.t.chance(3, 4)
                {
                    self.st.resumes += 1;
                    let v = self.atom(b, &sc, &r.arg);
                    return self.resume(b, &r, v, k);
                }
                let v = self.pure(b, &sc, want);
                return self.invoke(b, k, v);
            }
            self.budget -= 1;
            let fs = self.callable(&sc, &[Conv::Cps]);
            let ls = self.local_fns(&sc, &[Conv::Cps]);
            let os = self.ops_in(sc.row, false);
            let w = [
                4,
                if os.is_empty() { 0 } else { 6 },
                if fs.is_empty() { 0 } else { 3 },
                if ls.is_empty() { 0 } else { 4 },
                if handles && self.budget > 2 { 3 } else { 0 },
                2,
                if sc.resume.is_some() { 3 } else { 0 },
            ];
            match self.t.weighted(&w) {
                0 => self.direct_stmt(b, &mut sc),
                1 => {
                    self.st.performs += 1;
                    let (i, j) = *self.t.pick(&os);
                    let o = self.abilities[i].ops[j].clone();
                    let a = self.args(b, &sc, &o.params, false);
                    let a = self.pack(b, a);
                    let kk = self.rest(b, &sc, &o.ret, k, want, handles);
                    let mut ops = vec![kk];
                    ops.extend(a);
                    let (any, r) = (self.any(), self.ability_ref(i));
                    return put1(&mut self.ctx, b, "ability.legacy_perform", &ops, any, &[("ability_ref", Attribute::Type(r)), ("op_name", Attribute::Symbol(sym(&o.name)))]);
                }
                2 => {
                    self.st.calls += 1;
                    let f = self.fns[*self.t.pick(&fs)].clone();
                    let mut a = self.args(b, &sc, &f.t.params, f.recursive);
                    let kk = self.rest(b, &sc, &f.t.ret, k, want, handles);
                    let e = self.ev(b, &sc);
                    let any = self.any();
                    let kk = self.cast(b, kk, any);
                    a.insert(0, kk);
                    a.insert(0, e);
                    let r = put1(&mut self.ctx, b, "func.call", &a, any, &[("callee", Attribute::Symbol(sym(&f.name)))]);
                    let ValueDef::OpResult(o, _) = self.ctx.value_def(r) else { unreachable!() };
                    self.conv_attr(o, Conv::Cps);
                    return r;
                }
                3 => {
                    self.st.calls += 1;
                    let (v, f) = self.t.pick(&ls).clone();
                    let a = self.args(b, &sc, &f.params, false);
                    let kk = self.rest(b, &sc, &f.ret, k, want, handles);
                    return self.call_closure(b, &sc, v, &f, a, Some(kk));
                }
                4 => {
                    let t = self.simple_ty();
                    let kk = self.rest(b, &sc, &t, k, want, handles);
                    return self.handle(b, &sc, kk, &t);
                }
                5 => {
                    let c = self.fresh(b, &sc, &Ty::Bool);
                    let t = if self.t.bool() { want.clone() } else { self.simple_ty() };
                    let kk = self.rest(b, &sc, &t, k, want, handles);
                    let mut sc2 = sc.clone();
                    // at most one resume per path: the rest of the arm has it, or nobody
                    sc2.resume = None;
                    let (bx, by) = (block(&mut self.ctx, &[]), block(&mut self.ctx, &[]));
                    let vx = self.comp(bx, sc2.clone(), kk, &t, handles);
                    self.yld(bx, vx);
                    let vy = self.comp(by, sc2, kk, &t, handles);
                    self.yld(by, vy);
                    let any = self.any();
                    return self.if_(b, c, any, bx, by);
                }
                _ => {
                    self.st.resumes += 1;
                    let r = sc.resume.take().unwrap();
                    let v = self.atom(b, &sc, &r.arg);
                    let kk = self.rest(b, &sc, &r.ret, k, want, handles);
                    return self.resume(b, &r, v, kk);
                }
            }
        }
    }
    /// the continuation for what follows a computation of type `t`
    fn rest(&mut self, b: BlockRef, sc: &Scope, t: &Ty, k: ValueRef, want: &Ty, handles: bool) -> ValueRef {
        if t == want && self.t.chance(1, 6) {
            return k;
        }
        let want = want.clone();
        self.kont(b, sc, t, move |s, bb, sc2, _| s.comp(bb, sc2, k, &want, handles))
    }
    fn resume(&mut self, b: BlockRef, r: &Resume, v: ValueRef, k: ValueRef) -> ValueRef {
        let (any, i1, ct) = (self.any(), self.i1(), ability::cps_control_type_ref(&mut self.ctx));
        let ans = self.invoke(b, r.k, v);
        let normal = put1(&mut self.ctx, b, "adt.variant_is", &[ans], i1, &[("type", Attribute::Type(ct)), ("tag", Attribute::Symbol(sym("Normal")))]);
        let bn = block(&mut self.ctx, &[]);
        let p = self.carrier_get(bn, ans, "Normal", 0);
        let t = self.ty(&r.ret);
        let p = self.cast(bn, p, t);
        let after = self.invoke(bn, k, p);
        let owner = self.carrier_get(bn, after, "Escape", 0);
        let pay = self.carrier_get(bn, after, "Escape", 1);
        let same = put1(&mut self.ctx, bn, "arith.cmpi", &[owner, r.owner], i1, &[("predicate", Attribute::Symbol(sym("eq")))]);
        let (bo, bf) = (block(&mut self.ctx, &[]), block(&mut self.ctx, &[]));
        let re = self.carrier(bo, "Normal", &[pay]);
        self.yld(bo, re);
        self.yld(bf, after);
        let s = self.if_(bn, same, any, bo, bf);
        self.yld(bn, s);
        let be = block(&mut self.ctx, &[]);
        self.yld(be, ans);
        self.if_(b, normal, any, bn, be)
    }
    /// handle { body } with handlers; the result goes to `k`
    fn handle(&mut self, b: BlockRef, sc: &Scope, k: ValueRef, t: &Ty) -> ValueRef {
        self.st.handles += 1;
        let (any, i32t, i1) = (self.any(), self.i32(), self.i1());
        let n = self.abilities.len();
        let mut set = 1u32 << self.t.idx(n);
        if self.t.chance(1, 3) {
            set |= 1 << self.t.idx(n);
        }
        self.tag += 1;
        let tag = self.tag;
        // body
        let bb = block(&mut self.ctx, &[any]);
        let dk = self.ctx.block_arg(bb, 0);
        let mut bs = sc.clone();
        bs.row |= set;
        bs.resume = None;
        let v = self.comp(bb, bs, dk, t, true);
        self.ret(bb, v);
        let bf = fnty(&mut self.ctx, any, &[any]);
        let body = self.lambda(b, bb, bf, None);
        let done_k = self.named_done(b, true);
        let ans = put1(&mut self.ctx, b, "func.call_indirect", &[body, done_k], any, &[]);
        // regions
        let rb = block(&mut self.ctx, &[]);
        {
            let db = block(&mut self.ctx, &[any]);
            let v = self.ctx.block_arg(db, 0);
            let tt = self.ty(t);
            let v = self.cast(db, v, tt);
            let r = if self.t.chance(1, 3) {
                let mut s2 = sc.clone();
                s2.resume = None;
                s2.vars.push((v, t.clone()));
                let save = self.budget;
                self.budget = self.budget.min(3);
                let lim = self.budget;
                let r = self.comp(db, s2, k, t, true);
                self.budget = save - (lim - self.budget);
                r
            } else {
                self.invoke(db, k, v)
            };
            self.yld(db, r);
            let r = region(&mut self.ctx, &[db]);
            put(&mut self.ctx, rb, "ability.done", O { regions: vec![r], ..O::default() });
        }
        let mut arms: Vec<(usize, usize)> = vec![];
        for i in 0..n {
            if set >> i & 1 == 1 {
                for j in 0..self.abilities[i].ops.len() {
                    arms.push((i, j));
                }
            }
        }
        if arms.len() > 1 && self.t.chance(1, 3) {
            arms.reverse();
        }
        for (i, j) in &arms {
            let o = self.abilities[*i].ops[*j].clone();
            let ib = block(&mut self.ctx, &[any, any]);
            let v = self.ctx.block_arg(ib, 1);
            self.yld(ib, v);
            let r = region(&mut self.ctx, &[ib]);
            let ar = self.ability_ref(*i);
            put(&mut self.ctx, rb, if o.is_fn { "ability.yield" } else { "ability.suspend" }, O { attrs: vec![("ability_ref".into(), Attribute::Type(ar)), ("op_name".into(), Attribute::Symbol(sym(&o.name)))], regions: vec![r], ..O::default() });
        }
        let body_r = region(&mut self.ctx, &[rb]);
        let eb = block(&mut self.ctx, &[any]);
        let v = self.ctx.block_arg(eb, 0);
        let r = self.invoke(eb, k, v);
        self.yld(eb, r);
        let esc_r = region(&mut self.ctx, &[eb]);
        // dispatch closures
        let hb = block(&mut self.ctx, &[any, i32t, i32t, any]);
        let hv: Vec<ValueRef> = (0..4).map(|i| self.ctx.block_arg(hb, i)).collect();
        let mut hs = sc.clone();
        hs.resume = None;
        let r = self.chain(hb, &hs, &arms, Some((hv[0], hv[1])), hv[2], hv[3], t, i1);
        self.ret(hb, r);
        let hf = fnty(&mut self.ctx, any, &[any, i32t, i32t, any]);
        let handler = self.lambda(b, hb, hf, None);
        let fns: Vec<(usize, usize)> = arms.iter().copied().filter(|(i, j)| self.abilities[*i].ops[*j].is_fn).collect();
        let tr = if fns.is_empty() {
            put1(&mut self.ctx, b, "arith.const", &[], any, &[("value", Attribute::Int(0))])
        } else {
            let tb = block(&mut self.ctx, &[i32t, any]);
            let tv: Vec<ValueRef> = (0..2).map(|i| self.ctx.block_arg(tb, i)).collect();
            let r = self.chain(tb, &hs, &fns, None, tv[0], tv[1], t, i1);
            self.ret(tb, r);
            let tf = fnty(&mut self.ctx, any, &[i32t, any]);
            self.lambda(b, tb, tf, None)
        };
        let owner = put1(&mut self.ctx, b, "effect.fresh_prompt_tag", &[], i32t, &[]);
        let op = put(
            &mut self.ctx,
            b,
            "ability.legacy_handle_dispatch",
            O { operands: vec![ans, owner, handler, tr], results: vec![any], attrs: vec![("tag".into(), Attribute::Int(tag as i128)), ("result_type".into(), Attribute::Type(any))], regions: vec![body_r, esc_r], ..O::default() },
        );
        self.ctx.op_result(op, 0)
    }
    #[allow(clippy::too_many_arguments)]
    fn chain(&mut self, b: BlockRef, sc: &Scope, arms: &[(usize, usize)], k: Option<(ValueRef, ValueRef)>, idx: ValueRef, payload: ValueRef, t: &Ty, i1: TypeRef) -> ValueRef {
        let (i, j) = arms[0];
        let any = self.any();
        let name = sym(&self.abilities[i].name);
        let want = ability::compute_op_idx(Some(name), Some(sym(&self.abilities[i].ops[j].name)));
        let ab = block(&mut self.ctx, &[]);
        let v = self.arm(ab, sc, i, j, k, payload, t);
        self.yld(ab, v);
        let eb = block(&mut self.ctx, &[]);
        let c;
        if arms.len() == 1 {
            c = put1(&mut self.ctx, b, "arith.const", &[], i1, &[("value", Attribute::Int(1))]);
            put0(&mut self.ctx, eb, "func.unreachable", &[], &[], &[]);
        } else {
            let w = self.int(b, want as i64);
            c = put1(&mut self.ctx, b, "arith.cmpi", &[idx, w], i1, &[("predicate", Attribute::Symbol(sym("eq")))]);
            let r = self.chain(eb, sc, &arms[1..], k, idx, payload, t, i1);
            self.yld(eb, r);
        }
        self.if_(b, c, any, ab, eb)
    }
    #[allow(clippy::too_many_arguments)]
    fn arm(&mut self, b: BlockRef, sc: &Scope, i: usize, j: usize, k: Option<(ValueRef, ValueRef)>, payload: ValueRef, t: &Ty) -> ValueRef {
        let o = self.abilities[i].ops[j].clone();
        let mut sc = sc.clone();
        let any = self.any();
        if o.params.len() == 1 {
            let tt = self.ty(&o.params[0]);
            let v = self.cast(b, payload, tt);
            sc.vars.push((v, o.params[0].clone()));
        } else if o.params.len() > 1 {
            let at = self.args_ty(o.params.len());
            for (x, p) in o.params.iter().enumerate() {
                let f = put1(&mut self.ctx, b, "adt.struct_get", &[payload], any, &[("type", Attribute::Type(at)), ("field", Attribute::Int(x as i128))]);
                let tt = self.ty(p);
                let v = self.cast(b, f, tt);
                sc.vars.push((v, p.clone()));
            }
        }
        let save = self.budget;
        self.budget = self.budget.min(1 + self.t.upto(4));
        let lim = self.budget;
        let r = if o.is_fn {
            // tail-resumptive arms are lowered in direct style with an identity continuation
            let ik = self.named_done(b, false);
            let v = self.direct_body(b, sc, &o.ret);
            self.invoke(b, ik, v)
        } else {
            let (k, owner) = k.unwrap();
            sc.resume = Some(Resume { k, owner, arg: o.ret.clone(), ret: t.clone() });
            // escape continuation
            let eb = block(&mut self.ctx, &[any]);
            let v = self.ctx.block_arg(eb, 0);
            let c = self.carrier(eb, "Escape", &[owner, v]);
            self.ret(eb, c);
            let f = fnty(&mut self.ctx, any, &[any]);
            let ek = self.lambda(b, eb, f, None);
            self.comp(b, sc, ek, t, true)
        };
        self.budget = save - (lim - self.budget);
        r
    }
    // ---------------------------------------------------------------- functions
    fn function(&mut self, i: usize) {
        let d = self.fns[i].clone();
        let (ps, r) = self.lowered(&d.t);
        let bb = block(&mut self.ctx, &ps);
        let mut sc = Scope { vars: vec![], row: d.t.row, ev: None, resume: None, nf: i };
        let mut off = 0;
        if d.t.conv != Conv::Direct {
            sc.ev = Some(self.ctx.block_arg(bb, 0));
            off = 1;
        }
        if d.t.conv == Conv::Cps {
            off = 2;
        }
        for (j, p) in d.t.params.iter().enumerate() {
            let v = self.ctx.block_arg(bb, (j + off) as u32);
            sc.vars.push((v, p.clone()));
        }
        self.budget = 2 + self.t.upto(self.cfg.size);
        let v = if d.t.conv == Conv::Cps {
            let k = self.ctx.block_arg(bb, 1);
            if d.recursive {
                let n = sc.vars[0].0;
                let zero = self.int(bb, 0);
                let i1 = self.i1();
                let any = self.any();
                let c = put1(&mut self.ctx, bb, "arith.cmpi", &[n, zero], i1, &[("predicate", Attribute::Symbol(sym("sle")))]);
                let (bx, by) = (block(&mut self.ctx, &[]), block(&mut self.ctx, &[]));
                let vx = self.comp(bx, sc.clone(), k, &d.t.ret, true);
                self.yld(bx, vx);
                // perform something, call itself with n - 1, go on
                let one = self.int(by, 1);
                let i32t = self.i32();
                let m = put1(&mut self.ctx, by, "arith.subi", &[n, one], i32t, &[]);
                let mut a: Vec<ValueRef> = vec![];
                for p in &d.t.params[1..] {
                    a.push(self.atom(by, &sc, p));
                }
                self.budget = self.budget.max(3);
                let kk = self.rest(by, &sc, &d.t.ret, k, &d.t.ret, true);
                let kk = self.cast(by, kk, any);
                a.insert(0, m);
                a.insert(0, kk);
                a.insert(0, sc.ev.unwrap());
                let r = put1(&mut self.ctx, by, "func.call", &a, any, &[("callee", Attribute::Symbol(sym(&d.name)))]);
                let ValueDef::OpResult(o, _) = self.ctx.value_def(r) else { unreachable!() };
                self.conv_attr(o, Conv::Cps);
                self.yld(by, r);
                self.if_(bb, c, any, bx, by)
            } else {
                self.comp(bb, sc, k, &d.t.ret, true)
            }
        } else {
            self.direct_body(bb, sc, &d.t.ret)
        };
        self.ret(bb, v);
        let rg = region(&mut self.ctx, &[bb]);
        let f = func(&mut self.ctx, &d.name, r, &ps, Some(rg), &[]);
        self.conv_attr(f, d.t.conv);
        let mb = self.mod_blk;
        self.ctx.push_op(mb, f);
    }
    fn entry(&mut self, name: &str) {
        let i = self.i32();
        let bb = block(&mut self.ctx, &[i, i]);
        let mut sc = Scope { vars: (0..2).map(|x| (self.ctx.block_arg(bb, x), Ty::Int)).collect(), row: 0, ev: None, resume: None, nf: self.fns.len() };
        self.budget = 4 + self.t.upto(self.cfg.size);
        let v = if self.cfg.ops && self.t.bool() {
            // a root function: a computation closed by the identity continuation
            let k = self.named_done(bb, false);
            let a = self.comp(bb, sc, k, &Ty::Int, true);
            self.cast(bb, a, i)
        } else {
            if self.cfg.ops || self.cfg.fns {
                self.budget = self.budget.max(6);
                while self.t.bool() && self.budget > 5 {
                    self.budget -= 1;
                    self.direct_stmt(bb, &mut sc);
                }
                let k = self.named_done(bb, false);
                let a = self.handle(bb, &sc, k, &Ty::Int);
                let v = self.cast(bb, a, i);
                sc.vars.push((v, Ty::Int));
            }
            self.direct_body(bb, sc, &Ty::Int)
        };
        self.ret(bb, v);
        let rg = region(&mut self.ctx, &[bb]);
        let f = func(&mut self.ctx, name, i, &[i, i], Some(rg), &[]);
        self.conv_attr(f, Conv::Direct);
        let mb = self.mod_blk;
        self.ctx.push_op(mb, f);
    }
}
/// the arguments of instance `i` of an ability: scalars, declared types, lists of either, function types
pub fn ability_params(ctx: &mut IrContext, i: usize) -> Vec<TypeRef> {
    let named = |ctx: &mut IrContext, n: &str| ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("typeref")).attr(sym("name"), Attribute::Symbol(sym(n))).build());
    let list = |ctx: &mut IrContext, t: TypeRef| ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("array")).param(t).build());
    let i32t = core(ctx, "i32");
    let f64t = core(ctx, "f64");
    let any = ty0(ctx, "tribute_rt", "anyref");
    match i {
        0 => vec![],
        1 => vec![i32t],
        2 => vec![f64t],
        3 => vec![named(ctx, "Foo")],
        4 => vec![named(ctx, "Bar")],
        5 => vec![any],
        6 => vec![i32t, f64t],
        7 => vec![f64t, i32t],
        8 => { let x = named(ctx, "Foo"); vec![list(ctx, x)] }
        9 => { let x = named(ctx, "Bar"); vec![list(ctx, x)] }
        10 => vec![list(ctx, i32t)],
        11 => vec![fnty(ctx, i32t, &[f64t])],
        12 => vec![fnty(ctx, f64t, &[i32t])],
        13 => { let x = named(ctx, "Foo"); vec![x, x] }
        _ => { let (x, y) = (named(ctx, "Foo"), named(ctx, "Bar")); vec![x, y] }
    }
}
pub const ABILITY_INSTANCES: usize = 15;
pub fn generate(t: &mut Tape, cfg: FxCfg) -> FxProg {
    let mut ctx = IrContext::new();
    let mod_blk = block(&mut ctx, &[]);
    let mut s = Fx { t, ctx, cfg, abilities: vec![], fns: vec![], st: FxStats::default(), mod_blk, budget: 0, tag: 0, have_identity: false, have_normal: false };
    // the external observer
    let i = s.i32();
    let ob = block(&mut s.ctx, &[i]);
    put0(&mut s.ctx, ob, "func.unreachable", &[], &[], &[]);
    let or = region(&mut s.ctx, &[ob]);
    let of = func(&mut s.ctx, "obs", i, &[i], Some(or), &[("abi", Attribute::String("C".into()))]);
    s.ctx.push_op(mod_blk, of);
    let na = 1 + s.t.idx(3);
    // instances of one parametrised ability, or unrelated abilities
    let generic = s.t.chance(1, 3);
    let mut used = vec![];
    for a in 0..na {
        let mut inst = 0;
        if generic {
            inst = s.t.idx(ABILITY_INSTANCES);
            while used.contains(&inst) {
                inst = (inst + 1) % ABILITY_INSTANCES;
            }
            used.push(inst);
        }
        let no = 1 + s.t.idx(3);
        let mut ops = vec![];
        for o in 0..no {
            let np = s.t.upto(3);
            let is_fn = if !cfg.ops { true } else if !cfg.fns { false } else { s.t.chance(1, 3) };
            // a handler of two instances tells their operations apart by name
            let name = if generic { format!("op{o}i{a}") } else { format!("op{o}") };
            ops.push(Op { name, is_fn, params: (0..np).map(|_| s.simple_ty()).collect(), ret: s.simple_ty() });
        }
        s.abilities.push(Ability { name: if generic { "Ab".into() } else { format!("Ab{a}") }, inst, ops });
    }
    let nf = s.t.upto(3);
    for f in 0..nf {
        let mut cs = vec![Conv::Direct, Conv::Ev];
        if cfg.ops {
            cs.extend([Conv::Cps, Conv::Cps, Conv::Cps]);
        }
        let conv = *s.t.pick(&cs);
        let mut row = s.t.below(1 << na) as u32;
        if conv == Conv::Direct {
            row = 0;
        }
        let recursive = conv == Conv::Cps && s.t.chance(1, 3);
        let mut params: Vec<Ty> = (0..s.t.upto(3)).map(|_| s.simple_ty()).collect();
        if recursive {
            params.insert(0, Ty::Int);
        } else if cfg.closures && s.t.chance(1, 3) {
            let sc = Scope { vars: vec![], row, ev: None, resume: None, nf: 0 };
            let ft = s.closure_ty(&sc);
            params.push(Ty::Fn(Box::new(ft)));
        }
        let ret = s.simple_ty();
        s.fns.push(FnDef { name: format!("f{f}"), t: FnTy { conv, params, ret, row }, recursive });
        s.function(f);
    }
    let ne = 1 + s.t.idx(2);
    let mut entries = vec![];
    for e in 0..ne {
        let n = format!("e{e}");
        s.entry(&n);
        entries.push(n);
    }
    let Fx { mut ctx, st, .. } = s;
    let r = region(&mut ctx, &[mod_blk]);
    let module = mk(&mut ctx, "core.module", O { attrs: vec![("sym_name".into(), Attribute::Symbol(sym("m")))], regions: vec![r], ..O::default() });
    FxProg { ctx, module, entries, st }
}
