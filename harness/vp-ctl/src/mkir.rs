//! Program -> tribute_control IR.
use crate::ast::*;
use irkit::b::{self, O, sym};
use std::collections::HashMap;
use std::rc::Rc;
use tribute_ir::dialect::tribute_control as tc;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::{Attribute, TypeDataBuilder};

pub fn conv(c: u8) -> tc::CallingConvention {
    match c {
        0 => tc::CallingConvention::Direct,
        1 => tc::CallingConvention::EvidenceDirect,
        _ => tc::CallingConvention::Cps,
    }
}
pub fn fn_ty(ctx: &mut IrContext, f: &FnTy) -> TypeRef {
    let r = ty(ctx, &f.ret);
    let ps: Vec<TypeRef> = f.params.iter().map(|p| ty(ctx, p)).collect();
    tc::callable(ctx, r, ps, conv(f.conv)).as_type_ref()
}
pub fn pair_ty(ctx: &mut IrContext) -> TypeRef {
    let i = b::core(ctx, "i32");
    let f = tc::callable(ctx, i, [i], tc::CallingConvention::Direct).as_type_ref();
    let fields = vec![
        Attribute::List(vec![Attribute::Symbol(sym("a")), Attribute::Type(i)]),
        Attribute::List(vec![Attribute::Symbol(sym("f")), Attribute::Type(f)]),
    ];
    ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr("name", Attribute::Symbol(sym("Pair"))).attr("fields", Attribute::List(fields)).build())
}
pub fn ty(ctx: &mut IrContext, t: &Ty) -> TypeRef {
    match t {
        Ty::I32 => b::core(ctx, "i32"),
        Ty::I1 => b::core(ctx, "i1"),
        Ty::Never => b::core(ctx, "never"),
        Ty::Pair => pair_ty(ctx),
        Ty::Fn(f) => fn_ty(ctx, &f.clone()),
    }
}
pub fn ability_ty(ctx: &mut IrContext, p: &Prog, a: usize) -> TypeRef {
    let base = if p.inner { "In" } else { "Ab" };
    let mut d = TypeDataBuilder::new(sym("core"), sym("ability_ref"));
    let name = match p.inst.get(a) {
        None => format!("{base}{a}"),
        Some(i) => {
            let named = |ctx: &mut IrContext, n: &str| ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("typeref")).attr("name", Attribute::Symbol(sym(n))).build());
            let (x, y) = (b::core(ctx, "i32"), b::core(ctx, "i1"));
            let (foo, bar) = (named(ctx, "Foo"), named(ctx, "Bar"));
            d = d.params(match i {
                0 => vec![],
                1 => vec![x],
                2 => vec![y],
                3 => vec![foo],
                4 => vec![bar],
                5 => vec![foo, bar],
                6 => vec![bar, foo],
                8 | 9 => {
                    let ft = FnTy { conv: if *i == 8 { 0 } else { 2 }, params: vec![Ty::I32], ret: Ty::I32, needs: 0, inst: -1 };
                    vec![fn_ty(ctx, &ft)]
                }
                _ => vec![x, y],
            });
            base.to_string()
        }
    };
    ctx.types.intern(d.attr("name", Attribute::Symbol(sym(&name))).build())
}
pub fn decls(ctx: &mut IrContext, p: &Prog) -> Vec<tc::OperationDeclaration> {
    let mut v = vec![];
    for (a, ops) in p.abilities.iter().enumerate() {
        for o in ops {
            let ability_ref = ability_ty(ctx, p, a);
            let parameter_types = o.params.iter().map(|t| ty(ctx, t)).collect();
            let result_type = ty(ctx, &o.ret);
            v.push(tc::OperationDeclaration { ability_ref, op_name: sym(&o.name), kind: sym(if o.is_fn { "fn" } else { "op" }), parameter_types, result_type });
        }
    }
    if let Some(n) = &p.nested {
        v.extend(decls(ctx, n));
    }
    v
}
struct B<'a> {
    ctx: &'a mut IrContext,
    p: &'a Prog,
}
type Map = HashMap<Var, ValueRef>;
impl B<'_> {
    fn vty(&mut self, v: Var) -> TypeRef {
        if let Some((i, a)) = self.p.toks.get(&v) {
            let (i, a) = (ty(self.ctx, i), ty(self.ctx, a));
            return self.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(a).build());
        }
        let t = self.p.vars[v].clone();
        ty(self.ctx, &t)
    }
    fn region(&mut self, params: &[Var], body: &Body, map: &Map) -> RegionRef {
        let tys: Vec<TypeRef> = params.iter().map(|v| self.vty(*v)).collect();
        let blk = b::block(self.ctx, &tys);
        let mut m = map.clone();
        for (i, v) in params.iter().enumerate() {
            m.insert(*v, self.ctx.block_args(blk)[i]);
        }
        self.fill(blk, body, &mut m);
        b::region(self.ctx, &[blk])
    }
    fn fill(&mut self, blk: BlockRef, body: &Body, m: &mut Map) {
        for s in &body.stmts {
            let results: Vec<TypeRef> = s.outs.iter().map(|v| self.vty(*v)).collect();
            let mut o = O { results, ..O::default() };
            let g = |v: &Var, m: &Map| *m.get(v).unwrap_or_else(|| panic!("generator: variable {v} is not in scope"));
            let at = |o: &mut O, k: &str, a: Attribute| o.attrs.push((k.into(), a));
            let name = match &s.k {
                K::Const(n) => {
                    at(&mut o, "value", Attribute::Int(*n as i128));
                    "arith.const".to_string()
                }
                K::Bin(op, a, c) => {
                    o.operands = vec![g(a, m), g(c, m)];
                    format!("arith.{op}")
                }
                K::Cmp(op, a, c) => {
                    o.operands = vec![g(a, m), g(c, m)];
                    at(&mut o, "predicate", Attribute::Symbol(sym(op)));
                    "arith.cmpi".into()
                }
                K::Pack(a, c) => {
                    o.operands = vec![g(a, m), g(c, m)];
                    let t = pair_ty(self.ctx);
                    at(&mut o, "type", Attribute::Type(t));
                    "adt.struct_new".into()
                }
                K::Get(a, i) => {
                    o.operands = vec![g(a, m)];
                    let t = pair_ty(self.ctx);
                    at(&mut o, "type", Attribute::Type(t));
                    at(&mut o, "field", Attribute::Int(*i as i128));
                    "adt.struct_get".into()
                }
                K::Lambda(l) => {
                    o.operands = l.captures.iter().map(|v| g(v, m)).collect();
                    o.regions = vec![self.region(&l.params, &l.body, m)];
                    "tribute_control.lambda".into()
                }
                K::FuncRef(f, _) => {
                    at(&mut o, "func_ref", Attribute::Symbol(sym(&self.p.funcs[*f].name)));
                    "tribute_control.func_ref".into()
                }
                K::Call(f, a) => {
                    o.operands = a.iter().map(|v| g(v, m)).collect();
                    at(&mut o, "callee", Attribute::Symbol(sym(&self.p.funcs[*f].name)));
                    "tribute_control.call".into()
                }
                K::CallInd(c, a) => {
                    o.operands = vec![g(c, m)];
                    o.operands.extend(a.iter().map(|v| g(v, m)));
                    "tribute_control.call_indirect".into()
                }
                K::Perform(ai, oi, a) => {
                    o.operands = a.iter().map(|v| g(v, m)).collect();
                    let d = &self.p.abilities[*ai][*oi];
                    let t = ability_ty(self.ctx, self.p, *ai);
                    at(&mut o, "ability_ref", Attribute::Type(t));
                    at(&mut o, "op_name", Attribute::Symbol(sym(&d.name)));
                    at(&mut o, "operation_kind", Attribute::Symbol(sym(if d.is_fn { "fn" } else { "op" })));
                    "tribute_control.perform".into()
                }
                K::Resume(a, c) => {
                    o.operands = vec![g(a, m), g(c, m)];
                    "tribute_control.resume".into()
                }
                K::If(c, x, y) => {
                    o.operands = vec![g(c, m)];
                    o.regions = vec![self.region(&[], x, m), self.region(&[], y, m)];
                    "scf.if".into()
                }
                K::Switch(d, cs, df) => {
                    o.operands = vec![g(d, m)];
                    let sb = b::block(self.ctx, &[]);
                    for (v, x) in cs {
                        let r = self.region(&[], x, m);
                        b::put(self.ctx, sb, "scf.case", O { attrs: vec![("value".into(), Attribute::Int(*v as i128))], regions: vec![r], ..O::default() });
                    }
                    let r = self.region(&[], df, m);
                    b::put(self.ctx, sb, "scf.default", O { regions: vec![r], ..O::default() });
                    o.regions = vec![b::region(self.ctx, &[sb])];
                    "scf.switch".into()
                }
                K::Handle(h) => {
                    let r1 = self.region(&[], &h.body, m);
                    let r2 = self.region(&[h.comp_arg], &h.comp, m);
                    let hb = b::block(self.ctx, &[]);
                    for a in &h.arms {
                        let d = self.p.abilities[a.ability][a.op].clone();
                        let mut ps = a.params.clone();
                        ps.extend(a.tok);
                        let r = self.region(&ps, &a.body, m);
                        let at = ability_ty(self.ctx, self.p, a.ability);
                        let rt = ty(self.ctx, &d.ret);
                        b::put(self.ctx, hb, "tribute_control.handler", O {
                            attrs: vec![
                                ("ability_ref".into(), Attribute::Type(at)),
                                ("op_name".into(), Attribute::Symbol(sym(&d.name))),
                                ("kind".into(), Attribute::Symbol(sym(if d.is_fn { "fn" } else { "op" }))),
                                ("operation_result_type".into(), Attribute::Type(rt)),
                            ],
                            regions: vec![r],
                            ..O::default()
                        });
                    }
                    let r3 = b::region(self.ctx, &[hb]);
                    o.regions = vec![r1, r2, r3];
                    "tribute_control.handle".into()
                }
            };
            let op = b::put(self.ctx, blk, &name, o);
            for (i, v) in s.outs.iter().enumerate() {
                m.insert(*v, self.ctx.op_result(op, i as u32));
            }
        }
        let (name, vs) = match &body.term {
            Term::Return(v) => ("tribute_control.return", vec![*v]),
            Term::Yield(v) => ("tribute_control.yield", vec![*v]),
            Term::ScfYield(v) => ("scf.yield", v.clone()),
        };
        let operands = vs.iter().map(|v| *m.get(v).unwrap_or_else(|| panic!("generator: variable {v} is not in scope"))).collect();
        b::put(self.ctx, blk, name, O { operands, ..O::default() });
    }
}
pub fn build(ctx: &mut IrContext, p: &Prog, name: &str) -> OpRef {
    let mut ops = vec![];
    let nested_first = p.nested.is_some() && p.funcs.len() % 2 == 0;
    if nested_first {
        ops.push(build(ctx, p.nested.as_ref().unwrap(), "inner"));
    }
    for f in &p.funcs {
        let t = fn_ty(ctx, &f.ty);
        let mut attrs = vec![("sym_name".to_string(), Attribute::Symbol(sym(&f.name))), ("type".to_string(), Attribute::Type(t))];
        if let Some(n) = f.extra {
            attrs.push(("note".into(), Attribute::Int(n as i128)));
            attrs.push(("sig".into(), Attribute::List(vec![Attribute::Type(t)])));
        }
        let regions = match &f.body {
            Some(b) => vec![B { ctx, p }.region(&f.params, b, &HashMap::new())],
            None => vec![],
        };
        ops.push(b::mk(ctx, "tribute_control.func", O { attrs, regions, ..O::default() }));
    }
    if let Some(n) = &p.nested
        && !nested_first
    {
        ops.push(build(ctx, n, "inner"));
    }
    b::module(ctx, name, &ops)
}
pub fn module(ctx: &IrContext, op: OpRef) -> Module {
    Module::new(ctx, op).expect("module")
}
