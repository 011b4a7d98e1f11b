//! C38: the check behind the conversion accepts what the conversion produces and refuses any
//! module in which one rule of the physical form is broken, wherever the breach is.
use crate::ast::*;
use crate::mkir;
use engine::*;
use irkit::b::{self, O, sym};
use tribute_passes::tribute_control_to_cps::{tribute_control_to_cps, verify_tribute_control_post_cps};
use trunk_ir::context::{BlockArgData, IrContext};
use trunk_ir::printer::print_module;
use trunk_ir::refs::*;
use trunk_ir::types::{Attribute, TypeDataBuilder};

const CC: &str = "tribute.calling_convention";
struct P<'a> {
    ctx: &'a mut IrContext,
    root: OpRef,
    /// every op below the root, with the module it belongs to
    ops: Vec<(OpRef, OpRef)>,
    cc: String,
}
fn walk(ctx: &IrContext, op: OpRef, module: OpRef, out: &mut Vec<(OpRef, OpRef)>) {
    for r in ctx.op(op).regions.to_vec() {
        for blk in ctx.region(r).blocks.to_vec() {
            for o in ctx.block(blk).ops.to_vec() {
                out.push((o, module));
                let m = if name(ctx, o) == "core.module" { o } else { module };
                walk(ctx, o, m, out);
            }
        }
    }
}
fn name(ctx: &IrContext, op: OpRef) -> String {
    format!("{}.{}", ctx.op(op).dialect, ctx.op(op).name)
}
impl P<'_> {
    fn pick(&self, t: &mut Tape, names: &[&str]) -> Option<OpRef> {
        let v: Vec<OpRef> = self.ops.iter().map(|x| x.0).filter(|o| names.contains(&name(self.ctx, *o).as_str())).collect();
        if v.is_empty() { None } else { Some(*t.pick(&v)) }
    }
    /// Any operation inside a function.
    fn inner(&self, t: &mut Tape) -> Option<OpRef> {
        let v: Vec<OpRef> = self.ops.iter().map(|x| x.0).filter(|o| !["func.func", "core.module", "scf.case", "scf.default"].contains(&name(self.ctx, *o).as_str())).collect();
        if v.is_empty() { None } else { Some(*t.pick(&v)) }
    }
    fn before(&mut self, at: OpRef, nm: &str, o: O) -> OpRef {
        let op = b::mk(self.ctx, nm, o);
        let blk = self.ctx.op(at).parent_block.unwrap();
        self.ctx.insert_op_before(blk, at, op);
        op
    }
    fn konst(&mut self, at: OpRef, ty: TypeRef) -> ValueRef {
        let op = self.before(at, "arith.const", O { results: vec![ty], attrs: vec![("value".into(), Attribute::Int(1))], ..O::default() });
        self.ctx.op_result(op, 0)
    }
    fn other_ty(&mut self, t: TypeRef) -> TypeRef {
        let i = b::core(self.ctx, "i32");
        if t == i { b::core(self.ctx, "i1") } else { i }
    }
    /// A type of the source form, inside up to three other types.
    fn logical(&mut self, t: &mut Tape) -> TypeRef {
        let i = b::core(self.ctx, "i32");
        let mut x = if t.bool() {
            mkir::fn_ty(self.ctx, &FnTy { params: vec![Ty::I32], ret: Ty::I32, conv: t.idx(3) as u8, needs: 0, inst: -1 })
        } else {
            self.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(i).build())
        };
        for _ in 0..t.upto(3) {
            x = match t.idx(5) {
                0 => self.ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("array")).param(x).build()),
                1 => b::fnty(self.ctx, i, &[i, x]),
                2 => b::fnty(self.ctx, x, &[i]),
                3 => self.ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym("Box"))).attr(sym("fields"), Attribute::List(vec![Attribute::List(vec![Attribute::Symbol(sym("a")), Attribute::Type(i)]), Attribute::List(vec![Attribute::Symbol(sym("b")), Attribute::Type(x)])])).build()),
                _ => self.ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("enum")).attr(sym("name"), Attribute::Symbol(sym("E"))).attr(sym("variants"), Attribute::List(vec![Attribute::List(vec![Attribute::Symbol(sym("V")), Attribute::List(vec![Attribute::Type(i), Attribute::Type(x)])])])).build()),
            };
        }
        x
    }
    fn conv(&self, op: OpRef) -> Option<i128> {
        match self.ctx.op(op).attributes.get(&sym(&self.cc)) {
            Some(Attribute::Int(v)) => Some(*v),
            _ => None,
        }
    }
    fn set(&mut self, op: OpRef, k: &str, v: Attribute) {
        self.ctx.op_mut(op).attributes.insert(sym(k), v);
    }
    fn module_of(&self, op: OpRef) -> OpRef {
        self.ops.iter().find(|x| x.0 == op).unwrap().1
    }
    fn func_named(&self, module: OpRef, n: trunk_ir::Symbol) -> Option<OpRef> {
        self.ops.iter().filter(|x| x.1 == module && name(self.ctx, x.0) == "func.func").map(|x| x.0).find(|o| self.ctx.op(*o).attributes.get_symbol("sym_name") == Some(n))
    }
}
type Kind = (&'static str, fn(&mut P, &mut Tape) -> Option<String>);
const KINDS: &[Kind] = &[
    ("a residual control operation", |m, t| {
        let at = m.inner(t)?;
        let i = b::core(m.ctx, "i32");
        let n = *t.pick(&["call", "yield", "return", "perform", "whatever", "resume"]);
        m.before(at, &format!("tribute_control.{n}"), O { results: if t.bool() { vec![i] } else { vec![] }, ..O::default() });
        Some(n.into())
    }),
    ("a source type", |m, t| {
        let x = m.logical(t);
        Some(match t.idx(5) {
            0 => {
                let at = m.inner(t)?;
                m.before(at, "other.op", O { results: vec![x], ..O::default() });
                "result".into()
            }
            1 => {
                let v: Vec<OpRef> = m.ops.iter().map(|x| x.0).collect();
                let at = *t.pick(&v);
                m.set(at, "extra", Attribute::Type(x));
                "attribute".into()
            }
            2 => {
                let v: Vec<OpRef> = m.ops.iter().map(|x| x.0).collect();
                let at = *t.pick(&v);
                m.set(at, "extra", Attribute::List(vec![Attribute::Int(1), Attribute::List(vec![Attribute::Type(x)])]));
                "nested attribute".into()
            }
            3 => {
                let at = m.inner(t)?;
                let blk = b::block(m.ctx, &[x]);
                let blk0 = b::block(m.ctx, &[]);
                let r = if t.bool() { b::region(m.ctx, &[blk]) } else { b::region(m.ctx, &[blk0, blk]) };
                m.before(at, "other.op", O { regions: vec![r], ..O::default() });
                "block argument".into()
            }
            _ => {
                m.ctx.register_type_alias(sym("Later"), x);
                "alias".into()
            }
        })
    }),
    ("a callable operation without a convention", |m, t| {
        let op = m.pick(t, &["func.func", "func.call", "func.call_indirect", "func.tail_call", "func.tail_call_indirect", "closure.lambda", "closure.new"])?;
        let k = sym(&m.cc);
        let n = name(m.ctx, op);
        Some(match t.idx(4) {
            0 => {
                m.ctx.op_mut(op).attributes.remove(&k);
                format!("{n} none")
            }
            1 => {
                m.ctx.op_mut(op).attributes.insert(k, Attribute::Int(3 + t.idx(300) as i128));
                format!("{n} too large")
            }
            2 => {
                m.ctx.op_mut(op).attributes.insert(k, Attribute::Int(-1 - t.idx(300) as i128));
                format!("{n} negative")
            }
            _ => {
                m.ctx.op_mut(op).attributes.insert(k, Attribute::String("2".into()));
                format!("{n} text")
            }
        })
    }),
    ("a call whose convention is not its target's", |m, t| {
        let op = m.pick(t, &["func.call"])?;
        let c = m.conv(op)?;
        let d = (c + 1 + t.idx(2) as i128) % 3;
        let k = m.cc.clone();
        m.set(op, &k, Attribute::Int(d));
        Some(format!("{c} -> {d}"))
    }),
    ("a call of nothing", |m, t| {
        let op = m.pick(t, &["func.call", "func.tail_call"])?;
        let own = m.module_of(op);
        // a function of another module, or none at all
        let names: Vec<trunk_ir::Symbol> = m.ops.iter().filter(|x| x.1 != own && name(m.ctx, x.0) == "func.func").filter_map(|x| m.ctx.op(x.0).attributes.get_symbol("sym_name")).filter(|n| m.func_named(own, *n).is_none()).collect();
        let n = if names.is_empty() || t.bool() { sym("nowhere") } else { *t.pick(&names) };
        m.set(op, "callee", Attribute::Symbol(n));
        Some(format!("{} {n}", name(m.ctx, op)))
    }),
    ("a tail transfer outside the convention", |m, t| {
        let op = m.pick(t, &["func.tail_call", "func.tail_call_indirect"])?;
        let k = m.cc.clone();
        m.set(op, &k, Attribute::Int(t.idx(2) as i128));
        Some(name(m.ctx, op))
    }),
    ("a tail transfer with other arguments", |m, t| {
        let op = m.pick(t, &["func.tail_call"])?;
        let vs = m.ctx.op_operands(op).to_vec();
        Some(match t.idx(3) {
            0 => {
                let i = b::core(m.ctx, "i32");
                let v = m.konst(op, i);
                m.ctx.push_op_operand(op, v);
                "one more".into()
            }
            1 => {
                let k = t.idx(vs.len());
                m.ctx.remove_op_operand(op, k as u32);
                // dropping one of two equal operands in a row changes the length, never the fit
                format!("without {k}")
            }
            _ => {
                let k = t.idx(vs.len());
                let ty = m.ctx.value_ty(vs[k]);
                let o = m.other_ty(ty);
                let v = m.konst(op, o);
                m.ctx.set_op_operand(op, k as u32, v);
                format!("type of {k}")
            }
        })
    }),
    ("a tail transfer to a function that returns", |m, t| {
        let op = m.pick(t, &["func.tail_call"])?;
        let callee = m.ctx.op(op).attributes.get_symbol("callee")?;
        let own = m.module_of(op);
        let f = m.func_named(own, callee)?;
        let ty = m.ctx.op(f).attributes.get_type("type")?;
        let ps = m.ctx.types.get(ty).params.to_vec();
        let i = b::core(m.ctx, *t.pick(&["i32", "nil", "i1"]));
        let nt = b::fnty(m.ctx, i, &ps[1..]);
        m.set(f, "type", Attribute::Type(nt));
        Some(callee.to_string())
    }),
    ("an indirect call in the CPS convention", |m, t| {
        let op = m.pick(t, &["func.call_indirect"])?;
        let k = m.cc.clone();
        m.set(op, &k, Attribute::Int(2));
        Some(String::new())
    }),
    ("a malformed delimiter", |m, t| {
        let op = m.pick(t, &["ability.handle_dispatch"])?;
        let vs = m.ctx.op_operands(op).to_vec();
        let pairs = (vs.len() - 1) / 2;
        let Some(Attribute::List(refs)) = m.ctx.op(op).attributes.get("ability_refs").cloned() else { return None };
        Some(match t.idx(9) {
            0 => {
                let i = b::core(m.ctx, "i32");
                let v = m.konst(op, i);
                m.ctx.set_op_operand(op, 0, v);
                "evidence is an integer"
            }
            1 if pairs > 0 => {
                m.ctx.remove_op_operand(op, (1 + t.idx(vs.len() - 1)) as u32);
                "half a pair"
            }
            2 if pairs > 0 => {
                let mut r = refs.clone();
                r.remove(t.idx(r.len()));
                m.set(op, "ability_refs", Attribute::List(r));
                "fewer abilities than pairs"
            }
            3 => {
                let mut r = refs.clone();
                r.push(r.first().cloned().unwrap_or(Attribute::Int(1)));
                m.set(op, "ability_refs", Attribute::List(r));
                "more abilities than pairs"
            }
            4 if pairs > 0 => {
                let mut r = refs.clone();
                let k = t.idx(r.len());
                let i = b::core(m.ctx, "i32");
                r[k] = if t.bool() { Attribute::Type(i) } else { Attribute::Symbol(sym("A")) };
                m.set(op, "ability_refs", Attribute::List(r));
                "an entry that is no ability"
            }
            5 if pairs > 0 => {
                let k = t.idx(pairs);
                m.ctx.set_op_operand(op, (1 + 2 * k) as u32, vs[2 + 2 * k]);
                m.ctx.set_op_operand(op, (2 + 2 * k) as u32, vs[1 + 2 * k]);
                "dispatchers of a pair exchanged"
            }
            6 if pairs > 0 => {
                let v = vs[1 + t.idx(vs.len() - 1)];
                let trunk_ir::ValueDef::OpResult(d, _) = m.ctx.value_def(v) else { return None };
                let c = m.conv(d)?;
                let k = m.cc.clone();
                m.set(d, &k, Attribute::Int((c + 1 + t.idx(2) as i128) % 3));
                "dispatcher of another convention"
            }
            7 if pairs > 0 => {
                // a dispatcher of unknown origin
                let k = 1 + t.idx(vs.len() - 1);
                let ty = m.ctx.value_ty(vs[k]);
                let c = m.before(op, "core.unrealized_conversion_cast", O { operands: vec![vs[k]], results: vec![ty], ..O::default() });
                let v = m.ctx.op_result(c, 0);
                m.ctx.set_op_operand(op, k as u32, v);
                "dispatcher without convention"
            }
            8 => {
                let r = m.ctx.op(op).regions[0];
                let blk = m.ctx.region(r).blocks[0];
                let i = b::core(m.ctx, "i32");
                m.ctx.add_block_arg(blk, BlockArgData { ty: i, attrs: Default::default() });
                "body with two arguments"
            }
            _ => return None,
        }.into())
    }),
    ("a dispatcher of another type", |m, t| {
        let op = m.pick(t, &["ability.handle_dispatch"])?;
        let vs = m.ctx.op_operands(op).to_vec();
        if vs.len() < 3 {
            return None;
        }
        let k = 1 + t.idx(vs.len() - 1);
        let ty = m.ctx.types.get(m.ctx.value_ty(vs[k])).clone();
        let ft = ty.params[0];
        let mut ps = m.ctx.types.get(ft).params.to_vec();
        let j = t.idx(ps.len());
        let what = if t.bool() {
            ps[j] = m.other_ty(ps[j]);
            "component replaced"
        } else {
            ps.remove(j);
            if ps.is_empty() {
                return None;
            }
            "component removed"
        };
        let nf = b::fnty(m.ctx, ps[0], &ps[1..]);
        let mut bld = TypeDataBuilder::new(ty.dialect, ty.name).param(nf);
        for (k, v) in ty.attrs.iter() {
            bld = bld.attr(*k, v.clone());
        }
        let nt = m.ctx.types.intern(bld.build());
        let trunk_ir::ValueDef::OpResult(d, _) = m.ctx.value_def(vs[k]) else { return None };
        let c = m.conv(d)?;
        let cc = m.cc.clone();
        let cast = m.before(op, "core.unrealized_conversion_cast", O { operands: vec![vs[k]], results: vec![nt], attrs: vec![(cc, Attribute::Int(c))], ..O::default() });
        let v = m.ctx.op_result(cast, 0);
        m.ctx.set_op_operand(op, k as u32, v);
        Some(format!("{} {what} at {j}", if k % 2 == 1 { "tail" } else { "general" }))
    }),
    ("a value of another function", |m, t| {
        let a = m.inner(t)?;
        let top = |m: &P, op: OpRef| {
            let mut o = op;
            while name(m.ctx, o) != "func.func" {
                let blk = m.ctx.op(o).parent_block?;
                o = m.ctx.region(m.ctx.block(blk).parent_region?).parent_op?;
            }
            Some(o)
        };
        let v: Vec<OpRef> = m.ops.iter().map(|x| x.0).filter(|o| !m.ctx.op_results(*o).is_empty()).collect();
        let d = *v.get(t.idx(v.len().max(1)))?;
        if top(m, a)? == top(m, d)? {
            return None;
        }
        let r = m.ctx.op_result(d, 0);
        m.before(a, "other.op", O { operands: vec![r], ..O::default() });
        Some(name(m.ctx, d))
    }),
];
pub fn post(t: &mut Tape) -> CaseResult {
    let k = t.idx(KINDS.len());
    let p = gen_prog(t, true);
    let mut ctx = IrContext::new();
    let root = mkir::build(&mut ctx, &p, "m");
    let m = mkir::module(&ctx, root);
    let decls = mkir::decls(&mut ctx, &p);
    let source = print_module(&ctx, root);
    if t.chance(1, 4) {
        let ft = mkir::fn_ty(&mut ctx, &p.funcs[t.idx(3)].ty.clone());
        ctx.register_type_alias(sym("Cb"), ft);
    }
    if let Err(e) = tribute_control_to_cps(&mut ctx, m, &decls) {
        return fail(format!("well-formed module is rejected: {e}"), source);
    }
    let good = print_module(&ctx, root);
    if let Err(e) = verify_tribute_control_post_cps(&ctx, m) {
        return fail(format!("converted module is refused: {e}"), good);
    }
    let mut ops = vec![];
    walk(&ctx, root, root, &mut ops);
    // the name the convention is recorded under is whatever the conversion uses
    let cc = ops.iter().find(|x| name(&ctx, x.0) == "func.func").and_then(|x| ctx.op(x.0).attributes.iter().map(|(k, _)| k.to_string()).find(|k| k.contains("convention"))).unwrap_or(CC.into());
    let (kind, f) = KINDS[k];
    let what = f(&mut P { ctx: &mut ctx, root, ops, cc }, t);
    let Some(what) = what else {
        return Ok(Case { nontrivial: false, key: hash_str(&good), render: String::new(), tags: vec!["no site".into()] });
    };
    let text = format!("{kind}: {what}\n{}", print_module(&ctx, root));
    match guard(|| verify_tribute_control_post_cps(&ctx, m)) {
        Err(e) => return fail(format!("the check panics on a module with {kind} ({what}): {e}"), text),
        Ok(Ok(())) => return fail(format!("a module with {kind} ({what}) is accepted"), text),
        Ok(Err(_)) => {}
    }
    Ok(Case { nontrivial: true, key: hash_str(&text), render: text, tags: vec![kind.to_string()] })
}
