//! C35: malformed control modules are refused and left untouched. A well-formed module is
//! generated, one violation is injected at a random place.
use crate::ast::*;
use crate::mkir;
use engine::*;
use irkit::b::{self, O, sym};
use tribute_ir::dialect::tribute_control as tc;
use tribute_passes::tribute_control_to_cps::{tribute_control_to_cps, verify_tribute_control_pre_cps};
use trunk_ir::context::{BlockArgData, IrContext};
use trunk_ir::printer::print_module;
use trunk_ir::ops::DialectType;
use trunk_ir::refs::*;
use trunk_ir::types::{Attribute, TypeDataBuilder};
use trunk_ir::ir_mapping::IrMapping;

struct M<'a> {
    ctx: &'a mut IrContext,
    root: OpRef,
    decls: &'a mut Vec<tc::OperationDeclaration>,
    p: &'a Prog,
    /// Every op below the root, and the module it belongs to.
    ops: Vec<(OpRef, OpRef)>,
}
fn walk(ctx: &IrContext, op: OpRef, module: OpRef, out: &mut Vec<(OpRef, OpRef)>) {
    for r in ctx.op(op).regions.to_vec() {
        for blk in ctx.region(r).blocks.to_vec() {
            for o in ctx.block(blk).ops.to_vec() {
                out.push((o, module));
                let m = if name(ctx, o) == "core.module" { o } else { module };
                walk(ctx, o, m, out);
            }
        }
    }
}
fn name(ctx: &IrContext, op: OpRef) -> String {
    format!("{}.{}", ctx.op(op).dialect, ctx.op(op).name)
}
impl M<'_> {
    fn is(&self, op: OpRef, names: &[&str]) -> bool {
        let n = name(self.ctx, op);
        n.strip_prefix("tribute_control.").is_some_and(|n| names.contains(&n))
    }
    fn all(&self, names: &[&str]) -> Vec<OpRef> {
        self.ops.iter().map(|x| x.0).filter(|o| self.is(*o, names)).collect()
    }
    fn any(&self, t: &mut Tape, names: &[&str]) -> Option<OpRef> {
        let v = self.all(names);
        if v.is_empty() { None } else { Some(*t.pick(&v)) }
    }
    fn before(&mut self, at: OpRef, nm: &str, o: O) -> OpRef {
        let op = b::mk(self.ctx, nm, o);
        let blk = self.ctx.op(at).parent_block.unwrap();
        self.ctx.insert_op_before(blk, at, op);
        op
    }
    fn konst(&mut self, at: OpRef, ty: &str) -> ValueRef {
        let t = b::core(self.ctx, ty);
        let op = self.before(at, "arith.const", O { results: vec![t], attrs: vec![("value".into(), Attribute::Int(1))], ..O::default() });
        self.ctx.op_result(op, 0)
    }
    fn cast(&mut self, at: OpRef, v: ValueRef, ty: TypeRef) -> ValueRef {
        let op = self.before(at, "core.unrealized_conversion_cast", O { operands: vec![v], results: vec![ty], ..O::default() });
        self.ctx.op_result(op, 0)
    }
    fn i32(&mut self) -> TypeRef {
        b::core(self.ctx, "i32")
    }
    /// A value whose type differs from `v`'s.
    fn other(&mut self, at: OpRef, v: ValueRef) -> ValueRef {
        let i = self.i32();
        if self.ctx.value_ty(v) == i { self.konst(at, "i1") } else { self.konst(at, "i32") }
    }
    fn other_ty(&mut self, t: TypeRef) -> TypeRef {
        let i = self.i32();
        if t == i { b::core(self.ctx, "i1") } else { i }
    }
    fn blk(&self, op: OpRef, r: usize) -> BlockRef {
        self.ctx.region(self.ctx.op(op).regions[r]).blocks[0]
    }
    /// Enclosing function of `op`.
    fn func_of(&self, op: OpRef) -> Option<OpRef> {
        let mut o = op;
        loop {
            let blk = self.ctx.op(o).parent_block?;
            let r = self.ctx.block(blk).parent_region?;
            o = self.ctx.region(r).parent_op?;
            if self.is(o, &["func"]) {
                return Some(o);
            }
        }
    }
    fn names_in(&self, module: OpRef) -> Vec<String> {
        self.ops.iter().filter(|x| x.1 == module && self.is(x.0, &["func"])).map(|x| self.ctx.op(x.0).attributes.get_symbol("sym_name").unwrap().to_string()).collect()
    }
    /// Code after an operation that never returns is not converted.
    fn dead(&mut self, op: OpRef) -> bool {
        let never = b::core(self.ctx, "never");
        let mut o = op;
        loop {
            let Some(blk) = self.ctx.op(o).parent_block else { return false };
            if self.ctx.block(blk).ops.iter().take_while(|x| **x != o).any(|x| self.ctx.op_result_types(*x).contains(&never)) {
                return true;
            }
            let Some(p) = self.ctx.block(blk).parent_region.and_then(|r| self.ctx.region(r).parent_op) else { return false };
            o = p;
        }
    }
    fn returns(&self, conv: &[u8]) -> Vec<OpRef> {
        self.all(&["return"]).into_iter().filter(|r| {
            let blk = self.ctx.op(*r).parent_block.unwrap();
            let o = self.ctx.region(self.ctx.block(blk).parent_region.unwrap()).parent_op.unwrap();
            let ty = if self.is(o, &["func"]) { self.ctx.op(o).attributes.get_type("type").unwrap() } else { self.ctx.op_result_types(o)[0] };
            let c = tc::callable_convention(self.ctx, ty).unwrap();
            conv.iter().any(|x| mkir::conv(*x) == c)
        }).collect()
    }
    fn perform(&mut self, at: OpRef, ai: usize, oi: usize) -> Option<()> {
        let d = self.p.abilities[ai][oi].clone();
        let mut operands = vec![];
        for ty in &d.params {
            operands.push(match ty {
                Ty::I32 => self.konst(at, "i32"),
                Ty::I1 => self.konst(at, "i1"),
                _ => return None,
            });
        }
        let at_ty = mkir::ability_ty(self.ctx, self.p, ai);
        let r = mkir::ty(self.ctx, &d.ret);
        self.before(at, "tribute_control.perform", O {
            operands,
            results: vec![r],
            attrs: vec![("ability_ref".into(), Attribute::Type(at_ty)), ("op_name".into(), Attribute::Symbol(sym(&d.name))), ("operation_kind".into(), Attribute::Symbol(sym(if d.is_fn { "fn" } else { "op" })))],
            ..O::default()
        });
        Some(())
    }
    fn trace(&mut self, at: OpRef, conv: u8) {
        let v = self.konst(at, "i32");
        let i = self.i32();
        let nm = ["trace_d", "trace_e", "trace_c"][conv as usize];
        self.before(at, "tribute_control.call", O { operands: vec![v], results: vec![i], attrs: vec![("callee".into(), Attribute::Symbol(sym(nm)))], ..O::default() });
    }
    /// Operation after `op` in its block.
    fn next(&self, op: OpRef) -> OpRef {
        let ops = &self.ctx.block(self.ctx.op(op).parent_block.unwrap()).ops;
        ops[ops.iter().position(|x| *x == op).unwrap() + 1]
    }
    fn module_of(&self, op: OpRef) -> OpRef {
        self.ops.iter().find(|x| x.0 == op).map_or(self.root, |x| x.1)
    }
    /// Value of a simple type.
    fn simple(&mut self, at: OpRef, ty: TypeRef) -> Option<ValueRef> {
        let (i, j) = (self.i32(), b::core(self.ctx, "i1"));
        if ty == i { Some(self.konst(at, "i32")) } else if ty == j { Some(self.konst(at, "i1")) } else { None }
    }
    /// Removes a call, its uses taking `v` instead.
    fn replace(&mut self, op: OpRef, v: ValueRef) {
        let r = self.ctx.op_result(op, 0);
        self.ctx.replace_all_uses(r, v);
        self.ctx.detach_op(op);
        self.ctx.remove_op(op);
        self.ops.retain(|x| x.0 != op);
    }
    /// Calls of `carrier`.
    fn calls_of(&self, carrier: ValueRef) -> Vec<OpRef> {
        self.ctx.uses(carrier).iter().filter(|u| u.operand_index == 0 && self.is(u.user, &["call_indirect"])).map(|u| u.user).collect()
    }
    /// Replaces a call of `carrier` by a call of a new lambda that calls it `n` times; gives the new call.
    fn wrap(&mut self, call: OpRef, n: usize) -> OpRef {
        let operands = self.ctx.op_operands(call).to_vec();
        let r = self.ctx.op_result_types(call)[0];
        let c = tc::callable_convention(self.ctx, self.ctx.value_ty(operands[0])).unwrap();
        let ty = tc::callable(self.ctx, r, [], c).as_type_ref();
        let blk = b::block(self.ctx, &[]);
        let mut x = operands[0];
        for _ in 0..n {
            x = b::put1(self.ctx, blk, "tribute_control.call_indirect", &operands, r, &[]);
        }
        b::put0(self.ctx, blk, "tribute_control.return", &[x], &[], &[]);
        let rg = b::region(self.ctx, &[blk]);
        let mut caps = vec![];
        for v in operands {
            if !caps.contains(&v) {
                caps.push(v);
            }
        }
        let l = self.before(call, "tribute_control.lambda", O { operands: caps, results: vec![ty], regions: vec![rg], ..O::default() });
        let lv = self.ctx.op_result(l, 0);
        let u = self.before(call, "tribute_control.call_indirect", O { operands: vec![lv], results: vec![r], ..O::default() });
        let m = self.module_of(call);
        self.ops.push((l, m));
        self.ops.push((u, m));
        let uv = self.ctx.op_result(u, 0);
        self.replace(call, uv);
        u
    }
    /// A call of a value that carries a token, behind up to two more lambdas.
    fn carrier_call(&mut self, t: &mut Tape) -> Option<OpRef> {
        let v: Vec<OpRef> = carriers(self).into_iter().flat_map(|c| self.calls_of(c)).collect();
        let mut o = *v.get(t.idx(v.len().max(1)))?;
        for _ in 0..t.idx(3) {
            o = self.wrap(o, 1);
        }
        Some(o)
    }
    /// A declared function of the given types in the module of `at`.
    fn declare(&mut self, at: OpRef, ret: TypeRef, params: &[TypeRef], c: u8) -> String {
        let ty = tc::callable(self.ctx, ret, params.to_vec(), mkir::conv(c)).as_type_ref();
        let f = self.func_of(at).unwrap();
        self.before(f, "tribute_control.func", O { attrs: vec![("sym_name".into(), Attribute::Symbol(sym("taker"))), ("type".into(), Attribute::Type(ty))], ..O::default() });
        "taker".into()
    }
    /// A handle before `at` (result i32) that handles one ability; gives the first operation of each clause.
    fn handle(&mut self, t: &mut Tape, at: OpRef) -> Option<Vec<OpRef>> {
        let ok = |x: &Ty| matches!(x, Ty::I32 | Ty::I1 | Ty::Never);
        let v: Vec<usize> = (0..self.p.abilities.len()).filter(|a| self.p.abilities[*a].iter().all(|o| ok(&o.ret))).collect();
        let a = *v.get(t.idx(v.len().max(1)))?;
        let i = self.i32();
        let one = [("value", Attribute::Int(1))];
        let b1 = b::block(self.ctx, &[]);
        let x = b::put1(self.ctx, b1, "arith.const", &[], i, &one);
        b::put0(self.ctx, b1, "tribute_control.yield", &[x], &[], &[]);
        let b2 = b::block(self.ctx, &[i]);
        let x = self.ctx.block_args(b2)[0];
        b::put0(self.ctx, b2, "tribute_control.yield", &[x], &[], &[]);
        let b3 = b::block(self.ctx, &[]);
        let mut firsts = vec![];
        for o in self.p.abilities[a].clone() {
            let mut ps: Vec<TypeRef> = o.params.iter().map(|x| mkir::ty(self.ctx, x)).collect();
            let r = mkir::ty(self.ctx, &o.ret);
            if !o.is_fn && o.ret != Ty::Never {
                ps.push(self.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(r).param(i).build()));
            }
            let blk = b::block(self.ctx, &ps);
            let yt = if o.is_fn { r } else { i };
            let x = b::put1(self.ctx, blk, "arith.const", &[], yt, &one);
            b::put0(self.ctx, blk, "tribute_control.yield", &[x], &[], &[]);
            let rg = b::region(self.ctx, &[blk]);
            if !o.is_fn {
                firsts.push(self.ctx.block(blk).ops[0]);
            }
            let ab = mkir::ability_ty(self.ctx, self.p, a);
            b::put(self.ctx, b3, "tribute_control.handler", O {
                attrs: vec![("ability_ref".into(), Attribute::Type(ab)), ("op_name".into(), Attribute::Symbol(sym(&o.name))), ("kind".into(), Attribute::Symbol(sym(if o.is_fn { "fn" } else { "op" }))), ("operation_result_type".into(), Attribute::Type(r))],
                regions: vec![rg],
                ..O::default()
            });
        }
        let regions = [b1, b2, b3].map(|x| b::region(self.ctx, &[x])).to_vec();
        self.before(at, "tribute_control.handle", O { results: vec![i], regions, ..O::default() });
        Some(firsts)
    }
}
const ARGS: &[&str] = &["call", "call_indirect", "perform", "resume", "yield", "return"];
const REQ: &[(&str, &[&str])] = &[
    ("func", &["sym_name", "type"]),
    ("func_ref", &["func_ref"]),
    ("call", &["callee"]),
    ("perform", &["ability_ref", "op_name", "operation_kind"]),
    ("handler", &["ability_ref", "op_name", "kind", "operation_result_type"]),
];
type Inject = fn(&mut M, &mut Tape) -> Option<String>;
const KINDS: &[(&str, Inject)] = &[
    ("missing operand", |m, t| {
        let v: Vec<OpRef> = m.all(ARGS).into_iter().filter(|o| !m.ctx.op_operands(*o).is_empty()).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let i = t.idx(m.ctx.op_operands(o).len());
        m.ctx.remove_op_operand(o, i as u32);
        Some(format!("operand {i} of a {}", name(m.ctx, o)))
    }),
    ("excess operand", |m, t| {
        let o = m.any(t, &["call", "call_indirect", "perform", "resume", "yield", "return", "func_ref"])?;
        let k = m.konst(o, "i32");
        m.ctx.push_op_operand(o, k);
        Some(name(m.ctx, o))
    }),
    ("operand of the wrong type", |m, t| {
        let v: Vec<OpRef> = m.all(ARGS).into_iter().filter(|o| !m.ctx.op_operands(*o).is_empty()).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let i = t.idx(m.ctx.op_operands(o).len());
        let old = m.ctx.op_operands(o)[i];
        let k = m.other(o, old);
        m.ctx.set_op_operand(o, i as u32, k);
        Some(format!("operand {i} of a {}", name(m.ctx, o)))
    }),
    ("result of the wrong type", |m, t| {
        // insert a copy with another result type, so that no use is affected
        let o = m.any(t, &["call", "call_indirect", "perform"])?;
        let old = m.ctx.op_result_types(o)[0];
        let nt = m.other_ty(old);
        let c = m.ctx.clone_op(o, &mut IrMapping::new());
        let blk = m.ctx.op(o).parent_block.unwrap();
        m.ctx.insert_op_before(blk, o, c);
        m.ctx.set_op_result_type(c, 0, nt);
        Some(name(m.ctx, o))
    }),
    ("missing attribute", |m, t| {
        let (n, ks) = *t.pick(REQ);
        let o = m.any(t, &[n])?;
        let k = *t.pick(ks);
        m.ctx.op_mut(o).attributes.remove(&sym(k));
        Some(format!("{k} of a {n}"))
    }),
    ("attribute of the wrong kind", |m, t| {
        let (n, ks) = *t.pick(REQ);
        let o = m.any(t, &[n])?;
        let k = *t.pick(ks);
        let a = t.pick(&[Attribute::Int(1), Attribute::String("x".into()), Attribute::Bool(true)]).clone();
        m.ctx.op_mut(o).attributes.insert(sym(k), a);
        Some(format!("{k} of a {n}"))
    }),
    ("unknown operation kind", |m, t| {
        let o = m.any(t, &["perform", "handler"])?;
        let k = if m.is(o, &["perform"]) { "operation_kind" } else { "kind" };
        m.ctx.op_mut(o).attributes.insert(sym(k), Attribute::Symbol(sym(*t.pick(&["ctl", "FN", "ops", ""]))));
        Some(k.into())
    }),
    ("unsupported attribute", |m, t| {
        let o = m.any(t, &["call", "call_indirect", "perform", "handler", "handle", "resume", "yield", "return", "func_ref"])?;
        m.ctx.op_mut(o).attributes.insert(sym("extra"), Attribute::Int(1));
        Some(name(m.ctx, o))
    }),
    ("calling convention on an operation", |m, t| {
        let o = m.any(t, &["func", "lambda", "call", "func_ref"])?;
        m.ctx.op_mut(o).attributes.insert(sym("tribute.calling_convention"), Attribute::Int(t.range(0, 2) as i128));
        Some(name(m.ctx, o))
    }),
    ("missing capture", |m, t| {
        let v: Vec<OpRef> = m.all(&["lambda"]).into_iter().filter(|o| !m.ctx.op_operands(*o).is_empty()).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let i = t.idx(m.ctx.op_operands(o).len());
        m.ctx.remove_op_operand(o, i as u32);
        Some(format!("capture {i}"))
    }),
    ("capture listed twice", |m, t| {
        let v: Vec<OpRef> = m.all(&["lambda"]).into_iter().filter(|o| !m.ctx.op_operands(*o).is_empty()).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let i = t.idx(m.ctx.op_operands(o).len());
        let x = m.ctx.op_operands(o)[i];
        m.ctx.push_op_operand(o, x);
        Some(format!("capture {i}"))
    }),
    ("unused capture", |m, t| {
        let o = m.any(t, &["lambda"])?;
        let k = m.konst(o, "i32");
        m.ctx.push_op_operand(o, k);
        Some(String::new())
    }),
    ("capture used without being listed", |m, t| {
        let o = m.any(t, &["lambda"])?;
        let k = m.konst(o, "i32");
        let blk = m.blk(o, 0);
        let first = m.ctx.block(blk).ops[0];
        let i = m.i32();
        m.before(first, "arith.addi", O { operands: vec![k, k], results: vec![i], ..O::default() });
        Some(String::new())
    }),
    ("duplicate function symbol", |m, t| {
        let o = m.any(t, &["func"])?;
        let c = m.ctx.clone_op(o, &mut IrMapping::new());
        let blk = m.ctx.op(o).parent_block.unwrap();
        let last = *m.ctx.block(blk).ops.last().unwrap();
        let at = if t.bool() { o } else { last };
        m.ctx.insert_op_before(blk, at, c);
        Some(String::new())
    }),
    ("duplicate handler clause", |m, t| {
        let o = m.any(t, &["handler"])?;
        let c = m.ctx.clone_op(o, &mut IrMapping::new());
        let blk = m.ctx.op(o).parent_block.unwrap();
        if t.bool() {
            m.ctx.insert_op_before(blk, o, c);
        } else {
            m.ctx.push_op(blk, c);
        }
        Some(String::new())
    }),
    ("second resume", |m, t| {
        let o = m.any(t, &["resume"])?;
        let c = m.ctx.clone_op(o, &mut IrMapping::new());
        let blk = m.ctx.op(o).parent_block.unwrap();
        let last = *m.ctx.block(blk).ops.last().unwrap();
        let at = if t.bool() { o } else { last };
        m.ctx.insert_op_before(blk, at, c);
        Some(String::new())
    }),
    ("resume before a conditional that resumes", |m, t| {
        // put another resume in front of the scf.if that contains one
        let v: Vec<OpRef> = m.all(&["resume"]).into_iter().filter(|o| {
            let r = m.ctx.block(m.ctx.op(*o).parent_block.unwrap()).parent_region.unwrap();
            name(m.ctx, m.ctx.region(r).parent_op.unwrap()) == "scf.if"
        }).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let r = m.ctx.block(m.ctx.op(o).parent_block.unwrap()).parent_region.unwrap();
        let iff = m.ctx.region(r).parent_op.unwrap();
        let tok = m.ctx.op_operands(o)[0];
        let (inp, ans) = (m.ctx.value_ty(m.ctx.op_operands(o)[1]), m.ctx.op_result_types(o)[0]);
        let i = m.i32();
        if inp != i {
            return None;
        }
        let k = m.konst(iff, "i32");
        m.before(iff, "tribute_control.resume", O { operands: vec![tok, k], results: vec![ans], ..O::default() });
        Some(String::new())
    }),
    ("resume token escapes", |m, t| {
        let o = m.any(t, &["resume"])?;
        let tok = m.ctx.op_operands(o)[0];
        let i = m.i32();
        m.cast(o, tok, i);
        Some(String::new())
    }),
    ("token carrier called twice", |m, t| {
        let v: Vec<OpRef> = carriers(m).into_iter().flat_map(|c| m.ctx.uses(c).to_vec()).filter(|u| m.is(u.user, &["call_indirect"])).map(|u| u.user).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let c = m.ctx.clone_op(o, &mut IrMapping::new());
        let blk = m.ctx.op(o).parent_block.unwrap();
        let last = *m.ctx.block(blk).ops.last().unwrap();
        m.ctx.insert_op_before(blk, last, c);
        Some(String::new())
    }),
    ("token carrier escapes", |m, t| {
        let v = carriers(m);
        let x = *v.get(t.idx(v.len().max(1)))?;
        let trunk_ir::refs::ValueDef::OpResult(l, _) = m.ctx.value_def(x) else { return None };
        let blk = m.ctx.op(l).parent_block.unwrap();
        let last = *m.ctx.block(blk).ops.last().unwrap();
        let i = m.i32();
        m.cast(last, x, i);
        Some(String::new())
    }),
    ("token made by an operation", |m, t| {
        let o = m.any(t, &["return", "yield", "call"])?;
        let i = m.i32();
        let tt = m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(i).build());
        let k = m.konst(o, "i32");
        m.cast(o, k, tt);
        Some(String::new())
    }),
    ("function reference of a signature other than its function's", |m, t| {
        let v: Vec<OpRef> = m.all(&["return"]);
        let at = *t.pick(&v);
        let module = m.module_of(at);
        if t.chance(1, 3) {
            let ps: Vec<TypeRef> = (0..t.range(2, 6)).map(|_| b::core(m.ctx, *t.pick(&["i32", "i1", "f64"]))).collect();
            let r = b::core(m.ctx, *t.pick(&["i32", "i1", "f64"]));
            let c = t.idx(3) as u8;
            m.declare(at, r, &ps, c);
            m.ops.clear();
            walk(m.ctx, m.root, m.root, &mut m.ops);
        }
        let fs: Vec<OpRef> = m.ops.iter().filter(|x| x.1 == module && m.is(x.0, &["func"])).map(|x| x.0).collect();
        let f = *t.pick(&fs);
        let ft = m.ctx.op(f).attributes.get_type("type")?;
        let c = tc::callable_convention(m.ctx, ft)?;
        let mut ps = m.ctx.types.get(ft).params.to_vec();
        let k = t.idx(ps.len());
        let what = match t.idx(4) {
            0 => {
                let i = m.i32();
                ps.push(i);
                "one more parameter".to_string()
            }
            1 if ps.len() > 1 => {
                ps.pop();
                "one parameter less".into()
            }
            2 if ps.len() > 2 && ps[1] != ps[ps.len() - 1] => {
                let l = ps.len() - 1;
                ps.swap(1, l);
                "parameters swapped".into()
            }
            _ => {
                ps[k] = m.other_ty(ps[k]);
                format!("type {k}")
            }
        };
        let r = ps.remove(0);
        let c = if t.bool() { c } else { mkir::conv(2) };
        let ty = tc::callable(m.ctx, r, ps, c).as_type_ref();
        let n = m.ctx.op(f).attributes.get_symbol("sym_name")?;
        m.before(at, "tribute_control.func_ref", O { results: vec![ty], attrs: vec![("func_ref".into(), Attribute::Symbol(n))], ..O::default() });
        Some(what)
    }),
    ("result of the wrong type that nothing uses", |m, t| {
        let o = m.any(t, &["call", "call_indirect", "perform", "resume", "handle"])?;
        let old = m.ctx.op_result_types(o)[0];
        let r = m.ctx.op_result(o, 0);
        if m.ctx.has_uses(r) {
            let nx = m.next(o);
            let k = m.simple(nx, old)?;
            m.ctx.replace_all_uses(r, k);
        }
        let nt = m.other_ty(old);
        m.ctx.set_op_result_type(o, 0, nt);
        Some(name(m.ctx, o))
    }),
    ("token of another answer type used at that type", |m, t| {
        let v: Vec<OpRef> = m.all(&["resume"]).into_iter().filter(|o| {
            let tok = m.ctx.op_operands(*o)[0];
            m.ctx.uses(tok).len() == 1 && m.ctx.uses(m.ctx.op_result(*o, 0)).len() < 9
        }).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let tok = m.ctx.op_operands(o)[0];
        let trunk_ir::refs::ValueDef::BlockArg(blk, k) = m.ctx.value_def(tok) else { return None };
        let old = m.ctx.types.get(m.ctx.value_ty(tok)).params.to_vec();
        let nt = if t.bool() && old[0] != old[1] { old[0] } else { m.other_ty(old[1]) };
        let nx = m.next(o);
        let x = m.simple(nx, old[1])?;
        let r = m.ctx.op_result(o, 0);
        m.ctx.replace_all_uses(r, x);
        m.ctx.set_op_result_type(o, 0, nt);
        let tt = m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(old[0]).param(nt).build());
        m.ctx.set_block_arg_type(blk, k, tt);
        Some(String::new())
    }),
    ("token carrier given to a call", |m, t| {
        let o = m.carrier_call(t)?;
        let c = m.ctx.op_operands(o)[0];
        let (ct, r) = (m.ctx.value_ty(c), m.ctx.op_result_types(o)[0]);
        let never = b::core(m.ctx, "never");
        if r == never {
            return None;
        }
        let n = 1 + t.idx(3);
        let at = t.idx(n);
        let i = m.i32();
        let ps: Vec<TypeRef> = (0..n).map(|k| if k == at { ct } else { i }).collect();
        let args: Vec<ValueRef> = (0..n).map(|k| if k == at { c } else { m.konst(o, "i32") }).collect();
        let f = m.declare(o, r, &ps, 0);
        let (nc, what) = if t.bool() {
            (m.before(o, "tribute_control.call", O { operands: args, results: vec![r], attrs: vec![("callee".into(), Attribute::Symbol(sym(&f)))], ..O::default() }), "direct")
        } else {
            let ty = tc::callable(m.ctx, r, ps, mkir::conv(0)).as_type_ref();
            let fr = m.before(o, "tribute_control.func_ref", O { results: vec![ty], attrs: vec![("func_ref".into(), Attribute::Symbol(sym(&f)))], ..O::default() });
            let mut v = vec![m.ctx.op_result(fr, 0)];
            v.extend(args);
            (m.before(o, "tribute_control.call_indirect", O { operands: v, results: vec![r], ..O::default() }), "indirect")
        };
        let x = m.ctx.op_result(nc, 0);
        m.replace(o, x);
        Some(format!("{what}, argument {at} of {n}"))
    }),
    ("token carrier called again", |m, t| {
        let o = m.carrier_call(t)?;
        Some(match t.idx(4) {
            0 => {
                m.wrap(o, 2);
                "twice in a lambda"
            }
            1 => {
                let c = m.ctx.clone_op(o, &mut IrMapping::new());
                let blk = m.ctx.op(o).parent_block.unwrap();
                m.ctx.insert_op_before(blk, o, c);
                "twice in a row"
            }
            2 => {
                // before the lambda that captures it
                let u = m.wrap(o, 1);
                let l = m.ctx.op_operands(u)[0];
                let trunk_ir::refs::ValueDef::OpResult(l, _) = m.ctx.value_def(l) else { return None };
                let call = m.ctx.block(m.blk(l, 0)).ops[0];
                let c = m.ctx.clone_op(call, &mut IrMapping::new());
                let blk = m.ctx.op(l).parent_block.unwrap();
                m.ctx.insert_op_before(blk, if t.bool() { l } else { u }, c);
                "outside the lambda that captured it"
            }
            _ => {
                // two lambdas
                let u = m.wrap(o, 1);
                let l = m.ctx.op_operands(u)[0];
                let trunk_ir::refs::ValueDef::OpResult(l, _) = m.ctx.value_def(l) else { return None };
                let c = m.ctx.clone_op(l, &mut IrMapping::new());
                let blk = m.ctx.op(l).parent_block.unwrap();
                m.ctx.insert_op_before(blk, l, c);
                if t.bool() {
                    let (r, f) = (m.ctx.op_result_types(u)[0], m.ctx.op_result(c, 0));
                    m.before(u, "tribute_control.call_indirect", O { operands: vec![f], results: vec![r], ..O::default() });
                }
                "in two lambdas"
            }
        }.into())
    }),
    ("token or carrier used by an inner handler", |m, t| {
        // moves the call or the resume into a clause of a new handle in front of it
        let carrier = t.bool();
        let o = if carrier { m.carrier_call(t)? } else { m.any(t, &["resume"])? };
        let r = m.ctx.op_result_types(o)[0];
        let x = m.simple(o, r)?;
        let firsts = m.handle(t, o)?;
        let at = *firsts.get(t.idx(firsts.len().max(1)))?;
        let operands = m.ctx.op_operands(o).to_vec();
        let nm = if carrier { "tribute_control.call_indirect" } else { "tribute_control.resume" };
        m.before(at, nm, O { operands, results: vec![r], ..O::default() });
        m.replace(o, x);
        Some(if carrier { "carrier" } else { "token" }.into())
    }),
    ("token among the arguments of the operation", |m, t| {
        let o = m.any(t, &["handler"])?;
        let (a, n) = (m.ctx.op(o).attributes.get_type("ability_ref")?, m.ctx.op(o).attributes.get_symbol("op_name")?);
        let same = |m: &M, o: OpRef| m.ctx.op(o).attributes.get_type("ability_ref") == Some(a) && m.ctx.op(o).attributes.get_symbol("op_name") == Some(n);
        if m.all(&["perform"]).into_iter().any(|x| same(m, x)) {
            return None;
        }
        let i = m.i32();
        let tt = m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(i).build());
        for h in m.all(&["handler"]) {
            if same(m, h) {
                let blk = m.blk(h, 0);
                m.ctx.prepend_block_arg(blk, BlockArgData { ty: tt, attrs: Default::default() });
                if m.ctx.block_args(blk).len() == 1 {
                    return None;
                }
            }
        }
        for d in m.decls.iter_mut().filter(|d| d.ability_ref == a && d.op_name == n) {
            d.parameter_types.insert(0, tt);
        }
        Some(String::new())
    }),
    ("forbidden type somewhere", |m, t| {
        let (i, j) = (m.i32(), b::core(m.ctx, "i1"));
        let mut d = match t.idx(5) {
            0 => "core.func",
            1 => "closure.closure",
            2 => "ability.evidence_ptr",
            3 => "effect.thing",
            _ => "ability.thing",
        }.to_string();
        let mut ty = match d.as_str() {
            "core.func" => b::fnty(m.ctx, i, &[i]),
            "closure.closure" if t.bool() => m.ctx.types.intern(TypeDataBuilder::new(sym("closure"), sym("closure")).param(i).build()),
            _ => {
                let (a, c) = d.split_once('.').unwrap();
                b::ty0(m.ctx, a, c)
            }
        };
        // inside other types
        for _ in 0..t.idx(4) {
            let x = TypeDataBuilder::new(sym("adt"), sym("wrap"));
            let x = match t.idx(4) {
                0 => x.param(ty),
                1 => x.param(j).param(ty),
                2 => x.attr("of", Attribute::Type(ty)),
                _ => x.attr("of", Attribute::List(vec![Attribute::Int(1), Attribute::List(vec![Attribute::Symbol(sym("a")), Attribute::Type(ty)])])),
            };
            ty = m.ctx.types.intern(x.build());
            d.push_str(" wrapped");
        }
        Some(match t.idx(6) {
            0 => {
                m.ctx.register_type_alias(sym("Al"), ty);
                format!("{d} in an alias")
            }
            1 => {
                let at = m.any(t, &["return", "yield", "call"])?;
                let k = m.konst(at, "i32");
                m.cast(at, k, ty);
                format!("{d} in a value")
            }
            2 => {
                let f = m.any(t, &["func"])?;
                m.ctx.op_mut(f).attributes.insert(sym("note2"), Attribute::Type(ty));
                format!("{d} in an attribute")
            }
            3 => {
                let f = m.any(t, &["func"])?;
                m.ctx.op_mut(f).attributes.insert(sym("note2"), Attribute::List(vec![Attribute::List(vec![Attribute::Int(0), Attribute::Type(ty)])]));
                format!("{d} in a list attribute")
            }
            4 => {
                // argument of a block of a plain operation
                let at = m.any(t, &["return", "yield", "call"])?;
                let blk = b::block(m.ctx, &[ty]);
                let k = b::put1(m.ctx, blk, "arith.const", &[], i, &[("value", Attribute::Int(1))]);
                b::put0(m.ctx, blk, "scf.yield", &[k], &[], &[]);
                let r = b::region(m.ctx, &[blk]);
                m.before(at, "scf.thing", O { results: vec![i], regions: vec![r], ..O::default() });
                format!("{d} in a block argument")
            }
            _ => {
                let at = m.any(t, &["return", "yield", "call"])?;
                m.before(at, "arith.const", O { results: vec![i], attrs: vec![("value".into(), Attribute::Int(1)), ("of".into(), Attribute::Type(ty))], ..O::default() });
                format!("{d} in an attribute of an operation")
            }
        })
    }),
    ("unresolved type in a call or a perform", |m, t| {
        let (dn, nn) = (*t.pick(&["tribute", "type"]), *t.pick(&["var", "infer", "unresolved"]));
        let mut ty = m.ctx.types.intern(TypeDataBuilder::new(sym(dn), sym(nn)).build());
        let j = b::core(m.ctx, "i1");
        for _ in 0..t.idx(4) {
            let x = TypeDataBuilder::new(sym("adt"), sym("wrap"));
            let x = if t.bool() { x.param(ty) } else { x.param(j).param(ty) };
            ty = m.ctx.types.intern(x.build());
        }
        // the callee or the declaration agrees
        let v = m.all(&["return"]);
        let at = *t.pick(&v);
        let k = m.konst(at, "i32");
        let i = m.i32();
        let arg = t.bool();
        let (operands, r, ps) = if arg { (vec![m.cast(at, k, ty)], i, vec![ty]) } else { (vec![], ty, vec![]) };
        let ab = mkir::ability_ty(m.ctx, m.p, 0);
        m.decls.push(tc::OperationDeclaration { ability_ref: ab, op_name: sym("un"), kind: sym("fn"), parameter_types: ps, result_type: r });
        m.before(at, "tribute_control.perform", O {
            operands,
            results: vec![r],
            attrs: vec![("ability_ref".into(), Attribute::Type(ab)), ("op_name".into(), Attribute::Symbol(sym("un"))), ("operation_kind".into(), Attribute::Symbol(sym("fn")))],
            ..O::default()
        });
        Some(format!("{dn}.{nn}, argument {arg}"))
    }),
    ("callable over a nested forbidden type", |m, t| {
        let i = m.i32();
        let mut bad = match t.idx(4) {
            0 => m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(i).build()),
            1 => b::fnty(m.ctx, i, &[i]),
            2 => m.ctx.types.intern(TypeDataBuilder::new(sym("closure"), sym("closure")).param(i).build()),
            _ => m.ctx.types.intern(TypeDataBuilder::new(sym("type"), sym(*t.pick(&["var", "infer", "unresolved"]))).build()),
        };
        for _ in 0..t.idx(3) {
            let x = TypeDataBuilder::new(sym("adt"), sym("wrap"));
            let x = if t.bool() { x.param(bad) } else { x.param(i).param(bad) };
            bad = m.ctx.types.intern(x.build());
        }
        if t.bool() {
            let (r, ps) = if t.bool() { (bad, vec![i]) } else { (i, vec![i, bad]) };
            tc::callable(m.ctx, r, ps, mkir::conv(t.idx(3) as u8));
        } else {
            let x = TypeDataBuilder::new(sym("tribute_control"), sym("resume_token"));
            let x = if t.bool() { x.param(i).param(bad) } else { x.param(bad).param(i) };
            m.ctx.types.intern(x.build());
        }
        Some(String::new())
    }),
    ("branch between blocks", |m, t| {
        let at = m.any(t, &["return", "yield", "call"])?;
        let blk = m.ctx.op(at).parent_block.unwrap();
        let i = m.i32();
        m.before(at, *t.pick(&["arith.thing", "tribute_rt.thing", "core.thing"]), O { results: vec![i], succs: vec![blk], ..O::default() });
        Some(String::new())
    }),
    ("malformed control type", |m, t| {
        let i = m.i32();
        let mk = |n: &str| TypeDataBuilder::new(sym("tribute_control"), sym(n));
        let (d, b) = match t.idx(6) {
            0 => ("convention code out of range", mk("callable").param(i).attr("tribute.calling_convention", Attribute::Int(t.range(3, 9) as i128))),
            1 => ("no convention", mk("callable").param(i)),
            2 => ("callable without result", mk("callable").attr("tribute.calling_convention", Attribute::Int(1))),
            3 => ("token with one type", mk("resume_token").param(i)),
            4 => ("token with three types", mk("resume_token").param(i).param(i).param(i)),
            _ => ("unknown control type", mk("thing").param(i)),
        };
        let ty = m.ctx.types.intern(b.build());
        let f = m.any(t, &["func"])?;
        m.ctx.op_mut(f).attributes.insert(sym("note2"), Attribute::Type(ty));
        Some(d.into())
    }),
    ("callable over a forbidden type", |m, t| {
        let i = m.i32();
        let bad = match t.idx(3) {
            0 => m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(i).build()),
            1 => b::fnty(m.ctx, i, &[i]),
            _ => m.ctx.types.intern(TypeDataBuilder::new(sym("tribute"), sym("var")).build()),
        };
        let (r, ps) = if t.bool() { (bad, vec![i]) } else { (i, vec![i, bad]) };
        let c = tc::callable(m.ctx, r, ps, mkir::conv(t.idx(3) as u8)).as_type_ref();
        let f = m.any(t, &["func"])?;
        m.ctx.op_mut(f).attributes.insert(sym("note2"), Attribute::Type(c));
        Some(String::new())
    }),
    ("function reference weaker than its function", |m, t| {
        let i = m.i32();
        let c = 1 + t.idx(2) as u8;
        let w = t.idx(c as usize) as u8;
        let v = m.all(&["return"]);
        let at = *t.pick(&v);
        let ty = tc::callable(m.ctx, i, [i], mkir::conv(w)).as_type_ref();
        m.before(at, "tribute_control.func_ref", O { results: vec![ty], attrs: vec![("func_ref".into(), Attribute::Symbol(sym(["trace_d", "trace_e", "trace_c"][c as usize])))], ..O::default() });
        Some(format!("{c} as {w}"))
    }),
    ("function reference of another signature", |m, t| {
        let i = m.i32();
        let j = b::core(m.ctx, "i1");
        let v = m.all(&["return"]);
        let at = *t.pick(&v);
        let ty = match t.idx(4) {
            0 => tc::callable(m.ctx, j, [i], mkir::conv(2)),
            1 => tc::callable(m.ctx, i, [j], mkir::conv(2)),
            2 => tc::callable(m.ctx, i, [i, i], mkir::conv(2)),
            _ => tc::callable(m.ctx, i, [], mkir::conv(2)),
        }.as_type_ref();
        m.before(at, "tribute_control.func_ref", O { results: vec![ty], attrs: vec![("func_ref".into(), Attribute::Symbol(sym("trace_d")))], ..O::default() });
        Some(String::new())
    }),
    ("unresolved symbol", |m, t| {
        // a name that exists only in the other module's scope, when there is one
        let o = m.any(t, &["call", "func_ref"])?;
        let module = m.ops.iter().find(|x| x.0 == o)?.1;
        let mine = m.names_in(module);
        let others: Vec<String> = m.ops.iter().map(|x| x.1).collect::<std::collections::BTreeSet<_>>().into_iter().flat_map(|x| m.names_in(x)).filter(|n| !mine.contains(n)).collect();
        let n = if others.is_empty() { "nowhere".to_string() } else { t.pick(&others).clone() };
        let k = if m.is(o, &["call"]) { "callee" } else { "func_ref" };
        m.ctx.op_mut(o).attributes.insert(sym(k), Attribute::Symbol(sym(&n)));
        Some(n)
    }),
    ("operation not declared", |m, t| {
        let o = m.any(t, &["perform", "handler"])?;
        let (a, n) = (m.ctx.op(o).attributes.get_type("ability_ref")?, m.ctx.op(o).attributes.get_symbol("op_name")?);
        m.decls.retain(|d| !(d.ability_ref == a && d.op_name == n));
        Some(name(m.ctx, o))
    }),
    ("operation declared otherwise", |m, t| {
        let o = m.any(t, &["perform", "handler"])?;
        let (a, n) = (m.ctx.op(o).attributes.get_type("ability_ref")?, m.ctx.op(o).attributes.get_symbol("op_name")?);
        let at = m.decls.iter().position(|d| d.ability_ref == a && d.op_name == n)?;
        let i = m.i32();
        let mut d = m.decls[at].clone();
        let what = match t.idx(5) {
            0 => {
                d.kind = sym(if d.kind == sym("fn") { "op" } else { "fn" });
                "kind"
            }
            1 => {
                d.result_type = m.other_ty(d.result_type);
                "result"
            }
            2 => {
                d.parameter_types.push(i);
                "one more parameter"
            }
            3 if !d.parameter_types.is_empty() => {
                d.parameter_types.pop();
                "one parameter less"
            }
            _ if !d.parameter_types.is_empty() => {
                let k = t.idx(d.parameter_types.len());
                d.parameter_types[k] = m.other_ty(d.parameter_types[k]);
                "parameter type"
            }
            _ => return None,
        };
        m.decls[at] = d;
        Some(what.into())
    }),
    ("operation declared twice", |m, t| {
        let d = t.pick(m.decls).clone();
        m.decls.push(d);
        Some(String::new())
    }),
    ("operation of another ability", |m, t| {
        // the clause or the perform names the operation under a different ability
        let o = m.any(t, &["perform", "handler"])?;
        let ty = m.ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("ability_ref")).attr("name", Attribute::Symbol(sym("Nobody"))).build());
        m.ctx.op_mut(o).attributes.insert(sym("ability_ref"), Attribute::Type(ty));
        Some(name(m.ctx, o))
    }),
    ("wrong terminator", |m, t| {
        let o = m.any(t, &["yield", "return"])?;
        let nm = if m.is(o, &["yield"]) { *t.pick(&["tribute_control.return", "scf.yield"]) } else { *t.pick(&["tribute_control.yield", "scf.yield"]) };
        let operands = m.ctx.op_operands(o).to_vec();
        m.before(o, nm, O { operands, ..O::default() });
        m.ctx.detach_op(o);
        m.ctx.remove_op(o);
        Some(nm.into())
    }),
    ("operation after the terminator", |m, t| {
        let o = m.any(t, &["yield", "return"])?;
        let blk = m.ctx.op(o).parent_block.unwrap();
        let i = m.i32();
        let c = b::mk(m.ctx, "arith.const", O { results: vec![i], attrs: vec![("value".into(), Attribute::Int(1))], ..O::default() });
        m.ctx.push_op(blk, c);
        Some(name(m.ctx, o))
    }),
    ("handler with another parameter list", |m, t| {
        let o = m.any(t, &["handler"])?;
        let blk = m.blk(o, 0);
        let i = m.i32();
        m.ctx.prepend_block_arg(blk, BlockArgData { ty: i, attrs: Default::default() });
        Some(String::new())
    }),
    ("token of another type", |m, t| {
        let v: Vec<OpRef> = m.all(&["handler"]).into_iter().filter(|o| m.ctx.block_args(m.blk(*o, 0)).last().is_some_and(|a| !m.ctx.has_uses(*a) && tc::ResumeToken::matches(m.ctx, m.ctx.value_ty(*a)))).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let blk = m.blk(o, 0);
        let k = m.ctx.block_args(blk).len() as u32 - 1;
        let old = m.ctx.types.get(m.ctx.value_ty(m.ctx.block_arg(blk, k))).params.to_vec();
        let (a, c) = if t.bool() { (m.other_ty(old[0]), old[1]) } else { (old[0], m.other_ty(old[1])) };
        let tt = m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(a).param(c).build());
        m.ctx.set_block_arg_type(blk, k, tt);
        Some(String::new())
    }),
    ("no token for a resumable operation", |m, t| {
        let v: Vec<OpRef> = m.all(&["handler"]).into_iter().filter(|o| m.ctx.block_args(m.blk(*o, 0)).last().is_some_and(|a| !m.ctx.has_uses(*a) && tc::ResumeToken::matches(m.ctx, m.ctx.value_ty(*a)))).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let blk = m.blk(o, 0);
        let k = m.ctx.block_args(blk).len() as u32 - 1;
        let i = m.i32();
        m.ctx.set_block_arg_type(blk, k, i);
        Some(String::new())
    }),
    ("token for a fn or never operation", |m, t| {
        let v: Vec<OpRef> = m.all(&["handler"]).into_iter().filter(|o| !m.ctx.block_args(m.blk(*o, 0)).last().is_some_and(|a| tc::ResumeToken::matches(m.ctx, m.ctx.value_ty(*a)))).collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let blk = m.blk(o, 0);
        let i = m.i32();
        let tt = m.ctx.types.intern(TypeDataBuilder::new(sym("tribute_control"), sym("resume_token")).param(i).param(i).build());
        m.ctx.add_block_arg(blk, BlockArgData { ty: tt, attrs: Default::default() });
        Some(String::new())
    }),
    ("handle of the wrong shape", |m, t| {
        let o = m.any(t, &["handle"])?;
        let i = m.i32();
        Some(match t.idx(4) {
            0 => {
                let blk = m.blk(o, 0);
                m.ctx.add_block_arg(blk, BlockArgData { ty: i, attrs: Default::default() });
                "body block argument"
            }
            1 => {
                let blk = m.blk(o, 1);
                m.ctx.add_block_arg(blk, BlockArgData { ty: i, attrs: Default::default() });
                "second completion argument"
            }
            2 => {
                let blk = m.blk(o, 2);
                m.ctx.add_block_arg(blk, BlockArgData { ty: i, attrs: Default::default() });
                "handlers block argument"
            }
            _ => {
                let blk = m.blk(o, 2);
                let c = b::mk(m.ctx, "arith.const", O { results: vec![i], attrs: vec![("value".into(), Attribute::Int(1))], ..O::default() });
                m.ctx.push_op(blk, c);
                "other operation among the clauses"
            }
        }.into())
    }),
    ("clause outside a handle", |m, t| {
        let o = m.any(t, &["handler"])?;
        let f = m.func_of(o)?;
        let c = m.ctx.clone_op(o, &mut IrMapping::new());
        let blk = m.blk(f, 0);
        let first = m.ctx.block(blk).ops[0];
        m.ctx.insert_op_before(blk, first, c);
        Some(String::new())
    }),
    ("function body using another function's value", |m, t| {
        let v = m.all(&["return"]);
        let (a, c) = (*t.pick(&v), *t.pick(&v));
        if m.func_of(a) == m.func_of(c) {
            return None;
        }
        let x = m.ctx.op_operands(a)[0];
        let i = m.i32();
        m.cast(c, x, i);
        Some(String::new())
    }),
    ("unknown operation", |m, t| {
        let at = m.any(t, &["return", "yield", "call", "perform"])?;
        let i = m.i32();
        let nm = *t.pick(&["tribute_control.jump", "closure.thing", "ability.perform", "func.call_indirect", "effect.thing"]);
        m.before(at, nm, O { results: vec![i], ..O::default() });
        Some(nm.into())
    }),
    ("physical callable type in a value", |m, t| {
        let at = m.any(t, &["return", "yield", "call"])?;
        let i = m.i32();
        let f = b::fnty(m.ctx, i, &[i]);
        let k = m.konst(at, "i32");
        m.cast(at, k, f);
        Some(String::new())
    }),
    ("calls or performs beyond its convention", |m, t| {
        let own = t.idx(2) as u8;
        let v: Vec<OpRef> = m.returns(&[own]).into_iter().filter(|r| m.ops.iter().any(|x| x.0 == *r && x.1 == m.root)).collect();
        let at = *v.get(t.idx(v.len().max(1)))?;
        if m.dead(at) {
            return None;
        }
        if t.bool() {
            let c = own + 1 + t.idx(2 - own as usize) as u8;
            m.trace(at, c);
            Some(format!("{own} calls {c}"))
        } else {
            let ops: Vec<(usize, usize)> = (0..m.p.abilities.len()).flat_map(|a| (0..m.p.abilities[a].len()).map(move |o| (a, o))).filter(|(a, o)| own == 0 || !m.p.abilities[*a][*o].is_fn).collect();
            let (a, o) = *ops.get(t.idx(ops.len().max(1)))?;
            m.perform(at, a, o)?;
            Some(format!("{own} performs {}", m.p.abilities[a][o].name))
        }
    }),
    ("effect in an unsupported structured operation", |m, t| {
        let cps = t.bool();
        let v: Vec<OpRef> = m.returns(&[if cps { 2 } else { 1 }]).into_iter().filter(|r| m.ops.iter().any(|x| x.0 == *r && x.1 == m.root)).collect();
        let at = *v.get(t.idx(v.len().max(1)))?;
        if m.dead(at) {
            return None;
        }
        let i = m.i32();
        if cps {
            // conditional with two results and a CPS call inside
            let c = m.konst(at, "i1");
            let mut rs = vec![];
            for k in 0..2 {
                let blk = b::block(m.ctx, &[]);
                let x = b::put1(m.ctx, blk, "arith.const", &[], i, &[("value", Attribute::Int(3))]);
                if k == t.idx(2) {
                    b::put1(m.ctx, blk, "tribute_control.call", &[x], i, &[("callee", Attribute::Symbol(sym("trace_c")))]);
                }
                b::put0(m.ctx, blk, "scf.yield", &[x, x], &[], &[]);
                rs.push(b::region(m.ctx, &[blk]));
            }
            if rs.iter().all(|r| m.ctx.block(m.ctx.region(*r).blocks[0]).ops.len() == 2) {
                return None;
            }
            m.before(at, "scf.if", O { operands: vec![c], results: vec![i, i], regions: rs, ..O::default() });
            Some("two results".into())
        } else {
            let c = m.konst(at, "i32");
            let blk = b::block(m.ctx, &[]);
            let x = b::put1(m.ctx, blk, "arith.const", &[], i, &[("value", Attribute::Int(3))]);
            b::put1(m.ctx, blk, "tribute_control.call", &[x], i, &[("callee", Attribute::Symbol(sym("trace_e")))]);
            b::put0(m.ctx, blk, "scf.yield", &[], &[], &[]);
            let r = b::region(m.ctx, &[blk]);
            let sb = b::block(m.ctx, &[]);
            b::put(m.ctx, sb, "scf.default", O { regions: vec![r], ..O::default() });
            let sr = b::region(m.ctx, &[sb]);
            m.before(at, "scf.switch", O { operands: vec![c], regions: vec![sr], ..O::default() });
            Some("switch".into())
        }
    }),
    ("switch of the wrong shape", |m, t| {
        let v: Vec<OpRef> = m.ops.iter().map(|x| x.0).filter(|o| name(m.ctx, *o) == "scf.switch").collect();
        let o = *v.get(t.idx(v.len().max(1)))?;
        let blk = m.blk(o, 0);
        let arm = m.ctx.block(blk).ops[0];
        Some(match t.idx(5) {
            0 => {
                let k = m.konst(o, "i32");
                m.ctx.push_op_operand(o, k);
                "two discriminants"
            }
            3 => {
                let (i, d) = (m.i32(), m.ctx.op_operands(o)[0]);
                let rs: Vec<RegionRef> = m.ctx.op(o).regions.to_vec().into_iter().map(|r| m.ctx.clone_region(r, &mut IrMapping::new())).collect();
                m.before(o, "scf.switch", O { operands: vec![d], results: vec![i], regions: rs, ..O::default() });
                "result"
            }
            4 => {
                // a case of two blocks
                let r = m.ctx.op(arm).regions[0];
                let blk = b::block(m.ctx, &[]);
                b::put0(m.ctx, blk, "scf.yield", &[], &[], &[]);
                m.ctx.region_mut(r).blocks.push(blk);
                m.ctx.block_mut(blk).parent_region = Some(r);
                "case of two blocks"
            }
            1 => {
                m.konst(arm, "i32");
                "other operation among the cases"
            }
            _ => {
                m.ctx.op_mut(arm).attributes.remove(&sym("value"));
                "case without value"
            }
        }.into())
    }),
];
/// Lambda values that carry a resume token.
fn carriers(m: &M) -> Vec<ValueRef> {
    m.all(&["lambda"]).into_iter().filter(|l| m.ctx.op_operands(*l).iter().any(|v| tc::ResumeToken::matches(m.ctx, m.ctx.value_ty(*v)))).map(|l| m.ctx.op_result(l, 0)).collect()
}

pub fn refuses(t: &mut Tape) -> CaseResult {
    let k = t.idx(KINDS.len());
    let p = gen_prog(t, true);
    let mut ctx = IrContext::new();
    let root = mkir::build(&mut ctx, &p, "m");
    let m = mkir::module(&ctx, root);
    let mut decls = mkir::decls(&mut ctx, &p);
    if t.chance(1, 3) {
        // the nested module one level deeper
        let body = ctx.region(ctx.op(root).regions[0]).blocks[0];
        if let Some(n) = ctx.block(body).ops.iter().copied().find(|o| name(&ctx, *o) == "core.module") {
            let mid = b::module(&mut ctx, "mid", &[]);
            ctx.insert_op_before(body, n, mid);
            ctx.detach_op(n);
            let blk = ctx.region(ctx.op(mid).regions[0]).blocks[0];
            ctx.push_op(blk, n);
        }
    }
    let alias = t.chance(1, 3);
    if alias {
        let ft = mkir::fn_ty(&mut ctx, &p.funcs[t.idx(3)].ty.clone());
        ctx.register_type_alias(sym("Cb"), ft);
    }
    let good = print_module(&ctx, root);
    let mut ops = vec![];
    walk(&ctx, root, root, &mut ops);
    let (kind, f) = KINDS[k];
    let what = f(&mut M { ctx: &mut ctx, root, decls: &mut decls, p: &p, ops }, t);
    let Some(what) = what else {
        return Ok(Case { nontrivial: false, key: hash_str(&good), render: String::new(), tags: vec!["no site".into()] });
    };
    let before = print_module(&ctx, root);
    let aliases = ctx.type_aliases().to_vec();
    let text = format!("{kind}: {what}\n{before}");
    let pre = guard(|| verify_tribute_control_pre_cps(&ctx, m, &decls).is_err()).map_err(|e| Failure { msg: format!("the boundary check panics on a module with {kind} ({what}): {e}"), render: text.clone() })?;
    // what only the conversion itself decides
    let late = kind.starts_with("calls or performs") || kind.starts_with("effect in an unsupported");
    if !pre && !late {
        return fail(format!("the boundary check accepts a module with {kind} ({what})"), text);
    }
    let r = guard(|| tribute_control_to_cps(&mut ctx, m, &decls)).map_err(|e| Failure { msg: format!("conversion panics on a module with {kind} ({what}): {e}"), render: text.clone() })?;
    if r.is_ok() {
        return fail(format!("a module with {kind} ({what}) is accepted"), text);
    }
    let after = print_module(&ctx, root);
    if after != before || ctx.type_aliases() != &aliases[..] {
        return fail(format!("a module refused for {kind} ({what}) was changed"), format!("{text}\n--- after\n{after}"));
    }
    Ok(Case { nontrivial: true, key: hash_str(&text), render: text, tags: vec![kind.to_string()] })
}
