use super::{gen_ma, real_ma, word};
use engine::Tape;
use irkit::b;
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::smallvec::SmallVec;
use trunk_ir::types::*;

pub struct Env {
    pub c: IrContext,
    pub loc: Location,
    pub vals: Vec<ValueRef>,
    pub ts: Vec<TypeRef>,
}
impl Env {
    pub fn new() -> Env {
        let mut c = IrContext::new();
        let loc = b::loc(&mut c);
        let ts: Vec<TypeRef> = (0..9).map(|i| b::ty0(&mut c, if i % 2 == 0 { "t" } else { "vpg" }, &format!("zz{i}"))).collect();
        let blk = b::block(&mut c, &ts);
        let vals = c.block_args(blk).to_vec();
        Env { c, loc, vals, ts }
    }
    pub fn v(&self, t: &mut Tape) -> ValueRef {
        self.vals[t.idx(self.vals.len())]
    }
    pub fn vs(&self, t: &mut Tape) -> Vec<ValueRef> {
        (0..t.upto(6)).map(|_| self.v(t)).collect()
    }
    pub fn ty(&self, t: &mut Tape) -> TypeRef {
        self.ts[t.idx(self.ts.len())]
    }
    pub fn tys(&self, t: &mut Tape) -> Vec<TypeRef> {
        (0..t.upto(6)).map(|_| self.ty(t)).collect()
    }
}
pub fn opt<T>(t: &mut Tape, e: &mut Env, f: fn(&mut Tape, &mut Env) -> T) -> Option<T> {
    if t.bool() { Some(f(t, e)) } else { None }
}
pub fn v_bool(t: &mut Tape, _: &mut Env) -> bool {
    t.bool()
}
pub fn v_i32(t: &mut Tape, _: &mut Env) -> i32 {
    t.int_edge() as i32
}
pub fn v_i64(t: &mut Tape, _: &mut Env) -> i64 {
    t.int_edge()
}
pub fn v_u32(t: &mut Tape, _: &mut Env) -> u32 {
    t.int_edge() as u32
}
pub fn v_u64(t: &mut Tape, _: &mut Env) -> u64 {
    t.int_edge() as u64
}
pub fn v_f32(t: &mut Tape, _: &mut Env) -> f32 {
    *t.pick(&[0.0f32, -0.0, 1.5, 0.1, f32::MAX, f32::MIN_POSITIVE, f32::NEG_INFINITY])
}
pub fn v_f64(t: &mut Tape, _: &mut Env) -> f64 {
    *t.pick(&[0.0f64, -0.0, 1.5, -2.25, 1e300, f64::MIN_POSITIVE, f64::INFINITY, f64::NAN])
}
pub fn v_type(t: &mut Tape, e: &mut Env) -> TypeRef {
    e.ty(t)
}
pub fn v_string(t: &mut Tape, _: &mut Env) -> String {
    word(t)
}
pub fn v_symbol(t: &mut Tape, _: &mut Env) -> Symbol {
    b::sym(&word(t))
}
pub fn v_qualifiedname(t: &mut Tape, _: &mut Env) -> Symbol {
    b::sym(&format!("{}::{}", word(t), word(t)))
}
pub fn v_bytes(t: &mut Tape, _: &mut Env) -> SmallVec<[u8; 16]> {
    (0..t.upto(30)).map(|_| t.idx(256) as u8).collect()
}
pub fn v_any(t: &mut Tape, e: &mut Env) -> Attribute {
    let m = gen_ma(t, e.ts.len(), 2);
    real_ma(&mut e.c, &e.ts, &m)
}
pub fn ck(what: &str, ok: bool) -> Result<(), String> {
    if ok { Ok(()) } else { Err(format!("{what} is not what was given")) }
}
#[allow(clippy::too_many_arguments)]
pub fn shape(c: &IrContext, op: OpRef, name: &str, operands: &[ValueRef], results: &[TypeRef], attrs: &[(&str, Attribute)], regions: &[RegionRef], succs: &[BlockRef]) -> Result<(), String> {
    let d = c.op(op);
    ck("name", d.dialect == b::sym("vpg") && d.name == b::sym(name))?;
    ck("operand list", c.op_operands(op) == operands)?;
    ck("result type list", c.op_result_types(op) == results)?;
    ck("number of attributes", d.attributes.len() == attrs.len())?;
    for (k, v) in attrs {
        ck(&format!("attribute {k}"), d.attributes.get(*k) == Some(v))?;
    }
    ck("region list", d.regions.to_vec() == regions)?;
    ck("successor list", d.successors.to_vec() == succs)?;
    ck("region owner", regions.iter().all(|r| c.region(*r).parent_op == Some(op)))
}
pub fn tshape(c: &IrContext, ty: TypeRef, name: &str, params: &[TypeRef], attrs: &[(&str, Attribute)]) -> Result<(), String> {
    let d = c.types.get(ty);
    ck("name", d.dialect == b::sym("vpg") && d.name == b::sym(name))?;
    ck("parameter list", d.params.to_vec() == params)?;
    ck("number of attributes", d.attrs.len() == attrs.len())?;
    for (k, v) in attrs {
        ck(&format!("attribute {k}"), d.attrs.get(*k) == Some(v))?;
    }
    Ok(())
}
