//! Raw IR construction helpers over the public `IrContext` API (no dialect macros).
use trunk_ir::context::*;
use trunk_ir::refs::*;
use trunk_ir::types::*;
use trunk_ir::{Span, Symbol};

pub fn sym(s: &str) -> Symbol {
    Symbol::from_dynamic(s)
}
pub fn loc(ctx: &mut IrContext) -> Location {
    let p = ctx.paths.intern("t.trb".to_owned());
    Location::new(p, Span::new(0, 0))
}
pub fn ty0(ctx: &mut IrContext, d: &str, n: &str) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(sym(d), sym(n)).build())
}
pub fn core(ctx: &mut IrContext, n: &str) -> TypeRef {
    ty0(ctx, "core", n)
}
pub fn fnty(ctx: &mut IrContext, ret: TypeRef, params: &[TypeRef]) -> TypeRef {
    ctx.types.intern(TypeDataBuilder::new(sym("core"), sym("func")).param(ret).params(params.iter().copied()).build())
}

#[derive(Default)]
pub struct O {
    pub operands: Vec<ValueRef>,
    pub results: Vec<TypeRef>,
    pub attrs: Vec<(String, Attribute)>,
    pub regions: Vec<RegionRef>,
    pub succs: Vec<BlockRef>,
}
pub fn mk(ctx: &mut IrContext, name: &str, o: O) -> OpRef {
    let (d, n) = name.split_once('.').unwrap();
    let l = loc(ctx);
    let mut bld = OperationDataBuilder::new(l, sym(d), sym(n)).operands(o.operands).results(o.results);
    for (k, v) in o.attrs {
        bld = bld.attr(sym(&k), v);
    }
    for r in o.regions {
        bld = bld.region(r);
    }
    for s in o.succs {
        bld = bld.successor(s);
    }
    let data = bld.build(ctx);
    ctx.create_op(data)
}
/// Append op to block and return it.
pub fn put(ctx: &mut IrContext, blk: BlockRef, name: &str, o: O) -> OpRef {
    let op = mk(ctx, name, o);
    ctx.push_op(blk, op);
    op
}
/// Append a one-result op.
pub fn put1(ctx: &mut IrContext, blk: BlockRef, name: &str, operands: &[ValueRef], res: TypeRef, attrs: &[(&str, Attribute)]) -> ValueRef {
    let op = put(ctx, blk, name, O { operands: operands.to_vec(), results: vec![res], attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), ..O::default() });
    ctx.op_result(op, 0)
}
pub fn put0(ctx: &mut IrContext, blk: BlockRef, name: &str, operands: &[ValueRef], attrs: &[(&str, Attribute)], succs: &[BlockRef]) -> OpRef {
    put(ctx, blk, name, O { operands: operands.to_vec(), attrs: attrs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect(), succs: succs.to_vec(), ..O::default() })
}
pub fn block(ctx: &mut IrContext, args: &[TypeRef]) -> BlockRef {
    let location = loc(ctx);
    ctx.create_block(BlockData { location, args: args.iter().map(|t| BlockArgData { ty: *t, attrs: Default::default() }).collect(), ops: Default::default(), parent_region: None })
}
pub fn region(ctx: &mut IrContext, blocks: &[BlockRef]) -> RegionRef {
    let location = loc(ctx);
    ctx.create_region(RegionData { location, blocks: blocks.iter().copied().collect(), parent_op: None })
}
pub fn func(ctx: &mut IrContext, name: &str, ret: TypeRef, params: &[TypeRef], body: Option<RegionRef>, extra: &[(&str, Attribute)]) -> OpRef {
    let t = fnty(ctx, ret, params);
    let mut attrs = vec![("sym_name".to_string(), Attribute::Symbol(sym(name))), ("type".to_string(), Attribute::Type(t))];
    attrs.extend(extra.iter().map(|(k, v)| (k.to_string(), v.clone())));
    mk(ctx, "func.func", O { attrs, regions: body.into_iter().collect(), ..O::default() })
}
pub fn module(ctx: &mut IrContext, name: &str, ops: &[OpRef]) -> OpRef {
    let b = block(ctx, &[]);
    for o in ops {
        ctx.push_op(b, *o);
    }
    let r = region(ctx, &[b]);
    mk(ctx, "core.module", O { attrs: vec![("sym_name".into(), Attribute::Symbol(sym(name)))], regions: vec![r], ..O::default() })
}
