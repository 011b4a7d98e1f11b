mod abi;
#[path = "../../vp-native/src/pipe.rs"]
mod pipe;
mod ready;
use irkit::gen_ir::*;
use trunk_ir::context::IrContext;
use trunk_ir::rewrite::Module;
fn native_cfg(c: &mut Cfg, adt: bool) {
    *c = Cfg { extern_attrs: true, extern_body: true, tail_calls: false, i1_casts: false, adt, adt_repr: Repr::Typeref, ..Cfg::base() };
}
fn wasm_cfg(c: &mut Cfg) {
    *c = Cfg { scalars: vec![T::I32, T::I64, T::I1, T::F64, T::F32], cf: false, switches: false, if_nil: true, i1_casts: false, simple_loops: true, externs: false, adt: true, indirect: false, adt_repr: Repr::Typeref, ..Cfg::base() };
}
fn lower_wasm(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| format!("lower_to_wasm: {e}"))?;
    let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
    let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| format!("finalize: {e}"))
}
fn main() {
    let mut v = abi::props();
    v.extend(ready::props());
    engine::main(v);
}
