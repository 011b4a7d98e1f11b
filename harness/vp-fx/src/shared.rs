use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::rewrite::Module;

pub fn shared(ctx: &mut IrContext, m: Module) -> Result<(), String> {
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|_| "not a core.module".to_string())?;
    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::lower_closure_lambda::LowerClosureLambda)
        .add_pass(tribute_passes::intrinsic_to_arith::LowerIntrinsicToArith)
        .add_pass(tribute_passes::list_intrinsics::LowerListIntrinsics)
        .add_pass(tribute_passes::io_lowering::LowerIoIntrinsics)
        .add_pass(tribute_passes::closure_lower::PrepareClosureLowering);
    pm.nest::<func_dialect::Func>().add_pass(tribute_passes::closure_lower::LowerClosuresInFunc);
    pm.run(ctx, cm).map_err(|e| format!("closures: {e}"))?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(tribute_passes::lower_ability_perform::LowerAbilityPerform)
        .add_pass(tribute_passes::tail_resumptive::ConvertTailResumptive);
    pm.run(ctx, cm).map_err(|e| format!("perform: {e}"))?;
    let mut pm = PassManager::new();
    pm.add_pass(tribute_passes::resolve_evidence::ResolveEvidenceDispatch);
    pm.run(ctx, cm).map_err(|e| format!("evidence: {e}"))?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(tribute_passes::lower_handle_dispatch::LowerHandleDispatch);
    pm.run(ctx, cm).map_err(|e| format!("handle: {e}"))?;
    Ok(())
}
fn cleanup(ctx: &mut IrContext, m: Module, keep: &[String]) -> Result<(), String> {
    let extra_entry_points = keep.iter().map(|s| s.to_string().into()).collect();
    trunk_ir::transforms::eliminate_dead_functions_with_config(ctx, m, trunk_ir::transforms::GlobalDceConfig { extra_entry_points, recursive: true });
    let cm = core_dialect::Module::from_op(ctx, m.op()).unwrap();
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>()
        .add_pass(trunk_ir::transforms::canonicalize_pass())
        .add_pass(trunk_ir::transforms::dce_pass(trunk_ir::transforms::DceConfig::default()));
    pm.run(ctx, cm).map_err(|e| format!("cleanup: {e}"))?;
    let t = tribute_passes::generic_type_converter(ctx);
    trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &t);
    Ok(())
}
pub fn target(ctx: &mut IrContext, m: Module, native: bool, keep: &[String]) -> Result<(), String> {
    trunk_ir::analysis::AnalysisCache::scope(ctx, |ctx, a| {
        trunk_ir::transforms::inline::inline_functions(ctx, m, a);
    });
    if tribute_passes::target_abi::has_root_entry_contract(ctx, m) {
        tribute_passes::target_abi::lower_cps_signatures_to_physical(ctx, m).map_err(|e| format!("signatures: {e}"))?;
        tribute_passes::target_abi::compose_root_entry_bridge(ctx, m).map_err(|e| format!("bridge: {e}"))?;
    }
    if native {
        let cm = core_dialect::Module::from_op(ctx, m.op()).unwrap();
        tribute_passes::native::evidence::prepare_native_evidence_runtime(ctx, m);
        let mut pm = PassManager::new();
        pm.nest::<func_dialect::Func>().add_pass(tribute_passes::native::evidence::LowerEvidenceToNative);
        pm.run(ctx, cm).map_err(|e| format!("native evidence: {e}"))?;
    }
    cleanup(ctx, m, keep)
}

unsafe extern "C" {
    fn __tribute_evidence_empty();
    fn __tribute_evidence_extend();
    fn __tribute_evidence_lookup();
    fn __tribute_evidence_lookup_tr();
    fn __tribute_evidence_lookup_handler();
    fn __tribute_next_tag();
    pub fn __tribute_init();
}
pub fn runtime_symbol(n: &str) -> Option<usize> {
    Some(match n {
        "__tribute_alloc" => crate::exec::heap_alloc as *const () as usize,
        "__tribute_dealloc" => crate::exec::heap_dealloc as *const () as usize,
        "__tribute_evidence_empty" => __tribute_evidence_empty as *const () as usize,
        "__tribute_evidence_extend" => __tribute_evidence_extend as *const () as usize,
        "__tribute_evidence_lookup" => __tribute_evidence_lookup as *const () as usize,
        "__tribute_evidence_lookup_tr" => __tribute_evidence_lookup_tr as *const () as usize,
        "__tribute_evidence_lookup_handler" => __tribute_evidence_lookup_handler as *const () as usize,
        "__tribute_next_tag" => __tribute_next_tag as *const () as usize,
        _ => return None,
    })
}
