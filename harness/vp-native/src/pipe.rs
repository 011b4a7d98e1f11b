//! The native lowering sequence of the compiler driver (src/pipeline.rs), which the sandbox does not build.
use tribute_passes::native;
use trunk_ir::context::IrContext;
use trunk_ir::dialect::{core as core_dialect, func as func_dialect};
use trunk_ir::ops::DialectOp;
use trunk_ir::pass::PassManager;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;
use trunk_ir_cranelift_backend::RodataEntry;
use trunk_ir_cranelift_backend::passes::*;

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub borrowed: bool,
    pub temps: bool,
    pub paired: bool,
    pub entrypoint: bool,
    pub sanitize: bool,
}
impl Opt {
    pub fn base() -> Opt {
        Opt { borrowed: false, temps: false, paired: false, entrypoint: false, sanitize: false }
    }
}
fn es<E: std::fmt::Display>(what: &'static str) -> impl FnOnce(E) -> String {
    move |e| format!("{what}: {e}")
}

pub fn lower(ctx: &mut IrContext, op: OpRef, o: Opt) -> Result<Vec<RodataEntry>, String> {
    let m = Module::new(ctx, op).ok_or("not a module")?;
    let tc = |ctx: &mut IrContext| native::type_converter::native_type_converter(ctx).0;
    if o.entrypoint {
        native::entrypoint::generate_native_entrypoint(ctx, m, o.sanitize);
    }
    let consts = native::const_to_native::analyze_consts(ctx, m);
    native::const_to_native::lower(ctx, m, &consts).map_err(es("const_to_native"))?;
    native::intrinsic_to_native::lower(ctx, m).map_err(es("intrinsic_to_native"))?;
    native::io::lower(ctx, m).map_err(es("io"))?;
    native::list::lower(ctx, m).map_err(es("list"))?;
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|_| "not a core.module".to_string())?;
    let mut pm = PassManager::new();
    pm.nest::<func_dialect::Func>().add_pass(trunk_ir::transforms::scf_to_cf_pass());
    pm.run(ctx, cm).map_err(es("scf_to_cf"))?;
    let t = tc(ctx);
    let summaries = native::ownership_summary::compute_and_attach(ctx, m, &t).map_err(es("ownership_summary"))?;
    func_to_clif::lower(ctx, m, t).map_err(es("func_to_clif"))?;
    let t = tc(ctx);
    cf_to_clif::lower(ctx, m, t).map_err(es("cf_to_clif"))?;
    let t = tc(ctx);
    let rtti = native::rtti::generate_rtti(ctx, m, &t);
    native::adt_rc_header::lower(ctx, m, t, &rtti.type_to_idx).map_err(es("adt_rc_header"))?;
    let t = tc(ctx);
    adt_to_clif::lower(ctx, m, t).map_err(es("adt_to_clif"))?;
    let t = tc(ctx);
    arith_to_clif::lower(ctx, m, t).map_err(es("arith_to_clif"))?;
    let t = tc(ctx);
    mem_to_clif::lower(ctx, m, t).map_err(es("mem_to_clif"))?;
    let t = tc(ctx);
    native::tribute_rt_to_clif::lower(ctx, m, t).map_err(es("tribute_rt_to_clif"))?;
    use native::rc_insertion::*;
    insert_rc_with_policies_and_trusted_summaries(
        ctx,
        m,
        if o.borrowed { BorrowedParameterPolicy::ElideProvenBorrowed } else { BorrowedParameterPolicy::Preserve },
        if o.temps { TemporaryBorrowPolicy::ElideProvenFieldBorrows } else { TemporaryBorrowPolicy::Preserve },
        &summaries,
    )
    .map_err(es("rc_insertion"))?;
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("RC\n{}", irkit::pretty::canon(ctx, op, false, false));
    }
    if o.paired {
        native::rc_optimization::eliminate_paired_rc(ctx, m);
    }
    let t = tc(ctx);
    let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &t);
    if !r.unresolved.is_empty() {
        return Err(format!("{} unresolved casts", r.unresolved.len()));
    }
    native::rc_lowering::lower_rc(ctx, m);
    Ok(consts.rodata.iter().map(|(s, d)| RodataEntry { symbol: *s, data: d.clone() }).collect())
}
pub fn emit(ctx: &IrContext, op: OpRef, ro: &[RodataEntry]) -> Result<Vec<u8>, String> {
    let m = Module::new(ctx, op).ok_or("not a module")?;
    trunk_ir_cranelift_backend::emit_module_to_native(ctx, m, ro).map_err(|e| format!("emit: {e}"))
}

/// 0 inline, 1 dead functions, 2 canonicalize, 3 dce.
pub fn optimise(ctx: &mut IrContext, m: Module, k: usize, keep: &[String]) -> Result<(), String> {
    let cm = core_dialect::Module::from_op(ctx, m.op()).map_err(|_| "not a core.module".to_string())?;
    match k {
        0 => {
            let mut cache = trunk_ir::analysis::AnalysisCache::new();
            trunk_ir::transforms::inline_functions(ctx, m, &mut cache);
        }
        1 => {
            let extra_entry_points = keep.iter().map(|s| s.to_string().into()).collect();
            trunk_ir::transforms::eliminate_dead_functions_with_config(ctx, m, trunk_ir::transforms::GlobalDceConfig { extra_entry_points, recursive: true });
        }
        2 => {
            let mut pm = PassManager::new();
            pm.nest::<func_dialect::Func>().add_pass(trunk_ir::transforms::canonicalize_pass());
            pm.run(ctx, cm).map_err(es("canonicalize"))?;
        }
        _ => {
            let mut pm = PassManager::new();
            pm.nest::<func_dialect::Func>().add_pass(trunk_ir::transforms::dce_pass(trunk_ir::transforms::dce::DceConfig::default()));
            pm.run(ctx, cm).map_err(es("dce"))?;
        }
    }
    Ok(())
}
