//! Chains of tail transfers run in bounded stack and pass their arguments exactly.
use crate::exec::{self, Ext};
use crate::native::ON;
use crate::node::{self, Import, Reply};
use crate::{load, pipe, shared};
use engine::*;
use irkit::b::*;
use irkit::gen_ir::{AdtDef, Repr, Sig, T, adt_ty, gen_inputs, val_ty};
use irkit::interp::{self, Outcome, Stop, Val};
use irkit::pretty;
use procs::{End, Spec};
use std::sync::atomic::Ordering;
use trunk_ir::context::IrContext;
use trunk_ir::refs::{BlockRef, OpRef, TypeRef, ValueRef};
use trunk_ir::rewrite::Module;
use trunk_ir::types::Attribute;

const SCALARS: [T; 4] = [T::I32, T::I64, T::F32, T::F64];
const OBJ: T = T::Adt(0);
#[derive(Clone, Copy, PartialEq, Debug)]
enum Target {
    Native,
    Wasm,
}
struct B<'t> {
    t: &'t mut Tape,
    ctx: IrContext,
    adts: Vec<AdtDef>,
    target: Target,
    /// parameters of each function after the counter
    sigs: Vec<Vec<T>>,
    kinds: Vec<&'static str>,
}
impl B<'_> {
    fn ty(&mut self, t: T) -> TypeRef {
        match t {
            T::Adt(i) => val_ty(&mut self.ctx, &self.adts, i as usize),
            T::Nil => core(&mut self.ctx, "nil"),
            t => core(&mut self.ctx, t.name()),
        }
    }
    fn int(&mut self, b: BlockRef, t: T, v: i128) -> ValueRef {
        let ty = self.ty(t);
        put1(&mut self.ctx, b, "arith.const", &[], ty, &[("value", Attribute::Int(v))])
    }
    fn param_types(&mut self, k: usize) -> Vec<TypeRef> {
        let mut v = vec![self.ty(T::I32)];
        for t in self.sigs[k].clone() {
            v.push(self.ty(t));
        }
        v
    }
    fn fun(&mut self, k: usize) -> TypeRef {
        let nil = core(&mut self.ctx, "nil");
        let p = self.param_types(k);
        fnty(&mut self.ctx, nil, &p)
    }
    /// a value of type t out of those at hand
    fn val(&mut self, b: BlockRef, env: &[(ValueRef, T)], t: T, depth: usize) -> ValueRef {
        let same: Vec<ValueRef> = env.iter().filter(|e| e.1 == t).map(|e| e.0).collect();
        if !same.is_empty() && (depth == 0 || self.t.chance(2, 3)) {
            return same[same.len() - 1 - self.t.idx(same.len())];
        }
        let ty = self.ty(t);
        match t {
            T::Nil => put1(&mut self.ctx, b, "arith.const", &[], ty, &[("value", Attribute::Unit)]),
            OBJ => {
                let x = self.val(b, env, T::I64, depth.saturating_sub(1));
                let def = adt_ty(&mut self.ctx, &self.adts, 0);
                put1(&mut self.ctx, b, "adt.struct_new", &[x], ty, &[("type", Attribute::Type(def))])
            }
            T::I64 if self.t.chance(1, 3) && env.iter().any(|e| e.1 == OBJ) => {
                let o = self.val(b, env, OBJ, 0);
                let def = adt_ty(&mut self.ctx, &self.adts, 0);
                put1(&mut self.ctx, b, "adt.struct_get", &[o], ty, &[("type", Attribute::Type(def)), ("field", Attribute::Int(0))])
            }
            _ if depth == 0 || same.is_empty() => {
                let a = match t {
                    T::F32 => Attribute::FloatBits((self.t.upto(40) as f64 * 0.25).to_bits()),
                    T::F64 => Attribute::FloatBits((self.t.upto(40) as f64 * 0.125).to_bits()),
                    _ => Attribute::Int(*self.t.pick(&[0i128, 1, -1, 3, 77, i32::MAX as i128, i32::MIN as i128])),
                };
                put1(&mut self.ctx, b, "arith.const", &[], ty, &[("value", a)])
            }
            _ => {
                let x = self.val(b, env, t, depth - 1);
                let y = self.val(b, env, t, depth - 1);
                let op = if t.is_float() { *self.t.pick(&["arith.addf", "arith.subf"]) } else { *self.t.pick(&["arith.addi", "arith.subi", "arith.muli", "arith.xor"]) };
                put1(&mut self.ctx, b, op, &[x, y], ty, &[])
            }
        }
    }
    fn args(&mut self, b: BlockRef, env: &[(ValueRef, T)], k: usize) -> Vec<ValueRef> {
        self.sigs[k].clone().into_iter().map(|t| self.val(b, env, t, 2)).collect()
    }
    fn tail(&mut self, b: BlockRef, name: String, n: ValueRef, args: &[ValueRef]) {
        let mut v = vec![n];
        v.extend(args);
        put0(&mut self.ctx, b, "func.tail_call", &v, &[("callee", Attribute::Symbol(sym(&name))), ("tribute.calling_convention", Attribute::Int(2))], &[]);
    }
    fn fn_value(&mut self, b: BlockRef, name: &str) -> ValueRef {
        let ty = core(&mut self.ctx, if self.target == Target::Native { "ptr" } else { "i32" });
        put1(&mut self.ctx, b, "func.constant", &[], ty, &[("func_ref", Attribute::Symbol(sym(name)))])
    }
    fn done(&mut self, b: BlockRef, n: ValueRef) -> ValueRef {
        let z = self.int(b, T::I32, 0);
        let i1 = core(&mut self.ctx, "i1");
        put1(&mut self.ctx, b, "arith.cmpi", &[n, z], i1, &[("predicate", Attribute::Symbol(sym("sle")))])
    }
    fn step(&mut self, i: usize) -> OpRef {
        let pts = self.param_types(i);
        let b = block(&mut self.ctx, &pts);
        let ps = self.ctx.block_args(b).to_vec();
        let mut env: Vec<(ValueRef, T)> = vec![(ps[0], T::I32)];
        env.extend(ps[1..].iter().copied().zip(self.sigs[i].clone()));
        let one = self.int(b, T::I32, 1);
        let i32t = self.ty(T::I32);
        let n1 = put1(&mut self.ctx, b, "arith.subi", &[ps[0], one], i32t, &[]);
        if self.t.chance(1, 10) {
            let t = *self.t.pick(&SCALARS);
            let v = self.val(b, &env, t, 2);
            self.out(b, v, t);
        }
        let n = self.sigs.len();
        let mut blocks = vec![b];
        // only functions before the last may go on directly without looking at the counter
        let direct = i + 1 < n && self.t.chance(2, 5);
        let branch = !direct && self.target == Target::Native && self.t.chance(1, 3);
        if direct {
            self.kinds.push("direct");
            let j = i + 1 + self.t.idx(n - i - 1);
            let a = self.args(b, &env, j);
            self.tail(b, format!("t{j}"), n1, &a);
        } else if branch {
            self.kinds.push("branch");
            let j = self.t.idx(n);
            let c = self.done(b, n1);
            let (x, y) = (block(&mut self.ctx, &[]), block(&mut self.ctx, &[]));
            put0(&mut self.ctx, b, "cf.cond_br", &[c], &[], &[x, y]);
            let a = self.args(x, &env, j);
            self.tail(x, format!("d{j}"), n1, &a);
            let a = self.args(y, &env, j);
            self.tail(y, format!("t{j}"), n1, &a);
            blocks.extend([x, y]);
        } else {
            self.kinds.push("indirect");
            let j = self.t.idx(n);
            let first = self.t.bool();
            let early = if first { Some(self.args(b, &env, j)) } else { None };
            let c = self.done(b, n1);
            let mut regs = vec![];
            for name in [format!("d{j}"), format!("t{j}")] {
                let bb = block(&mut self.ctx, &[]);
                let f = self.fn_value(bb, &name);
                put0(&mut self.ctx, bb, "scf.yield", &[f], &[], &[]);
                regs.push(region(&mut self.ctx, &[bb]));
            }
            let ty = core(&mut self.ctx, if self.target == Target::Native { "ptr" } else { "i32" });
            let op = put(&mut self.ctx, b, "scf.if", O { operands: vec![c], results: vec![ty], regions: regs, ..O::default() });
            let f = self.ctx.op_result(op, 0);
            let a = match early {
                Some(a) => a,
                None => self.args(b, &env, j),
            };
            let mut v = vec![f, n1];
            v.extend(a);
            let sig = self.fun(j);
            put0(&mut self.ctx, b, "func.tail_call_indirect", &v, &[("func.indirect_call_signature", Attribute::Type(sig)), ("tribute.calling_convention", Attribute::Int(2))], &[]);
        }
        let r = region(&mut self.ctx, &blocks);
        let nil = core(&mut self.ctx, "nil");
        func(&mut self.ctx, &format!("t{i}"), nil, &pts, Some(r), &[("tribute.calling_convention", Attribute::Int(2))])
    }
    fn out(&mut self, b: BlockRef, v: ValueRef, t: T) {
        let nil = core(&mut self.ctx, "nil");
        put(&mut self.ctx, b, "func.call", O { operands: vec![v], results: vec![nil], attrs: vec![("callee".into(), Attribute::Symbol(sym(&format!("out_{}", t.name()))))], ..O::default() });
    }
    fn finish(&mut self, i: usize) -> OpRef {
        let pts = self.param_types(i);
        let b = block(&mut self.ctx, &pts);
        let ps = self.ctx.block_args(b).to_vec();
        let sig = self.sigs[i].clone();
        self.out(b, ps[0], T::I32);
        for (v, t) in ps[1..].iter().zip(sig) {
            if t == T::Nil {
                continue;
            }
            if t == OBJ {
                let def = adt_ty(&mut self.ctx, &self.adts, 0);
                let i64t = self.ty(T::I64);
                let x = put1(&mut self.ctx, b, "adt.struct_get", &[*v], i64t, &[("type", Attribute::Type(def)), ("field", Attribute::Int(0))]);
                self.out(b, x, T::I64);
            } else {
                self.out(b, *v, t);
            }
        }
        put0(&mut self.ctx, b, "func.return", &[], &[], &[]);
        let r = region(&mut self.ctx, &[b]);
        let nil = core(&mut self.ctx, "nil");
        func(&mut self.ctx, &format!("d{i}"), nil, &pts, Some(r), &[("tribute.calling_convention", Attribute::Int(2))])
    }
}
struct Prog {
    ctx: IrContext,
    module: OpRef,
    text: String,
    exts: Vec<Sig>,
    runs: Vec<(Vec<Val>, Outcome)>,
    kinds: Vec<&'static str>,
    long: bool,
}
fn entry() -> Sig {
    Sig { name: "entry".into(), params: vec![T::I32, T::I64, T::F32, T::F64], ret: T::I32, external: false, rec: false }
}
fn prepare(t: &mut Tape, target: Target) -> Prog {
    // the signature of an indirect transfer is in terms of what the target works on
    let objs = target == Target::Native && t.chance(1, 3);
    let long = !objs && t.chance(1, 16);
    let n = 1 + t.upto(4);
    let mut sigs = vec![];
    for _ in 0..n {
        let k = match t.upto(3) {
            0 => t.upto(2),
            1 => t.upto(5),
            2 => t.upto(8),
            _ => t.upto(14),
        };
        let mono = if t.chance(1, 4) { Some(*t.pick(&SCALARS)) } else { None };
        sigs.push((0..k).map(|_| if t.chance(1, 12) { T::Nil } else if objs && t.chance(2, 5) { OBJ } else { mono.unwrap_or_else(|| *t.pick(&SCALARS)) }).collect::<Vec<T>>());
    }
    let adts = vec![AdtDef { name: "S".into(), is_enum: false, variants: vec![(String::new(), vec![T::I64])], repr: if target == Target::Native { Repr::Anyref } else { Repr::Typeref } }];
    let mut g = B { t, ctx: IrContext::new(), adts, target, sigs, kinds: vec![] };
    let mut ops = vec![];
    let nil = core(&mut g.ctx, "nil");
    let exts: Vec<Sig> = SCALARS.iter().map(|s| Sig { name: format!("out_{}", s.name()), params: vec![*s], ret: T::Nil, external: true, rec: false }).collect();
    for s in SCALARS {
        let pt = g.ty(s);
        if target == Target::Native {
            let bb = block(&mut g.ctx, &[pt]);
            put0(&mut g.ctx, bb, "func.unreachable", &[], &[], &[]);
            let r = region(&mut g.ctx, &[bb]);
            ops.push(func(&mut g.ctx, &format!("out_{}", s.name()), nil, &[pt], Some(r), &[("abi", Attribute::String("C".into()))]));
        } else {
            ops.push(func(&mut g.ctx, &format!("out_{}", s.name()), nil, &[pt], None, &[("abi", Attribute::String("C".into()))]));
        }
    }
    for i in 0..n {
        let o = g.step(i);
        ops.push(o);
        let o = g.finish(i);
        ops.push(o);
    }
    // entry
    let e = entry();
    let mut pts = vec![];
    for p in &e.params {
        pts.push(g.ty(*p));
    }
    let b = block(&mut g.ctx, &pts);
    let ps = g.ctx.block_args(b).to_vec();
    let env: Vec<(ValueRef, T)> = ps.iter().copied().zip(e.params.clone()).collect();
    let twice = 1 + g.t.upto(1);
    for _ in 0..twice {
        let k = g.t.idx(n);
        let mut a = vec![ps[0]];
        a.extend(g.args(b, &env, k));
        put(&mut g.ctx, b, "func.call", O { operands: a, results: vec![nil], attrs: vec![("callee".into(), Attribute::Symbol(sym(&format!("t{k}"))))], ..O::default() });
        g.out(b, ps[1], T::I64);
    }
    let r = g.val(b, &env, T::I32, 2);
    put0(&mut g.ctx, b, "func.return", &[r], &[], &[]);
    let r = region(&mut g.ctx, &[b]);
    let i32t = g.ty(T::I32);
    let f = func(&mut g.ctx, "entry", i32t, &pts, Some(r), &[]);
    ops.push(f);
    let B { mut ctx, t, kinds, .. } = g;
    let module = module(&mut ctx, "m", &ops);
    let text = pretty::canon(&ctx, module, false, false);
    note(&text);
    let mut runs = vec![];
    for mut a in gen_inputs(t, &e, if long { 1 } else { 3 }) {
        a[0] = Val::I(if long { 40_000 } else { *t.pick(&[0, 1, 2, 3, 5, 8, 30, -4]) });
        let o = interp::run(&ctx, module, "entry", &a, if long { 20_000_000 } else { 20_000 });
        runs.push((a, o));
    }
    if target == Target::Wasm {
        let blk = Module::new(&ctx, module).unwrap().first_block(&ctx).unwrap();
        for (k, s) in exts.iter().enumerate() {
            let op = ops[k];
            let ty = ctx.op(op).attributes.get_type("type").unwrap();
            let name = Attribute::Symbol(sym(&s.name));
            let imp = mk(&mut ctx, "wasm.import_func", O { attrs: vec![("module".into(), Attribute::Symbol(sym("env"))), ("name".into(), name.clone()), ("sym_name".into(), name), ("type".into(), Attribute::Type(ty))], ..O::default() });
            ctx.insert_op_before(blk, op, imp);
            ctx.remove_op_from_block(blk, op);
        }
        let x = mk(&mut ctx, "wasm.export_func", O { attrs: vec![("name".into(), Attribute::String("entry".into())), ("func".into(), Attribute::Symbol(sym("entry")))], ..O::default() });
        ctx.push_op(blk, x);
    }
    Prog { ctx, module, text, exts, runs, kinds, long }
}
fn check_stuck(p: &Prog) -> Result<(), Failure> {
    for (_, o) in &p.runs {
        if let Err(e) = &o.result {
            if *e != Stop::Fuel {
                return fail(format!("generator bug: {e:?}"), p.text.clone());
            }
        }
    }
    Ok(())
}
fn case(p: Prog, n: usize) -> CaseResult {
    let mut tags: Vec<String> = p.kinds.iter().map(|s| s.to_string()).collect();
    if p.long {
        tags.push("long".into());
    }
    Ok(Case { nontrivial: n > 0, key: hash_str(&p.text), render: p.text.clone(), tags })
}
/// Runs f on a stack of its own of this size (a thread library may hand out a larger one it has kept).
fn on_stack(size: usize, mut f: impl FnMut() -> i32) -> i32 {
    extern "C" fn go(p: *mut libc::c_void) -> *mut libc::c_void {
        let f = unsafe { &mut *(p as *mut &mut dyn FnMut() -> i32) };
        f() as usize as *mut libc::c_void
    }
    unsafe {
        let m = libc::mmap(std::ptr::null_mut(), size + (1 << 20), libc::PROT_NONE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) as usize;
        let stack = (m + (1 << 20)) as *mut libc::c_void;
        if libc::mprotect(stack, size, libc::PROT_READ | libc::PROT_WRITE) != 0 {
            return 76;
        }
        let mut attr = std::mem::zeroed();
        libc::pthread_attr_init(&mut attr);
        if libc::pthread_attr_setstack(&mut attr, stack, size) != 0 {
            return 76;
        }
        let mut th = std::mem::zeroed();
        let mut d: &mut dyn FnMut() -> i32 = &mut f;
        if libc::pthread_create(&mut th, &attr, go, &mut d as *mut &mut dyn FnMut() -> i32 as *mut libc::c_void) != 0 {
            return 76;
        }
        let mut r = std::ptr::null_mut();
        libc::pthread_join(th, &mut r);
        r as usize as i32
    }
}
fn native_case(t: &mut Tape) -> CaseResult {
    let o = pipe::Opt { borrowed: t.bool(), temps: t.bool(), paired: t.bool(), ..pipe::Opt::base() };
    let mut p = prepare(t, Target::Native);
    check_stuck(&p)?;
    let r = pipe::lower(&mut p.ctx, p.module, o).and_then(|ro| pipe::emit(&p.ctx, p.module, &ro));
    let obj = match r {
        Ok(b) => b,
        Err(e) => return fail(format!("compilation failed: {e}"), p.text.clone()),
    };
    let mut n = 0;
    for (a, want) in &p.runs {
        if want.result.is_err() {
            continue;
        }
        exec::log_reset();
        let e = entry();
        let bits: Vec<u64> = a.iter().map(exec::to_bits).collect();
        let (exts, long, obj) = (&p.exts, p.long, &obj);
        let out = procs::run(Spec::default(), |_| {
            // a chain of 40000 transfers that kept its frames would need at least 640000 bytes
            on_stack(if long { 512 << 10 } else { 2 << 20 }, || {
                let exts = exts.iter().map(|x| Ext { name: x.name.clone(), params: x.params.clone(), ret: x.ret }).collect();
                let stubs = exec::make_stubs(exts);
                let img = match load::load(obj, &|n| stubs.get(n).copied().or_else(|| crate::native::symbol(n))) {
                    Ok(i) => i,
                    Err(e) => {
                        eprintln!("object file cannot be linked: {e}");
                        return 78;
                    }
                };
                let Some(f) = img.func("entry") else { return 77 };
                let args: Vec<Val> = bits.iter().zip(&e.params).map(|(b, t)| exec::from_bits(*b, *t)).collect();
                unsafe { shared::__tribute_init() };
                exec::reset();
                exec::heap_init(4000);
                ON.store(true, Ordering::Relaxed);
                let v = unsafe { exec::call(f, &e.params, &args, e.ret) };
                ON.store(false, Ordering::Relaxed);
                let live = exec::HEAP.with(|h| h.borrow().live.len());
                exec::log(&format!("R {} live {live}\n", interp::show(&v)));
                0
            })
        });
        if out.end == End::Exit(exec::EXIT_HEAP_FULL) {
            continue;
        }
        let mut got = exec::log_read();
        // an object that only one side of a branch uses may stay (see DESIGN.md)
        if p.kinds.contains(&"branch") {
            if let Some(i) = got.rfind(" live ") {
                got.truncate(i);
                got.push_str(" live 0\n");
            }
        }
        let exp = format!("{}R {} live 0\n", want.trace.iter().map(exec::show_event).collect::<String>(), want.result.as_ref().unwrap()[0]);
        if out.end != End::Exit(0) || got != exp {
            return fail(
                format!("compiled code differs| entry({}) should log {:?}; it logged {:?} and ended with {:?} {}", a.iter().map(interp::show).collect::<Vec<_>>().join(", "), exp, got, out.end, String::from_utf8_lossy(&out.stderr)),
                format!("{}\n{o:?}", p.text),
            );
        }
        n += 1;
    }
    case(p, n)
}
fn wasm_case(t: &mut Tape) -> CaseResult {
    let mut p = prepare(t, Target::Wasm);
    check_stuck(&p)?;
    let m = Module::new(&p.ctx, p.module).unwrap();
    let r = (|| {
        let ctx = &mut p.ctx;
        tribute_passes::wasm::lower::lower_to_wasm(ctx, m).map_err(|e| format!("lower_to_wasm: {e}"))?;
        let tc = tribute_passes::wasm::type_converter::wasm_type_converter(ctx);
        let r = trunk_ir::conversion::resolve_unrealized_casts(ctx, m, &tc);
        if !r.unresolved.is_empty() {
            return Err(format!("{} unresolved casts", r.unresolved.len()));
        }
        tribute_passes::wasm::lower::finalize_wasm_gc_types(ctx, m).map_err(|e| format!("finalize: {e}"))?;
        trunk_ir_wasm_backend::emit_module_to_wasm(ctx, m).map(|b| b.bytes).map_err(|e| format!("emit: {e}"))
    })();
    let wasm = match r {
        Ok(b) => b,
        Err(e) => return fail(format!("compilation failed: {e}"), format!("{}\nLOWERED\n{}", p.text, pretty::canon(&p.ctx, p.module, false, false))),
    };
    let e = entry();
    let imports: Vec<Import> = p.exts.iter().map(|s| Import { name: s.name.clone(), params: vec![s.params[0].name()], ret: "nil" }).collect();
    let todo: Vec<_> = p.runs.iter().filter(|r| r.1.result.is_ok()).collect();
    let runs: Vec<node::Run> = todo.iter().map(|(a, o)| node::Run { f: e.name.clone(), params: e.params.iter().map(|t| t.name()).collect(), ret: "i32", args: a.iter().map(interp::show).collect(), answers: o.trace.iter().map(|e| e.ret.clone()).collect(), writes: vec![] }).collect();
    let res = match node::run(&wasm, &imports, &runs, 20_000) {
        Reply::Bad(m) => return fail(format!("module is rejected| {m}"), p.text.clone()),
        Reply::Timeout => return fail("compiled module does not end, the program does", p.text.clone()),
        Reply::Runs(r) => r,
    };
    for ((a, want), r) in todo.iter().zip(&res) {
        let ev = want.trace.iter().map(|e| format!("{}({})", e.callee, e.args.join(", "))).collect::<Vec<_>>().join("; ");
        if r.kind != "ok" || r.value != want.result.as_ref().unwrap()[0] || r.events != ev {
            return fail(format!("compiled module differs| entry({}) should give {:?} with [{ev}]; it gave {} {} with [{}]", a.iter().map(interp::show).collect::<Vec<_>>().join(", "), want.result, r.kind, r.value, r.events), p.text.clone());
        }
    }
    let n = todo.len();
    case(p, n)
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C36",
        lanes: vec![
            Lane { name: "native-tail", rule: "a run of a chain of transfers is compared", quick: 2500, thorough: 50_000, threads: 0, run: native_case },
            Lane { name: "wasm-tail", rule: "a run of a chain of transfers is compared", quick: 4000, thorough: 80_000, threads: 0, run: wasm_case },
        ],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
