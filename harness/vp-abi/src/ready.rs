//! C30: the boundary checks before emission accept exactly fully lowered modules.
use crate::pipe;
use engine::*;
use irkit::b;
use irkit::gen_ir::*;
use irkit::pretty;
use tribute_passes::backend_ready::*;
use trunk_ir::context::*;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::*;

const CONTROL: &str = "__tribute_cps_control";
#[derive(Clone, Debug, PartialEq)]
struct R {
    d: &'static str,
    n: &'static str,
    ps: Vec<R>,
    at: Vec<(String, A)>,
}
#[derive(Clone, Debug, PartialEq)]
enum A {
    T(R),
    Sym(String),
    Str(String),
    I(i128),
    B(bool),
    L(Vec<A>),
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Value,
    Result,
    Meta,
    Sig,
}
fn t0(d: &'static str, n: &'static str) -> R {
    R { d, n, ps: vec![], at: vec![] }
}
// ---- reference legality
fn sym_ok(s: &str) -> bool {
    s != CONTROL
}
fn attr_ok(w: bool, a: &A) -> bool {
    match a {
        A::T(t) => ok(w, S::Meta, t),
        A::Sym(s) => sym_ok(s),
        A::L(v) => v.iter().all(|x| attr_ok(w, x)),
        _ => true,
    }
}
fn is_adt(t: &R) -> bool {
    t.d == "adt" && (matches!(t.n, "struct" | "enum" | "typeref" | "variant_inst") || t.at.iter().any(|(k, v)| k == "is_variant" && *v == A::B(true)))
}
fn is_wref(t: &R) -> bool {
    t.d == "wasm" && matches!(t.n, "anyref" | "i31ref" | "structref" | "arrayref" | "funcref")
}
fn ok(w: bool, s: S, t: &R) -> bool {
    let core = |l: &[&str]| t.d == "core" && l.contains(&t.n);
    let value = if w { core(&["nil", "i1", "i32", "i64", "f32", "f64", "bytes", "ptr", "array", "func"]) || is_adt(t) || is_wref(t) } else { core(&["nil", "i1", "i8", "i16", "i32", "i64", "f32", "f64", "ptr"]) };
    let here = match s {
        S::Value | S::Result => value,
        S::Meta => core(&["func", "nil", "i1", "i8", "i16", "i32", "i64", "f32", "f64", "ptr", "bytes", "ref", "array"]) || is_adt(t) || (w && is_wref(t)),
        S::Sig => core(&["func"]),
    };
    let inner = if t.d == "core" && t.n == "func" {
        !t.ps.is_empty() && ok(w, S::Result, &t.ps[0]) && t.ps[1..].iter().all(|p| ok(w, S::Value, p))
    } else {
        t.ps.iter().all(|p| ok(w, S::Meta, p))
    };
    here && inner && t.at.iter().all(|(k, a)| sym_ok(k) && attr_ok(w, a))
}
// ---- generation
struct G {
    w: bool,
    bad: u64,
}
const UNIVERSE: &[(&str, &str)] = &[
    ("core", "nil"), ("core", "i1"), ("core", "i8"), ("core", "i16"), ("core", "i32"), ("core", "i64"), ("core", "f32"), ("core", "f64"), ("core", "ptr"), ("core", "bytes"), ("core", "ref"), ("core", "array"), ("core", "func"), ("core", "never"), ("core", "tuple"), ("core", "string"), ("core", "structref"), ("wasm", "i32"), ("wasm", "array"), ("clif", "ptr"), ("adt", "i32"), ("func", "func"),
    ("adt", "struct"), ("adt", "enum"), ("adt", "typeref"), ("adt", "variant_inst"), ("adt", "Some"), ("wasm", "anyref"), ("wasm", "i31ref"), ("wasm", "structref"), ("wasm", "arrayref"), ("wasm", "funcref"), ("wasm", "exnref"),
    ("tribute_rt", "anyref"), ("closure", "closure"), ("tribute_control", "callable"), ("ability", "evidence_ptr"), ("effect", "row"),
];
fn gt(t: &mut Tape, g: &G, s: S, d: usize) -> R {
    for _ in 0..8 {
        let (dl, n) = *t.pick(UNIVERSE);
        let mut r = t0(dl, n);
        if dl == "adt" && t.chance(1, 3) {
            r.at.push(("is_variant".into(), A::B(t.chance(3, 4))));
        }
        let wild = g.bad > 0 && t.chance(g.bad, 100);
        if !wild && !shallow(g.w, s, &r) {
            continue;
        }
        if (dl, n) == ("core", "func") {
            if !(wild && t.chance(1, 6)) {
                r.ps.push(gt(t, g, S::Result, d.saturating_sub(1)));
                for _ in 0..t.upto(2) {
                    r.ps.push(gt(t, g, S::Value, d.saturating_sub(1)));
                }
            }
        } else if d > 0 && t.chance(1, 3) {
            for _ in 0..t.upto(2) {
                r.ps.push(gt(t, g, S::Meta, d - 1));
            }
        }
        if d > 0 && t.chance(1, 4) {
            let k = key(t, g);
            r.at.push((k, ga(t, g, d - 1)));
        }
        return r;
    }
    if s == S::Sig { R { d: "core", n: "func", ps: vec![t0("core", "nil")], at: vec![] } } else { t0("core", "i32") }
}
/// Legal head, ignoring parameters.
fn shallow(w: bool, s: S, r: &R) -> bool {
    let mut r = r.clone();
    if (r.d, r.n) == ("core", "func") {
        r.ps = vec![t0("core", "nil")];
    }
    ok(w, s, &r)
}
fn key(t: &mut Tape, g: &G) -> String {
    if g.bad > 0 && t.chance(g.bad, 200) { CONTROL.into() } else { t.pick(&["name", "k", "note", "__tribute_cps", "__tribute_cps_controls"]).to_string() }
}
fn ga(t: &mut Tape, g: &G, d: usize) -> A {
    match t.weighted(&[4, 2, 1, 1, 1, if d > 0 { 2 } else { 0 }]) {
        0 => A::T(gt(t, g, S::Meta, d)),
        1 => A::Sym(key(t, g)),
        2 => A::Str(CONTROL.into()),
        3 => A::I(t.upto(9) as i128),
        4 => A::B(t.bool()),
        _ => A::L((0..t.upto(3)).map(|_| ga(t, g, d - 1)).collect()),
    }
}
fn bt(ctx: &mut IrContext, r: &R) -> TypeRef {
    let ps: Vec<TypeRef> = r.ps.iter().map(|p| bt(ctx, p)).collect();
    let mut d = TypeDataBuilder::new(b::sym(r.d), b::sym(r.n)).params(ps);
    for (k, a) in &r.at {
        let a = ba(ctx, a);
        d = d.attr(b::sym(k), a);
    }
    ctx.types.intern(d.build())
}
fn ba(ctx: &mut IrContext, a: &A) -> Attribute {
    match a {
        A::T(r) => Attribute::Type(bt(ctx, r)),
        A::Sym(s) => Attribute::Symbol(b::sym(s)),
        A::Str(s) => Attribute::String(s.clone()),
        A::I(i) => Attribute::Int(*i),
        A::B(x) => Attribute::Bool(*x),
        A::L(v) => Attribute::List(v.iter().map(|x| ba(ctx, x)).collect()),
    }
}
struct W {
    ctx: IrContext,
    ops: bool,
    types: bool,
    n: usize,
    why: Vec<String>,
}
impl W {
    fn bad_op(&mut self, s: &str) {
        self.ops = false;
        self.why.push(s.into());
    }
    fn bad_ty(&mut self, s: String) {
        self.types = false;
        self.why.push(s);
    }
    fn see(&mut self, w: bool, s: S, r: &R) {
        if !ok(w, s, r) {
            self.bad_ty(format!("{s:?} {}.{}", r.d, r.n));
        }
    }
}
fn gblock(t: &mut Tape, g: &G, x: &mut W, args: &[R], d: usize, depth: usize) -> BlockRef {
    let ts: Vec<TypeRef> = args.iter().map(|a| bt(&mut x.ctx, a)).collect();
    let blk = b::block(&mut x.ctx, &ts);
    for (i, a) in args.iter().enumerate() {
        x.see(g.w, S::Value, a);
        if t.chance(1, 5) {
            let (k, a) = (key(t, g), ga(t, g, 1));
            if !sym_ok(&k) || !attr_ok(g.w, &a) {
                x.bad_ty("block argument attribute".into());
            }
            let av = ba(&mut x.ctx, &a);
            x.ctx.block_mut(blk).args[i].attrs.insert(b::sym(&k), av);
        }
    }
    let mut vals: Vec<(ValueRef, R)> = x.ctx.block_args(blk).to_vec().into_iter().zip(args.to_vec()).collect();
    for _ in 0..t.upto(if depth == 0 { 4 } else { 3 }) {
        gop(t, g, x, blk, &mut vals, d, depth);
    }
    blk
}
fn gop(t: &mut Tape, g: &G, x: &mut W, blk: BlockRef, vals: &mut Vec<(ValueRef, R)>, d: usize, depth: usize) {
    x.n += 1;
    let home = if g.w { "wasm" } else { "clif" };
    let mut dl = home;
    let mut name = *t.pick(&["x", "func", "call_indirect", "return_call", "return_call_indirect", "iconst", "if", "func"]);
    if g.bad > 0 && t.chance(g.bad, 150) {
        (dl, name) = *t.pick(&[("core", "unrealized_conversion_cast"), ("core", "module"), ("core", "module"), ("tribute_rt", "retain"), ("ability", "perform"), ("effect", "dispatch_cps"), ("closure", "new"), ("clif", "iadd"), ("wasm", "i32_add"), ("wasm_gc", "struct_new"), ("func", "func"), ("arith", "const"), ("test", "x"), ("core", "modules")]);
    } else if !g.w && t.chance(1, 12) || g.w && depth == 0 && t.chance(1, 12) {
        (dl, name) = ("core", "module");
    }
    let legal = dl == home || ((dl, name) == ("core", "module") && (!g.w || depth == 0));
    if !legal {
        x.bad_op(&format!("{dl}.{name} at depth {depth}"));
    }
    let mut o = b::O::default();
    let sigkey = if g.w { "func.indirect_call_signature" } else { "sig" };
    let transfer = name == "return_call" || name == "return_call_indirect";
    let mut extra: Vec<(String, A, S)> = vec![];
    if dl == "wasm" && name == "return_call_indirect" {
        // a proper indirect tail transfer carries its exact signature
        let args: Vec<R> = (0..t.upto(2)).map(|_| gt(t, g, S::Value, 1)).collect();
        let mut sig = R { d: "core", n: "func", ps: vec![t0("core", "nil")], at: vec![] };
        sig.ps.extend(args.iter().cloned());
        let mut table = t0("core", "i32");
        let mut given = args.clone();
        let mut some = true;
        if g.bad > 0 && t.chance(1, 2) {
            match t.upto(5) {
                0 => table = t0("core", "i64"),
                1 => sig.ps[0] = t0("core", "i32"),
                2 => given.push(t0("core", "i32")),
                3 => some = false,
                4 => sig = t0("core", "ptr"),
                _ => {
                    if let Some(l) = given.last_mut() {
                        *l = t0("core", if l.n == "f32" { "f64" } else { "f32" });
                    } else {
                        sig.ps.push(t0("core", "i32"));
                    }
                }
            }
            x.bad_op("return_call_indirect signature");
        }
        for a in std::iter::once(&table).chain(&given) {
            let tr = bt(&mut x.ctx, a);
            x.see(g.w, S::Result, a);
            let v = b::put1(&mut x.ctx, blk, "wasm.mk", &[], tr, &[]);
            o.operands.push(v);
            x.see(g.w, S::Value, a);
        }
        if some {
            extra.push((sigkey.into(), A::T(sig), S::Sig));
        }
    } else {
        for _ in 0..t.upto(2) {
            if !vals.is_empty() {
                o.operands.push(t.pick(vals).0);
            }
        }
        let is_sig = dl == home && (name == "call_indirect" || name == "return_call_indirect");
        if is_sig && t.chance(3, 4) {
            let mut a = A::T(gt(t, g, S::Sig, 1));
            if g.bad > 0 && t.chance(g.bad, 100) {
                a = A::I(3);
            }
            extra.push((sigkey.into(), a, S::Sig));
        }
    }
    let mut results = vec![];
    let rn = if transfer { if g.bad > 0 && t.chance(g.bad, 60) { 1 } else { 0 } } else { t.upto(2) };
    for _ in 0..rn {
        let r = gt(t, g, S::Result, d);
        x.see(g.w, S::Result, &r);
        o.results.push(bt(&mut x.ctx, &r));
        results.push(r);
    }
    if transfer && rn > 0 {
        x.bad_ty("transfer with a result".into());
    }
    let mut fsig = None;
    if name == "func" && dl == home || name == "func" && t.bool() {
        let mut s = gt(t, g, S::Sig, 1);
        let conv = match t.upto(5) {
            0 => Some(2i128),
            1 => Some(t.below(2) as i128),
            2 if g.bad > 0 => Some(*t.pick(&[2, 3, -1, 258])),
            _ => None,
        };
        if conv == Some(2) && !(g.bad > 0 && t.chance(1, 3)) && s.n == "func" && !s.ps.is_empty() {
            s.ps[0] = t0("core", "nil");
        }
        if let Some(c) = conv {
            o.attrs.push(("tribute.calling_convention".into(), Attribute::Int(c)));
            if !(0..=2).contains(&c) {
                x.bad_ty(format!("convention {c}"));
            }
            if c == 2 && dl == home && !(s.d == "core" && s.n == "func" && s.ps.first().is_some_and(|r| (r.d, r.n) == ("core", "nil"))) {
                x.bad_ty("Cps function with a result".into());
            }
        }
        extra.push(("type".into(), A::T(s.clone()), if dl == home { S::Sig } else { S::Meta }));
        fsig = Some(s);
    } else if t.chance(1, 10) {
        let c = if g.bad > 0 && t.bool() { *t.pick(&[3i128, -1, 256]) } else { t.below(3) as i128 };
        o.attrs.push(("tribute.calling_convention".into(), Attribute::Int(c)));
        if !(0..=2).contains(&c) {
            x.bad_ty(format!("convention {c}"));
        }
    }
    for (k, a, s) in extra {
        match (&a, s) {
            (A::T(r), s) => x.see(g.w, s, r),
            (_, S::Sig) => x.bad_ty("signature is not a type".into()),
            (a, _) => {
                if !attr_ok(g.w, a) {
                    x.bad_ty("attribute".into());
                }
            }
        }
        let av = ba(&mut x.ctx, &a);
        o.attrs.push((k, av));
    }
    for _ in 0..t.upto(2) {
        let (k, a) = (key(t, g), ga(t, g, 2));
        if o.attrs.iter().any(|(q, _)| *q == k) {
            continue;
        }
        if !sym_ok(&k) || !attr_ok(g.w, &a) {
            x.bad_ty(format!("attribute {k}"));
        }
        let av = ba(&mut x.ctx, &a);
        o.attrs.push((k, av));
    }
    if d > 0 && (name == "func" || name == "module" || t.chance(1, 4)) {
        for _ in 0..if name == "func" || name == "module" { 1 } else { 1 + t.upto(1) } {
            let nb = if name == "module" { 1 } else { 1 + t.upto(1) };
            let mut bs = vec![];
            for _ in 0..nb {
                let args: Vec<R> = match &fsig {
                    Some(s) if bs.is_empty() && !s.ps.is_empty() && t.bool() => s.ps[1..].to_vec(),
                    _ => (0..t.upto(2)).map(|_| gt(t, g, S::Value, 1)).collect(),
                };
                bs.push(gblock(t, g, x, &args, d - 1, depth + 1));
            }
            o.regions.push(b::region(&mut x.ctx, &bs));
        }
    }
    let op = b::put(&mut x.ctx, blk, &format!("{dl}.{name}"), o);
    for (v, r) in x.ctx.op_results(op).to_vec().into_iter().zip(results) {
        // using a value makes its type an operand type
        vals.push((v, r));
    }
}
fn boundary(t: &mut Tape) -> CaseResult {
    let w = t.bool();
    let bad = *t.pick(&[0u64, 3, 10, 30]);
    let g = G { w, bad };
    let mut x = W { ctx: IrContext::new(), ops: true, types: true, n: 0, why: vec![] };
    let blk = gblock(t, &g, &mut x, &[], 2, 0);
    let r = b::region(&mut x.ctx, &[blk]);
    let m = b::mk(&mut x.ctx, "core.module", b::O { attrs: vec![("sym_name".into(), Attribute::Symbol(b::sym("m")))], regions: vec![r], ..Default::default() });
    for i in 0..t.upto(2) {
        let ty = gt(t, &g, S::Meta, 2);
        x.see(w, S::Meta, &ty);
        let tr = bt(&mut x.ctx, &ty);
        let mut n = format!("al{i}");
        if bad > 0 && t.chance(bad, 100) {
            n = CONTROL.into();
            x.bad_ty("alias name".into());
        }
        x.ctx.register_type_alias(b::sym(&n), tr);
    }
    let aliases: Vec<String> = x.ctx.type_aliases().iter().map(|(n, t)| format!("!{n} = {}", pretty::type_str(&x.ctx, *t))).collect();
    let render = format!("{}\n{}\n{}expected: operations {} types {} {:?}", if w { "wasm" } else { "native" }, aliases.join("\n"), pretty::canon(&x.ctx, m, false, true), x.ops, x.types, x.why);
    note(&render);
    let md = Module::new(&x.ctx, m).unwrap();
    let ops = if w { trunk_ir_wasm_backend::validate_wasm_ir(&x.ctx, md).map_err(|e| e.to_string()) } else { trunk_ir_cranelift_backend::validate_clif_ir(&x.ctx, md).map_err(|e| e.to_string()) };
    if ops.is_ok() != x.ops {
        return fail(format!("operation check is wrong| got {ops:?}, expected {}", x.ops), render);
    }
    let all = if w { verify_wasm_backend_ready(&x.ctx, md) } else { verify_native_backend_ready(&x.ctx, md) }.map_err(|e| e.to_string());
    let want = x.ops && x.types;
    if all.is_ok() != want {
        return fail(format!("boundary check is wrong| got {all:?}, expected {want}"), render);
    }
    let backend = if w { TributeBackend::Wasm } else { TributeBackend::Native };
    if verify_tribute_backend_ready(&x.ctx, md, backend).is_ok() != want {
        return fail("boundary check by backend is wrong|", render);
    }
    let mut tags = vec![if w { "wasm".to_string() } else { "native".into() }, if want { "accept".into() } else if x.ops { "reject-type".to_string() } else { "reject-op".into() }];
    if x.why.len() == 1 {
        tags.push("one defect".into());
    }
    Ok(Case { nontrivial: x.n >= 3, key: hash_str(&render), render, tags })
}
fn blocks_of(ctx: &IrContext, op: OpRef, out: &mut Vec<BlockRef>) {
    for r in &ctx.op(op).regions {
        for blk in &ctx.region(*r).blocks {
            out.push(*blk);
            for o in &ctx.block(*blk).ops {
                blocks_of(ctx, *o, out);
            }
        }
    }
}
/// Real lowered programs are accepted; the same program with one leftover is not, and is not emitted.
fn lowered(t: &mut Tape) -> CaseResult {
    let w = t.bool();
    // native programs with data keep nominal types on some call results: only their operations are judged
    let ops_only = !w && t.bool();
    let mut cfg = Cfg::base();
    if w {
        crate::wasm_cfg(&mut cfg);
    } else {
        crate::native_cfg(&mut cfg, ops_only);
    }
    let mut g = gen_module(t, &cfg);
    let text = pretty::canon(&g.ctx, g.module, false, false);
    note(&text);
    let md = Module::new(&g.ctx, g.module).unwrap();
    let ro = if w {
        if let Err(e) = crate::lower_wasm(&mut g.ctx, md) {
            return fail(format!("wasm lowering failed| {e}"), text);
        }
        vec![]
    } else {
        match pipe::lower(&mut g.ctx, g.module, pipe::Opt::base()) {
            Ok(r) => r,
            Err(e) => return fail(format!("native lowering failed| {e}"), text),
        }
    };
    let low = pretty::canon(&g.ctx, g.module, false, true);
    let check = |ctx: &IrContext| if ops_only { trunk_ir_cranelift_backend::validate_clif_ir(ctx, md).map_err(|e| e.to_string()) } else { if w { verify_wasm_backend_ready(ctx, md) } else { verify_native_backend_ready(ctx, md) }.map_err(|e| e.to_string()) };
    if let Err(e) = check(&g.ctx) {
        return fail(format!("lowered program rejected| {e}"), format!("{text}\nLOWERED\n{low}"));
    }
    let mut bs = vec![];
    blocks_of(&g.ctx, g.module, &mut bs);
    let blk = *t.pick(&bs);
    let nops = g.ctx.block(blk).ops.len();
    let bad = {
        let (d, n) = *t.pick(&[("tribute_rt", "anyref"), ("closure", "closure"), ("core", "never"), ("core", "tuple"), ("tribute_control", "callable"), ("ability", "evidence_ptr")]);
        let mut r = t0(d, n);
        for _ in 0..t.upto(2) {
            r = match t.upto(2) {
                0 => R { d: "core", n: "array", ps: vec![r], at: vec![] },
                1 => R { d: "adt", n: "struct", ps: vec![], at: vec![("fields".into(), A::L(vec![A::L(vec![A::Sym("f".into()), A::T(r)])]))] },
                _ => R { d: "core", n: "func", ps: vec![t0("core", "nil"), r], at: vec![] },
            };
        }
        bt(&mut g.ctx, &r)
    };
    let mut emit_must_fail = false;
    let what = match if ops_only { 0 } else { t.upto(4) } {
        0 => {
            let n = *t.pick(&["core.unrealized_conversion_cast", "tribute_rt.retain", "ability.perform", "effect.dispatch_cps", "closure.new", "func.call", "arith.const", "adt.struct_get", "scf.yield", "cf.br", "test.x"]);
            let op = b::mk(&mut g.ctx, n, b::O::default());
            if nops == 0 {
                g.ctx.push_op(blk, op);
            } else {
                let at = g.ctx.block(blk).ops[t.idx(nops)];
                g.ctx.insert_op_before(blk, at, op);
            }
            emit_must_fail = true;
            format!("leftover {n}")
        }
        1 if nops > 0 => {
            let op = g.ctx.block(blk).ops[t.idx(nops)];
            let a = if t.bool() { Attribute::Type(bad) } else { Attribute::List(vec![Attribute::Int(0), Attribute::Type(bad)]) };
            g.ctx.op_mut(op).attributes.insert(b::sym("zz"), a);
            "attribute type".into()
        }
        2 if nops > 0 => {
            let op = g.ctx.block(blk).ops[t.idx(nops)];
            g.ctx.op_mut(op).attributes.insert(b::sym("zz"), Attribute::Symbol(b::sym(CONTROL)));
            "control symbol".into()
        }
        3 if !g.ctx.block_args(blk).is_empty() => {
            let i = t.idx(g.ctx.block_args(blk).len());
            g.ctx.set_block_arg_type(blk, i as u32, bad);
            "block argument type".into()
        }
        _ => {
            g.ctx.register_type_alias(b::sym("zz"), bad);
            "alias type".into()
        }
    };
    let render = format!("{} {what} {}\n{text}", if w { "wasm" } else { "native" }, pretty::type_str(&g.ctx, bad));
    note(&render);
    if check(&g.ctx).is_ok() {
        return fail(format!("module with a leftover accepted| {what} {}", pretty::type_str(&g.ctx, bad)), render);
    }
    if emit_must_fail {
        let r = if w { trunk_ir_wasm_backend::emit_module_to_wasm(&mut g.ctx, md).map(|_| ()).map_err(|e| e.to_string()) } else { pipe::emit(&g.ctx, g.module, &ro).map(|_| ()) };
        if r.is_ok() {
            return fail(format!("module with a leftover emitted| {what}"), render);
        }
    }
    Ok(Case { nontrivial: low.len() > 2000, key: hash_str(&render), render, tags: vec![if w { "wasm" } else { "native" }.into(), what] })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C30",
        lanes: vec![
            Lane { name: "boundary", rule: "random target-dialect modules (nested regions, modules, signatures, types and attributes) with 0 to 30 % of the choices illegal, judged by a reference legality table; non-trivial: at least three operations", quick: 60_000, thorough: 3_000_000, threads: 0, run: boundary },
            Lane { name: "lowered", rule: "a generated program lowered for native or WebAssembly must be accepted, and rejected with one leftover planted; non-trivial: more than 2000 characters of lowered IR", quick: 1_500, thorough: 60_000, threads: 0, run: lowered },
        ],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
