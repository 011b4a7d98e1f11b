//! C29: physical calling conventions. A model module is rendered twice, as logical and as physical IR;
//! the pass must turn the first into the second, or (one defect planted) reject it without touching it.
use engine::*;
use irkit::b;
use irkit::pretty;
use tribute_core::CallingConvention as CC;
use tribute_passes::target_abi::*;
use trunk_ir::context::*;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::*;

const CONV: &str = "tribute.calling_convention";
const ENV: &str = "tribute.closure_environment_index";
const SIG: &str = "func.indirect_call_signature";

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Core(&'static str),
    Anyref,
    Evidence,
    Fun(Vec<Ty>),
    Clo { conv: Option<i128>, env: Option<i128>, f: Vec<Ty> },
    Struct(String, Vec<(String, Ty)>),
    Arr(Box<Ty>),
    Attr(Box<Ty>),
}
use Ty::*;
fn never() -> Ty {
    Core("never")
}
/// Build a type; in physical form the result of a convention-proven Cps callable is empty.
fn ty(ctx: &mut IrContext, t: &Ty, phys: bool) -> TypeRef {
    match t {
        Core(n) => b::core(ctx, n),
        Anyref => b::ty0(ctx, "tribute_rt", "anyref"),
        Evidence => tribute_ir::dialect::ability::evidence_adt_type_ref(ctx),
        Fun(ps) => fun(ctx, ps, None, phys),
        Clo { conv, env, f } => {
            let inner = fun(ctx, f, *conv, phys);
            let mut d = TypeDataBuilder::new(b::sym("closure"), b::sym("closure")).param(inner);
            if let Some(c) = conv {
                d = d.attr(CONV, Attribute::Int(*c));
            }
            if let Some(e) = env {
                d = d.attr(ENV, Attribute::Int(*e));
            }
            ctx.types.intern(d.build())
        }
        Struct(n, fs) => {
            let fields: Vec<Attribute> = fs.iter().map(|(n, t)| Attribute::List(vec![Attribute::Symbol(b::sym(n)), Attribute::Type(ty(ctx, t, phys))])).collect();
            ctx.types.intern(TypeDataBuilder::new(b::sym("adt"), b::sym("struct")).attr("name", Attribute::Symbol(b::sym(n))).attr("fields", Attribute::List(fields)).build())
        }
        Arr(t) => {
            let e = ty(ctx, t, phys);
            ctx.types.intern(TypeDataBuilder::new(b::sym("core"), b::sym("array")).param(e).build())
        }
        Attr(t) => {
            let e = ty(ctx, t, phys);
            ctx.types.intern(TypeDataBuilder::new(b::sym("adt"), b::sym("typeref")).attr("name", Attribute::Symbol(b::sym("Opaque"))).attr("of", Attribute::Type(e)).build())
        }
    }
}
fn fun(ctx: &mut IrContext, ps: &[Ty], conv: Option<i128>, phys: bool) -> TypeRef {
    let mut v: Vec<TypeRef> = vec![];
    for (i, p) in ps.iter().enumerate() {
        v.push(if i == 0 && phys && conv == Some(2) { b::core(ctx, "nil") } else { ty(ctx, p, phys) });
    }
    ctx.types.intern(TypeDataBuilder::new(b::sym("core"), b::sym("func")).params(v).build())
}
#[derive(Clone, Debug, PartialEq)]
enum At {
    Int(i64),
    T(Ty),
    L(Vec<At>),
    Str(String),
}
fn at(ctx: &mut IrContext, a: &At, phys: bool) -> Attribute {
    match a {
        At::Int(i) => Attribute::Int(*i as i128),
        At::T(t) => Attribute::Type(ty(ctx, t, phys)),
        At::L(v) => Attribute::List(v.iter().map(|x| at(ctx, x, phys)).collect()),
        At::Str(s) => Attribute::String(s.clone()),
    }
}
#[derive(Clone, Debug, PartialEq)]
enum Op {
    Any { results: Vec<Ty>, attrs: Vec<(String, At)>, regions: Vec<Vec<(Vec<Ty>, Vec<Op>)>> },
    Const { f: String, t: Vec<Ty>, conv: Option<i128> },
    Call { tail: bool, callee: String, conv: Option<i128>, args: Vec<Ty>, res: Vec<Ty> },
    Ind { tail: bool, sig: Option<Result<Vec<Ty>, Ty>>, conv: Option<i128>, args: Vec<Ty>, res: Vec<Ty> },
    Unreachable,
}
#[derive(Clone, Debug)]
struct F {
    name: String,
    conv: Option<i128>,
    ret: Ty,
    params: Vec<Ty>,
    /// parameter indices bound as `__env` (normally at most one)
    envs: Vec<usize>,
    env_attr: Option<i128>,
    body: Option<Vec<Op>>,
    extra: Vec<(String, At)>,
    root: Vec<(String, Attr2)>,
}
#[derive(Clone, Debug)]
enum Attr2 {
    I(i128),
    T(Ty),
    S(&'static str),
}
#[derive(Clone, Debug, Default)]
struct M {
    name: String,
    fs: Vec<F>,
    subs: Vec<(usize, M)>,
    aliases: Vec<(String, Ty)>,
    attrs: Vec<(String, At)>,
}
fn ops(ctx: &mut IrContext, blk: BlockRef, os: &[Op], phys: bool) {
    for o in os {
        match o {
            Op::Any { results, attrs, regions } => {
                let rs = results.iter().map(|t| ty(ctx, t, phys)).collect();
                let mut av = vec![];
                for (k, a) in attrs {
                    av.push((k.clone(), at(ctx, a, phys)));
                }
                let mut regs = vec![];
                for r in regions {
                    let mut bs = vec![];
                    for (args, os) in r {
                        let ts: Vec<TypeRef> = args.iter().map(|t| ty(ctx, t, phys)).collect();
                        let nb = b::block(ctx, &ts);
                        ops(ctx, nb, os, phys);
                        bs.push(nb);
                    }
                    regs.push(b::region(ctx, &bs));
                }
                b::put(ctx, blk, "test.op", b::O { results: rs, attrs: av, regions: regs, ..Default::default() });
            }
            Op::Const { f, t, conv } => {
                let t = fun(ctx, t, *conv, phys);
                b::put1(ctx, blk, "func.constant", &[], t, &[("func_ref", Attribute::Symbol(b::sym(f)))]);
            }
            Op::Call { tail, callee, conv, args, res } => {
                let vs = mk_args(ctx, blk, args, phys);
                let results = res.iter().map(|t| ty(ctx, t, phys)).collect();
                let mut attrs = vec![("callee".to_string(), Attribute::Symbol(b::sym(callee)))];
                if let Some(c) = conv {
                    attrs.push((CONV.into(), Attribute::Int(*c)));
                }
                b::put(ctx, blk, if *tail { "func.tail_call" } else { "func.call" }, b::O { operands: vs, results, attrs, ..Default::default() });
            }
            Op::Ind { tail, sig, conv, args, res } => {
                let ct = b::core(ctx, "ptr");
                let mut vs = vec![b::put1(ctx, blk, "test.mk", &[], ct, &[])];
                vs.extend(mk_args(ctx, blk, args, phys));
                let results = res.iter().map(|t| ty(ctx, t, phys)).collect();
                let mut attrs = vec![];
                match sig {
                    Some(Ok(s)) => attrs.push((SIG.to_string(), Attribute::Type(fun(ctx, s, *conv, phys)))),
                    Some(Err(t)) => attrs.push((SIG.to_string(), Attribute::Type(ty(ctx, t, phys)))),
                    None => {}
                }
                if let Some(c) = conv {
                    attrs.push((CONV.into(), Attribute::Int(*c)));
                }
                b::put(ctx, blk, if *tail { "func.tail_call_indirect" } else { "func.call_indirect" }, b::O { operands: vs, results, attrs, ..Default::default() });
            }
            Op::Unreachable => {
                b::put0(ctx, blk, "func.unreachable", &[], &[], &[]);
            }
        }
    }
}
fn mk_args(ctx: &mut IrContext, blk: BlockRef, args: &[Ty], phys: bool) -> Vec<ValueRef> {
    args.iter()
        .map(|a| {
            let t = ty(ctx, a, phys);
            b::put1(ctx, blk, "test.mk", &[], t, &[])
        })
        .collect()
}
fn build_f(ctx: &mut IrContext, f: &F, phys: bool) -> OpRef {
    let mut sig = vec![f.ret.clone()];
    sig.extend(f.params.iter().cloned());
    let t = fun(ctx, &sig, f.conv, phys);
    let mut attrs = vec![("sym_name".to_string(), Attribute::Symbol(b::sym(&f.name))), ("type".to_string(), Attribute::Type(t))];
    if let Some(c) = f.conv {
        attrs.push((CONV.into(), Attribute::Int(c)));
    }
    let env = f.env_attr.or_else(|| if phys && f.conv.is_some() && f.body.is_some() { f.envs.first().map(|i| *i as i128) } else { None });
    if let Some(e) = env {
        attrs.push((ENV.into(), Attribute::Int(e)));
    }
    for (k, a) in &f.extra {
        attrs.push((k.clone(), at(ctx, a, phys)));
    }
    for (k, a) in &f.root {
        attrs.push((
            k.clone(),
            match a {
                Attr2::I(i) => Attribute::Int(*i),
                Attr2::T(t) => Attribute::Type(ty(ctx, t, phys)),
                Attr2::S(s) => Attribute::Symbol(b::sym(s)),
            },
        ));
    }
    let mut regions = vec![];
    if let Some(body) = &f.body {
        let ts: Vec<TypeRef> = f.params.iter().map(|t| ty(ctx, t, phys)).collect();
        let blk = b::block(ctx, &ts);
        for i in 0..ts.len() {
            if f.envs.contains(&i) {
                ctx.block_mut(blk).args[i].attrs.insert(b::sym("bind_name"), Attribute::Symbol(b::sym("__env")));
            } else if i % 3 == 1 {
                ctx.block_mut(blk).args[i].attrs.insert(b::sym("bind_name"), Attribute::Symbol(b::sym("env")));
            }
        }
        ops(ctx, blk, body, phys);
        regions.push(b::region(ctx, &[blk]));
    }
    b::mk(ctx, "func.func", b::O { attrs, regions, ..Default::default() })
}
fn build_m(ctx: &mut IrContext, m: &M, phys: bool) -> OpRef {
    let mut v = vec![];
    for (i, f) in m.fs.iter().enumerate() {
        for (at, s) in &m.subs {
            if *at == i {
                v.push(build_m(ctx, s, phys));
            }
        }
        v.push(build_f(ctx, f, phys));
    }
    for (at, s) in &m.subs {
        if *at >= m.fs.len() {
            v.push(build_m(ctx, s, phys));
        }
    }
    let op = b::module(ctx, &m.name, &v);
    for (k, a) in &m.attrs {
        let a = at(ctx, a, phys);
        ctx.op_mut(op).attributes.insert(b::sym(k), a);
    }
    op
}
fn build(m: &M, phys: bool) -> (IrContext, Module) {
    let mut ctx = IrContext::new();
    let op = build_m(&mut ctx, m, phys);
    for (n, t) in &m.aliases {
        let t = ty(&mut ctx, t, phys);
        ctx.register_type_alias(b::sym(n), t);
    }
    let md = Module::new(&ctx, op).unwrap();
    (ctx, md)
}
fn show(ctx: &IrContext, m: Module) -> String {
    let mut s = String::new();
    for (n, t) in ctx.type_aliases() {
        s.push_str(&format!("!{n} = {}\n", pretty::type_str(ctx, *t)));
    }
    s + &pretty::canon(ctx, m.op(), false, true)
}

// ------------------------------------------------------------------ generator
struct G {
    n: usize,
    deep: usize,
}
fn gty(t: &mut Tape, d: usize) -> Ty {
    match t.weighted(if d == 0 { &[8, 2, 1, 0, 0, 0, 0, 0, 0] } else { &[6, 2, 1, 2, 4, 2, 2, 1, 1] }) {
        0 => Core(*t.pick(&["i32", "i64", "f64", "ptr", "nil", "bytes", "i1"])),
        1 => Anyref,
        2 => never(),
        3 => {
            let mut r = gty(t, d - 1);
            if r == never() {
                r = Core("i32");
            }
            let mut v = vec![r];
            v.extend((0..wide(t, 2)).map(|_| gty(t, d - 1)));
            Fun(v)
        }
        4 => clo(t, d - 1),
        5 => Struct(format!("S{}", t.upto(2)), (0..t.upto(3)).map(|i| (format!("f{i}"), gty(t, d - 1))).collect()),
        6 => Arr(Box::new(gty(t, d - 1))),
        7 => Attr(Box::new(gty(t, d - 1))),
        _ => Evidence,
    }
}
fn clo(t: &mut Tape, d: usize) -> Ty {
    let conv = *t.pick(&[2i128, 2, 0, 1]);
    let mut f = vec![if conv == 2 { never() } else { gty(t, d) }];
    f.extend((0..wide(t, 3)).map(|_| gty(t, d)));
    Clo { conv: Some(conv), env: if t.chance(1, 3) { None } else { Some(t.upto(1) as i128) }, f }
}
fn gat(t: &mut Tape, d: usize) -> At {
    match t.weighted(&[2, 4, if d > 0 { 2 } else { 0 }, 1]) {
        0 => At::Int(t.upto(5) as i64),
        1 => At::T(gty(t, 2)),
        2 => At::L((0..t.upto(3)).map(|_| gat(t, d - 1)).collect()),
        _ => At::Str("core.never".into()),
    }
}
/// The reference type of a function: its signature without the environment.
fn ref_ty(f: &F) -> Vec<Ty> {
    let mut v = vec![f.ret.clone()];
    let env = if f.conv.is_none() { None } else { f.env_attr.map(|e| e as usize).or(if f.body.is_some() { f.envs.first().copied() } else { None }) };
    v.extend(f.params.iter().enumerate().filter(|(i, _)| Some(*i) != env).map(|(_, t)| t.clone()));
    v
}
fn gops(t: &mut Tape, g: &mut G, d: usize, sigs: &[F], me: &F) -> Vec<Op> {
    let mut v = vec![];
    for _ in 0..t.upto(if d == 0 { 2 } else { 4 }) {
        if let Some(o) = gop(t, g, d, sigs, me) {
            v.push(o);
        }
    }
    v
}
fn gop(t: &mut Tape, g: &mut G, d: usize, sigs: &[F], me: &F) -> Option<Op> {
    g.n += 1;
    Some(match t.weighted(&[4, 3, 3, 3, 2]) {
        0 => {
            let results = (0..wide(t, 2)).map(|_| gty(t, 2)).collect();
            let attrs = (0..t.upto(2)).map(|i| (format!("a{i}"), gat(t, 2))).collect();
            let mut regions = vec![];
            if d > 0 {
                for _ in 0..t.upto(2) {
                    g.deep += 1;
                    regions.push((0..1 + t.upto(2)).map(|_| ((0..wide(t, 2)).map(|_| gty(t, 2)).collect(), gops(t, g, d - 1, sigs, me))).collect());
                }
            }
            Op::Any { results, attrs, regions }
        }
        1 => {
            let f = t.pick(sigs).clone();
            if f.conv.is_none() && f.ret == never() {
                return None;
            }
            Op::Const { f: f.name.clone(), t: ref_ty(&f), conv: f.conv }
        }
        2 => {
            let cands: Vec<&F> = sigs.iter().filter(|f| f.conv != Some(2)).collect();
            if cands.is_empty() {
                return None;
            }
            let f = *t.pick(&cands);
            Op::Call { tail: false, callee: f.name.clone(), conv: f.conv, args: f.params.clone(), res: vec![f.ret.clone()] }
        }
        3 => {
            let conv = *t.pick(&[None, Some(0i128), Some(1)]);
            let mut r = gty(t, 1);
            if conv.is_none() && r == never() {
                r = Anyref;
            }
            let args: Vec<Ty> = (0..wide(t, 2)).map(|_| gty(t, 2)).collect();
            let mut s = vec![r.clone()];
            s.extend(args.iter().cloned());
            Op::Ind { tail: false, sig: conv.map(|_| Ok(s)), conv, args, res: vec![r] }
        }
        _ => {
            if me.conv != Some(2) {
                return None;
            }
            gtail(t, sigs)
        }
    })
}
fn gtail(t: &mut Tape, sigs: &[F]) -> Op {
    let c: Vec<&F> = sigs.iter().filter(|f| f.conv == Some(2)).collect();
    if !c.is_empty() && t.bool() {
        let f = *t.pick(&c);
        return Op::Call { tail: true, callee: f.name.clone(), conv: f.conv, args: f.params.clone(), res: vec![] };
    }
    let args: Vec<Ty> = (0..wide(t, 3)).map(|_| gty(t, 2)).collect();
    let mut s = vec![never()];
    s.extend(args.iter().cloned());
    Op::Ind { tail: true, sig: Some(Ok(s)), conv: Some(2), args, res: vec![] }
}
fn gf(t: &mut Tape, name: String) -> F {
    let conv = *t.pick(&[Some(2i128), Some(2), Some(0), Some(1), None]);
    let mut params: Vec<Ty> = (0..wide(t, 3)).map(|_| gty(t, 2)).collect();
    let mut envs = vec![];
    let mut env_attr = None;
    let body = t.chance(4, 5);
    if t.chance(1, 3) {
        let i = t.upto(params.len());
        params.insert(i, Anyref);
        if body {
            envs.push(i);
        }
        if (!body || t.bool()) && conv.is_some() {
            env_attr = Some(i as i128);
        }
    }
    let mut ret = if conv == Some(2) { never() } else { gty(t, 2) };
    if conv.is_none() && ret == never() {
        ret = Core("i64");
    }
    let extra = if t.chance(1, 4) { vec![("x".to_string(), gat(t, 2))] } else { vec![] };
    F { name, conv, ret, params, envs, env_attr, body: if body { Some(vec![]) } else { None }, extra, root: vec![] }
}
fn gm(t: &mut Tape, g: &mut G, name: &str, d: usize, root: bool) -> M {
    let n = 1 + t.upto(4);
    let mut fs: Vec<F> = (0..n).map(|i| gf(t, format!("f{i}"))).collect();
    if root {
        let i = t.upto(fs.len());
        fs.insert(i, gmain(t));
    } else if t.chance(1, 3) {
        fs[0].name = "main".into();
    }
    let sigs = fs.clone();
    for f in &mut fs {
        if f.body.is_some() {
            let me = f.clone();
            let mut os = gops(t, g, 2, &sigs, &me);
            os.push(if me.conv == Some(2) && t.chance(2, 3) { gtail(t, &sigs) } else { Op::Unreachable });
            f.body = Some(os);
        }
    }
    let mut subs = vec![];
    if d > 0 {
        for i in 0..t.upto(2) {
            subs.push((t.upto(fs.len()), gm(t, g, &format!("sub{i}"), d - 1, false)));
        }
    }
    let aliases = if d == 2 { (0..t.upto(2)).map(|i| (format!("al{i}"), gty(t, 2))).collect() } else { vec![] };
    let attrs = if t.chance(1, 4) { vec![("meta".to_string(), gat(t, 2))] } else { vec![] };
    M { name: name.into(), fs, subs, aliases, attrs }
}
fn gmain(t: &mut Tape) -> F {
    let done = Clo { conv: Some(2), env: Some(0), f: vec![never(), Core("nil")] };
    F {
        name: "main".into(),
        conv: Some(2),
        ret: never(),
        params: vec![Evidence, done],
        envs: vec![],
        env_attr: None,
        body: Some(vec![]),
        extra: vec![],
        root: vec![("tribute.root_export_convention".into(), Attr2::I(t.below(2) as i128)), ("tribute.root_source_result".into(), Attr2::T(Core("nil")))],
    }
}
fn cps_count(s: &str) -> usize {
    s.matches("core.never").count()
}

fn lower(t: &mut Tape) -> CaseResult {
    let mut g = G { n: 0, deep: 0 };
    let m = gm(t, &mut g, "top", 2, false);
    let (mut ctx, md) = build(&m, false);
    let before = show(&ctx, md);
    note(&before);
    let (ectx, emd) = build(&m, true);
    let want = show(&ectx, emd);
    if let Err(e) = lower_cps_signatures_to_physical(&mut ctx, md) {
        return fail(format!("well-formed module rejected| {e}"), before);
    }
    let got = show(&ctx, md);
    if got != want {
        return fail(format!("physical module differs| {}", pretty::first_diff(&want, &got)), before);
    }
    let mut tags = vec![];
    if g.deep > 0 {
        tags.push("nested-regions".to_string());
    }
    if !m.subs.is_empty() {
        tags.push("nested-modules".into());
    }
    if want != before {
        tags.push("changed".into());
    }
    Ok(Case { nontrivial: cps_count(&before) > cps_count(&want) + 2, key: hash_str(&before), render: before, tags })
}

// ------------------------------------------------------------------ rejected modules
fn at_module<'a>(t: &mut Tape, m: &'a mut M) -> &'a mut M {
    if !m.subs.is_empty() && t.chance(1, 3) {
        let i = t.idx(m.subs.len());
        return at_module(t, &mut m.subs[i].1);
    }
    m
}
/// Wrap a type in contexts that keep it in an uncallable (embedded) position.
fn wrap(t: &mut Tape, x: Ty) -> Ty {
    let mut x = x;
    for _ in 0..t.upto(3) {
        x = match t.upto(5) {
            0 => Arr(Box::new(x)),
            1 => Struct("W".into(), vec![("p".into(), Core("i32")), ("q".into(), x)]),
            2 => Fun(vec![Core("i32"), Core("i64"), x]),
            3 => Clo { conv: Some(2), env: Some(0), f: vec![never(), x] },
            4 => Clo { conv: Some(t.below(2) as i128), env: None, f: vec![x, Anyref] },
            _ => Attr(Box::new(x)),
        };
    }
    x
}
fn bad_type(t: &mut Tape) -> (Ty, &'static str) {
    match t.upto(6) {
        0 => (Fun(vec![never()]), "untagged func<never>"),
        1 => (Fun(vec![never(), gty(t, 1)]), "untagged func<never,..>"),
        2 => (Clo { conv: None, env: Some(0), f: vec![never(), Core("i32")] }, "closure without convention"),
        3 => (Clo { conv: None, env: None, f: vec![Core("i32")] }, "closure without convention"),
        4 => (Clo { conv: Some(*t.pick(&[3i128, 9, -1, 256, 258])), env: Some(0), f: vec![never(), Core("i32")] }, "closure with a malformed convention"),
        5 => (Clo { conv: Some(2), env: Some(0), f: vec![t.pick(&[Core("nil"), Core("i32"), Anyref]).clone(), Core("i32")] }, "Cps closure that returns"),
        _ => (Fun(vec![]), "core.func without result"),
    }
}
fn newf(name: &str, conv: Option<i128>, ret: Ty, params: Vec<Ty>, body: Option<Vec<Op>>) -> F {
    F { name: name.into(), conv, ret, params, envs: vec![], env_attr: None, body, extra: vec![], root: vec![] }
}
fn rets(conv: i128, t: &mut Tape) -> Ty {
    if conv == 2 { never() } else { gty(t, 1) }
}
/// Put an operation into some function body of the module, possibly nested.
/// Mostly at most n, now and then a few more.
fn wide(t: &mut Tape, n: usize) -> usize {
    if t.chance(1, 8) { t.upto(n + 3) } else { t.upto(n) }
}
fn put_op(t: &mut Tape, m: &mut M, o: Op, conv: i128) {
    let o = if t.chance(1, 3) { Op::Any { results: vec![], attrs: vec![], regions: vec![vec![(vec![], vec![o])]] } } else { o };
    let f = newf("zz_user", Some(conv), if conv == 2 || t.chance(1, 3) { never() } else { Core("i32") }, vec![], Some(vec![o, Op::Unreachable]));
    let i = t.upto(m.fs.len());
    m.fs.insert(i, f);
}
fn add(t: &mut Tape, m: &mut M, f: F) {
    let i = t.upto(m.fs.len());
    m.fs.insert(i, f);
}
fn sigof(f: &F) -> Vec<Ty> {
    let mut v = vec![f.ret.clone()];
    v.extend(f.params.iter().cloned());
    v
}
fn inject(t: &mut Tape, m0: &mut M) -> String {
    let kind = t.upto(17);
    if kind == 0 {
        // a type whose convention is unknown, anywhere
        let (x, why) = bad_type(t);
        let direct_fun = matches!(x, Fun(_));
        let x = wrap(t, x);
        let place = t.upto(8);
        if place == 0 {
            m0.aliases.push(("zz".into(), x));
            return format!("{why} in alias");
        }
        let m = at_module(t, m0);
        match place {
            1 => m.attrs.push(("zz".into(), At::T(x))),
            2 => m.attrs.push(("zz".into(), At::L(vec![At::Int(1), At::L(vec![At::T(x)])]))),
            3 => {
                let c = *t.pick(&[Some(0i128), Some(1), Some(2), None]);
                let r = if c == Some(2) { never() } else { Core("i32") };
                let body = if t.bool() { Some(vec![Op::Unreachable]) } else { None };
                add(t, m, newf("zz", c, r, vec![Core("i32"), x], body))
            }
            4 => put_op(t, m, Op::Any { results: vec![Core("i32"), x], attrs: vec![], regions: vec![] }, 2),
            5 => put_op(t, m, Op::Any { results: vec![], attrs: vec![], regions: vec![vec![(vec![], vec![]), (vec![Core("i32"), x], vec![])]] }, 0),
            6 => put_op(t, m, Op::Any { results: vec![], attrs: vec![("k".into(), At::L(vec![At::T(Core("i32")), At::T(x)]))], regions: vec![] }, 1),
            7 => {
                let c = t.below(3) as i128;
                let r = if c == 2 { never() } else { Core("i32") };
                put_op(t, m, Op::Ind { tail: c == 2, sig: Some(Ok(vec![r.clone(), x.clone()])), conv: Some(c), args: vec![x], res: if c == 2 { vec![] } else { vec![r] } }, 2)
            }
            _ => add(t, m, {
                let mut f = newf("zz", Some(0), Core("i32"), vec![], None);
                f.extra.push(("k".into(), At::T(x)));
                f
            }),
        }
        let _ = direct_fun;
        return format!("{why} at place {place}");
    }
    let m = at_module(t, m0);
    let badcode = *t.pick(&[3i128, 9, -1, 255, 256, 258, 1 << 40]);
    match kind {
        1 => {
            add(t, m, newf("zz", Some(badcode), Core("i32"), vec![], Some(vec![Op::Unreachable])));
            "malformed convention on a function".into()
        }
        2 => {
            let r = t.pick(&[Core("nil"), Core("i32"), Anyref]).clone();
            let body = if t.bool() { Some(vec![Op::Unreachable]) } else { None };
            add(t, m, newf("zz", Some(2), r, vec![Core("i32")], body));
            "Cps function that returns".into()
        }
        3 => {
            let f = newf("zz", Some(2), never(), vec![gty(t, 1)], None);
            let res = if t.bool() { vec![never()] } else { vec![] };
            put_op(t, m, Op::Call { tail: false, callee: f.name.clone(), conv: Some(2), args: f.params.clone(), res }, 2);
            add(t, m, f);
            "ordinary call of a Cps function".into()
        }
        4 => {
            let c = t.below(2) as i128;
            let f = newf("zz", Some(2), never(), vec![gty(t, 1)], None);
            put_op(t, m, Op::Call { tail: true, callee: f.name.clone(), conv: Some(2), args: f.params.clone(), res: vec![] }, c);
            add(t, m, f);
            "tail call of a Cps function from a returning function".into()
        }
        5 => {
            let c = t.below(2) as i128;
            let f = newf("zz", Some(c), never(), vec![], None);
            put_op(t, m, Op::Call { tail: true, callee: f.name.clone(), conv: Some(c), args: vec![], res: vec![] }, 2);
            add(t, m, f);
            "tail call of a returning function".into()
        }
        6 => {
            let (c, d) = *t.pick(&[(0i128, 1i128), (1, 0), (2, 0), (0, 2), (2, 1), (1, 2)]);
            let r = rets(c, t);
            let f = newf("zz", Some(c), r, vec![gty(t, 1)], None);
            put_op(t, m, Op::Call { tail: d == 2, callee: f.name.clone(), conv: Some(d), args: f.params.clone(), res: if d == 2 { vec![] } else { vec![f.ret.clone()] } }, 2);
            add(t, m, f);
            "convention of a transfer differs from its callee".into()
        }
        7 => {
            let c = t.below(3) as i128;
            let r = rets(c, t);
            let f = newf("zz", Some(c), r, (0..wide(t, 3)).map(|_| gty(t, 2)).collect(), None);
            let args = mismatch(t, &f.params);
            put_op(t, m, Op::Call { tail: c == 2, callee: f.name.clone(), conv: Some(c), args, res: if c == 2 { vec![] } else { vec![f.ret.clone()] } }, 2);
            add(t, m, f);
            "operands differ from the callee".into()
        }
        8 => {
            let c = t.below(2) as i128;
            let f = newf("zz", Some(c), Core("i32"), vec![], None);
            let res = t.pick(&[vec![], vec![Core("i64")], vec![Core("i32"), Core("i32")]]).clone();
            put_op(t, m, Op::Call { tail: false, callee: f.name.clone(), conv: Some(c), args: vec![], res }, 2);
            add(t, m, f);
            "result differs from the callee".into()
        }
        9 => {
            let c = t.below(3) as i128;
            put_op(t, m, Op::Call { tail: c == 2, callee: "zz_nowhere".into(), conv: Some(c), args: vec![], res: if c == 2 { vec![] } else { vec![Core("i32")] } }, 2);
            "unknown callee".into()
        }
        10 => {
            let c = t.below(3) as i128;
            let r = if c == 2 { never() } else { Core("i32") };
            let args: Vec<Ty> = (0..wide(t, 2)).map(|_| gty(t, 2)).collect();
            let mut s = vec![r.clone()];
            s.extend(args.iter().cloned());
            let res = if c == 2 { vec![] } else { vec![r] };
            let (sig, conv, args, res, host, why) = match t.upto(7) {
                0 => (None, Some(c), args, res, 2, "no signature"),
                1 => (Some(Ok(vec![Core("i32")])), None, vec![], vec![Core("i32")], 2, "no convention"),
                2 => (Some(Err(t.pick(&[Core("i32"), Anyref, Arr(Box::new(Core("i32")))]).clone())), Some(c), args, res, 2, "signature is not a function"),
                3 => {
                    let a = mismatch(t, &args);
                    (Some(Ok(s)), Some(c), a, res, 2, "operands differ")
                }
                4 if c != 2 => (Some(Ok(s)), Some(c), args, vec![Core("i64")], 2, "result differs"),
                5 => (Some(Ok(s)), Some(badcode), args, res, 2, "malformed convention"),
                6 if c == 2 => (Some(Ok(s)), Some(c), args, res, t.below(2) as i128, "from a returning function"),
                _ => (None, Some(c), args, res, 2, "no signature"),
            };
            put_op(t, m, Op::Ind { tail: c == 2, sig, conv, args, res }, host);
            format!("indirect transfer: {why}")
        }
        11 => {
            let args: Vec<Ty> = (0..wide(t, 2)).map(|_| gty(t, 2)).collect();
            let mut s = vec![never()];
            s.extend(args.iter().cloned());
            let res = if t.bool() { vec![never()] } else { vec![] };
            put_op(t, m, Op::Ind { tail: false, sig: Some(Ok(s)), conv: Some(2), args, res }, 2);
            "ordinary indirect call of a Cps callable".into()
        }
        12 => {
            let args: Vec<Ty> = (0..wide(t, 2)).map(|_| gty(t, 2)).collect();
            let (c, r) = t.pick(&[(0i128, Core("i32")), (1, Core("i32")), (0, never()), (1, never()), (2, Core("i32")), (2, Core("nil"))]).clone();
            let mut s = vec![r];
            s.extend(args.iter().cloned());
            put_op(t, m, Op::Ind { tail: true, sig: Some(Ok(s)), conv: Some(c), args, res: vec![] }, 2);
            "indirect tail call of a returning callable".into()
        }
        13 => {
            // closure environment provenance
            let c = t.below(3) as i128;
            let r = rets(c, t);
            let mut f = newf("zz", Some(c), r, vec![Core("i32"), Anyref, Anyref], if t.bool() { Some(vec![Op::Unreachable]) } else { None });
            let why = match t.upto(5) {
                0 => {
                    f.env_attr = Some(*t.pick(&[3i128, 4, 1 << 20]));
                    "outside the signature"
                }
                1 => {
                    f.env_attr = Some(0);
                    "not anyref"
                }
                2 => {
                    f.env_attr = Some(*t.pick(&[-1i128, 1 << 33]));
                    "malformed"
                }
                3 => {
                    f.body = Some(vec![Op::Unreachable]);
                    f.env_attr = Some(1);
                    f.envs = vec![2];
                    "differs from __env"
                }
                4 => {
                    f.body = Some(vec![Op::Unreachable]);
                    f.envs = vec![1, 2];
                    if t.bool() {
                        f.env_attr = Some(1);
                    }
                    "two __env"
                }
                _ => {
                    f.body = Some(vec![Op::Unreachable]);
                    f.env_attr = Some(1);
                    "no __env"
                }
            };
            add(t, m, f);
            format!("environment index: {why}")
        }
        14 => {
            let c = t.below(3) as i128;
            let r = rets(c, t);
            let mut f = newf("zz", Some(c), r, vec![Core("i32"), Anyref], None);
            if t.bool() {
                f.env_attr = Some(1);
            }
            let good = ref_ty(&f);
            let mut bad = good.clone();
            match t.upto(3) {
                0 => bad.push(Core("f64")),
                1 => {
                    bad.pop();
                }
                2 if bad != sigof(&f) => bad = sigof(&f),
                _ => bad[1] = Core("f64"),
            }
            put_op(t, m, Op::Const { f: "zz".into(), t: bad, conv: None }, 2);
            add(t, m, f);
            "function reference differs from its target".into()
        }
        15 => {
            let c = t.below(3) as i128;
            let r = rets(c, t);
            let f = newf("zz", Some(c), r, vec![Core("i32")], None);
            let mut h = f.clone();
            if t.bool() {
                h.conv = Some((c + 1) % 3);
                h.ret = rets((c + 1) % 3, t);
            }
            add(t, m, f);
            add(t, m, h);
            "two tagged functions with one name".into()
        }
        16 => {
            let mut f = newf("zz", Some(2), never(), vec![], None);
            f.params.push(Core("i32"));
            put_op(t, m, Op::Call { tail: true, callee: "zz".into(), conv: Some(badcode), args: f.params.clone(), res: vec![] }, 2);
            add(t, m, f);
            "malformed convention on a transfer".into()
        }
        _ => {
            // a Cps function is only visible in its own module
            let f = newf("zz", Some(2), never(), vec![], None);
            let sub = M { name: "zsub".into(), fs: vec![f], ..Default::default() };
            let at = t.upto(m.fs.len());
            m.subs.push((at, sub));
            put_op(t, m, Op::Call { tail: true, callee: "zz".into(), conv: Some(2), args: vec![], res: vec![] }, 2);
            "callee of another module".into()
        }
    }
}
fn mismatch(t: &mut Tape, ps: &[Ty]) -> Vec<Ty> {
    let mut v = ps.to_vec();
    match t.upto(2) {
        0 if !v.is_empty() => {
            v.pop();
        }
        1 if !v.is_empty() => {
            let i = t.idx(v.len());
            v[i] = if v[i] == Core("f32") { Core("i8") } else { Core("f32") };
        }
        _ => v.push(Core("i32")),
    }
    v
}
fn reject(t: &mut Tape) -> CaseResult {
    let mut g = G { n: 0, deep: 0 };
    let mut m = gm(t, &mut g, "top", 2, false);
    let why = inject(t, &mut m);
    let (mut ctx, md) = build(&m, false);
    let before = show(&ctx, md);
    let render = format!("defect: {why}\n{before}");
    note(&render);
    match lower_cps_signatures_to_physical(&mut ctx, md) {
        Ok(()) => return fail(format!("module with a defect accepted| {why}"), render),
        Err(_) => {}
    }
    let after = show(&ctx, md);
    if after != before {
        return fail(format!("rejected module was changed| {why}: {}", pretty::first_diff(&before, &after)), render);
    }
    Ok(Case { nontrivial: g.n >= 2, key: hash_str(&render), render, tags: vec![why] })
}

// ------------------------------------------------------------------ root bridge
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
#[derive(Clone, Debug)]
enum V {
    Tok(u32),
    Int(i128),
    Fn(String),
    Cell(Rc<RefCell<Vec<V>>>),
    Empty,
}
struct Sim<'a> {
    ctx: &'a IrContext,
    fs: HashMap<String, OpRef>,
    calls: Vec<Vec<V>>,
}
impl Sim<'_> {
    fn call(&mut self, f: &str, args: Vec<V>) -> Result<V, String> {
        if f == "__tribute_cps_main" {
            // the worker completes by calling its done continuation with the program's answer
            self.calls.push(args.clone());
            let Some(V::Cell(c)) = args.get(1) else { return Err(format!("worker called without a continuation: {args:?}")) };
            let (k, env) = {
                let c = c.borrow();
                if c.len() != 2 {
                    return Err("continuation is not a closure pair".into());
                }
                (c[0].clone(), c[1].clone())
            };
            let V::Fn(k) = k else { return Err("continuation has no code".into()) };
            self.call(&k, vec![env, V::Tok(77)])?;
            return Ok(V::Tok(0));
        }
        let Some(&op) = self.fs.get(f) else { return Err(format!("unknown function {f}")) };
        let Some(&r) = self.ctx.op(op).regions.first() else { return Err(format!("{f} has no body")) };
        let blk = self.ctx.region(r).blocks[0];
        let mut env: HashMap<ValueRef, V> = HashMap::new();
        if self.ctx.block_args(blk).len() != args.len() {
            return Err(format!("{f} called with {} arguments", args.len()));
        }
        for (a, v) in self.ctx.block_args(blk).iter().zip(args) {
            env.insert(*a, v);
        }
        for &o in &self.ctx.block(blk).ops {
            let d = self.ctx.op(o);
            let name = format!("{}.{}", d.dialect, d.name);
            let ops: Vec<V> = self.ctx.op_operands(o).iter().map(|v| env[v].clone()).collect();
            let field = || d.attributes.get_u32("field").ok().flatten().unwrap_or(0) as usize;
            let r = match name.as_str() {
                "arith.const" => match d.attributes.get("value") {
                    Some(Attribute::Int(i)) => V::Int(*i),
                    _ => V::Tok(0),
                },
                "adt.struct_new" => V::Cell(Rc::new(RefCell::new(ops))),
                "adt.array_new" => match ops.as_slice() {
                    [V::Int(0)] => V::Empty,
                    _ => return Err(format!("array of {ops:?}")),
                },
                "core.unrealized_conversion_cast" | "adt.ref_cast" => ops[0].clone(),
                "func.constant" => V::Fn(d.attributes.get_symbol("func_ref").unwrap().to_string()),
                "adt.struct_get" => {
                    let V::Cell(c) = &ops[0] else { return Err(format!("field of {:?}", ops[0])) };
                    let v = c.borrow().get(field()).cloned();
                    v.ok_or("no such field")?
                }
                "adt.struct_set" => {
                    let V::Cell(c) = &ops[0] else { return Err(format!("field of {:?}", ops[0])) };
                    *c.borrow_mut().get_mut(field()).ok_or("no such field")? = ops[1].clone();
                    V::Tok(0)
                }
                "func.call" => {
                    let c = d.attributes.get_symbol("callee").unwrap().to_string();
                    self.call(&c, ops)?
                }
                "func.return" => return Ok(ops.first().cloned().unwrap_or(V::Tok(0))),
                other => return Err(format!("unexpected operation {other}")),
            };
            if let Some(x) = self.ctx.op_results(o).first() {
                env.insert(*x, r);
            }
        }
        Err(format!("{f} does not return"))
    }
}
fn rename_ops(os: &mut [Op]) {
    for o in os {
        match o {
            Op::Const { f, .. } if f == "main" => *f = "__tribute_cps_main".into(),
            Op::Call { callee, .. } if callee == "main" => *callee = "__tribute_cps_main".into(),
            Op::Any { regions, .. } => regions.iter_mut().flatten().for_each(|(_, o)| rename_ops(o)),
            _ => {}
        }
    }
}
fn bridge(t: &mut Tape) -> CaseResult {
    let mut g = G { n: 0, deep: 0 };
    let root = t.chance(9, 10);
    let m = gm(t, &mut g, "top", 2, root);
    let (mut ctx, md) = build(&m, false);
    let before = show(&ctx, md);
    note(&before);
    if has_root_entry_contract(&ctx, md) != root {
        return fail("root contract misdetected|", before);
    }
    if let Err(e) = lower_cps_signatures_to_physical(&mut ctx, md) {
        return fail(format!("well-formed root module rejected| {e}"), before);
    }
    if let Err(e) = compose_root_entry_bridge(&mut ctx, md) {
        return fail(format!("well-formed root module not bridged| {e}"), before);
    }
    let mut em = m.clone();
    if root {
        for f in &mut em.fs {
            if f.name == "main" {
                f.name = "__tribute_cps_main".into();
                f.root.clear();
            }
            if let Some(o) = &mut f.body {
                rename_ops(o);
            }
        }
    }
    let (ectx, emd) = build(&em, true);
    let want: Vec<String> = emd.ops(&ectx).iter().map(|o| pretty::canon(&ectx, *o, false, true)).collect();
    let mut fs = HashMap::new();
    let mut got = vec![];
    for o in md.ops(&ctx) {
        let d = ctx.op(o);
        let n = d.attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_default();
        if format!("{}.{}", d.dialect, d.name) == "func.func" && fs.insert(n.clone(), o).is_some() && n == "main" {
            return fail("two mains after bridging|", before);
        }
        if root && (n == "main" || n == "__tribute_root_done_k") {
            continue;
        }
        got.push(pretty::canon(&ctx, o, false, true));
    }
    if got != want {
        return fail(format!("bridging changed something else| {}", pretty::first_diff(&want.join(""), &got.join(""))), before);
    }
    if !root {
        return Ok(Case { nontrivial: false, key: hash_str(&before), render: before, tags: vec!["no-root".into()] });
    }
    let rootf = m.fs.iter().find(|f| f.name == "main").unwrap();
    let Some((_, Attr2::I(export))) = rootf.root.first().cloned() else { unreachable!() };
    let Some(&w) = fs.get("main") else { return fail("no exported main|", before) };
    let nil = b::core(&mut ctx, "nil");
    let ev = tribute_ir::dialect::ability::evidence_adt_type_ref(&mut ctx);
    let sig = b::fnty(&mut ctx, nil, if export == 1 { std::slice::from_ref(&ev) } else { &[] });
    if ctx.op(w).attributes.get_type("type") != Some(sig) {
        return fail("exported main does not keep the source ABI|", before);
    }
    if tribute_core::get_calling_convention(&ctx, w).map(|c| c as i128) != Some(export) {
        return fail("exported main has another convention|", before);
    }
    let Some(&k) = fs.get("__tribute_root_done_k") else { return fail("no completion continuation|", before) };
    let any = b::ty0(&mut ctx, "tribute_rt", "anyref");
    let ksig = b::fnty(&mut ctx, nil, &[any, nil]);
    if ctx.op(k).attributes.get_type("type") != Some(ksig) || tribute_core::get_calling_convention(&ctx, k) != Some(CC::Cps) || ctx.op(k).attributes.get_u32(ENV) != Ok(Some(0)) {
        return fail("completion continuation has another ABI|", before);
    }
    if let Err(e) = irkit::wf::check(&ctx, md.op(), &irkit::wf::Opts { dominance: false, uses: true, branches: false }) {
        return fail(format!("bridged module is malformed| {e}"), before);
    }
    let mut sim = Sim { ctx: &ctx, fs, calls: vec![] };
    let evidence = V::Tok(55);
    let r = sim.call("main", if export == 1 { vec![evidence] } else { vec![] });
    match r {
        Ok(V::Tok(77)) => {}
        Ok(v) => return fail(format!("main does not return the worker's answer| {v:?}"), before),
        Err(e) => return fail(format!("exported main does not run| {e}"), before),
    }
    if sim.calls.len() != 1 {
        return fail(format!("worker called {} times|", sim.calls.len()), before);
    }
    match (&sim.calls[0][0], export) {
        (V::Tok(55), 1) | (V::Empty, 0) => {}
        (v, _) => return fail(format!("worker runs with other evidence| {v:?} for export {export}"), before),
    }
    // every entry point sees types that agree: operands of the worker call
    let mut worker_calls = 0;
    for o in sim.ctx.block(sim.ctx.region(sim.ctx.op(w).regions[0]).blocks[0]).ops.iter() {
        if sim.ctx.op(*o).attributes.get_symbol("callee").map(|s| s.to_string()).as_deref() == Some("__tribute_cps_main") {
            worker_calls += 1;
            let ps = sim.ctx.types.get(sim.ctx.op(sim.fs["__tribute_cps_main"]).attributes.get_type("type").unwrap()).params.to_vec();
            let os: Vec<TypeRef> = sim.ctx.op_operands(*o).iter().map(|v| sim.ctx.value_ty(*v)).collect();
            if ps[1..] != os[..] || sim.ctx.op_result_types(*o) != [ps[0]] || sim.ctx.op(*o).attributes.get_bool("tribute.root_cps_call") != Some(true) {
                return fail("worker call does not match the worker|", before);
            }
        }
    }
    if worker_calls != 1 {
        return fail("the wrapper must call the worker exactly once|", before);
    }
    let refs = before.matches("\"main\"").count();
    let mut tags = vec![if export == 1 { "evidence-direct".to_string() } else { "direct".into() }];
    if refs > 1 {
        tags.push("main referenced".into());
    }
    Ok(Case { nontrivial: refs > 1 || g.n > 2, key: hash_str(&before), render: before, tags })
}
fn bridge_reject(t: &mut Tape) -> CaseResult {
    let mut g = G { n: 0, deep: 0 };
    let mut m = gm(t, &mut g, "top", 2, true);
    let i = m.fs.iter().position(|f| f.name == "main").unwrap();
    let f = &mut m.fs[i];
    let done = f.params[1].clone();
    let phys_done = |conv: Option<i128>, sig: Vec<Ty>| Clo { conv, env: Some(0), f: sig };
    let why = match t.upto(13) {
        0 => {
            let mut h = f.clone();
            if t.bool() {
                h.root.clear();
            }
            h.body = Some(vec![Op::Unreachable]);
            let at = t.upto(m.fs.len());
            m.fs.insert(at, h);
            "two mains"
        }
        1 => {
            f.root.remove(t.upto(1));
            "unpaired metadata"
        }
        2 => {
            f.root[0].1 = Attr2::I(2);
            "export is Cps"
        }
        3 => {
            f.root[0].1 = t.pick(&[Attr2::I(3), Attr2::I(-1), Attr2::I(256), Attr2::I(257), Attr2::S("direct")]).clone();
            "malformed export"
        }
        4 => {
            f.conv = *t.pick(&[Some(0), Some(1), None, Some(7)]);
            f.ret = Core("nil");
            "worker is not Cps"
        }
        5 => {
            f.root[1].1 = t.pick(&[Attr2::T(Core("i32")), Attr2::T(Anyref), Attr2::I(0), Attr2::S("nil")]).clone();
            "source result is not nil"
        }
        6 => {
            f.params = vec![Evidence];
            "one parameter"
        }
        7 => {
            f.params.push(Core("i32"));
            "three parameters"
        }
        8 => {
            f.params[0] = t.pick(&[Core("i32"), Anyref, Core("ptr")]).clone();
            "no evidence"
        }
        9 => {
            f.params[1] = t.pick(&[Core("i32"), Anyref, Fun(vec![Core("nil"), Core("nil")]), phys_done(None, vec![Core("nil"), Core("nil")]), phys_done(Some(0), vec![Core("nil"), Core("nil")]), phys_done(Some(1), vec![Core("nil"), Core("nil")]), phys_done(Some(5), vec![Core("nil"), Core("nil")])]).clone();
            "continuation without provenance"
        }
        10 => {
            f.params[1] = phys_done(Some(2), t.pick(&[vec![never()], vec![never(), Core("i32")], vec![never(), Core("nil"), Core("nil")]]).clone());
            "continuation with another answer"
        }
        11 => {
            f.body = None;
            "no body"
        }
        12 => {
            let mut h = newf(*t.pick(&["__tribute_cps_main", "__tribute_root_done_k"]), *t.pick(&[None, Some(0)]), Core("i32"), vec![], None);
            if t.bool() {
                h.body = Some(vec![Op::Unreachable]);
            }
            let at = t.upto(m.fs.len());
            m.fs.insert(at, h);
            "reserved symbol"
        }
        _ => {
            f.params.swap(0, 1);
            "swapped parameters"
        }
    };
    let _ = done;
    let (mut ctx, md) = build(&m, true);
    let before = show(&ctx, md);
    let render = format!("defect: {why}\n{before}");
    note(&render);
    if compose_root_entry_bridge(&mut ctx, md).is_ok() {
        return fail(format!("root with a defect accepted| {why}"), render);
    }
    let after = show(&ctx, md);
    if after != before {
        return fail(format!("rejected root module was changed| {why}: {}", pretty::first_diff(&before, &after)), render);
    }
    Ok(Case { nontrivial: true, key: hash_str(&render), render, tags: vec![why.into()] })
}

// ------------------------------------------------------------------ metadata
fn meta(t: &mut Tape) -> CaseResult {
    use tribute_core::calling_convention as cc;
    let mut ctx = IrContext::new();
    let code: i128 = match t.upto(3) {
        0 => t.below(3) as i128,
        1 => t.range(-3, 300) as i128,
        2 => t.int_edge() as i128,
        _ => (1i128 << (t.below(100) as u32)) + t.below(3) as i128,
    };
    let valid = (0..=2).contains(&code);
    let a = match t.upto(6) {
        0 => Attribute::Bool(code & 1 == 1),
        1 => Attribute::String(code.to_string()),
        2 => Attribute::Symbol(b::sym("Cps")),
        _ => Attribute::Int(code),
    };
    let is_int = matches!(a, Attribute::Int(_));
    let env: i128 = match t.upto(3) {
        0 => t.range(-2, 6) as i128,
        1 => (1i128 << 32) - t.below(2) as i128,
        _ => t.below(4) as i128,
    };
    let np = t.upto(4);
    let is_closure = t.chance(4, 5);
    let callee_fn = t.chance(4, 5);
    let render = format!("convention {a:?} env {env} params {np} closure {is_closure} func {callee_fn}");
    note(&render);
    let op = b::mk(&mut ctx, "test.op", b::O { attrs: vec![(CONV.into(), a.clone())], ..Default::default() });
    let want = if is_int && valid { Some(code) } else { None };
    let got = tribute_core::get_calling_convention(&ctx, op).map(|c| c as i128);
    if got != want {
        return fail(format!("operation convention misread| {got:?} want {want:?}"), render);
    }
    let nil = b::core(&mut ctx, "nil");
    let ps: Vec<TypeRef> = (0..np).map(|_| nil).collect();
    let f = if callee_fn { b::fnty(&mut ctx, nil, &ps) } else { nil };
    let (d, n) = if is_closure { ("closure", "closure") } else { ("core", "box") };
    let c = ctx.types.intern(TypeDataBuilder::new(b::sym(d), b::sym(n)).param(f).attr(CONV, a.clone()).attr(ENV, Attribute::Int(env)).build());
    let got = cc::get_physical_closure_convention(&ctx, c).map(|c| c as i128);
    let want = want.filter(|_| is_closure);
    if got != want {
        return fail(format!("closure convention misread| {got:?} want {want:?}"), render);
    }
    let ge = cc::get_physical_closure_environment_index(&ctx, c);
    let we = if is_closure && (0..1i128 << 32).contains(&env) { Some(env as usize) } else { None };
    if ge != we {
        return fail(format!("closure environment misread| {ge:?} want {we:?}"), render);
    }
    let gf = cc::cps_closure_function_type(&ctx, c);
    let wf = if want == Some(2) && callee_fn && we.is_some_and(|e| e <= np) { Some(f) } else { None };
    if gf != wf {
        return fail(format!("callable of a closure misread| {gf:?} want {wf:?}"), render);
    }
    if valid {
        let k = CC::try_from(code as u8).unwrap();
        for (o, want) in [(0u8, code), (1, code.max(1)), (2, 2)] {
            let o = CC::try_from(o).unwrap();
            if k.join(o) as i128 != want || o.join(k) as i128 != want {
                return fail(format!("join of {k:?} and {o:?}|"), render);
            }
        }
        if k.needs_evidence() != (code >= 1) || k.needs_done_k() != (code == 2) || k.closure_environment_index() != usize::from(code >= 1) {
            return fail(format!("ABI of {k:?}|"), render);
        }
        let f = b::fnty(&mut ctx, nil, &ps);
        for env in [None, Some(t.upto(3))] {
            let c = match env {
                None => cc::physical_closure_type(&mut ctx, f, k),
                Some(e) => cc::physical_closure_type_with_environment_index(&mut ctx, f, k, e),
            };
            if cc::get_physical_closure_convention(&ctx, c) != Some(k) || cc::get_physical_closure_environment_index(&ctx, c) != Some(env.unwrap_or(usize::from(code >= 1))) {
                return fail("closure type does not read back|", render);
            }
        }
        let op = b::mk(&mut ctx, "test.op", b::O::default());
        if tribute_core::get_calling_convention(&ctx, op).is_some() {
            return fail("convention read from an untagged operation|", render);
        }
        tribute_core::calling_convention::set_calling_convention(&mut ctx, op, k);
        if tribute_core::get_calling_convention(&ctx, op) != Some(k) {
            return fail("operation convention does not read back|", render);
        }
    } else if let Ok(c) = u8::try_from(code)
        && CC::try_from(c).is_ok()
    {
        return fail("unknown convention code accepted|", render);
    }
    Ok(Case { nontrivial: is_closure && is_int, key: hash_str(&render), render, tags: vec![if want.is_some() { "valid" } else { "malformed" }.into()] })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C29",
        lanes: vec![
            Lane { name: "lower", rule: "random module of Direct, EvidenceDirect, Cps and untagged functions, references, direct and indirect transfers, nested regions, nested modules and nested types; non-trivial: at least three Cps results become physical", quick: 12_000, thorough: 800_000, threads: 0, run: lower },
            Lane { name: "reject", rule: "the same with one defect planted anywhere; non-trivial: at least two other generated operations", quick: 20_000, thorough: 1_500_000, threads: 0, run: reject },
            Lane { name: "bridge", rule: "module with a promoted root, bridged and simulated; non-trivial: main referenced elsewhere or at least three other operations", quick: 6_000, thorough: 400_000, threads: 0, run: bridge },
            Lane { name: "bridge-reject", rule: "promoted root with one defect", quick: 10_000, thorough: 400_000, threads: 0, run: bridge_reject },
            Lane { name: "metadata", rule: "convention, environment and closure metadata of any value; non-trivial: integer metadata on a closure type", quick: 20_000, thorough: 500_000, threads: 0, run: meta },
        ],
        assumptions: vec![],
        sweeps: vec![],
    }]
}
