//! C15: generated dialect wrappers.
#[allow(dead_code, unused_variables, unused_mut, clippy::all)]
mod gen_support;
#[allow(dead_code, unused_variables, unused_mut, clippy::all)]
mod generated;
use engine::*;
use irkit::b::{self, O};
use trunk_ir::context::IrContext;
use trunk_ir::ops::{DialectOp, DialectType};
use trunk_ir::refs::*;
use trunk_ir::types::*;
use trunk_ir::Span;

fn word(t: &mut Tape) -> String {
    let alpha = ["a", "b", "_", "::", "é", "0", "A", "", " ", "\u{10348}", "\n", "zz"];
    (0..t.upto(4)).map(|_| *t.pick(&alpha)).collect()
}

#[derive(Clone, PartialEq, Debug)]
enum MA {
    Unit,
    B(bool),
    I(i128),
    F(u64),
    S(String),
    Y(Vec<u8>),
    T(usize),
    Sym(String),
    L(Vec<MA>),
    Loc(String, usize, usize),
}
fn gen_ma(t: &mut Tape, nty: usize, depth: usize) -> MA {
    match t.idx(if depth > 0 { 10 } else { 8 }) {
        0 => MA::Unit,
        1 => MA::B(t.bool()),
        2 => MA::I(match t.idx(4) {
            0 => t.range(-2, 2) as i128,
            1 => t.int_edge() as i128,
            2 => *t.pick(&[0i128, 127, 128, 255, 256, -128, -129, i32::MAX as i128, i32::MAX as i128 + 1, i32::MIN as i128, i32::MIN as i128 - 1, u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, i64::MAX as i128 + 1, i64::MIN as i128, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MAX, i128::MIN, -1]),
            _ => t.u64() as i128,
        }),
        3 => MA::F(t.u64()),
        4 => MA::S(word(t)),
        5 => MA::Sym(word(t)),
        6 => MA::Y((0..t.upto(20)).map(|_| t.idx(256) as u8).collect()),
        7 if nty > 0 => MA::T(t.idx(nty)),
        8 => MA::L((0..t.upto(3)).map(|_| gen_ma(t, nty, depth - 1)).collect()),
        _ => MA::Loc(word(t), t.idx(50), t.idx(50)),
    }
}
fn real_ma(ctx: &mut IrContext, tys: &[TypeRef], a: &MA) -> Attribute {
    match a {
        MA::Unit => Attribute::Unit,
        MA::B(x) => Attribute::Bool(*x),
        MA::I(x) => Attribute::Int(*x),
        MA::F(x) => Attribute::FloatBits(*x),
        MA::S(x) => Attribute::String(x.clone()),
        MA::Y(x) => Attribute::Bytes(x.iter().copied().collect()),
        MA::T(x) => Attribute::Type(tys[*x]),
        MA::Sym(x) => Attribute::Symbol(b::sym(x)),
        MA::L(x) => Attribute::List(x.iter().map(|y| real_ma(ctx, tys, y)).collect()),
        MA::Loc(p, s, e) => {
            let p = ctx.paths.intern(p.clone());
            Attribute::Location(Location::new(p, Span::new(*s, *e)))
        }
    }
}

// ---------------------------------------------------------------- C15

pub mod sample {
    #[trunk_ir::dialect]
    mod vps {
        fn nothing() {}
        fn one(a: ()) -> result {}
        fn many(#[rest] xs: ()) -> result {}
        fn two_and_rest(a: (), b: (), #[rest] xs: ()) -> result {}
        fn multi(a: (), r#type: ()) -> (first, second, third) {}
        #[rest_results]
        fn var_results(#[rest] xs: ()) -> outs {}
        #[attr(b: bool, i: i32, l: i64, u: u32, w: u64)]
        fn ints() {}
        #[attr(ty: Type, s: String, y: Symbol, q: QualifiedName, by: Bytes, any: any)]
        fn texts() {}
        #[attr(f: f32, d: f64)]
        fn floats() {}
        #[attr(b?: bool, i?: i32, l?: i64, u?: u32, w?: u64, ty?: Type, s?: String, y?: Symbol, by?: Bytes, any?: any, d?: f64, f?: f32)]
        fn opts(a: ()) -> result {}
        fn regs(a: ()) -> result {
            #[region(first)]
            {}
            #[successor(s0)]
            {}
            #[region(second)]
            {}
            #[successor(s1)]
            {}
        }
        #[attr(r#type: Type, r#const: i64)]
        fn r#return(r#ref: (), #[rest] values: ()) {}
        struct Unit;
        struct Pair<First, Second>;
        struct ManyTy<#[rest] Elements>;
        struct HeadTail<Head, #[rest] Tail>;
        #[attr(nullable: bool, size: u32, label?: Symbol)]
        struct BoxLike<Inner>;
    }
}

fn wrappers(t: &mut Tape) -> CaseResult {
    use sample as s;
    let mut ctx = IrContext::new();
    let c = &mut ctx;
    let loc = b::loc(c);
    let tys: Vec<TypeRef> = (0..5).map(|i| b::ty0(c, "t", &format!("a{i}"))).collect();
    let blk = b::block(c, &tys);
    let pool: Vec<ValueRef> = c.block_args(blk).to_vec();
    let v = |t: &mut Tape| pool[t.idx(5)];
    let ty = |t: &mut Tape| tys[t.idx(5)];
    let xs: Vec<ValueRef> = (0..t.upto(4)).map(|_| v(t)).collect();
    let (a, bb) = (v(t), v(t));
    let (t0, t1, t2) = (ty(t), ty(t), ty(t));
    let outs: Vec<TypeRef> = (0..t.upto(3)).map(|_| ty(t)).collect();
    let which = t.idx(17);
    let i = t.int_edge();
    let str_ = word(t);
    let by: Vec<u8> = (0..t.upto(30)).map(|_| t.idx(256) as u8).collect();
    let ma = gen_ma(t, 5, 2);
    let some: Vec<bool> = (0..12).map(|_| t.bool()).collect();
    let fl = *t.pick(&[0.0f64, -0.0, 1.5, -2.25, 1e300, f64::MIN_POSITIVE, f64::INFINITY, f64::NAN]);
    let fs = *t.pick(&[0.0f32, -0.0, 1.5, 0.1, f32::MAX, f32::MIN_POSITIVE, f32::NEG_INFINITY]);
    let text = format!("shape {which}: xs={} a={a:?} b={bb:?} outs={} i={i} s={str_:?} by={by:?} any={ma:?} some={some:?} {fl} {fs}", xs.len(), outs.len());
    note(&text);
    let any = real_ma(c, &tys, &ma);
    macro_rules! ck {
        ($e:expr) => {
            if !$e {
                return fail(format!("generated wrapper: {} does not hold|", stringify!($e)), text);
            }
        };
    }
    // what every operation must satisfy
    let shape = |ctx: &IrContext, op: OpRef, name: &str, operands: &[ValueRef], results: &[TypeRef], nattr: usize, regions: &[RegionRef], succs: &[BlockRef]| -> Result<(), String> {
        let d = ctx.op(op);
        if d.dialect.to_string() != "vps" || d.name.to_string() != name {
            return Err(format!("named {}.{}", d.dialect, d.name));
        }
        if ctx.op_operands(op) != operands {
            return Err("operands".into());
        }
        if ctx.op_result_types(op) != results {
            return Err("result types".into());
        }
        if d.attributes.len() != nattr {
            return Err(format!("{} attributes", d.attributes.len()));
        }
        if d.regions.to_vec() != regions || d.successors.to_vec() != succs {
            return Err("regions or successors".into());
        }
        Ok(())
    };
    macro_rules! sh {
        ($($e:expr),*) => { if let Err(e) = shape($($e),*) { return fail(format!("generated constructor built the wrong operation| {e}"), text); } };
    }
    let op: Option<OpRef> = match which {
        0 => {
            let o = s::nothing(c, loc);
            sh!(c, o.op_ref(), "nothing", &[], &[], 0, &[], &[]);
            ck!(s::Nothing::from_op(c, o.op_ref()).ok() == Some(o));
            Some(o.op_ref())
        }
        1 => {
            let o = s::one(c, loc, a, t0);
            sh!(c, o.op_ref(), "one", &[a], &[t0], 0, &[], &[]);
            ck!(o.a(c) == a && o.result(c) == c.op_result(o.op_ref(), 0) && o.result_ty(c) == t0);
            ck!(s::One::from_op(c, o.op_ref()).ok() == Some(o));
            Some(o.op_ref())
        }
        2 => {
            let o = s::many(c, loc, xs.clone(), t0);
            sh!(c, o.op_ref(), "many", &xs, &[t0], 0, &[], &[]);
            ck!(o.xs(c) == xs && o.result_ty(c) == t0);
            Some(o.op_ref())
        }
        3 => {
            let o = s::two_and_rest(c, loc, a, bb, xs.clone(), t0);
            let mut all = vec![a, bb];
            all.extend(&xs);
            sh!(c, o.op_ref(), "two_and_rest", &all, &[t0], 0, &[], &[]);
            ck!(o.a(c) == a && o.b(c) == bb && o.xs(c) == xs);
            Some(o.op_ref())
        }
        4 => {
            let o = s::multi(c, loc, a, bb, t0, t1, t2);
            sh!(c, o.op_ref(), "multi", &[a, bb], &[t0, t1, t2], 0, &[], &[]);
            ck!(o.a(c) == a && o.r#type(c) == bb);
            ck!(o.first(c) == c.op_result(o.op_ref(), 0) && o.second(c) == c.op_result(o.op_ref(), 1) && o.third(c) == c.op_result(o.op_ref(), 2));
            ck!((o.first_ty(c), o.second_ty(c), o.third_ty(c)) == (t0, t1, t2));
            Some(o.op_ref())
        }
        5 => {
            let o = s::var_results(c, loc, xs.clone(), outs.clone());
            sh!(c, o.op_ref(), "var_results", &xs, &outs, 0, &[], &[]);
            ck!(o.outs(c) == c.op_results(o.op_ref()) && o.xs(c) == xs);
            Some(o.op_ref())
        }
        6 => {
            let o = s::ints(c, loc, some[0], i as i32, i, i as u32, i as u64);
            sh!(c, o.op_ref(), "ints", &[], &[], 5, &[], &[]);
            ck!(o.b(c) == some[0] && o.i(c) == i as i32 && o.l(c) == i && o.u(c) == i as u32 && o.w(c) == i as u64);
            ck!(c.op(o.op_ref()).attributes.get("w") == Some(&Attribute::Int(i as u64 as i128)));
            ck!(c.op(o.op_ref()).attributes.get("i") == Some(&Attribute::Int(i as i32 as i128)));
            Some(o.op_ref())
        }
        7 => {
            let o = s::texts(c, loc, t0, str_.clone(), b::sym(&str_), b::sym("q::r"), by.iter().copied().collect(), any.clone());
            sh!(c, o.op_ref(), "texts", &[], &[], 6, &[], &[]);
            ck!(o.ty(c) == t0 && o.s(c) == str_ && o.y(c) == b::sym(&str_) && o.q(c) == b::sym("q::r") && o.by(c).to_vec() == by && o.any(c) == any);
            Some(o.op_ref())
        }
        8 => {
            let o = s::floats(c, loc, fs, fl);
            sh!(c, o.op_ref(), "floats", &[], &[], 2, &[], &[]);
            ck!(o.f(c).to_bits() == fs.to_bits() && o.d(c).to_bits() == fl.to_bits());
            Some(o.op_ref())
        }
        9 => {
            macro_rules! om {
                ($i:expr, $e:expr) => {
                    if some[$i] { Some($e) } else { None }
                };
            }
            let (b_, i_, l_, u_, w_) = (om!(0, some[11]), om!(1, i as i32), om!(2, i), om!(3, i as u32), om!(4, i as u64));
            let (ty_, s_, y_, by_, any_, d_, f_) = (om!(5, t0), om!(6, str_.clone()), om!(7, b::sym(&str_)), om!(8, by.iter().copied().collect::<trunk_ir::smallvec::SmallVec<[u8; 16]>>()), om!(9, any.clone()), om!(10, fl), om!(11, fs));
            let o = s::opts(c, loc, a, t1, b_, i_, l_, u_, w_, ty_, s_.clone(), y_, by_.clone(), any_.clone(), d_, f_);
            sh!(c, o.op_ref(), "opts", &[a], &[t1], some.iter().filter(|x| **x).count(), &[], &[]);
            ck!(o.b(c) == b_ && o.i(c) == i_ && o.l(c) == l_ && o.u(c) == u_ && o.w(c) == w_ && o.ty(c) == ty_ && o.s(c) == s_ && o.y(c) == y_ && o.by(c) == by_ && o.any(c) == any_);
            ck!(o.d(c).map(f64::to_bits) == d_.map(f64::to_bits) && o.f(c).map(f32::to_bits) == f_.map(f32::to_bits));
            Some(o.op_ref())
        }
        10 => {
            let (r0, r1) = (b::region(c, &[]), b::region(c, &[]));
            let (b0, b1) = (b::block(c, &[]), b::block(c, &[]));
            let o = s::regs(c, loc, a, t0, r0, b0, r1, b1);
            sh!(c, o.op_ref(), "regs", &[a], &[t0], 0, &[r0, r1], &[b0, b1]);
            ck!(o.first(c) == r0 && o.second(c) == r1 && o.s0(c) == b0 && o.s1(c) == b1);
            ck!(c.region(r0).parent_op == Some(o.op_ref()) && c.region(r1).parent_op == Some(o.op_ref()));
            Some(o.op_ref())
        }
        11 => {
            let o = s::r#return(c, loc, a, xs.clone(), t0, i);
            let mut all = vec![a];
            all.extend(&xs);
            sh!(c, o.op_ref(), "return", &all, &[], 2, &[], &[]);
            ck!(o.r#ref(c) == a && o.values(c) == xs && o.r#type(c) == t0 && o.r#const(c) == i);
            ck!(c.op(o.op_ref()).attributes.get("type") == Some(&Attribute::Type(t0)) && c.op(o.op_ref()).attributes.get("const") == Some(&Attribute::Int(i as i128)));
            Some(o.op_ref())
        }
        12 => {
            let x = s::unit(c).as_type_ref();
            ck!(c.types.is_dialect(x, b::sym("vps"), b::sym("unit")) && c.types.get(x).params.is_empty() && c.types.get(x).attrs.is_empty());
            ck!(s::Unit::from_type_ref(c, x).is_some() && s::Unit::from_type_ref(c, t0).is_none() && s::Pair::from_type_ref(c, x).is_none());
            None
        }
        13 => {
            let x = s::pair(c, t0, t1);
            ck!(x.first(c) == t0 && x.second(c) == t1 && c.types.get(x.as_type_ref()).params.to_vec() == [t0, t1]);
            ck!(s::Pair::from_type_ref(c, x.into()) == Some(x));
            ck!((s::pair(c, t1, t0) == x) == (t0 == t1));
            None
        }
        14 => {
            let x = s::many_ty(c, outs.clone());
            ck!(x.elements(c) == outs);
            None
        }
        15 => {
            let x = s::head_tail(c, t0, outs.clone());
            ck!(x.head(c) == t0 && x.tail(c) == outs && c.types.is_dialect(x.as_type_ref(), b::sym("vps"), b::sym("head_tail")));
            None
        }
        _ => {
            let l = if some[1] { Some(b::sym(&str_)) } else { None };
            let x = s::box_like(c, t0, some[0], i as u32, l);
            ck!(x.inner(c) == t0 && x.nullable(c) == some[0] && x.size(c) == i as u32 && x.label(c) == l);
            ck!(c.types.get(x.as_type_ref()).attrs.len() == 2 + some[1] as usize);
            None
        }
    };
    if let Some(op) = op {
        ck!(c.op(op).location == loc && c.op(op).parent_block.is_none());
        // wrappers of other operations refuse it
        let n = c.op(op).name.to_string();
        ck!(s::One::from_op(c, op).is_ok() == (n == "one") && s::One::matches(c, op) == (n == "one"));
        ck!(s::Return::from_op(c, op).is_ok() == (n == "return"));
        ck!(s::TwoAndRest::from_op(c, op).is_ok() == (n == "two_and_rest"));
        let other = b::mk(c, &format!("other.{n}"), O::default());
        ck!(s::One::from_op(c, other).is_err() && s::Nothing::from_op(c, other).is_err() && s::Return::from_op(c, other).is_err());
    }
    Ok(Case { key: hash_str(&text), nontrivial: true, render: text, tags: vec![format!("shape{which}")] })
}

fn generated_case(t: &mut Tape) -> CaseResult {
    let k = t.idx(generated::DRIVERS.len());
    let (def, f) = generated::DRIVERS[k];
    note(def);
    let mut e = gen_support::Env::new();
    match f(t, &mut e) {
        Err(m) => fail(format!("generated wrapper: {m}|"), def.to_string()),
        Ok(o) => {
            if let Some(o) = o {
                let n = generated::accepted(&e.c, o);
                if n != 1 {
                    return fail(format!("{n} wrappers accept the operation|"), def.to_string());
                }
                let name = e.c.op(o).name.to_string();
                let other = b::mk(&mut e.c, &format!("vpx.{name}"), O::default());
                if generated::accepted(&e.c, other) != 0 {
                    return fail("a wrapper accepts an operation of another dialect|", def.to_string());
                }
            }
            Ok(Case { key: t.hash(), nontrivial: true, render: def.to_string(), tags: vec![] })
        }
    }
}

fn main() {
    engine::main(vec![
        Property { id: "C15", lanes: vec![Lane { name: "wrappers", rule: "a dialect defined with the macro (every operand, result, attribute, region, successor and type-parameter shape) driven with random values; every case counts", quick: 60_000, thorough: 1_000_000, threads: 0, run: wrappers }, Lane { name: "random-dialect", rule: "one of the operations and types of a randomly generated dialect (up to seven operands, seven results, nine attributes, six regions and successors, five type parameters) driven with random values; every case counts", quick: 60_000, thorough: 1_000_000, threads: 0, run: generated_case }], assumptions: vec![], sweeps: vec![] },
    ]);
}
