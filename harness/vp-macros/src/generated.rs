// Generated by tools/gen_dialect.py; do not edit.
use super::gen_support::*;
use engine::Tape;
use irkit::b;
use trunk_ir::ops::{DialectOp, DialectType};
use trunk_ir::refs::*;
use trunk_ir::types::*;
mod inner {
    #[trunk_ir::dialect]
    mod vpg {
        #[attr(a0name: u64, key_1: f32, k2?: u64, r#if: i32, k4?: any, key_5?: Bytes, key_6: Type, key_7: Type, k8?: QualifiedName)] fn xx_op_34(in_0: (), x1: (), in_2: ()) -> result { #[successor(s0)] {} #[region(g1)] {} #[successor(s2)] {} #[region(g3)] {} #[successor(s4)] {} #[region(g5)] {} }
         struct TwoWords<P0, KeyType>;
        #[attr(a0name?: String, k1?: i32)] fn do_it_now_20(r#if: (), #[rest] tail: ()) {  }
        #[rest_results] fn do_it_now_50(in_0: (), in_1: (), in_2: (), x3: ()) -> outs {  }
        #[attr(a0name?: String, a1name?: i64, a2name: QualifiedName)] struct CellV25x<#[rest] Tail>;
        #[attr(k0: u32)] struct RefV10x<In, Q1>;
        fn xx_op_46(in_0: (), x1: (), x2: (), x3: (), lhs4: (), in_5: ()) {  }
        fn wide_op_19(lhs0: (), lhs1: (), in_2: (), r#loop: (), in_4: (), r#fn: ()) -> (r0, r1, r2, r3, r4) {  }
         struct BoxV5x<P0, P1>;
         struct CellV18x<KeyType, First, Q2, P3, P4, #[rest] Tail>;
        #[attr(key_0: QualifiedName, a1name: u32, a2name?: f64, a3name: f64, key_4: QualifiedName, key_5: bool)] struct Box<In, P1, Q2, #[rest] Tail>;
         struct LongTypeName<KeyType, In, P2, P3, First>;
        #[attr(a0name: i64, k1?: any, a2name?: Bytes, key_3: u32)] fn r#match(lhs0: (), in_1: (), x2: (), x3: (), x4: (), in_5: (), #[rest] tail: ()) -> out_value { #[region(g0)] {} #[region(g1)] {} #[successor(s2)] {} #[region(g3)] {} #[successor(s4)] {} #[region(g5)] {} }
         struct TwoWordsV13x<In, Q1, Q2>;
        #[attr(a0name: u64, a1name: Symbol)] fn do_it_now_16(r#match: (), x1: (), r#ref: (), r#loop: ()) -> (r0, r1, r2) { #[successor(s0)] {} }
         struct TwoWordsV12x<KeyType>;
        #[attr(key_0?: Type)] struct RefV20x<In, KeyType, P2, P3, P4>;
        #[attr(a0name: i64, a1name: f64)] #[rest_results] fn xx_op_14(x0: (), x1: ()) -> outs {  }
        #[rest_results] fn xx_op_57(r#in: (), x1: (), in_2: (), lhs3: (), x4: (), lhs5: ()) -> outs {  }
        #[rest_results] #[attr(key_0: u64, k1?: Bytes, k2: f32, k3?: QualifiedName)] fn let_18(r#if: ()) -> outs { #[successor(s0)] {} #[successor(s1)] {} #[region(g2)] {} }
        #[attr(k0?: Type, key_1: u64, r#in: Bytes, a3name?: bool)] fn copy_8(r#fn: (), x1: (), lhs2: (), lhs3: (), #[rest] tail: ()) -> (r0, r1, r2, r3, r4) {  }
         struct RefV4x<Q0>;
        #[attr(key_0: f64)] fn yield_15() {  }
        fn wide_op_56() -> res { #[region(g0)] {} #[region(g1)] {} #[region(g2)] {} }
        fn load_2_32(in_0: (), in_1: (), in_2: (), #[rest] tail: ()) { #[region(g0)] {} }
        fn wide_op_45(#[rest] tail: ()) -> res { #[region(g0)] {} #[successor(s1)] {} #[successor(s2)] {} #[region(g3)] {} #[successor(s4)] {} #[region(g5)] {} }
        #[attr(r#use: f32, k1: u32)] fn wide_op_59(in_0: (), in_1: (), in_2: (), r#fn: (), lhs4: (), in_5: (), #[rest] tail: ()) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }
        fn wide_op_3(lhs0: (), in_1: (), in_2: (), x3: (), #[rest] tail: ()) -> out_value {  }
        #[attr(key_0: u32)] fn let_29(in_0: (), lhs1: (), x2: (), lhs3: (), #[rest] tail: ()) {  }
        #[attr(key_0?: Bytes)] #[rest_results] fn match_21(r#ref: (), x1: (), lhs2: (), x3: (), #[rest] tail: ()) -> outs { #[region(g0)] {} #[region(g1)] {} }
        #[attr(r#type?: u64, a1name: f64, a2name?: Type, r#where: any, k4?: f32, key_5: Bytes, key_6: any, k7?: Type, a8name?: u32)] #[rest_results] fn yield_62() -> outs {  }
        fn match_60() -> (r0, r1) {  }
         struct LongTypeNameV24x<Q0, Q1, First, P3, KeyType>;
        #[rest_results] #[attr(k0?: i32, a1name: i32, key_2?: any, k3: Bytes, k4: Symbol, k5?: Symbol, key_6?: String, key_7?: u64, k8?: bool)] fn wide_op_48() -> outs {  }
         struct CellV11x<First, Q1, #[rest] Tail>;
        #[attr(r#match: u32)] #[rest_results] fn let_13(in_0: (), x1: (), x2: (), in_3: ()) -> outs { #[successor(s0)] {} #[region(g1)] {} #[region(g2)] {} }
        #[attr(a0name: i32, a1name: u32, r#fn?: u32, k3: QualifiedName)] fn load_2_41(#[rest] tail: ()) -> res {  }
         struct RefV23x;
        fn xx_op_63(in_0: (), in_1: (), in_2: (), in_3: (), lhs4: (), x5: (), #[rest] tail: ()) { #[region(g0)] {} }
        #[attr(a0name?: u64)] fn copy_35(r#where: (), in_1: (), #[rest] tail: ()) -> (r0, r1) {  }
        fn load_2_54(lhs0: (), lhs1: (), lhs2: ()) { #[region(g0)] {} }
        #[attr(a0name: u32, r#match?: QualifiedName, key_2: bool, r#if: any, a4name: i32, a5name: Type, k6?: i64, a7name?: Bytes, key_8?: any)] fn match_30(in_0: (), x1: (), lhs2: ()) -> (r0, r1, r2) {  }
        #[attr(a0name?: i64, k1: any, a2name?: any, k3: f64, k4?: Type, k5: any, key_6?: Symbol, key_7: Bytes, key_8?: i32)] fn yield_9(lhs0: ()) -> (r0, r1) {  }
        #[attr(k0: any, a1name?: String)] fn copy_42(lhs0: (), x1: ()) {  }
        fn copy_37(x0: (), in_1: (), in_2: (), lhs3: (), r#match: (), x5: (), #[rest] tail: ()) -> res { #[region(g0)] {} #[successor(s1)] {} #[successor(s2)] {} }
        #[attr(k0?: f64, k1?: f64, a2name?: u64, r#ref: String, key_4: i64, r#in: QualifiedName)] struct BoxV6x<First, #[rest] Tail>;
        fn do_it_now_24(lhs0: (), x1: (), x2: ()) -> (r0, r1, r2, r3, r4, r5, r6) { #[successor(s0)] {} #[successor(s1)] {} #[successor(s2)] {} #[region(g3)] {} #[region(g4)] {} #[region(g5)] {} }
        #[attr(r#fn: f64, k1: f64)] fn xx_op_43(in_0: (), in_1: (), in_2: ()) -> (r0, r1, r2, r3, r4, r5, r6) {  }
        #[attr(a0name?: i32)] fn r#yield(r#use: (), #[rest] tail: ()) { #[successor(s0)] {} }
        #[attr(k0?: String, a1name: u32, k2: Type)] struct Ref<In, KeyType, First>;
        #[attr(key_0: QualifiedName, k1: i32)] fn do_it_now_28(x0: (), in_1: (), in_2: (), #[rest] tail: ()) -> (r0, r1, r2, r3, r4) {  }
        #[attr(k0: u32, key_1?: i64, r#move: f64, k3: f64, key_4?: any, key_5?: u32, a6name?: f32, r#if: Symbol, k8: bool)] fn wide_op_25(in_0: ()) -> out_value {  }
        #[rest_results] #[attr(key_0: i64, r#use?: any, k2: f32, k3?: u64)] fn match_44() -> outs {  }
        #[attr(a0name?: i64, k1: u32, k2: any, r#use: QualifiedName)] fn let_61() -> res {  }
        fn wide_op_26() -> (r0, r1, r2) {  }
        #[attr(r#loop?: QualifiedName, a1name?: bool, r#match: bool, r#type: u64, r#fn: f64, a5name?: f32, key_6?: bool, k7: Type, k8: any)] fn copy_51(lhs0: (), lhs1: ()) -> (r0, r1) {  }
        #[rest_results] fn match_49(in_0: ()) -> outs { #[successor(s0)] {} #[region(g1)] {} #[region(g2)] {} #[successor(s3)] {} #[successor(s4)] {} #[region(g5)] {} }
        #[attr(k0?: u32, k1?: bool)] fn copy(lhs0: (), in_1: (), in_2: ()) {  }
        #[attr(a0name: i64, k1?: bool, k2?: any, r#where: u32)] #[rest_results] fn match_52(r#use: (), lhs1: ()) -> outs {  }
        #[attr(k0?: any, k1: QualifiedName, k2?: Symbol)] struct Cell<#[rest] Tail>;
        #[attr(key_0?: Type)] struct BoxV8x<KeyType>;
        #[rest_results] fn copy_36(lhs0: (), x1: (), r#match: (), r#move: (), in_4: (), in_5: ()) -> outs { #[region(g0)] {} }
        #[attr(a0name: any, r#in?: Symbol, key_2?: Symbol, r#use?: Type, key_4: u32, k5: bool, a6name: bool, r#move: QualifiedName, key_8?: f64)] fn copy_31(lhs0: (), #[rest] tail: ()) -> (r0, r1, r2) {  }
        #[attr(r#if: Symbol)] fn xx_op(r#where: ()) -> res { #[successor(s0)] {} #[region(g1)] {} }
        fn do_it_now_55(lhs0: (), #[rest] tail: ()) -> result {  }
        #[attr(r#in: String, k1?: Symbol)] fn load_2() -> res { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }
        #[attr(r#ref?: bool)] fn wide_op_40() -> res {  }
        #[attr(k0: String)] struct BoxV15x<First, Q1, P2>;
         struct BoxV14x<KeyType, In, P2, P3, Q4>;
        #[attr(r#fn?: any)] struct CellV19x<In>;
        #[rest_results] fn xx_op_38(in_0: (), x1: (), r#move: ()) -> outs {  }
        #[attr(k0: Type, a1name?: Symbol, r#if?: bool, k3: Bytes)] fn do_it_now_33(in_0: (), #[rest] tail: ()) {  }
        #[attr(key_0: QualifiedName, r#move?: u32, key_2: f64)] struct TwoWordsV7x<In, P1, KeyType>;
        #[attr(key_0: u32, k1?: i64, a2name?: i32, k3: u32)] fn xx_op_39(x0: (), lhs1: (), in_2: ()) -> (r0, r1, r2, r3, r4) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }
        #[attr(r#ref?: u32, r#in: f32, key_2: u64, k3: u32, k4?: i64, key_5: String, key_6: QualifiedName, key_7: u64, r#type: String)] fn wide_op_17(in_0: (), in_1: (), #[rest] tail: ()) {  }
        #[attr(k0?: Type, a1name: QualifiedName, a2name?: f64, key_3: i64, r#where: Type, a5name: Type, key_6: i32, r#if?: any, a8name: bool)] fn load_2_47() { #[region(g0)] {} #[region(g1)] {} #[successor(s2)] {} }
        fn wide_op(lhs0: (), #[rest] tail: ()) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }
         struct Tt<KeyType, #[rest] Tail>;
        #[attr(key_0: Bytes, k1: Type, k2?: QualifiedName, r#fn: Bytes, key_4: u64, a5name: any, key_6?: u32, r#use?: u64, a8name?: i64)] #[rest_results] fn load_2_53(lhs0: (), lhs1: (), in_2: (), r#type: ()) -> outs { #[successor(s0)] {} #[region(g1)] {} #[successor(s2)] {} }
        #[attr(r#in: Symbol, key_1?: f32)] fn do_it_now(in_0: (), x1: (), r#if: (), in_3: ()) -> res { #[successor(s0)] {} #[successor(s1)] {} }
        #[attr(a0name: u64, key_1?: any, a2name: Type, key_3?: QualifiedName, k4: QualifiedName, a5name?: u64, a6name?: Symbol, k7?: u64, k8: QualifiedName)] fn xx_op_23(r#move: (), lhs1: (), r#use: (), in_3: (), in_4: (), lhs5: (), #[rest] tail: ()) { #[successor(s0)] {} }
        #[attr(a0name: String, r#loop: bool, k2: any, k3?: Symbol, a4name?: QualifiedName, a5name: any, r#use?: u32, k7: String, r#in: Symbol)] #[rest_results] fn yield_12(x0: (), in_1: ()) -> outs { #[region(g0)] {} #[successor(s1)] {} }
        fn xx_op_22(x0: (), lhs1: (), lhs2: (), lhs3: ()) -> result {  }
        #[attr(a0name: bool, key_1: Symbol, key_2: f32)] struct CellV16x<In, P1, P2>;
        fn load_2_58(r#in: (), #[rest] tail: ()) -> (r0, r1, r2, r3, r4, r5, r6) {  }
         struct LongTypeNameV17x<First, In, KeyType>;
        #[attr(a0name: i32)] struct LongTypeNameV21x<KeyType, Q1>;
        #[rest_results] #[attr(k0: u64, a1name: u64, a2name?: Type, a3name?: bool, key_4?: u32, key_5?: Type, key_6: f64, key_7: f32, key_8: i64)] fn wide_op_5() -> outs {  }
        fn match_27(in_0: (), lhs1: (), lhs2: (), lhs3: (), #[rest] tail: ()) { #[successor(s0)] {} #[successor(s1)] {} #[region(g2)] {} }
        #[attr(key_0: i32, k1: any)] fn r#let(lhs0: (), #[rest] tail: ()) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }
    }
}
use inner as vpg;
fn op_0(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let at0 = opt(t, e, v_i32);
    let g0 = b::block(&mut e.c, &[]);
    let w = vpg::r#yield(&mut e.c, e.loc, o0, tail.clone(), at0.clone(), g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("a0name", Attribute::Int(x as i128))); }
    ck("a0name", w.a0name(c) == at0)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![g0];
    shape(c, op, "yield", &all, &rt, &want, &rg, &sc)?;
    ck("use", w.r#use(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("s0", w.s0(c) == g0)?;
    ck("from_op", vpg::Yield::from_op(c, op).ok() == Some(w) && vpg::Yield::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Yield as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Yield as DialectOp>::OP_NAME == "yield")?;
    Ok(Some(op)) }
fn op_1(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::wide_op(&mut e.c, e.loc, o0, tail.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0, g2];
    let sc: Vec<BlockRef> = vec![g1];
    shape(c, op, "wide_op", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::WideOp::from_op(c, op).ok() == Some(w) && vpg::WideOp::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp as DialectOp>::OP_NAME == "wide_op")?;
    Ok(Some(op)) }
fn op_2(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let at0 = v_string(t, e);
    let at1 = opt(t, e, v_symbol);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::load_2(&mut e.c, e.loc, t0, at0.clone(), at1.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("in", Attribute::String(at0.clone())));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::Symbol(x))); }
    ck("in", w.r#in(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    let rg: Vec<RegionRef> = vec![g0, g2];
    let sc: Vec<BlockRef> = vec![g1];
    shape(c, op, "load_2", &all, &rt, &want, &rg, &sc)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::Load2::from_op(c, op).ok() == Some(w) && vpg::Load2::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load2 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load2 as DialectOp>::OP_NAME == "load_2")?;
    Ok(Some(op)) }
fn op_3(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let w = vpg::wide_op_3(&mut e.c, e.loc, o0, o1, o2, o3, tail.clone(), t0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_3", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("x3", w.x3(c) == o3)?;
    ck("tail", w.tail(c) == tail)?;
    ck("out_value", w.out_value(c) == c.op_result(op, 0) && w.out_value_ty(c) == t0)?;
    ck("from_op", vpg::WideOp3::from_op(c, op).ok() == Some(w) && vpg::WideOp3::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp3 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp3 as DialectOp>::OP_NAME == "wide_op_3")?;
    Ok(Some(op)) }
fn op_4(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let t0 = e.ty(t);
    let at0 = v_symbol(t, e);
    let at1 = opt(t, e, v_f32);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let w = vpg::do_it_now(&mut e.c, e.loc, o0, o1, o2, o3, t0, at0.clone(), at1.clone(), g0, g1);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("in", Attribute::Symbol(at0)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("key_1", Attribute::FloatBits((x as f64).to_bits()))); }
    ck("in", w.r#in(c) == at0)?;
    ck("key_1", w.key_1(c).map(|x| x.to_bits()) == at1.map(|x| x.to_bits()))?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![g0, g1];
    shape(c, op, "do_it_now", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("if", w.r#if(c) == o2)?;
    ck("in_3", w.in_3(c) == o3)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("s0", w.s0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("from_op", vpg::DoItNow::from_op(c, op).ok() == Some(w) && vpg::DoItNow::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow as DialectOp>::OP_NAME == "do_it_now")?;
    Ok(Some(op)) }
fn op_5(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let outs = e.tys(t);
    let at0 = v_u64(t, e);
    let at1 = v_u64(t, e);
    let at2 = opt(t, e, v_type);
    let at3 = opt(t, e, v_bool);
    let at4 = opt(t, e, v_u32);
    let at5 = opt(t, e, v_type);
    let at6 = v_f64(t, e);
    let at7 = v_f32(t, e);
    let at8 = v_i64(t, e);
    let w = vpg::wide_op_5(&mut e.c, e.loc, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("k0", Attribute::Int(at0 as i128)));
    want.push(("a1name", Attribute::Int(at1 as i128)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::Type(x))); }
    if let Some(x) = &at3 { let x = x.clone(); want.push(("a3name", Attribute::Bool(x))); }
    if let Some(x) = &at4 { let x = x.clone(); want.push(("key_4", Attribute::Int(x as i128))); }
    if let Some(x) = &at5 { let x = x.clone(); want.push(("key_5", Attribute::Type(x))); }
    want.push(("key_6", Attribute::FloatBits(at6.to_bits())));
    want.push(("key_7", Attribute::FloatBits((at7 as f64).to_bits())));
    want.push(("key_8", Attribute::Int(at8 as i128)));
    ck("k0", w.k0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("a3name", w.a3name(c) == at3)?;
    ck("key_4", w.key_4(c) == at4)?;
    ck("key_5", w.key_5(c) == at5)?;
    ck("key_6", w.key_6(c).to_bits() == at6.to_bits())?;
    ck("key_7", w.key_7(c).to_bits() == at7.to_bits())?;
    ck("key_8", w.key_8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_5", &all, &rt, &want, &rg, &sc)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::WideOp5::from_op(c, op).ok() == Some(w) && vpg::WideOp5::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp5 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp5 as DialectOp>::OP_NAME == "wide_op_5")?;
    Ok(Some(op)) }
fn op_6(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let t0 = e.ty(t);
    let at0 = v_symbol(t, e);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let w = vpg::xx_op(&mut e.c, e.loc, o0, t0, at0.clone(), g0, g1);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("if", Attribute::Symbol(at0)));
    ck("if", w.r#if(c) == at0)?;
    let rg: Vec<RegionRef> = vec![g1];
    let sc: Vec<BlockRef> = vec![g0];
    shape(c, op, "xx_op", &all, &rt, &want, &rg, &sc)?;
    ck("where", w.r#where(c) == o0)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("s0", w.s0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("from_op", vpg::XxOp::from_op(c, op).ok() == Some(w) && vpg::XxOp::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp as DialectOp>::OP_NAME == "xx_op")?;
    Ok(Some(op)) }
fn op_7(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let at0 = opt(t, e, v_u32);
    let at1 = opt(t, e, v_bool);
    let w = vpg::copy(&mut e.c, e.loc, o0, o1, o2, at0.clone(), at1.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", Attribute::Int(x as i128))); }
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::Bool(x))); }
    ck("k0", w.k0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("from_op", vpg::Copy::from_op(c, op).ok() == Some(w) && vpg::Copy::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy as DialectOp>::OP_NAME == "copy")?;
    Ok(Some(op)) }
fn op_8(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let at0 = opt(t, e, v_type);
    let at1 = v_u64(t, e);
    let at2 = v_bytes(t, e);
    let at3 = opt(t, e, v_bool);
    let w = vpg::copy_8(&mut e.c, e.loc, o0, o1, o2, o3, tail.clone(), t0, t1, t2, t3, t4, at0.clone(), at1.clone(), at2.clone(), at3.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", Attribute::Type(x))); }
    want.push(("key_1", Attribute::Int(at1 as i128)));
    want.push(("in", Attribute::Bytes(at2.clone())));
    if let Some(x) = &at3 { let x = x.clone(); want.push(("a3name", Attribute::Bool(x))); }
    ck("k0", w.k0(c) == at0)?;
    ck("key_1", w.key_1(c) == at1)?;
    ck("in", w.r#in(c) == at2)?;
    ck("a3name", w.a3name(c) == at3)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy_8", &all, &rt, &want, &rg, &sc)?;
    ck("fn", w.r#fn(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("lhs2", w.lhs2(c) == o2)?;
    ck("lhs3", w.lhs3(c) == o3)?;
    ck("tail", w.tail(c) == tail)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("from_op", vpg::Copy8::from_op(c, op).ok() == Some(w) && vpg::Copy8::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy8 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy8 as DialectOp>::OP_NAME == "copy_8")?;
    Ok(Some(op)) }
fn op_9(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let at0 = opt(t, e, v_i64);
    let at1 = v_any(t, e);
    let at2 = opt(t, e, v_any);
    let at3 = v_f64(t, e);
    let at4 = opt(t, e, v_type);
    let at5 = v_any(t, e);
    let at6 = opt(t, e, v_symbol);
    let at7 = v_bytes(t, e);
    let at8 = opt(t, e, v_i32);
    let w = vpg::yield_9(&mut e.c, e.loc, o0, t0, t1, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    let rt: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("a0name", Attribute::Int(x as i128))); }
    want.push(("k1", at1.clone()));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", x.clone())); }
    want.push(("k3", Attribute::FloatBits(at3.to_bits())));
    if let Some(x) = &at4 { let x = x.clone(); want.push(("k4", Attribute::Type(x))); }
    want.push(("k5", at5.clone()));
    if let Some(x) = &at6 { let x = x.clone(); want.push(("key_6", Attribute::Symbol(x))); }
    want.push(("key_7", Attribute::Bytes(at7.clone())));
    if let Some(x) = &at8 { let x = x.clone(); want.push(("key_8", Attribute::Int(x as i128))); }
    ck("a0name", w.a0name(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("k3", w.k3(c).to_bits() == at3.to_bits())?;
    ck("k4", w.k4(c) == at4)?;
    ck("k5", w.k5(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("key_7", w.key_7(c) == at7)?;
    ck("key_8", w.key_8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "yield_9", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("from_op", vpg::Yield9::from_op(c, op).ok() == Some(w) && vpg::Yield9::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Yield9 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Yield9 as DialectOp>::OP_NAME == "yield_9")?;
    Ok(Some(op)) }
fn op_10(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let at0 = v_i32(t, e);
    let at1 = v_any(t, e);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::r#let(&mut e.c, e.loc, o0, tail.clone(), at0.clone(), at1.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Int(at0 as i128)));
    want.push(("k1", at1.clone()));
    ck("key_0", w.key_0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    let rg: Vec<RegionRef> = vec![g0, g2];
    let sc: Vec<BlockRef> = vec![g1];
    shape(c, op, "let", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::Let::from_op(c, op).ok() == Some(w) && vpg::Let::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Let as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Let as DialectOp>::OP_NAME == "let")?;
    Ok(Some(op)) }
fn op_11(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let at0 = v_i64(t, e);
    let at1 = opt(t, e, v_any);
    let at2 = opt(t, e, v_bytes);
    let at3 = v_u32(t, e);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let g3 = b::region(&mut e.c, &[]);
    let g4 = b::block(&mut e.c, &[]);
    let g5 = b::region(&mut e.c, &[]);
    let w = vpg::r#match(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, tail.clone(), t0, at0.clone(), at1.clone(), at2.clone(), at3.clone(), g0, g1, g2, g3, g4, g5);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", x.clone())); }
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::Bytes(x.clone()))); }
    want.push(("key_3", Attribute::Int(at3 as i128)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("key_3", w.key_3(c) == at3)?;
    let rg: Vec<RegionRef> = vec![g0, g1, g3, g5];
    let sc: Vec<BlockRef> = vec![g2, g4];
    shape(c, op, "match", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("x2", w.x2(c) == o2)?;
    ck("x3", w.x3(c) == o3)?;
    ck("x4", w.x4(c) == o4)?;
    ck("in_5", w.in_5(c) == o5)?;
    ck("tail", w.tail(c) == tail)?;
    ck("out_value", w.out_value(c) == c.op_result(op, 0) && w.out_value_ty(c) == t0)?;
    ck("g0", w.g0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("g3", w.g3(c) == g3)?;
    ck("s4", w.s4(c) == g4)?;
    ck("g5", w.g5(c) == g5)?;
    ck("from_op", vpg::Match::from_op(c, op).ok() == Some(w) && vpg::Match::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match as DialectOp>::OP_NAME == "match")?;
    Ok(Some(op)) }
fn op_12(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let outs = e.tys(t);
    let at0 = v_string(t, e);
    let at1 = v_bool(t, e);
    let at2 = v_any(t, e);
    let at3 = opt(t, e, v_symbol);
    let at4 = opt(t, e, v_qualifiedname);
    let at5 = v_any(t, e);
    let at6 = opt(t, e, v_u32);
    let at7 = v_string(t, e);
    let at8 = v_symbol(t, e);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let w = vpg::yield_12(&mut e.c, e.loc, o0, o1, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone(), g0, g1);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::String(at0.clone())));
    want.push(("loop", Attribute::Bool(at1)));
    want.push(("k2", at2.clone()));
    if let Some(x) = &at3 { let x = x.clone(); want.push(("k3", Attribute::Symbol(x))); }
    if let Some(x) = &at4 { let x = x.clone(); want.push(("a4name", Attribute::Symbol(x))); }
    want.push(("a5name", at5.clone()));
    if let Some(x) = &at6 { let x = x.clone(); want.push(("use", Attribute::Int(x as i128))); }
    want.push(("k7", Attribute::String(at7.clone())));
    want.push(("in", Attribute::Symbol(at8)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("loop", w.r#loop(c) == at1)?;
    ck("k2", w.k2(c) == at2)?;
    ck("k3", w.k3(c) == at3)?;
    ck("a4name", w.a4name(c) == at4)?;
    ck("a5name", w.a5name(c) == at5)?;
    ck("use", w.r#use(c) == at6)?;
    ck("k7", w.k7(c) == at7)?;
    ck("in", w.r#in(c) == at8)?;
    let rg: Vec<RegionRef> = vec![g0];
    let sc: Vec<BlockRef> = vec![g1];
    shape(c, op, "yield_12", &all, &rt, &want, &rg, &sc)?;
    ck("x0", w.x0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("from_op", vpg::Yield12::from_op(c, op).ok() == Some(w) && vpg::Yield12::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Yield12 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Yield12 as DialectOp>::OP_NAME == "yield_12")?;
    Ok(Some(op)) }
fn op_13(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let outs = e.tys(t);
    let at0 = v_u32(t, e);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::let_13(&mut e.c, e.loc, o0, o1, o2, o3, outs.clone(), at0.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("match", Attribute::Int(at0 as i128)));
    ck("match", w.r#match(c) == at0)?;
    let rg: Vec<RegionRef> = vec![g1, g2];
    let sc: Vec<BlockRef> = vec![g0];
    shape(c, op, "let_13", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("x2", w.x2(c) == o2)?;
    ck("in_3", w.in_3(c) == o3)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("s0", w.s0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::Let13::from_op(c, op).ok() == Some(w) && vpg::Let13::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Let13 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Let13 as DialectOp>::OP_NAME == "let_13")?;
    Ok(Some(op)) }
fn op_14(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let outs = e.tys(t);
    let at0 = v_i64(t, e);
    let at1 = v_f64(t, e);
    let w = vpg::xx_op_14(&mut e.c, e.loc, o0, o1, outs.clone(), at0.clone(), at1.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    want.push(("a1name", Attribute::FloatBits(at1.to_bits())));
    ck("a0name", w.a0name(c) == at0)?;
    ck("a1name", w.a1name(c).to_bits() == at1.to_bits())?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_14", &all, &rt, &want, &rg, &sc)?;
    ck("x0", w.x0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::XxOp14::from_op(c, op).ok() == Some(w) && vpg::XxOp14::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp14 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp14 as DialectOp>::OP_NAME == "xx_op_14")?;
    Ok(Some(op)) }
fn op_15(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let at0 = v_f64(t, e);
    let w = vpg::yield_15(&mut e.c, e.loc, at0.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::FloatBits(at0.to_bits())));
    ck("key_0", w.key_0(c).to_bits() == at0.to_bits())?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "yield_15", &all, &rt, &want, &rg, &sc)?;
    ck("from_op", vpg::Yield15::from_op(c, op).ok() == Some(w) && vpg::Yield15::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Yield15 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Yield15 as DialectOp>::OP_NAME == "yield_15")?;
    Ok(Some(op)) }
fn op_16(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = v_u64(t, e);
    let at1 = v_symbol(t, e);
    let g0 = b::block(&mut e.c, &[]);
    let w = vpg::do_it_now_16(&mut e.c, e.loc, o0, o1, o2, o3, t0, t1, t2, at0.clone(), at1.clone(), g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    let rt: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    want.push(("a1name", Attribute::Symbol(at1)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![g0];
    shape(c, op, "do_it_now_16", &all, &rt, &want, &rg, &sc)?;
    ck("match", w.r#match(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("ref", w.r#ref(c) == o2)?;
    ck("loop", w.r#loop(c) == o3)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("s0", w.s0(c) == g0)?;
    ck("from_op", vpg::DoItNow16::from_op(c, op).ok() == Some(w) && vpg::DoItNow16::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow16 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow16 as DialectOp>::OP_NAME == "do_it_now_16")?;
    Ok(Some(op)) }
fn op_17(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let tail = e.vs(t);
    let at0 = opt(t, e, v_u32);
    let at1 = v_f32(t, e);
    let at2 = v_u64(t, e);
    let at3 = v_u32(t, e);
    let at4 = opt(t, e, v_i64);
    let at5 = v_string(t, e);
    let at6 = v_qualifiedname(t, e);
    let at7 = v_u64(t, e);
    let at8 = v_string(t, e);
    let w = vpg::wide_op_17(&mut e.c, e.loc, o0, o1, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("ref", Attribute::Int(x as i128))); }
    want.push(("in", Attribute::FloatBits((at1 as f64).to_bits())));
    want.push(("key_2", Attribute::Int(at2 as i128)));
    want.push(("k3", Attribute::Int(at3 as i128)));
    if let Some(x) = &at4 { let x = x.clone(); want.push(("k4", Attribute::Int(x as i128))); }
    want.push(("key_5", Attribute::String(at5.clone())));
    want.push(("key_6", Attribute::Symbol(at6)));
    want.push(("key_7", Attribute::Int(at7 as i128)));
    want.push(("type", Attribute::String(at8.clone())));
    ck("ref", w.r#ref(c) == at0)?;
    ck("in", w.r#in(c).to_bits() == at1.to_bits())?;
    ck("key_2", w.key_2(c) == at2)?;
    ck("k3", w.k3(c) == at3)?;
    ck("k4", w.k4(c) == at4)?;
    ck("key_5", w.key_5(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("key_7", w.key_7(c) == at7)?;
    ck("type", w.r#type(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_17", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_op", vpg::WideOp17::from_op(c, op).ok() == Some(w) && vpg::WideOp17::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp17 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp17 as DialectOp>::OP_NAME == "wide_op_17")?;
    Ok(Some(op)) }
fn op_18(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let outs = e.tys(t);
    let at0 = v_u64(t, e);
    let at1 = opt(t, e, v_bytes);
    let at2 = v_f32(t, e);
    let at3 = opt(t, e, v_qualifiedname);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::let_18(&mut e.c, e.loc, o0, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::Bytes(x.clone()))); }
    want.push(("k2", Attribute::FloatBits((at2 as f64).to_bits())));
    if let Some(x) = &at3 { let x = x.clone(); want.push(("k3", Attribute::Symbol(x))); }
    ck("key_0", w.key_0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("k2", w.k2(c).to_bits() == at2.to_bits())?;
    ck("k3", w.k3(c) == at3)?;
    let rg: Vec<RegionRef> = vec![g2];
    let sc: Vec<BlockRef> = vec![g0, g1];
    shape(c, op, "let_18", &all, &rt, &want, &rg, &sc)?;
    ck("if", w.r#if(c) == o0)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("s0", w.s0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::Let18::from_op(c, op).ok() == Some(w) && vpg::Let18::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Let18 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Let18 as DialectOp>::OP_NAME == "let_18")?;
    Ok(Some(op)) }
fn op_19(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let w = vpg::wide_op_19(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, t0, t1, t2, t3, t4);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_19", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("loop", w.r#loop(c) == o3)?;
    ck("in_4", w.in_4(c) == o4)?;
    ck("fn", w.r#fn(c) == o5)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("from_op", vpg::WideOp19::from_op(c, op).ok() == Some(w) && vpg::WideOp19::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp19 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp19 as DialectOp>::OP_NAME == "wide_op_19")?;
    Ok(Some(op)) }
fn op_20(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let at0 = opt(t, e, v_string);
    let at1 = opt(t, e, v_i32);
    let w = vpg::do_it_now_20(&mut e.c, e.loc, o0, tail.clone(), at0.clone(), at1.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("a0name", Attribute::String(x.clone()))); }
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::Int(x as i128))); }
    ck("a0name", w.a0name(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "do_it_now_20", &all, &rt, &want, &rg, &sc)?;
    ck("if", w.r#if(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_op", vpg::DoItNow20::from_op(c, op).ok() == Some(w) && vpg::DoItNow20::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow20 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow20 as DialectOp>::OP_NAME == "do_it_now_20")?;
    Ok(Some(op)) }
fn op_21(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let tail = e.vs(t);
    let outs = e.tys(t);
    let at0 = opt(t, e, v_bytes);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let w = vpg::match_21(&mut e.c, e.loc, o0, o1, o2, o3, tail.clone(), outs.clone(), at0.clone(), g0, g1);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    all.extend(&tail);
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("key_0", Attribute::Bytes(x.clone()))); }
    ck("key_0", w.key_0(c) == at0)?;
    let rg: Vec<RegionRef> = vec![g0, g1];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "match_21", &all, &rt, &want, &rg, &sc)?;
    ck("ref", w.r#ref(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("lhs2", w.lhs2(c) == o2)?;
    ck("x3", w.x3(c) == o3)?;
    ck("tail", w.tail(c) == tail)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("g0", w.g0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("from_op", vpg::Match21::from_op(c, op).ok() == Some(w) && vpg::Match21::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match21 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match21 as DialectOp>::OP_NAME == "match_21")?;
    Ok(Some(op)) }
fn op_22(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let t0 = e.ty(t);
    let w = vpg::xx_op_22(&mut e.c, e.loc, o0, o1, o2, o3, t0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_22", &all, &rt, &want, &rg, &sc)?;
    ck("x0", w.x0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("lhs2", w.lhs2(c) == o2)?;
    ck("lhs3", w.lhs3(c) == o3)?;
    ck("result", w.result(c) == c.op_result(op, 0) && w.result_ty(c) == t0)?;
    ck("from_op", vpg::XxOp22::from_op(c, op).ok() == Some(w) && vpg::XxOp22::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp22 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp22 as DialectOp>::OP_NAME == "xx_op_22")?;
    Ok(Some(op)) }
fn op_23(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let tail = e.vs(t);
    let at0 = v_u64(t, e);
    let at1 = opt(t, e, v_any);
    let at2 = v_type(t, e);
    let at3 = opt(t, e, v_qualifiedname);
    let at4 = v_qualifiedname(t, e);
    let at5 = opt(t, e, v_u64);
    let at6 = opt(t, e, v_symbol);
    let at7 = opt(t, e, v_u64);
    let at8 = v_qualifiedname(t, e);
    let g0 = b::block(&mut e.c, &[]);
    let w = vpg::xx_op_23(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone(), g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("key_1", x.clone())); }
    want.push(("a2name", Attribute::Type(at2)));
    if let Some(x) = &at3 { let x = x.clone(); want.push(("key_3", Attribute::Symbol(x))); }
    want.push(("k4", Attribute::Symbol(at4)));
    if let Some(x) = &at5 { let x = x.clone(); want.push(("a5name", Attribute::Int(x as i128))); }
    if let Some(x) = &at6 { let x = x.clone(); want.push(("a6name", Attribute::Symbol(x))); }
    if let Some(x) = &at7 { let x = x.clone(); want.push(("k7", Attribute::Int(x as i128))); }
    want.push(("k8", Attribute::Symbol(at8)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("key_1", w.key_1(c) == at1)?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("key_3", w.key_3(c) == at3)?;
    ck("k4", w.k4(c) == at4)?;
    ck("a5name", w.a5name(c) == at5)?;
    ck("a6name", w.a6name(c) == at6)?;
    ck("k7", w.k7(c) == at7)?;
    ck("k8", w.k8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![g0];
    shape(c, op, "xx_op_23", &all, &rt, &want, &rg, &sc)?;
    ck("move", w.r#move(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("use", w.r#use(c) == o2)?;
    ck("in_3", w.in_3(c) == o3)?;
    ck("in_4", w.in_4(c) == o4)?;
    ck("lhs5", w.lhs5(c) == o5)?;
    ck("tail", w.tail(c) == tail)?;
    ck("s0", w.s0(c) == g0)?;
    ck("from_op", vpg::XxOp23::from_op(c, op).ok() == Some(w) && vpg::XxOp23::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp23 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp23 as DialectOp>::OP_NAME == "xx_op_23")?;
    Ok(Some(op)) }
fn op_24(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let t5 = e.ty(t);
    let t6 = e.ty(t);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let g3 = b::region(&mut e.c, &[]);
    let g4 = b::region(&mut e.c, &[]);
    let g5 = b::region(&mut e.c, &[]);
    let w = vpg::do_it_now_24(&mut e.c, e.loc, o0, o1, o2, t0, t1, t2, t3, t4, t5, t6, g0, g1, g2, g3, g4, g5);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4, t5, t6];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g3, g4, g5];
    let sc: Vec<BlockRef> = vec![g0, g1, g2];
    shape(c, op, "do_it_now_24", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("x2", w.x2(c) == o2)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("r5", w.r5(c) == c.op_result(op, 5) && w.r5_ty(c) == t5)?;
    ck("r6", w.r6(c) == c.op_result(op, 6) && w.r6_ty(c) == t6)?;
    ck("s0", w.s0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("g3", w.g3(c) == g3)?;
    ck("g4", w.g4(c) == g4)?;
    ck("g5", w.g5(c) == g5)?;
    ck("from_op", vpg::DoItNow24::from_op(c, op).ok() == Some(w) && vpg::DoItNow24::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow24 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow24 as DialectOp>::OP_NAME == "do_it_now_24")?;
    Ok(Some(op)) }
fn op_25(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let t0 = e.ty(t);
    let at0 = v_u32(t, e);
    let at1 = opt(t, e, v_i64);
    let at2 = v_f64(t, e);
    let at3 = v_f64(t, e);
    let at4 = opt(t, e, v_any);
    let at5 = opt(t, e, v_u32);
    let at6 = opt(t, e, v_f32);
    let at7 = v_symbol(t, e);
    let at8 = v_bool(t, e);
    let w = vpg::wide_op_25(&mut e.c, e.loc, o0, t0, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("k0", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("key_1", Attribute::Int(x as i128))); }
    want.push(("move", Attribute::FloatBits(at2.to_bits())));
    want.push(("k3", Attribute::FloatBits(at3.to_bits())));
    if let Some(x) = &at4 { let x = x.clone(); want.push(("key_4", x.clone())); }
    if let Some(x) = &at5 { let x = x.clone(); want.push(("key_5", Attribute::Int(x as i128))); }
    if let Some(x) = &at6 { let x = x.clone(); want.push(("a6name", Attribute::FloatBits((x as f64).to_bits()))); }
    want.push(("if", Attribute::Symbol(at7)));
    want.push(("k8", Attribute::Bool(at8)));
    ck("k0", w.k0(c) == at0)?;
    ck("key_1", w.key_1(c) == at1)?;
    ck("move", w.r#move(c).to_bits() == at2.to_bits())?;
    ck("k3", w.k3(c).to_bits() == at3.to_bits())?;
    ck("key_4", w.key_4(c) == at4)?;
    ck("key_5", w.key_5(c) == at5)?;
    ck("a6name", w.a6name(c).map(|x| x.to_bits()) == at6.map(|x| x.to_bits()))?;
    ck("if", w.r#if(c) == at7)?;
    ck("k8", w.k8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_25", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("out_value", w.out_value(c) == c.op_result(op, 0) && w.out_value_ty(c) == t0)?;
    ck("from_op", vpg::WideOp25::from_op(c, op).ok() == Some(w) && vpg::WideOp25::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp25 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp25 as DialectOp>::OP_NAME == "wide_op_25")?;
    Ok(Some(op)) }
fn op_26(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let w = vpg::wide_op_26(&mut e.c, e.loc, t0, t1, t2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_26", &all, &rt, &want, &rg, &sc)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("from_op", vpg::WideOp26::from_op(c, op).ok() == Some(w) && vpg::WideOp26::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp26 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp26 as DialectOp>::OP_NAME == "wide_op_26")?;
    Ok(Some(op)) }
fn op_27(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let tail = e.vs(t);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::match_27(&mut e.c, e.loc, o0, o1, o2, o3, tail.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g2];
    let sc: Vec<BlockRef> = vec![g0, g1];
    shape(c, op, "match_27", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("lhs2", w.lhs2(c) == o2)?;
    ck("lhs3", w.lhs3(c) == o3)?;
    ck("tail", w.tail(c) == tail)?;
    ck("s0", w.s0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::Match27::from_op(c, op).ok() == Some(w) && vpg::Match27::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match27 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match27 as DialectOp>::OP_NAME == "match_27")?;
    Ok(Some(op)) }
fn op_28(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let at0 = v_qualifiedname(t, e);
    let at1 = v_i32(t, e);
    let w = vpg::do_it_now_28(&mut e.c, e.loc, o0, o1, o2, tail.clone(), t0, t1, t2, t3, t4, at0.clone(), at1.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Symbol(at0)));
    want.push(("k1", Attribute::Int(at1 as i128)));
    ck("key_0", w.key_0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "do_it_now_28", &all, &rt, &want, &rg, &sc)?;
    ck("x0", w.x0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("tail", w.tail(c) == tail)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("from_op", vpg::DoItNow28::from_op(c, op).ok() == Some(w) && vpg::DoItNow28::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow28 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow28 as DialectOp>::OP_NAME == "do_it_now_28")?;
    Ok(Some(op)) }
fn op_29(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let tail = e.vs(t);
    let at0 = v_u32(t, e);
    let w = vpg::let_29(&mut e.c, e.loc, o0, o1, o2, o3, tail.clone(), at0.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Int(at0 as i128)));
    ck("key_0", w.key_0(c) == at0)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "let_29", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("x2", w.x2(c) == o2)?;
    ck("lhs3", w.lhs3(c) == o3)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_op", vpg::Let29::from_op(c, op).ok() == Some(w) && vpg::Let29::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Let29 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Let29 as DialectOp>::OP_NAME == "let_29")?;
    Ok(Some(op)) }
fn op_30(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = v_u32(t, e);
    let at1 = opt(t, e, v_qualifiedname);
    let at2 = v_bool(t, e);
    let at3 = v_any(t, e);
    let at4 = v_i32(t, e);
    let at5 = v_type(t, e);
    let at6 = opt(t, e, v_i64);
    let at7 = opt(t, e, v_bytes);
    let at8 = opt(t, e, v_any);
    let w = vpg::match_30(&mut e.c, e.loc, o0, o1, o2, t0, t1, t2, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("match", Attribute::Symbol(x))); }
    want.push(("key_2", Attribute::Bool(at2)));
    want.push(("if", at3.clone()));
    want.push(("a4name", Attribute::Int(at4 as i128)));
    want.push(("a5name", Attribute::Type(at5)));
    if let Some(x) = &at6 { let x = x.clone(); want.push(("k6", Attribute::Int(x as i128))); }
    if let Some(x) = &at7 { let x = x.clone(); want.push(("a7name", Attribute::Bytes(x.clone()))); }
    if let Some(x) = &at8 { let x = x.clone(); want.push(("key_8", x.clone())); }
    ck("a0name", w.a0name(c) == at0)?;
    ck("match", w.r#match(c) == at1)?;
    ck("key_2", w.key_2(c) == at2)?;
    ck("if", w.r#if(c) == at3)?;
    ck("a4name", w.a4name(c) == at4)?;
    ck("a5name", w.a5name(c) == at5)?;
    ck("k6", w.k6(c) == at6)?;
    ck("a7name", w.a7name(c) == at7)?;
    ck("key_8", w.key_8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "match_30", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("lhs2", w.lhs2(c) == o2)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("from_op", vpg::Match30::from_op(c, op).ok() == Some(w) && vpg::Match30::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match30 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match30 as DialectOp>::OP_NAME == "match_30")?;
    Ok(Some(op)) }
fn op_31(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = v_any(t, e);
    let at1 = opt(t, e, v_symbol);
    let at2 = opt(t, e, v_symbol);
    let at3 = opt(t, e, v_type);
    let at4 = v_u32(t, e);
    let at5 = v_bool(t, e);
    let at6 = v_bool(t, e);
    let at7 = v_qualifiedname(t, e);
    let at8 = opt(t, e, v_f64);
    let w = vpg::copy_31(&mut e.c, e.loc, o0, tail.clone(), t0, t1, t2, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", at0.clone()));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("in", Attribute::Symbol(x))); }
    if let Some(x) = &at2 { let x = x.clone(); want.push(("key_2", Attribute::Symbol(x))); }
    if let Some(x) = &at3 { let x = x.clone(); want.push(("use", Attribute::Type(x))); }
    want.push(("key_4", Attribute::Int(at4 as i128)));
    want.push(("k5", Attribute::Bool(at5)));
    want.push(("a6name", Attribute::Bool(at6)));
    want.push(("move", Attribute::Symbol(at7)));
    if let Some(x) = &at8 { let x = x.clone(); want.push(("key_8", Attribute::FloatBits(x.to_bits()))); }
    ck("a0name", w.a0name(c) == at0)?;
    ck("in", w.r#in(c) == at1)?;
    ck("key_2", w.key_2(c) == at2)?;
    ck("use", w.r#use(c) == at3)?;
    ck("key_4", w.key_4(c) == at4)?;
    ck("k5", w.k5(c) == at5)?;
    ck("a6name", w.a6name(c) == at6)?;
    ck("move", w.r#move(c) == at7)?;
    ck("key_8", w.key_8(c).map(|x| x.to_bits()) == at8.map(|x| x.to_bits()))?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy_31", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("from_op", vpg::Copy31::from_op(c, op).ok() == Some(w) && vpg::Copy31::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy31 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy31 as DialectOp>::OP_NAME == "copy_31")?;
    Ok(Some(op)) }
fn op_32(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let tail = e.vs(t);
    let g0 = b::region(&mut e.c, &[]);
    let w = vpg::load_2_32(&mut e.c, e.loc, o0, o1, o2, tail.clone(), g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "load_2_32", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("tail", w.tail(c) == tail)?;
    ck("g0", w.g0(c) == g0)?;
    ck("from_op", vpg::Load232::from_op(c, op).ok() == Some(w) && vpg::Load232::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load232 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load232 as DialectOp>::OP_NAME == "load_2_32")?;
    Ok(Some(op)) }
fn op_33(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let at0 = v_type(t, e);
    let at1 = opt(t, e, v_symbol);
    let at2 = opt(t, e, v_bool);
    let at3 = v_bytes(t, e);
    let w = vpg::do_it_now_33(&mut e.c, e.loc, o0, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("k0", Attribute::Type(at0)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("a1name", Attribute::Symbol(x))); }
    if let Some(x) = &at2 { let x = x.clone(); want.push(("if", Attribute::Bool(x))); }
    want.push(("k3", Attribute::Bytes(at3.clone())));
    ck("k0", w.k0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("if", w.r#if(c) == at2)?;
    ck("k3", w.k3(c) == at3)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "do_it_now_33", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_op", vpg::DoItNow33::from_op(c, op).ok() == Some(w) && vpg::DoItNow33::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow33 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow33 as DialectOp>::OP_NAME == "do_it_now_33")?;
    Ok(Some(op)) }
fn op_34(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let t0 = e.ty(t);
    let at0 = v_u64(t, e);
    let at1 = v_f32(t, e);
    let at2 = opt(t, e, v_u64);
    let at3 = v_i32(t, e);
    let at4 = opt(t, e, v_any);
    let at5 = opt(t, e, v_bytes);
    let at6 = v_type(t, e);
    let at7 = v_type(t, e);
    let at8 = opt(t, e, v_qualifiedname);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let g3 = b::region(&mut e.c, &[]);
    let g4 = b::block(&mut e.c, &[]);
    let g5 = b::region(&mut e.c, &[]);
    let w = vpg::xx_op_34(&mut e.c, e.loc, o0, o1, o2, t0, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone(), g0, g1, g2, g3, g4, g5);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    want.push(("key_1", Attribute::FloatBits((at1 as f64).to_bits())));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("k2", Attribute::Int(x as i128))); }
    want.push(("if", Attribute::Int(at3 as i128)));
    if let Some(x) = &at4 { let x = x.clone(); want.push(("k4", x.clone())); }
    if let Some(x) = &at5 { let x = x.clone(); want.push(("key_5", Attribute::Bytes(x.clone()))); }
    want.push(("key_6", Attribute::Type(at6)));
    want.push(("key_7", Attribute::Type(at7)));
    if let Some(x) = &at8 { let x = x.clone(); want.push(("k8", Attribute::Symbol(x))); }
    ck("a0name", w.a0name(c) == at0)?;
    ck("key_1", w.key_1(c).to_bits() == at1.to_bits())?;
    ck("k2", w.k2(c) == at2)?;
    ck("if", w.r#if(c) == at3)?;
    ck("k4", w.k4(c) == at4)?;
    ck("key_5", w.key_5(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("key_7", w.key_7(c) == at7)?;
    ck("k8", w.k8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![g1, g3, g5];
    let sc: Vec<BlockRef> = vec![g0, g2, g4];
    shape(c, op, "xx_op_34", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("result", w.result(c) == c.op_result(op, 0) && w.result_ty(c) == t0)?;
    ck("s0", w.s0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("g3", w.g3(c) == g3)?;
    ck("s4", w.s4(c) == g4)?;
    ck("g5", w.g5(c) == g5)?;
    ck("from_op", vpg::XxOp34::from_op(c, op).ok() == Some(w) && vpg::XxOp34::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp34 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp34 as DialectOp>::OP_NAME == "xx_op_34")?;
    Ok(Some(op)) }
fn op_35(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let at0 = opt(t, e, v_u64);
    let w = vpg::copy_35(&mut e.c, e.loc, o0, o1, tail.clone(), t0, t1, at0.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("a0name", Attribute::Int(x as i128))); }
    ck("a0name", w.a0name(c) == at0)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy_35", &all, &rt, &want, &rg, &sc)?;
    ck("where", w.r#where(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("tail", w.tail(c) == tail)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("from_op", vpg::Copy35::from_op(c, op).ok() == Some(w) && vpg::Copy35::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy35 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy35 as DialectOp>::OP_NAME == "copy_35")?;
    Ok(Some(op)) }
fn op_36(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let outs = e.tys(t);
    let g0 = b::region(&mut e.c, &[]);
    let w = vpg::copy_36(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, outs.clone(), g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy_36", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("match", w.r#match(c) == o2)?;
    ck("move", w.r#move(c) == o3)?;
    ck("in_4", w.in_4(c) == o4)?;
    ck("in_5", w.in_5(c) == o5)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("g0", w.g0(c) == g0)?;
    ck("from_op", vpg::Copy36::from_op(c, op).ok() == Some(w) && vpg::Copy36::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy36 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy36 as DialectOp>::OP_NAME == "copy_36")?;
    Ok(Some(op)) }
fn op_37(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let w = vpg::copy_37(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, tail.clone(), t0, g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0];
    let sc: Vec<BlockRef> = vec![g1, g2];
    shape(c, op, "copy_37", &all, &rt, &want, &rg, &sc)?;
    ck("x0", w.x0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("lhs3", w.lhs3(c) == o3)?;
    ck("match", w.r#match(c) == o4)?;
    ck("x5", w.x5(c) == o5)?;
    ck("tail", w.tail(c) == tail)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("from_op", vpg::Copy37::from_op(c, op).ok() == Some(w) && vpg::Copy37::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy37 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy37 as DialectOp>::OP_NAME == "copy_37")?;
    Ok(Some(op)) }
fn op_38(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let outs = e.tys(t);
    let w = vpg::xx_op_38(&mut e.c, e.loc, o0, o1, o2, outs.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_38", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("move", w.r#move(c) == o2)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::XxOp38::from_op(c, op).ok() == Some(w) && vpg::XxOp38::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp38 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp38 as DialectOp>::OP_NAME == "xx_op_38")?;
    Ok(Some(op)) }
fn op_39(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let at0 = v_u32(t, e);
    let at1 = opt(t, e, v_i64);
    let at2 = opt(t, e, v_i32);
    let at3 = v_u32(t, e);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::xx_op_39(&mut e.c, e.loc, o0, o1, o2, t0, t1, t2, t3, t4, at0.clone(), at1.clone(), at2.clone(), at3.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::Int(x as i128))); }
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::Int(x as i128))); }
    want.push(("k3", Attribute::Int(at3 as i128)));
    ck("key_0", w.key_0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("k3", w.k3(c) == at3)?;
    let rg: Vec<RegionRef> = vec![g0, g2];
    let sc: Vec<BlockRef> = vec![g1];
    shape(c, op, "xx_op_39", &all, &rt, &want, &rg, &sc)?;
    ck("x0", w.x0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::XxOp39::from_op(c, op).ok() == Some(w) && vpg::XxOp39::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp39 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp39 as DialectOp>::OP_NAME == "xx_op_39")?;
    Ok(Some(op)) }
fn op_40(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let at0 = opt(t, e, v_bool);
    let w = vpg::wide_op_40(&mut e.c, e.loc, t0, at0.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("ref", Attribute::Bool(x))); }
    ck("ref", w.r#ref(c) == at0)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_40", &all, &rt, &want, &rg, &sc)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("from_op", vpg::WideOp40::from_op(c, op).ok() == Some(w) && vpg::WideOp40::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp40 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp40 as DialectOp>::OP_NAME == "wide_op_40")?;
    Ok(Some(op)) }
fn op_41(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let at0 = v_i32(t, e);
    let at1 = v_u32(t, e);
    let at2 = opt(t, e, v_u32);
    let at3 = v_qualifiedname(t, e);
    let w = vpg::load_2_41(&mut e.c, e.loc, tail.clone(), t0, at0.clone(), at1.clone(), at2.clone(), at3.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    want.push(("a1name", Attribute::Int(at1 as i128)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("fn", Attribute::Int(x as i128))); }
    want.push(("k3", Attribute::Symbol(at3)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("fn", w.r#fn(c) == at2)?;
    ck("k3", w.k3(c) == at3)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "load_2_41", &all, &rt, &want, &rg, &sc)?;
    ck("tail", w.tail(c) == tail)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("from_op", vpg::Load241::from_op(c, op).ok() == Some(w) && vpg::Load241::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load241 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load241 as DialectOp>::OP_NAME == "load_2_41")?;
    Ok(Some(op)) }
fn op_42(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let at0 = v_any(t, e);
    let at1 = opt(t, e, v_string);
    let w = vpg::copy_42(&mut e.c, e.loc, o0, o1, at0.clone(), at1.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("k0", at0.clone()));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("a1name", Attribute::String(x.clone()))); }
    ck("k0", w.k0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy_42", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("from_op", vpg::Copy42::from_op(c, op).ok() == Some(w) && vpg::Copy42::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy42 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy42 as DialectOp>::OP_NAME == "copy_42")?;
    Ok(Some(op)) }
fn op_43(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let t5 = e.ty(t);
    let t6 = e.ty(t);
    let at0 = v_f64(t, e);
    let at1 = v_f64(t, e);
    let w = vpg::xx_op_43(&mut e.c, e.loc, o0, o1, o2, t0, t1, t2, t3, t4, t5, t6, at0.clone(), at1.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4, t5, t6];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("fn", Attribute::FloatBits(at0.to_bits())));
    want.push(("k1", Attribute::FloatBits(at1.to_bits())));
    ck("fn", w.r#fn(c).to_bits() == at0.to_bits())?;
    ck("k1", w.k1(c).to_bits() == at1.to_bits())?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_43", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("r5", w.r5(c) == c.op_result(op, 5) && w.r5_ty(c) == t5)?;
    ck("r6", w.r6(c) == c.op_result(op, 6) && w.r6_ty(c) == t6)?;
    ck("from_op", vpg::XxOp43::from_op(c, op).ok() == Some(w) && vpg::XxOp43::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp43 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp43 as DialectOp>::OP_NAME == "xx_op_43")?;
    Ok(Some(op)) }
fn op_44(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let outs = e.tys(t);
    let at0 = v_i64(t, e);
    let at1 = opt(t, e, v_any);
    let at2 = v_f32(t, e);
    let at3 = opt(t, e, v_u64);
    let w = vpg::match_44(&mut e.c, e.loc, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("use", x.clone())); }
    want.push(("k2", Attribute::FloatBits((at2 as f64).to_bits())));
    if let Some(x) = &at3 { let x = x.clone(); want.push(("k3", Attribute::Int(x as i128))); }
    ck("key_0", w.key_0(c) == at0)?;
    ck("use", w.r#use(c) == at1)?;
    ck("k2", w.k2(c).to_bits() == at2.to_bits())?;
    ck("k3", w.k3(c) == at3)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "match_44", &all, &rt, &want, &rg, &sc)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::Match44::from_op(c, op).ok() == Some(w) && vpg::Match44::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match44 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match44 as DialectOp>::OP_NAME == "match_44")?;
    Ok(Some(op)) }
fn op_45(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let g3 = b::region(&mut e.c, &[]);
    let g4 = b::block(&mut e.c, &[]);
    let g5 = b::region(&mut e.c, &[]);
    let w = vpg::wide_op_45(&mut e.c, e.loc, tail.clone(), t0, g0, g1, g2, g3, g4, g5);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0, g3, g5];
    let sc: Vec<BlockRef> = vec![g1, g2, g4];
    shape(c, op, "wide_op_45", &all, &rt, &want, &rg, &sc)?;
    ck("tail", w.tail(c) == tail)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("g3", w.g3(c) == g3)?;
    ck("s4", w.s4(c) == g4)?;
    ck("g5", w.g5(c) == g5)?;
    ck("from_op", vpg::WideOp45::from_op(c, op).ok() == Some(w) && vpg::WideOp45::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp45 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp45 as DialectOp>::OP_NAME == "wide_op_45")?;
    Ok(Some(op)) }
fn op_46(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let w = vpg::xx_op_46(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_46", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("x2", w.x2(c) == o2)?;
    ck("x3", w.x3(c) == o3)?;
    ck("lhs4", w.lhs4(c) == o4)?;
    ck("in_5", w.in_5(c) == o5)?;
    ck("from_op", vpg::XxOp46::from_op(c, op).ok() == Some(w) && vpg::XxOp46::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp46 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp46 as DialectOp>::OP_NAME == "xx_op_46")?;
    Ok(Some(op)) }
fn op_47(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let at0 = opt(t, e, v_type);
    let at1 = v_qualifiedname(t, e);
    let at2 = opt(t, e, v_f64);
    let at3 = v_i64(t, e);
    let at4 = v_type(t, e);
    let at5 = v_type(t, e);
    let at6 = v_i32(t, e);
    let at7 = opt(t, e, v_any);
    let at8 = v_bool(t, e);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let w = vpg::load_2_47(&mut e.c, e.loc, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", Attribute::Type(x))); }
    want.push(("a1name", Attribute::Symbol(at1)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::FloatBits(x.to_bits()))); }
    want.push(("key_3", Attribute::Int(at3 as i128)));
    want.push(("where", Attribute::Type(at4)));
    want.push(("a5name", Attribute::Type(at5)));
    want.push(("key_6", Attribute::Int(at6 as i128)));
    if let Some(x) = &at7 { let x = x.clone(); want.push(("if", x.clone())); }
    want.push(("a8name", Attribute::Bool(at8)));
    ck("k0", w.k0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("a2name", w.a2name(c).map(|x| x.to_bits()) == at2.map(|x| x.to_bits()))?;
    ck("key_3", w.key_3(c) == at3)?;
    ck("where", w.r#where(c) == at4)?;
    ck("a5name", w.a5name(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("if", w.r#if(c) == at7)?;
    ck("a8name", w.a8name(c) == at8)?;
    let rg: Vec<RegionRef> = vec![g0, g1];
    let sc: Vec<BlockRef> = vec![g2];
    shape(c, op, "load_2_47", &all, &rt, &want, &rg, &sc)?;
    ck("g0", w.g0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("from_op", vpg::Load247::from_op(c, op).ok() == Some(w) && vpg::Load247::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load247 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load247 as DialectOp>::OP_NAME == "load_2_47")?;
    Ok(Some(op)) }
fn op_48(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let outs = e.tys(t);
    let at0 = opt(t, e, v_i32);
    let at1 = v_i32(t, e);
    let at2 = opt(t, e, v_any);
    let at3 = v_bytes(t, e);
    let at4 = v_symbol(t, e);
    let at5 = opt(t, e, v_symbol);
    let at6 = opt(t, e, v_string);
    let at7 = opt(t, e, v_u64);
    let at8 = opt(t, e, v_bool);
    let w = vpg::wide_op_48(&mut e.c, e.loc, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", Attribute::Int(x as i128))); }
    want.push(("a1name", Attribute::Int(at1 as i128)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("key_2", x.clone())); }
    want.push(("k3", Attribute::Bytes(at3.clone())));
    want.push(("k4", Attribute::Symbol(at4)));
    if let Some(x) = &at5 { let x = x.clone(); want.push(("k5", Attribute::Symbol(x))); }
    if let Some(x) = &at6 { let x = x.clone(); want.push(("key_6", Attribute::String(x.clone()))); }
    if let Some(x) = &at7 { let x = x.clone(); want.push(("key_7", Attribute::Int(x as i128))); }
    if let Some(x) = &at8 { let x = x.clone(); want.push(("k8", Attribute::Bool(x))); }
    ck("k0", w.k0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("key_2", w.key_2(c) == at2)?;
    ck("k3", w.k3(c) == at3)?;
    ck("k4", w.k4(c) == at4)?;
    ck("k5", w.k5(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("key_7", w.key_7(c) == at7)?;
    ck("k8", w.k8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_48", &all, &rt, &want, &rg, &sc)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::WideOp48::from_op(c, op).ok() == Some(w) && vpg::WideOp48::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp48 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp48 as DialectOp>::OP_NAME == "wide_op_48")?;
    Ok(Some(op)) }
fn op_49(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let outs = e.tys(t);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let g3 = b::block(&mut e.c, &[]);
    let g4 = b::block(&mut e.c, &[]);
    let g5 = b::region(&mut e.c, &[]);
    let w = vpg::match_49(&mut e.c, e.loc, o0, outs.clone(), g0, g1, g2, g3, g4, g5);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g1, g2, g5];
    let sc: Vec<BlockRef> = vec![g0, g3, g4];
    shape(c, op, "match_49", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("s0", w.s0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("s3", w.s3(c) == g3)?;
    ck("s4", w.s4(c) == g4)?;
    ck("g5", w.g5(c) == g5)?;
    ck("from_op", vpg::Match49::from_op(c, op).ok() == Some(w) && vpg::Match49::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match49 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match49 as DialectOp>::OP_NAME == "match_49")?;
    Ok(Some(op)) }
fn op_50(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let outs = e.tys(t);
    let w = vpg::do_it_now_50(&mut e.c, e.loc, o0, o1, o2, o3, outs.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "do_it_now_50", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("x3", w.x3(c) == o3)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::DoItNow50::from_op(c, op).ok() == Some(w) && vpg::DoItNow50::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow50 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow50 as DialectOp>::OP_NAME == "do_it_now_50")?;
    Ok(Some(op)) }
fn op_51(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let at0 = opt(t, e, v_qualifiedname);
    let at1 = opt(t, e, v_bool);
    let at2 = v_bool(t, e);
    let at3 = v_u64(t, e);
    let at4 = v_f64(t, e);
    let at5 = opt(t, e, v_f32);
    let at6 = opt(t, e, v_bool);
    let at7 = v_type(t, e);
    let at8 = v_any(t, e);
    let w = vpg::copy_51(&mut e.c, e.loc, o0, o1, t0, t1, at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    let rt: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("loop", Attribute::Symbol(x))); }
    if let Some(x) = &at1 { let x = x.clone(); want.push(("a1name", Attribute::Bool(x))); }
    want.push(("match", Attribute::Bool(at2)));
    want.push(("type", Attribute::Int(at3 as i128)));
    want.push(("fn", Attribute::FloatBits(at4.to_bits())));
    if let Some(x) = &at5 { let x = x.clone(); want.push(("a5name", Attribute::FloatBits((x as f64).to_bits()))); }
    if let Some(x) = &at6 { let x = x.clone(); want.push(("key_6", Attribute::Bool(x))); }
    want.push(("k7", Attribute::Type(at7)));
    want.push(("k8", at8.clone()));
    ck("loop", w.r#loop(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("match", w.r#match(c) == at2)?;
    ck("type", w.r#type(c) == at3)?;
    ck("fn", w.r#fn(c).to_bits() == at4.to_bits())?;
    ck("a5name", w.a5name(c).map(|x| x.to_bits()) == at5.map(|x| x.to_bits()))?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("k7", w.k7(c) == at7)?;
    ck("k8", w.k8(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "copy_51", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("from_op", vpg::Copy51::from_op(c, op).ok() == Some(w) && vpg::Copy51::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Copy51 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Copy51 as DialectOp>::OP_NAME == "copy_51")?;
    Ok(Some(op)) }
fn op_52(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let outs = e.tys(t);
    let at0 = v_i64(t, e);
    let at1 = opt(t, e, v_bool);
    let at2 = opt(t, e, v_any);
    let at3 = v_u32(t, e);
    let w = vpg::match_52(&mut e.c, e.loc, o0, o1, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::Bool(x))); }
    if let Some(x) = &at2 { let x = x.clone(); want.push(("k2", x.clone())); }
    want.push(("where", Attribute::Int(at3 as i128)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("k2", w.k2(c) == at2)?;
    ck("where", w.r#where(c) == at3)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "match_52", &all, &rt, &want, &rg, &sc)?;
    ck("use", w.r#use(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::Match52::from_op(c, op).ok() == Some(w) && vpg::Match52::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match52 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match52 as DialectOp>::OP_NAME == "match_52")?;
    Ok(Some(op)) }
fn op_53(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let outs = e.tys(t);
    let at0 = v_bytes(t, e);
    let at1 = v_type(t, e);
    let at2 = opt(t, e, v_qualifiedname);
    let at3 = v_bytes(t, e);
    let at4 = v_u64(t, e);
    let at5 = v_any(t, e);
    let at6 = opt(t, e, v_u32);
    let at7 = opt(t, e, v_u64);
    let at8 = opt(t, e, v_i64);
    let g0 = b::block(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::block(&mut e.c, &[]);
    let w = vpg::load_2_53(&mut e.c, e.loc, o0, o1, o2, o3, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Bytes(at0.clone())));
    want.push(("k1", Attribute::Type(at1)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("k2", Attribute::Symbol(x))); }
    want.push(("fn", Attribute::Bytes(at3.clone())));
    want.push(("key_4", Attribute::Int(at4 as i128)));
    want.push(("a5name", at5.clone()));
    if let Some(x) = &at6 { let x = x.clone(); want.push(("key_6", Attribute::Int(x as i128))); }
    if let Some(x) = &at7 { let x = x.clone(); want.push(("use", Attribute::Int(x as i128))); }
    if let Some(x) = &at8 { let x = x.clone(); want.push(("a8name", Attribute::Int(x as i128))); }
    ck("key_0", w.key_0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("k2", w.k2(c) == at2)?;
    ck("fn", w.r#fn(c) == at3)?;
    ck("key_4", w.key_4(c) == at4)?;
    ck("a5name", w.a5name(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("use", w.r#use(c) == at7)?;
    ck("a8name", w.a8name(c) == at8)?;
    let rg: Vec<RegionRef> = vec![g1];
    let sc: Vec<BlockRef> = vec![g0, g2];
    shape(c, op, "load_2_53", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("type", w.r#type(c) == o3)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("s0", w.s0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("s2", w.s2(c) == g2)?;
    ck("from_op", vpg::Load253::from_op(c, op).ok() == Some(w) && vpg::Load253::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load253 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load253 as DialectOp>::OP_NAME == "load_2_53")?;
    Ok(Some(op)) }
fn op_54(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let g0 = b::region(&mut e.c, &[]);
    let w = vpg::load_2_54(&mut e.c, e.loc, o0, o1, o2, g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2];
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "load_2_54", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("lhs1", w.lhs1(c) == o1)?;
    ck("lhs2", w.lhs2(c) == o2)?;
    ck("g0", w.g0(c) == g0)?;
    ck("from_op", vpg::Load254::from_op(c, op).ok() == Some(w) && vpg::Load254::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load254 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load254 as DialectOp>::OP_NAME == "load_2_54")?;
    Ok(Some(op)) }
fn op_55(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let w = vpg::do_it_now_55(&mut e.c, e.loc, o0, tail.clone(), t0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "do_it_now_55", &all, &rt, &want, &rg, &sc)?;
    ck("lhs0", w.lhs0(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("result", w.result(c) == c.op_result(op, 0) && w.result_ty(c) == t0)?;
    ck("from_op", vpg::DoItNow55::from_op(c, op).ok() == Some(w) && vpg::DoItNow55::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::DoItNow55 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::DoItNow55 as DialectOp>::OP_NAME == "do_it_now_55")?;
    Ok(Some(op)) }
fn op_56(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::region(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::wide_op_56(&mut e.c, e.loc, t0, g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0, g1, g2];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "wide_op_56", &all, &rt, &want, &rg, &sc)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("g0", w.g0(c) == g0)?;
    ck("g1", w.g1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::WideOp56::from_op(c, op).ok() == Some(w) && vpg::WideOp56::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp56 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp56 as DialectOp>::OP_NAME == "wide_op_56")?;
    Ok(Some(op)) }
fn op_57(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let outs = e.tys(t);
    let w = vpg::xx_op_57(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, outs.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_57", &all, &rt, &want, &rg, &sc)?;
    ck("in", w.r#in(c) == o0)?;
    ck("x1", w.x1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("lhs3", w.lhs3(c) == o3)?;
    ck("x4", w.x4(c) == o4)?;
    ck("lhs5", w.lhs5(c) == o5)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::XxOp57::from_op(c, op).ok() == Some(w) && vpg::XxOp57::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp57 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp57 as DialectOp>::OP_NAME == "xx_op_57")?;
    Ok(Some(op)) }
fn op_58(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let tail = e.vs(t);
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let t5 = e.ty(t);
    let t6 = e.ty(t);
    let w = vpg::load_2_58(&mut e.c, e.loc, o0, tail.clone(), t0, t1, t2, t3, t4, t5, t6);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![t0, t1, t2, t3, t4, t5, t6];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "load_2_58", &all, &rt, &want, &rg, &sc)?;
    ck("in", w.r#in(c) == o0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("r2", w.r2(c) == c.op_result(op, 2) && w.r2_ty(c) == t2)?;
    ck("r3", w.r3(c) == c.op_result(op, 3) && w.r3_ty(c) == t3)?;
    ck("r4", w.r4(c) == c.op_result(op, 4) && w.r4_ty(c) == t4)?;
    ck("r5", w.r5(c) == c.op_result(op, 5) && w.r5_ty(c) == t5)?;
    ck("r6", w.r6(c) == c.op_result(op, 6) && w.r6_ty(c) == t6)?;
    ck("from_op", vpg::Load258::from_op(c, op).ok() == Some(w) && vpg::Load258::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Load258 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Load258 as DialectOp>::OP_NAME == "load_2_58")?;
    Ok(Some(op)) }
fn op_59(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let tail = e.vs(t);
    let at0 = v_f32(t, e);
    let at1 = v_u32(t, e);
    let g0 = b::region(&mut e.c, &[]);
    let g1 = b::block(&mut e.c, &[]);
    let g2 = b::region(&mut e.c, &[]);
    let w = vpg::wide_op_59(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, tail.clone(), at0.clone(), at1.clone(), g0, g1, g2);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("use", Attribute::FloatBits((at0 as f64).to_bits())));
    want.push(("k1", Attribute::Int(at1 as i128)));
    ck("use", w.r#use(c).to_bits() == at0.to_bits())?;
    ck("k1", w.k1(c) == at1)?;
    let rg: Vec<RegionRef> = vec![g0, g2];
    let sc: Vec<BlockRef> = vec![g1];
    shape(c, op, "wide_op_59", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("fn", w.r#fn(c) == o3)?;
    ck("lhs4", w.lhs4(c) == o4)?;
    ck("in_5", w.in_5(c) == o5)?;
    ck("tail", w.tail(c) == tail)?;
    ck("g0", w.g0(c) == g0)?;
    ck("s1", w.s1(c) == g1)?;
    ck("g2", w.g2(c) == g2)?;
    ck("from_op", vpg::WideOp59::from_op(c, op).ok() == Some(w) && vpg::WideOp59::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::WideOp59 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::WideOp59 as DialectOp>::OP_NAME == "wide_op_59")?;
    Ok(Some(op)) }
fn op_60(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let w = vpg::match_60(&mut e.c, e.loc, t0, t1);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "match_60", &all, &rt, &want, &rg, &sc)?;
    ck("r0", w.r0(c) == c.op_result(op, 0) && w.r0_ty(c) == t0)?;
    ck("r1", w.r1(c) == c.op_result(op, 1) && w.r1_ty(c) == t1)?;
    ck("from_op", vpg::Match60::from_op(c, op).ok() == Some(w) && vpg::Match60::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Match60 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Match60 as DialectOp>::OP_NAME == "match_60")?;
    Ok(Some(op)) }
fn op_61(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let at0 = opt(t, e, v_i64);
    let at1 = v_u32(t, e);
    let at2 = v_any(t, e);
    let at3 = v_qualifiedname(t, e);
    let w = vpg::let_61(&mut e.c, e.loc, t0, at0.clone(), at1.clone(), at2.clone(), at3.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("a0name", Attribute::Int(x as i128))); }
    want.push(("k1", Attribute::Int(at1 as i128)));
    want.push(("k2", at2.clone()));
    want.push(("use", Attribute::Symbol(at3)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("k2", w.k2(c) == at2)?;
    ck("use", w.r#use(c) == at3)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "let_61", &all, &rt, &want, &rg, &sc)?;
    ck("res", w.res(c) == c.op_result(op, 0) && w.res_ty(c) == t0)?;
    ck("from_op", vpg::Let61::from_op(c, op).ok() == Some(w) && vpg::Let61::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Let61 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Let61 as DialectOp>::OP_NAME == "let_61")?;
    Ok(Some(op)) }
fn op_62(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let outs = e.tys(t);
    let at0 = opt(t, e, v_u64);
    let at1 = v_f64(t, e);
    let at2 = opt(t, e, v_type);
    let at3 = v_any(t, e);
    let at4 = opt(t, e, v_f32);
    let at5 = v_bytes(t, e);
    let at6 = v_any(t, e);
    let at7 = opt(t, e, v_type);
    let at8 = opt(t, e, v_u32);
    let w = vpg::yield_62(&mut e.c, e.loc, outs.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone(), at6.clone(), at7.clone(), at8.clone());
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![];
    let rt: Vec<TypeRef> = outs.clone();
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("type", Attribute::Int(x as i128))); }
    want.push(("a1name", Attribute::FloatBits(at1.to_bits())));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::Type(x))); }
    want.push(("where", at3.clone()));
    if let Some(x) = &at4 { let x = x.clone(); want.push(("k4", Attribute::FloatBits((x as f64).to_bits()))); }
    want.push(("key_5", Attribute::Bytes(at5.clone())));
    want.push(("key_6", at6.clone()));
    if let Some(x) = &at7 { let x = x.clone(); want.push(("k7", Attribute::Type(x))); }
    if let Some(x) = &at8 { let x = x.clone(); want.push(("a8name", Attribute::Int(x as i128))); }
    ck("type", w.r#type(c) == at0)?;
    ck("a1name", w.a1name(c).to_bits() == at1.to_bits())?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("where", w.r#where(c) == at3)?;
    ck("k4", w.k4(c).map(|x| x.to_bits()) == at4.map(|x| x.to_bits()))?;
    ck("key_5", w.key_5(c) == at5)?;
    ck("key_6", w.key_6(c) == at6)?;
    ck("k7", w.k7(c) == at7)?;
    ck("a8name", w.a8name(c) == at8)?;
    let rg: Vec<RegionRef> = vec![];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "yield_62", &all, &rt, &want, &rg, &sc)?;
    ck("outs", w.outs(c) == c.op_results(op))?;
    ck("from_op", vpg::Yield62::from_op(c, op).ok() == Some(w) && vpg::Yield62::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::Yield62 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::Yield62 as DialectOp>::OP_NAME == "yield_62")?;
    Ok(Some(op)) }
fn op_63(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let o0 = e.v(t);
    let o1 = e.v(t);
    let o2 = e.v(t);
    let o3 = e.v(t);
    let o4 = e.v(t);
    let o5 = e.v(t);
    let tail = e.vs(t);
    let g0 = b::region(&mut e.c, &[]);
    let w = vpg::xx_op_63(&mut e.c, e.loc, o0, o1, o2, o3, o4, o5, tail.clone(), g0);
    let c = &e.c; let op = w.op_ref();
    let mut all: Vec<ValueRef> = vec![o0, o1, o2, o3, o4, o5];
    all.extend(&tail);
    let rt: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    let rg: Vec<RegionRef> = vec![g0];
    let sc: Vec<BlockRef> = vec![];
    shape(c, op, "xx_op_63", &all, &rt, &want, &rg, &sc)?;
    ck("in_0", w.in_0(c) == o0)?;
    ck("in_1", w.in_1(c) == o1)?;
    ck("in_2", w.in_2(c) == o2)?;
    ck("in_3", w.in_3(c) == o3)?;
    ck("lhs4", w.lhs4(c) == o4)?;
    ck("x5", w.x5(c) == o5)?;
    ck("tail", w.tail(c) == tail)?;
    ck("g0", w.g0(c) == g0)?;
    ck("from_op", vpg::XxOp63::from_op(c, op).ok() == Some(w) && vpg::XxOp63::matches(c, op) && DialectOp::op_ref(&w) == op)?;
    ck("names", <vpg::XxOp63 as DialectOp>::DIALECT_NAME == "vpg" && <vpg::XxOp63 as DialectOp>::OP_NAME == "xx_op_63")?;
    Ok(Some(op)) }
fn ty_0(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let w = vpg::two_words(&mut e.c, t0, t1);
    let again = vpg::two_words(&mut e.c, t0, t1);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "two_words", &all, &want)?;
    ck("P0", w.p0(c) == t0)?;
    ck("KeyType", w.key_type(c) == t1)?;
    ck("from_type_ref", vpg::TwoWords::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::TwoWords::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_1(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let tail = e.tys(t);
    let at0 = opt(t, e, v_any);
    let at1 = v_qualifiedname(t, e);
    let at2 = opt(t, e, v_symbol);
    let w = vpg::cell(&mut e.c, tail.clone(), at0.clone(), at1.clone(), at2.clone());
    let again = vpg::cell(&mut e.c, tail.clone(), at0.clone(), at1.clone(), at2.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", x.clone())); }
    want.push(("k1", Attribute::Symbol(at1)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("k2", Attribute::Symbol(x))); }
    ck("k0", w.k0(c) == at0)?;
    ck("k1", w.k1(c) == at1)?;
    ck("k2", w.k2(c) == at2)?;
    tshape(c, ty, "cell", &all, &want)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::Cell::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::Cell::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_2(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let tail = e.tys(t);
    let at0 = v_qualifiedname(t, e);
    let at1 = v_u32(t, e);
    let at2 = opt(t, e, v_f64);
    let at3 = v_f64(t, e);
    let at4 = v_qualifiedname(t, e);
    let at5 = v_bool(t, e);
    let w = vpg::r#box(&mut e.c, t0, t1, t2, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone());
    let again = vpg::r#box(&mut e.c, t0, t1, t2, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Symbol(at0)));
    want.push(("a1name", Attribute::Int(at1 as i128)));
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::FloatBits(x.to_bits()))); }
    want.push(("a3name", Attribute::FloatBits(at3.to_bits())));
    want.push(("key_4", Attribute::Symbol(at4)));
    want.push(("key_5", Attribute::Bool(at5)));
    ck("key_0", w.key_0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("a2name", w.a2name(c).map(|x| x.to_bits()) == at2.map(|x| x.to_bits()))?;
    ck("a3name", w.a3name(c).to_bits() == at3.to_bits())?;
    ck("key_4", w.key_4(c) == at4)?;
    ck("key_5", w.key_5(c) == at5)?;
    tshape(c, ty, "box", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("P1", w.p1(c) == t1)?;
    ck("Q2", w.q2(c) == t2)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::Box::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::Box::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_3(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = opt(t, e, v_string);
    let at1 = v_u32(t, e);
    let at2 = v_type(t, e);
    let w = vpg::r#ref(&mut e.c, t0, t1, t2, at0.clone(), at1.clone(), at2.clone());
    let again = vpg::r#ref(&mut e.c, t0, t1, t2, at0.clone(), at1.clone(), at2.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", Attribute::String(x.clone()))); }
    want.push(("a1name", Attribute::Int(at1 as i128)));
    want.push(("k2", Attribute::Type(at2)));
    ck("k0", w.k0(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("k2", w.k2(c) == at2)?;
    tshape(c, ty, "ref", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("KeyType", w.key_type(c) == t1)?;
    ck("First", w.first(c) == t2)?;
    ck("from_type_ref", vpg::Ref::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::Ref::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_4(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let w = vpg::ref_v4x(&mut e.c, t0);
    let again = vpg::ref_v4x(&mut e.c, t0);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "ref_v4x", &all, &want)?;
    ck("Q0", w.q0(c) == t0)?;
    ck("from_type_ref", vpg::RefV4x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::RefV4x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_5(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let w = vpg::box_v5x(&mut e.c, t0, t1);
    let again = vpg::box_v5x(&mut e.c, t0, t1);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "box_v5x", &all, &want)?;
    ck("P0", w.p0(c) == t0)?;
    ck("P1", w.p1(c) == t1)?;
    ck("from_type_ref", vpg::BoxV5x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::BoxV5x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_6(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let tail = e.tys(t);
    let at0 = opt(t, e, v_f64);
    let at1 = opt(t, e, v_f64);
    let at2 = opt(t, e, v_u64);
    let at3 = v_string(t, e);
    let at4 = v_i64(t, e);
    let at5 = v_qualifiedname(t, e);
    let w = vpg::box_v6x(&mut e.c, t0, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone());
    let again = vpg::box_v6x(&mut e.c, t0, tail.clone(), at0.clone(), at1.clone(), at2.clone(), at3.clone(), at4.clone(), at5.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("k0", Attribute::FloatBits(x.to_bits()))); }
    if let Some(x) = &at1 { let x = x.clone(); want.push(("k1", Attribute::FloatBits(x.to_bits()))); }
    if let Some(x) = &at2 { let x = x.clone(); want.push(("a2name", Attribute::Int(x as i128))); }
    want.push(("ref", Attribute::String(at3.clone())));
    want.push(("key_4", Attribute::Int(at4 as i128)));
    want.push(("in", Attribute::Symbol(at5)));
    ck("k0", w.k0(c).map(|x| x.to_bits()) == at0.map(|x| x.to_bits()))?;
    ck("k1", w.k1(c).map(|x| x.to_bits()) == at1.map(|x| x.to_bits()))?;
    ck("a2name", w.a2name(c) == at2)?;
    ck("ref", w.r#ref(c) == at3)?;
    ck("key_4", w.key_4(c) == at4)?;
    ck("in", w.r#in(c) == at5)?;
    tshape(c, ty, "box_v6x", &all, &want)?;
    ck("First", w.first(c) == t0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::BoxV6x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::BoxV6x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_7(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = v_qualifiedname(t, e);
    let at1 = opt(t, e, v_u32);
    let at2 = v_f64(t, e);
    let w = vpg::two_words_v7x(&mut e.c, t0, t1, t2, at0.clone(), at1.clone(), at2.clone());
    let again = vpg::two_words_v7x(&mut e.c, t0, t1, t2, at0.clone(), at1.clone(), at2.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("key_0", Attribute::Symbol(at0)));
    if let Some(x) = &at1 { let x = x.clone(); want.push(("move", Attribute::Int(x as i128))); }
    want.push(("key_2", Attribute::FloatBits(at2.to_bits())));
    ck("key_0", w.key_0(c) == at0)?;
    ck("move", w.r#move(c) == at1)?;
    ck("key_2", w.key_2(c).to_bits() == at2.to_bits())?;
    tshape(c, ty, "two_words_v7x", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("P1", w.p1(c) == t1)?;
    ck("KeyType", w.key_type(c) == t2)?;
    ck("from_type_ref", vpg::TwoWordsV7x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::TwoWordsV7x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_8(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let at0 = opt(t, e, v_type);
    let w = vpg::box_v8x(&mut e.c, t0, at0.clone());
    let again = vpg::box_v8x(&mut e.c, t0, at0.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("key_0", Attribute::Type(x))); }
    ck("key_0", w.key_0(c) == at0)?;
    tshape(c, ty, "box_v8x", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("from_type_ref", vpg::BoxV8x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::BoxV8x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_9(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let w = vpg::long_type_name(&mut e.c, t0, t1, t2, t3, t4);
    let again = vpg::long_type_name(&mut e.c, t0, t1, t2, t3, t4);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "long_type_name", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("In", w.r#in(c) == t1)?;
    ck("P2", w.p2(c) == t2)?;
    ck("P3", w.p3(c) == t3)?;
    ck("First", w.first(c) == t4)?;
    ck("from_type_ref", vpg::LongTypeName::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::LongTypeName::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_10(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let at0 = v_u32(t, e);
    let w = vpg::ref_v10x(&mut e.c, t0, t1, at0.clone());
    let again = vpg::ref_v10x(&mut e.c, t0, t1, at0.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("k0", Attribute::Int(at0 as i128)));
    ck("k0", w.k0(c) == at0)?;
    tshape(c, ty, "ref_v10x", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("Q1", w.q1(c) == t1)?;
    ck("from_type_ref", vpg::RefV10x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::RefV10x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_11(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let tail = e.tys(t);
    let w = vpg::cell_v11x(&mut e.c, t0, t1, tail.clone());
    let again = vpg::cell_v11x(&mut e.c, t0, t1, tail.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "cell_v11x", &all, &want)?;
    ck("First", w.first(c) == t0)?;
    ck("Q1", w.q1(c) == t1)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::CellV11x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::CellV11x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_12(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let w = vpg::two_words_v12x(&mut e.c, t0);
    let again = vpg::two_words_v12x(&mut e.c, t0);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "two_words_v12x", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("from_type_ref", vpg::TwoWordsV12x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::TwoWordsV12x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_13(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let w = vpg::two_words_v13x(&mut e.c, t0, t1, t2);
    let again = vpg::two_words_v13x(&mut e.c, t0, t1, t2);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "two_words_v13x", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("Q1", w.q1(c) == t1)?;
    ck("Q2", w.q2(c) == t2)?;
    ck("from_type_ref", vpg::TwoWordsV13x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::TwoWordsV13x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_14(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let w = vpg::box_v14x(&mut e.c, t0, t1, t2, t3, t4);
    let again = vpg::box_v14x(&mut e.c, t0, t1, t2, t3, t4);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "box_v14x", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("In", w.r#in(c) == t1)?;
    ck("P2", w.p2(c) == t2)?;
    ck("P3", w.p3(c) == t3)?;
    ck("Q4", w.q4(c) == t4)?;
    ck("from_type_ref", vpg::BoxV14x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::BoxV14x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_15(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = v_string(t, e);
    let w = vpg::box_v15x(&mut e.c, t0, t1, t2, at0.clone());
    let again = vpg::box_v15x(&mut e.c, t0, t1, t2, at0.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("k0", Attribute::String(at0.clone())));
    ck("k0", w.k0(c) == at0)?;
    tshape(c, ty, "box_v15x", &all, &want)?;
    ck("First", w.first(c) == t0)?;
    ck("Q1", w.q1(c) == t1)?;
    ck("P2", w.p2(c) == t2)?;
    ck("from_type_ref", vpg::BoxV15x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::BoxV15x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_16(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let at0 = v_bool(t, e);
    let at1 = v_symbol(t, e);
    let at2 = v_f32(t, e);
    let w = vpg::cell_v16x(&mut e.c, t0, t1, t2, at0.clone(), at1.clone(), at2.clone());
    let again = vpg::cell_v16x(&mut e.c, t0, t1, t2, at0.clone(), at1.clone(), at2.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Bool(at0)));
    want.push(("key_1", Attribute::Symbol(at1)));
    want.push(("key_2", Attribute::FloatBits((at2 as f64).to_bits())));
    ck("a0name", w.a0name(c) == at0)?;
    ck("key_1", w.key_1(c) == at1)?;
    ck("key_2", w.key_2(c).to_bits() == at2.to_bits())?;
    tshape(c, ty, "cell_v16x", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("P1", w.p1(c) == t1)?;
    ck("P2", w.p2(c) == t2)?;
    ck("from_type_ref", vpg::CellV16x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::CellV16x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_17(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let w = vpg::long_type_name_v17x(&mut e.c, t0, t1, t2);
    let again = vpg::long_type_name_v17x(&mut e.c, t0, t1, t2);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "long_type_name_v17x", &all, &want)?;
    ck("First", w.first(c) == t0)?;
    ck("In", w.r#in(c) == t1)?;
    ck("KeyType", w.key_type(c) == t2)?;
    ck("from_type_ref", vpg::LongTypeNameV17x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::LongTypeNameV17x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_18(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let tail = e.tys(t);
    let w = vpg::cell_v18x(&mut e.c, t0, t1, t2, t3, t4, tail.clone());
    let again = vpg::cell_v18x(&mut e.c, t0, t1, t2, t3, t4, tail.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "cell_v18x", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("First", w.first(c) == t1)?;
    ck("Q2", w.q2(c) == t2)?;
    ck("P3", w.p3(c) == t3)?;
    ck("P4", w.p4(c) == t4)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::CellV18x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::CellV18x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_19(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let at0 = opt(t, e, v_any);
    let w = vpg::cell_v19x(&mut e.c, t0, at0.clone());
    let again = vpg::cell_v19x(&mut e.c, t0, at0.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("fn", x.clone())); }
    ck("fn", w.r#fn(c) == at0)?;
    tshape(c, ty, "cell_v19x", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("from_type_ref", vpg::CellV19x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::CellV19x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_20(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let at0 = opt(t, e, v_type);
    let w = vpg::ref_v20x(&mut e.c, t0, t1, t2, t3, t4, at0.clone());
    let again = vpg::ref_v20x(&mut e.c, t0, t1, t2, t3, t4, at0.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("key_0", Attribute::Type(x))); }
    ck("key_0", w.key_0(c) == at0)?;
    tshape(c, ty, "ref_v20x", &all, &want)?;
    ck("In", w.r#in(c) == t0)?;
    ck("KeyType", w.key_type(c) == t1)?;
    ck("P2", w.p2(c) == t2)?;
    ck("P3", w.p3(c) == t3)?;
    ck("P4", w.p4(c) == t4)?;
    ck("from_type_ref", vpg::RefV20x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::RefV20x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_21(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let at0 = v_i32(t, e);
    let w = vpg::long_type_name_v21x(&mut e.c, t0, t1, at0.clone());
    let again = vpg::long_type_name_v21x(&mut e.c, t0, t1, at0.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1];
    let mut want: Vec<(&str, Attribute)> = vec![];
    want.push(("a0name", Attribute::Int(at0 as i128)));
    ck("a0name", w.a0name(c) == at0)?;
    tshape(c, ty, "long_type_name_v21x", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("Q1", w.q1(c) == t1)?;
    ck("from_type_ref", vpg::LongTypeNameV21x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::LongTypeNameV21x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_22(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let tail = e.tys(t);
    let w = vpg::tt(&mut e.c, t0, tail.clone());
    let again = vpg::tt(&mut e.c, t0, tail.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "tt", &all, &want)?;
    ck("KeyType", w.key_type(c) == t0)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::Tt::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::Tt::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_23(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let w = vpg::ref_v23x(&mut e.c);
    let again = vpg::ref_v23x(&mut e.c);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "ref_v23x", &all, &want)?;
    ck("from_type_ref", vpg::RefV23x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::RefV23x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_24(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let t0 = e.ty(t);
    let t1 = e.ty(t);
    let t2 = e.ty(t);
    let t3 = e.ty(t);
    let t4 = e.ty(t);
    let w = vpg::long_type_name_v24x(&mut e.c, t0, t1, t2, t3, t4);
    let again = vpg::long_type_name_v24x(&mut e.c, t0, t1, t2, t3, t4);
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![t0, t1, t2, t3, t4];
    let mut want: Vec<(&str, Attribute)> = vec![];
    tshape(c, ty, "long_type_name_v24x", &all, &want)?;
    ck("Q0", w.q0(c) == t0)?;
    ck("Q1", w.q1(c) == t1)?;
    ck("First", w.first(c) == t2)?;
    ck("P3", w.p3(c) == t3)?;
    ck("KeyType", w.key_type(c) == t4)?;
    ck("from_type_ref", vpg::LongTypeNameV24x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::LongTypeNameV24x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
fn ty_25(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {
    let tail = e.tys(t);
    let at0 = opt(t, e, v_string);
    let at1 = opt(t, e, v_i64);
    let at2 = v_qualifiedname(t, e);
    let w = vpg::cell_v25x(&mut e.c, tail.clone(), at0.clone(), at1.clone(), at2.clone());
    let again = vpg::cell_v25x(&mut e.c, tail.clone(), at0.clone(), at1.clone(), at2.clone());
    let c = &e.c; let ty = w.as_type_ref();
    let mut all: Vec<TypeRef> = vec![];
    all.extend(&tail);
    let mut want: Vec<(&str, Attribute)> = vec![];
    if let Some(x) = &at0 { let x = x.clone(); want.push(("a0name", Attribute::String(x.clone()))); }
    if let Some(x) = &at1 { let x = x.clone(); want.push(("a1name", Attribute::Int(x as i128))); }
    want.push(("a2name", Attribute::Symbol(at2)));
    ck("a0name", w.a0name(c) == at0)?;
    ck("a1name", w.a1name(c) == at1)?;
    ck("a2name", w.a2name(c) == at2)?;
    tshape(c, ty, "cell_v25x", &all, &want)?;
    ck("tail", w.tail(c) == tail)?;
    ck("from_type_ref", vpg::CellV25x::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;
    let ts = e.ts.clone(); for x in ts { ck("refuses", vpg::CellV25x::from_type_ref(&e.c, x).is_none())?; }
    Ok(None) }
pub const DRIVERS: &[(&str, fn(&mut Tape, &mut Env) -> Result<Option<OpRef>, String>)] = &[(r##"#[attr(a0name?: i32)] fn r#yield(r#use: (), #[rest] tail: ()) { #[successor(s0)] {} }"##, op_0), (r##"fn wide_op(lhs0: (), #[rest] tail: ()) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_1), (r##"#[attr(r#in: String, k1?: Symbol)] fn load_2() -> res { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_2), (r##"fn wide_op_3(lhs0: (), in_1: (), in_2: (), x3: (), #[rest] tail: ()) -> out_value {  }"##, op_3), (r##"#[attr(r#in: Symbol, key_1?: f32)] fn do_it_now(in_0: (), x1: (), r#if: (), in_3: ()) -> res { #[successor(s0)] {} #[successor(s1)] {} }"##, op_4), (r##"#[rest_results] #[attr(k0: u64, a1name: u64, a2name?: Type, a3name?: bool, key_4?: u32, key_5?: Type, key_6: f64, key_7: f32, key_8: i64)] fn wide_op_5() -> outs {  }"##, op_5), (r##"#[attr(r#if: Symbol)] fn xx_op(r#where: ()) -> res { #[successor(s0)] {} #[region(g1)] {} }"##, op_6), (r##"#[attr(k0?: u32, k1?: bool)] fn copy(lhs0: (), in_1: (), in_2: ()) {  }"##, op_7), (r##"#[attr(k0?: Type, key_1: u64, r#in: Bytes, a3name?: bool)] fn copy_8(r#fn: (), x1: (), lhs2: (), lhs3: (), #[rest] tail: ()) -> (r0, r1, r2, r3, r4) {  }"##, op_8), (r##"#[attr(a0name?: i64, k1: any, a2name?: any, k3: f64, k4?: Type, k5: any, key_6?: Symbol, key_7: Bytes, key_8?: i32)] fn yield_9(lhs0: ()) -> (r0, r1) {  }"##, op_9), (r##"#[attr(key_0: i32, k1: any)] fn r#let(lhs0: (), #[rest] tail: ()) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_10), (r##"#[attr(a0name: i64, k1?: any, a2name?: Bytes, key_3: u32)] fn r#match(lhs0: (), in_1: (), x2: (), x3: (), x4: (), in_5: (), #[rest] tail: ()) -> out_value { #[region(g0)] {} #[region(g1)] {} #[successor(s2)] {} #[region(g3)] {} #[successor(s4)] {} #[region(g5)] {} }"##, op_11), (r##"#[attr(a0name: String, r#loop: bool, k2: any, k3?: Symbol, a4name?: QualifiedName, a5name: any, r#use?: u32, k7: String, r#in: Symbol)] #[rest_results] fn yield_12(x0: (), in_1: ()) -> outs { #[region(g0)] {} #[successor(s1)] {} }"##, op_12), (r##"#[attr(r#match: u32)] #[rest_results] fn let_13(in_0: (), x1: (), x2: (), in_3: ()) -> outs { #[successor(s0)] {} #[region(g1)] {} #[region(g2)] {} }"##, op_13), (r##"#[attr(a0name: i64, a1name: f64)] #[rest_results] fn xx_op_14(x0: (), x1: ()) -> outs {  }"##, op_14), (r##"#[attr(key_0: f64)] fn yield_15() {  }"##, op_15), (r##"#[attr(a0name: u64, a1name: Symbol)] fn do_it_now_16(r#match: (), x1: (), r#ref: (), r#loop: ()) -> (r0, r1, r2) { #[successor(s0)] {} }"##, op_16), (r##"#[attr(r#ref?: u32, r#in: f32, key_2: u64, k3: u32, k4?: i64, key_5: String, key_6: QualifiedName, key_7: u64, r#type: String)] fn wide_op_17(in_0: (), in_1: (), #[rest] tail: ()) {  }"##, op_17), (r##"#[rest_results] #[attr(key_0: u64, k1?: Bytes, k2: f32, k3?: QualifiedName)] fn let_18(r#if: ()) -> outs { #[successor(s0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_18), (r##"fn wide_op_19(lhs0: (), lhs1: (), in_2: (), r#loop: (), in_4: (), r#fn: ()) -> (r0, r1, r2, r3, r4) {  }"##, op_19), (r##"#[attr(a0name?: String, k1?: i32)] fn do_it_now_20(r#if: (), #[rest] tail: ()) {  }"##, op_20), (r##"#[attr(key_0?: Bytes)] #[rest_results] fn match_21(r#ref: (), x1: (), lhs2: (), x3: (), #[rest] tail: ()) -> outs { #[region(g0)] {} #[region(g1)] {} }"##, op_21), (r##"fn xx_op_22(x0: (), lhs1: (), lhs2: (), lhs3: ()) -> result {  }"##, op_22), (r##"#[attr(a0name: u64, key_1?: any, a2name: Type, key_3?: QualifiedName, k4: QualifiedName, a5name?: u64, a6name?: Symbol, k7?: u64, k8: QualifiedName)] fn xx_op_23(r#move: (), lhs1: (), r#use: (), in_3: (), in_4: (), lhs5: (), #[rest] tail: ()) { #[successor(s0)] {} }"##, op_23), (r##"fn do_it_now_24(lhs0: (), x1: (), x2: ()) -> (r0, r1, r2, r3, r4, r5, r6) { #[successor(s0)] {} #[successor(s1)] {} #[successor(s2)] {} #[region(g3)] {} #[region(g4)] {} #[region(g5)] {} }"##, op_24), (r##"#[attr(k0: u32, key_1?: i64, r#move: f64, k3: f64, key_4?: any, key_5?: u32, a6name?: f32, r#if: Symbol, k8: bool)] fn wide_op_25(in_0: ()) -> out_value {  }"##, op_25), (r##"fn wide_op_26() -> (r0, r1, r2) {  }"##, op_26), (r##"fn match_27(in_0: (), lhs1: (), lhs2: (), lhs3: (), #[rest] tail: ()) { #[successor(s0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_27), (r##"#[attr(key_0: QualifiedName, k1: i32)] fn do_it_now_28(x0: (), in_1: (), in_2: (), #[rest] tail: ()) -> (r0, r1, r2, r3, r4) {  }"##, op_28), (r##"#[attr(key_0: u32)] fn let_29(in_0: (), lhs1: (), x2: (), lhs3: (), #[rest] tail: ()) {  }"##, op_29), (r##"#[attr(a0name: u32, r#match?: QualifiedName, key_2: bool, r#if: any, a4name: i32, a5name: Type, k6?: i64, a7name?: Bytes, key_8?: any)] fn match_30(in_0: (), x1: (), lhs2: ()) -> (r0, r1, r2) {  }"##, op_30), (r##"#[attr(a0name: any, r#in?: Symbol, key_2?: Symbol, r#use?: Type, key_4: u32, k5: bool, a6name: bool, r#move: QualifiedName, key_8?: f64)] fn copy_31(lhs0: (), #[rest] tail: ()) -> (r0, r1, r2) {  }"##, op_31), (r##"fn load_2_32(in_0: (), in_1: (), in_2: (), #[rest] tail: ()) { #[region(g0)] {} }"##, op_32), (r##"#[attr(k0: Type, a1name?: Symbol, r#if?: bool, k3: Bytes)] fn do_it_now_33(in_0: (), #[rest] tail: ()) {  }"##, op_33), (r##"#[attr(a0name: u64, key_1: f32, k2?: u64, r#if: i32, k4?: any, key_5?: Bytes, key_6: Type, key_7: Type, k8?: QualifiedName)] fn xx_op_34(in_0: (), x1: (), in_2: ()) -> result { #[successor(s0)] {} #[region(g1)] {} #[successor(s2)] {} #[region(g3)] {} #[successor(s4)] {} #[region(g5)] {} }"##, op_34), (r##"#[attr(a0name?: u64)] fn copy_35(r#where: (), in_1: (), #[rest] tail: ()) -> (r0, r1) {  }"##, op_35), (r##"#[rest_results] fn copy_36(lhs0: (), x1: (), r#match: (), r#move: (), in_4: (), in_5: ()) -> outs { #[region(g0)] {} }"##, op_36), (r##"fn copy_37(x0: (), in_1: (), in_2: (), lhs3: (), r#match: (), x5: (), #[rest] tail: ()) -> res { #[region(g0)] {} #[successor(s1)] {} #[successor(s2)] {} }"##, op_37), (r##"#[rest_results] fn xx_op_38(in_0: (), x1: (), r#move: ()) -> outs {  }"##, op_38), (r##"#[attr(key_0: u32, k1?: i64, a2name?: i32, k3: u32)] fn xx_op_39(x0: (), lhs1: (), in_2: ()) -> (r0, r1, r2, r3, r4) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_39), (r##"#[attr(r#ref?: bool)] fn wide_op_40() -> res {  }"##, op_40), (r##"#[attr(a0name: i32, a1name: u32, r#fn?: u32, k3: QualifiedName)] fn load_2_41(#[rest] tail: ()) -> res {  }"##, op_41), (r##"#[attr(k0: any, a1name?: String)] fn copy_42(lhs0: (), x1: ()) {  }"##, op_42), (r##"#[attr(r#fn: f64, k1: f64)] fn xx_op_43(in_0: (), in_1: (), in_2: ()) -> (r0, r1, r2, r3, r4, r5, r6) {  }"##, op_43), (r##"#[rest_results] #[attr(key_0: i64, r#use?: any, k2: f32, k3?: u64)] fn match_44() -> outs {  }"##, op_44), (r##"fn wide_op_45(#[rest] tail: ()) -> res { #[region(g0)] {} #[successor(s1)] {} #[successor(s2)] {} #[region(g3)] {} #[successor(s4)] {} #[region(g5)] {} }"##, op_45), (r##"fn xx_op_46(in_0: (), x1: (), x2: (), x3: (), lhs4: (), in_5: ()) {  }"##, op_46), (r##"#[attr(k0?: Type, a1name: QualifiedName, a2name?: f64, key_3: i64, r#where: Type, a5name: Type, key_6: i32, r#if?: any, a8name: bool)] fn load_2_47() { #[region(g0)] {} #[region(g1)] {} #[successor(s2)] {} }"##, op_47), (r##"#[rest_results] #[attr(k0?: i32, a1name: i32, key_2?: any, k3: Bytes, k4: Symbol, k5?: Symbol, key_6?: String, key_7?: u64, k8?: bool)] fn wide_op_48() -> outs {  }"##, op_48), (r##"#[rest_results] fn match_49(in_0: ()) -> outs { #[successor(s0)] {} #[region(g1)] {} #[region(g2)] {} #[successor(s3)] {} #[successor(s4)] {} #[region(g5)] {} }"##, op_49), (r##"#[rest_results] fn do_it_now_50(in_0: (), in_1: (), in_2: (), x3: ()) -> outs {  }"##, op_50), (r##"#[attr(r#loop?: QualifiedName, a1name?: bool, r#match: bool, r#type: u64, r#fn: f64, a5name?: f32, key_6?: bool, k7: Type, k8: any)] fn copy_51(lhs0: (), lhs1: ()) -> (r0, r1) {  }"##, op_51), (r##"#[attr(a0name: i64, k1?: bool, k2?: any, r#where: u32)] #[rest_results] fn match_52(r#use: (), lhs1: ()) -> outs {  }"##, op_52), (r##"#[attr(key_0: Bytes, k1: Type, k2?: QualifiedName, r#fn: Bytes, key_4: u64, a5name: any, key_6?: u32, r#use?: u64, a8name?: i64)] #[rest_results] fn load_2_53(lhs0: (), lhs1: (), in_2: (), r#type: ()) -> outs { #[successor(s0)] {} #[region(g1)] {} #[successor(s2)] {} }"##, op_53), (r##"fn load_2_54(lhs0: (), lhs1: (), lhs2: ()) { #[region(g0)] {} }"##, op_54), (r##"fn do_it_now_55(lhs0: (), #[rest] tail: ()) -> result {  }"##, op_55), (r##"fn wide_op_56() -> res { #[region(g0)] {} #[region(g1)] {} #[region(g2)] {} }"##, op_56), (r##"#[rest_results] fn xx_op_57(r#in: (), x1: (), in_2: (), lhs3: (), x4: (), lhs5: ()) -> outs {  }"##, op_57), (r##"fn load_2_58(r#in: (), #[rest] tail: ()) -> (r0, r1, r2, r3, r4, r5, r6) {  }"##, op_58), (r##"#[attr(r#use: f32, k1: u32)] fn wide_op_59(in_0: (), in_1: (), in_2: (), r#fn: (), lhs4: (), in_5: (), #[rest] tail: ()) { #[region(g0)] {} #[successor(s1)] {} #[region(g2)] {} }"##, op_59), (r##"fn match_60() -> (r0, r1) {  }"##, op_60), (r##"#[attr(a0name?: i64, k1: u32, k2: any, r#use: QualifiedName)] fn let_61() -> res {  }"##, op_61), (r##"#[attr(r#type?: u64, a1name: f64, a2name?: Type, r#where: any, k4?: f32, key_5: Bytes, key_6: any, k7?: Type, a8name?: u32)] #[rest_results] fn yield_62() -> outs {  }"##, op_62), (r##"fn xx_op_63(in_0: (), in_1: (), in_2: (), in_3: (), lhs4: (), x5: (), #[rest] tail: ()) { #[region(g0)] {} }"##, op_63), (r##"struct TwoWords<P0, KeyType>;"##, ty_0), (r##"#[attr(k0?: any, k1: QualifiedName, k2?: Symbol)] struct Cell<#[rest] Tail>;"##, ty_1), (r##"#[attr(key_0: QualifiedName, a1name: u32, a2name?: f64, a3name: f64, key_4: QualifiedName, key_5: bool)] struct Box<In, P1, Q2, #[rest] Tail>;"##, ty_2), (r##"#[attr(k0?: String, a1name: u32, k2: Type)] struct Ref<In, KeyType, First>;"##, ty_3), (r##"struct RefV4x<Q0>;"##, ty_4), (r##"struct BoxV5x<P0, P1>;"##, ty_5), (r##"#[attr(k0?: f64, k1?: f64, a2name?: u64, r#ref: String, key_4: i64, r#in: QualifiedName)] struct BoxV6x<First, #[rest] Tail>;"##, ty_6), (r##"#[attr(key_0: QualifiedName, r#move?: u32, key_2: f64)] struct TwoWordsV7x<In, P1, KeyType>;"##, ty_7), (r##"#[attr(key_0?: Type)] struct BoxV8x<KeyType>;"##, ty_8), (r##"struct LongTypeName<KeyType, In, P2, P3, First>;"##, ty_9), (r##"#[attr(k0: u32)] struct RefV10x<In, Q1>;"##, ty_10), (r##"struct CellV11x<First, Q1, #[rest] Tail>;"##, ty_11), (r##"struct TwoWordsV12x<KeyType>;"##, ty_12), (r##"struct TwoWordsV13x<In, Q1, Q2>;"##, ty_13), (r##"struct BoxV14x<KeyType, In, P2, P3, Q4>;"##, ty_14), (r##"#[attr(k0: String)] struct BoxV15x<First, Q1, P2>;"##, ty_15), (r##"#[attr(a0name: bool, key_1: Symbol, key_2: f32)] struct CellV16x<In, P1, P2>;"##, ty_16), (r##"struct LongTypeNameV17x<First, In, KeyType>;"##, ty_17), (r##"struct CellV18x<KeyType, First, Q2, P3, P4, #[rest] Tail>;"##, ty_18), (r##"#[attr(r#fn?: any)] struct CellV19x<In>;"##, ty_19), (r##"#[attr(key_0?: Type)] struct RefV20x<In, KeyType, P2, P3, P4>;"##, ty_20), (r##"#[attr(a0name: i32)] struct LongTypeNameV21x<KeyType, Q1>;"##, ty_21), (r##"struct Tt<KeyType, #[rest] Tail>;"##, ty_22), (r##"struct RefV23x;"##, ty_23), (r##"struct LongTypeNameV24x<Q0, Q1, First, P3, KeyType>;"##, ty_24), (r##"#[attr(a0name?: String, a1name?: i64, a2name: QualifiedName)] struct CellV25x<#[rest] Tail>;"##, ty_25)];
/// how many of the wrappers accept the operation
pub fn accepted(c: &trunk_ir::context::IrContext, op: OpRef) -> usize { [vpg::Yield::from_op(c, op).is_ok(), vpg::WideOp::from_op(c, op).is_ok(), vpg::Load2::from_op(c, op).is_ok(), vpg::WideOp3::from_op(c, op).is_ok(), vpg::DoItNow::from_op(c, op).is_ok(), vpg::WideOp5::from_op(c, op).is_ok(), vpg::XxOp::from_op(c, op).is_ok(), vpg::Copy::from_op(c, op).is_ok(), vpg::Copy8::from_op(c, op).is_ok(), vpg::Yield9::from_op(c, op).is_ok(), vpg::Let::from_op(c, op).is_ok(), vpg::Match::from_op(c, op).is_ok(), vpg::Yield12::from_op(c, op).is_ok(), vpg::Let13::from_op(c, op).is_ok(), vpg::XxOp14::from_op(c, op).is_ok(), vpg::Yield15::from_op(c, op).is_ok(), vpg::DoItNow16::from_op(c, op).is_ok(), vpg::WideOp17::from_op(c, op).is_ok(), vpg::Let18::from_op(c, op).is_ok(), vpg::WideOp19::from_op(c, op).is_ok(), vpg::DoItNow20::from_op(c, op).is_ok(), vpg::Match21::from_op(c, op).is_ok(), vpg::XxOp22::from_op(c, op).is_ok(), vpg::XxOp23::from_op(c, op).is_ok(), vpg::DoItNow24::from_op(c, op).is_ok(), vpg::WideOp25::from_op(c, op).is_ok(), vpg::WideOp26::from_op(c, op).is_ok(), vpg::Match27::from_op(c, op).is_ok(), vpg::DoItNow28::from_op(c, op).is_ok(), vpg::Let29::from_op(c, op).is_ok(), vpg::Match30::from_op(c, op).is_ok(), vpg::Copy31::from_op(c, op).is_ok(), vpg::Load232::from_op(c, op).is_ok(), vpg::DoItNow33::from_op(c, op).is_ok(), vpg::XxOp34::from_op(c, op).is_ok(), vpg::Copy35::from_op(c, op).is_ok(), vpg::Copy36::from_op(c, op).is_ok(), vpg::Copy37::from_op(c, op).is_ok(), vpg::XxOp38::from_op(c, op).is_ok(), vpg::XxOp39::from_op(c, op).is_ok(), vpg::WideOp40::from_op(c, op).is_ok(), vpg::Load241::from_op(c, op).is_ok(), vpg::Copy42::from_op(c, op).is_ok(), vpg::XxOp43::from_op(c, op).is_ok(), vpg::Match44::from_op(c, op).is_ok(), vpg::WideOp45::from_op(c, op).is_ok(), vpg::XxOp46::from_op(c, op).is_ok(), vpg::Load247::from_op(c, op).is_ok(), vpg::WideOp48::from_op(c, op).is_ok(), vpg::Match49::from_op(c, op).is_ok(), vpg::DoItNow50::from_op(c, op).is_ok(), vpg::Copy51::from_op(c, op).is_ok(), vpg::Match52::from_op(c, op).is_ok(), vpg::Load253::from_op(c, op).is_ok(), vpg::Load254::from_op(c, op).is_ok(), vpg::DoItNow55::from_op(c, op).is_ok(), vpg::WideOp56::from_op(c, op).is_ok(), vpg::XxOp57::from_op(c, op).is_ok(), vpg::Load258::from_op(c, op).is_ok(), vpg::WideOp59::from_op(c, op).is_ok(), vpg::Match60::from_op(c, op).is_ok(), vpg::Let61::from_op(c, op).is_ok(), vpg::Yield62::from_op(c, op).is_ok(), vpg::XxOp63::from_op(c, op).is_ok()].iter().filter(|x| **x).count() }
pub fn accepted_type(c: &trunk_ir::context::IrContext, ty: TypeRef) -> usize { [vpg::TwoWords::from_type_ref(c, ty).is_some(), vpg::Cell::from_type_ref(c, ty).is_some(), vpg::Box::from_type_ref(c, ty).is_some(), vpg::Ref::from_type_ref(c, ty).is_some(), vpg::RefV4x::from_type_ref(c, ty).is_some(), vpg::BoxV5x::from_type_ref(c, ty).is_some(), vpg::BoxV6x::from_type_ref(c, ty).is_some(), vpg::TwoWordsV7x::from_type_ref(c, ty).is_some(), vpg::BoxV8x::from_type_ref(c, ty).is_some(), vpg::LongTypeName::from_type_ref(c, ty).is_some(), vpg::RefV10x::from_type_ref(c, ty).is_some(), vpg::CellV11x::from_type_ref(c, ty).is_some(), vpg::TwoWordsV12x::from_type_ref(c, ty).is_some(), vpg::TwoWordsV13x::from_type_ref(c, ty).is_some(), vpg::BoxV14x::from_type_ref(c, ty).is_some(), vpg::BoxV15x::from_type_ref(c, ty).is_some(), vpg::CellV16x::from_type_ref(c, ty).is_some(), vpg::LongTypeNameV17x::from_type_ref(c, ty).is_some(), vpg::CellV18x::from_type_ref(c, ty).is_some(), vpg::CellV19x::from_type_ref(c, ty).is_some(), vpg::RefV20x::from_type_ref(c, ty).is_some(), vpg::LongTypeNameV21x::from_type_ref(c, ty).is_some(), vpg::Tt::from_type_ref(c, ty).is_some(), vpg::RefV23x::from_type_ref(c, ty).is_some(), vpg::LongTypeNameV24x::from_type_ref(c, ty).is_some(), vpg::CellV25x::from_type_ref(c, ty).is_some()].iter().filter(|x| **x).count() }
