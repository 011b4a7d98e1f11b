//! Structured random generator of well-formed TrunkIR modules.
use crate::b::*;
use crate::interp::Val;
use engine::Tape;
use trunk_ir::context::*;
use trunk_ir::refs::*;
use trunk_ir::types::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum T {
    I1,
    I8,
    I16,
    I32,
    I64,
    F32,
    F64,
    Nil,
    /// index into the module's ADT table
    Adt(u8),
}
impl T {
    pub fn name(self) -> &'static str {
        match self {
            T::I1 => "i1",
            T::I8 => "i8",
            T::I16 => "i16",
            T::I32 => "i32",
            T::I64 => "i64",
            T::F32 => "f32",
            T::F64 => "f64",
            T::Nil => "nil",
            T::Adt(_) => "adt",
        }
    }
    pub fn width(self) -> Option<u32> {
        Some(match self {
            T::I1 => 1,
            T::I8 => 8,
            T::I16 => 16,
            T::I32 => 32,
            T::I64 => 64,
            _ => return None,
        })
    }
    pub fn is_int(self) -> bool {
        self.width().is_some_and(|w| w > 1)
    }
    pub fn is_float(self) -> bool {
        matches!(self, T::F32 | T::F64)
    }
}

#[derive(Clone, Debug)]
pub struct AdtDef {
    pub name: String,
    /// struct: one unnamed variant with tag None; enum: several.
    pub is_enum: bool,
    pub variants: Vec<(String, Vec<T>)>,
    pub repr: Repr,
}
/// How values of an ADT are typed in the IR.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Repr {
    /// the adt type itself
    Inline,
    /// adt.typeref (as the front end writes nominal types)
    Typeref,
    /// tribute_rt.anyref: reference counted in the native back end
    Anyref,
    /// values as tribute_rt.anyref, fields declared with the nominal type (adt.typeref)
    Owned,
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub scalars: Vec<T>,
    pub max_funcs: usize,
    pub max_stmts: usize,
    pub max_depth: usize,
    pub scf: bool,
    pub cf: bool,
    pub calls: bool,
    pub indirect: bool,
    pub externs: bool,
    pub tail_calls: bool,
    pub unrealized: bool,
    pub adt: bool,
    pub struct_set: bool,
    pub loops: bool,
    pub switches: bool,
    /// branches inside the regions of structured operations
    pub region_cf: bool,
    /// every scf.if has one result (core.nil where there is nothing to say)
    pub if_nil: bool,
    /// ADT values as results of scf.if and scf.loop
    pub adt_flow: bool,
    /// ADT values in function signatures
    pub adt_sig: bool,
    /// i1 fields
    pub i1_fields: bool,
    /// one loop-carried value, the loop ends in an if with break and continue (all the wasm back end accepts)
    pub simple_loops: bool,
    pub break_in_if: bool,
    pub const_bias: u32,
    pub dead_code: bool,
    pub raw_div: bool,
    pub recursion: bool,
    pub float_to_int: bool,
    pub narrow_casts: bool,
    pub returns_nil: bool,
    pub extern_attrs: bool,
    /// external functions carry an unreachable body (as the front end emits them)
    pub extern_body: bool,
    pub unreachable_blocks: bool,
    /// Only use values of dominators laid out earlier (text format needs it).
    pub layout_order: bool,
    pub private_attr: bool,
    /// widening conversions of i1 (the native type converter already widens i1 itself)
    pub i1_casts: bool,
    pub adt_repr: Repr,
    /// build ADT values by calling constructor functions
    pub adt_ctor: bool,
    /// sometimes many fields
    pub wide: bool,
    /// chains of casts of managed references
    pub ref_casts: bool,
    /// mostly operations on data
    pub heavy: bool,
    /// statements that read along a path of fields
    pub deep_reads: bool,
    /// some functions share the last component of their name
    pub paths: bool,
}

impl Cfg {
    pub fn base() -> Cfg {
        Cfg {
            scalars: vec![T::I32, T::I64, T::I1, T::I8, T::I16, T::F64, T::F32],
            max_funcs: 4,
            max_stmts: 12,
            max_depth: 3,
            scf: true,
            cf: true,
            calls: true,
            indirect: true,
            externs: true,
            tail_calls: true,
            unrealized: false,
            adt: false,
            struct_set: false,
            loops: true,
            switches: true,
            region_cf: false,
            if_nil: false,
            adt_flow: true,
            adt_sig: true,
            i1_fields: true,
            simple_loops: false,
            break_in_if: false,
            const_bias: 3,
            dead_code: true,
            raw_div: true,
            recursion: true,
            float_to_int: true,
            narrow_casts: true,
            returns_nil: true,
            extern_attrs: false,
            extern_body: false,
            unreachable_blocks: false,
            layout_order: true,
            private_attr: false,
            i1_casts: true,
            adt_repr: Repr::Inline,
            adt_ctor: false,
            wide: false,
            ref_casts: false,
            heavy: false,
            deep_reads: false,
            paths: false,
        }
    }
}

#[derive(Clone, Debug)]
pub struct Sig {
    pub name: String,
    pub params: Vec<T>,
    pub ret: T,
    pub external: bool,
    /// Function is recursive: first param is a depth counter.
    pub rec: bool,
}

pub struct Gen {
    pub ctx: IrContext,
    pub module: OpRef,
    pub sigs: Vec<Sig>,
    pub adts: Vec<AdtDef>,
    pub stats: Stats,
}
#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub ops: usize,
    pub ifs: usize,
    pub loops: usize,
    pub switches: usize,
    pub calls: usize,
    pub indirect: usize,
    pub externs: usize,
    pub cfg_funcs: usize,
    pub adt_ops: usize,
    pub consts: usize,
    pub casts: usize,
    pub tail: usize,
    pub rec: usize,
}

pub fn ty(ctx: &mut IrContext, adts: &[AdtDef], t: T) -> TypeRef {
    match t {
        T::Adt(i) => val_ty(ctx, adts, i as usize),
        _ => core(ctx, t.name()),
    }
}

pub fn adt_ty(ctx: &mut IrContext, adts: &[AdtDef], i: usize) -> TypeRef {
    let d = &adts[i];
    let mut b = TypeDataBuilder::new(sym("adt"), sym(if d.is_enum { "enum" } else { "struct" }));
    b = b.attr(sym("name"), Attribute::Symbol(sym(&d.name)));
    // Fields only mention strictly smaller ADT indices or themselves via typeref.
    if d.is_enum {
        let mut vs = vec![];
        for (n, fs) in &d.variants {
            let fts: Vec<Attribute> = fs.iter().map(|f| Attribute::Type(field_ty(ctx, adts, i, *f))).collect();
            vs.push(Attribute::List(vec![Attribute::Symbol(sym(n)), Attribute::List(fts)]));
        }
        b = b.attr(sym("variants"), Attribute::List(vs));
    } else {
        let fs = &d.variants[0].1;
        let mut l = vec![];
        for (k, f) in fs.iter().enumerate() {
            let ft = field_ty(ctx, adts, i, *f);
            l.push(Attribute::List(vec![Attribute::Symbol(sym(&format!("f{k}"))), Attribute::Type(ft)]));
        }
        b = b.attr(sym("fields"), Attribute::List(l));
    }
    ctx.types.intern(b.build())
}
pub fn val_ty(ctx: &mut IrContext, adts: &[AdtDef], i: usize) -> TypeRef {
    match adts[i].repr {
        Repr::Inline => adt_ty(ctx, adts, i),
        Repr::Typeref => ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("typeref")).attr(sym("name"), Attribute::Symbol(sym(&adts[i].name))).build()),
        Repr::Anyref | Repr::Owned => ctx.types.intern(TypeDataBuilder::new(sym("tribute_rt"), sym("anyref")).build()),
    }
}
pub fn field_ty(ctx: &mut IrContext, adts: &[AdtDef], me: usize, f: T) -> TypeRef {
    match f {
        T::Adt(j) if matches!(adts[j as usize].repr, Repr::Typeref | Repr::Anyref) => val_ty(ctx, adts, j as usize),
        T::Adt(j) if (j as usize) >= me || adts[j as usize].repr == Repr::Owned => ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("typeref")).attr(sym("name"), Attribute::Symbol(sym(&adts[j as usize].name))).build()),
        T::Adt(j) => adt_ty(ctx, adts, j as usize),
        _ => core(ctx, f.name()),
    }
}

pub const INTERESTING_F: [f64; 14] = [0.0, -0.0, 1.0, -1.0, 0.5, 2.0, 1e10, -3.75, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 4294967296.5, 1e-310, 123456789.125];

pub fn gen_val(t: &mut Tape, ty: T) -> Val {
    match ty {
        T::I1 => Val::I(t.bool() as i64),
        T::F32 => Val::F32(if t.chance(1, 3) { *t.pick(&INTERESTING_F) as f32 } else { t.range(-1000, 1000) as f32 * 0.25 }),
        T::F64 => Val::F64(if t.chance(1, 3) { *t.pick(&INTERESTING_F) } else { t.range(-100000, 100000) as f64 * 0.125 }),
        T::Nil => Val::Unit,
        T::Adt(_) => unreachable!(),
        _ => Val::I(crate::interp::norm(t.int_edge() as i128, ty.width().unwrap())),
    }
}

struct F<'a> {
    t: &'a mut Tape,
    ctx: &'a mut IrContext,
    cfg: &'a Cfg,
    sigs: &'a [Sig],
    adts: &'a [AdtDef],
    stats: &'a mut Stats,
    env: Vec<(ValueRef, T)>,
    me: usize,
    budget: usize,
    /// inside a loop: (types of loop args, result type, next counter value index)
    loops: Vec<LoopCx>,
    rec_used: bool,
}
#[derive(Clone)]
struct LoopCx {
    arg_tys: Vec<T>,
    res: Option<T>,
    counter_next: Option<ValueRef>,
}

pub fn const_attr(v: &Val) -> Attribute {
    match v {
        Val::I(x) => Attribute::Int(*x as i128),
        Val::F32(x) => Attribute::FloatBits(x.to_bits() as u64),
        Val::F64(x) => Attribute::FloatBits(x.to_bits()),
        _ => Attribute::Unit,
    }
}

impl<'a> F<'a> {
    fn ty(&mut self, t: T) -> TypeRef {
        ty(self.ctx, self.adts, t)
    }
    fn scalar(&mut self) -> T {
        *self.t.pick(&self.cfg.scalars.clone())
    }
    fn int_ty(&mut self) -> Option<T> {
        let v: Vec<T> = self.cfg.scalars.iter().copied().filter(|t| t.is_int()).collect();
        if v.is_empty() { None } else { Some(*self.t.pick(&v)) }
    }
    fn konst(&mut self, blk: BlockRef, v: &Val, t: T) -> ValueRef {
        self.stats.consts += 1;
        let tr = self.ty(t);
        let a = if t == T::I1 && self.t.chance(1, 2) {
            let Val::I(x) = v else { unreachable!() };
            Attribute::Bool(*x != 0)
        } else {
            const_attr(v)
        };
        put1(self.ctx, blk, "arith.const", &[], tr, &[("value", a)])
    }
    fn small_const(&mut self, blk: BlockRef, t: T) -> ValueRef {
        let v = if t.is_int() && self.t.chance(2, 3) {
            let x = *self.t.pick(&[0i64, 1, -1, 2, 3, 7, -2, 10]);
            Val::I(x)
        } else if t.is_int() && self.t.chance(1, 4) {
            let w = t.width().unwrap();
            let min = if w == 64 { i64::MIN } else { -(1i64 << (w - 1)) };
            let max = if w == 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 };
            Val::I(*self.t.pick(&[min, max]))
        } else {
            gen_val(self.t, t)
        };
        self.konst(blk, &v, t)
    }
    /// A value of type t, from the environment or fresh.
    fn val(&mut self, blk: BlockRef, t: T) -> ValueRef {
        let c: Vec<ValueRef> = self.env.iter().filter(|(_, x)| *x == t).map(|(v, _)| *v).collect();
        if !c.is_empty() && !self.t.chance(self.cfg.const_bias as u64, 10) {
            // bias to recent
            let i = if self.t.bool() { c.len() - 1 - self.t.idx(c.len().min(3)) } else { self.t.idx(c.len()) };
            return c[i];
        }
        match t {
            T::Adt(i) => self.new_adt(blk, i as usize, 2),
            T::Nil => {
                let tr = self.ty(T::Nil);
                put1(self.ctx, blk, "arith.const", &[], tr, &[("value", Attribute::Unit)])
            }
            _ => {
                let v = self.small_const(blk, t);
                if self.t.chance(1, 2) {
                    self.env.push((v, t));
                }
                v
            }
        }
    }
    fn new_adt(&mut self, blk: BlockRef, i: usize, depth: usize) -> ValueRef {
        self.stats.adt_ops += 1;
        let d = self.adts[i].clone();
        let tr = adt_ty(self.ctx, self.adts, i);
        let k = if d.is_enum {
            if depth == 0 { 0 } else { self.t.idx(d.variants.len()) }
        } else {
            0
        };
        let mut fs = vec![];
        for f in &d.variants[k].1 {
            let v = match f {
                T::Adt(j) => {
                    let c: Vec<ValueRef> = self.env.iter().filter(|(_, x)| x == f).map(|(v, _)| *v).collect();
                    if !c.is_empty() && self.t.chance(2, 3) {
                        *self.t.pick(&c)
                    } else {
                        self.new_adt(blk, *j as usize, depth.saturating_sub(1))
                    }
                }
                f => self.val(blk, *f),
            };
            fs.push(v);
        }
        let vr = self.ty(T::Adt(i as u8));
        let v = if self.cfg.adt_ctor {
            put1(self.ctx, blk, "func.call", &fs, vr, &[("callee", Attribute::Symbol(sym(&format!("mkA{i}V{k}"))))])
        } else if d.is_enum { put1(self.ctx, blk, "adt.variant_new", &fs, vr, &[("type", Attribute::Type(tr)), ("tag", Attribute::Symbol(sym(&d.variants[k].0)))]) } else { put1(self.ctx, blk, "adt.struct_new", &fs, vr, &[("type", Attribute::Type(tr))]) };
        self.env.push((v, T::Adt(i as u8)));
        v
    }
    fn push(&mut self, v: ValueRef, t: T) {
        self.stats.ops += 1;
        self.env.push((v, t));
    }
    fn i1(&mut self, blk: BlockRef) -> ValueRef {
        if self.t.chance(3, 4) {
            if let Some(t) = self.int_ty() {
                return self.cmpi(blk, t);
            }
        }
        self.val(blk, T::I1)
    }
    fn cmpi(&mut self, blk: BlockRef, t: T) -> ValueRef {
        let a = self.val(blk, t);
        let b = self.val(blk, t);
        let p = *self.t.pick(&["eq", "ne", "slt", "sle", "sgt", "sge", "ult", "ule", "ugt", "uge"]);
        let i1 = self.ty(T::I1);
        let v = put1(self.ctx, blk, "arith.cmpi", &[a, b], i1, &[("predicate", Attribute::Symbol(sym(p)))]);
        self.push(v, T::I1);
        v
    }

    fn stmt(&mut self, blk: BlockRef, depth: usize) {
        if self.budget == 0 {
            return;
        }
        self.budget -= 1;
        let c = self.cfg;
        let scf = c.scf && depth < c.max_depth;
        let ws = [
            10,                                                            // 0 int binop
            if c.scalars.iter().any(|t| t.is_float()) { 4 } else { 0 },    // 1 float binop
            4,                                                             // 2 cmp
            4,                                                             // 3 bitwise / shift
            3,                                                             // 4 conversions
            2,                                                             // 5 neg
            if scf { 5 } else { 0 },                                       // 6 if
            if scf && c.switches { 2 } else { 0 },                         // 7 switch
            if scf && c.loops { 3 } else { 0 },                            // 8 loop
            if c.calls { if c.heavy { 14 } else { 4 } } else { 0 },                                   // 9 call
            if c.externs { 3 } else { 0 },                                 // 10 extern
            if c.indirect { 2 } else { 0 },                                // 11 indirect
            if c.unrealized { 3 } else { 0 },                              // 12 unrealized
            if c.adt { if c.heavy { 60 } else { 10 } } else { 0 },                                    // 13 adt
            3,                                                             // 14 i1 logic
            2,                                                             // 15 const
        ];
        match self.t.weighted(&ws) {
            0 => {
                let Some(t) = self.int_ty() else { return };
                let tr = self.ty(t);
                let k = self.t.weighted(&[6, 6, 6, 2, 2, 2, 2]);
                let name = ["arith.addi", "arith.subi", "arith.muli", "arith.divsi", "arith.divui", "arith.remsi", "arith.remui"][k];
                let a = self.val(blk, t);
                let mut b = self.val(blk, t);
                if k >= 3 && (!c.raw_div || self.t.chance(4, 5)) {
                    let one = self.konst(blk, &Val::I(1), t);
                    b = put1(self.ctx, blk, "arith.or", &[b, one], tr, &[]);
                    if (k == 3 || k == 5) && self.t.chance(2, 3) {
                        // also avoid -1: clear the sign bit
                        let w = t.width().unwrap();
                        let m = if w == 64 { i64::MAX } else { (1i64 << (w - 1)) - 1 };
                        let mv = self.konst(blk, &Val::I(m), t);
                        b = put1(self.ctx, blk, "arith.and", &[b, mv], tr, &[]);
                    }
                }
                let v = put1(self.ctx, blk, name, &[a, b], tr, &[]);
                self.push(v, t);
            }
            1 => {
                let fs: Vec<T> = c.scalars.iter().copied().filter(|t| t.is_float()).collect();
                let t = *self.t.pick(&fs);
                let tr = self.ty(t);
                let name = *self.t.pick(&["arith.addf", "arith.subf", "arith.mulf", "arith.divf"]);
                let a = self.val(blk, t);
                let b = self.val(blk, t);
                let v = put1(self.ctx, blk, name, &[a, b], tr, &[]);
                self.push(v, t);
            }
            2 => {
                let fs: Vec<T> = c.scalars.iter().copied().filter(|t| t.is_float()).collect();
                if !fs.is_empty() && self.t.chance(1, 3) {
                    let t = *self.t.pick(&fs);
                    let a = self.val(blk, t);
                    let b = self.val(blk, t);
                    let p = *self.t.pick(&["oeq", "une", "olt", "ole", "ogt", "oge"]);
                    let i1 = self.ty(T::I1);
                    let v = put1(self.ctx, blk, "arith.cmpf", &[a, b], i1, &[("predicate", Attribute::Symbol(sym(p)))]);
                    self.push(v, T::I1);
                } else if let Some(t) = self.int_ty() {
                    self.cmpi(blk, t);
                }
            }
            3 => {
                let Some(t) = self.int_ty() else { return };
                let tr = self.ty(t);
                let name = *self.t.pick(&["arith.and", "arith.or", "arith.xor", "arith.shl", "arith.shr", "arith.shru"]);
                let a = self.val(blk, t);
                let v = if name.starts_with("arith.sh") {
                    let w = t.width().unwrap() as i64;
                    let amt = if self.t.bool() {
                        let k = self.t.range(0, w - 1);
                        self.konst(blk, &Val::I(k), t)
                    } else {
                        let b = self.val(blk, t);
                        let m = self.konst(blk, &Val::I(w - 1), t);
                        put1(self.ctx, blk, "arith.and", &[b, m], tr, &[])
                    };
                    put1(self.ctx, blk, name, &[a, amt], tr, &[])
                } else {
                    let b = self.val(blk, t);
                    put1(self.ctx, blk, name, &[a, b], tr, &[])
                };
                self.push(v, t);
            }
            4 => {
                if !c.narrow_casts {
                    // only i32<->i64, int<->float
                }
                let src = self.scalar();
                let dst = self.scalar();
                if src == dst || dst == T::I1 || src == T::Nil {
                    return;
                }
                if src == T::I1 && !c.i1_casts {
                    return;
                }
                let name = match (src, dst) {
                    (s, d) if s.width().is_some() && d.is_int() => {
                        let (sw, dw) = (s.width().unwrap(), d.width().unwrap());
                        if s == T::I1 && dw == 8 {
                            return; // same machine width
                        }
                        if dw > sw { *self.t.pick(&["arith.extend", "arith.cast"]) } else { *self.t.pick(&["arith.trunc", "arith.cast"]) }
                    }
                    (s, d) if s.is_int() && d.is_float() => "arith.convert",
                    (s, d) if s.is_float() && d.is_int() => {
                        if !c.float_to_int {
                            return;
                        }
                        *self.t.pick(&["arith.trunc", "arith.convert"])
                    }
                    (T::F32, T::F64) => *self.t.pick(&["arith.extend", "arith.convert"]),
                    (T::F64, T::F32) => "arith.convert",
                    _ => return,
                };
                if src.is_float() && dst.is_int() && matches!(dst, T::I8 | T::I16) {
                    return; // not supported by any back end
                }
                let a = self.val(blk, src);
                let tr = self.ty(dst);
                let v = put1(self.ctx, blk, name, &[a], tr, &[]);
                self.stats.casts += 1;
                self.push(v, dst);
            }
            5 => {
                let t = self.scalar();
                if !(t.is_int() || t.is_float()) {
                    return;
                }
                let tr = self.ty(t);
                let a = self.val(blk, t);
                let v = put1(self.ctx, blk, if t.is_int() { "arith.negi" } else { "arith.negf" }, &[a], tr, &[]);
                self.push(v, t);
            }
            6 => self.scf_if(blk, depth),
            7 => self.scf_switch(blk, depth),
            8 => self.scf_loop(blk, depth),
            9 => self.call(blk),
            10 => {
                let ex: Vec<Sig> = self.sigs.iter().filter(|s| s.external).cloned().collect();
                if ex.is_empty() {
                    return;
                }
                let s = self.t.pick(&ex).clone();
                self.stats.externs += 1;
                self.emit_call(blk, &s);
            }
            11 => {
                let cand: Vec<Sig> = self.sigs[..self.me].iter().filter(|s| !s.external && !s.rec).cloned().collect();
                if cand.is_empty() {
                    return;
                }
                let s = self.t.pick(&cand).clone();
                self.stats.indirect += 1;
                let rt = self.ty(s.ret);
                let pts: Vec<TypeRef> = s.params.iter().map(|p| ty(self.ctx, self.adts, *p)).collect();
                let ft = fnty(self.ctx, rt, &pts);
                let fv = put1(self.ctx, blk, "func.constant", &[], ft, &[("func_ref", Attribute::Symbol(sym(&s.name)))]);
                let mut args = vec![fv];
                for p in &s.params {
                    args.push(self.val(blk, *p));
                }
                if s.ret == T::Nil {
                    put(self.ctx, blk, "func.call_indirect", O { operands: args, results: vec![rt], ..O::default() });
                    self.stats.ops += 1;
                } else {
                    let v = put1(self.ctx, blk, "func.call_indirect", &args, rt, &[]);
                    self.push(v, s.ret);
                }
            }
            12 => {
                let t = self.scalar();
                let a = self.val(blk, t);
                let tr = self.ty(t);
                let n = self.t.below(3);
                self.stats.casts += 1;
                let v = match n {
                    0 => put1(self.ctx, blk, "core.unrealized_conversion_cast", &[a], tr, &[]),
                    _ => {
                        let mid = ty0(self.ctx, "test", "opaque");
                        let m = put1(self.ctx, blk, "core.unrealized_conversion_cast", &[a], mid, &[]);
                        put1(self.ctx, blk, "core.unrealized_conversion_cast", &[m], tr, &[])
                    }
                };
                self.push(v, t);
            }
            13 => self.adt_stmt(blk),
            14 => {
                let i1 = self.ty(T::I1);
                let a = self.val(blk, T::I1);
                let b = self.val(blk, T::I1);
                let v = match self.t.below(5) {
                    0 => put1(self.ctx, blk, "arith.and", &[a, b], i1, &[]),
                    1 => put1(self.ctx, blk, "arith.or", &[a, b], i1, &[]),
                    2 => put1(self.ctx, blk, "arith.xor", &[a, b], i1, &[]),
                    3 => put1(self.ctx, blk, "arith.cmpi", &[a, b], i1, &[("predicate", Attribute::Symbol(sym("eq")))]),
                    _ => put1(self.ctx, blk, "arith.cmpi", &[a, b], i1, &[("predicate", Attribute::Symbol(sym("ne")))]),
                };
                self.push(v, T::I1);
            }
            _ => {
                let t = self.scalar();
                if t == T::Nil {
                    return;
                }
                let v = self.small_const(blk, t);
                self.push(v, t);
            }
        }
    }

    fn emit_call(&mut self, blk: BlockRef, s: &Sig) {
        let mut args = vec![];
        for p in &s.params {
            let v = self.val(blk, *p);
            args.push(v);
        }
        let rt = self.ty(s.ret);
        self.stats.calls += 1;
        if s.ret == T::Nil {
            put(self.ctx, blk, "func.call", O { operands: args, results: vec![rt], attrs: vec![("callee".into(), Attribute::Symbol(sym(&s.name)))], ..O::default() });
            self.stats.ops += 1;
        } else {
            let v = put1(self.ctx, blk, "func.call", &args, rt, &[("callee", Attribute::Symbol(sym(&s.name)))]);
            self.push(v, s.ret);
        }
    }

    fn call(&mut self, blk: BlockRef) {
        let cand: Vec<Sig> = self.sigs[..self.me].iter().filter(|s| !s.external).cloned().collect();
        if cand.is_empty() {
            return;
        }
        let s = self.t.pick(&cand).clone();
        if s.rec {
            // bound the depth
            let mut args = vec![];
            let k = self.t.range(0, 6);
            args.push(self.konst(blk, &Val::I(k), s.params[0]));
            for p in &s.params[1..] {
                let v = self.val(blk, *p);
                args.push(v);
            }
            let rt = self.ty(s.ret);
            self.stats.calls += 1;
            let v = put1(self.ctx, blk, "func.call", &args, rt, &[("callee", Attribute::Symbol(sym(&s.name)))]);
            if s.ret != T::Nil {
                self.push(v, s.ret);
            }
            return;
        }
        self.emit_call(blk, &s);
    }

    fn block_body(&mut self, blk: BlockRef, depth: usize, max: usize) {
        let n = self.t.upto(max);
        for _ in 0..n {
            self.stmt(blk, depth);
        }
    }

    /// Branches inside a region: the blocks of the region so far, the last one open.
    fn region_blocks(&mut self, bb: BlockRef, depth: usize, yields: Option<Option<T>>) -> Vec<BlockRef> {
        if !self.cfg.region_cf || depth >= self.cfg.max_depth || !self.t.chance(1, 5) {
            return vec![bb];
        }
        let mark = self.env.len();
        let c = self.i1(bb);
        let t = self.any_ty();
        let tr = self.ty(t);
        let join = block(self.ctx, &[tr]);
        let mut v = vec![bb];
        let mut sides = vec![];
        for k in 0..2 {
            let x = block(self.ctx, &[]);
            self.block_body(x, depth + 1, 2);
            match yields {
                Some(res) if k == 0 && self.t.chance(1, 3) => {
                    let ys: Vec<ValueRef> = res.map(|t| self.val(x, t)).into_iter().collect();
                    put0(self.ctx, x, "scf.yield", &ys, &[], &[]);
                }
                _ => {
                    let a = self.val(x, t);
                    put(self.ctx, x, "cf.br", O { operands: vec![a], succs: vec![join], ..O::default() });
                }
            }
            self.env.truncate(mark);
            sides.push(x);
        }
        put(self.ctx, bb, "cf.cond_br", O { operands: vec![c], succs: sides.clone(), ..O::default() });
        v.extend(sides);
        v.push(join);
        let a = self.ctx.block_arg(join, 0);
        self.env.push((a, t));
        self.block_body(join, depth + 1, 2);
        v
    }

    fn scf_if(&mut self, blk: BlockRef, depth: usize) {
        self.stats.ifs += 1;
        let cond = self.i1(blk);
        let res = if self.t.chance(3, 4) { Some(self.any_ty()) } else if self.cfg.if_nil { Some(T::Nil) } else { None };
        let mark = self.env.len();
        let mut regs = vec![];
        for side in 0..2 {
            let bb = block(self.ctx, &[]);
            self.block_body(bb, depth + 1, 4);
            if self.cfg.break_in_if && res.is_none() && side == 0 && !self.loops.is_empty() && self.t.chance(1, 2) {
                self.loop_exit(bb);
            } else {
                let ys: Vec<ValueRef> = match res {
                    Some(t) => vec![self.val(bb, t)],
                    None => vec![],
                };
                put0(self.ctx, bb, "scf.yield", &ys, &[], &[]);
            }
            self.env.truncate(mark);
            regs.push(region(self.ctx, &[bb]));
        }
        let results = res.map(|t| self.ty(t)).into_iter().collect();
        let op = put(self.ctx, blk, "scf.if", O { operands: vec![cond], results, regions: regs, ..O::default() });
        if let Some(t) = res {
            let v = self.ctx.op_result(op, 0);
            self.push(v, t);
        }
    }
    fn any_ty(&mut self) -> T {
        if self.cfg.adt && self.cfg.adt_flow && !self.adts.is_empty() && self.t.chance(1, 3) {
            return T::Adt(self.t.idx(self.adts.len()) as u8);
        }
        self.scalar()
    }
    /// Terminate `bb` with break or continue of the innermost loop.
    fn loop_exit(&mut self, bb: BlockRef) {
        let l = self.loops.last().unwrap().clone();
        if self.t.chance(3, 4) || l.counter_next.is_none() {
            let t = l.res.unwrap_or(T::I32);
            let v = self.val(bb, t);
            put0(self.ctx, bb, "scf.break", &[v], &[], &[]);
        } else {
            let mut vs = vec![l.counter_next.unwrap()];
            for t in &l.arg_tys[1..] {
                vs.push(self.val(bb, *t));
            }
            put0(self.ctx, bb, "scf.continue", &vs, &[], &[]);
        }
    }
    fn scf_switch(&mut self, blk: BlockRef, depth: usize) {
        self.stats.switches += 1;
        let d = self.val(blk, T::I32);
        let n = self.t.upto(3);
        let body = block(self.ctx, &[]);
        let mark = self.env.len();
        let default_at = self.t.chance(2, 3).then(|| if self.t.chance(2, 3) { n } else { self.t.upto(n) });
        for k in 0..=n {
            if default_at == Some(k) {
                let bb = block(self.ctx, &[]);
                self.block_body(bb, depth + 1, 3);
                let bs = self.region_blocks(bb, depth + 1, Some(None));
                put0(self.ctx, *bs.last().unwrap(), "scf.yield", &[], &[], &[]);
                self.env.truncate(mark);
                let r = region(self.ctx, &bs);
                put(self.ctx, body, "scf.default", O { regions: vec![r], ..O::default() });
            }
            if k == n {
                break;
            }
            let bb = block(self.ctx, &[]);
            self.block_body(bb, depth + 1, 3);
            let bs = self.region_blocks(bb, depth + 1, Some(None));
            let bb = *bs.last().unwrap();
            if !self.loops.is_empty() && self.t.chance(1, 4) {
                self.loop_exit(bb);
            } else {
                put0(self.ctx, bb, "scf.yield", &[], &[], &[]);
            }
            self.env.truncate(mark);
            let r = region(self.ctx, &bs);
            let k = self.t.range(-2, 4);
            put(self.ctx, body, "scf.case", O { attrs: vec![("value".into(), Attribute::Int(k as i128))], regions: vec![r], ..O::default() });
        }
        let r = region(self.ctx, &[body]);
        put(self.ctx, blk, "scf.switch", O { operands: vec![d], regions: vec![r], ..O::default() });
        self.stats.ops += 1;
    }
    fn scf_loop(&mut self, blk: BlockRef, depth: usize) {
        self.stats.loops += 1;
        let nacc = if self.cfg.simple_loops { 0 } else { self.t.upto(2) };
        let mut tys = vec![T::I32];
        for _ in 0..nacc {
            let t = self.any_ty();
            tys.push(t);
        }
        let start = self.t.range(0, 3);
        let s0 = self.konst(blk, &Val::I(start), T::I32);
        let mut inits = vec![s0];
        for t in &tys[1..] {
            inits.push(self.val(blk, *t));
        }
        let res = if self.t.chance(3, 4) { Some(self.any_ty()) } else if self.cfg.if_nil { Some(T::Nil) } else { None };
        let trs: Vec<TypeRef> = tys.iter().map(|t| ty(self.ctx, self.adts, *t)).collect();
        let bb = block(self.ctx, &trs);
        let args: Vec<ValueRef> = self.ctx.block_args(bb).to_vec();
        let mark = self.env.len();
        for (a, t) in args.iter().zip(&tys) {
            self.env.push((*a, *t));
        }
        // next counter
        let i32t = self.ty(T::I32);
        let one = self.konst(bb, &Val::I(1), T::I32);
        let next = put1(self.ctx, bb, "arith.addi", &[args[0], one], i32t, &[]);
        self.loops.push(LoopCx { arg_tys: tys.clone(), res, counter_next: Some(next) });
        self.block_body(bb, depth + 1, 3);
        let bs = self.region_blocks(bb, depth + 1, None);
        let bb = *bs.last().unwrap();
        // exit test: switch on (counter >= bound) extended to i32
        let bound = self.t.range(1, 6);
        let bv = self.konst(bb, &Val::I(bound), T::I32);
        let i1 = self.ty(T::I1);
        let done = put1(self.ctx, bb, "arith.cmpi", &[args[0], bv], i1, &[("predicate", Attribute::Symbol(sym("sge")))]);
        let m2 = self.env.len();
        if self.cfg.simple_loops {
            let tb = block(self.ctx, &[]);
            self.block_body(tb, depth + 1, 2);
            let v = self.val(tb, res.unwrap_or(T::I32));
            put0(self.ctx, tb, "scf.break", &[v], &[], &[]);
            self.env.truncate(m2);
            let eb = block(self.ctx, &[]);
            self.block_body(eb, depth + 1, 2);
            put0(self.ctx, eb, "scf.continue", &[next], &[], &[]);
            self.env.truncate(m2);
            let (r1, r2) = (region(self.ctx, &[tb]), region(self.ctx, &[eb]));
            let nt = self.ty(res.unwrap_or(T::Nil));
            put(self.ctx, bb, "scf.if", O { operands: vec![done], results: if self.cfg.if_nil { vec![nt] } else { vec![] }, regions: vec![r1, r2], ..O::default() });
            self.loops.pop();
            self.env.truncate(mark);
            let r = region(self.ctx, &bs);
            let results = res.map(|t| self.ty(t)).into_iter().collect();
            let op = put(self.ctx, blk, "scf.loop", O { operands: inits, results, regions: vec![r], ..O::default() });
            self.stats.ops += 1;
            if let Some(t) = res {
                let v = self.ctx.op_result(op, 0);
                self.push(v, t);
            }
            return;
        }
        if self.cfg.break_in_if && self.t.bool() {
            let tb = block(self.ctx, &[]);
            self.block_body(tb, depth + 1, 2);
            let bt = res.unwrap_or(T::I32);
            let v = self.val(tb, bt);
            put0(self.ctx, tb, "scf.break", &[v], &[], &[]);
            self.env.truncate(m2);
            let eb = block(self.ctx, &[]);
            put0(self.ctx, eb, "scf.yield", &[], &[], &[]);
            let (r1, r2) = (region(self.ctx, &[tb]), region(self.ctx, &[eb]));
            put(self.ctx, bb, "scf.if", O { operands: vec![done], regions: vec![r1, r2], ..O::default() });
        } else {
            let d32 = if self.cfg.i1_casts {
                put1(self.ctx, bb, "arith.extend", &[done], i32t, &[])
            } else {
                let (a, b) = (block(self.ctx, &[]), block(self.ctx, &[]));
                let x = self.konst(a, &Val::I(1), T::I32);
                put0(self.ctx, a, "scf.yield", &[x], &[], &[]);
                let y = self.konst(b, &Val::I(0), T::I32);
                put0(self.ctx, b, "scf.yield", &[y], &[], &[]);
                let (r1, r2) = (region(self.ctx, &[a]), region(self.ctx, &[b]));
                let op = put(self.ctx, bb, "scf.if", O { operands: vec![done], results: vec![i32t], regions: vec![r1, r2], ..O::default() });
                self.ctx.op_result(op, 0)
            };
            let cb = block(self.ctx, &[]);
            self.block_body(cb, depth + 1, 2);
            let bt = res.unwrap_or(T::I32);
            let v = self.val(cb, bt);
            put0(self.ctx, cb, "scf.break", &[v], &[], &[]);
            self.env.truncate(m2);
            let r = region(self.ctx, &[cb]);
            let body = block(self.ctx, &[]);
            put(self.ctx, body, "scf.case", O { attrs: vec![("value".into(), Attribute::Int(1))], regions: vec![r], ..O::default() });
            let rr = region(self.ctx, &[body]);
            put(self.ctx, bb, "scf.switch", O { operands: vec![d32], regions: vec![rr], ..O::default() });
        }
        let mut cont = vec![next];
        for t in &tys[1..] {
            cont.push(self.val(bb, *t));
        }
        put0(self.ctx, bb, "scf.continue", &cont, &[], &[]);
        self.loops.pop();
        self.env.truncate(mark);
        let r = region(self.ctx, &bs);
        let results = res.map(|t| self.ty(t)).into_iter().collect();
        let op = put(self.ctx, blk, "scf.loop", O { operands: inits, results, regions: vec![r], ..O::default() });
        self.stats.ops += 1;
        if let Some(t) = res {
            let v = self.ctx.op_result(op, 0);
            self.push(v, t);
        }
    }

    fn adt_stmt(&mut self, blk: BlockRef) {
        if self.adts.is_empty() {
            return;
        }
        let i = self.t.idx(self.adts.len());
        let d = self.adts[i].clone();
        let tr = adt_ty(self.ctx, self.adts, i);
        let have: Vec<ValueRef> = self.env.iter().filter(|(_, x)| *x == T::Adt(i as u8)).map(|(v, _)| *v).collect();
        if have.is_empty() || self.t.chance(1, 3) {
            self.new_adt(blk, i, 2);
            return;
        }
        let o = *self.t.pick(&have);
        self.stats.adt_ops += 1;
        if self.cfg.ref_casts && self.t.chance(1, 8) {
            let vr = self.ty(T::Adt(i as u8));
            let mut v = o;
            for _ in 0..1 + self.t.idx(3) {
                let mid = if self.t.bool() {
                    vr
                } else {
                    self.ctx.types.intern(TypeDataBuilder::new(sym("adt"), sym("typeref")).attr(sym("name"), Attribute::Symbol(sym(&d.name))).build())
                };
                v = put1(self.ctx, blk, "core.unrealized_conversion_cast", &[v], mid, &[]);
            }
            let v = put1(self.ctx, blk, "core.unrealized_conversion_cast", &[v], vr, &[]);
            self.push(v, T::Adt(i as u8));
            return;
        }
        if !d.is_enum {
            if d.variants[0].1.is_empty() {
                return;
            }
            let k = self.t.idx(d.variants[0].1.len());
            let ft = d.variants[0].1[k];
            if self.cfg.struct_set && !matches!(ft, T::Adt(_)) && self.t.chance(1, 4) {
                let v = self.val(blk, ft);
                put0(self.ctx, blk, "adt.struct_set", &[o, v], &[("type", Attribute::Type(tr)), ("field", Attribute::Int(k as i128))], &[]);
                self.stats.ops += 1;
                return;
            }
            if self.cfg.deep_reads && matches!(ft, T::Adt(_)) && self.t.chance(1, 2) {
                let (mut o, mut i, mut k) = (o, i, k);
                loop {
                    let ft = self.adts[i].variants[0].1[k];
                    let ftr = self.ty(ft);
                    let tr = adt_ty(self.ctx, self.adts, i);
                    o = put1(self.ctx, blk, "adt.struct_get", &[o], ftr, &[("type", Attribute::Type(tr)), ("field", Attribute::Int(k as i128))]);
                    self.stats.ops += 1;
                    let T::Adt(j) = ft else {
                        self.push(o, ft);
                        return;
                    };
                    if self.t.chance(1, 4) {
                        self.push(o, ft);
                    }
                    i = j as usize;
                    let d = self.adts[i].clone();
                    if d.is_enum || d.variants[0].1.is_empty() {
                        return;
                    }
                    k = self.t.idx(d.variants[0].1.len());
                }
            }
            let ftr = self.ty(ft);
            let v = put1(self.ctx, blk, "adt.struct_get", &[o], ftr, &[("type", Attribute::Type(tr)), ("field", Attribute::Int(k as i128))]);
            self.push(v, ft);
        } else {
            // variant_is + guarded variant_get
            let k = self.t.idx(d.variants.len());
            let tag = Attribute::Symbol(sym(&d.variants[k].0));
            let i1 = self.ty(T::I1);
            let c = put1(self.ctx, blk, "adt.variant_is", &[o], i1, &[("type", Attribute::Type(tr)), ("tag", tag.clone())]);
            self.push(c, T::I1);
            let fs = d.variants[k].1.clone();
            if fs.is_empty() || !self.cfg.scf {
                return;
            }
            let fi = self.t.idx(fs.len());
            let ft = fs[fi];
            // A field read out of a variant has the declared type, so it is not managed.
            if d.repr == Repr::Owned && matches!(ft, T::Adt(_)) {
                return;
            }
            let ftr = self.ty(ft);
            let tb = block(self.ctx, &[]);
            let vr = self.ty(T::Adt(i as u8));
            let cast = put1(self.ctx, tb, "adt.variant_cast", &[o], vr, &[("type", Attribute::Type(tr)), ("tag", tag.clone())]);
            let g = put1(self.ctx, tb, "adt.variant_get", &[cast], ftr, &[("type", Attribute::Type(tr)), ("tag", tag), ("field", Attribute::Int(fi as i128))]);
            let mark = self.env.len();
            self.env.push((g, ft));
            self.block_body(tb, self.cfg.max_depth, 2);
            let y = if self.t.chance(2, 3) { g } else { self.val(tb, ft) };
            put0(self.ctx, tb, "scf.yield", &[y], &[], &[]);
            self.env.truncate(mark);
            let eb = block(self.ctx, &[]);
            let y2 = self.val(eb, ft);
            put0(self.ctx, eb, "scf.yield", &[y2], &[], &[]);
            self.env.truncate(mark);
            let (r1, r2) = (region(self.ctx, &[tb]), region(self.ctx, &[eb]));
            let v = put(self.ctx, blk, "scf.if", O { operands: vec![c], results: vec![ftr], regions: vec![r1, r2], ..O::default() });
            let v = self.ctx.op_result(v, 0);
            self.push(v, ft);
        }
    }

    fn terminate(&mut self, blk: BlockRef) {
        let s = self.sigs[self.me].clone();
        if self.cfg.tail_calls && !s.rec && self.t.chance(1, 5) {
            let cand: Vec<Sig> = self.sigs[..self.me].iter().filter(|c| !c.external && !c.rec && c.ret == s.ret).cloned().collect();
            if !cand.is_empty() {
                let c = self.t.pick(&cand).clone();
                let mut args = vec![];
                for p in &c.params {
                    args.push(self.val(blk, *p));
                }
                self.stats.tail += 1;
                put0(self.ctx, blk, "func.tail_call", &args, &[("callee", Attribute::Symbol(sym(&c.name)))], &[]);
                return;
            }
        }
        if s.ret == T::Nil {
            put0(self.ctx, blk, "func.return", &[], &[], &[]);
        } else {
            let v = self.val(blk, s.ret);
            put0(self.ctx, blk, "func.return", &[v], &[], &[]);
        }
    }

    fn structured(&mut self) -> RegionRef {
        let s = self.sigs[self.me].clone();
        let pts: Vec<TypeRef> = s.params.iter().map(|p| ty(self.ctx, self.adts, *p)).collect();
        let blk = block(self.ctx, &pts);
        let args: Vec<ValueRef> = self.ctx.block_args(blk).to_vec();
        for (a, t) in args.iter().zip(&s.params) {
            self.env.push((*a, *t));
        }
        if s.rec {
            // if depth <= 0 { base } else { .. self(depth-1, ...) .. }
            self.stats.rec += 1;
            let p0 = s.params[0];
            let z = self.konst(blk, &Val::I(0), p0);
            let i1 = self.ty(T::I1);
            let c = put1(self.ctx, blk, "arith.cmpi", &[args[0], z], i1, &[("predicate", Attribute::Symbol(sym("sle")))]);
            let mark = self.env.len();
            let rt = self.ty(s.ret);
            let tb = block(self.ctx, &[]);
            self.block_body(tb, 1, 3);
            let y = self.val(tb, s.ret);
            put0(self.ctx, tb, "scf.yield", &[y], &[], &[]);
            self.env.truncate(mark);
            let eb = block(self.ctx, &[]);
            self.block_body(eb, 1, 3);
            let one = self.konst(eb, &Val::I(1), p0);
            let p0t = self.ty(p0);
            let n1 = put1(self.ctx, eb, "arith.subi", &[args[0], one], p0t, &[]);
            let mut cargs = vec![n1];
            for p in &s.params[1..] {
                cargs.push(self.val(eb, *p));
            }
            let r = put1(self.ctx, eb, "func.call", &cargs, rt, &[("callee", Attribute::Symbol(sym(&s.name)))]);
            self.push(r, s.ret);
            self.block_body(eb, 1, 3);
            let y = self.val(eb, s.ret);
            put0(self.ctx, eb, "scf.yield", &[y], &[], &[]);
            self.env.truncate(mark);
            let (r1, r2) = (region(self.ctx, &[tb]), region(self.ctx, &[eb]));
            let op = put(self.ctx, blk, "scf.if", O { operands: vec![c], results: vec![rt], regions: vec![r1, r2], ..O::default() });
            let v = self.ctx.op_result(op, 0);
            put0(self.ctx, blk, "func.return", &[v], &[], &[]);
            self.rec_used = true;
        } else {
            let n = 1 + self.t.upto(self.cfg.max_stmts - 1);
            for _ in 0..n {
                self.stmt(blk, 0);
            }
            self.terminate(blk);
        }
        region(self.ctx, &[blk])
    }

    /// Multi-block function body.
    fn cfg_body(&mut self) -> RegionRef {
        self.stats.cfg_funcs += 1;
        let s = self.sigs[self.me].clone();
        let n = 2 + self.t.upto(5);
        // successors
        #[derive(Clone)]
        enum K {
            Ret,
            Br(usize),
            Cond(usize, usize),
        }
        let mut ks: Vec<K> = vec![];
        for i in 0..n {
            let fwd = |t: &mut Tape| -> usize { if i + 1 < n && !t.chance(1, 5) { i + 1 + t.idx(n - i - 1) } else { 1 + t.idx(n - 1) } };
            let k = match self.t.below(5) {
                0 if i > 0 => K::Ret,
                1 | 2 => K::Br(fwd(self.t)),
                _ => K::Cond(fwd(self.t), fwd(self.t)),
            };
            ks.push(if i == n - 1 { K::Ret } else { k });
        }
        if !self.cfg.unreachable_blocks {
            // drop unreachable blocks by redirecting: renumber reachable
            let mut seen = vec![false; n];
            let mut st = vec![0usize];
            while let Some(x) = st.pop() {
                if std::mem::replace(&mut seen[x], true) {
                    continue;
                }
                match ks[x] {
                    K::Ret => {}
                    K::Br(a) => st.push(a),
                    K::Cond(a, b) => {
                        st.push(a);
                        st.push(b)
                    }
                }
            }
            let mut map = vec![usize::MAX; n];
            let mut c = 0;
            for i in 0..n {
                if seen[i] {
                    map[i] = c;
                    c += 1;
                }
            }
            let mut nk = vec![];
            for i in 0..n {
                if seen[i] {
                    nk.push(match ks[i] {
                        K::Ret => K::Ret,
                        K::Br(a) => K::Br(map[a]),
                        K::Cond(a, b) => K::Cond(map[a], map[b]),
                    });
                }
            }
            ks = nk;
        }
        let n = ks.len();
        let mut cond_target = vec![false; n];
        for k in &ks {
            if let K::Cond(a, b) = k {
                cond_target[*a] = true;
                cond_target[*b] = true;
            }
        }
        // dominators by removal
        let succ = |k: &K| -> Vec<usize> {
            match k {
                K::Ret => vec![],
                K::Br(a) => vec![*a],
                K::Cond(a, b) => vec![*a, *b],
            }
        };
        let reach = |removed: usize| -> Vec<bool> {
            let mut seen = vec![false; n];
            if removed == 0 {
                return seen;
            }
            let mut st = vec![0];
            while let Some(x) = st.pop() {
                if x == removed || seen[x] {
                    continue;
                }
                seen[x] = true;
                st.extend(succ(&ks[x]));
            }
            seen
        };
        let all = reach(usize::MAX);
        let mut dom = vec![vec![false; n]; n]; // dom[d][b]
        for d in 0..n {
            let r = reach(d);
            for bb in 0..n {
                dom[d][bb] = d == bb || (all[bb] && !r[bb]);
            }
        }
        let mut blocks = vec![];
        let mut argtys: Vec<Vec<T>> = vec![];
        for i in 0..n {
            let tys: Vec<T> = if i == 0 {
                s.params.clone()
            } else if cond_target[i] {
                vec![]
            } else {
                let k = self.t.upto(2);
                (0..k).map(|_| self.scalar()).collect()
            };
            let trs: Vec<TypeRef> = tys.iter().map(|t| ty(self.ctx, self.adts, *t)).collect();
            blocks.push(block(self.ctx, &trs));
            argtys.push(tys);
        }
        // Fill blocks in an order where dominators come first.
        let mut order: Vec<usize> = (0..n).collect();
        order.sort_by_key(|b| (0..n).filter(|d| dom[*d][*b]).count());
        let mut defs: Vec<Vec<(ValueRef, T)>> = vec![vec![]; n];
        for &i in &order {
            self.env.clear();
            for d in 0..n {
                if d != i && dom[d][i] && all[i] && (!self.cfg.layout_order || d < i) {
                    self.env.extend(defs[d].iter().copied());
                }
            }
            let mark = self.env.len();
            let args: Vec<ValueRef> = self.ctx.block_args(blocks[i]).to_vec();
            for (a, t) in args.iter().zip(&argtys[i]) {
                self.env.push((*a, *t));
            }
            let m = self.t.upto(4);
            for _ in 0..m {
                self.stmt(blocks[i], self.cfg.max_depth.saturating_sub(1));
            }
            match ks[i].clone() {
                K::Ret => self.terminate(blocks[i]),
                K::Br(a) => {
                    let mut vs = vec![];
                    for t in argtys[a].clone() {
                        vs.push(self.val(blocks[i], t));
                    }
                    put0(self.ctx, blocks[i], "cf.br", &vs, &[], &[blocks[a]]);
                }
                K::Cond(a, b) => {
                    let c = self.i1(blocks[i]);
                    put0(self.ctx, blocks[i], "cf.cond_br", &[c], &[], &[blocks[a], blocks[b]]);
                }
            }
            defs[i] = self.env[mark..].to_vec();
        }
        region(self.ctx, &blocks)
    }
}

pub fn gen_module(t: &mut Tape, cfg: &Cfg) -> Gen {
    let mut ctx = IrContext::new();
    let mut stats = Stats::default();
    let mut adts: Vec<AdtDef> = vec![];
    if cfg.adt {
        let n = 1 + t.upto(if cfg.wide { 4 } else { 2 });
        for i in 0..n {
            let is_enum = if cfg.heavy { t.chance(1, 4) } else { t.bool() };
            let mut variants = vec![];
            let nv = if is_enum { 1 + t.upto(2) } else { 1 };
            for v in 0..nv {
                let nf = if !cfg.wide || !t.chance(1, 3) {
                    t.upto(3)
                } else if t.chance(1, 5) {
                    t.upto(24)
                } else {
                    3 + t.upto(4)
                };
                let mut fs = vec![];
                for _ in 0..nf {
                    // variant 0 never recurses, so that values can be built finitely
                    if t.chance(if cfg.heavy { 2 } else { 1 }, 3) && i > 0 {
                        fs.push(T::Adt(t.idx(i) as u8));
                    } else if is_enum && v > 0 && t.chance(1, 3) {
                        fs.push(T::Adt(i as u8));
                    } else {
                        let fs_t = *t.pick(&cfg.scalars);
                        fs.push(if fs_t == T::I1 && !cfg.i1_fields { T::I32 } else { fs_t });
                    }
                }
                variants.push((format!("V{v}"), fs));
            }
            adts.push(AdtDef { name: format!("A{i}"), is_enum, variants, repr: cfg.adt_repr });
        }
    }
    let nf = 1 + t.upto(cfg.max_funcs - 1);
    let mut sigs: Vec<Sig> = vec![];
    if cfg.externs {
        let ne = 1 + t.upto(1);
        for i in 0..ne {
            let np = t.upto(2);
            let params = (0..np).map(|_| *t.pick(&cfg.scalars)).collect();
            let ret = if t.chance(1, 4) { T::Nil } else { *t.pick(&cfg.scalars) };
            sigs.push(Sig { name: format!("ext{i}"), params, ret, external: true, rec: false });
        }
    }
    let any = |t: &mut Tape, adts: &[AdtDef]| -> T { if cfg.adt_sig && !adts.is_empty() && t.chance(if cfg.heavy { 2 } else { 1 }, 3) { T::Adt(t.idx(adts.len()) as u8) } else { *t.pick(&cfg.scalars) } };
    for i in 0..nf {
        let last = i + 1 == nf;
        let rec = cfg.recursion && !last && t.chance(1, 6);
        let np = t.upto(3);
        let mut params: Vec<T> = (0..np).map(|_| if last { *t.pick(&cfg.scalars) } else { any(t, &adts) }).collect();
        let mut ret = if last { *t.pick(&cfg.scalars) } else { any(t, &adts) };
        if rec {
            params.insert(0, T::I32);
        } else if cfg.returns_nil && !last && t.chance(1, 8) {
            ret = T::Nil;
        }
        let name = if cfg.paths && !last && t.chance(1, 5) { format!("P{i}::f") } else { format!("f{i}") };
        sigs.push(Sig { name, params, ret, external: false, rec });
    }
    let mut ops = vec![];
    for i in 0..sigs.len() {
        let s = sigs[i].clone();
        let body = if s.external {
            if cfg.extern_body {
                let pts: Vec<TypeRef> = s.params.iter().map(|p| ty(&mut ctx, &adts, *p)).collect();
                let bb = block(&mut ctx, &pts);
                put0(&mut ctx, bb, "func.unreachable", &[], &[], &[]);
                Some(region(&mut ctx, &[bb]))
            } else {
                None
            }
        } else {
            let use_cf = cfg.cf && !s.rec && t.chance(1, 3);
            let mut f = F { t, ctx: &mut ctx, cfg, sigs: &sigs, adts: &adts, stats: &mut stats, env: vec![], me: i, budget: cfg.max_stmts * 4, loops: vec![], rec_used: false };
            Some(if use_cf { f.cfg_body() } else { f.structured() })
        };
        let rt = ty(&mut ctx, &adts, s.ret);
        let pts: Vec<TypeRef> = s.params.iter().map(|p| ty(&mut ctx, &adts, *p)).collect();
        let extra: Vec<(&str, Attribute)> = if s.external && cfg.extern_attrs { vec![("abi", Attribute::String("C".into()))] } else { vec![] };
        ops.push(func(&mut ctx, &s.name, rt, &pts, body, &extra));
    }
    if cfg.adt_ctor {
        for i in 0..adts.len() {
            for k in 0..adts[i].variants.len() {
                let d = adts[i].clone();
                let pts: Vec<TypeRef> = d.variants[k].1.iter().map(|p| ty(&mut ctx, &adts, *p)).collect();
                let vr = val_ty(&mut ctx, &adts, i);
                let tr = adt_ty(&mut ctx, &adts, i);
                let bb = block(&mut ctx, &pts);
                let fs: Vec<ValueRef> = ctx.block_args(bb).to_vec();
                let v = if d.is_enum { put1(&mut ctx, bb, "adt.variant_new", &fs, vr, &[("type", Attribute::Type(tr)), ("tag", Attribute::Symbol(sym(&d.variants[k].0)))]) } else { put1(&mut ctx, bb, "adt.struct_new", &fs, vr, &[("type", Attribute::Type(tr))]) };
                put0(&mut ctx, bb, "func.return", &[v], &[], &[]);
                let r = region(&mut ctx, &[bb]);
                ops.push(func(&mut ctx, &format!("mkA{i}V{k}"), vr, &pts, Some(r), &[]));
            }
        }
    }
    let module = module(&mut ctx, "m", &ops);
    Gen { ctx, module, sigs, adts, stats }
}

/// Argument vectors for a scalar-parameter function.
pub fn gen_inputs(t: &mut Tape, s: &Sig, n: usize) -> Vec<Vec<Val>> {
    (0..n).map(|_| s.params.iter().map(|p| if s.rec && *p == s.params[0] { Val::I(t.range(-1, 6)) } else { gen_val(t, *p) }).collect()).collect()
}
