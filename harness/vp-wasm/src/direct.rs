//! Modules written directly in the wasm dialect behave as WebAssembly defines their operations.
use crate::node::{self, Import, Reply, Run};
use engine::*;
use irkit::b::*;
use irkit::pretty;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::{Attribute, TypeDataBuilder};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty {
    I32,
    I64,
    F32,
    F64,
    Any,
    I31,
    Arr,
    /// an array reference that is never null
    Arr1,
    Bytes,
    Nil,
}
use Ty::*;
const NUM: [Ty; 4] = [I32, I64, F32, F64];
#[derive(Clone, Debug)]
enum Val {
    I(i32),
    L(i64),
    F(f32),
    D(f64),
    Null,
    I31(i32),
    Arr(Rc<RefCell<Vec<u8>>>),
    Bytes(Rc<RefCell<Vec<u8>>>, i32, i32),
    Nil,
}
type Id = usize;
#[derive(Clone, Debug)]
enum S {
    Const(Id, Val),
    /// operation, operands, result, integer attributes
    Op(&'static str, Vec<Id>, Option<(Id, Ty)>, Vec<(&'static str, i64)>),
    If(Id, Option<(Id, Ty)>, Vec<S>, Vec<S>),
    Block(Option<(Id, Ty)>, Vec<S>),
    Loop(Option<(Id, Id, Ty)>, Option<(Id, Ty)>, Vec<S>),
    Br(u32, Option<Id>),
    BrIf(Id, u32),
    Yield(Id),
    Ret(Option<Id>),
    Call(usize, Vec<Id>, Option<(Id, Ty)>),
    CallInd(Id, Vec<Id>, Option<(Id, Ty)>),
    Tail(usize, Vec<Id>),
    Unreachable,
}
#[derive(Clone, Debug)]
struct Fun {
    name: String,
    import: bool,
    params: Vec<Ty>,
    /// parameters used only through local operations
    locals: Vec<bool>,
    args: Vec<Id>,
    ret: Ty,
    body: Vec<S>,
}
#[derive(Clone, Debug)]
struct Global {
    ty: Ty,
    mutable: bool,
    init: i64,
}
#[derive(Clone, Debug)]
struct Seg {
    offset: u32,
    bytes: Vec<u8>,
    passive: bool,
}
struct Mod {
    mem: Option<(u32, u32)>,
    data: Vec<Seg>,
    globals: Vec<Global>,
    /// table size, element segments
    table: Option<(u32, Vec<(u32, Vec<usize>)>)>,
    fs: Vec<Fun>,
}

// ---------------------------------------------------------------- numeric operations
/// operand types, result type
fn numeric() -> &'static Vec<(&'static str, Vec<Ty>, Ty)> {
    static T: std::sync::OnceLock<Vec<(&'static str, Vec<Ty>, Ty)>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![];
        let ty = |s: &str| match s {
            "i32" => I32,
            "i64" => I64,
            "f32" => F32,
            _ => F64,
        };
        for p in ["i32", "i64"] {
            for o in ["add", "sub", "mul", "div_s", "div_u", "rem_s", "rem_u", "and", "or", "xor", "shl", "shr_s", "shr_u"] {
                v.push((&*format!("{p}_{o}").leak(), vec![ty(p); 2], ty(p)));
            }
            for o in ["eq", "ne", "lt_s", "lt_u", "le_s", "le_u", "gt_s", "gt_u", "ge_s", "ge_u"] {
                v.push((&*format!("{p}_{o}").leak(), vec![ty(p); 2], I32));
            }
        }
        for p in ["f32", "f64"] {
            for o in ["add", "sub", "mul", "div"] {
                v.push((&*format!("{p}_{o}").leak(), vec![ty(p); 2], ty(p)));
            }
            v.push((&*format!("{p}_neg").leak(), vec![ty(p)], ty(p)));
            for o in ["eq", "ne", "lt", "le", "gt", "ge"] {
                v.push((&*format!("{p}_{o}").leak(), vec![ty(p); 2], I32));
            }
        }
        for (o, a, r) in [("i32_wrap_i64", I64, I32), ("i64_extend_i32_s", I32, I64), ("i64_extend_i32_u", I32, I64), ("f32_demote_f64", F64, F32), ("f64_promote_f32", F32, F64), ("i32_reinterpret_f32", F32, I32), ("i64_reinterpret_f64", F64, I64), ("f32_reinterpret_i32", I32, F32), ("f64_reinterpret_i64", I64, F64)] {
            v.push((o, vec![a], r));
        }
        for i in ["i32", "i64"] {
            for f in ["f32", "f64"] {
                for s in ["s", "u"] {
                    v.push((&*format!("{i}_trunc_{f}_{s}").leak(), vec![ty(f)], ty(i)));
                    v.push((&*format!("{f}_convert_{i}_{s}").leak(), vec![ty(i)], ty(f)));
                }
            }
        }
        v
    })
}
/// load: result type, size, signed
fn loads() -> [(&'static str, Ty, usize, bool); 14] {
    [("i32_load", I32, 4, false), ("i64_load", I64, 8, false), ("f32_load", F32, 4, false), ("f64_load", F64, 8, false), ("i32_load8_s", I32, 1, true), ("i32_load8_u", I32, 1, false), ("i32_load16_s", I32, 2, true), ("i32_load16_u", I32, 2, false), ("i64_load8_s", I64, 1, true), ("i64_load8_u", I64, 1, false), ("i64_load16_s", I64, 2, true), ("i64_load16_u", I64, 2, false), ("i64_load32_s", I64, 4, true), ("i64_load32_u", I64, 4, false)]
}
fn stores() -> [(&'static str, Ty, usize); 9] {
    [("i32_store", I32, 4), ("i64_store", I64, 8), ("f32_store", F32, 4), ("f64_store", F64, 8), ("i32_store8", I32, 1), ("i32_store16", I32, 2), ("i64_store8", I64, 1), ("i64_store16", I64, 2), ("i64_store32", I64, 4)]
}

// ---------------------------------------------------------------- reference evaluator
#[derive(Debug, Clone, PartialEq)]
enum Stop {
    Trap,
    /// the outcome is not determined (bits of a NaN, resources) or too long
    Unknown,
}
enum Flow {
    Next,
    Br(u32, Option<Val>),
    Ret(Val),
    Yield(Val),
}
struct Inst<'a> {
    m: &'a Mod,
    mem: Vec<u8>,
    globals: Vec<Val>,
    table: Vec<Option<usize>>,
    fuel: i64,
    events: Vec<String>,
    answers: Vec<String>,
    seed: Vec<Val>,
    touched: Vec<u32>,
}
fn i(v: &Val) -> i32 {
    match v {
        Val::I(x) => *x,
        _ => panic!("generator bug: {v:?} is no i32"),
    }
}
fn trunc(v: f64, lo: f64, hi: f64) -> Result<f64, Stop> {
    let t = v.trunc();
    if v.is_nan() || t < lo || t > hi { Err(Stop::Trap) } else { Ok(t) }
}
fn num(op: &str, a: &[Val]) -> Result<Val, Stop> {
    let b = |x: bool| Val::I(x as i32);
    let (p, o) = op.split_once('_').unwrap();
    if let Some(r) = o.strip_prefix("trunc_") {
        let v = match &a[0] {
            Val::F(x) => *x as f64,
            Val::D(x) => *x,
            _ => panic!(),
        };
        let signed = r.ends_with("_s");
        return Ok(match (p, signed) {
            ("i32", true) => Val::I(trunc(v, -2147483648.0, 2147483647.0)? as i32),
            ("i32", false) => Val::I(trunc(v, 0.0, 4294967295.0)? as u32 as i32),
            // the largest double below 2^63 / 2^64
            (_, true) => Val::L(trunc(v, -9223372036854775808.0, 9223372036854774784.0)? as i64),
            (_, false) => Val::L(trunc(v, 0.0, 18446744073709549568.0)? as u64 as i64),
        });
    }
    if let Some(r) = o.strip_prefix("convert_") {
        let s = r.ends_with("_s");
        return Ok(match (&a[0], p) {
            (Val::I(x), "f32") => Val::F(if s { *x as f32 } else { *x as u32 as f32 }),
            (Val::I(x), _) => Val::D(if s { *x as f64 } else { *x as u32 as f64 }),
            (Val::L(x), "f32") => Val::F(if s { *x as f32 } else { *x as u64 as f32 }),
            (Val::L(x), _) => Val::D(if s { *x as f64 } else { *x as u64 as f64 }),
            _ => panic!(),
        });
    }
    match (op, &a[0]) {
        ("i32_wrap_i64", Val::L(x)) => return Ok(Val::I(*x as i32)),
        ("i64_extend_i32_s", Val::I(x)) => return Ok(Val::L(*x as i64)),
        ("i64_extend_i32_u", Val::I(x)) => return Ok(Val::L(*x as u32 as i64)),
        ("f32_demote_f64", Val::D(x)) => return Ok(Val::F(*x as f32)),
        ("f64_promote_f32", Val::F(x)) => return Ok(Val::D(*x as f64)),
        ("i32_reinterpret_f32", Val::F(x)) => return if x.is_nan() { Err(Stop::Unknown) } else { Ok(Val::I(x.to_bits() as i32)) },
        ("i64_reinterpret_f64", Val::D(x)) => return if x.is_nan() { Err(Stop::Unknown) } else { Ok(Val::L(x.to_bits() as i64)) },
        ("f32_reinterpret_i32", Val::I(x)) => return Ok(Val::F(f32::from_bits(*x as u32))),
        ("f64_reinterpret_i64", Val::L(x)) => return Ok(Val::D(f64::from_bits(*x as u64))),
        ("f32_neg", Val::F(x)) => return Ok(Val::F(-x)),
        ("f64_neg", Val::D(x)) => return Ok(Val::D(-x)),
        _ => {}
    }
    macro_rules! int {
        ($x:expr, $y:expr, $s:ty, $u:ty, $mk:expr) => {{
            let (x, y): ($s, $s) = ($x, $y);
            let (ux, uy) = (x as $u, y as $u);
            let sh = (uy as u64 % (<$u>::BITS as u64)) as u32;
            let r: $s = match o {
                "add" => x.wrapping_add(y),
                "sub" => x.wrapping_sub(y),
                "mul" => x.wrapping_mul(y),
                "div_s" => x.checked_div(y).ok_or(Stop::Trap)?,
                "div_u" => ux.checked_div(uy).ok_or(Stop::Trap)? as $s,
                "rem_s" => {
                    if y == 0 {
                        return Err(Stop::Trap);
                    }
                    x.wrapping_rem(y)
                }
                "rem_u" => ux.checked_rem(uy).ok_or(Stop::Trap)? as $s,
                "and" => x & y,
                "or" => x | y,
                "xor" => x ^ y,
                "shl" => x << sh,
                "shr_s" => x >> sh,
                "shr_u" => (ux >> sh) as $s,
                "eq" => return Ok(b(x == y)),
                "ne" => return Ok(b(x != y)),
                "lt_s" => return Ok(b(x < y)),
                "lt_u" => return Ok(b(ux < uy)),
                "le_s" => return Ok(b(x <= y)),
                "le_u" => return Ok(b(ux <= uy)),
                "gt_s" => return Ok(b(x > y)),
                "gt_u" => return Ok(b(ux > uy)),
                "ge_s" => return Ok(b(x >= y)),
                "ge_u" => return Ok(b(ux >= uy)),
                _ => panic!("{op}"),
            };
            Ok($mk(r))
        }};
    }
    macro_rules! flt {
        ($x:expr, $y:expr, $mk:expr) => {{
            let (x, y) = ($x, $y);
            Ok(match o {
                "add" => $mk(x + y),
                "sub" => $mk(x - y),
                "mul" => $mk(x * y),
                "div" => $mk(x / y),
                "eq" => b(x == y),
                "ne" => b(x != y),
                "lt" => b(x < y),
                "le" => b(x <= y),
                "gt" => b(x > y),
                "ge" => b(x >= y),
                _ => panic!("{op}"),
            })
        }};
    }
    match (&a[0], &a[1]) {
        (Val::I(x), Val::I(y)) => int!(*x, *y, i32, u32, Val::I),
        (Val::L(x), Val::L(y)) => int!(*x, *y, i64, u64, Val::L),
        (Val::F(x), Val::F(y)) => flt!(*x, *y, Val::F),
        (Val::D(x), Val::D(y)) => flt!(*x, *y, Val::D),
        _ => panic!("generator bug: {op} {a:?}"),
    }
}
fn attr(at: &[(&'static str, i64)], k: &str) -> i64 {
    at.iter().find(|x| x.0 == k).unwrap().1
}
fn show(v: &Val) -> String {
    match v {
        Val::I(x) => x.to_string(),
        Val::L(x) => x.to_string(),
        Val::F(x) if x.is_nan() => "nan32".into(),
        Val::F(x) => format!("f32:{:08x}", x.to_bits()),
        Val::D(x) if x.is_nan() => "nan64".into(),
        Val::D(x) => format!("f64:{:016x}", x.to_bits()),
        Val::Nil => "()".into(),
        _ => "ref".into(),
    }
}
impl<'a> Inst<'a> {
    fn new(m: &'a Mod, seed: Vec<Val>) -> Self {
        let mut mem = vec![0; m.mem.map_or(0, |x| x.0 as usize * 65536)];
        for s in m.data.iter().filter(|s| !s.passive) {
            mem[s.offset as usize..s.offset as usize + s.bytes.len()].copy_from_slice(&s.bytes);
        }
        let globals = m
            .globals
            .iter()
            .map(|g| match g.ty {
                I32 => Val::I(g.init as i32),
                I64 => Val::L(g.init),
                F32 => Val::F(0.0),
                F64 => Val::D(0.0),
                _ => Val::Null,
            })
            .collect();
        let mut table = vec![];
        if let Some((n, es)) = &m.table {
            table = vec![None; *n as usize];
            for (o, fs) in es {
                for (k, f) in fs.iter().enumerate() {
                    table[*o as usize + k] = Some(*f);
                }
            }
        }
        Inst { m, mem, globals, table, fuel: 0, events: vec![], answers: vec![], seed, touched: vec![] }
    }
    fn call(&mut self, f: usize, args: Vec<Val>) -> Result<Val, Stop> {
        let fun = &self.m.fs[f];
        if fun.import {
            self.events.push(format!("{}({})", host(fun), args.iter().map(show).collect::<Vec<_>>().join(", ")));
            let v = match fun.ret {
                Nil => Val::Nil,
                r => {
                    let k = self.answers.len();
                    let mut s = self.seed.iter().cycle().skip(k % self.seed.len()).filter(|v| ty_of(v) == r);
                    s.next().cloned().unwrap()
                }
            };
            self.answers.push(if fun.ret == Nil { "0".into() } else { show(&v) });
            return Ok(v);
        }
        let mut env = HashMap::new();
        for (a, v) in fun.args.iter().zip(&args) {
            env.insert(*a, v.clone());
        }
        let mut locals = args;
        match self.run(&fun.body, &mut env, &mut locals)? {
            Flow::Ret(v) => Ok(v),
            _ => panic!("generator bug: no return"),
        }
    }
    fn ea(&self, a: &Val, at: &[(&'static str, i64)], size: usize) -> Result<usize, Stop> {
        let e = i(a) as u32 as u64 + attr(at, "offset") as u64;
        if e + size as u64 > self.mem.len() as u64 { Err(Stop::Trap) } else { Ok(e as usize) }
    }
    fn op(&mut self, n: &str, a: &[Val], at: &[(&'static str, i64)], locals: &mut [Val], rty: Ty) -> Result<Val, Stop> {
        if let Some((_, t, size, signed)) = loads().iter().find(|l| l.0 == n) {
            let e = self.ea(&a[0], at, *size)?;
            let mut w = 0u64;
            for k in (0..*size).rev() {
                w = w << 8 | self.mem[e + k] as u64;
            }
            if *signed {
                let s = 64 - 8 * *size as u32;
                w = ((w << s) as i64 >> s) as u64;
            }
            return Ok(match t {
                I32 => Val::I(w as i32),
                I64 => Val::L(w as i64),
                F32 => Val::F(f32::from_bits(w as u32)),
                _ => Val::D(f64::from_bits(w)),
            });
        }
        if let Some((_, _, size)) = stores().iter().find(|l| l.0 == n) {
            let e = self.ea(&a[0], at, *size)?;
            let w = match &a[1] {
                Val::I(x) => *x as u64,
                Val::L(x) => *x as u64,
                Val::F(x) if x.is_nan() => return Err(Stop::Unknown),
                Val::D(x) if x.is_nan() => return Err(Stop::Unknown),
                Val::F(x) => x.to_bits() as u64,
                Val::D(x) => x.to_bits(),
                _ => panic!(),
            };
            for k in 0..*size {
                self.mem[e + k] = (w >> (8 * k)) as u8;
            }
            self.touched.push(e as u32);
            return Ok(Val::Nil);
        }
        let arr = |v: &Val| match v {
            Val::Arr(a) => Ok(a.clone()),
            Val::Null => Err(Stop::Trap),
            v => panic!("generator bug: {v:?}"),
        };
        Ok(match n {
            "memory_size" => Val::I((self.mem.len() / 65536) as i32),
            "memory_grow" => {
                let d = i(&a[0]) as u32 as u64;
                let old = (self.mem.len() / 65536) as u64;
                let max = match self.m.mem.unwrap().1 {
                    0 => 65536,
                    x => x as u64,
                };
                if old + d > max {
                    Val::I(-1)
                } else if d > 16 || old + d > 40 {
                    return Err(Stop::Unknown);
                } else {
                    self.mem.resize(self.mem.len() + d as usize * 65536, 0);
                    Val::I(old as i32)
                }
            }
            "local_get" => locals[attr(at, "index") as usize].clone(),
            "local_set" | "local_tee" => {
                locals[attr(at, "index") as usize] = a[0].clone();
                a[0].clone()
            }
            "global_get" => {
                let v = self.globals[attr(at, "index") as usize].clone();
                if rty == Arr && !matches!(v, Val::Null | Val::Arr(_)) {
                    return Err(Stop::Trap);
                }
                v
            }
            "global_set" => {
                self.globals[attr(at, "index") as usize] = a[0].clone();
                Val::Nil
            }
            "drop" => Val::Nil,
            "ref_i31" => Val::I31(i(&a[0]) << 1 >> 1),
            "i31_get_s" | "i31_get_u" => match &a[0] {
                Val::I31(x) => Val::I(if n == "i31_get_u" { x & 0x7fff_ffff } else { *x }),
                Val::Null => return Err(Stop::Trap),
                v => panic!("generator bug: {v:?}"),
            },
            "ref_null" => Val::Null,
            "ref_is_null" => Val::I(matches!(a[0], Val::Null) as i32),
            "ref_cast" => match &a[0] {
                v @ (Val::Null | Val::I31(_)) => v.clone(),
                _ => return Err(Stop::Trap),
            },
            "ref_test" => match &a[0] {
                Val::Null => return Err(Stop::Unknown),
                v => Val::I(matches!(v, Val::I31(_)) as i32),
            },
            "array_new" | "array_new_default" => {
                let k = i(&a[0]) as u32;
                if k > 4096 {
                    return Err(Stop::Unknown);
                }
                Val::Arr(Rc::new(RefCell::new(vec![a.get(1).map_or(0, |v| i(v) as u8); k as usize])))
            }
            "array_len" => Val::I(arr(&a[0])?.borrow().len() as i32),
            "array_get_u" | "array_get_s" => {
                let x = *arr(&a[0])?.borrow().get(i(&a[1]) as u32 as usize).ok_or(Stop::Trap)?;
                Val::I(if n == "array_get_s" { x as i8 as i32 } else { x as i32 })
            }
            "array_set" => {
                *arr(&a[0])?.borrow_mut().get_mut(i(&a[1]) as u32 as usize).ok_or(Stop::Trap)? = i(&a[2]) as u8;
                Val::Nil
            }
            "array_copy" => {
                let (d, s) = (arr(&a[0])?, arr(&a[2])?);
                let (d0, s0, l) = (i(&a[1]) as u32 as usize, i(&a[3]) as u32 as usize, i(&a[4]) as u32 as usize);
                if d0 + l > d.borrow().len() || s0 + l > s.borrow().len() {
                    return Err(Stop::Trap);
                }
                let tmp = s.borrow()[s0..s0 + l].to_vec();
                d.borrow_mut()[d0..d0 + l].copy_from_slice(&tmp);
                Val::Nil
            }
            "bytes_from_data" => {
                let s = &self.m.data[attr(at, "data_idx") as usize];
                let (o, l) = (attr(at, "offset") as usize, attr(at, "len") as usize);
                // an active segment is dropped once it has been copied into memory
                let len = if s.passive { s.bytes.len() } else { 0 };
                if o + l > len {
                    return Err(Stop::Trap);
                }
                Val::Bytes(Rc::new(RefCell::new(s.bytes[o..o + l].to_vec())), 0, l as i32)
            }
            "struct_new" => match &a[0] {
                Val::Arr(x) => Val::Bytes(x.clone(), i(&a[1]), i(&a[2])),
                Val::Null => return Err(Stop::Trap),
                v => panic!("generator bug: {v:?}"),
            },
            "struct_get" => match (&a[0], attr(at, "field_idx")) {
                (Val::Bytes(x, ..), 0) => Val::Arr(x.clone()),
                (Val::Bytes(_, o, _), 1) => Val::I(*o),
                (Val::Bytes(_, _, l), _) => Val::I(*l),
                (v, _) => panic!("generator bug: {v:?}"),
            },
            _ => num(n, a)?,
        })
    }
    fn run(&mut self, body: &[S], env: &mut HashMap<Id, Val>, locals: &mut Vec<Val>) -> Result<Flow, Stop> {
        for s in body {
            self.fuel -= 1;
            if self.fuel < 0 {
                return Err(Stop::Unknown);
            }
            let get = |env: &HashMap<Id, Val>, x: &Id| env[x].clone();
            match s {
                S::Const(x, v) => {
                    env.insert(*x, v.clone());
                }
                S::Op(n, a, r, at) => {
                    let a: Vec<Val> = a.iter().map(|x| get(env, x)).collect();
                    let v = self.op(n, &a, at, locals, r.map_or(Nil, |r| r.1))?;
                    if let Some((x, _)) = r {
                        env.insert(*x, v);
                    }
                }
                S::If(c, r, t, e) => {
                    let b = if i(&get(env, c)) != 0 { t } else { e };
                    match self.run(b, env, locals)? {
                        Flow::Next | Flow::Br(0, None) => {}
                        Flow::Yield(v) | Flow::Br(0, Some(v)) => {
                            env.insert(r.unwrap().0, v);
                        }
                        Flow::Br(k, v) => return Ok(Flow::Br(k - 1, v)),
                        f => return Ok(f),
                    }
                }
                S::Block(r, b) => match self.run(b, env, locals)? {
                    Flow::Next | Flow::Br(0, None) => {}
                    Flow::Yield(v) | Flow::Br(0, Some(v)) => {
                        env.insert(r.unwrap().0, v);
                    }
                    Flow::Br(k, v) => return Ok(Flow::Br(k - 1, v)),
                    f => return Ok(f),
                },
                S::Loop(arg, r, b) => {
                    if let Some((x, init, _)) = arg {
                        let v = get(env, init);
                        env.insert(*x, v);
                    }
                    loop {
                        match self.run(b, env, locals)? {
                            Flow::Next => break,
                            Flow::Yield(v) => {
                                env.insert(r.unwrap().0, v);
                                break;
                            }
                            Flow::Br(0, v) => {
                                if let Some((x, ..)) = arg {
                                    env.insert(*x, v.unwrap());
                                }
                            }
                            Flow::Br(k, v) => return Ok(Flow::Br(k - 1, v)),
                            f => return Ok(f),
                        }
                    }
                }
                S::Br(d, v) => return Ok(Flow::Br(*d, v.as_ref().map(|x| get(env, x)))),
                S::BrIf(c, d) => {
                    if i(&get(env, c)) != 0 {
                        return Ok(Flow::Br(*d, None));
                    }
                }
                S::Yield(x) => return Ok(Flow::Yield(get(env, x))),
                S::Ret(x) => return Ok(Flow::Ret(x.as_ref().map_or(Val::Nil, |x| get(env, x)))),
                S::Call(f, a, r) => {
                    let a = a.iter().map(|x| get(env, x)).collect();
                    let v = self.call(*f, a)?;
                    if let Some((x, _)) = r {
                        env.insert(*x, v);
                    }
                }
                S::CallInd(k, a, r) => {
                    let want: Vec<Ty> = a.iter().map(|x| ty_of(&env[x])).collect();
                    let ret = r.map_or(Nil, |r| r.1);
                    let a = a.iter().map(|x| get(env, x)).collect();
                    let f = *self.table.get(i(&get(env, k)) as u32 as usize).ok_or(Stop::Trap)?;
                    let f = f.ok_or(Stop::Trap)?;
                    if self.m.fs[f].params != want || self.m.fs[f].ret != ret {
                        return Err(Stop::Trap);
                    }
                    let v = self.call(f, a)?;
                    if let Some((x, _)) = r {
                        env.insert(*x, v);
                    }
                }
                S::Tail(f, a) => {
                    let a = a.iter().map(|x| get(env, x)).collect();
                    return Ok(Flow::Ret(self.call(*f, a)?));
                }
                S::Unreachable => return Err(Stop::Trap),
            }
        }
        Ok(Flow::Next)
    }
}
fn ty_of(v: &Val) -> Ty {
    match v {
        Val::I(_) => I32,
        Val::L(_) => I64,
        Val::F(_) => F32,
        Val::D(_) => F64,
        Val::Null => Any,
        Val::I31(_) => I31,
        Val::Arr(_) => Arr,
        Val::Bytes(..) => Bytes,
        Val::Nil => Nil,
    }
}

// ---------------------------------------------------------------- generation
struct G<'a> {
    t: &'a mut Tape,
    m: Mod,
    next: Id,
    /// enclosing constructs, innermost last: what a branch to it carries
    labels: Vec<Option<Ty>>,
    budget: i32,
    params: Vec<Ty>,
    locals: Vec<bool>,
    ret: Ty,
}
type Scope = Vec<(Id, Ty)>;
impl G<'_> {
    fn fresh(&mut self) -> Id {
        self.next += 1;
        self.next - 1
    }
    fn konst(&mut self, ty: Ty) -> Val {
        match ty {
            I32 => Val::I(match self.t.idx(4) {
                0 => *self.t.pick(&[0, 1, -1, i32::MIN, i32::MAX, 31, 32, 63, 64, 128, 255, 256, -128, 0x7fff, 0x8000, -129]),
                1 => *self.t.pick(&[4, 8, 16, 100, 65520, 65528, 65532, 65535, 65536, 131072, 131068]),
                2 => self.t.int_edge() as i32,
                _ => self.t.upto(9) as i32,
            }),
            I64 => Val::L(match self.t.idx(3) {
                0 => *self.t.pick(&[0, 1, -1, i64::MIN, i64::MAX, 63, 64, 65, 1 << 32, 0xffff_ffff, -0x8000_0000, 0x8000_0000]),
                1 => self.t.int_edge(),
                _ => self.t.u64() as i64,
            }),
            F32 => Val::F(match self.t.idx(3) {
                0 => *self.t.pick(&[0.0, -0.0, 1.0, -1.0, 1.5, 2147483648.0, -2147483648.0, 4294967296.0, 9.223372e18, f32::INFINITY, f32::MIN_POSITIVE, f32::MAX, 16777217.0, -0.75]),
                1 => self.t.range(-300, 300) as f32 / 8.0,
                _ => {
                    let x = f32::from_bits(self.t.u64() as u32);
                    if x.is_nan() { 3.25 } else { x }
                }
            }),
            F64 => Val::D(match self.t.idx(3) {
                0 => *self.t.pick(&[0.0, -0.0, 1.0, -1.0, 0.1, 2147483647.0, 2147483648.5, -2147483648.9, -2147483649.0, 4294967295.5, 4294967296.0, 9.223372036854775e18, 1.8446744073709552e19, f64::NEG_INFINITY, f64::MAX, 1e-310, -0.99]),
                1 => self.t.range(-3000, 3000) as f64 / 16.0,
                _ => {
                    let x = f64::from_bits(self.t.u64());
                    if x.is_nan() { 3.25 } else { x }
                }
            }),
            _ => unreachable!(),
        }
    }
    fn value(&mut self, ty: Ty, sc: &mut Scope, out: &mut Vec<S>) -> Id {
        let have: Vec<Id> = sc.iter().filter(|x| x.1 == ty).map(|x| x.0).collect();
        if !have.is_empty() && !self.t.chance(1, 4) {
            // prefer recent values
            let k = have.len();
            let j = if self.t.bool() { k - 1 - self.t.idx(k.min(4)) } else { self.t.idx(k) };
            return have[j];
        }
        let x = self.fresh();
        match ty {
            I32 | I64 | F32 | F64 => {
                let v = self.konst(ty);
                out.push(S::Const(x, v));
            }
            Any => match self.t.idx(3) {
                0 => out.push(S::Op("ref_null", vec![], Some((x, Any)), vec![])),
                _ => {
                    let v = self.value(I32, sc, out);
                    out.push(S::Op("ref_i31", vec![v], Some((x, Any)), vec![]));
                }
            },
            I31 => {
                let v = self.value(I32, sc, out);
                out.push(S::Op("ref_i31", vec![v], Some((x, I31)), vec![]));
            }
            Arr | Arr1 => {
                let k = self.fresh();
                let n = self.t.upto(9) as i32;
                out.push(S::Const(k, Val::I(n)));
                if self.t.bool() {
                    let v = self.value(I32, sc, out);
                    out.push(S::Op("array_new", vec![k, v], Some((x, ty)), vec![("type_idx", 1)]));
                } else {
                    out.push(S::Op("array_new_default", vec![k], Some((x, ty)), vec![("type_idx", 1)]));
                }
            }
            Bytes => {
                if !self.m.data.is_empty() && self.t.chance(2, 3) {
                    let d = self.t.idx(self.m.data.len());
                    let n = self.m.data[d].bytes.len();
                    let o = self.t.upto(n);
                    let l = if self.t.chance(1, 12) { n - o + 1 } else { self.t.upto(n - o) };
                    out.push(S::Op("bytes_from_data", vec![], Some((x, Bytes)), vec![("data_idx", d as i64), ("offset", o as i64), ("len", l as i64)]));
                } else {
                    let a = self.value(Arr1, sc, out);
                    let (o, l) = (self.value(I32, sc, out), self.value(I32, sc, out));
                    out.push(S::Op("struct_new", vec![a, o, l], Some((x, Bytes)), vec![("type_idx", 2)]));
                }
            }
            Nil => unreachable!(),
        }
        sc.push((x, ty));
        x
    }
    fn addr(&mut self, sc: &mut Scope, out: &mut Vec<S>) -> Id {
        if self.t.chance(1, 4) {
            return self.value(I32, sc, out);
        }
        let x = self.fresh();
        let pages = self.m.mem.unwrap().0 as i32 * 65536;
        let k = match self.t.idx(6) {
            0 => pages - 1 - self.t.upto(9) as i32,
            1 => *self.t.pick(&[65536, 65535, 65532, -1, -8]),
            _ => self.t.upto(48) as i32,
        };
        out.push(S::Const(x, Val::I(k)));
        x
    }
    fn memattrs(&mut self) -> Vec<(&'static str, i64)> {
        let o = match self.t.idx(8) {
            0 => *self.t.pick(&[65530, 65536, 4294967295, 65528]),
            1..=3 => self.t.upto(17) as i64,
            _ => 0,
        };
        let al = *self.t.pick(&[0, 0, 0, 1, 2, 3, 4]);
        vec![("offset", o), ("align", al), ("memory", 0)]
    }
    /// one random statement; false when control does not go on
    fn stmt(&mut self, sc: &mut Scope, out: &mut Vec<S>, f: usize, depth: usize) -> bool {
        self.budget -= 1;
        let mem = self.m.mem.is_some();
        let ws = [8, if mem { 8 } else { 0 }, if mem { 7 } else { 0 }, if mem { 2 } else { 0 }, 4, 5, 4, 4, if depth < 4 { 3 } else { 0 }, if depth < 4 { 2 } else { 0 }, if depth < 4 { 3 } else { 0 }, 3, 3, if self.m.table.is_some() { 3 } else { 0 }, 2];
        match self.t.weighted(&ws) {
            0 => {
                let all = numeric();
                let (n, a, r) = &all[self.t.idx(all.len())];
                let a: Vec<Id> = a.iter().map(|t| self.value(*t, sc, out)).collect();
                let x = self.fresh();
                out.push(S::Op(n, a, Some((x, *r)), vec![]));
                sc.push((x, *r));
            }
            1 => {
                let (n, ty, ..) = *self.t.pick(&loads());
                let a = self.addr(sc, out);
                let at = self.memattrs();
                let x = self.fresh();
                out.push(S::Op(n, vec![a], Some((x, ty)), at));
                sc.push((x, ty));
            }
            2 => {
                let (n, ty, _) = *self.t.pick(&stores());
                let a = self.addr(sc, out);
                let v = self.value(ty, sc, out);
                let at = self.memattrs();
                out.push(S::Op(n, vec![a, v], None, at));
            }
            3 => {
                let x = self.fresh();
                if self.t.bool() {
                    out.push(S::Op("memory_size", vec![], Some((x, I32)), vec![("memory", 0)]));
                } else {
                    let d = self.fresh();
                    let k = *self.t.pick(&[0, 1, 1, 2, -1, 70000, 3]);
                    out.push(S::Const(d, Val::I(k)));
                    out.push(S::Op("memory_grow", vec![d], Some((x, I32)), vec![("memory", 0)]));
                }
                sc.push((x, I32));
            }
            4 => {
                let ls: Vec<usize> = (0..self.params.len()).filter(|k| self.locals[*k]).collect();
                if ls.is_empty() {
                    return true;
                }
                let k = *self.t.pick(&ls);
                let ty = self.params[k];
                let at = vec![("index", k as i64)];
                match self.t.idx(3) {
                    0 => {
                        let v = self.value(ty, sc, out);
                        out.push(S::Op("local_set", vec![v], None, at));
                    }
                    1 => {
                        let v = self.value(ty, sc, out);
                        let x = self.fresh();
                        out.push(S::Op("local_tee", vec![v], Some((x, ty)), at));
                        sc.push((x, ty));
                    }
                    _ => {
                        let x = self.fresh();
                        out.push(S::Op("local_get", vec![], Some((x, ty)), at));
                        sc.push((x, ty));
                    }
                }
            }
            5 => {
                if self.m.globals.is_empty() {
                    return true;
                }
                let k = self.t.idx(self.m.globals.len());
                let g = self.m.globals[k].clone();
                let at = vec![("index", k as i64)];
                if g.mutable && self.t.bool() {
                    let ty = if g.ty == Any { *self.t.pick(&[Any, Arr, I31]) } else { g.ty };
                    let v = self.value(ty, sc, out);
                    out.push(S::Op("global_set", vec![v], None, at));
                } else {
                    let ty = if g.ty == Any && self.t.chance(1, 3) { Arr } else { g.ty };
                    let x = self.fresh();
                    out.push(S::Op("global_get", vec![], Some((x, ty)), at));
                    sc.push((x, ty));
                }
            }
            6 => {
                let x = self.fresh();
                let (s, ty) = match self.t.idx(6) {
                    0 => (S::Op("i31_get_s", vec![self.value(I31, sc, out)], Some((x, I32)), vec![]), I32),
                    1 => (S::Op("i31_get_u", vec![self.value(I31, sc, out)], Some((x, I32)), vec![]), I32),
                    2 => (S::Op("ref_is_null", vec![self.value(Any, sc, out)], Some((x, I32)), vec![]), I32),
                    3 => (S::Op("ref_cast", vec![self.value(Any, sc, out)], Some((x, I31)), vec![]), I31),
                    4 => (S::Op("ref_test", vec![self.value(Any, sc, out)], Some((x, I32)), vec![]), I32),
                    _ => (S::Op("ref_null", vec![], Some((x, Any)), vec![]), Any),
                };
                let signed = matches!(s, S::Op("i31_get_s", ..));
                out.push(s);
                if signed {
                    // V8 (node 22) leaves the result of i31.get_s sign-extended to 64 bits, which shows
                    // when it is used as an address; a 32-bit operation on it repairs that
                    let (k, y) = (self.fresh(), self.fresh());
                    out.push(S::Const(k, Val::I(0x15)));
                    out.push(S::Op("i32_xor", vec![x, k], Some((y, I32)), vec![]));
                    sc.push((y, I32));
                } else {
                    sc.push((x, ty));
                }
            }
            7 => {
                let x = self.fresh();
                match self.t.idx(7) {
                    0 => {
                        let a = self.value(Arr, sc, out);
                        out.push(S::Op("array_len", vec![a], Some((x, I32)), vec![]));
                        sc.push((x, I32));
                    }
                    k @ 1..=2 => {
                        let (a, j) = (self.value(Arr, sc, out), self.value(I32, sc, out));
                        out.push(S::Op(if k == 1 { "array_get_u" } else { "array_get_s" }, vec![a, j], Some((x, I32)), vec![("type_idx", 1)]));
                        sc.push((x, I32));
                    }
                    3 => {
                        let (a, j, v) = (self.value(Arr, sc, out), self.small(out), self.value(I32, sc, out));
                        out.push(S::Op("array_set", vec![a, j, v], None, vec![("type_idx", 1)]));
                    }
                    4 => {
                        let (a, b) = (self.value(Arr, sc, out), self.value(Arr, sc, out));
                        let (j, k, l) = (self.small(out), self.small(out), self.small(out));
                        out.push(S::Op("array_copy", vec![a, j, b, k, l], None, vec![("dst_type_idx", 1), ("src_type_idx", 1)]));
                    }
                    _ => {
                        let b = self.value(Bytes, sc, out);
                        let k = self.t.idx(3);
                        let ty = if k == 0 { Arr } else { I32 };
                        out.push(S::Op("struct_get", vec![b], Some((x, ty)), vec![("type_idx", 2), ("field_idx", k as i64)]));
                        sc.push((x, ty));
                    }
                }
            }
            8 => {
                let c = self.value(I32, sc, out);
                let r = self.result();
                let t = self.region(r, None, sc, f, depth);
                let e = self.region(r, None, sc, f, depth);
                // both sides may leave for good: then nothing follows
                self.finish(r, sc, |r| S::If(c, r, t, e), out);
            }
            9 => {
                let r = self.result();
                let b = self.region(r, Some(r), sc, f, depth);
                self.finish(r, sc, |r| S::Block(r, b), out);
            }
            10 => {
                let r = self.result();
                if self.t.chance(2, 3) {
                    // counts down
                    let n = self.fresh();
                    let k = self.t.upto(5) as i32 + 1;
                    out.push(S::Const(n, Val::I(k)));
                    let x = self.fresh();
                    let mut isc = sc.clone();
                    isc.push((x, I32));
                    self.labels.push(Some(I32));
                    let mut b = vec![];
                    let mut live = true;
                    for _ in 0..self.t.upto(3) {
                        live = self.stmt(&mut isc, &mut b, f, depth + 1);
                        if !live {
                            break;
                        }
                    }
                    if live {
                        let (one, y) = (self.fresh(), self.fresh());
                        b.push(S::Const(one, Val::I(1)));
                        b.push(S::Op("i32_sub", vec![x, one], Some((y, I32)), vec![]));
                        b.push(S::If(y, None, vec![S::Br(1, Some(y))], vec![]));
                        if let Some(ty) = r {
                            let v = self.value(ty, &mut isc, &mut b);
                            b.push(S::Yield(v));
                        }
                    }
                    self.labels.pop();
                    self.finish(r, sc, |r| S::Loop(Some((x, n, I32)), r, b), out);
                } else {
                    let ty = if self.t.bool() { Some(*self.t.pick(&NUM)) } else { None };
                    let arg = ty.map(|ty| {
                        let init = self.value(ty, sc, out);
                        (self.fresh(), init, ty)
                    });
                    let mut isc = sc.clone();
                    if let Some((x, _, ty)) = arg {
                        isc.push((x, ty));
                    }
                    let b = self.region(r, Some(ty), &isc, f, depth);
                    self.finish(r, sc, |r| S::Loop(arg, r, b), out);
                }
            }
            11 => {
                // branches
                let to: Vec<u32> = (0..self.labels.len() as u32).collect();
                if to.is_empty() {
                    return true;
                }
                let d = *self.t.pick(&to);
                match self.labels[self.labels.len() - 1 - d as usize] {
                    None => {
                        if self.t.chance(2, 3) {
                            let c = self.value(I32, sc, out);
                            out.push(S::BrIf(c, d));
                        } else {
                            out.push(S::Br(d, None));
                            return false;
                        }
                    }
                    Some(ty) => {
                        let v = self.value(ty, sc, out);
                        if self.t.chance(2, 3) {
                            let c = self.value(I32, sc, out);
                            out.push(S::If(c, None, vec![S::Br(d + 1, Some(v))], vec![]));
                        } else {
                            out.push(S::Br(d, Some(v)));
                            return false;
                        }
                    }
                }
            }
            12 => {
                if f == 0 {
                    return true;
                }
                let g = self.t.idx(f);
                let ps = self.m.fs[g].params.clone();
                let a: Vec<Id> = ps.iter().map(|t| self.value(*t, sc, out)).collect();
                let ret = self.m.fs[g].ret;
                if ret == self.ret && self.t.chance(1, 8) {
                    out.push(S::Tail(g, a));
                    return false;
                }
                let x = self.fresh();
                out.push(S::Call(g, a, Some((x, ret))));
                if ret != Nil {
                    sc.push((x, ret));
                }
            }
            13 => {
                // through the table, usually at the type of one of its functions
                let fs: Vec<usize> = self.m.table.as_ref().unwrap().1.iter().flat_map(|e| e.1.clone()).collect();
                let Some(g) = (!fs.is_empty()).then(|| *self.t.pick(&fs)) else { return true };
                // entries lie below the first function allowed to call them
                if g >= f {
                    return true;
                }
                let k = self.small(out);
                let ps = self.m.fs[g].params.clone();
                let a: Vec<Id> = ps.iter().map(|t| self.value(*t, sc, out)).collect();
                let ret = self.m.fs[g].ret;
                let x = self.fresh();
                out.push(S::CallInd(k, a, Some((x, ret))));
                if ret != Nil {
                    sc.push((x, ret));
                }
            }
            _ => {
                if self.t.bool() {
                    let ty = *self.t.pick(&[I32, I64, F64, Any, Arr]);
                    let v = self.value(ty, sc, out);
                    out.push(S::Op("drop", vec![v], None, vec![]));
                    return true;
                }
                if self.t.chance(1, 6) {
                    out.push(S::Unreachable);
                } else if depth > 0 || self.t.chance(1, 4) {
                    let v = (self.ret != Nil).then(|| self.value(self.ret, sc, out));
                    out.push(S::Ret(v));
                } else {
                    return true;
                }
                return false;
            }
        }
        true
    }
    fn small(&mut self, out: &mut Vec<S>) -> Id {
        let x = self.fresh();
        let k = self.t.upto(5) as i32;
        out.push(S::Const(x, Val::I(k)));
        x
    }
    fn result(&mut self) -> Option<Ty> {
        if self.t.bool() { Some(*self.t.pick(&[I32, I64, F32, F64, Any, Arr])) } else { None }
    }
    fn finish(&mut self, r: Option<Ty>, sc: &mut Scope, s: impl FnOnce(Option<(Id, Ty)>) -> S, out: &mut Vec<S>) {
        let r = r.map(|ty| (self.fresh(), ty));
        out.push(s(r));
        if let Some(x) = r {
            sc.push(x);
        }
    }
    /// a region yielding `r`; `label` is what a branch to its end (or a loop's start) carries, None for an if
    fn region(&mut self, r: Option<Ty>, label: Option<Option<Ty>>, sc: &Scope, f: usize, depth: usize) -> Vec<S> {
        let mut sc = sc.clone();
        let mut b = vec![];
        self.labels.push(match label {
            Some(l) => l,
            None => r,
        });
        let n = if self.budget > 0 { self.t.upto(4) } else { 0 };
        let mut live = true;
        for _ in 0..n {
            live = self.stmt(&mut sc, &mut b, f, depth + 1);
            if !live {
                break;
            }
        }
        if live && let Some(ty) = r {
            let v = self.value(ty, &mut sc, &mut b);
            b.push(S::Yield(v));
        }
        self.labels.pop();
        b
    }
}
fn generate(t: &mut Tape) -> Mod {
    let mem = t.chance(7, 8).then(|| {
        let min = *t.pick(&[1, 1, 1, 2, 0]);
        let max = if t.bool() { 0 } else { (min + t.upto(2) as u32).max(1) };
        (min, max)
    });
    let mut data = vec![];
    for _ in 0..t.upto(4) {
        let bytes: Vec<u8> = (0..t.upto(12)).map(|_| t.u64() as u8).collect();
        let passive = mem.is_none_or(|m| m.0 == 0) || t.bool();
        let offset = if t.chance(1, 5) { 65536 - bytes.len() } else { t.upto(40) } as u32;
        data.push(Seg { offset, bytes, passive });
    }
    let mut globals = vec![];
    for _ in 0..t.upto(5) {
        let ty = *t.pick(&[I32, I64, F32, F64, Any, Any, I32]);
        let init = match ty {
            I32 => t.int_edge() as i32 as i64,
            I64 => t.int_edge(),
            _ => 0,
        };
        globals.push(Global { ty, mutable: t.chance(4, 5), init });
    }
    let m = Mod { mem, data, globals, table: None, fs: vec![] };
    let mut g = G { t, m, next: 0, labels: vec![], budget: 0, params: vec![], locals: vec![], ret: Nil };
    let ni = g.t.upto(2);
    let nf = 1 + g.t.upto(4);
    for f in 0..ni + nf {
        let import = f < ni;
        let params: Vec<Ty> = (0..g.t.upto(4)).map(|_| *g.t.pick(&[I32, I64, F32, F64, I32])).collect();
        let ret = *g.t.pick(&[I32, I64, F32, F64, I32, Nil]);
        let name = if import { format!("ext{f}") } else { format!("f{f}") };
        if import {
            g.m.fs.push(Fun { name, import, locals: vec![], args: vec![], params, ret, body: vec![] });
            continue;
        }
        if f == ni + 1 && g.t.chance(2, 3) {
            // a table over the functions so far
            let n = 2 + g.t.upto(4) as u32;
            let mut es = vec![];
            for _ in 0..1 + g.t.upto(1) {
                let o = g.t.upto(n as usize) as u32;
                let k = g.t.upto((n - o) as usize);
                es.push((o, (0..k).map(|_| g.t.idx(f)).collect()));
            }
            g.m.table = Some((n, es));
        }
        let locals: Vec<bool> = params.iter().map(|_| g.t.chance(1, 3)).collect();
        let args: Vec<Id> = params.iter().map(|_| g.fresh()).collect();
        let mut sc: Scope = (0..params.len()).filter(|k| !locals[*k]).map(|k| (args[k], params[k])).collect();
        (g.params, g.locals, g.ret, g.budget) = (params.clone(), locals.clone(), ret, 24);
        let mut body = vec![];
        let mut live = true;
        for _ in 0..3 + g.t.upto(9) {
            live = g.stmt(&mut sc, &mut body, f, 0);
            if !live {
                break;
            }
        }
        if live {
            let v = (ret != Nil).then(|| g.value(ret, &mut sc, &mut body));
            body.push(S::Ret(v));
        }
        g.m.fs.push(Fun { name, import, params, locals, args, ret, body });
    }
    if g.m.mem.is_some() {
        let (a, r) = (g.fresh(), g.fresh());
        g.m.fs.push(Fun { name: "peek".into(), import: false, params: vec![I32], locals: vec![false], args: vec![a], ret: I64, body: vec![S::Op("i64_load", vec![a], Some((r, I64)), vec![("offset", 0), ("align", 0), ("memory", 0)]), S::Ret(Some(r))] });
    }
    g.m
}

// ---------------------------------------------------------------- emission
struct E<'a> {
    ctx: IrContext,
    m: &'a Mod,
    vals: HashMap<Id, ValueRef>,
}
fn a(k: &str, v: Attribute) -> (String, Attribute) {
    (k.into(), v)
}
impl E<'_> {
    fn ty(&mut self, t: Ty) -> TypeRef {
        let c = &mut self.ctx;
        match t {
            I32 => core(c, "i32"),
            I64 => core(c, "i64"),
            F32 => core(c, "f32"),
            F64 => core(c, "f64"),
            Nil => core(c, "nil"),
            Bytes => core(c, "bytes"),
            Any => ty0(c, "wasm", "anyref"),
            I31 => ty0(c, "wasm", "i31ref"),
            Arr | Arr1 => {
                let i8 = core(c, "i8");
                let ar = c.types.intern(TypeDataBuilder::new(sym("core"), sym("array")).param(i8).build());
                let b = TypeDataBuilder::new(sym("core"), sym("ref")).param(ar);
                c.types.intern(if t == Arr { b.attr(sym("nullable"), Attribute::Bool(true)) } else { b }.build())
            }
        }
    }
    fn fnty(&mut self, f: &Fun) -> TypeRef {
        let ps: Vec<TypeRef> = f.params.iter().map(|t| self.ty(*t)).collect();
        let r = self.ty(f.ret);
        fnty(&mut self.ctx, r, &ps)
    }
    fn add(&mut self, b: BlockRef, name: &str, args: &[Id], r: Option<(Id, Ty)>, attrs: Vec<(String, Attribute)>, regions: Vec<RegionRef>) {
        let operands = args.iter().map(|x| self.vals[x]).collect();
        let results: Vec<TypeRef> = r.iter().map(|r| self.ty(r.1)).collect();
        let op = put(&mut self.ctx, b, &format!("wasm.{name}"), O { operands, results, attrs, regions, ..O::default() });
        if let Some((x, _)) = r {
            let v = self.ctx.op_result(op, 0);
            self.vals.insert(x, v);
        }
    }
    fn reg(&mut self, ss: &[S], arg: Option<(Id, Ty)>) -> RegionRef {
        let tys: Vec<TypeRef> = arg.iter().map(|x| self.ty(x.1)).collect();
        let b = block(&mut self.ctx, &tys);
        if let Some((x, _)) = arg {
            let v = self.ctx.block_arg(b, 0);
            self.vals.insert(x, v);
        }
        self.stmts(b, ss);
        region(&mut self.ctx, &[b])
    }
    fn construct(&mut self, b: BlockRef, name: &str, args: &[Id], r: Option<(Id, Ty)>, regions: Vec<RegionRef>) {
        // the structured operations always have a result, nil when there is nothing to say
        let fake = usize::MAX;
        self.add(b, name, args, Some(r.unwrap_or((fake, Nil))), vec![], regions);
    }
    fn stmts(&mut self, b: BlockRef, ss: &[S]) {
        for s in ss {
            match s {
                S::Const(x, v) => {
                    let (n, at) = match v {
                        Val::I(k) => ("i32_const", Attribute::Int(*k as i128)),
                        Val::L(k) => ("i64_const", Attribute::Int(*k as i128)),
                        Val::F(k) => ("f32_const", Attribute::FloatBits((*k as f64).to_bits())),
                        Val::D(k) => ("f64_const", Attribute::FloatBits(k.to_bits())),
                        _ => unreachable!(),
                    };
                    self.add(b, n, &[], Some((*x, ty_of(v))), vec![a("value", at)], vec![]);
                }
                S::Op(n, args, r, at) => {
                    let mut at: Vec<(String, Attribute)> = at.iter().map(|(k, v)| a(k, Attribute::Int(*v as i128))).collect();
                    match *n {
                        "ref_null" => at.push(a("heap_type", Attribute::Symbol(sym("any")))),
                        "ref_cast" | "ref_test" => {
                            let t = self.ty(I31);
                            at.push(a("target_type", Attribute::Type(t)));
                        }
                        _ => {}
                    }
                    self.add(b, n, args, *r, at, vec![]);
                }
                S::If(c, r, t, e) => {
                    let rs = vec![self.reg(t, None), self.reg(e, None)];
                    self.construct(b, "if", &[*c], *r, rs);
                }
                S::Block(r, x) => {
                    let rs = vec![self.reg(x, None)];
                    self.construct(b, "block", &[], *r, rs);
                }
                S::Loop(arg, r, x) => {
                    let rs = vec![self.reg(x, arg.map(|a| (a.0, a.2)))];
                    let init: Vec<Id> = arg.iter().map(|a| a.1).collect();
                    self.construct(b, "loop", &init, *r, rs);
                }
                S::Br(d, v) => {
                    if let Some(v) = v {
                        self.add(b, "yield", &[*v], None, vec![], vec![]);
                    }
                    self.add(b, "br", &[], None, vec![a("target", Attribute::Int(*d as i128))], vec![]);
                }
                S::BrIf(c, d) => self.add(b, "br_if", &[*c], None, vec![a("target", Attribute::Int(*d as i128))], vec![]),
                S::Yield(v) => self.add(b, "yield", &[*v], None, vec![], vec![]),
                S::Ret(v) => self.add(b, "return", &v.iter().copied().collect::<Vec<_>>(), None, vec![], vec![]),
                S::Call(f, args, r) => {
                    let n = self.m.fs[*f].name.clone();
                    self.add(b, "call", args, *r, vec![a("callee", Attribute::Symbol(sym(&n)))], vec![]);
                }
                S::CallInd(k, args, r) => {
                    let mut v = vec![*k];
                    v.extend(args);
                    self.add(b, "call_indirect", &v, *r, vec![a("type_idx", Attribute::Int(0)), a("table", Attribute::Int(0))], vec![]);
                }
                S::Tail(f, args) => {
                    let n = self.m.fs[*f].name.clone();
                    self.add(b, "return_call", args, None, vec![a("callee", Attribute::Symbol(sym(&n)))], vec![]);
                }
                S::Unreachable => self.add(b, "unreachable", &[], None, vec![], vec![]),
            }
        }
    }
}
fn emit(m: &Mod, t: &mut Tape) -> (IrContext, OpRef, HashMap<String, String>) {
    let mut e = E { ctx: IrContext::new(), m, vals: HashMap::new() };
    let mut groups: Vec<Vec<OpRef>> = vec![];
    let int = |x: u32| Attribute::Int(x as i128);
    if let Some((min, max)) = m.mem {
        groups.push(vec![mk(&mut e.ctx, "wasm.memory", O { attrs: vec![a("min", int(min)), a("max", int(max)), a("shared", Attribute::Bool(false)), a("memory64", Attribute::Bool(false))], ..O::default() })]);
    }
    let mut v = vec![];
    for s in &m.data {
        v.push(mk(&mut e.ctx, "wasm.data", O { attrs: vec![a("offset", int(if s.passive { 0 } else { s.offset })), a("bytes", Attribute::Bytes(s.bytes.clone().into())), a("passive", Attribute::Bool(s.passive))], ..O::default() }));
    }
    groups.push(v);
    let mut v = vec![];
    for g in &m.globals {
        let n = match g.ty {
            I32 => "i32",
            I64 => "i64",
            F32 => "f32",
            F64 => "f64",
            _ => "anyref",
        };
        v.push(mk(&mut e.ctx, "wasm.global", O { attrs: vec![a("valtype", Attribute::Symbol(sym(n))), a("mutable", Attribute::Bool(g.mutable)), a("init", Attribute::Int(g.init as i128))], ..O::default() }));
    }
    groups.push(v);
    let mut v = vec![];
    if let Some((n, es)) = &m.table {
        let mut at = vec![a("reftype", Attribute::Symbol(sym("funcref"))), a("min", int(*n))];
        if t.bool() {
            at.push(a("max", int(*n + 1)));
        }
        v.push(mk(&mut e.ctx, "wasm.table", O { attrs: at, ..O::default() }));
        for (o, fs) in es {
            let b = block(&mut e.ctx, &[]);
            let fr = ty0(&mut e.ctx, "wasm", "funcref");
            for f in fs {
                let n = m.fs[*f].name.clone();
                put1(&mut e.ctx, b, "wasm.ref_func", &[], fr, &[("func_name", Attribute::Symbol(sym(&n)))]);
            }
            let r = region(&mut e.ctx, &[b]);
            let mut at = vec![a("table", int(0)), a("offset", int(*o))];
            if t.chance(1, 4) {
                at.remove(0);
            }
            if *o == 0 && t.bool() {
                at.pop();
            }
            v.push(mk(&mut e.ctx, "wasm.elem", O { attrs: at, regions: vec![r], ..O::default() }));
        }
    }
    groups.push(v);
    let mut v = vec![];
    for f in &m.fs {
        let ty = e.fnty(f);
        if f.import {
            v.push(mk(&mut e.ctx, "wasm.import_func", O { attrs: vec![a("module", Attribute::Symbol(sym("env"))), a("name", Attribute::Symbol(sym(&host(f)))), a("sym_name", Attribute::Symbol(sym(&f.name))), a("type", Attribute::Type(ty))], ..O::default() }));
            continue;
        }
        let tys: Vec<TypeRef> = f.params.iter().map(|t| e.ty(*t)).collect();
        let b = block(&mut e.ctx, &tys);
        for (k, x) in f.args.iter().enumerate() {
            let val = e.ctx.block_arg(b, k as u32);
            e.vals.insert(*x, val);
        }
        e.stmts(b, &f.body);
        let r = region(&mut e.ctx, &[b]);
        v.push(mk(&mut e.ctx, "wasm.func", O { attrs: vec![a("sym_name", Attribute::Symbol(sym(&f.name))), a("type", Attribute::Type(ty))], regions: vec![r], ..O::default() }));
    }
    // functions may come in any order
    for k in (1..v.len()).rev() {
        let j = t.idx(k + 1);
        v.swap(k, j);
    }
    groups.push(v);
    // without exports, every function is exported under its own name
    let mut names = HashMap::new();
    let all = t.chance(1, 5);
    let mut v = vec![];
    for f in m.fs.iter().filter(|f| !f.import) {
        let n = if all { f.name.clone() } else { format!("x-{}", f.name) };
        if !all {
            v.push(mk(&mut e.ctx, "wasm.export_func", O { attrs: vec![a("name", Attribute::String(n.as_str().into())), a("func", Attribute::Symbol(sym(&f.name)))], ..O::default() }));
        }
        names.insert(f.name.clone(), n);
    }
    if !all && m.mem.is_some() {
        v.insert(0, mk(&mut e.ctx, "wasm.export_memory", O { attrs: vec![a("name", Attribute::String("memory".into())), a("index", int(0))], ..O::default() }));
    }
    groups.push(v);
    // the kinds of definitions may come in any order
    for k in (1..groups.len()).rev() {
        let j = t.idx(k + 1);
        groups.swap(k, j);
    }
    let mut ctx = e.ctx;
    let nested = t.idx(groups.len() * 3);
    let mut ops: Vec<OpRef> = vec![];
    for (k, g) in groups.into_iter().enumerate() {
        if k == nested {
            let inner = module(&mut ctx, "inner", &g);
            ops.push(inner);
        } else {
            ops.extend(g);
        }
    }
    let op = module(&mut ctx, "m", &ops);
    (ctx, op, names)
}
/// what the host calls an import
fn host(f: &Fun) -> String {
    format!("host_{}", f.name)
}
fn tyn(t: Ty) -> &'static str {
    match t {
        I32 => "i32",
        I64 => "i64",
        F32 => "f32",
        F64 => "f64",
        _ => "nil",
    }
}
pub fn case(t: &mut Tape) -> CaseResult {
    let m = generate(t);
    let (mut ctx, op, names) = emit(&m, t);
    let text = pretty::canon(&ctx, op, false, false);
    note(&text);
    // the history of calls on one instance
    let seed: Vec<Val> = (0..8).map(|k| { let mut g = G { t, m: Mod { mem: None, data: vec![], globals: vec![], table: None, fs: vec![] }, next: 0, labels: vec![], budget: 0, params: vec![], locals: vec![], ret: Nil }; g.konst(NUM[k % 4]) }).collect();
    let mut inst = Inst::new(&m, seed);
    let mut runs = vec![];
    let mut want = vec![];
    let own: Vec<usize> = (0..m.fs.len()).filter(|k| !m.fs[*k].import && m.fs[*k].name != "peek").collect();
    let n = 2 + t.upto(7);
    let mut peeks = 0;
    let mut k = 0;
    loop {
        let (f, args) = if k < n {
            let f = *t.pick(&own);
            let mut g = G { t, m: Mod { mem: None, data: vec![], globals: vec![], table: None, fs: vec![] }, next: 0, labels: vec![], budget: 0, params: vec![], locals: vec![], ret: Nil };
            let args: Vec<Val> = m.fs[f].params.iter().map(|ty| g.konst(*ty)).collect();
            (f, args)
        } else if m.mem.is_some() && k - n < inst.touched.len().min(8) {
            let at = inst.touched[inst.touched.len() - 1 - (k - n)];
            let at = at.min((inst.mem.len() as u32).saturating_sub(8));
            peeks += 1;
            (m.fs.len() - 1, vec![Val::I(at as i32)])
        } else {
            break;
        };
        k += 1;
        (inst.fuel, inst.events, inst.answers) = (3000, vec![], vec![]);
        let r = inst.call(f, args.clone());
        if matches!(r, Err(Stop::Unknown)) {
            break;
        }
        let fun = &m.fs[f];
        runs.push(Run { f: names[&fun.name].clone(), params: fun.params.iter().map(|t| tyn(*t)).collect(), ret: tyn(fun.ret), args: args.iter().map(show).collect(), answers: inst.answers.clone(), writes: vec![] });
        want.push((r.map(|v| show(&v)).ok(), inst.events.join("; ")));
    }
    let md = Module::new(&ctx, op).unwrap();
    let wasm = match trunk_ir_wasm_backend::emit_module_to_wasm(&mut ctx, md) {
        Ok(b) => b.bytes,
        Err(e) => return fail(format!("a well-formed module is not emitted: {e}"), text),
    };
    let imports: Vec<Import> = m.fs.iter().filter(|f| f.import).map(|f| Import { name: host(f), params: f.params.iter().map(|t| tyn(*t)).collect(), ret: tyn(f.ret) }).collect();
    let res = match node::run(&wasm, &imports, &runs, 20_000) {
        Reply::Bad(e) => return fail(format!("module is rejected| {e}"), text),
        Reply::Timeout => return fail("the emitted module does not end", text),
        Reply::Runs(r) => r,
    };
    let mut done = 0;
    for (k, (r, (w, ev))) in res.iter().zip(&want).enumerate() {
        let ok = match w {
            Some(v) => r.kind == "ok" && r.value == *v,
            None => r.kind == "trap",
        };
        if !ok || r.events != *ev {
            let hist: Vec<String> = runs[..=k].iter().map(|r| format!("{}({})", r.f, r.args.join(", "))).collect();
            return fail(format!("the emitted module differs| after {} should give {w:?} with [{ev}]; it gave {} {} with [{}]", hist.join("; "), r.kind, r.value, r.events), text);
        }
        done += w.is_some() as usize;
    }
    let mut tags = vec![];
    if peeks > 0 {
        tags.push("memory written".into());
    }
    if want.iter().any(|w| w.0.is_none()) {
        tags.push("trap".into());
    }
    Ok(Case { nontrivial: done >= 2, key: hash_str(&text), render: text, tags })
}
