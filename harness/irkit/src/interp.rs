//! Reference interpreter for the target-independent dialects (func/arith/scf/cf/adt).
//! Written from the dialect documentation; shares no code with the compiler's
//! folds, lowerings or back ends.
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;
use trunk_ir::Symbol;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::types::Attribute;

#[derive(Clone, Debug)]
pub enum Val {
    I(i64),
    F32(f32),
    F64(f64),
    Unit,
    Fn(String),
    Obj(Rc<Obj>),
    Null,
    Bytes(Rc<Vec<u8>>),
}
#[derive(Debug)]
pub struct Obj {
    pub tag: Option<String>,
    pub fields: RefCell<Vec<Val>>,
    /// was a field of another object at some time
    pub stored: std::cell::Cell<bool>,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Stop {
    /// Defined runtime trap (division by zero, overflow, invalid float conversion, null...).
    Trap(&'static str),
    /// Reached func.unreachable.
    Unreachable,
    Fuel,
    /// The program is not executable by this interpreter: malformed IR.
    Stuck(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Event {
    pub callee: String,
    pub args: Vec<String>,
    pub ret: String,
}

pub struct Interp<'a> {
    pub ctx: &'a IrContext,
    pub funcs: HashMap<String, OpRef>,
    pub fuel: u64,
    pub trace: Vec<Event>,
    pub depth: usize,
    pub ext_counter: u64,
    /// Result of an external call.
    pub extern_fn: fn(&str, &[Val], u64, &str) -> Val,
    pub coverage: HashMap<String, u64>,
    pub want_cov: bool,
    pub stored_objs: usize,
}

pub fn show(v: &Val) -> String {
    match v {
        Val::I(x) => format!("{x}"),
        Val::F32(x) => {
            if x.is_nan() {
                "nan32".into()
            } else {
                format!("f32:{:08x}", x.to_bits())
            }
        }
        Val::F64(x) => {
            if x.is_nan() {
                "nan64".into()
            } else {
                format!("f64:{:016x}", x.to_bits())
            }
        }
        Val::Unit => "unit".into(),
        Val::Fn(s) => format!("fn@{s}"),
        Val::Obj(o) => format!("{}({})", o.tag.clone().unwrap_or_else(|| "struct".into()), o.fields.borrow().iter().map(show).collect::<Vec<_>>().join(",")),
        Val::Null => "null".into(),
        Val::Bytes(b) => format!("bytes{b:?}"),
    }
}

/// Deterministic answer of an external function: depends on name, arguments, call number.
pub fn default_extern(name: &str, args: &[Val], n: u64, retty: &str) -> Val {
    let mut h = engine::hash_str(name) ^ n.wrapping_mul(0x9E3779B97F4A7C15);
    for a in args {
        h = h.rotate_left(7) ^ engine::hash_str(&show(a));
    }
    h ^= h >> 29;
    match retty {
        "i1" => Val::I((h & 1) as i64),
        "i8" => Val::I(h as i8 as i64),
        "i16" => Val::I(h as i16 as i64),
        "i32" => Val::I((h % 17) as i64 - 4),
        "i64" => Val::I(h as i64 >> (h % 50)),
        "f32" => Val::F32((h % 64) as f32 * 0.25 - 3.0),
        "f64" => Val::F64((h % 4096) as f64 * 0.125 - 100.0),
        _ => Val::Unit,
    }
}

pub fn width_of(name: &str) -> Option<u32> {
    name.strip_prefix('i').and_then(|d| d.parse().ok())
}
/// Canonical representation: sign-extended for widths > 1, 0/1 for i1.
pub fn norm(v: i128, w: u32) -> i64 {
    if w == 1 {
        return (v & 1) as i64;
    }
    let w = w.min(64);
    let sh = 128 - w;
    (((v as u128) << sh) as i128 >> sh) as i64
}
pub fn uns(v: i64, w: u32) -> u128 {
    let w = w.min(64);
    (v as u64 as u128) & ((1u128 << w) - 1)
}

enum Flow {
    /// Region finished by scf.yield / implicit.
    Yield(Vec<Val>),
    Return(Vec<Val>),
    Break(Option<Val>),
    Continue(Vec<Val>),
    Jump(BlockRef, Vec<Val>),
    TailCall(String, Vec<Val>),
}

type Env = HashMap<ValueRef, Val>;
type R<T> = Result<T, Stop>;

fn stuck<T>(m: impl Into<String>) -> R<T> {
    Err(Stop::Stuck(m.into()))
}

impl<'a> Interp<'a> {
    /// the stand-in body of an external declaration
    fn placeholder(&self, r: RegionRef) -> bool {
        let b = &self.ctx.region(r).blocks;
        b.len() == 1 && matches!(self.ctx.block(b[0]).ops.as_slice(), [o] if self.ctx.op(*o).name == Symbol::new("unreachable"))
    }
    pub fn new(ctx: &'a IrContext, module: OpRef, fuel: u64) -> Self {
        let mut funcs = HashMap::new();
        collect(ctx, module, &mut funcs, "");
        Interp { ctx, funcs, fuel, trace: vec![], depth: 0, ext_counter: 0, extern_fn: default_extern, coverage: HashMap::new(), want_cov: false, stored_objs: 0 }
    }

    fn tyname(&self, t: TypeRef) -> (String, String) {
        let d = self.ctx.types.get(t);
        (d.dialect.to_string(), d.name.to_string())
    }

    pub fn call(&mut self, name: &str, args: Vec<Val>) -> R<Vec<Val>> {
        let mut name = name.to_string();
        let mut args = args;
        self.depth += 1;
        if self.depth > 400 {
            self.depth -= 1;
            return Err(Stop::Fuel);
        }
        let r = loop {
            let Some(&f) = self.funcs.get(&name) else { break stuck(format!("call of unknown function @{name}")) };
            let data = self.ctx.op(f);
            let Some(&body) = data.regions.first().filter(|r| !(data.attributes.contains_key("abi") && self.placeholder(**r))) else {
                // external
                let retty = data.attributes.get_type("type").map(|t| self.ctx.types.get(t).params.first().map(|p| self.tyname(*p).1).unwrap_or_default()).unwrap_or_default();
                self.ext_counter += 1;
                let v = (self.extern_fn)(&name, &args, self.ext_counter, &retty);
                self.trace.push(Event { callee: name.clone(), args: args.iter().map(show).collect(), ret: show(&v) });
                break Ok(if retty == "nil" { vec![] } else { vec![v] });
            };
            let mut env = Env::new();
            match self.run_region(body, args, &mut env) {
                Ok(Flow::Return(v)) => break Ok(v),
                Ok(Flow::TailCall(n, a)) => {
                    name = n;
                    args = a;
                }
                Ok(Flow::Yield(_)) => break stuck("function body ended without return"),
                Ok(Flow::Break(_)) | Ok(Flow::Continue(_)) => break stuck("break/continue outside loop"),
                Ok(Flow::Jump(..)) => unreachable!(),
                Err(e) => break Err(e),
            }
        };
        self.depth -= 1;
        r
    }

    fn bind_args(&self, b: BlockRef, args: Vec<Val>, env: &mut Env) -> R<()> {
        let ps = self.ctx.block_args(b);
        if ps.len() != args.len() {
            return stuck(format!("block expects {} args, got {}", ps.len(), args.len()));
        }
        for (p, a) in ps.iter().zip(args) {
            env.insert(*p, a);
        }
        Ok(())
    }

    fn run_region(&mut self, r: RegionRef, args: Vec<Val>, env: &mut Env) -> R<Flow> {
        let blocks = &self.ctx.region(r).blocks;
        let Some(&entry) = blocks.first() else { return Ok(Flow::Yield(vec![])) };
        let mut cur = entry;
        let mut cargs = args;
        loop {
            if !self.ctx.region(r).blocks.contains(&cur) {
                return stuck("branch to a block of another region");
            }
            self.bind_args(cur, cargs, env)?;
            match self.run_block(cur, env)? {
                Flow::Jump(b, a) => {
                    cur = b;
                    cargs = a;
                }
                other => return Ok(other),
            }
        }
    }

    fn v(&self, env: &Env, v: ValueRef) -> R<Val> {
        match env.get(&v) {
            Some(x) => Ok(x.clone()),
            None => stuck(format!("use of a value with no definition on this path ({v:?})")),
        }
    }

    fn run_block(&mut self, b: BlockRef, env: &mut Env) -> R<Flow> {
        let ops = self.ctx.block(b).ops.clone();
        let n = ops.len();
        for (i, op) in ops.into_iter().enumerate() {
            if self.fuel == 0 {
                return Err(Stop::Fuel);
            }
            self.fuel -= 1;
            if let Some(f) = self.step(op, env)? {
                if i + 1 != n && self.ctx.op(op).regions.is_empty() {
                    // ops after a terminator are malformed
                    return stuck("terminator in the middle of a block");
                }
                return Ok(f);
            }
        }
        Ok(Flow::Yield(vec![]))
    }

    fn step(&mut self, op: OpRef, env: &mut Env) -> R<Option<Flow>> {
        let data = self.ctx.op(op);
        let d = data.dialect.to_string();
        let name = data.name.to_string();
        let full = format!("{d}.{name}");
        if self.want_cov {
            *self.coverage.entry(full.clone()).or_insert(0) += 1;
        }
        let operands: Vec<ValueRef> = self.ctx.op_operands(op).to_vec();
        let results: Vec<ValueRef> = self.ctx.op_results(op).to_vec();
        let mut xs = Vec::with_capacity(operands.len());
        for o in &operands {
            xs.push(self.v(env, *o)?);
        }
        let regions = data.regions.clone();
        let set = |env: &mut Env, results: &[ValueRef], vals: Vec<Val>| -> R<()> {
            if results.len() != vals.len() {
                // A nil-typed result may be produced by an op yielding nothing.
                if results.len() == 1 && vals.is_empty() {
                    env.insert(results[0], Val::Unit);
                    return Ok(());
                }
                if results.is_empty() {
                    return Ok(());
                }
                return stuck(format!("{} results but {} values", results.len(), vals.len()));
            }
            for (r, v) in results.iter().zip(vals) {
                env.insert(*r, v);
            }
            Ok(())
        };
        match d.as_str() {
            "arith" => {
                let rt = match self.ctx.op_result_types(op) {
                    [t] => self.tyname(*t).1,
                    _ => return stuck("arith op without single result"),
                };
                let v = self.arith(&name, &xs, &operands, &rt, op)?;
                env.insert(results[0], v);
                Ok(None)
            }
            "core" => match name.as_str() {
                "unrealized_conversion_cast" => {
                    env.insert(results[0], xs[0].clone());
                    Ok(None)
                }
                _ => stuck(full),
            },
            "func" => match name.as_str() {
                "call" => {
                    let callee = data.attributes.get_symbol("callee").unwrap().to_string();
                    let r = self.call(&callee, xs)?;
                    set(env, &results, r)?;
                    Ok(None)
                }
                "tail_call" => {
                    let callee = data.attributes.get_symbol("callee").unwrap().to_string();
                    Ok(Some(Flow::TailCall(callee, xs)))
                }
                "call_indirect" => {
                    let Val::Fn(f) = xs[0].clone() else { return stuck("indirect callee is not a function") };
                    let r = self.call(&f, xs[1..].to_vec())?;
                    set(env, &results, r)?;
                    Ok(None)
                }
                "tail_call_indirect" => {
                    let Val::Fn(f) = xs[0].clone() else { return stuck("indirect callee is not a function") };
                    Ok(Some(Flow::TailCall(f, xs[1..].to_vec())))
                }
                "constant" => {
                    env.insert(results[0], Val::Fn(data.attributes.get_symbol("func_ref").unwrap().to_string()));
                    Ok(None)
                }
                "return" => Ok(Some(Flow::Return(xs))),
                "unreachable" => Err(Stop::Unreachable),
                _ => stuck(full),
            },
            "cf" => match name.as_str() {
                "br" => Ok(Some(Flow::Jump(data.successors[0], xs))),
                "cond_br" => {
                    let Val::I(c) = xs[0] else { return stuck("cond_br on non-int") };
                    Ok(Some(Flow::Jump(if c != 0 { data.successors[0] } else { data.successors[1] }, vec![])))
                }
                _ => stuck(full),
            },
            "scf" => match name.as_str() {
                "if" => {
                    let Val::I(c) = xs[0] else { return stuck("scf.if on non-int") };
                    let r = regions[if c != 0 { 0 } else { 1 }];
                    match self.run_region(r, vec![], env)? {
                        Flow::Yield(v) => {
                            set(env, &results, v)?;
                            Ok(None)
                        }
                        f => Ok(Some(f)),
                    }
                }
                "switch" => {
                    let Val::I(dv) = xs[0] else { return stuck("scf.switch on non-int") };
                    let w = width_of(&self.tyname(self.ctx.value_ty(operands[0])).1).unwrap_or(32);
                    let blk = self.ctx.region(regions[0]).blocks[0];
                    let mut default = None;
                    let mut chosen = None;
                    for &c in &self.ctx.block(blk).ops {
                        let cd = self.ctx.op(c);
                        if cd.name == Symbol::new("case") {
                            let Some(Attribute::Int(k)) = cd.attributes.get("value") else { return stuck("case value") };
                            if chosen.is_none() && norm(*k, w) == dv {
                                chosen = Some(cd.regions[0]);
                            }
                        } else if cd.name == Symbol::new("default") {
                            default = Some(cd.regions[0]);
                        }
                    }
                    match chosen.or(default) {
                        None => Ok(None),
                        Some(r) => match self.run_region(r, vec![], env)? {
                            Flow::Yield(_) => Ok(None),
                            f => Ok(Some(f)),
                        },
                    }
                }
                "loop" => {
                    let mut args = xs;
                    loop {
                        if self.fuel == 0 {
                            return Err(Stop::Fuel);
                        }
                        self.fuel -= 1;
                        match self.run_region(regions[0], args, env)? {
                            Flow::Continue(v) => args = v,
                            Flow::Break(v) => {
                                if !results.is_empty() {
                                    set(env, &results, v.into_iter().collect())?;
                                }
                                return Ok(None);
                            }
                            Flow::Yield(_) => return stuck("loop body fell through"),
                            f => return Ok(Some(f)),
                        }
                    }
                }
                "yield" => Ok(Some(Flow::Yield(xs))),
                "continue" => Ok(Some(Flow::Continue(xs))),
                "break" => Ok(Some(Flow::Break(xs.into_iter().next()))),
                _ => stuck(full),
            },
            "adt" => {
                let attrs = &data.attributes;
                let tag = attrs.get_symbol("tag").map(|s| s.to_string());
                let field = attrs.get_i128("field").unwrap_or(0) as usize;
                let obj = |v: &Val| -> R<Rc<Obj>> {
                    match v {
                        Val::Obj(o) => Ok(o.clone()),
                        Val::Null => Err(Stop::Trap("null")),
                        _ => stuck("not an object"),
                    }
                };
                if name.ends_with("_new") {
                    for x in &xs {
                        if let Val::Obj(o) = x
                            && !o.stored.replace(true)
                        {
                            self.stored_objs += 1;
                        }
                    }
                }
                let out = match name.as_str() {
                    "struct_new" | "array_new" => Val::Obj(Rc::new(Obj { tag: None, fields: RefCell::new(xs), stored: Default::default() })),
                    "variant_new" => Val::Obj(Rc::new(Obj { tag, fields: RefCell::new(xs), stored: Default::default() })),
                    "variant_is" => Val::I((obj(&xs[0])?.tag == tag) as i64),
                    "variant_cast" | "ref_cast" => xs[0].clone(),
                    "struct_get" => {
                        let o = obj(&xs[0])?;
                        let f = o.fields.borrow();
                        match f.get(field) {
                            Some(v) => v.clone(),
                            None => return stuck("field index"),
                        }
                    }
                    "variant_get" => {
                        let o = obj(&xs[0])?;
                        if o.tag != tag {
                            return Err(Stop::Trap("variant_get of another variant"));
                        }
                        let f = o.fields.borrow();
                        match f.get(field) {
                            Some(v) => v.clone(),
                            None => return stuck("field index"),
                        }
                    }
                    "struct_set" => {
                        let o = obj(&xs[0])?;
                        let mut f = o.fields.borrow_mut();
                        if field >= f.len() {
                            return stuck("field index");
                        }
                        f[field] = xs[1].clone();
                        return Ok(None);
                    }
                    "array_len" => Val::I(obj(&xs[0])?.fields.borrow().len() as i64),
                    "array_get" => {
                        let Val::I(i) = xs[1] else { return stuck("array index") };
                        let o = obj(&xs[0])?;
                        let f = o.fields.borrow();
                        match f.get(i as usize) {
                            Some(v) => v.clone(),
                            None => return Err(Stop::Trap("array index")),
                        }
                    }
                    "array_set" => {
                        let Val::I(i) = xs[1] else { return stuck("array index") };
                        let o = obj(&xs[0])?;
                        let mut f = o.fields.borrow_mut();
                        if i < 0 || i as usize >= f.len() {
                            return Err(Stop::Trap("array index"));
                        }
                        f[i as usize] = xs[2].clone();
                        return Ok(None);
                    }
                    "ref_null" => Val::Null,
                    "ref_is_null" => Val::I(matches!(xs[0], Val::Null) as i64),
                    "string_const" | "bytes_const" => Val::Bytes(Rc::new(match attrs.get("value") {
                        Some(Attribute::String(s)) => s.as_bytes().to_vec(),
                        Some(Attribute::Bytes(b)) => b.to_vec(),
                        _ => return stuck("const value"),
                    })),
                    _ => return stuck(full),
                };
                env.insert(results[0], out);
                Ok(None)
            }
            _ => stuck(full),
        }
    }

    fn arith(&self, name: &str, xs: &[Val], operands: &[ValueRef], rt: &str, op: OpRef) -> R<Val> {
        let w = width_of(rt);
        let oty = |i: usize| self.tyname(self.ctx.value_ty(operands[i])).1;
        let int = |v: &Val| match v {
            Val::I(x) => Ok(*x),
            _ => stuck("int expected"),
        };
        if name == "const" {
            return Ok(match (self.ctx.op(op).attributes.get("value"), rt) {
                (Some(Attribute::Int(v)), _) if w.is_some() => Val::I(norm(*v, w.unwrap())),
                (Some(Attribute::Bool(b)), _) if w.is_some() => Val::I(*b as i64),
                (Some(Attribute::FloatBits(b)), "f64") => Val::F64(f64::from_bits(*b)),
                (Some(Attribute::FloatBits(b)), "f32") => Val::F32(f32::from_bits(*b as u32)),
                (Some(Attribute::Unit), "nil") => Val::Unit,
                (_, "nil") => Val::Unit,
                (a, _) => return stuck(format!("arith.const {a:?} : {rt}")),
            });
        }
        let ii = |f: &dyn Fn(i128, i128, u32) -> R<i128>| -> R<Val> {
            let w = match w {
                Some(w) => w,
                None => return stuck("int op with non-int result"),
            };
            Ok(Val::I(norm(f(int(&xs[0])? as i128, int(&xs[1])? as i128, w)?, w)))
        };
        let ff = |f32f: fn(f32, f32) -> f32, f64f: fn(f64, f64) -> f64| -> R<Val> {
            match (&xs[0], &xs[1]) {
                (Val::F32(a), Val::F32(b)) => Ok(Val::F32(f32f(*a, *b))),
                (Val::F64(a), Val::F64(b)) => Ok(Val::F64(f64f(*a, *b))),
                _ => stuck("float op on non-floats"),
            }
        };
        match name {
            "addi" => ii(&|a, b, _| Ok(a + b)),
            "subi" => ii(&|a, b, _| Ok(a - b)),
            "muli" => ii(&|a, b, _| Ok(a.wrapping_mul(b))),
            "divsi" => ii(&|a, b, w| {
                if b == 0 {
                    Err(Stop::Trap("div0"))
                } else if b == -1 && a == -(1i128 << (w.min(64) - 1)) {
                    Err(Stop::Trap("divovf"))
                } else {
                    Ok(a / b)
                }
            }),
            "remsi" => ii(&|a, b, w| {
                if b == 0 {
                    Err(Stop::Trap("div0"))
                } else if b == -1 && a == -(1i128 << (w.min(64) - 1)) {
                    // Left to the back end by the dialect; treated as unspecified.
                    Err(Stop::Trap("removf"))
                } else {
                    Ok(a % b)
                }
            }),
            "divui" => ii(&|a, b, w| {
                let (a, b) = (uns(a as i64, w), uns(b as i64, w));
                if b == 0 { Err(Stop::Trap("div0")) } else { Ok((a / b) as i128) }
            }),
            "remui" => ii(&|a, b, w| {
                let (a, b) = (uns(a as i64, w), uns(b as i64, w));
                if b == 0 { Err(Stop::Trap("div0")) } else { Ok((a % b) as i128) }
            }),
            "and" => ii(&|a, b, _| Ok(a & b)),
            "or" => ii(&|a, b, _| Ok(a | b)),
            "xor" => ii(&|a, b, _| Ok(a ^ b)),
            "shl" => ii(&|a, b, w| if b < 0 || b >= w as i128 { Err(Stop::Trap("shift")) } else { Ok(a << b) }),
            "shr" => ii(&|a, b, w| if b < 0 || b >= w as i128 { Err(Stop::Trap("shift")) } else { Ok(a >> b) }),
            "shru" => ii(&|a, b, w| if b < 0 || b >= w as i128 { Err(Stop::Trap("shift")) } else { Ok((uns(a as i64, w) >> b) as i128) }),
            "negi" => Ok(Val::I(norm(-(int(&xs[0])? as i128), w.unwrap_or(64)))),
            "addf" => ff(|a, b| a + b, |a, b| a + b),
            "subf" => ff(|a, b| a - b, |a, b| a - b),
            "mulf" => ff(|a, b| a * b, |a, b| a * b),
            "divf" => ff(|a, b| a / b, |a, b| a / b),
            "negf" => match xs[0] {
                Val::F32(a) => Ok(Val::F32(-a)),
                Val::F64(a) => Ok(Val::F64(-a)),
                _ => stuck("negf"),
            },
            "cmpi" => {
                let ow = match width_of(&oty(0)) {
                    Some(w) => w,
                    None => return stuck("cmpi operand type"),
                };
                let (a, b) = (int(&xs[0])?, int(&xs[1])?);
                let (ua, ub) = (uns(a, ow), uns(b, ow));
                let p = self.ctx.op(op).attributes.get_symbol("predicate").map(|s| s.to_string()).unwrap_or_default();
                Ok(Val::I(match p.as_str() {
                    "eq" => a == b,
                    "ne" => a != b,
                    "slt" => a < b,
                    "sle" => a <= b,
                    "sgt" => a > b,
                    "sge" => a >= b,
                    "ult" => ua < ub,
                    "ule" => ua <= ub,
                    "ugt" => ua > ub,
                    "uge" => ua >= ub,
                    _ => return stuck("cmpi predicate"),
                } as i64))
            }
            "cmpf" => {
                let (a, b) = match (&xs[0], &xs[1]) {
                    (Val::F32(a), Val::F32(b)) => (*a as f64, *b as f64),
                    (Val::F64(a), Val::F64(b)) => (*a, *b),
                    _ => return stuck("cmpf"),
                };
                let p = self.ctx.op(op).attributes.get_symbol("predicate").map(|s| s.to_string()).unwrap_or_default();
                Ok(Val::I(match p.as_str() {
                    "oeq" => a == b,
                    "une" => a != b,
                    "olt" => a < b,
                    "ole" => a <= b,
                    "ogt" => a > b,
                    "oge" => a >= b,
                    _ => return stuck("cmpf predicate"),
                } as i64))
            }
            "cast" | "trunc" | "extend" | "convert" => {
                let v = &xs[0];
                match (v, rt) {
                    (Val::I(x), _) if w.is_some() => Ok(Val::I(norm(*x as i128, w.unwrap()))),
                    (Val::I(x), "f32") => Ok(Val::F32(*x as f32)),
                    (Val::I(x), "f64") => Ok(Val::F64(*x as f64)),
                    (Val::F32(x), "f64") => Ok(Val::F64(*x as f64)),
                    (Val::F64(x), "f32") => Ok(Val::F32(*x as f32)),
                    (Val::F32(x), _) if w.is_some() => f2i(*x as f64, w.unwrap()),
                    (Val::F64(x), _) if w.is_some() => f2i(*x, w.unwrap()),
                    _ => stuck(format!("arith.{name} to {rt}")),
                }
            }
            _ => stuck(format!("arith.{name}")),
        }
    }
}

fn f2i(x: f64, w: u32) -> R<Val> {
    if x.is_nan() {
        return Err(Stop::Trap("fcvt"));
    }
    let t = x.trunc();
    let lim = (2f64).powi(w as i32 - 1);
    if t >= lim || t < -lim {
        return Err(Stop::Trap("fcvt"));
    }
    Ok(Val::I(t as i64))
}

fn collect(ctx: &IrContext, op: OpRef, out: &mut HashMap<String, OpRef>, prefix: &str) {
    for &r in &ctx.op(op).regions {
        for &b in &ctx.region(r).blocks {
            for &o in &ctx.block(b).ops {
                let d = ctx.op(o);
                if d.dialect == Symbol::new("func") && d.name == Symbol::new("func") {
                    if let Some(n) = d.attributes.get_symbol("sym_name") {
                        let q = if prefix.is_empty() { n.to_string() } else { format!("{prefix}::{n}") };
                        out.insert(q, o);
                    }
                } else if d.dialect == Symbol::new("core") && d.name == Symbol::new("module") {
                    let n = d.attributes.get_symbol("sym_name").map(|s| s.to_string()).unwrap_or_default();
                    let p = if prefix.is_empty() { n } else { format!("{prefix}::{n}") };
                    collect(ctx, o, out, &p);
                }
            }
        }
    }
}

/// Observable outcome of one run.
#[derive(Clone, Debug, PartialEq)]
pub struct Outcome {
    pub result: Result<Vec<String>, Stop>,
    pub trace: Vec<Event>,
    /// objects that were a field of another object at some time
    pub stored_objs: usize,
}

pub fn run(ctx: &IrContext, module: OpRef, f: &str, args: &[Val], fuel: u64) -> Outcome {
    let mut it = Interp::new(ctx, module, fuel);
    let r = it.call(f, args.to_vec());
    Outcome { result: r.map(|v| v.iter().map(show).collect()), trace: it.trace, stored_objs: it.stored_objs }
}
