//! Programs over the standard library's intrinsics: their meaning, their generator and their IR.
use engine::Tape;
use irkit::b::*;
use std::rc::Rc;
use trunk_ir::context::IrContext;
use trunk_ir::refs::{BlockRef, OpRef, TypeRef, ValueRef};
use trunk_ir::types::Attribute;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum El {
    Int,
    Float,
    Bytes,
    Str,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    Int,
    Nat,
    Bool,
    Float,
    Bytes,
    Str,
    List(El),
    Nil,
    /// a boxed scalar of this kind
    Any(Bx),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Bx {
    Int,
    Nat,
    Bool,
    Float,
}
impl Bx {
    pub fn ty(self) -> Ty {
        match self {
            Bx::Int => Ty::Int,
            Bx::Nat => Ty::Nat,
            Bx::Bool => Ty::Bool,
            Bx::Float => Ty::Float,
        }
    }
    fn name(self) -> &'static str {
        match self {
            Bx::Int => "int",
            Bx::Nat => "nat",
            Bx::Bool => "bool",
            Bx::Float => "float",
        }
    }
}
impl El {
    pub fn ty(self) -> Ty {
        match self {
            El::Int => Ty::Int,
            El::Float => Ty::Float,
            El::Bytes => Ty::Bytes,
            El::Str => Ty::Str,
        }
    }
}
/// A constant; long ones show their ends.
#[derive(Clone)]
pub struct Blob(pub Vec<u8>);
impl std::fmt::Debug for Blob {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let n = self.0.len();
        if n <= 600 {
            return write!(f, "b\"{}\"", self.0.escape_ascii());
        }
        write!(f, "{n} bytes #{:016x} b\"{}\"..b\"{}\"", engine::hash_str(&self.0.escape_ascii().to_string()), self.0[..30].escape_ascii(), self.0[n - 30..].escape_ascii())
    }
}
#[derive(Clone, Debug)]
pub enum E {
    Var(usize),
    Int(i32),
    Bool(bool),
    Nil,
    Float(f64),
    Bytes(Blob),
    Str(String),
    /// intrinsic name, operands, called through a function value
    Bin(&'static str, Box<E>, Box<E>, bool),
    If(Ty, Box<E>, Box<E>, Box<E>),
    Let(Box<E>, Box<E>),
    Call(usize, Vec<E>),
    /// through a function value
    CallRef(usize, Vec<E>),
    Len(Box<E>),
    /// bytes, index: clamped by the generator
    Get(Box<E>, Box<E>),
    Cat(Box<E>, Box<E>),
    RangeEq(Vec<E>),
    Slice(Vec<E>),
    Leaf(Box<E>),
    StrCat(Box<E>, Box<E>),
    StrLen(Box<E>),
    StrBytes(Box<E>),
    Empty(El),
    Prepend(El, Box<E>, Box<E>, bool),
    IsEmpty(El, Box<E>),
    Head(El, Box<E>),
    Tail(El, Box<E>),
    /// a line of standard input, or a name for why there is none
    ReadLine,
    /// bytes, newline, then
    Print(Box<E>, Box<E>, Box<E>),
    /// by a conversion cast rather than the operation
    Bx(Bx, Box<E>, bool),
    Unbx(Bx, Box<E>, bool),
    /// condition, two boxed values: through a function over any values, called directly or by reference
    Pick(Box<E>, Box<E>, Box<E>, bool),
}
#[derive(Clone, Debug)]
pub enum Body {
    Plain(E),
    /// params: n, acc; env of step: n, acc
    Count(E, E),
    /// params: list, acc; env of step: list, acc, head, tail
    Fold(El, E, E),
}
#[derive(Clone, Debug)]
pub struct F {
    pub params: Vec<Ty>,
    pub ret: Ty,
    pub body: Body,
    /// takes the evidence of its caller before its parameters
    pub evidence: bool,
}
pub struct P {
    pub fs: Vec<F>,
    pub names: Vec<String>,
}

// ---------------------------------------------------------------- meaning

const EOF: &[u8] = b"<eof>";
const BAD: &[u8] = b"<bad>";

#[derive(Clone, Debug)]
pub enum V {
    I(i32),
    B(bool),
    F(f64),
    S(Rc<Vec<u8>>),
    L(Option<Rc<(V, V)>>),
    Nil,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Halt {
    Trap,
    Abort,
    Fuel,
    Open,
}
pub struct Run<'a> {
    p: &'a P,
    pub out: Vec<u8>,
    /// what is left to read; None: reading fails
    input: Option<Vec<u8>>,
    fuel: u32,
    depth: u32,
    pub steps: u32,
    /// boxed integers have 31 bits
    pub narrow: bool,
}
type R<T> = Result<T, Halt>;
impl V {
    fn i(&self) -> i32 {
        match self {
            V::I(x) => *x,
            _ => panic!("int"),
        }
    }
    fn u(&self) -> u32 {
        self.i() as u32
    }
    fn b(&self) -> bool {
        match self {
            V::B(x) => *x,
            _ => panic!("bool"),
        }
    }
    fn f(&self) -> f64 {
        match self {
            V::F(x) => *x,
            _ => panic!("float"),
        }
    }
    fn s(&self) -> Rc<Vec<u8>> {
        match self {
            V::S(x) => x.clone(),
            _ => panic!("bytes"),
        }
    }
}
impl<'a> Run<'a> {
    pub fn new(p: &'a P, fuel: u32, input: Option<Vec<u8>>) -> Self {
        Run { p, out: vec![], input, fuel, depth: 0, steps: 0, narrow: false }
    }
    pub fn call(&mut self, f: usize, args: Vec<V>) -> R<V> {
        if self.depth > 200 {
            return Err(Halt::Fuel);
        }
        self.depth += 1;
        let p = self.p;
        let mut env = args;
        let r = match &p.fs[f].body {
            Body::Plain(e) => self.ev(e, &mut env)?,
            Body::Count(base, step) => {
                if env[0].i() == 0 {
                    self.ev(base, &mut env)?
                } else {
                    let acc = self.ev(step, &mut env)?;
                    let n = env[0].u().wrapping_sub(1) as i32;
                    self.call(f, vec![V::I(n), acc])?
                }
            }
            Body::Fold(_, base, step) => match &env[0] {
                V::L(None) => self.ev(base, &mut env)?,
                V::L(Some(c)) => {
                    let c = c.clone();
                    env.push(c.0.clone());
                    env.push(c.1.clone());
                    let acc = self.ev(step, &mut env)?;
                    self.call(f, vec![c.1.clone(), acc])?
                }
                _ => panic!("list"),
            },
        };
        self.depth -= 1;
        Ok(r)
    }
    fn ev(&mut self, e: &E, env: &mut Vec<V>) -> R<V> {
        self.steps += 1;
        if self.steps > self.fuel {
            return Err(Halt::Fuel);
        }
        Ok(match e {
            E::Var(i) => env[*i].clone(),
            E::Int(x) => V::I(*x),
            E::Bool(x) => V::B(*x),
            E::Nil => V::Nil,
            E::Float(x) => V::F(*x),
            E::Bytes(b) => V::S(Rc::new(b.0.clone())),
            E::Str(s) => V::S(Rc::new(s.as_bytes().to_vec())),
            E::Bin(n, a, b, _) => {
                let a = self.ev(a, env)?;
                let b = self.ev(b, env)?;
                bin(n, a, b)?
            }
            E::If(_, c, a, b) => {
                if self.ev(c, env)?.b() {
                    self.ev(a, env)?
                } else {
                    self.ev(b, env)?
                }
            }
            E::Let(a, b) => {
                let a = self.ev(a, env)?;
                env.push(a);
                let r = self.ev(b, env)?;
                env.pop();
                r
            }
            E::Call(f, a) | E::CallRef(f, a) => {
                let mut v = vec![];
                for x in a {
                    v.push(self.ev(x, env)?);
                }
                self.call(*f, v)?
            }
            E::Len(a) | E::StrLen(a) => V::I(self.ev(a, env)?.s().len() as i32),
            E::Get(a, i) => {
                let a = self.ev(a, env)?.s();
                let i = self.ev(i, env)?.u() as usize;
                V::I(*a.get(i).ok_or(Halt::Trap)? as i32)
            }
            E::Cat(a, b) | E::StrCat(a, b) => {
                let a = self.ev(a, env)?.s();
                let b = self.ev(b, env)?.s();
                if a.len() + b.len() > 4000 {
                    return Err(Halt::Fuel);
                }
                V::S(Rc::new(a.iter().chain(b.iter()).copied().collect()))
            }
            E::RangeEq(v) => {
                let mut x = vec![];
                for e in v {
                    x.push(self.ev(e, env)?);
                }
                let (a, b, n) = (x[0].s(), x[2].s(), x[4].u() as usize);
                let (i, j) = (x[1].u() as usize, x[3].u() as usize);
                if i + n > a.len() || j + n > b.len() {
                    return Err(Halt::Open);
                }
                V::B(a[i..i + n] == b[j..j + n])
            }
            E::Slice(v) => {
                let mut x = vec![];
                for e in v {
                    x.push(self.ev(e, env)?);
                }
                let (a, s, e) = (x[0].s(), x[1].u() as usize, x[2].u() as usize);
                if s > e || e > a.len() {
                    return Err(Halt::Abort);
                }
                V::S(Rc::new(a[s..e].to_vec()))
            }
            E::Leaf(a) | E::StrBytes(a) => self.ev(a, env)?,
            E::Empty(_) => V::L(None),
            E::Prepend(_, a, b, _) => {
                let a = self.ev(a, env)?;
                let b = self.ev(b, env)?;
                V::L(Some(Rc::new((a, b))))
            }
            E::IsEmpty(_, a) => V::B(matches!(self.ev(a, env)?, V::L(None))),
            E::Head(_, a) => match self.ev(a, env)? {
                V::L(Some(c)) => c.0.clone(),
                _ => return Err(Halt::Trap),
            },
            E::Tail(_, a) => match self.ev(a, env)? {
                V::L(Some(c)) => c.1.clone(),
                _ => return Err(Halt::Trap),
            },
            E::ReadLine => V::S(Rc::new(match &mut self.input {
                None => b"stdin read failed".to_vec(),
                Some(i) if i.is_empty() => EOF.to_vec(),
                Some(i) => {
                    let (mut l, rest) = match i.iter().position(|b| *b == b'\n') {
                        Some(k) => {
                            let mut l = i[..k].to_vec();
                            if l.last() == Some(&b'\r') {
                                l.pop();
                            }
                            (l, i[k + 1..].to_vec())
                        }
                        None => (i.clone(), vec![]),
                    };
                    *i = rest;
                    if std::str::from_utf8(&l).is_err() {
                        l = BAD.to_vec();
                    }
                    l
                }
            })),
            E::Bx(k, a, _) => {
                let v = self.ev(a, env)?;
                let fits = match k {
                    Bx::Int => (-(1 << 30)..1 << 30).contains(&v.i()),
                    Bx::Nat => v.i() >= 0,
                    _ => true,
                };
                if self.narrow && !fits {
                    return Err(Halt::Open);
                }
                v
            }
            E::Unbx(_, a, _) => self.ev(a, env)?,
            E::Pick(c, a, b, _) => {
                let c = self.ev(c, env)?.b();
                let a = self.ev(a, env)?;
                let b = self.ev(b, env)?;
                if c { a } else { b }
            }
            E::Print(b, n, k) => {
                let b = self.ev(b, env)?.s();
                let n = self.ev(n, env)?.b();
                self.out.extend_from_slice(&b);
                if n {
                    self.out.push(b'\n');
                }
                self.ev(k, env)?
            }
        })
    }
}
fn bin(n: &str, a: V, b: V) -> R<V> {
    let (t, op) = n.split_once("::").unwrap();
    Ok(match t {
        "Int" => {
            let (x, y) = (a.i(), b.i());
            match op {
                "+" => V::I(x.wrapping_add(y)),
                "-" => V::I(x.wrapping_sub(y)),
                "*" => V::I(x.wrapping_mul(y)),
                "/" => V::I(x.checked_div(y).ok_or(Halt::Trap)?),
                "%" if y == 0 => return Err(Halt::Trap),
                "%" => V::I(x.checked_rem(y).ok_or(Halt::Open)?),
                _ => V::B(cmp(op, x.cmp(&y))),
            }
        }
        "Nat" => {
            let (x, y) = (a.u(), b.u());
            match op {
                "+" => V::I(x.wrapping_add(y) as i32),
                "-" => V::I(x.wrapping_sub(y) as i32),
                "*" => V::I(x.wrapping_mul(y) as i32),
                "/" => V::I(x.checked_div(y).ok_or(Halt::Trap)? as i32),
                "%" => V::I(x.checked_rem(y).ok_or(Halt::Trap)? as i32),
                _ => V::B(cmp(op, x.cmp(&y))),
            }
        }
        _ => {
            let (x, y) = (a.f(), b.f());
            match op {
                "+" => V::F(x + y),
                "-" => V::F(x - y),
                "*" => V::F(x * y),
                "/" => V::F(x / y),
                "==" => V::B(x == y),
                "!=" => V::B(x != y),
                "<" => V::B(x < y),
                "<=" => V::B(x <= y),
                ">" => V::B(x > y),
                _ => V::B(x >= y),
            }
        }
    })
}
fn cmp(op: &str, o: std::cmp::Ordering) -> bool {
    match op {
        "==" => o.is_eq(),
        "!=" => o.is_ne(),
        "<" => o.is_lt(),
        "<=" => o.is_le(),
        ">" => o.is_gt(),
        _ => o.is_ge(),
    }
}

// ---------------------------------------------------------------- generator

#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    pub lists: bool,
    pub slices: bool,
    pub strings: bool,
    pub prints: bool,
    pub reads: bool,
    /// unguarded partial operations
    pub partial: bool,
    /// boxed scalars; narrow: kept within 31 bits
    pub boxes: bool,
    pub narrow: bool,
    /// constants around a page of memory
    pub pages: bool,
    pub size: usize,
}
pub struct G<'t> {
    t: &'t mut Tape,
    c: Cfg,
    left: usize,
    fs: Vec<F>,
    print_now: bool,
    consts: Vec<Vec<u8>>,
}
const ARI: [&str; 5] = ["+", "-", "*", "/", "%"];
const REL: [&str; 6] = ["==", "!=", "<", "<=", ">", ">="];
pub const INTRINSICS: [&str; 32] = [
    "Int::+", "Int::-", "Int::*", "Int::/", "Int::%", "Int::==", "Int::!=", "Int::<", "Int::<=", "Int::>", "Int::>=", "Nat::+", "Nat::-", "Nat::*", "Nat::/", "Nat::%", "Nat::==", "Nat::!=", "Nat::<", "Nat::<=", "Nat::>", "Nat::>=", "Float::+", "Float::-", "Float::*", "Float::/", "Float::==", "Float::!=", "Float::<",
    "Float::<=", "Float::>", "Float::>=",
];
fn named(t: &str, op: &str) -> &'static str {
    let n = format!("{t}::{op}");
    INTRINSICS.iter().find(|x| **x == n).unwrap()
}
impl G<'_> {
    fn bx(&mut self, ty: Ty, env: &[Ty], d: usize) -> Box<E> {
        Box::new(self.e(ty, env, d))
    }
    /// fresh, an earlier constant, or one that differs from an earlier one in little
    fn constant(&mut self, text: bool) -> Vec<u8> {
        let mut b: Vec<u8> = if !self.consts.is_empty() && self.t.chance(1, 4) {
            let mut b = self.t.pick(&self.consts).clone();
            match self.t.upto(6) {
                0 => {}
                1 => {
                    b.pop();
                }
                2 => b.push(*self.t.pick(&[b'a', 0, b' ', b'z'])),
                3 if !b.is_empty() => {
                    let i = self.t.idx(b.len());
                    b[i] ^= *self.t.pick(&[1u8, 32, 64, 2]);
                }
                4 => b.iter_mut().for_each(|x| {
                    if x.is_ascii_alphabetic() {
                        *x ^= 32
                    }
                }),
                5 => b.insert(0, b'a'),
                _ => {
                    let i = self.t.upto(b.len());
                    b.truncate(i);
                }
            }
            b
        } else if self.t.chance(1, 12) {
            let n = match self.t.upto(7) {
                7 if self.c.pages => 65_100 + self.t.upto(500),
                6 | 7 => 2000 + self.t.upto(3000),
                k => 30 << (k / 2),
            };
            let n = n - self.t.upto(20);
            let mut x = self.t.u64();
            (0..n)
                .map(|_| {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    let b = (x >> 56) as u8;
                    if text { b'!' + b % 90 } else { b }
                })
                .collect()
        } else if text {
            self.t.pick(&["", "a", "ab", "é", "\0x", "\u{1F600}", "line\n", "\"q\\", "Hello there", "letters"]).as_bytes().to_vec()
        } else {
            let n = *self.t.pick(&[0usize, 1, 2, 3, 5, 9]);
            (0..n).map(|_| *self.t.pick(&[b'a', b'b', 0u8, 10, 255, 128, b'%', b'"', b'\\', 127])).collect()
        };
        if text && std::str::from_utf8(&b).is_err() {
            b = b.iter().map(|x| x & 127).collect();
        }
        if b.len() < 6000 {
            self.consts.push(b.clone());
        }
        b
    }
    fn lit(&mut self, ty: Ty) -> E {
        match ty {
            Ty::Int => E::Int(*self.t.pick(&[0, 1, -1, 2, 3, 7, 10, -5, i32::MAX, i32::MIN, 255, 1 << 30])),
            Ty::Nat => E::Int(*self.t.pick(&[0, 1, 2, 3, 4, 5, 8, -1, i32::MIN, i32::MAX])),
            Ty::Bool => E::Bool(self.t.bool()),
            Ty::Float => E::Float(*self.t.pick(&[0.0, 1.0, -0.0, 0.1, -2.5, 1e308, 3.0])),
            Ty::Bytes => {
                let b = self.constant(false);
                E::Bytes(Blob(b))
            }
            Ty::Str => {
                let b = self.constant(true);
                E::Str(String::from_utf8(b).unwrap())
            }
            Ty::List(e) => E::Empty(e),
            Ty::Nil => E::Nil,
            Ty::Any(k) => {
                let a = self.lit(k.ty());
                self.boxed(k, a)
            }
        }
    }
    fn boxed(&mut self, k: Bx, a: E) -> E {
        let a = match k {
            Bx::Int if self.c.narrow => E::Bin("Int::%", Box::new(a), Box::new(E::Int(1 << 30)), false),
            // (a / 2) fits in 31 bits
            Bx::Nat if self.c.narrow => E::Bin("Nat::/", Box::new(a), Box::new(E::Int(2)), false),
            _ => a,
        };
        E::Bx(k, Box::new(a), self.t.bool())
    }
    fn bx_kind(&mut self) -> Bx {
        *self.t.pick(&[Bx::Int, Bx::Nat, Bx::Bool, Bx::Float])
    }
    fn unbox(&mut self, k: Bx, env: &[Ty], d: usize) -> E {
        let a = self.bx(Ty::Any(k), env, d);
        // the cast reads a signed integer
        let cast = k != Bx::Nat && self.t.bool();
        E::Unbx(k, a, cast)
    }
    fn leaf(&mut self, ty: Ty, env: &[Ty]) -> E {
        let vs: Vec<usize> = (0..env.len()).filter(|i| env[*i] == ty || (env[*i] == Ty::Int && ty == Ty::Nat) || (env[*i] == Ty::Nat && ty == Ty::Int)).collect();
        if !vs.is_empty() && self.t.chance(3, 4) {
            return E::Var(vs[vs.len() - 1 - self.t.idx(vs.len())]);
        }
        self.lit(ty)
    }
    fn any_ty(&mut self) -> Ty {
        let mut v = vec![Ty::Int, Ty::Nat, Ty::Bool, Ty::Float, Ty::Bytes];
        if self.c.strings {
            v.push(Ty::Str);
        }
        if self.c.lists {
            let e = self.el();
            v.push(Ty::List(e));
            v.push(Ty::List(e));
        }
        if self.c.boxes {
            for _ in 0..4 {
                let k = self.bx_kind();
                v.push(Ty::Any(k));
            }
        }
        *self.t.pick(&v)
    }
    fn el(&mut self) -> El {
        *self.t.pick(if self.c.strings { &[El::Int, El::Bytes, El::Str, El::Float] } else { &[El::Int, El::Bytes, El::Float] })
    }
    fn guard_get(&mut self, env: &[Ty], d: usize) -> E {
        // let b = ..; let i = ..; if i < len(b) then get(b, i) else k
        let b = self.bx(Ty::Bytes, env, d);
        let mut e2 = env.to_vec();
        e2.push(Ty::Bytes);
        let i = self.bx(Ty::Nat, &e2, d.min(1));
        e2.push(Ty::Nat);
        let n = e2.len();
        let get = E::Get(Box::new(E::Var(n - 2)), Box::new(E::Var(n - 1)));
        if self.c.partial && self.t.chance(1, 3) {
            return E::Let(b, Box::new(E::Let(i, Box::new(get))));
        }
        let k = self.bx(Ty::Nat, &e2, 0);
        E::Let(b, Box::new(E::Let(i, Box::new(E::If(Ty::Nat, Box::new(E::Bin("Nat::<", Box::new(E::Var(n - 1)), Box::new(E::Len(Box::new(E::Var(n - 2)))), false)), Box::new(get), k)))))
    }
    fn slice(&mut self, env: &[Ty], d: usize) -> E {
        // as the library's clamping slice
        let b = self.bx(Ty::Bytes, env, d);
        let mut e2 = env.to_vec();
        e2.push(Ty::Bytes);
        if self.c.partial && self.t.chance(1, 3) {
            let s = self.e(Ty::Nat, &e2, 0);
            let e = self.e(Ty::Nat, &e2, 0);
            return E::Let(b, Box::new(E::Slice(vec![E::Var(e2.len() - 1), s, e])));
        }
        let s = self.bx(Ty::Nat, &e2, 0);
        e2.push(Ty::Nat);
        let e = self.bx(Ty::Nat, &e2, 0);
        e2.push(Ty::Nat);
        let n = e2.len();
        let (vb, vs, ve) = (n - 3, n - 2, n - 1);
        let len = || Box::new(E::Len(Box::new(E::Var(vb))));
        let v = |i| Box::new(E::Var(i));
        // s' then e'
        let s2 = E::If(Ty::Nat, Box::new(E::Bin("Nat::>", v(vs), len(), false)), len(), v(vs));
        let e3 = E::If(Ty::Nat, Box::new(E::Bin("Nat::<", v(ve), v(n), false)), v(n), Box::new(E::If(Ty::Nat, Box::new(E::Bin("Nat::>", v(ve), len(), false)), len(), v(ve))));
        let body = Box::new(E::Slice(vec![E::Var(vb), E::Var(n), E::Var(n + 1)]));
        let body = Box::new(E::Let(Box::new(s2), Box::new(E::Let(Box::new(e3), body))));
        E::Let(b, Box::new(E::Let(s, Box::new(E::Let(e, body)))))
    }
    fn range_eq(&mut self, env: &[Ty], d: usize) -> E {
        // let a; let b; if len(a) - i <= len(b) then a[i..] == b[..len(a)-i] else false, kept in range
        let a = self.bx(Ty::Bytes, env, d);
        let mut e2 = env.to_vec();
        e2.push(Ty::Bytes);
        let b = self.bx(Ty::Bytes, &e2, d);
        let n = e2.len() + 1;
        let v = |i| Box::new(E::Var(i));
        let len = |i| Box::new(E::Len(Box::new(E::Var(i))));
        let k = self.t.upto(3) as i32;
        let cut = E::Bin("Nat::-", len(n - 2), Box::new(E::Int(k)), false);
        let (i, j) = if self.t.bool() { (k, 0) } else { (0, k) };
        // j + (len a - k) <= len b, with len a >= k
        let room = E::Bin("Nat::<=", Box::new(E::Bin("Nat::+", Box::new(cut.clone()), Box::new(E::Int(j)), false)), len(n - 1), false);
        let eq = E::RangeEq(vec![*v(n - 2), E::Int(i), *v(n - 1), E::Int(j), cut]);
        let inner = E::If(Ty::Bool, Box::new(room), Box::new(eq), Box::new(E::Bool(false)));
        let body = E::If(Ty::Bool, Box::new(E::Bin("Nat::<=", Box::new(E::Int(k)), len(n - 2), false)), Box::new(inner), Box::new(E::Bool(true)));
        E::Let(a, Box::new(E::Let(b, Box::new(body))))
    }
    /// a list expression known to be non-empty is not tracked: heads and tails are guarded unless partial
    fn project(&mut self, el: El, ty: Ty, env: &[Ty], d: usize) -> E {
        let l = self.bx(Ty::List(el), env, d);
        let mut e2 = env.to_vec();
        e2.push(Ty::List(el));
        let v = || Box::new(E::Var(e2.len() - 1));
        let get = if ty == Ty::List(el) { E::Tail(el, v()) } else { E::Head(el, v()) };
        if self.c.partial && self.t.chance(1, 4) {
            return E::Let(l, Box::new(get));
        }
        let k = self.bx(ty, &e2, d.min(1));
        E::Let(l, Box::new(E::If(ty, Box::new(E::IsEmpty(el, v())), k, Box::new(get))))
    }
    fn call(&mut self, ty: Ty, env: &[Ty], d: usize) -> Option<E> {
        let c: Vec<usize> = (0..self.fs.len()).filter(|i| self.fs[*i].ret == ty).collect();
        if c.is_empty() {
            return None;
        }
        let f = *self.t.pick(&c);
        let ps = self.fs[f].params.clone();
        let mut a: Vec<E> = ps.iter().map(|p| self.e(*p, env, d.min(2))).collect();
        if matches!(self.fs[f].body, Body::Count(..)) {
            a[0] = E::Int(self.t.upto(5) as i32);
        }
        Some(E::Call(f, a))
    }
    pub fn e(&mut self, ty: Ty, env: &[Ty], d: usize) -> E {
        if d == 0 || self.left == 0 {
            return self.leaf(ty, env);
        }
        self.left -= 1;
        let d1 = d - 1;
        match self.t.weighted(&[3, 12, 3, 3, 3, 2]) {
            0 => return self.leaf(ty, env),
            1 => {}
            2 => {
                let c = self.bx(Ty::Bool, env, d1);
                let a = self.bx(ty, env, d1);
                let b = self.bx(ty, env, d1);
                return E::If(ty, c, a, b);
            }
            3 => {
                let t = self.any_ty();
                let a = self.bx(t, env, d1);
                let mut e2 = env.to_vec();
                e2.push(t);
                let b = self.bx(ty, &e2, d1);
                return E::Let(a, b);
            }
            4 => {
                if let Some(c) = self.call(ty, env, d1) {
                    return c;
                }
            }
            _ => {
                if self.c.prints && self.print_now {
                    let b = self.bx(Ty::Bytes, env, d1);
                    let n = self.bx(Ty::Bool, env, d1.min(1));
                    let k = self.bx(ty, env, d1);
                    return E::Print(b, n, k);
                }
            }
        }
        let ind = self.t.chance(1, 8);
        if self.c.boxes && self.t.chance(1, 3) {
            let k = match ty {
                Ty::Int => Some(Bx::Int),
                Ty::Nat => Some(Bx::Nat),
                Ty::Bool => Some(Bx::Bool),
                Ty::Float => Some(Bx::Float),
                _ => None,
            };
            if let Some(k) = k {
                return self.unbox(k, env, d1);
            }
        }
        match ty {
            Ty::Any(k) => match self.t.weighted(&[3, 3]) {
                0 => {
                    let a = self.e(k.ty(), env, d1);
                    self.boxed(k, a)
                }
                _ => E::Pick(self.bx(Ty::Bool, env, d1.min(1)), self.bx(ty, env, d1), self.bx(ty, env, d1), ind),
            },
            Ty::Int => match self.t.weighted(&[5, 1, if self.c.lists { 2 } else { 0 }]) {
                0 => {
                    let op = *self.t.pick(&ARI);
                    E::Bin(named("Int", op), self.bx(Ty::Int, env, d1), self.bx(Ty::Int, env, d1), ind)
                }
                1 => self.e(Ty::Nat, env, d),
                _ => self.project(El::Int, ty, env, d1),
            },
            Ty::Nat => match self.t.weighted(&[3, 2, 3, if self.c.strings { 2 } else { 0 }]) {
                0 => {
                    let op = *self.t.pick(&ARI);
                    E::Bin(named("Nat", op), self.bx(Ty::Nat, env, d1), self.bx(Ty::Nat, env, d1), ind)
                }
                1 => E::Len(self.bx(Ty::Bytes, env, d1)),
                2 => self.guard_get(env, d1),
                _ => E::StrLen(self.bx(Ty::Str, env, d1)),
            },
            Ty::Bool => match self.t.weighted(&[3, 3, 3, 2, if self.c.lists { 2 } else { 0 }]) {
                0 => {
                    let op = *self.t.pick(&REL);
                    E::Bin(named("Int", op), self.bx(Ty::Int, env, d1), self.bx(Ty::Int, env, d1), ind)
                }
                1 => {
                    let op = *self.t.pick(&REL);
                    E::Bin(named("Nat", op), self.bx(Ty::Nat, env, d1), self.bx(Ty::Nat, env, d1), ind)
                }
                2 => {
                    let op = *self.t.pick(&REL);
                    E::Bin(named("Float", op), self.bx(Ty::Float, env, d1), self.bx(Ty::Float, env, d1), ind)
                }
                3 => self.range_eq(env, d1),
                _ => {
                    let el = self.el();
                    E::IsEmpty(el, self.bx(Ty::List(el), env, d1))
                }
            },
            Ty::Float => match self.t.weighted(&[4, if self.c.lists { 1 } else { 0 }]) {
                0 => {
                    let op = *self.t.pick(&["+", "-", "*", "/"]);
                    E::Bin(named("Float", op), self.bx(Ty::Float, env, d1), self.bx(Ty::Float, env, d1), ind)
                }
                _ => self.project(El::Float, ty, env, d1),
            },
            Ty::Bytes => match self.t.weighted(&[4, if self.c.slices { 3 } else { 0 }, if self.c.strings { 2 } else { 0 }, if self.c.lists { 2 } else { 0 }, if self.c.reads { 3 } else { 0 }]) {
                0 => E::Cat(self.bx(Ty::Bytes, env, d1), self.bx(Ty::Bytes, env, d1)),
                1 => self.slice(env, d1),
                2 => E::StrBytes(self.bx(Ty::Str, env, d1)),
                3 => self.project(El::Bytes, ty, env, d1),
                _ => E::ReadLine,
            },
            Ty::Str => match self.t.weighted(&[4, 2, if self.c.lists { 2 } else { 0 }]) {
                0 => E::StrCat(self.bx(Ty::Str, env, d1), self.bx(Ty::Str, env, d1)),
                1 => E::Leaf(self.bx(Ty::Bytes, env, d1)),
                _ => self.project(El::Str, ty, env, d1),
            },
            Ty::Nil => E::Nil,
            Ty::List(el) => match self.t.weighted(&[5, 1]) {
                0 => {
                    let h = self.bx(el.ty(), env, d1);
                    let t = self.bx(ty, env, d1);
                    E::Prepend(el, h, t, self.t.bool())
                }
                _ => self.project(el, ty, env, d1),
            },
        }
    }
}
pub fn generate(t: &mut Tape, c: Cfg) -> P {
    let mut g = G { t, c, left: c.size, fs: vec![], print_now: true, consts: vec![] };
    let n = g.t.upto(3);
    for _ in 0..n {
        g.left = c.size;
        let ret = g.any_ty();
        let k = g.t.weighted(&[3, 2, if c.lists { 3 } else { 0 }]);
        let f = match k {
            0 => {
                let np = g.t.upto(3);
                let params: Vec<Ty> = (0..np).map(|_| g.any_ty()).collect();
                let body = g.e(ret, &params, 4);
                F { params, ret, body: Body::Plain(body), evidence: false }
            }
            1 => {
                let params = vec![Ty::Nat, ret];
                let base = g.e(ret, &params, 2);
                let step = g.e(ret, &params, 3);
                F { params, ret, body: Body::Count(base, step), evidence: false }
            }
            _ => {
                let el = g.el();
                let params = vec![Ty::List(el), ret];
                let base = g.e(ret, &params, 2);
                let mut env = params.clone();
                env.push(el.ty());
                env.push(Ty::List(el));
                let step = g.e(ret, &env, 3);
                F { params, ret, body: Body::Fold(el, base, step), evidence: false }
            }
        };
        g.fs.push(f);
    }
    g.left = c.size * 2;
    let params = vec![Ty::Int, Ty::Nat];
    // a chain of observations
    let mut env = params.clone();
    let k = 1 + g.t.upto(2);
    let mut lets = vec![];
    for _ in 0..k {
        let ty = g.any_ty();
        lets.push(g.e(ty, &env, 4));
        env.push(ty);
    }
    let mut body = g.e(Ty::Int, &env, 4);
    if c.prints {
        let b = g.e(Ty::Bytes, &env, 3);
        let nl = g.e(Ty::Bool, &env, 1);
        body = E::Print(Box::new(b), Box::new(nl), Box::new(body));
    }
    for l in lets.into_iter().rev() {
        body = E::Let(Box::new(l), Box::new(body));
    }
    let fs = { g.fs.push(F { params, ret: Ty::Int, body: Body::Plain(body), evidence: false }); g.fs };
    let names = (0..fs.len()).map(|i| if i + 1 == fs.len() { "entry".into() } else { format!("f{i}") }).collect();
    P { fs, names }
}

// ---------------------------------------------------------------- IR

pub struct Em {
    pub ctx: IrContext,
    string: TypeRef,
    fs: Vec<F>,
    names: Vec<String>,
    ev: Option<ValueRef>,
}
impl Em {
    pub fn t(&mut self, n: &str) -> TypeRef {
        core(&mut self.ctx, n)
    }
    fn any(&mut self) -> TypeRef {
        ty0(&mut self.ctx, "tribute_rt", "anyref")
    }
    fn ty(&mut self, t: Ty) -> TypeRef {
        match t {
            Ty::Int | Ty::Nat => self.t("i32"),
            Ty::Bool => self.t("i1"),
            Ty::Float => self.t("f64"),
            Ty::Bytes => self.t("bytes"),
            Ty::Nil => self.t("nil"),
            Ty::Str | Ty::List(_) | Ty::Any(_) => self.any(),
        }
    }
    fn sig_of(&mut self, f: usize) -> (Vec<TypeRef>, TypeRef) {
        let f = self.fs[f].clone();
        let mut ps = vec![];
        if f.evidence {
            ps.push(tribute_ir::dialect::ability::evidence_adt_type_ref(&mut self.ctx));
        }
        for t in f.params {
            ps.push(self.ty(t));
        }
        (ps, self.ty(f.ret))
    }
    fn call(&mut self, b: BlockRef, f: &str, a: &[ValueRef], r: TypeRef) -> ValueRef {
        put1(&mut self.ctx, b, "func.call", a, r, &[("callee", Attribute::Symbol(sym(f)))])
    }
    fn const_(&mut self, b: BlockRef, t: &str, v: Attribute) -> ValueRef {
        let ty = self.t(t);
        put1(&mut self.ctx, b, "arith.const", &[], ty, &[("value", v)])
    }
    fn sif(&mut self, b: BlockRef, c: ValueRef, r: TypeRef, x: (BlockRef, ValueRef), y: (BlockRef, ValueRef)) -> ValueRef {
        let mut regs = vec![];
        for (bl, v) in [x, y] {
            put0(&mut self.ctx, bl, "scf.yield", &[v], &[], &[]);
            regs.push(region(&mut self.ctx, &[bl]));
        }
        let op = put(&mut self.ctx, b, "scf.if", O { operands: vec![c], results: vec![r], regions: regs, ..O::default() });
        self.ctx.op_result(op, 0)
    }
    fn e(&mut self, b: BlockRef, e: &E, env: &mut Vec<ValueRef>) -> ValueRef {
        let at = Attribute::Type;
        match e {
            E::Var(i) => env[*i],
            E::Int(x) => self.const_(b, "i32", Attribute::Int(*x as i128)),
            E::Nil => self.const_(b, "nil", Attribute::Unit),
            E::Bool(x) => self.const_(b, "i1", Attribute::Bool(*x)),
            E::Float(x) => self.const_(b, "f64", Attribute::FloatBits(x.to_bits())),
            E::Bytes(v) => {
                let ty = self.t("bytes");
                put1(&mut self.ctx, b, "adt.bytes_const", &[], ty, &[("value", Attribute::Bytes(v.0.clone().into()))])
            }
            E::Str(s) => {
                let ty = self.any();
                put1(&mut self.ctx, b, "adt.string_const", &[], ty, &[("value", Attribute::String(s.as_str().into()))])
            }
            E::Bin(n, x, y, ind) => {
                let x = self.e(b, x, env);
                let y = self.e(b, y, env);
                let (p, r) = sig(n);
                let (p, r) = (self.t(p), self.t(r));
                if *ind {
                    let ft = fnty(&mut self.ctx, r, &[p, p]);
                    let f = put1(&mut self.ctx, b, "func.constant", &[], ft, &[("func_ref", Attribute::Symbol(sym(n)))]);
                    put1(&mut self.ctx, b, "func.call_indirect", &[f, x, y], r, &[])
                } else {
                    self.call(b, n, &[x, y], r)
                }
            }
            E::If(t, c, x, y) => {
                let c = self.e(b, c, env);
                let r = self.ty(*t);
                let bx = block(&mut self.ctx, &[]);
                let vx = self.e(bx, x, env);
                let by = block(&mut self.ctx, &[]);
                let vy = self.e(by, y, env);
                self.sif(b, c, r, (bx, vx), (by, vy))
            }
            E::Let(x, y) => {
                let v = self.e(b, x, env);
                env.push(v);
                let r = self.e(b, y, env);
                env.pop();
                r
            }
            E::Call(f, a) => {
                let mut a: Vec<ValueRef> = a.iter().map(|x| self.e(b, x, env)).collect();
                if self.fs[*f].evidence {
                    a.insert(0, self.ev.unwrap());
                }
                let r = self.fs[*f].ret;
                let r = self.ty(r);
                let n = self.names[*f].clone();
                self.call(b, &n, &a, r)
            }
            E::CallRef(f, a) => {
                let a: Vec<ValueRef> = a.iter().map(|x| self.e(b, x, env)).collect();
                let (ps, r) = self.sig_of(*f);
                let ft = fnty(&mut self.ctx, r, &ps);
                let n = self.names[*f].clone();
                let c = put1(&mut self.ctx, b, "func.constant", &[], ft, &[("func_ref", Attribute::Symbol(sym(&n)))]);
                let mut v = vec![c];
                v.extend(self.fs[*f].evidence.then(|| self.ev.unwrap()));
                v.extend(a);
                put1(&mut self.ctx, b, "func.call_indirect", &v, r, &[])
            }
            E::Len(x) => {
                let x = self.e(b, x, env);
                let r = self.t("i32");
                self.call(b, "__tribute_bytes_len", &[x], r)
            }
            E::Get(x, y) => {
                let x = self.e(b, x, env);
                let y = self.e(b, y, env);
                let r = self.t("i32");
                self.call(b, "__bytes_get_or_panic", &[x, y], r)
            }
            E::Cat(x, y) => {
                let x = self.e(b, x, env);
                let y = self.e(b, y, env);
                let r = self.t("bytes");
                self.call(b, "__tribute_bytes_concat", &[x, y], r)
            }
            E::RangeEq(v) => {
                let a: Vec<ValueRef> = v.iter().map(|x| self.e(b, x, env)).collect();
                let r = self.t("i1");
                self.call(b, "__tribute_bytes_range_equal", &a, r)
            }
            E::Slice(v) => {
                let a: Vec<ValueRef> = v.iter().map(|x| self.e(b, x, env)).collect();
                let r = self.t("bytes");
                self.call(b, "__tribute_bytes_slice_or_panic", &a, r)
            }
            E::Leaf(x) => {
                let x = self.e(b, x, env);
                let r = self.any();
                let s = self.string;
                put1(&mut self.ctx, b, "adt.variant_new", &[x], r, &[("type", at(s)), ("tag", Attribute::Symbol(sym("Leaf")))])
            }
            E::StrCat(x, y) => {
                let x = self.e(b, x, env);
                let y = self.e(b, y, env);
                let r = self.any();
                self.call(b, "String::concat", &[x, y], r)
            }
            E::StrLen(x) => {
                let x = self.e(b, x, env);
                let r = self.t("i32");
                self.call(b, "String::len", &[x], r)
            }
            E::StrBytes(x) => {
                let x = self.e(b, x, env);
                let r = self.t("bytes");
                self.call(b, "String::to_bytes", &[x], r)
            }
            E::Empty(el) => {
                let (r, t) = (self.any(), self.ty(el.ty()));
                put1(&mut self.ctx, b, "list.empty", &[], r, &[("element_type", at(t))])
            }
            E::Prepend(el, x, y, intr) => {
                let x = self.e(b, x, env);
                let y = self.e(b, y, env);
                let (r, t) = (self.any(), self.ty(el.ty()));
                if *intr {
                    self.call(b, &format!("List::__tribute_list_prepend_intrinsic${el:?}"), &[x, y], r)
                } else {
                    put1(&mut self.ctx, b, "list.prepend", &[x, y], r, &[("element_type", at(t))])
                }
            }
            E::IsEmpty(el, x) | E::Head(el, x) | E::Tail(el, x) => {
                let x = self.e(b, x, env);
                let t = self.ty(el.ty());
                let (n, r) = match e {
                    E::IsEmpty(..) => ("list.is_empty", self.t("i1")),
                    E::Head(..) => ("list.head", t),
                    _ => ("list.tail", self.any()),
                };
                put1(&mut self.ctx, b, n, &[x], r, &[("element_type", at(t))])
            }
            E::ReadLine => {
                let r = self.t("bytes");
                self.call(b, "read_line_bytes", &[], r)
            }
            E::Bx(k, x, cast) => {
                let x = self.e(b, x, env);
                let r = self.any();
                let n = if *cast { "core.unrealized_conversion_cast".to_string() } else { format!("tribute_rt.box_{}", k.name()) };
                put1(&mut self.ctx, b, &n, &[x], r, &[])
            }
            E::Unbx(k, x, cast) => {
                let x = self.e(b, x, env);
                let r = self.ty(k.ty());
                let n = if *cast { "core.unrealized_conversion_cast".to_string() } else { format!("tribute_rt.unbox_{}", k.name()) };
                put1(&mut self.ctx, b, &n, &[x], r, &[])
            }
            E::Pick(c, x, y, ind) => {
                let c = self.e(b, c, env);
                let x = self.e(b, x, env);
                let y = self.e(b, y, env);
                let r = self.any();
                if *ind {
                    let i1 = self.t("i1");
                    let ft = fnty(&mut self.ctx, r, &[i1, r, r]);
                    let f = put1(&mut self.ctx, b, "func.constant", &[], ft, &[("func_ref", Attribute::Symbol(sym("pick")))]);
                    put1(&mut self.ctx, b, "func.call_indirect", &[f, c, x, y], r, &[])
                } else {
                    self.call(b, "pick", &[c, x, y], r)
                }
            }
            E::Print(x, n, k) => {
                let x = self.e(b, x, env);
                let n = self.e(b, n, env);
                let r = self.t("nil");
                self.call(b, "std::io::__tribute_io_write", &[x, n], r);
                self.e(b, k, env)
            }
        }
    }
}
fn sig(n: &str) -> (&'static str, &'static str) {
    let (t, op) = n.split_once("::").unwrap();
    let p = if t == "Float" { "f64" } else { "i32" };
    (p, if REL.contains(&op) { "i1" } else { p })
}

/// The program as the front end hands it over: a module with the library functions it uses.
pub fn emit(p: &P, lists: bool, slices: bool, reads: bool, boxes: bool) -> (IrContext, OpRef) {
    let mut ctx = IrContext::new();
    let any = ty0(&mut ctx, "tribute_rt", "anyref");
    let (bytes, i32t) = (core(&mut ctx, "bytes"), core(&mut ctx, "i32"));
    let at = Attribute::Type;
    let sy = |s: &str| Attribute::Symbol(sym(s));
    let variants = Attribute::List(vec![Attribute::List(vec![sy("Leaf"), Attribute::List(vec![at(bytes)])]), Attribute::List(vec![sy("Branch"), Attribute::List(vec![at(any), at(any), at(i32t)])])]);
    let string = ctx.types.intern(trunk_ir::types::TypeDataBuilder::new(sym("adt"), sym("enum")).attr("name", sy("String")).attr("variants", variants).build());
    let mut m = Em { ctx, string, fs: p.fs.clone(), names: p.names.clone(), ev: None };
    let mut ops = vec![];
    // declarations
    let (i1, f64t, nil) = (m.t("i1"), m.t("f64"), m.t("nil"));
    let mut decl: Vec<(String, &str, Vec<TypeRef>, TypeRef)> = vec![];
    for n in INTRINSICS {
        let (p, r) = sig(n);
        let (p, r) = (m.t(p), m.t(r));
        decl.push((n.to_string(), "intrinsic", vec![p, p], r));
    }
    let _ = f64t;
    decl.push(("__bytes_get_or_panic".into(), "intrinsic", vec![bytes, i32t], i32t));
    decl.push(("__tribute_bytes_len".into(), "C", vec![bytes], i32t));
    decl.push(("__tribute_bytes_concat".into(), "C", vec![bytes, bytes], bytes));
    decl.push(("__tribute_bytes_range_equal".into(), "C", vec![bytes, i32t, bytes, i32t, i32t], i1));
    if slices {
        decl.push(("__tribute_bytes_slice_or_panic".into(), "C", vec![bytes, i32t, i32t], bytes));
    }
    decl.push(("std::io::__tribute_io_write".into(), "intrinsic", vec![bytes, i1], nil));
    if reads {
        decl.push(("std::io::__tribute_io_read_line".into(), "intrinsic", vec![], any));
    }
    if lists {
        decl.push(("List::__tribute_list_prepend_intrinsic".into(), "intrinsic", vec![any, any], any));
    }
    for (n, abi, ps, r) in decl {
        let b = block(&mut m.ctx, &ps);
        put0(&mut m.ctx, b, "func.unreachable", &[], &[], &[]);
        let reg = region(&mut m.ctx, &[b]);
        ops.push(func(&mut m.ctx, &n, r, &ps, Some(reg), &[("abi", Attribute::String(abi.into()))]));
    }
    // String::len, String::concat, String::to_bytes
    let get = |m: &mut Em, b: BlockRef, s: ValueRef, tag: &str, k: i128, r: TypeRef| {
        let st = m.string;
        let c = put1(&mut m.ctx, b, "adt.variant_cast", &[s], st, &[("type", at(st)), ("tag", Attribute::Symbol(sym(tag)))]);
        put1(&mut m.ctx, b, "adt.variant_get", &[c], r, &[("type", at(st)), ("tag", Attribute::Symbol(sym(tag))), ("field", Attribute::Int(k))])
    };
    let is_leaf = |m: &mut Em, b: BlockRef, s: ValueRef| {
        let st = m.string;
        put1(&mut m.ctx, b, "adt.variant_is", &[s], i1, &[("type", at(st)), ("tag", Attribute::Symbol(sym("Leaf")))])
    };
    let fin = |m: &mut Em, n: &str, ps: &[TypeRef], r: TypeRef, b: BlockRef, v: ValueRef| {
        put0(&mut m.ctx, b, "func.return", &[v], &[], &[]);
        let reg = region(&mut m.ctx, &[b]);
        func(&mut m.ctx, n, r, ps, Some(reg), &[])
    };
    {
        let b = block(&mut m.ctx, &[any]);
        let s = m.ctx.block_arg(b, 0);
        let c = is_leaf(&mut m, b, s);
        let x = block(&mut m.ctx, &[]);
        let v = get(&mut m, x, s, "Leaf", 0, bytes);
        let v = m.call(x, "__tribute_bytes_len", &[v], i32t);
        let y = block(&mut m.ctx, &[]);
        let w = get(&mut m, y, s, "Branch", 2, i32t);
        let r = m.sif(b, c, i32t, (x, v), (y, w));
        ops.push(fin(&mut m, "String::len", &[any], i32t, b, r));
    }
    {
        let b = block(&mut m.ctx, &[any, any]);
        let (s, t) = (m.ctx.block_arg(b, 0), m.ctx.block_arg(b, 1));
        let l = m.call(b, "String::len", &[s], i32t);
        let k = m.call(b, "String::len", &[t], i32t);
        let n = m.call(b, "Nat::+", &[l, k], i32t);
        let st = m.string;
        let r = put1(&mut m.ctx, b, "adt.variant_new", &[s, t, n], any, &[("type", at(st)), ("tag", sy("Branch"))]);
        ops.push(fin(&mut m, "String::concat", &[any, any], any, b, r));
    }
    {
        let b = block(&mut m.ctx, &[any]);
        let s = m.ctx.block_arg(b, 0);
        let c = is_leaf(&mut m, b, s);
        let x = block(&mut m.ctx, &[]);
        let v = get(&mut m, x, s, "Leaf", 0, bytes);
        let y = block(&mut m.ctx, &[]);
        let l = get(&mut m, y, s, "Branch", 0, any);
        let l = m.call(y, "String::to_bytes", &[l], bytes);
        let k = get(&mut m, y, s, "Branch", 1, any);
        let k = m.call(y, "String::to_bytes", &[k], bytes);
        let w = m.call(y, "__tribute_bytes_concat", &[l, k], bytes);
        let r = m.sif(b, c, bytes, (x, v), (y, w));
        ops.push(fin(&mut m, "String::to_bytes", &[any], bytes, b, r));
    }
    if boxes {
        let b = block(&mut m.ctx, &[i1, any, any]);
        let a: Vec<ValueRef> = (0..3).map(|i| m.ctx.block_arg(b, i)).collect();
        let x = block(&mut m.ctx, &[]);
        let y = block(&mut m.ctx, &[]);
        let r = m.sif(b, a[0], any, (x, a[1]), (y, a[2]));
        ops.push(fin(&mut m, "pick", &[i1, any, any], any, b, r));
    }
    if reads {
        let v = |t: &str, f: Vec<Attribute>| Attribute::List(vec![sy(t), Attribute::List(f)]);
        let variants = Attribute::List(vec![v("ReadLine", vec![at(bytes)]), v("ReadEndOfFile", vec![]), v("ReadInvalidEncoding", vec![]), v("ReadSystem", vec![at(i32t), at(bytes)])]);
        let rl = m.ctx.types.intern(trunk_ir::types::TypeDataBuilder::new(sym("adt"), sym("enum")).attr("name", sy("std::io::ReadLineResult")).attr("variants", variants).build());
        let field = |m: &mut Em, b: BlockRef, s: ValueRef, tag: &str, k: i128, r: TypeRef| {
            let c = put1(&mut m.ctx, b, "adt.variant_cast", &[s], rl, &[("type", at(rl)), ("tag", Attribute::Symbol(sym(tag)))]);
            put1(&mut m.ctx, b, "adt.variant_get", &[c], r, &[("type", at(rl)), ("tag", Attribute::Symbol(sym(tag))), ("field", Attribute::Int(k))])
        };
        let text = |m: &mut Em, b: BlockRef, t: &[u8]| put1(&mut m.ctx, b, "adt.bytes_const", &[], bytes, &[("value", Attribute::Bytes(t.to_vec().into()))]);
        let is = |m: &mut Em, b: BlockRef, s: ValueRef, tag: &str| put1(&mut m.ctx, b, "adt.variant_is", &[s], i1, &[("type", at(rl)), ("tag", Attribute::Symbol(sym(tag)))]);
        let b = block(&mut m.ctx, &[]);
        let s = m.call(b, "std::io::__tribute_io_read_line", &[], any);
        let c = is(&mut m, b, s, "ReadLine");
        let x = block(&mut m.ctx, &[]);
        let vx = field(&mut m, x, s, "ReadLine", 0, bytes);
        let y = block(&mut m.ctx, &[]);
        let cy = is(&mut m, y, s, "ReadEndOfFile");
        let yx = block(&mut m.ctx, &[]);
        let vyx = text(&mut m, yx, EOF);
        let z = block(&mut m.ctx, &[]);
        let cz = is(&mut m, z, s, "ReadInvalidEncoding");
        let zx = block(&mut m.ctx, &[]);
        let vzx = text(&mut m, zx, BAD);
        let w = block(&mut m.ctx, &[]);
        let code = field(&mut m, w, s, "ReadSystem", 0, i32t);
        let want = m.const_(w, "i32", Attribute::Int(libc::EBADF as i128));
        let ok = m.call(w, "Int::==", &[code, want], i1);
        let wx = block(&mut m.ctx, &[]);
        let vwx = field(&mut m, wx, s, "ReadSystem", 1, bytes);
        let wy = block(&mut m.ctx, &[]);
        let vwy = text(&mut m, wy, b"<other error>");
        let vw = m.sif(w, ok, bytes, (wx, vwx), (wy, vwy));
        let vz = m.sif(z, cz, bytes, (zx, vzx), (w, vw));
        let vy = m.sif(y, cy, bytes, (yx, vyx), (z, vz));
        let r = m.sif(b, c, bytes, (x, vx), (y, vy));
        ops.push(fin(&mut m, "read_line_bytes", &[], bytes, b, r));
    }
    for (k, f) in p.fs.iter().enumerate() {
        let (ps, r) = m.sig_of(k);
        let b = block(&mut m.ctx, &ps);
        let mut env: Vec<ValueRef> = (0..ps.len()).map(|i| m.ctx.block_arg(b, i as u32)).collect();
        m.ev = f.evidence.then(|| env.remove(0));
        let n = p.names[k].clone();
        let v = match &f.body {
            Body::Plain(e) => m.e(b, e, &mut env),
            Body::Count(base, step) => {
                let z = m.const_(b, "i32", Attribute::Int(0));
                let c = m.call(b, "Nat::==", &[env[0], z], i1);
                let x = block(&mut m.ctx, &[]);
                let v = m.e(x, base, &mut env);
                let y = block(&mut m.ctx, &[]);
                let acc = m.e(y, step, &mut env);
                let one = m.const_(y, "i32", Attribute::Int(1));
                let nn = m.call(y, "Nat::-", &[env[0], one], i32t);
                let w = m.call(y, &n, &[nn, acc], r);
                m.sif(b, c, r, (x, v), (y, w))
            }
            Body::Fold(el, base, step) => {
                let et = m.ty(el.ty());
                let c = put1(&mut m.ctx, b, "list.is_empty", &[env[0]], i1, &[("element_type", at(et))]);
                let x = block(&mut m.ctx, &[]);
                let v = m.e(x, base, &mut env);
                let y = block(&mut m.ctx, &[]);
                let h = put1(&mut m.ctx, y, "list.head", &[env[0]], et, &[("element_type", at(et))]);
                let t = put1(&mut m.ctx, y, "list.tail", &[env[0]], any, &[("element_type", at(et))]);
                env.push(h);
                env.push(t);
                let acc = m.e(y, step, &mut env);
                let w = m.call(y, &n, &[t, acc], r);
                m.sif(b, c, r, (x, v), (y, w))
            }
        };
        let op = fin(&mut m, &n, &ps, r, b, v);
        if f.evidence {
            tribute_core::set_calling_convention(&mut m.ctx, op, tribute_core::CallingConvention::EvidenceDirect);
        }
        ops.push(op);
    }
    let md = module(&mut m.ctx, "m", &ops);
    tribute_ir::metadata::WellKnownTypes { string: Some(m.string) }.attach(&mut m.ctx, md);
    (m.ctx, md)
}
