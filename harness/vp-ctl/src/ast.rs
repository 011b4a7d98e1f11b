//! Direct-style effect programs and their generator.
use engine::Tape;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Ty {
    I32,
    I1,
    Never,
    /// Nominal struct { a: i32, f: direct (i32) -> i32 }.
    Pair,
    Fn(Rc<FnTy>),
}
#[derive(Clone, PartialEq, Debug)]
pub struct FnTy {
    pub conv: u8,
    pub params: Vec<Ty>,
    pub ret: Ty,
    /// Abilities the callable may perform on its caller's handlers.
    pub needs: u32,
    /// Highest ability index for which it may install a handler (-1: none).
    pub inst: i32,
}
pub fn fnty(conv: u8, params: Vec<Ty>, ret: Ty, needs: u32, inst: i32) -> Ty {
    Ty::Fn(Rc::new(FnTy { conv, params, ret, needs, inst }))
}
impl Ty {
    /// Value of type `self` may be used where `want` is expected (same type once effects are erased).
    pub fn fits(&self, want: &Ty) -> bool {
        match (self, want) {
            (Ty::Fn(a), Ty::Fn(b)) => a.conv == b.conv && a.params == b.params && a.ret == b.ret && a.needs & !b.needs == 0 && a.inst <= b.inst,
            _ => self == want,
        }
    }
}
pub type Var = usize;
#[derive(Clone, Debug)]
pub struct Body {
    pub stmts: Vec<St>,
    pub term: Term,
}
#[derive(Clone, Debug)]
pub enum Term {
    Return(Var),
    Yield(Var),
    ScfYield(Vec<Var>),
}
#[derive(Clone, Debug)]
pub struct St {
    pub outs: Vec<Var>,
    pub k: K,
}
#[derive(Clone, Debug)]
pub enum K {
    Const(i64),
    Bin(&'static str, Var, Var),
    Cmp(&'static str, Var, Var),
    Pack(Var, Var),
    Get(Var, usize),
    Lambda(Rc<Lam>),
    FuncRef(usize, u8),
    Call(usize, Vec<Var>),
    CallInd(Var, Vec<Var>),
    Perform(usize, usize, Vec<Var>),
    Handle(Rc<Handle>),
    Resume(Var, Var),
    If(Var, Rc<Body>, Rc<Body>),
    Switch(Var, Vec<(i64, Rc<Body>)>, Rc<Body>),
}
#[derive(Clone, Debug)]
pub struct Lam {
    pub ty: Rc<FnTy>,
    pub params: Vec<Var>,
    pub body: Rc<Body>,
    pub captures: Vec<Var>,
}
#[derive(Clone, Debug)]
pub struct Handle {
    pub abilities: Vec<usize>,
    pub body: Rc<Body>,
    pub comp_arg: Var,
    pub comp: Rc<Body>,
    pub arms: Vec<Arm>,
}
#[derive(Clone, Debug)]
pub struct Arm {
    pub ability: usize,
    pub op: usize,
    pub params: Vec<Var>,
    pub tok: Option<Var>,
    pub body: Rc<Body>,
}
#[derive(Clone, Debug)]
pub struct OpDecl {
    pub name: String,
    /// true: tail-resumptive `fn` operation.
    pub is_fn: bool,
    /// `op` operation that handlers may resume.
    pub resumable: bool,
    pub params: Vec<Ty>,
    pub ret: Ty,
}
#[derive(Clone, Debug)]
pub struct Func {
    pub name: String,
    pub ty: Rc<FnTy>,
    pub params: Vec<Var>,
    /// None: external declaration.
    pub body: Option<Rc<Body>>,
    pub extra: Option<i64>,
}
#[derive(Clone, Debug, Default)]
pub struct Prog {
    pub abilities: Vec<Vec<OpDecl>>,
    /// when the abilities are instances of one parametrised ability: which ones
    pub inst: Vec<usize>,
    pub funcs: Vec<Func>,
    pub vars: Vec<Ty>,
    /// Resume token variables: (input, answer).
    pub toks: std::collections::HashMap<Var, (Ty, Ty)>,
    pub nested: Option<Box<Prog>>,
    pub inner: bool,
}

pub fn free_vars(b: &Body) -> Vec<Var> {
    fn go(b: &Body, def: &mut Vec<Var>, out: &mut Vec<Var>) {
        let n = def.len();
        let mut u = |v: &Var, def: &Vec<Var>, out: &mut Vec<Var>| {
            if !def.contains(v) && !out.contains(v) {
                out.push(*v)
            }
        };
        for s in &b.stmts {
            match &s.k {
                K::Const(_) | K::FuncRef(..) => {}
                K::Bin(_, a, c) | K::Cmp(_, a, c) | K::Pack(a, c) | K::Resume(a, c) => {
                    u(a, def, out);
                    u(c, def, out);
                }
                K::Get(a, _) => u(a, def, out),
                K::Call(_, a) | K::Perform(_, _, a) => a.iter().for_each(|v| u(v, def, out)),
                K::CallInd(c, a) => {
                    u(c, def, out);
                    a.iter().for_each(|v| u(v, def, out));
                }
                K::Lambda(l) => l.captures.iter().for_each(|v| u(v, def, out)),
                K::If(c, a, b2) => {
                    u(c, def, out);
                    go(a, def, out);
                    go(b2, def, out);
                }
                K::Switch(c, cs, d) => {
                    u(c, def, out);
                    cs.iter().for_each(|x| go(&x.1, def, out));
                    go(d, def, out);
                }
                K::Handle(h) => {
                    go(&h.body, def, out);
                    let m = def.len();
                    def.push(h.comp_arg);
                    go(&h.comp, def, out);
                    def.truncate(m);
                    for a in &h.arms {
                        def.extend(a.params.iter().copied());
                        def.extend(a.tok);
                        go(&a.body, def, out);
                        def.truncate(m);
                    }
                }
            }
            def.extend(s.outs.iter().copied());
        }
        match &b.term {
            Term::Return(v) | Term::Yield(v) => u(v, def, out),
            Term::ScfYield(vs) => vs.iter().for_each(|v| u(v, def, out)),
        }
        def.truncate(n);
    }
    let mut out = vec![];
    go(b, &mut vec![], &mut out);
    out
}

// ---------------------------------------------------------------- generator

#[derive(Clone)]
struct Cx {
    conv: u8,
    avail: u32,
    level: i32,
    direct: u32,
    /// Only arithmetic (inside a structured op that must stay plain).
    plain: bool,
    depth: usize,
    /// Abilities whose `fn` operations must not be performed (none today).
    tok: Option<Var>,
}
#[derive(Clone)]
enum TermKind {
    Return,
    Yield,
    Scf(Vec<Ty>),
}
pub struct Gen<'a> {
    t: &'a mut Tape,
    pub p: Prog,
    fuel: i64,
    callable: usize,
}
pub const DD: usize = 0; // @trace_d
const EXT: [(&str, u8); 3] = [("trace_d", 0), ("trace_e", 1), ("trace_c", 2)];

impl<'a> Gen<'a> {
    fn var(&mut self, t: Ty) -> Var {
        self.p.vars.push(t);
        self.p.vars.len() - 1
    }
    fn arity(&mut self) -> usize {
        if self.t.chance(1, 5) { 3 + self.t.idx(3) } else { self.t.idx(3) }
    }
    fn small_ty(&mut self) -> Ty {
        match self.t.weighted(&[6, 2, 1, 1]) {
            0 => Ty::I32,
            1 => Ty::I1,
            2 => Ty::Pair,
            _ => {
                let conv = self.t.idx(3) as u8;
                fnty(conv, vec![Ty::I32], Ty::I32, 0, -1)
            }
        }
    }
    fn emit(&mut self, st: &mut Vec<St>, scope: &mut Vec<Var>, ty: Ty, k: K) -> Var {
        let v = self.var(ty);
        st.push(St { outs: vec![v], k });
        scope.push(v);
        v
    }
    /// A variable of type `ty`, from scope or made here.
    fn val(&mut self, cx: &Cx, st: &mut Vec<St>, scope: &mut Vec<Var>, ty: &Ty) -> Var {
        let c: Vec<Var> = scope.iter().copied().filter(|v| !self.p.toks.contains_key(v) && self.p.vars[*v].fits(ty)).collect();
        if !c.is_empty() && self.t.chance(5, 6) {
            // prefer recent values
            let i = if self.t.bool() { c.len() - 1 - self.t.idx(c.len().min(3)) } else { self.t.idx(c.len()) };
            return c[i];
        }
        match ty {
            Ty::I32 => {
                let n = [0, 1, 2, 3, 5, 7, -1, -2][self.t.idx(8)];
                self.emit(st, scope, Ty::I32, K::Const(n))
            }
            Ty::I1 => {
                let n = self.t.idx(2) as i64;
                self.emit(st, scope, Ty::I1, K::Const(n))
            }
            Ty::Never => unreachable!(),
            Ty::Pair => {
                let a = self.val(cx, st, scope, &Ty::I32);
                let f = self.val(cx, st, scope, &fnty(0, vec![Ty::I32], Ty::I32, 0, -1));
                self.emit(st, scope, Ty::Pair, K::Pack(a, f))
            }
            Ty::Fn(ft) => self.make_fn(cx, st, scope, &ft.clone()),
        }
    }
    fn make_fn(&mut self, cx: &Cx, st: &mut Vec<St>, scope: &mut Vec<Var>, ft: &Rc<FnTy>) -> Var {
        let c: Vec<usize> = (0..self.callable.max(3)).filter(|i| {
            let f = &self.p.funcs[*i].ty;
            f.conv <= ft.conv && f.params == ft.params && f.ret == ft.ret && f.needs & !ft.needs == 0 && f.inst <= ft.inst
        }).collect();
        if !c.is_empty() && (cx.depth > 3 || self.fuel <= 0 || self.t.bool()) {
            let f = *self.t.pick(&c);
            return self.emit(st, scope, Ty::Fn(ft.clone()), K::FuncRef(f, ft.conv));
        }
        self.lambda(cx, st, scope, ft, None)
    }
    fn lambda(&mut self, cx: &Cx, st: &mut Vec<St>, scope: &mut Vec<Var>, ft: &Rc<FnTy>, tok: Option<Var>) -> Var {
        let params: Vec<Var> = ft.params.iter().map(|t| self.var(t.clone())).collect();
        let cx2 = Cx { conv: ft.conv, avail: ft.needs, level: ft.inst, direct: 0, plain: false, depth: cx.depth + 1, tok };
        let mut sc: Vec<Var> = scope.iter().copied().filter(|v| !self.p.toks.contains_key(v)).collect();
        sc.extend(&params);
        let body = self.body(&cx2, sc, 3, &ft.ret, TermKind::Return).0;
        let mut captures: Vec<Var> = free_vars(&body).into_iter().filter(|v| !params.contains(v)).collect();
        if captures.len() > 1 && self.t.bool() {
            let i = self.t.idx(captures.len());
            captures.rotate_left(i);
        }
        self.emit(st, scope, Ty::Fn(ft.clone()), K::Lambda(Rc::new(Lam { ty: ft.clone(), params, body: Rc::new(body), captures })))
    }
    fn trace(&mut self, cx: &Cx, st: &mut Vec<St>, scope: &mut Vec<Var>) {
        let v = self.val(cx, st, scope, &Ty::I32);
        let f = self.t.idx(cx.conv as usize + 1);
        self.emit(st, scope, Ty::I32, K::Call(f, vec![v]));
    }
    fn args(&mut self, cx: &Cx, st: &mut Vec<St>, scope: &mut Vec<Var>, ps: &[Ty]) -> Vec<Var> {
        ps.iter().map(|p| self.val(cx, st, scope, p)).collect()
    }
    /// Returns the body and whether the token was used.
    fn body(&mut self, cx: &Cx, mut scope: Vec<Var>, size: usize, ret: &Ty, term: TermKind) -> (Body, bool) {
        let mut st = vec![];
        let mut cx = cx.clone();
        let had = cx.tok.is_some();
        let n = self.t.idx(size + 1);
        for _ in 0..n {
            self.fuel -= 1;
            if self.fuel <= 0 {
                break;
            }
            self.stmt(&mut cx, &mut st, &mut scope);
        }
        // A token is usually resumed.
        if let Some(tok) = cx.tok
            && self.t.chance(7, 8)
        {
            self.resume(&mut cx, &mut st, &mut scope, tok);
            if self.t.bool() {
                self.trace(&cx, &mut st, &mut scope);
            }
        }
        let term = match term {
            TermKind::Return => Term::Return(self.val(&cx, &mut st, &mut scope, ret)),
            TermKind::Yield => Term::Yield(self.val(&cx, &mut st, &mut scope, ret)),
            TermKind::Scf(ts) => {
                let vs = ts.iter().map(|t| self.val(&cx, &mut st, &mut scope, t)).collect();
                Term::ScfYield(vs)
            }
        };
        (Body { stmts: st, term }, had && cx.tok.is_none())
    }
    fn resume(&mut self, cx: &mut Cx, st: &mut Vec<St>, scope: &mut Vec<Var>, tok: Var) {
        let (inp, ans) = self.p.toks[&tok].clone();
        if cx.depth < 4 && self.t.chance(1, 4) && self.fuel > 0 {
            // resume inside a lambda that is called once
            let ft = Rc::new(FnTy { conv: 2, params: vec![Ty::I32], ret: ans.clone(), needs: cx.avail, inst: -1 });
            let params = vec![self.var(Ty::I32)];
            let cx2 = Cx { conv: 2, avail: cx.avail, level: -1, direct: 0, plain: false, depth: cx.depth + 1, tok: None };
            let mut sc: Vec<Var> = scope.iter().copied().filter(|v| !self.p.toks.contains_key(v)).collect();
            sc.push(params[0]);
            let mut ls = vec![];
            for _ in 0..self.t.idx(2) {
                let mut c = cx2.clone();
                self.fuel -= 1;
                self.stmt(&mut c, &mut ls, &mut sc);
            }
            let v = self.val(&cx2, &mut ls, &mut sc, &inp);
            let r = self.emit(&mut ls, &mut sc, ans.clone(), K::Resume(tok, v));
            if self.t.bool() {
                self.trace(&cx2, &mut ls, &mut sc);
            }
            let body = Body { stmts: ls, term: Term::Return(r) };
            let body = Rc::new(body);
            let captures: Vec<Var> = free_vars(&body).into_iter().filter(|v| !params.contains(v)).collect();
            let lv = self.var(Ty::Fn(ft.clone()));
            st.push(St { outs: vec![lv], k: K::Lambda(Rc::new(Lam { ty: ft, params, body, captures })) });
            let a = self.val(cx, st, scope, &Ty::I32);
            self.emit(st, scope, ans, K::CallInd(lv, vec![a]));
        } else {
            let v = self.val(cx, st, scope, &inp);
            self.emit(st, scope, ans, K::Resume(tok, v));
        }
        cx.tok = None;
    }
    fn stmt(&mut self, cx: &mut Cx, st: &mut Vec<St>, scope: &mut Vec<Var>) {
        let eff = !cx.plain;
        let cps = eff && cx.conv == 2;
        let w = [
            5,                                             // 0 arith
            2,                                             // 1 compare
            if eff { 4 } else { 0 },                       // 2 trace
            if eff && cx.depth < 4 { 3 } else { 0 },       // 3 lambda / func_ref
            if eff { 3 } else { 0 },                       // 4 call
            if eff { 3 } else { 0 },                       // 5 call indirect
            if eff && cx.conv >= 1 && cx.avail != 0 { 7 } else { 0 }, // 6 perform
            if cps && cx.depth < 4 && cx.level >= 0 { 6 } else { 0 }, // 7 handle
            if cx.depth < 5 { 3 } else { 0 },              // 8 if
            if cx.depth < 5 { 2 } else { 0 },              // 9 switch
            1,                                             // 10 pair
            if cx.tok.is_some() { 1 } else { 0 },          // 11 resume
        ];
        match self.t.weighted(&w) {
            0 => {
                let a = self.val(cx, st, scope, &Ty::I32);
                let b = self.val(cx, st, scope, &Ty::I32);
                let o = *self.t.pick(&["addi", "subi", "muli"]);
                self.emit(st, scope, Ty::I32, K::Bin(o, a, b));
            }
            1 => {
                let a = self.val(cx, st, scope, &Ty::I32);
                let b = self.val(cx, st, scope, &Ty::I32);
                let o = *self.t.pick(&["slt", "eq", "sge"]);
                self.emit(st, scope, Ty::I1, K::Cmp(o, a, b));
            }
            2 => self.trace(cx, st, scope),
            3 => {
                // a function of the module under a convention at least its own
                if self.t.chance(1, 3) {
                    let c: Vec<usize> = (0..self.callable).filter(|i| !self.p.funcs[*i].ty.params.is_empty()).collect();
                    let f = *self.t.pick(&c);
                    let own = self.p.funcs[f].ty.clone();
                    let conv = own.conv + self.t.idx(3 - own.conv as usize) as u8;
                    let ft = Rc::new(FnTy { conv, ..(*own).clone() });
                    let v = self.emit(st, scope, Ty::Fn(ft.clone()), K::FuncRef(f, conv));
                    if self.can_call(cx, &ft) && self.t.bool() {
                        let a = self.args(cx, st, scope, &ft.params);
                        self.emit(st, scope, ft.ret.clone(), K::CallInd(v, a));
                    }
                    return;
                }
                let conv = self.t.idx(3) as u8;
                let np = self.arity();
                let params = (0..np).map(|_| if self.t.chance(3, 4) { Ty::I32 } else { Ty::I1 }).collect();
                let needs = if conv == 0 { 0 } else { cx.avail & self.t.below(1 << 4) as u32 };
                let inst = if conv == 2 { cx.level.min(self.t.range(-1, 3) as i32) } else { -1 };
                let ret = self.small_ty();
                let ft = Rc::new(FnTy { conv, params, ret, needs, inst });
                self.make_fn(cx, st, scope, &ft);
            }
            4 => {
                let c: Vec<usize> = (0..self.callable).filter(|i| self.can_call(cx, &self.p.funcs[*i].ty)).collect();
                if c.is_empty() {
                    return;
                }
                let f = *self.t.pick(&c);
                let ft = self.p.funcs[f].ty.clone();
                let a = self.args(cx, st, scope, &ft.params);
                self.emit(st, scope, ft.ret.clone(), K::Call(f, a));
            }
            5 => {
                let c: Vec<Var> = scope.iter().copied().filter(|v| matches!(&self.p.vars[*v], Ty::Fn(f) if self.can_call(cx, f))).collect();
                if c.is_empty() {
                    return;
                }
                let v = *self.t.pick(&c);
                let Ty::Fn(ft) = self.p.vars[v].clone() else { unreachable!() };
                let a = self.args(cx, st, scope, &ft.params);
                self.emit(st, scope, ft.ret.clone(), K::CallInd(v, a));
            }
            6 => {
                let mut c = vec![];
                for (ai, ops) in self.p.abilities.iter().enumerate() {
                    if cx.avail >> ai & 1 == 0 {
                        continue;
                    }
                    for (oi, o) in ops.iter().enumerate() {
                        if o.is_fn || (cx.conv == 2 && (!o.resumable || cx.direct >> ai & 1 == 1)) {
                            let w = if o.is_fn || o.resumable { 4 } else { 1 };
                            for _ in 0..w {
                                c.push((ai, oi));
                            }
                        }
                    }
                }
                if c.is_empty() {
                    return;
                }
                let (ai, oi) = *self.t.pick(&c);
                let o = self.p.abilities[ai][oi].clone();
                let a = self.args(cx, st, scope, &o.params);
                let r = self.var(o.ret.clone());
                st.push(St { outs: vec![r], k: K::Perform(ai, oi, a) });
                if o.ret != Ty::Never {
                    scope.push(r);
                }
            }
            7 => self.handle(cx, st, scope),
            8 => {
                let plain = cx.plain || self.t.chance(1, 5);
                let nres = if plain || cx.conv < 2 { self.t.idx(3) } else { self.t.idx(2) };
                let tys: Vec<Ty> = (0..nres).map(|_| if plain { if self.t.chance(3, 4) { Ty::I32 } else { Ty::I1 } } else { self.small_ty() }).collect();
                let c = self.val(cx, st, scope, &Ty::I1);
                let cx2 = Cx { plain, depth: cx.depth + 1, tok: if plain { None } else { cx.tok }, ..cx.clone() };
                let (a, ua) = self.body(&cx2, scope.clone(), 3, &Ty::I32, TermKind::Scf(tys.clone()));
                let (b, ub) = self.body(&cx2, scope.clone(), 3, &Ty::I32, TermKind::Scf(tys.clone()));
                if ua || ub {
                    cx.tok = None;
                }
                let outs: Vec<Var> = tys.into_iter().map(|t| self.var(t)).collect();
                scope.extend(&outs);
                st.push(St { outs, k: K::If(c, Rc::new(a), Rc::new(b)) });
            }
            9 => {
                let plain = cx.plain || cx.conv < 2;
                let d = self.val(cx, st, scope, &Ty::I32);
                let cx2 = Cx { plain, depth: cx.depth + 1, tok: None, ..cx.clone() };
                let n = 1 + self.t.idx(3);
                let mut cs = vec![];
                for i in 0..n {
                    let v = i as i64 * 2 - 1;
                    let b = self.body(&cx2, scope.clone(), 3, &Ty::I32, TermKind::Scf(vec![])).0;
                    cs.push((v, Rc::new(b)));
                }
                let b = self.body(&cx2, scope.clone(), 3, &Ty::I32, TermKind::Scf(vec![])).0;
                st.push(St { outs: vec![], k: K::Switch(d, cs, Rc::new(b)) });
            }
            10 => {
                if cx.plain {
                    return;
                }
                let v = self.val(cx, st, scope, &Ty::Pair);
                let i = self.t.idx(2);
                let t = if i == 0 { Ty::I32 } else { fnty(0, vec![Ty::I32], Ty::I32, 0, -1) };
                self.emit(st, scope, t, K::Get(v, i));
            }
            _ => {
                let tok = cx.tok.unwrap();
                self.resume(cx, st, scope, tok);
            }
        }
    }
    fn can_call(&self, cx: &Cx, f: &FnTy) -> bool {
        f.conv <= cx.conv && f.needs & !cx.avail == 0 && f.inst <= cx.level
    }
    fn handle(&mut self, cx: &Cx, st: &mut Vec<St>, scope: &mut Vec<Var>) {
        let n = self.p.abilities.len() as i32;
        let top = cx.level.min(n - 1);
        let m = self.t.idx(top as usize + 1);
        let mut set = vec![m];
        for i in 0..m {
            if self.t.chance(1, 4) {
                set.push(i);
            }
        }
        if set.len() > 1 && self.t.bool() {
            set.reverse();
        }
        let mask: u32 = set.iter().map(|i| 1 << i).sum();
        let outer = cx.avail & !((2u32 << m) - 1);
        let body_ty = self.small_ty();
        let ret = self.small_ty();
        let lv = cx.level.min(m as i32);
        let bcx = Cx { conv: 2, avail: cx.avail | mask, level: lv, direct: mask, plain: false, depth: cx.depth + 1, tok: None };
        let ocx = Cx { conv: 2, avail: outer, level: lv, direct: 0, plain: false, depth: cx.depth + 1, tok: None };
        let body = self.body(&bcx, scope.clone(), 6, &body_ty, TermKind::Yield).0;
        let comp_arg = self.var(body_ty);
        let mut sc = scope.clone();
        sc.push(comp_arg);
        let comp = self.body(&ocx, sc, 2, &ret, TermKind::Yield).0;
        let mut arms = vec![];
        for &a in &set {
            for oi in 0..self.p.abilities[a].len() {
                let o = self.p.abilities[a][oi].clone();
                let params: Vec<Var> = o.params.iter().map(|t| self.var(t.clone())).collect();
                let mut sc = scope.clone();
                sc.extend(&params);
                let mut acx = ocx.clone();
                let mut tok = None;
                let mut rt = ret.clone();
                if o.is_fn {
                    acx.conv = 1;
                    acx.level = -1;
                    rt = o.ret.clone();
                } else if o.ret != Ty::Never {
                    let v = self.var(Ty::I32);
                    self.p.toks.insert(v, (o.ret.clone(), ret.clone()));
                    tok = Some(v);
                    if o.resumable {
                        acx.tok = tok;
                    }
                }
                let b = self.body(&acx, sc, 2, &rt, TermKind::Yield).0;
                arms.push(Arm { ability: a, op: oi, params, tok, body: Rc::new(b) });
            }
        }
        if arms.len() > 1 && self.t.bool() {
            let i = self.t.idx(arms.len());
            arms.rotate_left(i);
        }
        self.emit(st, scope, ret, K::Handle(Rc::new(Handle { abilities: set, body: Rc::new(body), comp_arg, comp: Rc::new(comp), arms })));
    }
}

/// Handler whose arm passes a lambda that resumes to a recursive call of the enclosing function.
fn recursive_template(g: &mut Gen, ability: usize, op: usize) {
    let o = g.p.abilities[ability][op].clone();
    let kt = Rc::new(FnTy { conv: 2, params: vec![], ret: Ty::I32, needs: 0, inst: -1 });
    let me = g.p.funcs.len();
    let k = g.var(Ty::Fn(kt.clone()));
    let n = g.var(Ty::I32);
    let cx = Cx { conv: 2, avail: 0, level: -1, direct: 0, plain: false, depth: 4, tok: None };
    // handle body: if n < 1 { perform } else { k(); maybe k() }
    let mut b = vec![];
    let mut sc = vec![n];
    let one = g.emit(&mut b, &mut sc, Ty::I32, K::Const(1));
    let c = g.emit(&mut b, &mut sc, Ty::I1, K::Cmp("slt", n, one));
    let mut s1 = sc.clone();
    let mut b1 = vec![];
    let args = g.args(&cx, &mut b1, &mut s1, &o.params);
    let r = g.emit(&mut b1, &mut s1, o.ret.clone(), K::Perform(ability, op, args));
    let _ = r;
    if g.t.bool() {
        g.trace(&cx, &mut b1, &mut s1);
    }
    let v1 = g.val(&cx, &mut b1, &mut s1, &Ty::I32);
    let mut s2 = sc.clone();
    let mut b2 = vec![];
    let calls = 1 + g.t.weighted(&[3, 2]);
    for _ in 0..calls {
        g.emit(&mut b2, &mut s2, Ty::I32, K::CallInd(k, vec![]));
        if g.t.bool() {
            g.trace(&cx, &mut b2, &mut s2);
        }
    }
    let v2 = g.val(&cx, &mut b2, &mut s2, &Ty::I32);
    let v = g.var(Ty::I32);
    b.push(St { outs: vec![v], k: K::If(c, Rc::new(Body { stmts: b1, term: Term::ScfYield(vec![v1]) }), Rc::new(Body { stmts: b2, term: Term::ScfYield(vec![v2]) })) });
    let body = Body { stmts: b, term: Term::Yield(v) };
    let comp_arg = g.var(Ty::I32);
    let comp = g.body(&Cx { depth: 4, ..cx.clone() }, vec![comp_arg, n], 2, &Ty::I32, TermKind::Yield).0;
    let mut arms = vec![];
    for oi in 0..g.p.abilities[ability].len() {
        let o2 = g.p.abilities[ability][oi].clone();
        let params: Vec<Var> = o2.params.iter().map(|t| g.var(t.clone())).collect();
        let mut sc = params.clone();
        sc.push(n);
        let mut tok = None;
        if !o2.is_fn && o2.ret != Ty::Never {
            let tv = g.var(Ty::I32);
            g.p.toks.insert(tv, (o2.ret.clone(), Ty::I32));
            tok = Some(tv);
        }
        let b = if oi == op {
            let mut ab = vec![];
            let mut ls = vec![];
            let mut lsc = sc.clone();
            let v = g.val(&cx, &mut ls, &mut lsc, &o2.ret);
            let r = g.emit(&mut ls, &mut lsc, Ty::I32, K::Resume(tok.unwrap(), v));
            let lb = Rc::new(Body { stmts: ls, term: Term::Return(r) });
            let captures = free_vars(&lb);
            let lv = g.var(Ty::Fn(kt.clone()));
            ab.push(St { outs: vec![lv], k: K::Lambda(Rc::new(Lam { ty: kt.clone(), params: vec![], body: lb, captures })) });
            let mut s = sc.clone();
            let c1 = g.emit(&mut ab, &mut s, Ty::I32, K::Const(1));
            let rv = g.emit(&mut ab, &mut s, Ty::I32, K::Call(me, vec![lv, c1]));
            Body { stmts: ab, term: Term::Yield(rv) }
        } else {
            let rt = if o2.is_fn { o2.ret.clone() } else { Ty::I32 };
            g.body(&Cx { conv: if o2.is_fn { 1 } else { 2 }, ..cx.clone() }, sc, 1, &rt, TermKind::Yield).0
        };
        arms.push(Arm { ability, op: oi, params, tok, body: Rc::new(b) });
    }
    let h = g.var(Ty::I32);
    let mut fb = vec![St { outs: vec![h], k: K::Handle(Rc::new(Handle { abilities: vec![ability], body: Rc::new(body), comp_arg, comp: Rc::new(comp), arms })) }];
    let mut s = vec![h];
    g.trace(&cx, &mut fb, &mut s);
    let ft = Rc::new(FnTy { conv: 2, params: vec![Ty::Fn(kt.clone()), Ty::I32], ret: Ty::I32, needs: 0, inst: ability as i32 });
    g.p.funcs.push(Func { name: format!("rec{me}"), ty: ft, params: vec![k, n], body: Some(Rc::new(Body { stmts: fb, term: Term::Return(*s.last().unwrap()) })), extra: None });
    // driver: rec(fn() { 7 }, 0)
    let me2 = g.p.funcs.len();
    let x = g.var(Ty::I32);
    let mut ds = vec![];
    let mut sc = vec![x];
    let c7 = {
        let mut ls = vec![];
        let mut lsc = vec![];
        let v = g.emit(&mut ls, &mut lsc, Ty::I32, K::Const(7));
        let lv = g.var(Ty::Fn(kt.clone()));
        ds.push(St { outs: vec![lv], k: K::Lambda(Rc::new(Lam { ty: kt, params: vec![], body: Rc::new(Body { stmts: ls, term: Term::Return(v) }), captures: vec![] })) });
        lv
    };
    let z = g.emit(&mut ds, &mut sc, Ty::I32, K::Const(0));
    let r = g.emit(&mut ds, &mut sc, Ty::I32, K::Call(me, vec![c7, z]));
    let ft = Rc::new(FnTy { conv: 2, params: vec![Ty::I32], ret: Ty::I32, needs: 0, inst: ability as i32 });
    g.p.funcs.push(Func { name: format!("drive{me2}"), ty: ft, params: vec![x], body: Some(Rc::new(Body { stmts: ds, term: Term::Return(r) })), extra: None });
}

pub fn gen_prog(t: &mut Tape, allow_nested: bool) -> Prog {
    let mut g = Gen { t, p: Prog::default(), fuel: 0, callable: 3 };
    let na = 1 + g.t.idx(3);
    if g.t.chance(1, 4) {
        let s = g.t.idx(10);
        g.p.inst = (0..na).map(|a| (s + a) % 10).collect();
    }
    for a in 0..na {
        let no = 1 + g.t.idx(3);
        let mut ops = vec![];
        for o in 0..no {
            let kind = g.t.weighted(&[3, 4, 1, 1]);
            let np = g.arity();
            let params = (0..np).map(|_| g.small_ty()).collect();
            let ret = if kind == 3 { Ty::Never } else { g.small_ty() };
            // operation names repeat across abilities
            let name = if g.t.chance(1, 3) { format!("o{o}") } else { format!("a{a}o{o}") };
            ops.push(OpDecl { name, is_fn: kind == 0, resumable: kind == 1, params, ret });
        }
        let mut seen: Vec<String> = vec![];
        for (i, o) in ops.iter_mut().enumerate() {
            if seen.contains(&o.name) {
                o.name = format!("{}x{i}", o.name);
            }
            seen.push(o.name.clone());
        }
        g.p.abilities.push(ops);
    }
    for (n, c) in EXT {
        let ft = Rc::new(FnTy { conv: c, params: vec![Ty::I32], ret: Ty::I32, needs: 0, inst: -1 });
        let v = g.var(Ty::I32);
        g.p.funcs.push(Func { name: n.into(), ty: ft, params: vec![v], body: None, extra: None });
    }
    let nf = 1 + g.t.idx(4);
    for i in 0..nf {
        g.callable = g.p.funcs.len();
        let last = i + 1 == nf;
        let conv = if last { 2 } else { g.t.weighted(&[1, 2, 4]) as u8 };
        let np = if last { g.t.idx(3) } else { g.arity() };
        let params: Vec<Ty> = (0..np).map(|_| if last { Ty::I32 } else { match g.t.weighted(&[4, 1, 2]) {
            0 => Ty::I32,
            1 => g.small_ty(),
            _ => {
                let c = g.t.idx(3) as u8;
                let needs = if c == 0 { 0 } else { g.t.below(1 << na) as u32 };
                let inst = if c == 2 { g.t.range(-1, na as i64 - 1) as i32 } else { -1 };
                fnty(c, vec![Ty::I32], Ty::I32, needs, inst)
            }
        } }).collect();
        let needs = if conv == 0 || last { 0 } else { g.t.below(1 << na) as u32 };
        let inst = if conv < 2 { -1 } else if last { na as i32 - 1 } else { g.t.range(-1, na as i64 - 1) as i32 };
        let ret = if last { Ty::I32 } else { g.small_ty() };
        let pv: Vec<Var> = params.iter().map(|t| g.var(t.clone())).collect();
        g.fuel = if last { 40 } else { 16 };
        let cx = Cx { conv, avail: needs, level: inst, direct: 0, plain: false, depth: 0, tok: None };
        let body = g.body(&cx, pv.clone(), if last { 8 } else { 5 }, &ret, TermKind::Return).0;
        let extra = g.t.chance(1, 4).then_some(g.t.range(0, 99));
        g.p.funcs.push(Func { name: format!("f{i}"), ty: Rc::new(FnTy { conv, params, ret, needs, inst }), params: pv, body: Some(Rc::new(body)), extra });
    }
    if g.t.chance(1, 6) {
        let c: Vec<(usize, usize)> = (0..na).flat_map(|a| (0..g.p.abilities[a].len()).map(move |o| (a, o))).filter(|(a, o)| { let d = &g.p.abilities[*a][*o]; d.resumable && d.ret != Ty::Never }).collect();
        if !c.is_empty() {
            let (a, o) = *g.t.pick(&c);
            g.fuel = 6;
            recursive_template(&mut g, a, o);
        }
    }
    let mut p = g.p;
    if allow_nested && t.chance(1, 6) {
        p.nested = Some(Box::new(Prog { inner: true, ..gen_prog(t, false) }));
    }
    p
}
