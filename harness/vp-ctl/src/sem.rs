//! Reference semantics: an explicit-stack machine for direct-style programs with deep handlers.
use crate::ast::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone)]
pub enum V {
    I(i64),
    Pair(Rc<(V, V)>),
    Clo(Rc<Lam>, Rc<HashMap<Var, V>>),
    Fun(usize),
    Tok(Rc<RefCell<Option<Vec<Frame>>>>),
}
pub enum Frame {
    Seq { body: Rc<Body>, pc: usize, env: HashMap<Var, V>, outs: Vec<Var>, id: u64 },
    /// `under`: the frames that were waiting for the handle's answer when it was entered.
    Handle { h: Rc<Handle>, env: HashMap<Var, V>, under: Rc<Vec<u64>>, id: u64 },
}
#[derive(Clone, Debug, PartialEq)]
pub enum End {
    Value(String),
    Trap,
    OutOfFuel,
    /// The run reaches a situation the conversion is known to get wrong (see known-findings.txt).
    Outside,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Run {
    pub trace: Vec<(u8, i64)>,
    pub end: End,
}
#[derive(Default, Clone)]
pub struct Stats {
    pub performs: usize,
    pub fn_performs: usize,
    pub resumes: usize,
    pub ind: usize,
    pub steps: usize,
}
pub fn wrap(n: i64) -> i64 {
    n as i32 as i64
}
pub fn arith(op: &str, a: i64, b: i64) -> i64 {
    wrap(match op {
        "addi" => a + b,
        "subi" => a - b,
        _ => a.wrapping_mul(b),
    })
}
pub fn cmp(op: &str, a: i64, b: i64) -> i64 {
    i64::from(match op {
        "slt" => a < b,
        "eq" => a == b,
        _ => a >= b,
    })
}
pub fn show(p: &Prog, v: &V) -> String {
    match v {
        V::I(n) => n.to_string(),
        V::Pair(x) => format!("({}, {})", show(p, &x.0), show(p, &x.1)),
        _ => "callable".into(),
    }
}

/// Frames that do something with the value they wait for, rather than hand it on.
fn waiting(stack: &[Frame]) -> Vec<u64> {
    let mut out = vec![];
    for f in stack {
        match f {
            Frame::Seq { body, pc, outs, id, .. } => {
                let passes = *pc == body.stmts.len() && outs.len() == 1 && match &body.term {
                    Term::Return(v) | Term::Yield(v) => *v == outs[0],
                    Term::ScfYield(v) => v[..] == outs[..],
                };
                if !passes {
                    out.push(*id);
                }
            }
            Frame::Handle { id, .. } => out.push(*id),
        }
    }
    out
}

/// `all`: also run what is outside the domain in which the conversion is expected to be right.
pub fn run(p: &Prog, f: usize, args: &[i64], st: &mut Stats, all: bool) -> Run {
    let mut trace = vec![];
    let mut stack: Vec<Frame> = vec![];
    let fun = &p.funcs[f];
    let mut body = fun.body.clone().unwrap();
    let mut pc = 0;
    let mut env: HashMap<Var, V> = fun.params.iter().copied().zip(args.iter().map(|a| V::I(*a))).collect();
    let mut fuel = 6_000usize;
    let mut ids = 0u64;
    macro_rules! ret {
        // deliver values to the innermost frame
        ($vals:expr) => {{
            let vals: Vec<V> = $vals;
            match stack.pop() {
                None => return Run { trace, end: End::Value(show(p, &vals[0])) },
                Some(Frame::Seq { body: b, pc: i, env: mut e, outs, .. }) => {
                    for (o, v) in outs.iter().zip(vals) {
                        e.insert(*o, v);
                    }
                    body = b;
                    pc = i;
                    env = e;
                }
                Some(Frame::Handle { h, env: mut e, .. }) => {
                    e.insert(h.comp_arg, vals.into_iter().next().unwrap());
                    body = h.comp.clone();
                    pc = 0;
                    env = e;
                }
            }
            continue;
        }};
    }
    loop {
        fuel -= 1;
        st.steps += 1;
        if fuel == 0 || stack.len() > 300 {
            return Run { trace, end: End::OutOfFuel };
        }
        if pc == body.stmts.len() {
            let vs: Vec<V> = match &body.term {
                Term::Return(v) | Term::Yield(v) => vec![env[v].clone()],
                Term::ScfYield(vs) => vs.iter().map(|v| env[v].clone()).collect(),
            };
            ret!(vs);
        }
        let b = body.clone();
        let s = &b.stmts[pc];
        let int = |v: &Var, env: &HashMap<Var, V>| match &env[v] {
            V::I(n) => *n,
            _ => panic!("oracle: int expected"),
        };
        macro_rules! set {
            ($v:expr) => {{
                let v = $v;
                env.insert(s.outs[0], v);
                pc += 1;
                continue;
            }};
        }
        macro_rules! push_seq {
            () => {{
                let e = std::mem::take(&mut env);
                ids += 1;
                stack.push(Frame::Seq { body: b.clone(), pc: pc + 1, env: e, outs: s.outs.clone(), id: ids });
            }};
        }
        macro_rules! enter {
            ($fv:expr, $args:expr) => {{
                let args: Vec<V> = $args;
                match $fv {
                    V::Fun(i) => {
                        let f = &p.funcs[i];
                        match &f.body {
                            None => {
                                let V::I(n) = args[0] else { panic!("oracle: int expected") };
                                trace.push((f.ty.conv, n));
                                set!(V::I(wrap(n + 1 + f.ty.conv as i64)));
                            }
                            Some(fb) => {
                                push_seq!();
                                body = fb.clone();
                                pc = 0;
                                env = f.params.iter().copied().zip(args).collect();
                                continue;
                            }
                        }
                    }
                    V::Clo(l, e) => {
                        push_seq!();
                        body = l.body.clone();
                        pc = 0;
                        env = (*e).clone();
                        env.extend(l.params.iter().copied().zip(args));
                        continue;
                    }
                    _ => panic!("oracle: callable expected"),
                }
            }};
        }
        match &s.k {
            K::Const(n) => set!(V::I(*n)),
            K::Bin(o, a, c) => set!(V::I(arith(o, int(a, &env), int(c, &env)))),
            K::Cmp(o, a, c) => set!(V::I(cmp(o, int(a, &env), int(c, &env)))),
            K::Pack(a, c) => set!(V::Pair(Rc::new((env[a].clone(), env[c].clone())))),
            K::Get(a, i) => {
                let V::Pair(x) = env[a].clone() else { panic!("oracle: pair expected") };
                set!(if *i == 0 { x.0.clone() } else { x.1.clone() })
            }
            K::Lambda(l) => {
                let e = l.captures.iter().map(|v| (*v, env[v].clone())).collect();
                set!(V::Clo(l.clone(), Rc::new(e)))
            }
            K::FuncRef(f, _) => set!(V::Fun(*f)),
            K::Call(f, a) => {
                let args = a.iter().map(|v| env[v].clone()).collect();
                enter!(V::Fun(*f), args)
            }
            K::CallInd(c, a) => {
                st.ind += 1;
                let args = a.iter().map(|v| env[v].clone()).collect();
                let f = env[c].clone();
                enter!(f, args)
            }
            K::If(c, x, y) => {
                let take = int(c, &env) & 1 != 0;
                let e = env.clone();
                push_seq!();
                env = e;
                body = if take { x.clone() } else { y.clone() };
                pc = 0;
            }
            K::Switch(d, cs, df) => {
                let n = int(d, &env);
                let e = env.clone();
                push_seq!();
                env = e;
                body = cs.iter().find(|c| c.0 == n).map_or(df, |c| &c.1).clone();
                pc = 0;
            }
            K::Handle(h) => {
                let e = env.clone();
                push_seq!();
                let under = Rc::new(waiting(&stack));
                stack.push(Frame::Handle { h: h.clone(), env: e.clone(), under, id: ids + 1 });
                ids += 1;
                env = e;
                body = h.body.clone();
                pc = 0;
            }
            K::Perform(ai, oi, a) => {
                let args: Vec<V> = a.iter().map(|v| env[v].clone()).collect();
                let at = stack.iter().rposition(|f| matches!(f, Frame::Handle { h, .. } if h.abilities.contains(ai))).expect("oracle: unhandled operation");
                let Frame::Handle { h, env: he, under, .. } = &stack[at] else { unreachable!() };
                if !all && !p.abilities[*ai][*oi].is_fn && waiting(&stack[..at]) != **under {
                    return Run { trace, end: End::Outside };
                }
                let (h, mut he) = (h.clone(), he.clone());
                let arm = h.arms.iter().find(|x| x.ability == *ai && x.op == *oi).unwrap().clone();
                he.extend(arm.params.iter().copied().zip(args));
                push_seq!();
                if p.abilities[*ai][*oi].is_fn {
                    st.fn_performs += 1;
                } else {
                    st.performs += 1;
                    let seg = stack.split_off(at);
                    if let Some(t) = arm.tok {
                        he.insert(t, V::Tok(Rc::new(RefCell::new(Some(seg)))));
                    }
                }
                env = he;
                body = arm.body.clone();
                pc = 0;
            }
            K::Resume(t, v) => {
                st.resumes += 1;
                let V::Tok(t) = env[t].clone() else { panic!("oracle: token expected") };
                let v = env[v].clone();
                let Some(seg) = t.borrow_mut().take() else { return Run { trace, end: End::Trap } };
                push_seq!();
                stack.extend(seg);
                ret!(vec![v]);
            }
        }
    }
}
