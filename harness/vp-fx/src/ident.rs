//! Runtime identities of abilities and their operations.
use engine::*;
use irkit::b::*;
use std::collections::HashMap;
use std::io::Write;
use std::process::{Command, Stdio};
use tribute_ir::dialect::ability;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::types::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Ty {
    Plain(&'static str, &'static str),
    Named(String),
    Array(Box<Ty>),
    Fun(Box<Ty>, Vec<Ty>),
    Ability(String, Vec<Ty>),
    Struct(String, Vec<(String, Ty)>),
}
type Ref = (String, Vec<Ty>);

const PIECES: &[&str] = &["State", "Stat", "e", "Reader", "a", "A", "Foo", "Bar", "é", "std", "_", "x1", "x2", "Console"];
fn name(t: &mut Tape) -> String {
    let mut s = String::new();
    for i in 0..1 + t.idx(3) {
        if i > 0 && t.bool() {
            s.push_str("::");
        }
        s.push_str(t.pick(PIECES));
    }
    s
}
fn gen_ty(t: &mut Tape, d: usize) -> Ty {
    match if d == 0 { t.idx(2) } else { t.idx(6) } {
        0 => Ty::Named(name(t)),
        1 => {
            let p = t.pick(&[("core", "i32"), ("core", "i64"), ("core", "f64"), ("core", "nil"), ("tribute_rt", "anyref"), ("tribute_rt", "int")]);
            Ty::Plain(p.0, p.1)
        }
        2 => Ty::Array(Box::new(gen_ty(t, d - 1))),
        3 => Ty::Fun(Box::new(gen_ty(t, d - 1)), (0..t.upto(3)).map(|_| gen_ty(t, d - 1)).collect()),
        4 => Ty::Ability(name(t), (0..t.upto(2)).map(|_| gen_ty(t, d - 1)).collect()),
        _ => Ty::Struct(name(t), (0..t.upto(3)).map(|_| (name(t), gen_ty(t, d - 1))).collect()),
    }
}
/// A type that differs from `x` in one place.
fn vary(t: &mut Tape, x: &Ty) -> Ty {
    match x {
        Ty::Named(_) => Ty::Named(name(t)),
        Ty::Array(e) if t.bool() => Ty::Array(Box::new(vary(t, e))),
        Ty::Fun(r, ps) if !ps.is_empty() => {
            let mut ps = ps.clone();
            let i = t.idx(ps.len());
            if t.bool() {
                ps[i] = vary(t, &ps[i]);
            } else {
                ps.reverse();
            }
            Ty::Fun(r.clone(), ps)
        }
        Ty::Ability(n, ps) if !ps.is_empty() && t.bool() => {
            let mut ps = ps.clone();
            let i = t.idx(ps.len());
            ps[i] = vary(t, &ps[i]);
            Ty::Ability(n.clone(), ps)
        }
        Ty::Struct(n, fs) if !fs.is_empty() => {
            let mut fs = fs.clone();
            let i = t.idx(fs.len());
            match t.idx(3) {
                0 => fs[i].0 = name(t),
                1 => fs[i].1 = vary(t, &fs[i].1),
                _ => fs.reverse(),
            }
            Ty::Struct(n.clone(), fs)
        }
        _ => gen_ty(t, 1),
    }
}
fn mk_ty(c: &mut IrContext, x: &Ty) -> TypeRef {
    match x {
        Ty::Plain(d, n) => ty0(c, d, n),
        Ty::Named(n) => c.types.intern(TypeDataBuilder::new(sym("adt"), sym("typeref")).attr(sym("name"), Attribute::Symbol(sym(n))).build()),
        Ty::Array(e) => {
            let e = mk_ty(c, e);
            c.types.intern(TypeDataBuilder::new(sym("core"), sym("array")).param(e).build())
        }
        Ty::Fun(r, ps) => {
            let ps: Vec<TypeRef> = ps.iter().map(|p| mk_ty(c, p)).collect();
            let r = mk_ty(c, r);
            fnty(c, r, &ps)
        }
        Ty::Ability(n, ps) => mk_ref(c, &(n.clone(), ps.clone())),
        Ty::Struct(n, fs) => {
            let fs = fs.iter().map(|(f, x)| Attribute::List(vec![Attribute::Symbol(sym(f)), Attribute::Type(mk_ty(c, x))])).collect();
            c.types.intern(TypeDataBuilder::new(sym("adt"), sym("struct")).attr(sym("name"), Attribute::Symbol(sym(n))).attr(sym("fields"), Attribute::List(fs)).build())
        }
    }
}
fn mk_ref(c: &mut IrContext, r: &Ref) -> TypeRef {
    let ps: Vec<TypeRef> = r.1.iter().map(|p| mk_ty(c, p)).collect();
    c.types.intern(TypeDataBuilder::new(sym("core"), sym("ability_ref")).params(ps).attr(sym("name"), Attribute::Symbol(sym(&r.0))).build())
}
/// The same type with every name extended by `x`.
fn renamed(t: &Ty, x: &str) -> Ty {
    let all = |ps: &[Ty]| ps.iter().map(|p| renamed(p, x)).collect::<Vec<_>>();
    match t {
        Ty::Plain(..) => t.clone(),
        Ty::Named(n) => Ty::Named(format!("{n}{x}")),
        Ty::Array(e) => Ty::Array(Box::new(renamed(e, x))),
        Ty::Fun(r, ps) => Ty::Fun(Box::new(renamed(r, x)), all(ps)),
        Ty::Ability(n, ps) => Ty::Ability(format!("{n}{x}"), all(ps)),
        Ty::Struct(n, fs) => Ty::Struct(format!("{n}{x}"), fs.iter().map(|(f, p)| (format!("{f}{x}"), renamed(p, x))).collect()),
    }
}
/// Ids are hashes: a chance collision disappears when every name is changed.
fn not_chance(same: impl Fn(&str) -> bool) -> bool {
    ["q", "Zw", "_7"].iter().filter(|x| same(x)).count() >= 2
}
struct Spec {
    refs: Vec<Ref>,
    ops: Vec<String>,
    noise: Vec<Ty>,
    order: Vec<usize>,
}
fn spec(t: &mut Tape) -> Spec {
    let n = 2 + t.idx(9);
    let mut refs: Vec<Ref> = vec![];
    for _ in 0..n {
        let r: Ref = if refs.is_empty() || t.chance(1, 4) {
            (name(t), (0..t.upto(2)).map(|_| gen_ty(t, 2)).collect())
        } else {
            let mut r = t.pick(&refs).clone();
            match t.idx(5) {
                0 => r.0 = name(t),
                1 => r.1.push(gen_ty(t, 1)),
                2 => r.1.reverse(),
                _ if !r.1.is_empty() => {
                    let i = t.idx(r.1.len());
                    r.1[i] = vary(t, &r.1[i].clone());
                }
                _ => r.1.push(gen_ty(t, 2)),
            }
            r
        };
        if !refs.contains(&r) {
            refs.push(r);
        }
    }
    let mut ops: Vec<String> = vec![];
    for _ in 0..1 + t.idx(6) {
        let o = name(t);
        if !ops.contains(&o) {
            ops.push(o);
        }
    }
    let noise = (0..t.upto(6)).map(|_| gen_ty(t, 2)).collect();
    let mut order: Vec<usize> = (0..refs.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, t.upto(i));
    }
    Spec { refs, ops, noise, order }
}
fn ids(c: &mut IrContext, s: &Spec, order: &[usize]) -> Vec<u32> {
    let mut v = vec![0; s.refs.len()];
    for &i in order {
        let r = mk_ref(c, &s.refs[i]);
        v[i] = ability::compute_ability_id(c, r);
    }
    v
}
fn op_ids(s: &Spec) -> Vec<u32> {
    let mut names: Vec<&str> = s.refs.iter().map(|r| r.0.as_str()).collect();
    names.sort();
    names.dedup();
    names.iter().flat_map(|a| s.ops.iter().map(|o| ability::compute_op_idx(Some(sym(a)), Some(sym(o))))).collect()
}
/// The same identities in another process that met the names in another order.
pub fn child() -> bool {
    if std::env::args().nth(1).as_deref() != Some("--ident-child") {
        return false;
    }
    for i in (0..PIECES.len()).rev() {
        let _ = sym(&format!("noise{i}"));
        let _ = sym(PIECES[i]);
    }
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    for l in s.lines() {
        let mut t = Tape::fresh(l.parse().unwrap());
        let s = spec(&mut t);
        let mut c = IrContext::new();
        for x in &s.noise {
            mk_ty(&mut c, x);
        }
        let mut order = s.order.clone();
        order.reverse();
        println!("{:?} {:?}", ids(&mut c, &s, &order), op_ids(&s));
    }
    true
}
fn describe(s: &Spec) -> String {
    let mut o = String::new();
    for r in &s.refs {
        o += &format!("ability {} {:?}\n", r.0, r.1);
    }
    o + &format!("operations {:?}", s.ops)
}
fn identity(t: &mut Tape) -> CaseResult {
    let s = spec(t);
    let text = describe(&s);
    note(&text);
    let mut a = IrContext::new();
    let plain: Vec<usize> = (0..s.refs.len()).collect();
    let va = ids(&mut a, &s, &plain);
    let again = ids(&mut a, &s, &s.order);
    let mut b = IrContext::new();
    for x in &s.noise {
        mk_ty(&mut b, x);
    }
    let vb = ids(&mut b, &s, &s.order);
    if va != again || va != vb {
        return fail(format!("ability id depends on the context| {va:?} {again:?} {vb:?}"), text);
    }
    let mut seen: HashMap<u32, usize> = HashMap::new();
    for (i, v) in va.iter().enumerate() {
        if let Some(j) = seen.insert(*v, i) {
            let same = |x: &str| {
                let mut c = IrContext::new();
                let mut id = |r: &Ref| {
                    let r = mk_ref(&mut c, &(format!("{}{x}", r.0), r.1.iter().map(|p| renamed(p, x)).collect()));
                    ability::compute_ability_id(&c, r)
                };
                id(&s.refs[i]) == id(&s.refs[j])
            };
            if !not_chance(same) {
                continue;
            }
            return fail(format!("two abilities share an id| {:?} and {:?} have {v}", s.refs[i], s.refs[j]), text);
        }
    }
    // operations: one index per (ability name, operation), the same at every use
    let mut seen: HashMap<u32, (String, String)> = HashMap::new();
    for r in &s.refs {
        for o in &s.ops {
            let k = ability::compute_op_idx(Some(sym(&r.0)), Some(sym(o)));
            let me = (r.0.clone(), o.clone());
            if let Some(p) = seen.insert(k, me.clone()) {
                let idx = |m: &(String, String), x: &str| ability::compute_op_idx(Some(sym(&format!("{}{x}", m.0))), Some(sym(&format!("{}{x}", m.1))));
                if p != me && not_chance(|x| idx(&p, x) == idx(&me, x)) {
                    return fail(format!("two operations share an index| {me:?} and {p:?} have {k}"), text);
                }
            }
        }
    }
    // payloads: the operand types in order, and one type per operation and operands
    let mut seen: HashMap<TypeRef, (String, String, Vec<Ty>)> = HashMap::new();
    for (i, r) in s.refs.iter().enumerate() {
        for o in &s.ops {
            let fs: Vec<Ty> = r.1.iter().chain(s.noise.iter().take(i % 3)).cloned().collect();
            let ftys: Vec<TypeRef> = fs.iter().map(|f| mk_ty(&mut a, f)).collect();
            let rt = mk_ref(&mut a, r);
            let p = ability::operation_payload_type_ref(&mut a, rt, sym(o), ftys.iter().copied());
            let p2 = ability::operation_payload_type_ref(&mut a, rt, sym(o), ftys.iter().copied());
            if p != p2 {
                return fail("two payload types for one operation|", text);
            }
            let got: Vec<TypeRef> = match a.types.get(p).attrs.get("fields") {
                Some(Attribute::List(l)) => l
                    .iter()
                    .filter_map(|x| match x {
                        Attribute::List(x) => x.iter().find_map(|y| if let Attribute::Type(y) = y { Some(*y) } else { None }),
                        Attribute::Type(y) => Some(*y),
                        _ => None,
                    })
                    .collect(),
                _ => vec![],
            };
            if got != ftys {
                return fail(format!("payload of {o} does not hold its operands in order|"), text);
            }
            let me = (r.0.clone(), o.clone(), fs);
            if let Some(q) = seen.insert(p, me.clone()) {
                let idx = |m: &(String, String, Vec<Ty>)| ability::compute_op_idx(Some(sym(&m.0)), Some(sym(&m.1)));
                if q != me && !((q.0 != me.0 || q.1 != me.1) && idx(&q) == idx(&me)) {
                    return fail(format!("operations share a payload type| {me:?} and {q:?}"), text);
                }
            }
        }
    }
    let mut tags = vec![];
    let same_name = s.refs.iter().enumerate().any(|(i, r)| s.refs[..i].iter().any(|q| q.0 == r.0));
    if same_name {
        tags.push("instances".to_string());
    }
    Ok(Case { nontrivial: same_name, key: hash_str(&text), render: text, tags })
}
fn across(t: &mut Tape) -> CaseResult {
    let seeds: Vec<u64> = (0..40).map(|_| t.u64()).collect();
    let mut want = String::new();
    let mut text = String::new();
    for s in &seeds {
        let s = spec(&mut Tape::fresh(*s));
        let mut c = IrContext::new();
        let plain: Vec<usize> = (0..s.refs.len()).collect();
        want += &format!("{:?} {:?}\n", ids(&mut c, &s, &plain), op_ids(&s));
        text += &describe(&s);
        text.push('\n');
    }
    let mut p = Command::new(std::env::current_exe().unwrap()).arg("--ident-child").stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().unwrap();
    let inp: String = seeds.iter().map(|s| format!("{s}\n")).collect();
    p.stdin.take().unwrap().write_all(inp.as_bytes()).unwrap();
    let out = p.wait_with_output().unwrap();
    let got = String::from_utf8_lossy(&out.stdout).to_string();
    if got != want {
        let i = got.lines().zip(want.lines()).position(|(a, b)| a != b).unwrap_or(0);
        let s = spec(&mut Tape::fresh(seeds[i]));
        return fail(format!("ids differ in another process| {:?} / {:?}", got.lines().nth(i), want.lines().nth(i)), describe(&s));
    }
    Ok(Case { nontrivial: true, key: hash_str(&text), render: text.lines().take(12).collect::<Vec<_>>().join("\n"), tags: vec![] })
}
pub fn props() -> Vec<Property> {
    vec![Property {
        id: "C37",
        lanes: vec![
            Lane { name: "identity", rule: "two of the abilities are instances of the same name", quick: 20_000, thorough: 600_000, threads: 0, run: identity },
            Lane { name: "processes", rule: "40 sets of abilities are compared", quick: 30, thorough: 300, threads: 0, run: across },
        ],
        assumptions: vec!["ids are 32-bit hashes: a collision counts only if it persists when every name is changed consistently"],
        sweeps: vec![],
    }]
}
