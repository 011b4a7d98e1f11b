#!/usr/bin/env python3
"""Writes harness/vp-macros/src/generated.rs: a random dialect and the code that drives every wrapper of it."""
import random, re, sys
seed = int(sys.argv[1]) if len(sys.argv) > 1 else 7
R = random.Random(seed)
KINDS = ["bool", "i32", "i64", "u32", "u64", "f32", "f64", "Type", "String", "Symbol", "QualifiedName", "Bytes", "any"]
KW = ["type", "in", "loop", "match", "ref", "fn", "if", "move", "use", "where"]
def camel(s): return "".join(w.capitalize() for w in s.split("_"))
def raw(n): return ("r#" + n) if n in KW else n
ops, tys, code = [], [], []
def attrs(n, used):
    out = []
    for i in range(n):
        nm = R.choice(KW) if R.random() < .15 else R.choice(["k%d", "key_%d", "a%dname"]) % i
        if nm in used: nm = "k%d" % i
        used.add(nm)
        out.append((nm, R.random() < .4, R.choice(KINDS)))
    return out
def attr_line(at):
    return "#[attr(" + ", ".join(f"{raw(n)}{'?' if o else ''}: {k}" for n, o, k in at) + ")]" if at else ""
OPN = ["copy", "wide_op", "xx_op", "load_2", "do_it_now", "r#yield", "r#match", "r#let"]
def value(n, o, k):
    e = f'v_{k.lower()}(t, e)'
    return f"opt(t, e, v_{k.lower()})" if o else e
def to_attr(k, v):
    return {"bool": f"Attribute::Bool({v})", "i32": f"Attribute::Int({v} as i128)", "i64": f"Attribute::Int({v} as i128)", "u32": f"Attribute::Int({v} as i128)", "u64": f"Attribute::Int({v} as i128)",
            "f32": f"Attribute::FloatBits(({v} as f64).to_bits())", "f64": f"Attribute::FloatBits({v}.to_bits())", "Type": f"Attribute::Type({v})", "String": f"Attribute::String({v}.clone())",
            "Symbol": f"Attribute::Symbol({v})", "QualifiedName": f"Attribute::Symbol({v})", "Bytes": f"Attribute::Bytes({v}.clone())", "any": f"{v}.clone()"}[k]
def check_attrs(at, out, var):
    out.append("let mut want: Vec<(&str, Attribute)> = vec![];")
    for i, (n, o, k) in enumerate(at):
        if o: out.append(f"if let Some(x) = &at{i} {{ let x = x.clone(); want.push((\"{n}\", {to_attr(k, 'x')})); }}")
        else: out.append(f"want.push((\"{n}\", {to_attr(k, f'at{i}')}));")
    for i, (n, o, k) in enumerate(at):
        if k in ("f32", "f64"):
            if o: out.append(f"ck(\"{n}\", {var}.{raw(n)}(c).map(|x| x.to_bits()) == at{i}.map(|x| x.to_bits()))?;")
            else: out.append(f"ck(\"{n}\", {var}.{raw(n)}(c).to_bits() == at{i}.to_bits())?;")
        else: out.append(f"ck(\"{n}\", {var}.{raw(n)}(c) == at{i})?;")
names = set()
NOP, NTY = 64, 26
for k in range(NOP):
    nm = R.choice(OPN)
    plain = nm.replace("r#", "")
    if plain in names: plain = nm = f"{plain}_{k}"
    names.add(plain)
    used = {"op_ref", "ctx", "location"}
    nop = R.choice([0, 1, 2, 3, 4, 6])
    rest = R.random() < .4
    opn = []
    for i in range(nop):
        x = R.choice(KW) if R.random() < .12 else R.choice(["x%d", "in_%d", "lhs%d"]) % i
        if x in used: x = "x%d" % i
        used.add(x); opn.append(x)
    rk = R.choice(["none", "one", "multi", "var"])
    res = []
    if rk == "one": res = [R.choice(["result", "res", "out_value"])]
    if rk == "multi": res = [f"r{i}" for i in range(R.choice([2, 3, 5, 7]))]
    if rk == "var": res = ["outs"]
    at = attrs(R.choice([0, 0, 1, 2, 4, 9]), used)
    rs = [R.choice("RS") for _ in range(R.choice([0, 0, 0, 1, 2, 3, 6]))]
    lines = []
    al = attr_line(at)
    if al: lines.append(al)
    if rk == "var": lines.append("#[rest_results]")
    R.shuffle(lines)
    ps = [f"{raw(x)}: ()" for x in opn] + (["#[rest] tail: ()"] if rest else [])
    ret = {"none": "", "one": f" -> {res[0] if res else ''}", "multi": " -> (" + ", ".join(res) + ")", "var": " -> outs"}[rk]
    body = " ".join(f"#[{'region' if x == 'R' else 'successor'}({'g' if x == 'R' else 's'}{i})] {{}}" for i, x in enumerate(rs))
    ops.append("        " + " ".join(lines) + (" " if lines else "") + f"fn {nm}({', '.join(ps)}){ret} {{ {body} }}")
    S = camel(plain)
    o = [f"fn op_{k}(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {{"]
    for i in range(nop): o.append(f"let o{i} = e.v(t);")
    if rest: o.append("let tail = e.vs(t);")
    if rk == "var": o.append("let outs = e.tys(t);")
    elif res:
        for i in range(len(res)): o.append(f"let t{i} = e.ty(t);")
    for i, (n, opt, kd) in enumerate(at): o.append(f"let at{i} = {value(n, opt, kd)};")
    for i, x in enumerate(rs): o.append(f"let g{i} = b::region(&mut e.c, &[]);" if x == "R" else f"let g{i} = b::block(&mut e.c, &[]);")
    args = ["&mut e.c", "e.loc"] + [f"o{i}" for i in range(nop)] + (["tail.clone()"] if rest else [])
    args += ["outs.clone()"] if rk == "var" else [f"t{i}" for i in range(len(res))]
    args += [f"at{i}.clone()" for i in range(len(at))] + [f"g{i}" for i in range(len(rs))]
    o.append(f"let w = vpg::{nm}({', '.join(args)});")
    o.append("let c = &e.c; let op = w.op_ref();")
    o.append("let mut all: Vec<ValueRef> = vec![" + ", ".join(f"o{i}" for i in range(nop)) + "];")
    if rest: o.append("all.extend(&tail);")
    o.append("let rt: Vec<TypeRef> = " + ("outs.clone()" if rk == "var" else "vec![" + ", ".join(f"t{i}" for i in range(len(res))) + "]") + ";")
    check_attrs(at, o, "w")
    o.append("let rg: Vec<RegionRef> = vec![" + ", ".join(f"g{i}" for i, x in enumerate(rs) if x == "R") + "];")
    o.append("let sc: Vec<BlockRef> = vec![" + ", ".join(f"g{i}" for i, x in enumerate(rs) if x == "S") + "];")
    o.append(f'shape(c, op, "{plain}", &all, &rt, &want, &rg, &sc)?;')
    for i, x in enumerate(opn): o.append(f'ck("{x}", w.{raw(x)}(c) == o{i})?;')
    if rest: o.append('ck("tail", w.tail(c) == tail)?;')
    if rk == "var": o.append('ck("outs", w.outs(c) == c.op_results(op))?;')
    else:
        for i, x in enumerate(res): o.append(f'ck("{x}", w.{x}(c) == c.op_result(op, {i}) && w.{x}_ty(c) == t{i})?;')
    for i, x in enumerate(rs): o.append(f'ck("{"g" if x == "R" else "s"}{i}", w.{"g" if x == "R" else "s"}{i}(c) == g{i})?;')
    o.append(f'ck("from_op", vpg::{S}::from_op(c, op).ok() == Some(w) && vpg::{S}::matches(c, op) && DialectOp::op_ref(&w) == op)?;')
    o.append(f'ck("names", <vpg::{S} as DialectOp>::DIALECT_NAME == "vpg" && <vpg::{S} as DialectOp>::OP_NAME == "{plain}")?;')
    o.append("Ok(Some(op)) }")
    code.append("\n    ".join(o)); 
    ops[-1] = (ops[-1], S)
tnames = set()
for k in range(NTY):
    nm = R.choice(["Cell", "TwoWords", "Tt", "LongTypeName", "Ref", "Box"])
    if nm in tnames: nm = f"{nm}V{k}x"
    tnames.add(nm)
    snake = re.sub(r"(?<!^)(?=[A-Z])", "_", nm).lower()
    np, rest = R.choice([0, 1, 2, 3, 5]), R.random() < .4
    used = {"as_type_ref", "ctx"}
    ps = [["First", "In", "KeyType", "P%d", "Q%d"][R.randrange(5)].replace("%d", str(i)) for i in range(np)]
    ps = [p if p not in ps[:i] else f"P{i}" for i, p in enumerate(ps)]
    at = attrs(R.choice([0, 0, 1, 3, 6]), used)
    gl = ", ".join(ps + (["#[rest] Tail"] if rest else []))
    tys.append(("        " + attr_line(at) + f" struct {nm}" + (f"<{gl}>" if gl else "") + ";", nm))
    o = [f"fn ty_{k}(t: &mut Tape, e: &mut Env) -> Result<Option<OpRef>, String> {{"]
    for i in range(np): o.append(f"let t{i} = e.ty(t);")
    if rest: o.append("let tail = e.tys(t);")
    for i, (n, opt, kd) in enumerate(at): o.append(f"let at{i} = {value(n, opt, kd)};")
    args = ["&mut e.c"] + [f"t{i}" for i in range(np)] + (["tail.clone()"] if rest else []) + [f"at{i}.clone()" for i in range(len(at))]
    fn = "r#ref" if snake == "ref" else "r#box" if snake == "box" else snake
    o.append(f"let w = vpg::{fn}({', '.join(args)});")
    o.append(f"let again = vpg::{fn}({', '.join(args)});")
    o.append("let c = &e.c; let ty = w.as_type_ref();")
    o.append("let mut all: Vec<TypeRef> = vec![" + ", ".join(f"t{i}" for i in range(np)) + "];")
    if rest: o.append("all.extend(&tail);")
    check_attrs(at, o, "w")
    o.append(f'tshape(c, ty, "{snake}", &all, &want)?;')
    for i, p in enumerate(ps):
        s = re.sub(r"(?<!^)(?=[A-Z])", "_", p).lower()
        o.append(f'ck("{p}", w.{raw(s)}(c) == t{i})?;')
    if rest: o.append('ck("tail", w.tail(c) == tail)?;')
    o.append(f'ck("from_type_ref", vpg::{nm}::from_type_ref(c, ty) == Some(w) && again == w && TypeRef::from(w) == ty)?;')
    o.append("let ts = e.ts.clone(); for x in ts { ck(\"refuses\", vpg::%s::from_type_ref(&e.c, x).is_none())?; }" % nm)
    o.append("Ok(None) }")
    code.append("\n    ".join(o))
out = ["// Generated by tools/gen_dialect.py; do not edit.", "use super::gen_support::*;", "use engine::Tape;", "use irkit::b;", "use trunk_ir::ops::{DialectOp, DialectType};", "use trunk_ir::refs::*;", "use trunk_ir::types::*;",
       "mod inner {", "    #[trunk_ir::dialect]", "    mod vpg {"]
mix = [x[0] for x in ops] + [x[0] for x in tys]
R.shuffle(mix)
out += mix
out += ["    }", "}", "use inner as vpg;"]
out += code
out.append("pub const DRIVERS: &[(&str, fn(&mut Tape, &mut Env) -> Result<Option<OpRef>, String>)] = &[" + ", ".join(f'("{d.strip()[:160]}", op_{i})'.replace('"#', '"') if False else f'({repr(d.strip())[1:-1].join(chr(34)*2) if False else chr(114)+"##"+chr(34)+d.strip()+chr(34)+"##"}, op_{i})' for i, (d, _) in enumerate(ops)) + ", " + ", ".join(f'r##"{d.strip()}"##, '.join(["(", f"ty_{i})"]) for i, (d, _) in enumerate(tys)) + "];")
out.append("/// how many of the wrappers accept the operation")
out.append("pub fn accepted(c: &trunk_ir::context::IrContext, op: OpRef) -> usize { [" + ", ".join(f"vpg::{s}::from_op(c, op).is_ok()" for _, s in ops) + "].iter().filter(|x| **x).count() }")
out.append("pub fn accepted_type(c: &trunk_ir::context::IrContext, ty: TypeRef) -> usize { [" + ", ".join(f"vpg::{s}::from_type_ref(c, ty).is_some()" for _, s in tys) + "].iter().filter(|x| **x).count() }")
open("/verif/harness/vp-macros/src/generated.rs", "w").write("\n".join(out) + "\n")
