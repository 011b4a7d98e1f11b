//! C34: control modules, direct-style and converted, survive printing and parsing.
use crate::ast::*;
use crate::mkir;
use engine::*;
use irkit::b::{self, sym};
use irkit::pretty;
use tribute_passes::tribute_control_to_cps::{tribute_control_to_cps, verify_tribute_control_pre_cps};
use trunk_ir::context::IrContext;
use trunk_ir::parser::parse_module;
use trunk_ir::printer::print_module;
use trunk_ir::refs::*;
use trunk_ir::types::Attribute;

pub fn walk(ctx: &IrContext, op: OpRef, f: &mut impl FnMut(OpRef)) {
    f(op);
    for r in ctx.op(op).regions.to_vec() {
        for blk in ctx.region(r).blocks.to_vec() {
            for o in ctx.block(blk).ops.to_vec() {
                walk(ctx, o, f);
            }
        }
    }
}
fn weird(t: &mut Tape, i: usize) -> String {
    match t.idx(8) {
        0 => format!("Mod::f{i}"),
        1 => format!("f {i}"),
        2 => format!("\"q\\{i}"),
        3 => format!("é√{i}"),
        4 => format!("{i}x"),
        5 => format!("f{i}\n"),
        6 => format!("convention{i}"),
        _ => format!("f{i}"),
    }
}
fn attr(t: &mut Tape, ctx: &mut IrContext) -> Attribute {
    match t.idx(7) {
        0 => Attribute::Int(t.int_edge() as i128),
        1 => Attribute::Bool(t.bool()),
        2 => Attribute::String(t.pick(&["", "a b", "\"", "\\n", "{x}", "\n", "convention(cps)", "]"]).to_string()),
        3 => Attribute::Symbol(sym(t.pick(&["x", "a::b", "a b", "{", "captures"]))),
        4 => {
            let i = b::core(ctx, "i32");
            Attribute::Type(tribute_ir::dialect::tribute_control::callable(ctx, i, [i], mkir::conv(t.idx(3) as u8)).as_type_ref())
        }
        5 => Attribute::List(vec![Attribute::Unit, Attribute::Int(3)]),
        _ => Attribute::Unit,
    }
}
/// Prints, parses and compares; returns the re-parsed module.
fn round(ctx: &IrContext, m: OpRef, what: &str) -> Result<(IrContext, OpRef, String), Failure> {
    let text = print_module(ctx, m);
    let mut c2 = IrContext::new();
    let m2 = match parse_module(&mut c2, &text) {
        Ok(m) => m,
        Err(e) => return Err(Failure { msg: format!("{what} module does not parse back: {e}"), render: format!("{text}\n--- near {:?}", text.get(e.offset..).map(|s| s.chars().take(60).collect::<String>())) }),
    };
    let (want, got) = (pretty::canon(ctx, m, false, false), pretty::canon(&c2, m2, false, false));
    if want != got {
        return Err(Failure { msg: format!("{what} module changes when printed and parsed: {}", pretty::first_diff(&want, &got)), render: text });
    }
    let text2 = print_module(&c2, m2);
    if !text.lines().any(|l| l.trim_start().starts_with('!')) && text2 != text {
        return Err(Failure { msg: format!("{what} module prints differently after parsing: {}", pretty::first_diff(&text, &text2)), render: text });
    }
    Ok((c2, m2, text))
}
pub fn control_text(t: &mut Tape) -> CaseResult {
    let mut p = gen_prog(t, true);
    if t.chance(1, 2) {
        let n = p.funcs.len();
        for i in 3..n {
            p.funcs[i].name = weird(t, i);
        }
    }
    let mut ctx = IrContext::new();
    let root = mkir::build(&mut ctx, &p, "m");
    let mut hosts = vec![];
    walk(&ctx, root, &mut |o| {
        let d = ctx.op(o);
        if d.dialect == sym("tribute_control") && (d.name == sym("func") || d.name == sym("lambda")) {
            hosts.push(o);
        }
    });
    for o in hosts {
        // metadata that conversion and validation do not look at
        if ctx.op(o).name == sym("func") && t.chance(1, 3) {
            let a = attr(t, &mut ctx);
            ctx.op_mut(o).attributes.insert(sym(t.pick(&["note2", "a.b", "convention", "captures", "attributes", "unit"])), a);
        }
    }
    if t.chance(1, 3) {
        let ft = mkir::fn_ty(&mut ctx, &p.funcs[t.idx(p.funcs.len())].ty.clone());
        ctx.register_type_alias(sym(t.pick(&["Cb", "c b", "t0"])), ft);
    }
    let (mut c2, m2, text) = round(&ctx, root, "a direct-style")?;
    let d2 = mkir::decls(&mut c2, &p);
    let mm2 = mkir::module(&c2, m2);
    if let Err(e) = verify_tribute_control_pre_cps(&c2, mm2, &d2) {
        return fail(format!("the parsed module is not accepted: {e}"), text);
    }
    let decls = mkir::decls(&mut ctx, &p);
    let mm = mkir::module(&ctx, root);
    let a = tribute_control_to_cps(&mut ctx, mm, &decls);
    let b = tribute_control_to_cps(&mut c2, mm2, &d2);
    if a.is_err() || b.is_err() {
        return fail("conversion refuses a well-formed module", text);
    }
    let (x, y) = (pretty::canon(&ctx, root, false, false), pretty::canon(&c2, m2, false, false));
    if x != y {
        return fail(format!("the parsed module converts differently: {}", pretty::first_diff(&x, &y)), text);
    }
    round(&ctx, root, "a converted")?;
    Ok(Case { nontrivial: text.contains("lambda"), key: hash_str(&text), render: text, tags: vec![] })
}
const TOKENS: [&str; 24] = [
    "convention(cps)", "convention(direct)", "convention(", "captures []", "captures [%0]", "captures [%1, %0]", "tribute_control.return %0\n", "tribute_control.yield %0\n", "tribute_control.resume %0, %1 : core.i32\n",
    "core.i32", "core.i1", "core.never", "@fn", "@op", "{", "}", "^bb1:\n", "%0", "-> core.i32", "tribute_control.resume_token(core.i32, core.i32)", "tribute_control.handler", "scf.yield\n", "attributes {tribute.calling_convention = 1}", "scf.switch %0 {\n}\n",
];
/// Whatever the parser accepts, validation and conversion answer, and a refusal changes nothing.
pub fn mutated(t: &mut Tape) -> CaseResult {
    let p = gen_prog(t, true);
    let mut ctx = IrContext::new();
    let root = mkir::build(&mut ctx, &p, "m");
    let mut by = print_module(&ctx, root).into_bytes();
    let k = 1 + t.idx(4);
    for _ in 0..k {
        if by.is_empty() {
            break;
        }
        let i = t.idx(by.len());
        let line = |i: usize, by: &[u8]| {
            let st = by[..i].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
            let en = by[i..].iter().position(|c| *c == b'\n').map_or(by.len(), |x| x + i + 1);
            (st, en)
        };
        match t.idx(8) {
            0 => {
                let (s, e) = line(i, &by);
                by.drain(s..e);
            }
            1 | 2 => {
                let (s, e) = line(i, &by);
                let c = by[s..e].to_vec();
                let j = t.idx(by.len());
                let (j, _) = line(j, &by);
                by.splice(j..j, c);
            }
            3 | 4 => {
                if let Some(p) = by[i..].iter().position(|c| *c == b'%') {
                    let p = p + i + 1;
                    if p < by.len() {
                        by[p] = b'0' + t.idx(10) as u8;
                    }
                }
            }
            5 => {
                let tok = t.pick(&TOKENS).as_bytes().to_vec();
                by.splice(i..i, tok);
            }
            6 => {
                // one word for another
                let words: Vec<(usize, usize)> = { let s = String::from_utf8_lossy(&by); s.match_indices(|c: char| c.is_alphabetic()).map(|x| x.0).filter(|x| *x == 0 || !by[*x - 1].is_ascii_alphanumeric()).map(|x| (x, by[x..].iter().position(|c| !(c.is_ascii_alphanumeric() || *c == b'_' || *c == b'.')).map_or(by.len(), |k| x + k))).filter(|x| x.1 > x.0).collect() };
                if words.len() > 1 {
                    let (a, b) = (words[t.idx(words.len())], words[t.idx(words.len())]);
                    let w = by[b.0..b.1].to_vec();
                    by.splice(a.0..a.1, w);
                }
            }
            _ => {
                let e = (i + 1 + t.idx(8)).min(by.len());
                by.drain(i..e);
            }
        }
    }
    let src = String::from_utf8_lossy(&by).into_owned();
    note(&src);
    let mut c2 = IrContext::new();
    let Ok(m) = parse_module(&mut c2, &src) else {
        return Ok(Case { nontrivial: false, key: hash_str(&src), render: String::new(), tags: vec!["not parsed".into()] });
    };
    let Some(mm) = trunk_ir::rewrite::Module::new(&c2, m) else {
        return Ok(Case { nontrivial: false, key: hash_str(&src), render: String::new(), tags: vec!["not a module".into()] });
    };
    // a module operation has one region by definition; the parser does not enforce it
    let mut odd = false;
    walk(&c2, m, &mut |o| {
        let d = c2.op(o);
        odd |= d.dialect == sym("core") && d.name == sym("module") && d.regions.len() != 1;
    });
    if odd {
        return Ok(Case { nontrivial: false, key: hash_str(&src), render: String::new(), tags: vec!["module regions".into()] });
    }
    let decls = mkir::decls(&mut c2, &p);
    let before = pretty::canon(&c2, m, true, true);
    let aliases = c2.type_aliases().to_vec();
    let pre = verify_tribute_control_pre_cps(&c2, mm, &decls).is_ok();
    let r = guard(|| tribute_control_to_cps(&mut c2, mm, &decls)).map_err(|e| Failure { msg: format!("conversion panics: {e}"), render: src.clone() })?;
    match r {
        Err(_) => {
            let after = pretty::canon(&c2, m, true, true);
            if after != before {
                return fail(format!("a refused module was changed: {}", pretty::first_diff(&before, &after)), src);
            }
            if c2.type_aliases() != &aliases[..] {
                return fail("refusing a module changed the type aliases", src);
            }
        }
        Ok(()) => {
            if !pre {
                return fail("a module that fails the boundary check is converted", src);
            }
            // operations and value types only: a mutation may have planted the word as a mere name
            let mut left = None;
            walk(&c2, m, &mut |o| {
                let d = c2.op(o);
                let mut tys = c2.op_result_types(o).to_vec();
                for r in &d.regions {
                    for blk in &c2.region(*r).blocks {
                        tys.extend(c2.block(*blk).args.iter().map(|a| a.ty));
                    }
                }
                if d.dialect == sym("tribute_control") || tys.iter().any(|t| c2.types.get(*t).dialect == sym("tribute_control")) {
                    left = Some(format!("{}.{}", d.dialect, d.name));
                }
            });
            if let Some(l) = left {
                return fail(format!("the converted module still has a tribute_control operation or value type: {l}"), src);
            }
        }
    }
    let ok = pre;
    Ok(Case { nontrivial: true, key: hash_str(&src), render: src, tags: vec![if ok { "accepted" } else { "refused" }.into()] })
}
