//! IR text format: round trip and parser robustness.
use crate::passes::{nest_some, opname, walk};
use engine::*;
use irkit::b::{self, O};
use irkit::gen_ir::*;
use irkit::{pretty, wf};
use trunk_ir::context::*;
use trunk_ir::parser::parse_module;
use trunk_ir::printer::{print_module, print_op, print_type};
use trunk_ir::refs::*;
use trunk_ir::rewrite::Module;
use trunk_ir::types::*;

const CHARS: [char; 30] = [
    'a', 'Z', '0', '_', ' ', '"', '\\', '\n', '\t', '\r', '\0', '\x01', '\x1f', '\x7f', '\u{80}', '\u{9f}', '\u{a0}', 'é', '한', '🦀', '\u{2028}', '\u{feff}', '{', '}', '@', '%', '^', 'x', 'n', '/',
];
pub fn string(t: &mut Tape) -> String {
    if t.chance(1, 12) {
        // backslash-heavy: things that look like escapes
        return (*t.pick(&["\\n", "\\x41", "\\\\", "\\\"", "\\", "\"", "\\x", "\\0", "a\\", "\\q"])).to_string();
    }
    if t.chance(1, 60) {
        // long text: lengths around powers of two
        let n = (*t.pick(&[15usize, 16, 17, 63, 64, 127, 128, 255, 256, 257, 300])).saturating_sub(t.upto(2) as usize);
        let (a, b) = (*t.pick(&CHARS), *t.pick(&CHARS));
        return (0..n).map(|i| if i % 7 == 3 { b } else { a }).collect();
    }
    let n = t.upto(7) as usize;
    (0..n).map(|_| *t.pick(&CHARS)).collect()
}
fn ident(t: &mut Tape) -> String {
    let first = *t.pick(&['a', 'q', '_', 'Z', 'k']);
    let mut s = first.to_string();
    for _ in 0..t.upto(4) {
        s.push(*t.pick(&['a', 'B', '0', '9', '_', 'z', 'x']));
    }
    s
}
fn key(t: &mut Tape) -> String {
    match t.weighted(&[4, 2, 2]) {
        0 => ident(t),
        1 => (*t.pick(&["value", "type", "name", "true_", "unit", "loc", "b", "sym_name", "effect", "attributes", "func", "e1"])).to_string(),
        _ => format!("{}.{}", ident(t), ident(t)),
    }
}
fn symname(t: &mut Tape) -> String {
    match t.weighted(&[3, 2, 3]) {
        0 => ident(t),
        1 => format!("{}::{}", ident(t), ident(t)),
        _ => {
            let s = string(t);
            if t.chance(1, 6) { format!("{}9", t.below(50)) } else { s }
        }
    }
}
pub fn finite(t: &mut Tape) -> u64 {
    for _ in 0..20 {
        let b = match t.weighted(&[3, 2, 2]) {
            0 => (t.range(-1_000_000, 1_000_000) as f64 / 64.0).to_bits(),
            1 => *t.pick(&[0u64, 1 << 63, 1, 0x7fefffffffffffff, 0x0010000000000000, 0xffefffffffffffff, 0x3ff0000000000000, 0x3f800000, 0x7f800000, 0x7fc00000, 0x4340000000000001]),
            _ => t.u64(),
        };
        if f64::from_bits(b).is_finite() {
            return b;
        }
    }
    0
}
pub fn attr(t: &mut Tape, ctx: &mut IrContext, depth: usize) -> Attribute {
    match t.weighted(&[1, 2, 4, 3, 4, 3, 4, 3, if depth > 0 { 3 } else { 0 }, 2]) {
        0 => Attribute::Unit,
        1 => Attribute::Bool(t.bool()),
        2 => Attribute::Int(match t.weighted(&[4, 2, 1]) {
            0 => t.int_edge() as i128,
            1 => t.range(-100, 100) as i128,
            _ => *t.pick(&[i128::MIN, i128::MAX, i128::MIN + 1, u64::MAX as i128, -(u64::MAX as i128), 1 << 100]),
        }),
        3 => Attribute::FloatBits(finite(t)),
        4 => Attribute::String(string(t)),
        5 if t.chance(1, 30) => Attribute::Bytes((0..*t.pick(&[15u64, 16, 17, 127, 128, 255, 256, 300])).map(|i| (i * 7) as u8).collect()),
        5 => Attribute::Bytes((0..t.upto(20)).map(|_| if t.bool() { t.below(256) as u8 } else { *t.pick(b"\\\"\n\0\rx4nA\x7f\xff\x80") }).collect()),
        6 => Attribute::Symbol(b::sym(&symname(t))),
        7 => Attribute::Type(ty(t, ctx, depth.min(2))),
        8 => Attribute::List((0..t.upto(4)).map(|_| attr(t, ctx, depth - 1)).collect()),
        _ => {
            let p = string(t);
            let path = ctx.paths.intern(p);
            let a = t.below(10_000) as usize;
            let l = t.below(1000) as usize;
            Attribute::Location(Location::new(path, trunk_ir::location::Span::new(a, a + l)))
        }
    }
}
pub fn ty(t: &mut Tape, ctx: &mut IrContext, depth: usize) -> TypeRef {
    if depth == 0 || t.chance(1, 3) {
        return match t.weighted(&[3, 1, 1]) {
            0 => {
                let n = *t.pick(&["i32", "i64", "f64", "nil", "i1", "ptr"]);
                b::core(ctx, n)
            }
            1 => b::ty0(ctx, "q0", "abc"),
            _ => {
                let n = ident(t);
                b::ty0(ctx, "adt", &n)
            }
        };
    }
    let (d, n) = match t.weighted(&[3, 3, 2]) {
        0 => ("core", "func"),
        1 => ("adt", *t.pick(&["struct", "enum", "typeref"])),
        _ => ("q1", "box_"),
    };
    let mut bd = TypeDataBuilder::new(b::sym(d), b::sym(n));
    let np = t.upto(4);
    for _ in 0..np {
        let p = ty(t, ctx, depth - 1);
        bd = bd.param(p);
    }
    let na = if d == "adt" { 1 + t.upto(3) } else { t.upto(3) };
    for i in 0..na {
        let k = if d == "adt" && i == 0 { "name".to_string() } else { key(t) };
        let v = if k == "name" && d == "adt" { Attribute::Symbol(b::sym(&alias_safe(t))) } else { attr(t, ctx, depth - 1) };
        bd = bd.attr(b::sym(&k), v);
    }
    ctx.types.intern(bd.build())
}
/// ADT names double as printed alias names.
fn alias_safe(t: &mut Tape) -> String {
    match t.weighted(&[3, 1, 1]) {
        0 => (*t.pick(&["Point", "List", "Opt", "t0", "t1", "Point_1", "A"])).to_string(),
        1 => ident(t),
        _ => (*t.pick(&["a::b", "List(Int)", "한글", "x y", "a-b", "", "1a", "9", "a\"b", "\"", "a\\", "\\\"", "a = b", "\" = "])).to_string(),
    }
}

struct Soup<'a> {
    t: &'a mut Tape,
    ctx: &'a mut IrContext,
    scope: Vec<ValueRef>,
    tys: Vec<TypeRef>,
    budget: usize,
}
impl Soup<'_> {
    fn ty(&mut self) -> TypeRef {
        if !self.tys.is_empty() && self.t.chance(3, 5) {
            return *self.t.pick(&self.tys.clone());
        }
        let x = ty(self.t, self.ctx, 3);
        self.tys.push(x);
        x
    }
    fn attrs(&mut self, max: usize) -> Vec<(String, Attribute)> {
        let n = self.t.upto(max);
        let mut v: Vec<(String, Attribute)> = vec![];
        for _ in 0..n {
            let k = key(self.t);
            if v.iter().all(|(x, _)| *x != k) {
                let a = attr(self.t, self.ctx, 2);
                v.push((k, a));
            }
        }
        v
    }
    fn op(&mut self, depth: usize, blocks: &[BlockRef]) -> OpRef {
        self.op_n(depth, blocks, 3)
    }
    fn op_n(&mut self, depth: usize, blocks: &[BlockRef], max_res: usize) -> OpRef {
        let name = match self.t.weighted(&[4, 2, 2]) {
            0 => format!("q2.{}", ident(self.t)),
            1 => (*self.t.pick(&["arith.addi", "func.return", "scf.if", "cf.br", "adt.struct_new", "func.call"])).to_string(),
            _ => (*self.t.pick(&["test.op", "unit.x", "truex.y", "loc.at", "b.q"])).to_string(),
        };
        let mut ops = vec![];
        if !self.scope.is_empty() {
            for _ in 0..self.t.upto(3) {
                ops.push(*self.t.pick(&self.scope.clone()));
            }
        }
        let mut res = vec![];
        for _ in 0..self.t.upto(max_res) {
            res.push(self.ty());
        }
        let attrs = self.attrs(3);
        let mut succs = vec![];
        if !blocks.is_empty() && self.t.chance(1, 4) {
            for _ in 0..1 + self.t.upto(2) {
                succs.push(*self.t.pick(blocks));
            }
        }
        let mut regions = vec![];
        if depth > 0 && self.budget > 0 && self.t.chance(1, 4) {
            for _ in 0..1 + self.t.upto(1) {
                let r = self.region(depth - 1, None);
                regions.push(r);
            }
        }
        let o = b::mk(self.ctx, &name, O { operands: ops, results: res, attrs, regions, succs });
        self.scope.extend(self.ctx.op_results(o).to_vec());
        o
    }
    fn region(&mut self, depth: usize, entry: Option<Vec<TypeRef>>) -> RegionRef {
        let save = self.scope.len();
        let n = 1 + if self.t.chance(1, 3) { 1 + self.t.upto(2) as usize } else { 0 };
        let mut blocks = vec![];
        for i in 0..n {
            let args = match (&entry, i) {
                (Some(e), 0) => e.clone(),
                _ => (0..self.t.upto(2)).map(|_| self.ty()).collect(),
            };
            let bl = b::block(self.ctx, &args);
            blocks.push(bl);
        }
        for &bl in &blocks {
            self.scope.extend(self.ctx.block_args(bl).to_vec());
            let min = if n == 1 { 1 } else { 0 };
            let k = min + self.t.upto(3) as usize;
            for _ in 0..k {
                self.budget = self.budget.saturating_sub(1);
                let o = self.op(depth, &blocks);
                self.ctx.push_op(bl, o);
            }
        }
        self.scope.truncate(save);
        b::region(self.ctx, &blocks)
    }
    fn func(&mut self, name: &str) -> OpRef {
        let np = self.t.upto(3) as usize;
        let params: Vec<TypeRef> = (0..np).map(|_| self.ty()).collect();
        let ret = self.ty();
        let body = if self.t.chance(1, 6) { None } else { Some(self.region(2, Some(params.clone()))) };
        let mut attrs = self.attrs(2);
        attrs.retain(|(k, _)| k != "type" && k != "sym_name");
        let al: Vec<(&str, Attribute)> = attrs.iter().map(|(k, a)| (k.as_str(), a.clone())).collect();
        b::func(self.ctx, name, ret, &params, body, &al)
    }
    fn module(&mut self, depth: usize, name: &str) -> OpRef {
        let mut ops = vec![];
        for _ in 0..1 + self.t.upto(3) {
            let o = match self.t.weighted(&[5, 2, if depth > 0 { 2 } else { 0 }]) {
                0 => {
                    let n = symname(self.t);
                    self.func(&n)
                }
                1 => {
                    let save = std::mem::take(&mut self.scope);
                    let o = self.op_n(2, &[], 0);
                    self.scope = save;
                    o
                }
                _ => {
                    let n = symname(self.t);
                    self.module(depth - 1, &n)
                }
            };
            self.scope.clear();
            ops.push(o);
        }
        b::module(self.ctx, name, &ops)
    }
}

fn round_trip(ctx: &IrContext, m: OpRef) -> Result<String, Failure> {
    let text = print_module(ctx, m);
    note(&text);
    let mut c2 = IrContext::new();
    let want = pretty::canon(ctx, m, false, false);
    let m2 = match parse_module(&mut c2, &text) {
        Ok(m) => m,
        Err(e) => return fail(format!("printed IR does not parse| {e}"), format!("{text}\n--- near: {:?}", text.get(e.offset..).map(|s| s.chars().take(60).collect::<String>()))),
    };
    let got = pretty::canon(&c2, m2, false, false);
    if want != got {
        return fail(format!("re-parsed IR differs| {}", pretty::first_diff(&want, &got)), text);
    }
    let text2 = print_module(&c2, m2);
    // Auto-generated aliases become registered aliases on re-parse and may be listed in another order.
    if text.lines().any(|l| l.trim_start().starts_with('!')) {
        let mut c3 = IrContext::new();
        match parse_module(&mut c3, &text2) {
            Ok(m3) if pretty::canon(&c3, m3, false, false) == want => {
                let text3 = print_module(&c3, m3);
                // the alias registry is one per context: nested modules may reuse a name
                if text.matches("core.module").count() == 1 && text3 != text2 {
                    return fail(format!("printing does not settle| {}", pretty::first_diff(&text2, &text3)), format!("{text}\n--- second\n{text2}\n--- third\n{text3}"));
                }
            }
            Ok(m3) => return fail(format!("second round trip differs| {}", pretty::first_diff(&want, &pretty::canon(&c3, m3, false, false))), format!("{text}\n--- second\n{text2}")),
            Err(e) => return fail(format!("second print does not parse| {e}"), format!("{text}\n--- second\n{text2}")),
        }
    } else if text2 != text {
        return fail(format!("printing the re-parsed IR gives a different text| {}", pretty::first_diff(&text, &text2)), text);
    }
    Ok(text)
}

fn rt_ir(t: &mut Tape) -> CaseResult {
    let cfg = Cfg { unrealized: true, adt: true, struct_set: true, layout_order: true, unreachable_blocks: true, extern_attrs: t.bool(), ..Cfg::base() };
    let mut g = gen_module(t, &cfg);
    let nested = t.chance(1, 3) && nest_some(t, &mut g);
    // non-finite float constants have no text form (known finding, separate lane)
    let mut all = vec![];
    walk(&g.ctx, g.module, &mut |o| all.push(o));
    for o in all {
        if let Some(Attribute::FloatBits(x)) = g.ctx.op(o).attributes.get("value").cloned()
            && !f64::from_bits(x).is_finite()
        {
            g.ctx.op_mut(o).attributes.insert(b::sym("value"), Attribute::FloatBits(finite(t)));
        }
    }
    let n_alias = t.upto(3);
    let mut c: Vec<TypeRef> = vec![];
    walk(&g.ctx, g.module, &mut |o| c.extend(g.ctx.op_result_types(o).iter().copied()));
    for i in 0..n_alias {
        if c.is_empty() {
            break;
        }
        let ty = *t.pick(&c);
        if g.ctx.type_aliases().iter().any(|x| x.1 == ty) {
            continue;
        }
        let name = if t.bool() { format!("t{i}") } else { format!("al ias{i}") };
        g.ctx.register_type_alias(b::sym(&name), ty);
    }
    let text = round_trip(&g.ctx, g.module)?;
    Ok(Case { nontrivial: text.len() > 400, key: hash_str(&text), render: text, tags: if nested { vec!["nested".into()] } else { vec![] } })
}

fn rt_soup(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let mut s = Soup { t, ctx: &mut ctx, scope: vec![], tys: vec![], budget: 25 };
    let m = s.module(1, "m");
    let text = round_trip(&ctx, m)?;
    // print_op / print_type of parts parse too
    let mut tys = vec![];
    walk(&ctx, m, &mut |o| tys.extend(ctx.op_result_types(o).iter().copied()));
    for x in tys.iter().take(4) {
        let src = format!("core.module @m {{\n %0 = t.t : {}\n}}\n", print_type(&ctx, *x));
        let mut c2 = IrContext::new();
        match parse_module(&mut c2, &src) {
            Err(e) => return fail(format!("printed type does not parse| {e}"), src),
            Ok(m2) => {
                let mut got = None;
                walk(&c2, m2, &mut |o| {
                    if opname(&c2, o) == "t.t" {
                        got = Some(pretty::type_str(&c2, c2.op_result_types(o)[0]));
                    }
                });
                if got.as_deref() != Some(pretty::type_str(&ctx, *x).as_str()) {
                    return fail("printed type re-parses differently|", src);
                }
            }
        }
    }
    let _ = print_op(&ctx, m);
    Ok(Case { nontrivial: text.len() > 200, key: hash_str(&text), render: text, tags: vec![] })
}

/// Type aliases: a pool of types built on each other, used often enough (or not) to get an alias,
/// next to registered aliases whose names clash with the generated ones; nested modules.
fn rt_alias(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let mut pool: Vec<TypeRef> = vec![b::core(&mut ctx, "i32"), b::core(&mut ctx, "nil")];
    for _ in 0..2 + t.upto(6) {
        let (d, n) = match t.weighted(&[3, 2, 2]) {
            0 => ("adt", *t.pick(&["struct", "enum", "typeref"])),
            1 => ("core", "func"),
            _ => ("q1", *t.pick(&["box_", "a_rather_long_type_name_of_forty_chars_x"])),
        };
        let mut bd = TypeDataBuilder::new(b::sym(d), b::sym(n));
        for _ in 0..(if n == "func" { 1 } else { 0 }) + t.upto(2) {
            bd = bd.param(*t.pick(&pool));
        }
        if d == "adt" {
            let nm = alias_safe(t);
            bd = bd.attr(b::sym("name"), Attribute::Symbol(b::sym(&nm)));
        }
        if t.chance(1, 3) {
            let x = Attribute::Type(*t.pick(&pool));
            let x = if t.bool() { Attribute::List(vec![Attribute::List(vec![Attribute::Symbol(b::sym("f")), x])]) } else { x };
            bd = bd.attr(b::sym("fields"), x);
        }
        if t.chance(1, 3) {
            bd = bd.attr(b::sym("pad"), Attribute::String("x".repeat(t.upto(44) as usize)));
        }
        let ty = ctx.types.intern(bd.build());
        if !pool.contains(&ty) {
            pool.push(ty);
        }
    }
    for _ in 0..t.upto(4) {
        let ty = *t.pick(&pool);
        if ctx.type_alias_by_type(ty).is_some() {
            continue;
        }
        let name = b::sym(&alias_safe(t));
        if ctx.type_alias_by_name(name).is_none() {
            ctx.register_type_alias(name, ty);
        }
    }
    fn module(t: &mut Tape, ctx: &mut IrContext, pool: &[TypeRef], depth: usize) -> OpRef {
        let mut ops = vec![];
        for _ in 0..1 + t.upto(6) {
            let o = match t.weighted(&[4, 2, 2, if depth > 0 { 1 } else { 0 }]) {
                0 => {
                    let results = (0..1 + t.upto(2)).map(|_| *t.pick(pool)).collect();
                    let bl = b::block(ctx, &[]);
                    let o = b::mk(ctx, "q.op", O { results, ..O::default() });
                    ctx.push_op(bl, o);
                    let r = b::region(ctx, &[bl]);
                    b::mk(ctx, "q.wrap", O { regions: vec![r], ..O::default() })
                }
                1 => {
                    let x = Attribute::Type(*t.pick(pool));
                    b::mk(ctx, "q.at", O { attrs: vec![("t".to_string(), x)], ..O::default() })
                }
                2 => {
                    let params: Vec<TypeRef> = (0..t.upto(3)).map(|_| *t.pick(pool)).collect();
                    let ret = *t.pick(pool);
                    let bl = b::block(ctx, &params);
                    let res = vec![*t.pick(pool)];
                    let o = b::mk(ctx, "q.in", O { results: res, ..O::default() });
                    ctx.push_op(bl, o);
                    let r = b::region(ctx, &[bl]);
                    b::func(ctx, "f", ret, &params, Some(r), &[])
                }
                _ => module(t, ctx, pool, depth - 1),
            };
            ops.push(o);
        }
        b::module(ctx, "m", &ops)
    }
    let m = module(t, &mut ctx, &pool, 2);
    let text = round_trip(&ctx, m)?;
    let n = text.lines().filter(|l| l.trim_start().starts_with('!')).count();
    Ok(Case { nontrivial: n > 0, key: hash_str(&text), render: text, tags: if n > 2 { vec!["several aliases".into()] } else { vec![] } })
}

/// Attributes only: one op holding one attribute, much deeper values.
fn rt_attr(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let a = attr(t, &mut ctx, 4);
    let k = key(t);
    let o = b::mk(&mut ctx, "q.op", O { attrs: vec![(k, a)], ..O::default() });
    let m = b::module(&mut ctx, "m", &[o]);
    let text = round_trip(&ctx, m)?;
    Ok(Case { nontrivial: text.len() > 40, key: hash_str(&text), render: text, tags: vec![] })
}

const TOKENS: [&str; 44] = [
    "{", "}", "(", ")", "[", "]", ",", ":", "=", "->", "%0", "%1", "%x", "^bb0", "^bb1", "@f", "@\"q\"", "!t0", "!\"a b\"", "core.i32", "core.func(core.i32, core.nil)", "adt.struct() {name = @A, fields = []}", "func.func", "core.module", "func.return", "arith.const", "{value = 1}",
    "true", "false", "unit", "loc(\"p\" 0:1)", "b\"\\xff\"", "\"s\\n\"", "1.5", "-3", "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "attributes {abi = \"C\"}", "scf.if", "cf.br", "!t = core.i32\n", "\\", "\"", "%0, %1 = q.r : core.i32, core.i32\n",
];
fn parser_fuzz(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let base = if t.chance(1, 3) {
        let cfg = Cfg { max_funcs: 2, max_stmts: 5, max_depth: 2, adt: true, ..Cfg::base() };
        let g = gen_module(t, &cfg);
        print_module(&g.ctx, g.module)
    } else {
        let mut s = Soup { t, ctx: &mut ctx, scope: vec![], tys: vec![], budget: 10 };
        let m = s.module(1, "m");
        print_module(&ctx, m)
    };
    let mut by: Vec<u8> = base.into_bytes();
    let k = 1 + t.upto(4);
    for _ in 0..k {
        if by.is_empty() {
            break;
        }
        let i = t.idx(by.len());
        match t.idx(8) {
            0 => {
                by.remove(i);
            }
            1 => by[i] = t.below(256) as u8,
            2 => {
                let tok = t.pick(&TOKENS).as_bytes().to_vec();
                by.splice(i..i, tok);
            }
            3 => {
                let e = (i + 1 + t.upto(20) as usize).min(by.len());
                by.drain(i..e);
            }
            4 => {
                let e = (i + 1 + t.upto(40) as usize).min(by.len());
                let c = by[i..e].to_vec();
                let j = t.idx(by.len());
                by.splice(j..j, c);
            }
            5 => by.truncate(i),
            6 => {
                // swap two digits / names: replace a %N with another
                if let Some(p) = by[i..].iter().position(|c| *c == b'%') {
                    let p = p + i + 1;
                    if p < by.len() {
                        by[p] = b'0' + t.below(10) as u8;
                    }
                }
            }
            _ => {
                // duplicate a whole line
                let st = by[..i].iter().rposition(|c| *c == b'\n').map_or(0, |x| x + 1);
                let en = by[i..].iter().position(|c| *c == b'\n').map_or(by.len(), |x| x + i + 1);
                let c = by[st..en].to_vec();
                by.splice(st..st, c);
            }
        }
    }
    let src = String::from_utf8_lossy(&by).into_owned();
    note(&src);
    let mut c2 = IrContext::new();
    match parse_module(&mut c2, &src) {
        Err(e) => {
            if e.offset > src.len() {
                return fail(format!("parse error offset {} is beyond the input ({} bytes)|", e.offset, src.len()), src);
            }
            Ok(Case { nontrivial: true, key: hash_str(&src), render: src, tags: vec!["rejected".into()] })
        }
        Ok(m) => {
            if let Err(e) = wf::check(&c2, m, &wf::Opts { dominance: false, uses: true, branches: false }) {
                return fail(format!("parser accepted the text but built inconsistent IR| {e}"), src);
            }
            if opname(&c2, m) == "core.module"
                && let Ok(module) = Module::new(&c2, m).ok_or(())
            {
                // validation must be total on anything the parser accepts
                let v = trunk_ir::validation::validate_all(&c2, module);
                let named = |o: OpRef| c2.op(o).attributes.get("sym_name").is_some();
                let mut printable = v.is_ok();
                // modules and functions of the shape their text form has: named, one body, functions directly in a module
                walk(&c2, m, &mut |o| {
                    let d = c2.op(o);
                    let home = d.parent_block.map(|b| c2.block(b).parent_region).and_then(|r| r.and_then(|r| c2.region(r).parent_op));
                    let top = home.is_some_and(|h| opname(&c2, h) == "core.module");
                    // functions number their values afresh
                    printable &= !top || c2.op_results(o).is_empty();
                    let blocks = |k: usize| c2.region(d.regions[k]).blocks.len();
                    if ["core.module", "func.func"].contains(&opname(&c2, o).as_str()) {
                        printable &= c2.op_results(o).is_empty() && c2.op_operands(o).is_empty() && d.successors.is_empty();
                    }
                    match opname(&c2, o).as_str() {
                        "core.module" => printable &= named(o) && d.regions.len() == 1 && blocks(0) == 1,
                        "func.func" => {
                            printable &= named(o) && d.regions.len() <= 1 && (d.regions.is_empty() || blocks(0) > 0) && top;
                            // the parameters of the type are those of the entry block
                            if printable && let (Some(Attribute::Type(ft)), Some(r)) = (d.attributes.get(&b::sym("type")), d.regions.first()) {
                                let args = c2.block_args(c2.region(*r).blocks[0]);
                                let ps = &c2.types.get(*ft).params;
                                printable &= ps.len() == args.len() + 1 && args.iter().zip(&ps[1..]).all(|(a, p)| c2.value_ty(*a) == *p);
                            }
                        }
                        _ => {}
                    }
                });
                if printable {
                    // what was accepted has a text form again
                    let text = print_module(&c2, m);
                    let mut c3 = IrContext::new();
                    // a huge literal reads as infinity, which has no text form (known finding of C01)
                    let infinite = text.split(|c: char| !c.is_alphanumeric()).any(|w| w == "inf" || w == "NaN");
                    // a use laid out before its definition has no text form either
                    let back = if infinite || text.contains("%?") { Ok(None) } else { parse_module(&mut c3, &text).map(Some) };
                    match back {
                        Ok(None) => {}
                        Err(e) => return fail(format!("an accepted module prints as text that is rejected| {e}"), format!("{src}\n--- printed\n{text}\n--- near {:?}", text.get(e.offset..).map(|s| s.chars().take(60).collect::<String>()))),
                        Ok(Some(m3)) => {
                            // metadata attached to a module is not part of its text
                            let mut mods = vec![];
                            walk(&c2, m, &mut |o| if opname(&c2, o) == "core.module" { mods.push(o) });
                            for o in mods {
                                let name = c2.op(o).attributes.get(&b::sym("sym_name")).cloned();
                                let at = &mut c2.op_mut(o).attributes;
                                *at = Default::default();
                                if let Some(n) = name {
                                    at.insert(b::sym("sym_name"), n);
                                }
                            }
                            let (a, b) = (pretty::canon(&c2, m, false, false), pretty::canon(&c3, m3, false, false));
                            if a != b {
                                return fail(format!("an accepted module prints as the text of another module| {}", pretty::first_diff(&a, &b)), format!("{src}\n--- printed\n{text}"));
                            }
                        }
                    }

                }
            }
            Ok(Case { nontrivial: true, key: hash_str(&src), render: src, tags: vec!["accepted".into()] })
        }
    }
}

fn nonfinite(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let f = b::core(&mut ctx, "f64");
    let bits = *t.pick(&[f64::INFINITY.to_bits(), f64::NEG_INFINITY.to_bits(), f64::NAN.to_bits()]);
    let o = b::mk(&mut ctx, "arith.const", O { results: vec![f], attrs: vec![("value".to_string(), Attribute::FloatBits(bits))], ..O::default() });
    let m = b::module(&mut ctx, "m", &[o]);
    let text = round_trip(&ctx, m).map_err(|mut f| {
        f.msg = format!("non-finite float constant has no text form| {}", f.msg.replace('|', ":"));
        f
    })?;
    Ok(Case { nontrivial: true, key: bits, render: text, tags: vec![] })
}

pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C01",
            lanes: vec![
                Lane { name: "rt-ir", rule: "random well-formed module (functions, scf/cf, ADTs, nested modules, type aliases) whose text exceeds 400 bytes", quick: 8000, thorough: 250000, threads: 0, run: rt_ir },
                Lane { name: "rt-soup", rule: "random op soup (unknown ops, all attribute kinds, nested regions, successors, aliases) whose text exceeds 200 bytes", quick: 12000, thorough: 400000, threads: 0, run: rt_soup },
                Lane { name: "rt-alias", rule: "types built on each other with generated and registered aliases, nested modules; at least one alias printed", quick: 30000, thorough: 300000, threads: 0, run: rt_alias },
                Lane { name: "rt-attr", rule: "one random attribute value of depth up to four, text exceeds 40 bytes", quick: 20000, thorough: 500000, threads: 0, run: rt_attr },
                Lane { name: "rt-nonfinite", rule: "an infinite or NaN float constant", quick: 24, thorough: 100, threads: 1, run: nonfinite },
            ],
            assumptions: vec!["dialect, op, type and attribute-key names are identifiers (keys may be dotted); regions are non-empty"],
            sweeps: vec![],
        },
        Property { id: "C02", lanes: vec![Lane { name: "parser-fuzz", rule: "printed module mutated 1-5 times (bytes, tokens, lines); every distinct text counts", quick: 25000, thorough: 800000, threads: 0, run: parser_fuzz }], assumptions: vec![], sweeps: vec![] },
    ]
}
