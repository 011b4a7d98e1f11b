//! Canonical, context-independent serialisation of IR (independent of the repo printer).
//! Two op trees are isomorphic iff their canonical forms are equal.
use std::collections::HashMap;
use std::fmt::Write;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::types::*;

pub fn type_str(ctx: &IrContext, t: TypeRef) -> String {
    let d = ctx.types.get(t);
    let mut s = format!("{}.{}", d.dialect, d.name);
    if !d.params.is_empty() {
        s.push('<');
        for p in &d.params {
            s.push_str(&type_str(ctx, *p));
            s.push(',');
        }
        s.push('>');
    }
    if !d.attrs.is_empty() {
        s.push_str(&attrs_str(ctx, &d.attrs, true));
    }
    s
}
pub fn attr_str(ctx: &IrContext, a: &Attribute, locs: bool) -> String {
    match a {
        Attribute::Unit => "unit".into(),
        Attribute::Bool(b) => format!("bool:{b}"),
        Attribute::Int(i) => format!("int:{i}"),
        Attribute::FloatBits(b) => format!("f:{b:016x}"),
        Attribute::String(s) => format!("str:{s:?}"),
        Attribute::Bytes(b) => format!("bytes:{b:?}"),
        Attribute::Type(t) => format!("ty:{}", type_str(ctx, *t)),
        Attribute::Symbol(s) => format!("sym:{:?}", s.to_string()),
        Attribute::List(l) => format!("[{}]", l.iter().map(|x| attr_str(ctx, x, locs)).collect::<Vec<_>>().join(";")),
        Attribute::Location(l) => format!("loc:{:?}:{}..{}", ctx.paths.get(l.path), l.span.start, l.span.end),
    }
}
pub fn attrs_str(ctx: &IrContext, m: &AttributeMap, locs: bool) -> String {
    let mut v: Vec<(String, String)> = m.iter().map(|(k, a)| (k.to_string(), attr_str(ctx, a, locs))).collect();
    v.sort();
    let mut s = String::from("{");
    for (k, a) in v {
        let _ = write!(s, "{k:?}={a},");
    }
    s.push('}');
    s
}
pub struct Canon<'a> {
    ctx: &'a IrContext,
    vals: HashMap<ValueRef, usize>,
    blocks: HashMap<BlockRef, usize>,
    out: String,
    locs: bool,
    block_arg_attrs: bool,
}
/// Canonical form; `locs` includes source locations.
pub fn canon(ctx: &IrContext, op: OpRef, locs: bool, block_arg_attrs: bool) -> String {
    let mut c = Canon { ctx, vals: HashMap::new(), blocks: HashMap::new(), out: String::new(), locs, block_arg_attrs };
    c.number(op);
    c.op(op, 0);
    c.out
}
impl Canon<'_> {
    fn number(&mut self, op: OpRef) {
        for v in self.ctx.op_results(op) {
            let n = self.vals.len();
            self.vals.insert(*v, n);
        }
        for r in self.ctx.op(op).regions.clone() {
            for b in self.ctx.region(r).blocks.clone() {
                let n = self.blocks.len();
                self.blocks.insert(b, n);
                for a in self.ctx.block_args(b) {
                    let n = self.vals.len();
                    self.vals.insert(*a, n);
                }
                for o in self.ctx.block(b).ops.clone() {
                    self.number(o);
                }
            }
        }
    }
    fn op(&mut self, op: OpRef, ind: usize) {
        let d = self.ctx.op(op);
        let _ = write!(self.out, "{:ind$}", "");
        for (v, t) in self.ctx.op_results(op).iter().zip(self.ctx.op_result_types(op)) {
            let _ = write!(self.out, "%{}:{} ", self.vals[v], type_str(self.ctx, *t));
        }
        let _ = write!(self.out, "= {}.{}(", d.dialect, d.name);
        for o in self.ctx.op_operands(op) {
            match self.vals.get(o) {
                Some(n) => {
                    let _ = write!(self.out, "%{n} ");
                }
                None => {
                    let _ = write!(self.out, "ext{o:?} ");
                }
            }
        }
        let _ = write!(self.out, ")");
        for s in &d.successors {
            match self.blocks.get(s) {
                Some(n) => {
                    let _ = write!(self.out, " ^{n}");
                }
                None => {
                    let _ = write!(self.out, " ^ext{s:?}");
                }
            }
        }
        let a = attrs_str(self.ctx, &d.attributes, self.locs);
        let _ = write!(self.out, "{a}");
        if self.locs {
            let _ = write!(self.out, " @{:?}:{}..{}", self.ctx.paths.get(d.location.path), d.location.span.start, d.location.span.end);
        }
        self.out.push('\n');
        for r in d.regions.clone() {
            let _ = writeln!(self.out, "{:ind$}{{", "");
            for b in self.ctx.region(r).blocks.clone() {
                let _ = write!(self.out, "{:ind$}^{}(", "", self.blocks[&b]);
                for (i, a) in self.ctx.block_args(b).iter().enumerate() {
                    let _ = write!(self.out, "%{}:{}", self.vals[a], type_str(self.ctx, self.ctx.value_ty(*a)));
                    if self.block_arg_attrs {
                        let s = attrs_str(self.ctx, &self.ctx.block(b).args[i].attrs, self.locs);
                        self.out.push_str(&s);
                    }
                    self.out.push(' ');
                }
                let _ = writeln!(self.out, ")");
                for o in self.ctx.block(b).ops.clone() {
                    self.op(o, ind + 1);
                }
            }
            let _ = writeln!(self.out, "{:ind$}}}", "");
        }
    }
}
pub fn first_diff(a: &str, b: &str) -> String {
    let (la, lb): (Vec<&str>, Vec<&str>) = (a.lines().collect(), b.lines().collect());
    for i in 0..la.len().max(lb.len()) {
        let (x, y) = (la.get(i).copied().unwrap_or("<end>"), lb.get(i).copied().unwrap_or("<end>"));
        if x != y {
            return format!("line {i}:\n  - {x}\n  + {y}");
        }
    }
    "equal".into()
}
