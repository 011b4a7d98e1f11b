//! Fixed programs on which the conversion is known to be wrong (see known-findings.txt).
use crate::ast::*;
use crate::low::Low;
use crate::{mkir, sem};
use engine::*;
use std::rc::Rc;
use tribute_passes::tribute_control_to_cps::tribute_control_to_cps;
use trunk_ir::context::IrContext;
use trunk_ir::printer::print_module;

struct Bld(Prog);
impl Bld {
    fn new() -> Bld {
        let mut p = Prog { abilities: vec![vec![OpDecl { name: "get".into(), is_fn: false, resumable: true, params: vec![], ret: Ty::I32 }]], ..Prog::default() };
        for (n, c) in [("trace_d", 0u8), ("trace_e", 1), ("trace_c", 2)] {
            p.vars.push(Ty::I32);
            p.funcs.push(Func { name: n.into(), ty: Rc::new(FnTy { conv: c, params: vec![Ty::I32], ret: Ty::I32, needs: 0, inst: -1 }), params: vec![p.vars.len() - 1], body: None, extra: None });
        }
        Bld(p)
    }
    fn v(&mut self) -> Var {
        self.0.vars.push(Ty::I32);
        self.0.vars.len() - 1
    }
    fn st(&mut self, s: &mut Vec<St>, k: K) -> Var {
        let v = self.v();
        s.push(St { outs: vec![v], k });
        v
    }
    fn plus(&mut self, s: &mut Vec<St>, v: Var, n: i64) -> Var {
        let c = self.st(s, K::Const(n));
        self.st(s, K::Bin("addi", v, c))
    }
    /// handle { body } { get(), k -> resume k 1, then + add }
    fn handle(&mut self, s: &mut Vec<St>, body: Body, add: i64) -> Var {
        let comp_arg = self.v();
        let tok = self.v();
        self.0.toks.insert(tok, (Ty::I32, Ty::I32));
        let mut a = vec![];
        let one = self.st(&mut a, K::Const(1));
        let mut r = self.st(&mut a, K::Resume(tok, one));
        if add != 0 {
            r = self.plus(&mut a, r, add);
        }
        let arm = Arm { ability: 0, op: 0, params: vec![], tok: Some(tok), body: Rc::new(Body { stmts: a, term: Term::Yield(r) }) };
        let comp = Rc::new(Body { stmts: vec![], term: Term::Yield(comp_arg) });
        self.st(s, K::Handle(Rc::new(Handle { abilities: vec![0], body: Rc::new(body), comp_arg, comp, arms: vec![arm] })))
    }
    fn func(&mut self, name: &str, s: Vec<St>, r: Var, needs: u32) -> usize {
        self.0.funcs.push(Func { name: name.into(), ty: Rc::new(FnTy { conv: 2, params: vec![], ret: Ty::I32, needs, inst: 0 }), params: vec![], body: Some(Rc::new(Body { stmts: s, term: Term::Return(r) })), extra: None });
        self.0.funcs.len() - 1
    }
}
fn programs() -> Vec<(&'static str, Prog)> {
    let mut out = vec![];
    // two operations, the arm has work left after resuming
    let mut b = Bld::new();
    let mut hb = vec![];
    b.st(&mut hb, K::Perform(0, 0, vec![]));
    let y = b.st(&mut hb, K::Perform(0, 0, vec![]));
    let mut s = vec![];
    let r = b.handle(&mut s, Body { stmts: hb, term: Term::Yield(y) }, 10);
    b.func("main", s, r, 0);
    out.push(("work left after resume", b.0));
    // the operation is performed by a called function that has work left
    let mut b = Bld::new();
    let mut g = vec![];
    let x = b.st(&mut g, K::Perform(0, 0, vec![]));
    let x = b.plus(&mut g, x, 100);
    let gi = b.func("g", g, x, 1);
    let mut hb = vec![];
    let x = b.st(&mut hb, K::Call(gi, vec![]));
    let x = b.plus(&mut hb, x, 1000);
    let mut s = vec![];
    let r = b.handle(&mut s, Body { stmts: hb, term: Term::Yield(x) }, 0);
    b.func("main", s, r, 0);
    out.push(("resume into a called function", b.0));
    out
}
pub fn known(t: &mut Tape) -> CaseResult {
    let ps = programs();
    let (what, p) = &ps[t.idx(ps.len())];
    let mut ctx = IrContext::new();
    let root = mkir::build(&mut ctx, p, "m");
    let text = print_module(&ctx, root);
    let decls = mkir::decls(&mut ctx, p);
    let m = mkir::module(&ctx, root);
    if let Err(e) = tribute_control_to_cps(&mut ctx, m, &decls) {
        return fail(format!("{what}: refused: {e}"), text);
    }
    let want = sem::run(p, p.funcs.len() - 1, &[], &mut sem::Stats::default(), true);
    let after = print_module(&ctx, root);
    let mut low = Low::new(&mut ctx, root);
    let got = low.run(root, "main", &[]).map_err(|e| Failure { msg: format!("{what}: {e}"), render: format!("{text}\n--- converted\n{after}") })?;
    if got != want {
        return fail(format!("{what}: source gives {:?}, converted code {:?}", want.end, got.end), format!("{text}\n--- converted\n{after}"));
    }
    Ok(Case { nontrivial: true, key: hash_str(&text), render: text, tags: vec![what.to_string()] })
}
