//! Compiled programs compute what the IR says.
use crate::exec::{self, Ext};
use crate::{load, pipe};
use engine::*;
use irkit::gen_ir::*;
use irkit::interp::{self, Outcome, Stop, Val};
use irkit::pretty;
use procs::{End, Spec};
use std::collections::HashMap;
use trunk_ir::context::IrContext;
use trunk_ir::refs::OpRef;
use trunk_ir::rewrite::Module;

const FUEL: u64 = 6000;

pub struct Prog {
    pub g: Gen,
    pub text: String,
    pub runs: Vec<(Sig, Vec<Val>, Outcome)>,
}
pub fn prepare(t: &mut Tape, cfg: &Cfg, ninputs: usize) -> Prog {
    let g = gen_module(t, cfg);
    let mut runs = vec![];
    for s in g.sigs.iter().filter(|s| !s.external && !s.name.contains("::") && exec::fits(&s.params) && !matches!(s.ret, T::Adt(_)) && s.params.iter().all(|p| !matches!(p, T::Adt(_)))) {
        for a in gen_inputs(t, s, ninputs) {
            let o = interp::run(&g.ctx, g.module, &s.name, &a, FUEL);
            runs.push((s.clone(), a, o));
        }
    }
    let text = pretty::canon(&g.ctx, g.module, false, false);
    note(&text);
    Prog { g, text, runs }
}

pub fn runtime_symbol(n: &str, stubs: &HashMap<String, usize>) -> Option<usize> {
    if let Some(a) = stubs.get(n) {
        return Some(*a);
    }
    Some(match n {
        "__tribute_alloc" => exec::heap_alloc as *const () as usize,
        "__tribute_dealloc" => exec::heap_dealloc as *const () as usize,
        "__tribute_bytes_concat" => tribute_runtime::__tribute_bytes_concat as *const () as usize,
        "__tribute_bytes_len" => tribute_runtime::__tribute_bytes_len as *const () as usize,
        _ => {
            let c = std::ffi::CString::new(n).ok()?;
            let p = unsafe { libc::dlsym(libc::RTLD_DEFAULT, c.as_ptr()) };
            if p.is_null() {
                return None;
            }
            p as usize
        }
    })
}

/// Runs all recorded inputs on the compiled image; compares with the reference outcomes.
/// How much memory may still be allocated when a run ends.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Leak {
    Any,
    /// objects that were stored in another object
    Stored,
    Nothing,
}

pub fn run_all(p: &Prog, obj: &[u8], keep_traps: bool, leak: Leak, extra: &str) -> Result<(usize, Vec<(usize, Vec<usize>)>), Failure> {
    let exts: Vec<Ext> = p.g.sigs.iter().filter(|s| s.external).map(|s| Ext { name: s.name.clone(), params: s.params.clone(), ret: s.ret }).collect();
    let stubs = exec::make_stubs(exts);
    let img = match load::load(obj, &|n| runtime_symbol(n, &stubs)) {
        Ok(i) => i,
        Err(e) => return fail(format!("object file cannot be linked: {e}"), format!("{}\n{extra}", p.text)),
    };
    let todo: Vec<usize> = (0..p.runs.len()).filter(|i| !matches!(&p.runs[*i].2.result, Err(Stop::Fuel)) && !matches!(&p.runs[*i].2.result, Err(Stop::Trap(m)) if *m == "removf"))
        // an optimiser may remove a trap, and then the program may not end
        .filter(|i| keep_traps || !matches!(&p.runs[*i].2.result, Err(Stop::Trap(_))))
        .collect();
    for &i in &todo {
        if let Err(Stop::Stuck(m)) = &p.runs[i].2.result {
            return fail(format!("generator bug: stuck on input: {m}"), p.text.clone());
        }
    }
    let mut start = 0;
    let mut compared = 0;
    let mut lives = vec![];
    while start < todo.len() {
        exec::log_reset();
        let o = procs::run(Spec::default(), |_| {
            for &i in &todo[start..] {
                let (s, a, _) = &p.runs[i];
                let Some(f) = img.func(&s.name) else { return 77 };
                exec::reset();
                exec::heap_init(4000);
                exec::log(&format!("B {i}\n"));
                let v = unsafe { exec::call(f, &s.params, a, s.ret) };
                exec::log(&format!("R {}\n", interp::show(&v)));
                let mut live = exec::HEAP.with(|h| h.borrow().live.values().copied().collect::<Vec<_>>());
                live.sort();
                exec::log(&format!("L {}\n", live.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" ")));
            }
            0
        });
        let log = exec::log_read();
        if o.end == End::Exit(77) {
            return fail("a function has no unique symbol in the object", format!("{}\n{extra}", p.text));
        }
        let parts: Vec<&str> = log.split("B ").filter(|s| !s.is_empty()).collect();
        let done = parts.len();
        for (k, part) in parts.iter().enumerate() {
            let (s, a, want) = &p.runs[todo[start + k]];
            let body = part.split_once('\n').map(|x| x.1).unwrap_or("");
            let ev: String = want.trace.iter().map(exec::show_event).collect();
            let (got_ev, rest) = match body.find("R ") {
                Some(i) if i == 0 || body.as_bytes()[i - 1] == b'\n' => (&body[..i], &body[i..]),
                _ => (body, ""),
            };
            let last = k + 1 == done;
            let trapped = rest.is_empty();
            if trapped && !last {
                return fail("internal: result missing", p.text.clone());
            }
            if trapped && o.end == End::Exit(exec::EXIT_HEAP_FULL) {
                continue;
            }
            let trap_sig = matches!(o.end, End::Signal(x) if x == libc::SIGILL || x == libc::SIGFPE || x == libc::SIGTRAP);
            let ok = match &want.result {
                Ok(vs) => {
                    let w = if s.ret == T::Nil { "()".to_string() } else { vs.first().cloned().unwrap_or("()".into()) };
                    let line = rest.lines().next().unwrap_or("");
                    let g = line.strip_prefix("R ").unwrap_or("");
                    let same = s.ret == T::Nil || g == w;
                    let live: Vec<usize> = rest.lines().nth(1).unwrap_or("L ")[2..].split_whitespace().map(|x| x.parse().unwrap()).collect();
                    // what was never part of another object has to be freed
                    let leak = match leak {
                        Leak::Any => false,
                        Leak::Stored => live.len() > want.stored_objs,
                        Leak::Nothing => !live.is_empty(),
                    };
                    lives.push((todo[start + k], live));
                    !trapped && same && got_ev == ev && !leak
                }
                Err(_) => {
                    if keep_traps {
                        trapped && trap_sig && got_ev == ev
                    } else {
                        !trapped || trap_sig
                    }
                }
            };
            if !ok {
                let err = String::from_utf8_lossy(&o.stderr);
                return fail(
                    format!(
                        "compiled code differs| @{}({}) should give {:?} with external calls [{}]; compiled code gave {:?}{}{}",
                        s.name,
                        a.iter().map(interp::show).collect::<Vec<_>>().join(", "),
                        want.result,
                        ev.trim().replace('\n', "; "),
                        body.trim().replace('\n', "; "),
                        if last { format!(", ended with {:?}", o.end) } else { String::new() },
                        if err.is_empty() { String::new() } else { format!(" {err}") }
                    ),
                    format!("{}\n{extra}", p.text),
                );
            }
            if want.result.is_ok() {
                compared += 1;
            }
        }
        if done == 0 {
            return fail(format!("nothing ran: {:?} {}", o.end, String::from_utf8_lossy(&o.stderr)), p.text.clone());
        }
        start += done;
    }
    Ok((compared, lives))
}

fn compile(p: &mut Prog, o: pipe::Opt) -> Result<Vec<u8>, Failure> {
    let text = p.text.clone();
    let r = pipe::lower(&mut p.g.ctx, p.g.module, o);
    let ro = match r {
        Ok(r) => r,
        Err(e) => return fail(format!("lowering failed: {e}"), text),
    };
    if std::env::var("VP_DUMP").is_ok() {
        eprintln!("LOWERED\n{}", pretty::canon(&p.g.ctx, p.g.module, false, false));
    }
    match pipe::emit(&p.g.ctx, p.g.module, &ro) {
        Ok(b) => Ok(b),
        Err(e) => fail(format!("{e}"), format!("{text}\nLOWERED\n{}", pretty::canon(&p.g.ctx, p.g.module, false, false))),
    }
}

fn native_cfg(t: &mut Tape) -> Cfg {
    Cfg {
        extern_attrs: true,
        extern_body: true,
        tail_calls: false,
        i1_casts: false,
        max_stmts: 4 + t.upto(14),
        paths: true,
        ..Cfg::base()
    }
}
fn scalar_case(t: &mut Tape) -> CaseResult {
    let cfg = native_cfg(t);
    let mut p = prepare(t, &cfg, 3);
    let obj = compile(&mut p, pipe::Opt::base())?;
    let (n, _) = run_all(&p, &obj, true, Leak::Any, "")?;
    let st = &p.g.stats;
    Ok(Case { nontrivial: n > 0 && st.ops >= 6, key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
fn adt_case(t: &mut Tape) -> CaseResult {
    let o = pipe::Opt { borrowed: t.bool(), temps: t.bool(), paired: t.bool(), ..pipe::Opt::base() };
    let adt_repr = *t.pick(&[Repr::Anyref, Repr::Owned, Repr::Owned, Repr::Typeref, Repr::Inline]);
    let ncfg = native_cfg(t);
    // Without branches everything that is not part of another object must be freed.
    let straight = t.chance(1, 3);
    let heavy = t.chance(3, 4);
    let cfg = Cfg { adt: true, scf: !straight, cf: !straight, recursion: !straight, adt_repr, adt_ctor: matches!(adt_repr, Repr::Anyref | Repr::Owned) && t.bool(), max_stmts: 4 + t.upto(12), indirect: t.bool(), wide: true, deep_reads: true, heavy, ref_casts: matches!(adt_repr, Repr::Anyref | Repr::Owned), ..ncfg };
    let cfg = if heavy { Cfg { scalars: vec![T::I32, T::I64, T::F64, T::I1], ..cfg } } else { cfg };
    let mut t2 = t.clone();
    let mut p = prepare(t, &cfg, 3);
    let obj = compile(&mut p, o)?;
    let ex = format!("{o:?}");
    // Release functions follow the fields declared with a nominal type.
    let leak = match adt_repr {
        Repr::Owned if straight => Leak::Nothing,
        Repr::Anyref if straight => Leak::Stored,
        _ => Leak::Any,
    };
    let (n, lives) = run_all(&p, &obj, true, leak, &ex)?;
    if o.borrowed || o.temps || o.paired {
        let mut q = prepare(&mut t2, &cfg, 3);
        let obj = compile(&mut q, pipe::Opt::base())?;
        let (_, base) = run_all(&q, &obj, true, leak, "all RC policies off")?;
        let b: HashMap<usize, Vec<usize>> = base.into_iter().collect();
        for (i, l) in lives {
            // Where control branches, a value live into only one successor is documented to leak on
            // the other path; the temporary-borrow policy can move that leak from the value to its
            // owner, so the comparison is made only where that rule cannot apply.
            if let Some(x) = b.get(&i)
                && (straight || !o.temps)
                && l.len() > x.len()
            {
                return fail(format!("RC policies leave more blocks unfreed| live at exit {l:?}, without the policies {x:?} in @{}", p.runs[i].0.name), format!("{}\n{ex}", p.text));
            }
        }
    }
    let st = &p.g.stats;
    Ok(Case { nontrivial: n > 0 && st.adt_ops >= 1, key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
fn opt_case(t: &mut Tape) -> CaseResult {
    let ncfg = native_cfg(t);
    let cfg = Cfg { adt: t.bool(), adt_repr: *t.pick(&[Repr::Typeref, Repr::Inline, Repr::Anyref]), const_bias: 5, ..ncfg };
    let mut p = prepare(t, &cfg, 3);
    let m = Module::new(&p.g.ctx, p.g.module).unwrap();
    let keep: Vec<String> = p.runs.iter().map(|r| r.0.name.clone()).collect();
    // a random sequence of the optimisation passes the driver runs before lowering
    let n = 1 + t.upto(3);
    let mut names = vec![];
    for _ in 0..n {
        let k = t.idx(4);
        names.push(["inline", "dce_funcs", "canonicalize", "dce"][k]);
        if let Err(e) = pipe::optimise(&mut p.g.ctx, m, k, &keep) {
            return fail(format!("optimisation failed: {e}"), p.text.clone());
        }
    }
    let obj = compile(&mut p, pipe::Opt::base())?;
    let (n, _) = run_all(&p, &obj, false, Leak::Any, &format!("{names:?}"))?;
    Ok(Case { nontrivial: n > 0 && p.g.stats.ops >= 6, key: hash_str(&p.text) ^ hash_str(&names.join(",")), render: format!("{names:?}\n{}", p.text), tags: vec![] })
}
fn det_case(t: &mut Tape) -> CaseResult {
    let o = pipe::Opt { borrowed: t.bool(), temps: t.bool(), paired: t.bool(), entrypoint: false, ..pipe::Opt::base() };
    let repr = *t.pick(&[Repr::Anyref, Repr::Typeref, Repr::Inline]);
    let ncfg = native_cfg(t);
    let cfg = Cfg { adt: t.chance(2, 3), adt_repr: repr, ..ncfg };
    let t2 = t.clone();
    let mut p = prepare(t, &cfg, 0);
    let a = compile(&mut p, o)?;
    // hash seeds differ from map to map, so a few more compilations expose most iteration orders
    for _ in 0..3 {
        let mut q = prepare(&mut t2.clone(), &cfg, 0);
        let b = compile(&mut q, o)?;
        if a != b {
            let at = a.iter().zip(&b).position(|(x, y)| x != y);
            return fail(format!("compiling the same module twice gives different objects| {} and {} bytes, first difference at {at:?}", a.len(), b.len()), format!("{}\n{o:?}", p.text));
        }
    }
    Ok(Case { nontrivial: p.g.stats.ops >= 6, key: hash_str(&p.text), render: p.text.clone(), tags: vec![] })
}
pub fn props() -> Vec<Property> {
    vec![
        Property {
            id: "C20",
            lanes: vec![
                Lane { name: "optimised", rule: "a run to completion is compared and the program has at least six operations", quick: 6000, thorough: 30_000, threads: 0, run: opt_case },
                Lane { name: "scalar", rule: "a run to completion is compared and the program has at least six operations", quick: 10_000, thorough: 60_000, threads: 0, run: scalar_case },
            ],
            assumptions: vec![],
            sweeps: vec![],
        },
        Property {
            id: "C21",
            lanes: vec![Lane { name: "adt", rule: "a run to completion is compared and the program builds or takes apart a value", quick: 8000, thorough: 150_000, threads: 0, run: adt_case }],
            assumptions: vec![],
            sweeps: vec![],
        },
        Property {
            id: "C22",
            lanes: vec![Lane { name: "native-det", rule: "the program has at least six operations", quick: 4000, thorough: 30_000, threads: 0, run: det_case }],
            assumptions: vec![],
            sweeps: vec![],
        },
    ]
}
