//! C13: ADT layout; C14: interning and attribute maps.
use engine::*;
use irkit::b;
use std::collections::{BTreeMap, HashMap};
use trunk_ir::adt_layout::*;
use trunk_ir::context::IrContext;
use trunk_ir::refs::*;
use trunk_ir::rewrite::TypeConverter;
use trunk_ir::types::*;
use trunk_ir::{Span, Symbol};

// ---------------------------------------------------------------- C13

const FT: [(&str, &str, u32); 13] = [
    ("core", "i8", 1),
    ("core", "i16", 2),
    ("core", "i32", 4),
    ("core", "i64", 8),
    ("core", "f32", 4),
    ("core", "f64", 8),
    ("core", "i1", 4),
    ("core", "ptr", 8),
    ("core", "bytes", 8),
    ("tribute_rt", "anyref", 8),
    ("x", "i8", 8),
    ("x", "narrow", 8),
    ("adt", "typeref", 8),
];

/// One sequence of fields: in order, non-overlapping, naturally aligned, without avoidable holes.
fn check_fields(sizes: &[u32], offs: &[u32], size: u32, align: u32) -> Result<(), String> {
    if offs.len() != sizes.len() {
        return Err(format!("{} offsets for {} fields", offs.len(), sizes.len()));
    }
    let mut end = 0;
    for (i, (&o, &s)) in offs.iter().zip(sizes).enumerate() {
        if o % s != 0 {
            return Err(format!("field {i} of size {s} at misaligned offset {o}"));
        }
        if o < end {
            return Err(format!("field {i} at {o} overlaps the previous one ending at {end}"));
        }
        if o >= end + s {
            return Err(format!("field {i} at {o} leaves a hole after {end}"));
        }
        end = o + s;
    }
    if size < end {
        return Err(format!("size {size} does not cover fields ending at {end}"));
    }
    if size % align != 0 || size >= end + align {
        return Err(format!("size {size} is not {end} padded to {align}"));
    }
    Ok(())
}

fn layout(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let tys: Vec<TypeRef> = FT.iter().map(|(d, n, _)| b::ty0(&mut ctx, d, n)).collect();
    // The converter maps some types to others; the layout is that of the converted types.
    let mut map: Vec<usize> = (0..FT.len()).collect();
    let mut tc = TypeConverter::new();
    if t.bool() {
        for m in map.iter_mut() {
            if t.chance(1, 4) {
                *m = t.idx(FT.len());
            }
        }
        let (tys, map) = (tys.clone(), map.clone());
        tc.add_conversion(move |_, ty| {
            let i = tys.iter().position(|x| *x == ty)?;
            (map[i] != i).then_some(tys[map[i]])
        });
    }
    let size = |i: usize| FT[map[i]].2;
    let nv = 1 + t.upto(4);
    let variants: Vec<Vec<usize>> = (0..nv).map(|_| (0..t.upto(6)).map(|_| t.idx(FT.len())).collect()).collect();
    let text = format!("{variants:?} {map:?}");
    note(&text);
    for (i, ty) in tys.iter().enumerate() {
        let (s, a) = type_size_align(&ctx, *ty);
        if (s, a) != (FT[i].2, FT[i].2) {
            return fail(format!("wrong size/alignment| {}.{}: {s}/{a}", FT[i].0, FT[i].1), text);
        }
    }
    // struct from the first variant
    let fields: Vec<Attribute> = variants[0].iter().enumerate().map(|(i, f)| Attribute::List(vec![Attribute::Symbol(b::sym(&format!("f{i}"))), Attribute::Type(tys[*f])])).collect();
    let st = ctx.types.intern(TypeDataBuilder::new(b::sym("adt"), b::sym("struct")).attr(b::sym("name"), Attribute::Symbol(b::sym("S"))).attr(b::sym("fields"), Attribute::List(fields)).build());
    let vs: Vec<Attribute> = variants.iter().enumerate().map(|(i, f)| Attribute::List(vec![Attribute::Symbol(b::sym(&format!("V{i}"))), Attribute::List(f.iter().map(|x| Attribute::Type(tys[*x])).collect())])).collect();
    let en = ctx.types.intern(TypeDataBuilder::new(b::sym("adt"), b::sym("enum")).attr(b::sym("name"), Attribute::Symbol(b::sym("E"))).attr(b::sym("variants"), Attribute::List(vs)).build());
    if compute_struct_layout(&ctx, en, &tc).is_some() || compute_enum_layout(&ctx, st, &tc).is_some() || compute_struct_layout(&ctx, tys[0], &tc).is_some() {
        return fail("a layout for the wrong kind of type|", text);
    }
    let got = get_struct_fields(&ctx, st).map(|v| v.into_iter().map(|(s, t)| (s.to_string(), t)).collect::<Vec<_>>());
    if got != Some(variants[0].iter().enumerate().map(|(i, f)| (format!("f{i}"), tys[*f])).collect()) {
        return fail("struct fields read back differently|", text);
    }
    let got = get_enum_variants(&ctx, en).map(|v| v.into_iter().map(|(s, t)| (s.to_string(), t)).collect::<Vec<_>>());
    if got != Some(variants.iter().enumerate().map(|(i, f)| (format!("V{i}"), f.iter().map(|x| tys[*x]).collect())).collect()) {
        return fail("enum variants read back differently|", text);
    }
    let Some(sl) = compute_struct_layout(&ctx, st, &tc) else { return fail("no struct layout|", text) };
    let sizes: Vec<u32> = variants[0].iter().map(|f| size(*f)).collect();
    let align = sizes.iter().copied().max().unwrap_or(1);
    if sl.alignment != align {
        return fail(format!("struct alignment {} should be {align}|", sl.alignment), text);
    }
    if let Err(e) = check_fields(&sizes, &sl.field_offsets, sl.total_size, align) {
        return fail(format!("struct layout| {e}: {sl:?}"), text);
    }
    let Some(el) = compute_enum_layout(&ctx, en, &tc) else { return fail("no enum layout|", text) };
    if el.tag_offset != 0 || el.tag_size != 4 || el.fields_offset != 8 || el.alignment != 8 || el.variant_layouts.len() != nv {
        return fail(format!("enum header| {el:?}"), text);
    }
    let mut max = 0;
    for (i, v) in variants.iter().enumerate() {
        let l = &el.variant_layouts[i];
        let sizes: Vec<u32> = v.iter().map(|f| size(*f)).collect();
        if l.tag_value != i as u32 || l.name.to_string() != format!("V{i}") {
            return fail(format!("variant {i} has tag {} and name {}|", l.tag_value, l.name), text);
        }
        if let Err(e) = check_fields(&sizes, &l.field_offsets, l.fields_size, 8) {
            return fail(format!("variant layout| {e}: {l:?}"), text);
        }
        max = max.max(l.fields_size);
        match find_variant_layout(&el, b::sym(&format!("V{i}"))) {
            Some(f) if f.tag_value == i as u32 => {}
            _ => return fail("variant not found by name|", text),
        }
    }
    if el.total_size != 8 + max {
        return fail(format!("enum size {} should be {}|", el.total_size, 8 + max), text);
    }
    if find_variant_layout(&el, b::sym("V99")).is_some() {
        return fail("found a variant that does not exist|", text);
    }
    Ok(Case { key: hash_str(&text), nontrivial: variants.iter().map(|v| v.len()).sum::<usize>() > 2, render: text, tags: vec![] })
}

// ---------------------------------------------------------------- C14

fn word(t: &mut Tape) -> String {
    let alpha = ["a", "b", "_", "::", "é", "0", "A", "", " ", "\u{10348}", "\n", "zz"];
    (0..t.upto(4)).map(|_| *t.pick(&alpha)).collect()
}

fn symbols(t: &mut Tape) -> CaseResult {
    let n = 2 + t.upto(30);
    let words: Vec<String> = (0..n).map(|_| word(t)).collect();
    let fresh = format!("fresh-{}-{}", std::process::id(), t.u64());
    let text = format!("{words:?}");
    note(&text);
    if Symbol::lookup(&fresh).is_some() {
        // may have been interned by an earlier case with the same draw; only its text matters then
        if Symbol::lookup(&fresh).unwrap().to_string() != fresh {
            return fail("lookup returned another symbol|", text);
        }
    } else {
        let s = Symbol::from_dynamic(&fresh);
        if Symbol::lookup(&fresh) != Some(s) {
            return fail("an interned string is not found by lookup|", text);
        }
    }
    let threads = t.chance(1, 16);
    let syms: Vec<Symbol> = if threads {
        let parts: Vec<Vec<Symbol>> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..4).map(|k| {
                let words = &words;
                s.spawn(move || {
                    // every thread interns all words, in its own order
                    let mut v = vec![None; words.len()];
                    for i in 0..words.len() {
                        let j = (i * 7 + k * 3) % words.len();
                        v[j] = Some(Symbol::from_dynamic(&words[j]));
                    }
                    (0..words.len()).map(|i| v[i].unwrap_or_else(|| Symbol::from_dynamic(&words[i]))).collect::<Vec<_>>()
                })
            }).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for p in &parts {
            if *p != parts[0] {
                return fail("two threads interned the same text to different symbols|", text);
            }
        }
        parts[0].clone()
    } else {
        words.iter().map(|w| Symbol::from_dynamic(w)).collect()
    };
    for (i, s) in syms.iter().enumerate() {
        if s.to_string() != words[i] || !s.with_str(|x| x == words[i]) || Symbol::lookup(&words[i]) != Some(*s) || Symbol::from(std::borrow::Cow::Borrowed(words[i].as_str())) != *s {
            return fail(format!("symbol text changed| {:?} became {s}", words[i]), text);
        }
        if *s != *words[i].as_str() {
            return fail("symbol does not equal its text|", text);
        }
        for (j, r) in syms.iter().enumerate() {
            if (s == r) != (words[i] == words[j]) || s.cmp(r) != words[i].cmp(&words[j]) {
                return fail(format!("symbols compare differently from their text| {:?} {:?}", words[i], words[j]), text);
            }
            let h = |x: &Symbol| {
                use std::hash::{BuildHasher, Hasher};
                let mut h = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default().build_hasher();
                std::hash::Hash::hash(x, &mut h);
                h.finish()
            };
            if s == r && h(s) != h(r) {
                return fail("equal symbols hash differently|", text);
            }
        }
    }
    Ok(Case { key: hash_str(&text), nontrivial: n > 4, render: text, tags: if threads { vec!["threads".into()] } else { vec![] } })
}

#[derive(Clone, PartialEq, Debug)]
enum MA {
    Unit,
    B(bool),
    I(i128),
    F(u64),
    S(String),
    Y(Vec<u8>),
    T(usize),
    Sym(String),
    L(Vec<MA>),
    Loc(String, usize, usize),
}
fn gen_ma(t: &mut Tape, nty: usize, depth: usize) -> MA {
    match t.idx(if depth > 0 { 10 } else { 8 }) {
        0 => MA::Unit,
        1 => MA::B(t.bool()),
        2 => MA::I(match t.idx(4) {
            0 => t.range(-2, 2) as i128,
            1 => t.int_edge() as i128,
            2 => *t.pick(&[0i128, 127, 128, 255, 256, -128, -129, i32::MAX as i128, i32::MAX as i128 + 1, i32::MIN as i128, i32::MIN as i128 - 1, u32::MAX as i128, u32::MAX as i128 + 1, i64::MAX as i128, i64::MAX as i128 + 1, i64::MIN as i128, i64::MIN as i128 - 1, u64::MAX as i128, u64::MAX as i128 + 1, i128::MAX, i128::MIN, -1]),
            _ => t.u64() as i128,
        }),
        3 => MA::F(t.u64()),
        4 => MA::S(word(t)),
        5 => MA::Sym(word(t)),
        6 => MA::Y((0..t.upto(20)).map(|_| t.idx(256) as u8).collect()),
        7 if nty > 0 => MA::T(t.idx(nty)),
        8 => MA::L((0..t.upto(3)).map(|_| gen_ma(t, nty, depth - 1)).collect()),
        _ => MA::Loc(word(t), t.idx(50), t.idx(50)),
    }
}
fn real_ma(ctx: &mut IrContext, tys: &[TypeRef], a: &MA) -> Attribute {
    match a {
        MA::Unit => Attribute::Unit,
        MA::B(x) => Attribute::Bool(*x),
        MA::I(x) => Attribute::Int(*x),
        MA::F(x) => Attribute::FloatBits(*x),
        MA::S(x) => Attribute::String(x.clone()),
        MA::Y(x) => Attribute::Bytes(x.iter().copied().collect()),
        MA::T(x) => Attribute::Type(tys[*x]),
        MA::Sym(x) => Attribute::Symbol(b::sym(x)),
        MA::L(x) => Attribute::List(x.iter().map(|y| real_ma(ctx, tys, y)).collect()),
        MA::Loc(p, s, e) => {
            let p = ctx.paths.intern(p.clone());
            Attribute::Location(Location::new(p, Span::new(*s, *e)))
        }
    }
}

fn types(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    type K = (String, String, Vec<usize>, BTreeMap<String, String>);
    let mut model: Vec<K> = vec![];
    let mut refs: Vec<TypeRef> = vec![];
    let mut index: HashMap<String, usize> = HashMap::new();
    let mut hits = 0;
    let n = 2 + t.upto(30);
    let mut log = vec![];
    let mut specs: Vec<(String, String, Vec<usize>, BTreeMap<String, MA>)> = vec![];
    for _ in 0..n {
        let mut d = (*t.pick(&["core", "adt", "a"])).to_string();
        let mut nm = (*t.pick(&["i32", "struct", "b"])).to_string();
        let wide = t.chance(1, 6);
        let mut ps: Vec<usize> = if model.is_empty() { vec![] } else { (0..t.upto(if wide { 20 } else { 2 })).map(|_| t.idx(model.len())).collect() };
        let mut attrs: BTreeMap<String, MA> = BTreeMap::new();
        for _ in 0..t.upto(if wide { 9 } else { 2 }) {
            let k = if wide { format!("k{}", t.upto(12)) } else { (*t.pick(&["x", "y", "name"])).to_string() };
            let v = if t.bool() { MA::I(t.range(0, 2) as i128) } else { gen_ma(t, model.len(), 2) };
            attrs.insert(k, v);
        }
        if !specs.is_empty() && t.chance(1, 4) {
            // the same type again, or one that differs in one place
            (d, nm, ps, attrs) = t.pick(&specs).clone();
            if !ps.is_empty() && t.bool() {
                let i = t.idx(ps.len());
                ps[i] = t.idx(model.len());
            }
        }
        specs.push((d.clone(), nm.clone(), ps.clone(), attrs.clone()));
        let key: K = (d.clone(), nm.clone(), ps.clone(), attrs.iter().map(|(k, v)| (k.clone(), format!("{v:?}"))).collect());
        let ks = format!("{key:?}");
        log.push(ks.clone());
        // attributes in either order
        let mut items: Vec<(String, Attribute)> = attrs.iter().map(|(k, v)| (k.clone(), real_ma(&mut ctx, &refs, v))).collect();
        if t.bool() {
            items.reverse();
        }
        let mut bl = TypeDataBuilder::new(b::sym(&d), b::sym(&nm));
        for p in &ps {
            bl = bl.param(refs[*p]);
        }
        for (k, v) in items {
            bl = bl.attr(b::sym(&k), v);
        }
        let data = bl.build();
        let known = index.get(&ks).copied();
        if ctx.types.lookup(&data) != known.map(|i| refs[i]) {
            return fail(format!("lookup of a type disagrees with what was interned| {ks}"), log.join("\n"));
        }
        let r = ctx.types.intern(data.clone());
        match known {
            Some(i) => {
                hits += 1;
                if r != refs[i] {
                    return fail(format!("equal type data interned twice| {ks}"), log.join("\n"));
                }
            }
            None => {
                if refs.contains(&r) {
                    return fail(format!("different type data share a reference| {ks}"), log.join("\n"));
                }
                index.insert(ks, model.len());
                model.push(key);
                refs.push(r);
            }
        }
        if *ctx.types.get(r) != data || !ctx.types.is_dialect(r, b::sym(&d), b::sym(&nm)) {
            return fail("interned type reads back differently|", log.join("\n"));
        }
    }
    for (i, (d, n, p, _)) in model.iter().enumerate() {
        let x = ctx.types.get(refs[i]);
        if x.dialect.to_string() != *d || x.name.to_string() != *n || x.params.to_vec() != p.iter().map(|j| refs[*j]).collect::<Vec<_>>() {
            return fail("an earlier type changed|", log.join("\n"));
        }
    }
    // aliases: a name means its latest type, the order is that of first registration, and a name given for a type means it
    let mut names: Vec<(String, usize)> = vec![];
    let mut shared: std::collections::HashSet<usize> = Default::default();
    for _ in 0..t.upto(8) {
        let (n, i) = (format!("n{}", t.upto(3)), t.idx(refs.len()));
        log.push(format!("alias {n} = type {i}"));
        ctx.register_type_alias(b::sym(&n), refs[i]);
        if names.iter().any(|(m, j)| *j == i && *m != n) {
            shared.insert(i);
        }
        match names.iter_mut().find(|x| x.0 == n) {
            Some(x) => x.1 = i,
            None => names.push((n, i)),
        }
        let listed: Vec<(String, TypeRef)> = ctx.type_aliases().iter().map(|(n, t)| (n.to_string(), *t)).collect();
        if listed != names.iter().map(|(n, i)| (n.clone(), refs[*i])).collect::<Vec<_>>() {
            return fail("the list of type aliases is wrong|", log.join("\n"));
        }
        for (n, i) in &names {
            if ctx.type_alias_by_name(b::sym(n)) != Some(refs[*i]) {
                return fail(format!("alias {n} has another type|"), log.join("\n"));
            }
            if !shared.contains(i) && ctx.type_alias_by_type(refs[*i]) != Some(b::sym(n)) {
                return fail(format!("type {i} does not know its alias {n}|"), log.join("\n"));
            }
        }
        for (i, r) in refs.iter().enumerate() {
            if let Some(n) = ctx.type_alias_by_type(*r) && ctx.type_alias_by_name(n) != Some(*r) {
                return fail(format!("type {i} has an alias that means another type|"), log.join("\n"));
            }
        }
    }
    // paths
    let words: Vec<String> = (0..t.upto(12)).map(|_| word(t)).collect();
    let prs: Vec<PathRef> = words.iter().map(|w| ctx.paths.intern(w.clone())).collect();
    for i in 0..words.len() {
        if ctx.paths.get(prs[i]) != words[i] {
            return fail("interned path reads back differently|", format!("{words:?}"));
        }
        for j in 0..words.len() {
            if (prs[i] == prs[j]) != (words[i] == words[j]) {
                return fail("path references compare differently from paths|", format!("{words:?}"));
            }
        }
    }
    let text = log.join("\n");
    Ok(Case { key: hash_str(&text), nontrivial: model.len() > 3 && hits > 0, render: text, tags: vec![] })
}

fn attrs(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let tys: Vec<TypeRef> = (0..3).map(|i| b::ty0(&mut ctx, "t", &format!("a{i}"))).collect();
    let mut m = AttributeMap::new();
    let mut model: BTreeMap<String, MA> = BTreeMap::new();
    let keys = ["a", "b", "c", "sym_name", "never_inserted_key"];
    let n = 1 + t.upto(20);
    let mut log = vec![];
    for _ in 0..n {
        let k = keys[t.idx(4)];
        match t.idx(5) {
            0 => {
                log.push(format!("remove {k}"));
                let old = model.remove(k);
                let got = if t.bool() { m.remove(k) } else { m.remove(b::sym(k)) };
                let want = old.map(|o| real_ma(&mut ctx, &tys, &o));
                if got != want {
                    return fail("remove returned the wrong value|", log.join("\n"));
                }
            }
            1 if t.chance(1, 8) => {
                log.push("clear".into());
                m.clear();
                model.clear();
            }
            2 if model.contains_key(k) => {
                let v = gen_ma(t, 3, 2);
                log.push(format!("get_mut {k} = {v:?}"));
                *m.get_mut(k).unwrap() = real_ma(&mut ctx, &tys, &v);
                model.insert(k.into(), v);
            }
            _ => {
                let v = gen_ma(t, 3, 2);
                log.push(format!("insert {k} = {v:?}"));
                let old = model.insert(k.into(), v.clone());
                let r = real_ma(&mut ctx, &tys, &v);
                let got = m.insert(b::sym(k), r);
                if got != old.map(|o| real_ma(&mut ctx, &tys, &o)) {
                    return fail("insert returned the wrong value|", log.join("\n"));
                }
            }
        }
        let bad = |w: &str| -> CaseResult { fail(format!("attribute map: {w}|"), log.join("\n")) };
        if m.len() != model.len() || m.is_empty() != model.is_empty() {
            return bad("length");
        }
        let it: Vec<(String, Attribute)> = m.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
        let want: Vec<(String, Attribute)> = model.iter().map(|(k, v)| (k.clone(), real_ma(&mut ctx, &tys, v))).collect();
        if it != want || m.keys().map(|k| k.to_string()).collect::<Vec<_>>() != model.keys().cloned().collect::<Vec<_>>() || m.values().cloned().collect::<Vec<_>>() != want.iter().map(|x| x.1.clone()).collect::<Vec<_>>() {
            return bad("iteration is not in name order with the stored values");
        }
        for k in keys {
            let e = model.get(k).cloned();
            let r = e.as_ref().map(|e| real_ma(&mut ctx, &tys, e));
            if m.get(k) != r.as_ref() || m.get(b::sym(k)) != r.as_ref() || m.contains_key(k) != e.is_some() {
                return bad("get / contains_key");
            }
            if m.get_bool(k) != if let Some(MA::B(x)) = e { Some(x) } else { None } {
                return bad("get_bool");
            }
            let int = if let Some(MA::I(x)) = e { Some(x) } else { None };
            if m.get_i128(k) != int {
                return bad("get_i128");
            }
            macro_rules! num {
                ($f:ident, $t:ty) => {
                    let want = match int {
                        None => Ok(None),
                        Some(x) if x >= <$t>::MIN as i128 && x <= <$t>::MAX as i128 => Ok(Some(x as $t)),
                        Some(x) => Err(x),
                    };
                    if m.$f(k).map_err(|e| e.value) != want {
                        return bad(stringify!($f));
                    }
                };
            }
            num!(get_i64, i64);
            num!(get_i32, i32);
            num!(get_u64, u64);
            num!(get_u32, u32);
            num!(get_u8, u8);
            if m.get_str(k).map(|s| s.to_string()) != if let Some(MA::S(x)) = &e { Some(x.clone()) } else { None } {
                return bad("get_str");
            }
            if m.get_symbol(k).map(|s| s.to_string()) != if let Some(MA::Sym(x)) = &e { Some(x.clone()) } else { None } {
                return bad("get_symbol");
            }
            if m.get_type(k) != if let Some(MA::T(x)) = e { Some(tys[x]) } else { None } {
                return bad("get_type");
            }
            let text = match &e {
                Some(MA::S(x)) | Some(MA::Sym(x)) => Some(x.clone()),
                _ => None,
            };
            if m.get_text(k).map(|x| x.to_string()) != text || text.as_ref().is_some_and(|w| m.get_text(k).unwrap() != w.as_str()) {
                return bad("get_text");
            }
        }
    }
    let text = log.join("\n");
    Ok(Case { key: hash_str(&text), nontrivial: n > 4, render: text, tags: vec![] })
}

pub fn props() -> Vec<Property> {
    vec![
        Property { id: "C13", lanes: vec![Lane { name: "layout", rule: "random struct and enum types over all field sizes and a random type converter; non-trivial: at least three fields", quick: 100_000, thorough: 3_000_000, threads: 0, run: layout }], assumptions: vec![], sweeps: vec![] },
        Property {
            id: "C14",
            lanes: vec![
                Lane { name: "symbols", rule: "random strings (empty, Unicode, prefixes of each other), also from four threads; non-trivial: at least five strings", quick: 20_000, thorough: 500_000, threads: 0, run: symbols },
                Lane { name: "types", rule: "random history of interned types with parameters and attributes in either order, and paths; non-trivial: at least four types and one repeated", quick: 60_000, thorough: 2_000_000, threads: 0, run: types },
                Lane { name: "attributes", rule: "random history of attribute map edits, every typed getter after every step; non-trivial: at least five steps", quick: 60_000, thorough: 2_000_000, threads: 0, run: attrs },
            ],
            assumptions: vec![],
            sweeps: vec![],
        },
    ]
}
