//! Model-based histories over the IR arena: every mutation must keep operands, results, parents and use lists in step.
use engine::*;
use irkit::b::{self};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use trunk_ir::context::*;
use trunk_ir::ir_mapping::IrMapping;
use trunk_ir::refs::*;
use trunk_ir::rewrite as rw;
use trunk_ir::types::*;

/// Attributes of the block argument with tag `k`: one to three entries.
fn arg_attrs(k: i128) -> trunk_ir::types::AttributeMap {
    let mut v = vec![(b::sym("k"), Attribute::Int(k))];
    if k % 2 == 0 {
        v.push((b::sym("j"), Attribute::Symbol(b::sym("x"))));
    }
    if k % 3 == 0 {
        v.push((b::sym("z"), Attribute::Unit));
    }
    v.into_iter().collect()
}

#[derive(Clone, Default)]
struct MOp {
    operands: Vec<ValueRef>,
    results: Vec<(ValueRef, TypeRef)>,
    parent: Option<BlockRef>,
    regions: Vec<RegionRef>,
    succs: Vec<BlockRef>,
    tag: i128,
}
#[derive(Clone, Default)]
struct MBlock {
    args: Vec<(ValueRef, TypeRef, i128)>,
    ops: Vec<OpRef>,
    parent: Option<RegionRef>,
}
#[derive(Clone, Default)]
struct MRegion {
    blocks: Vec<BlockRef>,
    parent: Option<OpRef>,
}
#[derive(Default)]
struct Model {
    ops: BTreeMap<OpRef, MOp>,
    blocks: BTreeMap<BlockRef, MBlock>,
    regions: BTreeMap<RegionRef, MRegion>,
}

struct H<'a> {
    t: &'a mut Tape,
    ctx: IrContext,
    m: Model,
    tys: Vec<TypeRef>,
    loc: Location,
    next: i128,
    log: Vec<String>,
}

impl H<'_> {
    fn values(&self) -> Vec<ValueRef> {
        let mut v: Vec<ValueRef> = vec![];
        for o in self.m.ops.values() {
            v.extend(o.results.iter().map(|x| x.0));
        }
        for bl in self.m.blocks.values() {
            v.extend(bl.args.iter().map(|x| x.0));
        }
        v
    }
    fn pick_op(&mut self) -> Option<OpRef> {
        let v: Vec<OpRef> = self.m.ops.keys().copied().collect();
        if v.is_empty() { None } else { Some(*self.t.pick(&v)) }
    }
    fn pick_block(&mut self) -> Option<BlockRef> {
        let v: Vec<BlockRef> = self.m.blocks.keys().copied().collect();
        if v.is_empty() { None } else { Some(*self.t.pick(&v)) }
    }
    fn pick_region(&mut self) -> Option<RegionRef> {
        let v: Vec<RegionRef> = self.m.regions.keys().copied().collect();
        if v.is_empty() { None } else { Some(*self.t.pick(&v)) }
    }
    fn ty(&mut self) -> TypeRef {
        *self.t.pick(&self.tys.clone())
    }
    /// ops in the subtree of `op`
    fn subtree(&self, op: OpRef, out: &mut BTreeSet<OpRef>) {
        out.insert(op);
        for r in &self.m.ops[&op].regions {
            for bl in &self.m.regions[r].blocks {
                for o in &self.m.blocks[bl].ops {
                    self.subtree(*o, out);
                }
            }
        }
    }
    fn inside(&self, bl: BlockRef, op: OpRef) -> bool {
        let mut cur = Some(bl);
        while let Some(x) = cur {
            let Some(r) = self.m.blocks[&x].parent else { return false };
            let Some(o) = self.m.regions[&r].parent else { return false };
            if o == op {
                return true;
            }
            cur = self.m.ops[&o].parent;
        }
        false
    }
    fn new_block(&mut self) -> BlockRef {
        let n = self.t.upto(3);
        let tys: Vec<TypeRef> = (0..n).map(|_| self.ty()).collect();
        let tags: Vec<i128> = tys
            .iter()
            .map(|_| {
                self.next += 1;
                self.next
            })
            .collect();
        let data = BlockData { location: self.loc, args: tys.iter().zip(&tags).map(|(t, k)| BlockArgData { ty: *t, attrs: arg_attrs(*k) }).collect(), ops: Default::default(), parent_region: None };
        let bl = self.ctx.create_block(data);
        let vals = self.ctx.block_args(bl).to_vec();
        self.m.blocks.insert(bl, MBlock { args: vals.into_iter().zip(tys).zip(tags).map(|((v, t), k)| (v, t, k)).collect(), ops: vec![], parent: None });
        bl
    }
    fn new_region(&mut self, blocks: Vec<BlockRef>) -> RegionRef {
        let r = self.ctx.create_region(RegionData { location: self.loc, blocks: blocks.iter().copied().collect(), parent_op: None });
        for x in &blocks {
            self.m.blocks.get_mut(x).unwrap().parent = Some(r);
        }
        self.m.regions.insert(r, MRegion { blocks, parent: None });
        r
    }
    /// register the model of an op freshly built by the library (clones)
    fn adopt(&mut self, src: OpRef, new: OpRef, vmap: &mut HashMap<ValueRef, ValueRef>, bmap: &mut HashMap<BlockRef, BlockRef>) -> Result<(), String> {
        let s = self.m.ops[&src].clone();
        let mut regions = vec![];
        let nr = self.ctx.op(new).regions.to_vec();
        if nr.len() != s.regions.len() {
            return Err(format!("clone of {src:?} has {} regions, source has {}", nr.len(), s.regions.len()));
        }
        let pairs: Vec<(RegionRef, RegionRef)> = s.regions.iter().copied().zip(nr).collect();
        for (a, c) in pairs {
            self.adopt_region(a, c, Some(new), vmap, bmap)?;
            regions.push(c);
        }
        let res = self.ctx.op_results(new).to_vec();
        if res.len() != s.results.len() {
            return Err(format!("clone of {src:?} has {} results, source has {}", res.len(), s.results.len()));
        }
        for (o, n) in s.results.iter().zip(&res) {
            vmap.insert(o.0, *n);
        }
        let operands = s.operands.iter().map(|v| vmap.get(v).copied().unwrap_or(*v)).collect();
        let succs = s.succs.iter().map(|x| bmap.get(x).copied().unwrap_or(*x)).collect();
        self.m.ops.insert(new, MOp { operands, results: res.iter().copied().zip(s.results.iter().map(|x| x.1)).collect(), parent: None, regions, succs, tag: s.tag });
        Ok(())
    }
    fn adopt_region(&mut self, src: RegionRef, new: RegionRef, parent: Option<OpRef>, vmap: &mut HashMap<ValueRef, ValueRef>, bmap: &mut HashMap<BlockRef, BlockRef>) -> Result<(), String> {
        let sb = self.m.regions[&src].blocks.clone();
        let nb = self.ctx.region(new).blocks.to_vec();
        if sb.len() != nb.len() {
            return Err(format!("clone of region {src:?} has {} blocks, source has {}", nb.len(), sb.len()));
        }
        for (a, c) in sb.iter().zip(&nb) {
            bmap.insert(*a, *c);
            let args = self.m.blocks[a].args.clone();
            let na = self.ctx.block_args(*c).to_vec();
            if na.len() != args.len() {
                return Err(format!("clone of block {a:?} has {} args, source has {}", na.len(), args.len()));
            }
            for (x, y) in args.iter().zip(&na) {
                vmap.insert(x.0, *y);
            }
            self.m.blocks.insert(*c, MBlock { args: na.iter().zip(&args).map(|(v, x)| (*v, x.1, x.2)).collect(), ops: vec![], parent: Some(new) });
        }
        self.m.regions.insert(new, MRegion { blocks: nb.clone(), parent });
        for (a, c) in sb.iter().zip(&nb) {
            let so = self.m.blocks[a].ops.clone();
            let no = self.ctx.block(*c).ops.to_vec();
            if so.len() != no.len() {
                return Err(format!("clone of block {a:?} has {} ops, source has {}", no.len(), so.len()));
            }
            for (x, y) in so.iter().zip(&no) {
                self.adopt(*x, *y, vmap, bmap)?;
                self.m.ops.get_mut(y).unwrap().parent = Some(*c);
            }
            self.m.blocks.get_mut(c).unwrap().ops = no;
        }
        Ok(())
    }
    /// Every operand of the subtree `sub` of `root` that is defined inside it is visible where it is used:
    /// it is defined in a block of a region enclosing the user, by an op that does not contain the user.
    fn well_scoped(&self, sub: &BTreeSet<OpRef>, root: OpRef) -> bool {
        let mut def_region: HashMap<ValueRef, (RegionRef, Option<OpRef>)> = HashMap::new();
        for x in sub {
            let mo = &self.m.ops[x];
            if *x == root {
                for r in &mo.results {
                    // uses of the root's own results inside the tree are never visible
                    if sub.iter().any(|y| self.m.ops[y].operands.contains(&r.0)) {
                        return false;
                    }
                }
            } else {
                let Some(reg) = mo.parent.and_then(|bl| self.m.blocks[&bl].parent) else { return false };
                for r in &mo.results {
                    def_region.insert(r.0, (reg, Some(*x)));
                }
            }
            for rg in &mo.regions {
                for bl in &self.m.regions[rg].blocks {
                    for a in &self.m.blocks[bl].args {
                        def_region.insert(a.0, (*rg, None));
                    }
                }
            }
        }
        for x in sub {
            for v in &self.m.ops[x].operands {
                let Some((reg, by)) = def_region.get(v) else { continue };
                if *by == Some(*x) {
                    return false;
                }
                let mut cur = *x;
                let mut ok = false;
                while cur != root {
                    let Some(r) = self.m.ops[&cur].parent.and_then(|bl| self.m.blocks[&bl].parent) else { break };
                    if r == *reg {
                        ok = *by != Some(cur);
                        break;
                    }
                    let Some(p) = self.m.regions[&r].parent else { break };
                    cur = p;
                }
                if !ok {
                    return false;
                }
            }
        }
        true
    }
    /// After adopt, operands that refer to values defined in a later block of the same clone need the final map.
    fn fix_forward(&mut self, src: OpRef, new: OpRef, vmap: &HashMap<ValueRef, ValueRef>) {
        let s = self.m.ops[&src].clone();
        let operands = s.operands.iter().map(|v| vmap.get(v).copied().unwrap_or(*v)).collect();
        let n = self.m.ops.get_mut(&new).unwrap();
        n.operands = operands;
        let nr = n.regions.clone();
        for (a, c) in s.regions.iter().zip(&nr) {
            self.fix_forward_region(*a, *c, vmap);
        }
    }
    fn fix_forward_region(&mut self, a: RegionRef, c: RegionRef, vmap: &HashMap<ValueRef, ValueRef>) {
        let sb = self.m.regions[&a].blocks.clone();
        let nb = self.m.regions[&c].blocks.clone();
        for (x, y) in sb.iter().zip(&nb) {
            let so = self.m.blocks[x].ops.clone();
            let no = self.m.blocks[y].ops.clone();
            for (p, q) in so.iter().zip(&no) {
                self.fix_forward(*p, *q, vmap);
            }
        }
    }

    fn step(&mut self) -> Result<(), String> {
        let k = self.t.weighted(&[10, 8, 6, 4, 2, 5, 6, 4, 5, 2, 3, 3, 2, 6, 4, 2, 3, 3, 3, 3, 2]);
        match k {
            0 => {
                // create op
                let vals = self.values();
                let mut ops = vec![];
                if !vals.is_empty() {
                    for _ in 0..self.t.upto(4) {
                        ops.push(*self.t.pick(&vals));
                    }
                }
                let res: Vec<TypeRef> = (0..self.t.upto(3)).map(|_| self.ty()).collect();
                let mut regions = vec![];
                if self.t.chance(1, 3) {
                    let free: Vec<RegionRef> = self.m.regions.iter().filter(|(_, r)| r.parent.is_none()).map(|(k, _)| *k).collect();
                    for r in free {
                        if regions.len() < 2 && self.t.bool() {
                            regions.push(r);
                        }
                    }
                }
                let blocks: Vec<BlockRef> = self.m.blocks.keys().copied().collect();
                let mut succs = vec![];
                if !blocks.is_empty() && self.t.chance(1, 4) {
                    for _ in 0..1 + self.t.upto(1) {
                        succs.push(*self.t.pick(&blocks));
                    }
                }
                self.next += 1;
                let tag = self.next;
                let mut bd = OperationDataBuilder::new(self.loc, b::sym("h"), b::sym("op")).operands(ops.clone()).results(res.clone()).attr("k", Attribute::Int(tag));
                for r in &regions {
                    bd = bd.region(*r);
                }
                for s in &succs {
                    bd = bd.successor(*s);
                }
                let data = bd.build(&mut self.ctx);
                let o = self.ctx.create_op(data);
                let rv = self.ctx.op_results(o).to_vec();
                for r in &regions {
                    self.m.regions.get_mut(r).unwrap().parent = Some(o);
                }
                self.log.push(format!("{o:?} = create_op operands {ops:?} results {} regions {regions:?}", res.len()));
                self.m.ops.insert(o, MOp { operands: ops, results: rv.into_iter().zip(res).collect(), parent: None, regions, succs, tag });
            }
            1 | 2 => {
                // attach a detached op
                let free: Vec<OpRef> = self.m.ops.iter().filter(|(_, o)| o.parent.is_none()).map(|x| *x.0).collect();
                if free.is_empty() {
                    return Ok(());
                }
                let o = *self.t.pick(&free);
                let Some(bl) = self.pick_block() else { return Ok(()) };
                if self.inside(bl, o) {
                    return Ok(());
                }
                let existing = self.m.blocks[&bl].ops.clone();
                if k == 1 || existing.is_empty() {
                    self.ctx.push_op(bl, o);
                    self.m.blocks.get_mut(&bl).unwrap().ops.push(o);
                    self.log.push(format!("push_op {bl:?} {o:?}"));
                } else {
                    let before = *self.t.pick(&existing);
                    self.ctx.insert_op_before(bl, before, o);
                    let v = &mut self.m.blocks.get_mut(&bl).unwrap().ops;
                    let p = v.iter().position(|x| *x == before).unwrap();
                    v.insert(p, o);
                    self.log.push(format!("insert_op_before {bl:?} {before:?} {o:?}"));
                }
                self.m.ops.get_mut(&o).unwrap().parent = Some(bl);
            }
            3 | 4 => {
                let Some(o) = self.pick_op() else { return Ok(()) };
                let p = self.m.ops[&o].parent;
                if k == 3 {
                    let Some(bl) = p else { return Ok(()) };
                    self.ctx.remove_op_from_block(bl, o);
                    self.log.push(format!("remove_op_from_block {bl:?} {o:?}"));
                } else {
                    self.ctx.detach_op(o);
                    self.log.push(format!("detach_op {o:?}"));
                }
                if let Some(bl) = p {
                    self.m.blocks.get_mut(&bl).unwrap().ops.retain(|x| *x != o);
                    self.m.ops.get_mut(&o).unwrap().parent = None;
                }
            }
            5 => {
                // remove / erase an op whose subtree's values are unused outside
                let Some(o) = self.pick_op() else { return Ok(()) };
                let mut sub = BTreeSet::new();
                self.subtree(o, &mut sub);
                let mut defs = BTreeSet::new();
                let mut blocks = vec![];
                let mut regions = vec![];
                for x in &sub {
                    defs.extend(self.m.ops[x].results.iter().map(|r| r.0));
                    for r in &self.m.ops[x].regions {
                        regions.push(*r);
                        for bl in &self.m.regions[r].blocks {
                            blocks.push(*bl);
                            defs.extend(self.m.blocks[bl].args.iter().map(|a| a.0));
                        }
                    }
                }
                let own: BTreeSet<ValueRef> = self.m.ops[&o].results.iter().map(|r| r.0).collect();
                if self.m.ops.iter().any(|(k, x)| (!sub.contains(k) && x.operands.iter().any(|v| defs.contains(v))) || x.operands.iter().any(|v| own.contains(v))) {
                    return Ok(());
                }
                if self.m.ops.iter().any(|(k, x)| !sub.contains(k) && x.succs.iter().any(|s| blocks.contains(s))) {
                    return Ok(());
                }
                if let Some(bl) = self.m.ops[&o].parent {
                    self.m.blocks.get_mut(&bl).unwrap().ops.retain(|x| *x != o);
                    if self.t.bool() {
                        rw::erase_op(&mut self.ctx, o);
                        self.log.push(format!("erase_op {o:?}"));
                    } else {
                        self.ctx.remove_op_from_block(bl, o);
                        self.ctx.remove_op(o);
                        self.log.push(format!("remove_op_from_block+remove_op {o:?}"));
                    }
                } else {
                    self.ctx.remove_op(o);
                    self.log.push(format!("remove_op {o:?}"));
                }
                for x in sub {
                    self.m.ops.remove(&x);
                }
                for x in blocks {
                    self.m.blocks.remove(&x);
                }
                for x in regions {
                    self.m.regions.remove(&x);
                }
            }
            6 => {
                let Some(o) = self.pick_op() else { return Ok(()) };
                let n = self.m.ops[&o].operands.len();
                if n == 0 {
                    return Ok(());
                }
                let i = self.t.idx(n);
                let vals = self.values();
                let v = *self.t.pick(&vals);
                self.ctx.set_op_operand(o, i as u32, v);
                self.m.ops.get_mut(&o).unwrap().operands[i] = v;
                self.log.push(format!("set_op_operand {o:?} {i} {v:?}"));
            }
            7 => {
                let Some(o) = self.pick_op() else { return Ok(()) };
                let vals = self.values();
                if vals.is_empty() {
                    return Ok(());
                }
                let v = *self.t.pick(&vals);
                self.ctx.push_op_operand(o, v);
                self.m.ops.get_mut(&o).unwrap().operands.push(v);
                self.log.push(format!("push_op_operand {o:?} {v:?}"));
            }
            8 => {
                let Some(o) = self.pick_op() else { return Ok(()) };
                let n = self.m.ops[&o].operands.len();
                if n == 0 {
                    return Ok(());
                }
                let i = self.t.idx(n);
                self.ctx.remove_op_operand(o, i as u32);
                self.m.ops.get_mut(&o).unwrap().operands.remove(i);
                self.log.push(format!("remove_op_operand {o:?} {i}"));
            }
            9 => {
                let Some(o) = self.pick_op() else { return Ok(()) };
                let n = self.m.ops[&o].results.len();
                if n == 0 {
                    return Ok(());
                }
                let i = self.t.idx(n);
                let ty = self.ty();
                self.ctx.set_op_result_type(o, i as u32, ty);
                self.m.ops.get_mut(&o).unwrap().results[i].1 = ty;
                self.log.push(format!("set_op_result_type {o:?} {i}"));
            }
            10 | 11 => {
                let Some(bl) = self.pick_block() else { return Ok(()) };
                let ty = self.ty();
                self.next += 1;
                let tag = self.next;
                let data = BlockArgData { ty, attrs: arg_attrs(tag) };
                if k == 10 {
                    let v = self.ctx.add_block_arg(bl, data);
                    self.m.blocks.get_mut(&bl).unwrap().args.push((v, ty, tag));
                    self.log.push(format!("{v:?} = add_block_arg {bl:?}"));
                } else {
                    let v = self.ctx.prepend_block_arg(bl, data);
                    self.m.blocks.get_mut(&bl).unwrap().args.insert(0, (v, ty, tag));
                    self.log.push(format!("{v:?} = prepend_block_arg {bl:?}"));
                }
            }
            12 => {
                let Some(bl) = self.pick_block() else { return Ok(()) };
                let n = self.m.blocks[&bl].args.len();
                if n == 0 {
                    return Ok(());
                }
                let i = self.t.idx(n);
                let ty = self.ty();
                self.ctx.set_block_arg_type(bl, i as u32, ty);
                self.m.blocks.get_mut(&bl).unwrap().args[i].1 = ty;
                self.log.push(format!("set_block_arg_type {bl:?} {i}"));
            }
            13 => {
                let vals = self.values();
                if vals.is_empty() {
                    return Ok(());
                }
                let a = *self.t.pick(&vals);
                let c = *self.t.pick(&vals);
                self.ctx.replace_all_uses(a, c);
                for o in self.m.ops.values_mut() {
                    for v in &mut o.operands {
                        if *v == a {
                            *v = c;
                        }
                    }
                }
                self.log.push(format!("replace_all_uses {a:?} {c:?}"));
            }
            14 => {
                let _ = self.new_block();
                self.log.push("create_block".into());
            }
            15 => {
                let free: Vec<BlockRef> = self.m.blocks.iter().filter(|(_, x)| x.parent.is_none()).map(|x| *x.0).collect();
                let mut bs = vec![];
                for x in free {
                    if self.t.bool() {
                        bs.push(x);
                    }
                }
                let r = self.new_region(bs.clone());
                self.log.push(format!("{r:?} = create_region {bs:?}"));
            }
            16 => {
                let Some(r) = self.pick_region() else { return Ok(()) };
                self.ctx.detach_region(r);
                if let Some(o) = self.m.regions.get_mut(&r).unwrap().parent.take() {
                    self.m.ops.get_mut(&o).unwrap().regions.retain(|x| *x != r);
                }
                self.log.push(format!("detach_region {r:?}"));
            }
            17 => {
                // split
                let c: Vec<BlockRef> = self.m.blocks.iter().filter(|(_, x)| x.parent.is_some() && !x.ops.is_empty()).map(|x| *x.0).collect();
                if c.is_empty() {
                    return Ok(());
                }
                let bl = *self.t.pick(&c);
                let ops = self.m.blocks[&bl].ops.clone();
                let i = self.t.idx(ops.len());
                let nb = rw::split_block(&mut self.ctx, bl, ops[i]);
                let tail = self.m.blocks.get_mut(&bl).unwrap().ops.split_off(i);
                for o in &tail {
                    self.m.ops.get_mut(o).unwrap().parent = Some(nb);
                }
                let r = self.m.blocks[&bl].parent.unwrap();
                self.m.blocks.insert(nb, MBlock { args: vec![], ops: tail, parent: Some(r) });
                let v = &mut self.m.regions.get_mut(&r).unwrap().blocks;
                let p = v.iter().position(|x| *x == bl).unwrap();
                v.insert(p + 1, nb);
                self.log.push(format!("{nb:?} = split_block {bl:?} {:?}", ops[i]));
            }
            18 => {
                // inline region blocks
                let (Some(a), Some(c)) = (self.pick_region(), self.pick_region()) else { return Ok(()) };
                // destination must not lie inside the source
                if a != c && self.m.regions[&a].blocks.iter().any(|x| {
                    let mut cur = Some(c);
                    while let Some(r) = cur {
                        let Some(o) = self.m.regions[&r].parent else { return false };
                        let Some(bl) = self.m.ops[&o].parent else { return false };
                        if bl == *x {
                            return true;
                        }
                        cur = self.m.blocks[&bl].parent;
                    }
                    false
                }) {
                    return Ok(());
                }
                let dst = self.m.regions[&c].blocks.clone();
                let before = if dst.is_empty() || self.t.bool() { None } else { Some(*self.t.pick(&dst)) };
                let moved = rw::inline_region_blocks(&mut self.ctx, a, c, before);
                self.log.push(format!("inline_region_blocks {a:?} -> {c:?} before {before:?}"));
                if a == c {
                    if !moved.is_empty() {
                        return Err("inline_region_blocks of a region into itself moved blocks".into());
                    }
                    return Ok(());
                }
                let src = std::mem::take(&mut self.m.regions.get_mut(&a).unwrap().blocks);
                if moved != src {
                    return Err(format!("inline_region_blocks returned {moved:?}, expected {src:?}"));
                }
                for x in &src {
                    self.m.blocks.get_mut(x).unwrap().parent = Some(c);
                }
                let v = &mut self.m.regions.get_mut(&c).unwrap().blocks;
                let p = before.map_or(v.len(), |x| v.iter().position(|y| *y == x).unwrap());
                v.splice(p..p, src);
            }
            19 => {
                let Some(o) = self.pick_op() else { return Ok(()) };
                let mut sub = BTreeSet::new();
                self.subtree(o, &mut sub);
                if self.m.ops.len() + sub.len() > 60 {
                    return Ok(());
                }
                // cloning is specified for well-scoped trees: an operand defined inside the tree is visible at its use
                if !self.well_scoped(&sub, o) {
                    return Ok(());
                }
                // optional seeded mapping of outside values
                let mut map = IrMapping::new();
                let mut vmap = HashMap::new();
                let mut bmap = HashMap::new();
                let vals = self.values();
                let inner: BTreeSet<ValueRef> = sub.iter().flat_map(|x| self.m.ops[x].results.iter().map(|r| r.0)).collect();
                for v in self.m.ops[&o].operands.clone() {
                    if !inner.contains(&v) && self.t.chance(1, 3) {
                        let to = *self.t.pick(&vals);
                        map.map_value(v, to);
                        vmap.insert(v, to);
                    }
                }
                let into = if self.t.bool() { self.pick_block().filter(|bl| !self.inside(*bl, o)) } else { None };
                let n = match into {
                    Some(bl) => self.ctx.clone_op_into_block(bl, o, &mut map),
                    None => self.ctx.clone_op(o, &mut map),
                };
                self.log.push(format!("{n:?} = clone_op {o:?} into {into:?}"));
                self.adopt(o, n, &mut vmap, &mut bmap)?;
                // nested regions may use values of later-laid-out blocks (and an op its own result)
                let regs: Vec<(RegionRef, RegionRef)> = self.m.ops[&o].regions.iter().copied().zip(self.m.ops[&n].regions.clone()).collect();
                let own: BTreeSet<ValueRef> = self.m.ops[&o].results.iter().map(|x| x.0).collect();
                let rvmap: HashMap<ValueRef, ValueRef> = vmap.iter().filter(|(k, _)| !own.contains(k)).map(|(a, c)| (*a, *c)).collect();
                for (a, c) in regs {
                    self.fix_forward_region(a, c, &rvmap);
                }
                // successors of the cloned op itself refer to blocks of its own regions only by accident
                if let Some(bl) = into {
                    self.m.ops.get_mut(&n).unwrap().parent = Some(bl);
                    self.m.blocks.get_mut(&bl).unwrap().ops.push(n);
                }
                for (a, c) in &vmap {
                    if map.lookup_value(*a) != Some(*c) {
                        return Err(format!("IrMapping has {a:?} -> {:?}, expected {c:?}", map.lookup_value(*a)));
                    }
                }
                for (a, c) in &bmap {
                    if map.lookup_block(*a) != Some(*c) {
                        return Err(format!("IrMapping has block {a:?} -> {:?}, expected {c:?}", map.lookup_block(*a)));
                    }
                }
            }
            _ => {
                // forbidden operations must panic and leave the IR unchanged
                let Some(o) = self.pick_op() else { return Ok(()) };
                let used = self.m.ops.values().any(|x| x.operands.iter().any(|v| self.m.ops[&o].results.iter().any(|r| r.0 == *v)));
                let Some(bl) = self.m.ops[&o].parent else {
                    if used {
                        let ctx = &mut self.ctx;
                        self.log.push(format!("remove_op {o:?} with live uses"));
                        if guard(|| ctx.remove_op(o)).is_ok() {
                            return Err("remove_op accepted an op whose results are still used".into());
                        }
                    }
                    return Ok(());
                };
                let ctx = &mut self.ctx;
                self.log.push(format!("remove_op/push_op of attached {o:?}"));
                if guard(|| ctx.remove_op(o)).is_ok() {
                    return Err("remove_op accepted an op that is still attached".into());
                }
                let ctx = &mut self.ctx;
                if guard(|| ctx.push_op(bl, o)).is_ok() {
                    return Err("push_op accepted an op that is already attached".into());
                }
                let ctx = &mut self.ctx;
                if guard(|| ctx.insert_op_before(bl, o, o)).is_ok() {
                    return Err("insert_op_before accepted an op that is already attached".into());
                }
            }
        }
        Ok(())
    }

    fn compare(&self) -> Result<(), String> {
        let c = &self.ctx;
        let mut uses: HashMap<ValueRef, Vec<(OpRef, u32)>> = HashMap::new();
        for (o, m) in &self.m.ops {
            let d = c.op(*o);
            if c.op_operands(*o) != m.operands {
                return Err(format!("operands of {o:?}: {:?}, model {:?}", c.op_operands(*o), m.operands));
            }
            if c.op_results(*o) != m.results.iter().map(|x| x.0).collect::<Vec<_>>() {
                return Err(format!("results of {o:?} differ"));
            }
            if c.op_result_types(*o) != m.results.iter().map(|x| x.1).collect::<Vec<_>>() {
                return Err(format!("result types of {o:?} differ"));
            }
            for (i, (v, t)) in m.results.iter().enumerate() {
                if c.value_def(*v) != ValueDef::OpResult(*o, i as u32) || c.value_ty(*v) != *t {
                    return Err(format!("value {v:?} of {o:?}: def {:?}", c.value_def(*v)));
                }
                if c.op_result(*o, i as u32) != *v {
                    return Err(format!("op_result({o:?},{i}) is not {v:?}"));
                }
            }
            if d.parent_block != m.parent {
                return Err(format!("parent_block of {o:?}: {:?}, model {:?}", d.parent_block, m.parent));
            }
            if d.regions.to_vec() != m.regions {
                return Err(format!("regions of {o:?}: {:?}, model {:?}", d.regions, m.regions));
            }
            if d.successors.to_vec() != m.succs {
                return Err(format!("successors of {o:?}: {:?}, model {:?}", d.successors, m.succs));
            }
            if d.attributes.get("k") != Some(&Attribute::Int(m.tag)) {
                return Err(format!("attributes of {o:?} differ"));
            }
            for (i, v) in m.operands.iter().enumerate() {
                uses.entry(*v).or_default().push((*o, i as u32));
            }
        }
        for (bl, m) in &self.m.blocks {
            let d = c.block(*bl);
            if d.ops.to_vec() != m.ops {
                return Err(format!("ops of {bl:?}: {:?}, model {:?}", d.ops, m.ops));
            }
            if d.parent_region != m.parent {
                return Err(format!("parent_region of {bl:?}: {:?}, model {:?}", d.parent_region, m.parent));
            }
            if c.block_args(*bl) != m.args.iter().map(|x| x.0).collect::<Vec<_>>() || d.args.len() != m.args.len() {
                return Err(format!("args of {bl:?} differ"));
            }
            for (i, (v, t, k)) in m.args.iter().enumerate() {
                if c.value_def(*v) != ValueDef::BlockArg(*bl, i as u32) || c.value_ty(*v) != *t || c.block_arg(*bl, i as u32) != *v {
                    return Err(format!("block argument {i} of {bl:?}: value {v:?} def {:?}", c.value_def(*v)));
                }
                if d.args[i].ty != *t || d.args[i].attrs != arg_attrs(*k) {
                    return Err(format!("block argument {i} of {bl:?}: data differs"));
                }
            }
        }
        for (r, m) in &self.m.regions {
            let d = c.region(*r);
            if d.blocks.to_vec() != m.blocks || d.parent_op != m.parent {
                return Err(format!("region {r:?}: blocks {:?} parent {:?}, model {:?} {:?}", d.blocks, d.parent_op, m.blocks, m.parent));
            }
        }
        for v in self.values() {
            let mut want = uses.remove(&v).unwrap_or_default();
            let mut got: Vec<(OpRef, u32)> = c.uses(v).iter().map(|u| (u.user, u.operand_index)).collect();
            want.sort();
            got.sort();
            if want != got || c.has_uses(v) == want.is_empty() {
                return Err(format!("use list of {v:?}: {got:?}, model {want:?}"));
            }
        }
        Ok(())
    }
}

fn history(t: &mut Tape) -> CaseResult {
    let mut ctx = IrContext::new();
    let tys = vec![b::core(&mut ctx, "i32"), b::core(&mut ctx, "i64"), b::core(&mut ctx, "f64")];
    let loc = b::loc(&mut ctx);
    let n = 4 + t.upto(60);
    let mut h = H { t, ctx, m: Model::default(), tys, loc, next: 0, log: vec![] };
    let bl = h.new_block();
    h.new_region(vec![bl]);
    for _ in 0..n {
        note(&h.log.join("\n"));
        match h.step() {
            Ok(()) => {}
            Err(e) if e == "skip" => break,
            Err(e) => return fail(format!("IR arena inconsistent| {e}"), h.log.join("\n")),
        }
        if let Err(e) = h.compare() {
            return fail(format!("IR arena inconsistent| after `{}`: {e}", h.log.last().cloned().unwrap_or_default()), h.log.join("\n"));
        }
    }
    let s = h.log.join("\n");
    let kinds: BTreeSet<&str> = h.log.iter().map(|l| l.split_whitespace().find(|w| w.contains('_')).unwrap_or("")).collect();
    Ok(Case { nontrivial: kinds.len() >= 6, key: hash_str(&s), render: s.clone(), tags: vec![] })
}

pub fn props() -> Vec<Property> {
    vec![Property { id: "C03", lanes: vec![Lane { name: "history", rule: "random history of 4-64 arena mutations using at least six kinds; full model comparison after every step", quick: 300000, thorough: 10000000, threads: 0, run: history }], assumptions: vec!["mutations are used within their documented preconditions (no op inside itself, erased values unused outside the erased op)"], sweeps: vec![] }]
}
