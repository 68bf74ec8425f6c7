use super::common::*;
use crate::alloc;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use sherman::range::{EndBound, StartBound};
use std::collections::HashSet;

// 2 = clone, 3 = drop a tree, 4 = make a reference, 5 = copy a reference, 6 = drop a reference,
// 7 = borrow, 8 = end a borrow, 9 = abandoned iteration, 10 = refused insertion, 11 = serialize and
// replace by the deserialized tree, 12 = malformed input, 13 = insertion returning a reference,
// 14 = another tree is dropped by a callback of an insertion
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let case = Case { cfg: gen_cfg(r), ops: gen_mixed(r, tier, 16, &[3, 2, 2, 2, 2, 1, 2, 1, 2, 1, 1, 3, 2]) };
    widen(r, tier, 60, case)
}

struct World {
    inst: Inst,
    ts: Vec<Pair<CIdx>>,
    /// runs of a dropped tree still readable through borrows
    zombies: usize,
    refs: Vec<Box<dyn DynRef<CIdx>>>,
    borrows: Vec<Box<dyn DynBorrow<CIdx>>>,
}

impl World {
    fn expected(&self) -> usize {
        match self.inst.p {
            P::Cow => {
                self.ts.iter().flat_map(|x| x.t.entries()).map(|e| e.tok).collect::<HashSet<_>>().len()
            }
            _ => self.ts.iter().map(|x| x.m.len()).sum::<usize>() + self.zombies,
        }
    }
}

fn body(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    ctx.t(|| format!("{inst:?}"));
    let mut w = World { inst, ts: vec![Pair::<CIdx>::new(mk(inst))], zombies: 0, refs: vec![], borrows: vec![] };
    let mut features = 0u32;
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("after operation {step}");
        let n = w.ts.len();
        let k = op[5] as usize % n.max(1);
        let have = n > 0;
        match op[0] {
            OP_FILL | OP_INSERT | 13 if have => {
                let borrowed = !w.borrows.is_empty();
                let x = &mut w.ts[k];
                if op[0] == OP_FILL {
                    if borrowed || (n > 2 && x.m.len() > 300) {
                        continue;
                    }
                    apply(x, op, c, ctx);
                    continue;
                }
                let i = decode_insert(&x.m, op, c.cfg(1), c.cfg(2), x.last, ctx);
                ctx.t(|| format!("insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
                if borrowed {
                    // refused; the value must be dropped all the same
                    let t = &mut x.t;
                    ensure!(guarded(|| t.insert(i.idx, i.val, i.size)).is_err(), "{what}: insertion accepted during a borrow");
                    features |= 1;
                } else {
                    if op[0] == 13 && inst.p == P::Ref {
                        let r = x.t.insert_ref(i.idx, i.val.clone(), i.size, None).unwrap().1;
                        if w.refs.len() < 30 {
                            w.refs.push(r);
                        }
                    } else {
                        x.t.insert(i.idx, i.val.clone(), i.size);
                    }
                    let e = x.m.insert(i.idx, i.val, i.size);
                    x.note(&e, ctx);
                    if e.join_left || e.join_right {
                        features |= 2;
                    }
                    if e.split.is_some() {
                        features |= 4;
                    }
                }
            }
            14 if n > 1 && w.borrows.is_empty() => {
                let j = (k + 1 + op[5] as usize / 8 % (n - 1)) % n;
                let i = decode_insert(&w.ts[k].m, op, c.cfg(1), c.cfg(2), w.ts[k].last, ctx);
                let at = op[3] % 12;
                ctx.t(|| format!("insert {:?} (size {:?}) at {:?} into tree {k}, dropping tree {j} in callback {at}", i.val, i.size, i.idx));
                let mut x = w.ts.remove(k);
                let y = w.ts.remove(if j > k { j - 1 } else { j });
                set_poke(at, Box::new(move || drop(y)));
                x.insert(i, ctx);
                if clear_poke() {
                    ctx.c("trees dropped from inside an insertion into another");
                    features |= 512;
                }
                w.ts.push(x);
            }
            2 if have && n < 5 => {
                if let Some(d) = w.ts[k].dup() {
                    ctx.t(|| format!("clone tree {k}/{n}"));
                    w.ts.push(d);
                    features |= 8;
                }
            }
            3 if have && (n > 1 || op[2] % 4 == 0) => {
                ctx.t(|| format!("drop tree {k}/{n}"));
                let x = w.ts.swap_remove(k);
                if !w.borrows.is_empty() {
                    w.zombies = x.m.len();
                    features |= 16;
                }
                drop(x);
                if w.ts.is_empty() && w.inst.p != P::Ref {
                    w.ts.push(Pair::new(mk(inst)));
                }
            }
            4 if have && w.ts[k].m.len() > 0 && w.refs.len() < 30 => {
                let x = &w.ts[k];
                let idx = resolve_idx(&x.m, op[1], op[2]);
                ctx.t(|| format!("make_ref at {idx:?}"));
                if let Some(r) = x.t.make_ref(idx) {
                    w.refs.push(r);
                    features |= 32;
                }
            }
            5 if !w.refs.is_empty() && w.refs.len() < 30 => {
                let d = w.refs[op[2] as usize % w.refs.len()].dup();
                w.refs.push(d);
            }
            6 if !w.refs.is_empty() => {
                let i = op[2] as usize % w.refs.len();
                ctx.t(|| format!("drop reference {i}"));
                w.refs.swap_remove(i);
            }
            7 if !w.refs.is_empty() && w.borrows.len() < 5 => {
                let i = op[2] as usize % w.refs.len();
                if let Some(b) = w.refs[i].try_borrow() {
                    ctx.t(|| format!("borrow through reference {i}"));
                    w.borrows.push(if op[3] % 3 == 0 { b.mapped() } else { b });
                }
            }
            8 if !w.borrows.is_empty() => {
                let i = op[2] as usize % w.borrows.len();
                ctx.t(|| format!("end borrow {i}"));
                w.borrows[i].val();
                w.borrows.swap_remove(i);
                if w.borrows.is_empty() {
                    w.zombies = 0;
                }
            }
            9 if have => {
                let script: Vec<bool> = (0..op[1] % 9).map(|b| op[2] >> b & 1 == 1).collect();
                let x = &w.ts[k];
                x.t.iter_script((StartBound::Unbounded, EndBound::Unbounded), None, &script);
            }
            10 if have => {
                let x = &mut w.ts[k];
                let (idx, size) = match op[1] % 2 {
                    0 => (x.m.size().past(op[2]), CIdx::gen_size(op[3], 1)),
                    _ => (resolve_pos(&x.m, op[1] / 2, op[2], 0), CIdx(0)),
                };
                let v = make_val(&x.m, 0, CIdx(0), CIdx(1), op[4]);
                let t = &mut x.t;
                let r = match op[4] % 3 {
                    0 => guarded(|| drop(t.insert_hint(idx, v, size, VC::default()))),
                    1 if inst.p == P::Ref => guarded(|| drop(t.insert_ref(idx, v, size, None))),
                    _ => guarded(|| t.insert(idx, v, size)),
                };
                ensure!(r.is_err(), "{what}: insertion at {idx:?} of size {size:?} was accepted");
                features |= 64;
            }
            11 if have && w.borrows.is_empty() && inst.p != P::Ref => {
                let x = &mut w.ts[k];
                if c.cfg(1) != 4 {
                    let s = x.t.to_json()?;
                    let d = x.t.de(0, &s)?;
                    if d.nslices() == x.m.len() {
                        x.t = d;
                    }
                    features |= 128;
                }
            }
            12 if have => {
                let x = &w.ts[k];
                if x.m.len() > 200 {
                    continue;
                }
                let mut s = x.t.to_json()?;
                // cut somewhere, or append an invalid element
                if op[1] % 2 == 0 {
                    s.truncate(op[2] as usize % s.len());
                } else {
                    s.pop();
                    s.push_str(if s.len() > 1 { ",[1]]" } else { "[1]]" });
                }
                ensure!(x.t.de(0, &s).is_err(), "{what}: malformed input {s:?} was accepted");
                features |= 256;
            }
            _ => {}
        }
        if inst.p == P::Cow || due(step, w.ts.iter().map(|x| x.m.len()).sum()) {
            let want = w.expected();
            ensure!(ledger_alive() == want, "{what}: {} values alive, {want} reachable", ledger_alive());
        }
        for b in &w.borrows {
            b.val();
        }
    }
    let want = w.expected();
    ensure!(ledger_alive() == want, "at the end: {} values alive, {want} reachable", ledger_alive());
    // tear down in an order chosen by the case
    let World { ts, refs, borrows, .. } = w;
    match c.cfg(3) % 4 {
        0 => drop((ts, refs, borrows)),
        1 => {
            drop(borrows);
            drop(refs);
            drop(ts)
        }
        2 => {
            drop(refs);
            drop(ts);
            drop(borrows)
        }
        _ => {
            drop(ts);
            drop(borrows);
            drop(refs)
        }
    }
    ensure!(ledger_alive() == 0, "{} values alive after everything was dropped", ledger_alive());
    ctx.nontrivial = ledger_total() > 4 && features.count_ones() >= 2;
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let mut c = c.clone();
    // teardown order
    c.cfg.resize(3, 0);
    c.cfg.push(c.hash() as u32 % 4);
    let before = alloc::outstanding();
    body(&c, ctx)?;
    let leaked = alloc::outstanding() - before;
    if leaked == (0, 0).into() {
        return Ok(());
    }
    // caches of the harness (ledger, counters, trace, thread-locals) grow on the first run only
    let mut quiet = Ctx::default();
    body(&c, &mut quiet)?;
    let mut best = None;
    for _ in 0..2 {
        let mut quiet = Ctx::default();
        ledger_reset();
        let b = alloc::outstanding();
        body(&c, &mut quiet)?;
        drop(quiet);
        let l = alloc::outstanding() - b;
        if l == (0, 0).into() {
            return Ok(());
        }
        best = Some(l);
    }
    let l = best.unwrap();
    Err(format!("{} bytes in {} allocations are left over after everything was dropped", l.bytes, l.blocks))
}


pub const PROP: PropDef = PropDef {
    id: "C12",
    gen,
    run,
    quick: 50_000,
    thorough: 3_000_000,
    rule: "random histories over every feature parameter: insertions, refused insertions, deep and shallow clones, references, borrows (also outliving the tree), abandoned iterations, valid and malformed deserialization; a ledger records creation and drop of every value and is compared with the reachable values after the operations, and a counting allocator must return to its starting point; non-trivial = at least two of those features took part",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)", "memory is measured per thread by a counting global allocator"],
    probes: &[],
    fuel: 400_000_000,
};
