use super::c03::bad_range;
use super::c07::{check_ref, Held};
use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::range::{EndBound, StartBound};
use sherman::RleTree;

// 2 = insertion past the end, 3 = insertion of a non-positive size, 4 = lookup out of bounds,
// 5 = invalid range, 6 = invalid construction, 7 = insertion while a borrow is held,
// 8 = calls on the very edge of what is allowed, 9 = make a reference / a clone
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut cfg = gen_cfg(r);
    cfg.push(r.u32() % 1000);
    let mut ops = gen_mixed(r, tier, 8, &[3, 3, 3, 2, 1, 2, 3, 2]);
    if r.chance(1, 12) {
        // an empty tree
        ops.retain(|o| !matches!(o[0], OP_INSERT | OP_FILL | 8));
    }
    let case = Case { cfg, ops };
    widen(r, tier, 60, case)
}

/// Everything that can be seen of a tree
#[derive(PartialEq, Debug)]
struct Snap {
    toks: Vec<u32>,
    paths: Vec<Vec<u8>>,
}
fn snap<I: HIdx>(p: &Pair<I>, full: bool) -> Snap {
    if !full {
        return Snap { toks: vec![], paths: vec![] };
    }
    Snap {
        toks: p.t.entries().iter().map(|e| e.tok).collect(),
        paths: all_paths(&*p.t, &p.m),
    }
}

fn construct<const M: usize>(k: u32, v: Val<CIdx>, size: CIdx) -> Res {
    let ok = guarded(|| {
        let s = || Sl::<CIdx, true>::new(v.clone());
        match k % 6 {
            0 => drop(RleTree::<CIdx, Sl<CIdx, true>, NoFeatures, M>::new_empty()),
            1 => drop(RleTree::<CIdx, Sl<CIdx, true>, AllowCow, M>::new_empty()),
            2 => drop(RleTree::<CIdx, Sl<CIdx, true>, AllowSliceRefs, M>::new_empty()),
            3 => drop(RleTree::<CIdx, Sl<CIdx, true>, NoFeatures, M>::new(s(), size)),
            4 => drop(RleTree::<CIdx, Sl<CIdx, true>, AllowCow, M>::new(s(), size)),
            _ => drop(RleTree::<CIdx, Sl<CIdx, true>, AllowSliceRefs, M>::new(s(), size)),
        }
    });
    let allowed = (1..=127).contains(&M);
    ensure!(
        ok.is_ok() == allowed,
        "creating a tree with minimum node size {M} ({}) gave {ok:?}",
        if k % 6 < 3 { "empty" } else { "with a value" }
    );
    Ok(())
}

fn go<I: HIdx>(mk: fn(Inst) -> Box<dyn DynTree<I>>, inst: Inst, c: &Case, ctx: &mut Ctx) -> Res {
    ctx.t(|| format!("{inst:?}"));
    let mut p = Pair::<I>::new(mk(inst));
    let mut held: Vec<Held<I>> = vec![];
    let mut twins: Vec<Pair<I>> = vec![];
    let mut refused = 0u32;
    for (step, op) in c.ops.iter().enumerate() {
        let n = p.m.len();
        let what = format!("operation {step}");
        if op[0] < 2 {
            apply(&mut p, op, c, ctx);
            continue;
        }
        let full = due(step, n);
        let before = snap(&p, full);
        let alive = ledger_alive();
        let size = I::gen_size(op[3], c.cfg(2));
        let hint = make_hint(&*p.t, &p.m, &[], op[5], op[4]);
        // what is inserted would often join, to make a half-done operation visible
        let mut ins = |p: &mut Pair<I>, idx: I, size: I, why: &str| -> Res {
            let val = make_val(&p.m, c.cfg(1), p.m.size(), size, op[4]);
            ctx.t(|| format!("refused insertion ({why}): size {size:?} at {idx:?} into size {:?}", p.m.size()));
            let how = op[5] / 16 % 4;
            let h = hint.clone();
            let r = guarded(|| match (how, h) {
                (0, _) | (1, None) => p.t.insert(idx, val, size),
                (1, Some(h)) => drop(p.t.insert_hint(idx, val, size, h)),
                (2, h) if inst.p == P::Ref => drop(p.t.insert_ref(idx, val, size, h)),
                _ => drop(p.t.insert_bounded(idx, val, size, None, 8)),
            });
            ensure!(r.is_err(), "{what}: insertion ({why}) of size {size:?} at {idx:?} into a tree of size {:?} was accepted", p.m.size());
            ctx.c("refused insertions");
            Ok(())
        };
        match op[0] {
            2 => {
                let at = p.m.size().past(op[2]);
                ins(&mut p, at, size, "past the end")?
            }
            3 => {
                let at = resolve_pos(&p.m, op[1], op[2], p.last);
                let neg = I::below_zero(op[3]).filter(|_| op[3] % 3 != 0).unwrap_or(I::ZERO);
                ins(&mut p, at, neg, "non-positive size")?
            }
            4 => {
                let z = p.m.size();
                let idx = match (op[1] % 3, I::below_zero(op[2])) {
                    (0, _) => z,
                    (1, Some(x)) => x,
                    _ => z.past(op[2]),
                };
                ctx.t(|| format!("refused lookup at {idx:?} in size {z:?}"));
                let h2 = hint.clone();
                let rs = [
                    ("get", guarded(|| drop(p.t.get(idx, None))).is_ok()),
                    ("get_with_cursor", guarded(|| drop(p.t.get(idx, h2))).is_ok()),
                    ("cursor_to", guarded(|| drop(p.t.cursor_to(idx))).is_ok()),
                    ("cursor_to (bounded)", guarded(|| drop(p.t.cursor_bounded(idx, 8))).is_ok()),
                ];
                for (w, ok) in rs {
                    ensure!(!ok, "{what}: {w}({idx:?}) was accepted by a tree of size {z:?}");
                }
                ctx.c("refused lookups");
            }
            5 => {
                let r = bad_range(&p.m, op[1], op[2]);
                ctx.t(|| format!("refused range {r:?}"));
                let a = guarded(|| drop(p.t.iter_script(r, hint, &[op[3] % 2 == 0])));
                ensure!(a.is_err(), "{what}: iterating {r:?} over a tree of size {:?} was accepted", p.m.size());
                // refused by the call itself, not by the first step
                let a = guarded(|| drop(p.t.iter_script(r, None, &[])));
                ensure!(a.is_err(), "{what}: creating an iterator over {r:?} for a tree of size {:?} was accepted", p.m.size());
                ctx.c("refused ranges");
            }
            6 => {
                let v = Val::L((op[3] % 5) as u8);
                let s = CIdx(1 + op[2] as u64);
                match op[1] % 8 {
                    0 => construct::<0>(op[2], v, s)?,
                    1 => construct::<128>(op[2], v, s)?,
                    2 => construct::<1>(op[2], v, s)?,
                    3 => construct::<127>(op[2], v, s)?,
                    4 => construct::<200>(op[2], v, s)?,
                    _ => {
                        let neg = I::below_zero(op[3]).filter(|_| op[3] % 2 != 0).unwrap_or(I::ZERO);
                        let val = make_val(&p.m, c.cfg(1), p.m.size(), size, op[4]);
                        let r = guarded(|| drop(p.t.fresh_with(val.clone(), neg)));
                        ensure!(r.is_err(), "{what}: a tree with an initial size of {neg:?} was created");
                        let t = guarded(|| p.t.fresh_with(val.clone(), size))
                            .map_err(|e| format!("{what}: creating a tree of size {size:?} was refused: {e}"))?;
                        let mut m = crate::model::Model::new(inst.j);
                        m.insert(I::ZERO, val, size);
                        check_full(&*t, &m, &format!("{what}: a new tree"))?;
                    }
                }
                ctx.c("constructions");
            }
            7 if !held.is_empty() => {
                let k = op[1] as usize % held.len();
                let id = held[k].id;
                let mut b = held[k].r.borrow();
                if op[2] % 3 == 0 {
                    b = b.mapped();
                }
                let at = resolve_pos(&p.m, op[1], op[2], p.last);
                ins(&mut p, at, size, "while a borrow is held")?;
                let i = p.m.find_id(id).ok_or("internal: run id lost")?;
                ensure!(b.val().same(&p.m.runs[i].val), "{what}: the borrow changed to {:?}", b.val());
                drop(b);
                ctx.c("insertions refused because of a borrow");
            }
            8 => {
                // must be accepted
                ctx.c("boundary calls accepted");
                if n > 0 {
                    let last = p.m.start(n - 1);
                    let r = guarded(|| {
                        p.t.get(I::ZERO, None);
                        p.t.get(last, None);
                        p.t.cursor_to(I::ZERO);
                        p.t.cursor_to(last);
                    });
                    ensure!(r.is_ok(), "{what}: lookup inside the tree was refused: {r:?}");
                    let z = p.m.size();
                    let inner = resolve_idx(&p.m, 3, n as u32 - 1);
                    for (r, o) in [
                        ((StartBound::Included(inner), EndBound::Unbounded), n - 1..n),
                        ((StartBound::Included(inner), EndBound::Included(inner)), n - 1..n),
                        ((StartBound::Included(I::ZERO), EndBound::Excluded(z)), 0..n),
                        ((StartBound::Unbounded, EndBound::Excluded(z)), 0..n),
                        ((StartBound::Unbounded, EndBound::Excluded(I::ZERO)), 0..0),
                    ] {
                        let g = guarded(|| p.t.iter_script(r, None, &[op[1] % 2 == 0]))
                            .map_err(|e| format!("{what}: iterating {r:?} over a tree of size {z:?} was refused: {e}"))?;
                        let i = if op[1] % 2 == 0 { o.start } else { o.end.max(1) - 1 };
                        match &g[0] {
                            None => ensure!(o.is_empty(), "{what}: iterating {r:?} yielded nothing"),
                            Some(e) => {
                                ensure!(!o.is_empty(), "{what}: iterating {r:?} yielded {e:?}");
                                check_ent(e, &p.m, i, &what)?
                            }
                        }
                    }
                } else {
                    for r in [(StartBound::Unbounded, EndBound::Unbounded), (StartBound::Unbounded, EndBound::Excluded(I::ZERO))] {
                        let g = guarded(|| p.t.iter_script(r, None, &[true, false]))
                            .map_err(|e| format!("{what}: iterating {r:?} over an empty tree was refused: {e}"))?;
                        ensure!(g.iter().all(|x| x.is_none()), "{what}: an empty tree yielded something");
                    }
                }
                // at exactly the end, or at zero
                let e = [0, 1 - op[1] / 2 % 2, op[2], op[3], op[4], 0];
                let i = decode_insert(&p.m, &e, c.cfg(1), c.cfg(2), p.last, ctx);
                let r = guarded(|| p.t.insert(i.idx, i.val.clone(), i.size));
                ensure!(r.is_ok(), "{what}: insertion at {:?} into a tree of size {:?} was refused: {r:?}", i.idx, p.m.size());
                p.m.insert(i.idx, i.val, i.size);
                check_full(&*p.t, &p.m, &format!("{what}: after an insertion at the edge"))?;
                continue;
            }
            _ => {
                if n > 0 && inst.p == P::Ref && held.len() < 12 {
                    let idx = resolve_idx(&p.m, op[1], op[2]);
                    let i = p.m.find(idx);
                    held.push(Held { r: p.t.make_ref(idx).ok_or("no reference")?, id: p.m.runs[i].id, moves: 0, at: i });
                } else if n < 200 && twins.len() < 3 {
                    if let Some(mut q) = p.dup() {
                        if op[1] % 2 == 0 {
                            std::mem::swap(&mut p, &mut q);
                        }
                        twins.push(q);
                    }
                }
                continue;
            }
        }
        refused += 1;
        ensure!(ledger_alive() == alive, "{what}: a refused call left {} values alive instead of {alive}", ledger_alive());
        if full {
            let now = snap(&p, true);
            ensure!(now == before, "{what}: a refused call changed the tree from {before:?} to {now:?}");
            check_full(&*p.t, &p.m, &format!("{what}: after a refused call"))?;
            p.t.validate();
            for (k, q) in twins.iter().enumerate() {
                check_full(&*q.t, &q.m, &format!("{what}: clone {k} after a refused call"))?;
            }
        }
        for (k, h) in held.iter().enumerate() {
            check_ref(h, &p, &format!("{what}: reference {k} after a refused call"), full)?;
        }
    }
    // fully usable
    for k in 0..4u32 {
        let op = [0, c.cfg(3) + k, c.cfg(3) * 7 + 3 * k, c.cfg(3) / 3, k, 0];
        let i = decode_insert(&p.m, &op, c.cfg(1), c.cfg(2), p.last, ctx);
        p.insert(i, ctx);
    }
    check_full(&*p.t, &p.m, "at the end")?;
    for h in &held {
        check_ref(h, &p, "at the end", true)?;
    }
    p.t.validate();
    for q in &twins {
        check_full(&*q.t, &q.m, "a clone, at the end")?;
    }
    ctx.nontrivial = refused > 0 && height(&*p.t, &p.m) >= 1;
    drop(held);
    drop(p);
    drop(twins);
    ensure!(ledger_alive() == 0, "{} values alive at the end", ledger_alive());
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    if c.cfg(3) % 4 == 3 {
        go::<Heis>(mk_heis, Inst { m: MS_HEIS[c.cfg(0) as usize / 3 % 3], j: true, ..inst }, c, ctx)
    } else {
        go::<CIdx>(mk, inst, c, ctx)
    }
}

pub const PROP: PropDef = PropDef {
    id: "C19",
    gen,
    run,
    quick: 100_000,
    thorough: 2_500_000,
    rule: "random histories interleaved with every kind of documented invalid call (all insertion forms past the end, with a non-positive size or while borrowed; lookups and cursor requests out of bounds, also negative; invalid ranges; non-positive initial sizes; node sizes 0, 128 and 200) and with calls exactly at the allowed edge; each refused call must panic and leave contents, value identities, node paths, references, clones and the drop ledger unchanged; non-trivial = a refused call on a tree which has several nodes at the end",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 400_000_000,
};
