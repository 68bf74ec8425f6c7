use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;

// 2 = lookup, 3 = cursor, 4 = hinted lookup, 5 = reference queries, 6 = clone and write, 7 = hinted
// insertion, 8 = short iteration
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut ops = gen_mixed(r, tier, 6, &[4, 2, 3, 2, 3, 2, 1]);
    if tier != Tier::Mini {
        // large trees
        let n = 20u64 << r.below(if tier == Tier::Thorough { 7 } else { 6 });
        let f = gen_fill(r, n);
        ops.insert(0, f);
    }
    Case { cfg: gen_cfg(r), ops }
}

fn ops_done() -> u64 {
    count(Cb::Arith) + count(Cb::Cmp)
}

/// Index operations allowed for one descent of a tree of height `h`; about twice what is used
fn bound(h: usize, m: usize) -> u64 {
    (h as u64 + 1) * (4 * m as u64 + 14) + 24
}
/// ... for an insertion, which comes back up as well, and is two insertions if it splits a run
fn bound_insert(h: usize, m: usize) -> u64 {
    (h as u64 + 2) * (4 * m as u64 + 30)
}
/// ... with an exact hint: no search inside the nodes on the way down
fn bound_hinted(h: usize, m: usize) -> u64 {
    h as u64 * 7 + 2 * m as u64 + 24
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let m = inst.m;
    let (mut measured, mut shared_writes) = (0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        let n = p.m.len();
        let h = height(&*p.t, &p.m);
        if n > 0 {
            let least = 2 * (m as u128 + 1).pow(h as u32) - 1;
            ensure!(n as u128 >= least, "operation {step}: height {h} with {n} runs and minimum {m}");
        }
        let x0 = ops_done();
        let lim = bound(h, m);
        let spent = |what: &str, lim: u64| -> Res {
            let x = ops_done() - x0;
            ensure!(x <= lim, "operation {step}: {what} on {n} runs (height {h}, M = {m}) used {x} index operations, more than {lim}");
            Ok(())
        };
        match op[0] {
            OP_FILL => {
                for k in 0..op[1] {
                    let i = fill_step(&p.m, op, k, c.cfg(2), p.last);
                    p.insert(i, ctx);
                }
                if n == 0 && op[1] > 0 {
                    // n insertions: each within the bound for the final height (plus one level)
                    let h = height(&*p.t, &p.m);
                    spent("a fill", op[1] as u64 * bound_insert(h + 1, m))?;
                }
            }
            OP_INSERT => {
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                ctx.t(|| format!("insert at {:?} into {n} runs", i.idx));
                let x0 = ops_done();
                p.t.insert(i.idx, i.val.clone(), i.size);
                let x = ops_done() - x0;
                ctx.max("max index operations per level of an insertion", x / (h as u64 + 1) / m as u64);
                p.m.insert(i.idx, i.val, i.size);
                spent("an insertion", bound_insert(h, m))?;
            }
            7 => {
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                let hint = make_hint(&*p.t, &p.m, &[], op[5], op[4]).unwrap_or_default();
                let x0 = ops_done();
                p.t.insert_hint(i.idx, i.val.clone(), i.size, hint);
                let x = ops_done() - x0;
                p.m.insert(i.idx, i.val, i.size);
                let lim = bound_insert(h, m) + 8 * (h as u64 + 2);
                ensure!(x <= lim, "operation {step}: a hinted insertion into {n} runs (height {h}, M = {m}) used {x} index operations, more than {lim}");
            }
            _ if n == 0 => continue,
            2 | 3 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let x0 = ops_done();
                if op[0] == 2 {
                    p.t.get_raw(idx, None);
                    spent("a lookup", lim)?;
                    ctx.max("max index operations per level of a lookup", (ops_done() - x0) / (h as u64 + 1) / m as u64);
                    let e0 = ops_done();
                    p.t.get(idx, None);
                    let x = ops_done() - e0;
                    ensure!(x <= 2 * lim, "operation {step}: a lookup with range, size and cursor used {x} index operations");
                } else {
                    p.t.cursor_to(idx);
                    spent("a cursor request", lim)?;
                }
                ensure!(count(Cb::Clone) == 0 || inst.p == P::Cow, "operation {step}: a lookup cloned values");
                measured += 1;
            }
            4 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let hint = p.t.cursor_to(idx);
                let depth = hint.rev.len();
                let a = ops_done();
                p.t.get_raw(idx, None);
                let b = ops_done();
                p.t.get_raw(idx, Some(hint));
                let d = ops_done();
                let (plain, hinted) = (b - a, d - b);
                ctx.add("index operations of lookups without hint", plain);
                ctx.add("index operations of the same lookups with an exact hint", hinted);
                // the node holding the run is searched in both cases
                let lim = bound_hinted(depth, m);
                ensure!(
                    hinted <= lim,
                    "operation {step}: a lookup with an exact hint on {n} runs (depth {depth}, M = {m}) used {hinted} index operations, more than {lim} (without hint {plain})"
                );
                measured += 1;
            }
            5 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                if let Some(r) = p.t.make_ref(idx) {
                    let a = ops_done();
                    r.range();
                    let b = ops_done();
                    ensure!(b - a <= lim, "operation {step}: a reference's range on {n} runs (height {h}, M = {m}) used {} index operations", b - a);
                    r.path();
                    r.is_valid();
                    r.try_borrow();
                    ensure!(ops_done() - b <= lim, "operation {step}: reference queries on {n} runs used {} index operations", ops_done() - b);
                    measured += 1;
                }
            }
            8 => {
                let (r, o) = make_range(&p.m, op[1], op[2], op[3]);
                let k = o.len().min(3);
                let a = ops_done();
                let script: Vec<bool> = (0..k).map(|i| op[4] >> i & 1 == 1).collect();
                p.t.iter_script(r, None, &script);
                let x = ops_done() - a;
                let lim = (3 + k as u64) * 2 * lim;
                ensure!(x <= lim, "operation {step}: {k} iteration steps on {n} runs (height {h}, M = {m}) used {x} index operations, more than {lim}");
            }
            _ => {
                if inst.p != P::Cow {
                    continue;
                }
                let before = p.t.entries();
                let (cl, ix) = (count(Cb::Clone), ops_done());
                let d = p.dup().unwrap();
                ensure!(count(Cb::Clone) == cl, "operation {step}: a shallow clone cloned {} values", count(Cb::Clone) - cl);
                ensure!(ops_done() - ix <= 4, "operation {step}: a shallow clone used {} index operations", ops_done() - ix);
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                // nodes on the way to the runs next to the insertion point
                let at = p.m.find(i.idx);
                let mut near: Vec<Vec<u8>> = vec![];
                for j in [at.checked_sub(1), Some(at), Some(at + 1)].into_iter().flatten() {
                    if j < n {
                        near.push(p.t.cursor_to(p.m.start(j)).path());
                    }
                }
                let cl = count(Cb::Clone);
                p.t.insert(i.idx, i.val.clone(), i.size);
                let cloned = count(Cb::Clone) - cl;
                p.m.insert(i.idx, i.val, i.size);
                let after: std::collections::HashSet<u32> = p.t.entries().iter().map(|e| e.tok).collect();
                let mut replaced = 0;
                for (j, e) in before.iter().enumerate() {
                    if !after.contains(&e.tok) {
                        replaced += 1;
                        let path = d.t.cursor_to(d.m.start(j)).path();
                        ensure!(
                            near.iter().any(|q| q.starts_with(&path)),
                            "operation {step}: inserting next to runs at {near:?} of a shared tree copied the value of run {j}, which is in the node at {path:?}"
                        );
                    }
                }
                let lim = 2 * (h as u64 + 1) * 2 * m as u64;
                ensure!(cloned <= lim && replaced <= lim, "operation {step}: an insertion into a shared tree of {n} runs (height {h}, M = {m}) cloned {cloned} values");
                ctx.add("values cloned by insertions into shared trees", cloned);
                ctx.add("values stored in those trees", n as u64);
                shared_writes += 1;
                measured += 1;
                if op[5] % 2 == 0 {
                    p = d;
                }
            }
        }
    }
    // exact hints must pay off overall, once nodes are wide enough for the search to cost something
    let n = p.m.len();
    if m >= 3 && n >= 30 {
        let (mut plain, mut hinted) = (0, 0);
        for i in (0..n).step_by(1 + n / 100) {
            let at = p.m.start(i);
            let hint = p.t.cursor_to(at);
            if hint.rev.is_empty() {
                continue;
            }
            let a = ops_done();
            p.t.get_raw(at, None);
            let b = ops_done();
            p.t.get_raw(at, Some(hint));
            plain += b - a;
            hinted += ops_done() - b;
        }
        ensure!(hinted < plain, "looking up all runs below the root of {n} (M = {m}) used {plain} index operations without and {hinted} with exact hints");
        ctx.c("trees on which hinted and plain lookups were compared");
    }
    ctx.add("shared insertions measured", shared_writes);
    ctx.max("max runs", p.m.len() as u64);
    ctx.nontrivial = measured > 0 && height(&*p.t, &p.m) >= 2;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C15",
    gen,
    run,
    quick: 200_000,
    thorough: 3_000_000,
    rule: "random trees up to some hundreds (thorough: thousands) of runs; lookups, cursor requests, hinted lookups, insertions, reference queries and short iterations, each with its index operations counted against a bound linear in the height (itself checked against the logarithmic bound) and M; shallow clones and insertions into shared trees with value clones counted and located; non-trivial = height at least 2 and at least one measurement",
    level: "exploration",
    assumptions: &["the constants are several times the measured ones: a linear or per-node cost is detected, a constant factor is not"],
    probes: &[],
    fuel: 400_000_000,
};
