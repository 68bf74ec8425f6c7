use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use std::collections::HashSet;

// 2 = clone a member, 3 = drop a member, 4 = lookup, 5 = iteration, 6 = check everything,
// 7 = serialize, 8 = panic-free re-read of all cursors
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut ops = gen_mixed(r, tier, 12, &[5, 2, 2, 2, 1, 1]);
    // clones of something non-trivial early on
    if r.chance(2, 3) {
        let n = ops.len() as u64;
        for _ in 0..1 + r.below(3) {
            let mut o = gen_insert(r);
            o[0] = 2;
            let at = r.below(n.min(6) + 1) as usize;
            ops.insert(at, o);
        }
        let f = gen_fill(r, 60);
        ops.insert(0, f);
    }
    let case = Case { cfg: gen_cfg(r), ops };
    widen(r, tier, 60, case)
}

struct Member {
    p: Pair<CIdx>,
    /// the same history, applied to a tree which never shares anything
    twin: Box<dyn DynTree<CIdx>>,
    /// identities of the stored values, as of the last operation on this member
    toks: Vec<u32>,
}

fn verify(ms: &[Member], k: usize, what: &str, deep: bool) -> Res {
    let x = &ms[k];
    let w = format!("{what}: member {k} of {}", ms.len());
    check_full(&*x.p.t, &x.p.m, &w)?;
    let toks: Vec<u32> = x.p.t.entries().iter().map(|e| e.tok).collect();
    ensure!(toks == x.toks, "{w}: stored values were replaced by an operation on another member");
    ensure!(toks.iter().collect::<HashSet<_>>().len() == toks.len(), "{w}: the same stored value appears twice");
    x.p.t.validate();
    if deep {
        for i in 0..x.p.m.len() {
            let s = x.p.m.start(i);
            let e = x.p.t.get(s, None);
            check_ent(&e, &x.p.m, i, &format!("{w}: lookup at {s:?}"))?;
            let (a, b) = (x.p.t.cursor_to(s).path(), x.twin.cursor_to(s).path());
            ensure!(a == b, "{w}: cursor to run {i} is {a:?}, in an unshared tree with the same history {b:?}");
        }
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_p(c.cfg(0), P::Cow);
    let first = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let twin_inst = Inst { p: P::No, ..inst };
    let mut ms = vec![Member { p: first, twin: mk(twin_inst), toks: vec![] }];
    let mut saved: Vec<VC> = vec![];
    let mut shared_writes = 0u32;
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("after operation {step}");
        let k = op[5] as usize % ms.len();
        let n = ms.len();
        match op[0] {
            OP_FILL | OP_INSERT => {
                let x = &mut ms[k];
                if n > 1 && x.p.m.len() > 0 {
                    shared_writes += 1;
                }
                if op[0] == OP_FILL {
                    ctx.t(|| format!("fill member {k}/{n} with {} runs, pattern {}", op[1], op[2] % 6));
                    let reps = if n > 3 { op[1].min(30) } else { op[1].min(400) };
                    for j in 0..reps {
                        let i = fill_step(&x.p.m, op, j, c.cfg(2), x.p.last);
                        x.twin.insert(i.idx, i.val.clone(), i.size);
                        x.p.insert(i, ctx);
                    }
                } else {
                    let i = decode_insert(&x.p.m, op, c.cfg(1), c.cfg(2), x.p.last, ctx);
                    ctx.t(|| format!("insert {:?} (size {:?}) at {:?} into member {k}/{n}", i.val, i.size, i.idx));
                    x.twin.insert(i.idx, i.val.clone(), i.size);
                    if op[5] / 16 % 2 == 0 {
                        x.p.insert(i, ctx);
                    } else {
                        let h = make_hint(&*x.p.t, &x.p.m, &saved, op[5] / 8, op[4] / 3).unwrap_or_default();
                        saved.push(x.p.t.insert_hint(i.idx, i.val.clone(), i.size, h));
                        let e = x.p.m.insert(i.idx, i.val, i.size);
                        x.p.note(&e, ctx);
                        if saved.len() > 12 {
                            saved.remove(0);
                        }
                    }
                }
                x.toks = x.p.t.entries().iter().map(|e| e.tok).collect();
                verify(&ms, k, &what, ms[k].p.m.len() < 40)?;
            }
            2 => {
                if n < 6 {
                    ctx.t(|| format!("clone member {k}/{n}"));
                    let d = ms[k].p.dup().unwrap();
                    let toks: Vec<u32> = d.t.entries().iter().map(|e| e.tok).collect();
                    ensure!(toks == ms[k].toks, "{what}: a shallow clone does not share the values");
                    let twin = ms[k].twin.dup().unwrap();
                    ms.push(Member { p: d, twin, toks });
                    ctx.c("clones");
                }
            }
            3 => {
                if n > 1 {
                    ctx.t(|| format!("drop member {k}/{n}"));
                    ms.swap_remove(k);
                    ctx.c("members dropped");
                }
            }
            4 => {
                let x = &ms[k];
                if x.p.m.len() > 0 {
                    let idx = resolve_idx(&x.p.m, op[1], op[2]);
                    let h = make_hint(&*x.p.t, &x.p.m, &saved, op[3], op[4]);
                    let e = x.p.t.get(idx, h);
                    check_ent(&e, &x.p.m, x.p.m.find(idx), &format!("{what}: lookup at {idx:?} in member {k}/{n}"))?;
                    saved.push(x.p.t.cursor_to(idx));
                }
            }
            5 => {
                let x = &ms[k];
                let (r, o) = make_range(&x.p.m, op[1], op[2], op[3]);
                let h = make_hint(&*x.p.t, &x.p.m, &saved, op[4], op[4] / 9);
                ctx.t(|| format!("iterate {r:?} in member {k}/{n}"));
                check_iter(&*x.p.t, &x.p.m, r, o, h, op[4], &format!("{what}: member {k}/{n}"))?;
            }
            6 => {
                for k in 0..n {
                    verify(&ms, k, &what, true)?;
                }
            }
            _ => {
                let x = &ms[k];
                let a = x.p.t.to_json();
                let b = x.twin.to_json();
                ensure!(a.is_ok() && a == b, "{what}: member {k}/{n} serializes differently from an unshared tree");
            }
        }
        // the members not operated on
        if due(step, ms.iter().map(|m| m.p.m.len()).sum::<usize>() / 2) {
            for j in 0..ms.len() {
                verify(&ms, j, &what, (step + j) % 5 == 0)?;
            }
            let all: HashSet<u32> = ms.iter().flat_map(|m| m.toks.iter().copied()).collect();
            let twins: usize = ms.iter().map(|m| m.p.m.len()).sum();
            ensure!(
                ledger_alive() == all.len() + twins,
                "{what}: {} values alive, {} reachable",
                ledger_alive(),
                all.len() + twins
            );
        }
        ctx.max("max members", ms.len() as u64);
    }
    for k in 0..ms.len() {
        verify(&ms, k, "at the end", true)?;
    }
    ctx.add("insertions into a tree with other members", shared_writes as u64);
    ctx.nontrivial = shared_writes >= 2 && ms.iter().any(|x| height(&*x.p.t, &x.p.m) >= 1);
    // drop the family one at a time; the others must not notice
    while ms.len() > 1 {
        let k = (c.cfg(1) as usize * 7 + ms.len()) % ms.len();
        ms.swap_remove(k);
        for j in 0..ms.len() {
            verify(&ms, j, "while dropping the family", ms[j].p.m.len() < 30)?;
        }
    }
    drop(ms);
    ensure!(ledger_alive() == 0, "{} values alive after the whole family was dropped", ledger_alive());
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C09",
    gen,
    run,
    quick: 28_000,
    thorough: 1_500_000,
    rule: "random families of shallow clones; every member has its own reference sequence and an unshared twin tree with the same history, and is compared with both (contents, stored-value identities, lookups, iterations, cursors, structure) after operations on the others; non-trivial = at least two insertions into a member while others existed, and a tree with several nodes",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 400_000_000,
};
