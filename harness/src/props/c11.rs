use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use std::collections::HashSet;

// 2 = clone a member, 3 = drop a member, 4 = lookup, 5 = iteration
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut ops = gen_mixed(r, tier, 12, &[4, 2, 1, 1]);
    if r.chance(1, 2) {
        let f = gen_fill(r, 60);
        ops.insert(0, f);
        let mut o = gen_insert(r);
        o[0] = 2;
        let at = 1 + r.below(3.min(ops.len() as u64)) as usize;
        ops.insert(at, o);
    }
    let case = Case { cfg: gen_cfg(r), ops };
    widen(r, tier, 60, case)
}

struct Member {
    p: Pair<CIdx>,
    toks: Vec<u32>,
}

fn toks(p: &Pair<CIdx>) -> Vec<u32> {
    p.t.entries().iter().map(|e| e.tok).collect()
}

fn verify(x: &Member, what: &str, deep: bool) -> Res {
    check_full(&*x.p.t, &x.p.m, what)?;
    ensure!(toks(&x.p) == x.toks, "{what}: its stored values were replaced by an operation on another tree");
    if deep {
        x.p.t.validate();
        let paths = all_paths(&*x.p.t, &x.p.m);
        check_paths(&paths, x.p.t.inst().m).map_err(|e| format!("{what}: {e}"))?;
        for i in 0..x.p.m.len() {
            let s = x.p.m.start(i);
            check_ent(&x.p.t.get(s, None), &x.p.m, i, &format!("{what}: lookup at {s:?}"))?;
        }
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_p(c.cfg(0), P::No);
    ctx.t(|| format!("{inst:?}"));
    let mut ms = vec![Member { p: Pair::<CIdx>::new(mk(inst)), toks: vec![] }];
    let (mut big_clones, mut writes) = (0, 0);
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("after operation {step}");
        let n = ms.len();
        let k = op[5] as usize % n;
        match op[0] {
            OP_FILL | OP_INSERT => {
                if op[0] == OP_FILL && n > 2 && ms[k].p.m.len() > 300 {
                    continue;
                }
                writes += (n > 1) as u32;
                let clones = count(Cb::Clone);
                apply(&mut ms[k].p, op, c, ctx);
                ensure!(count(Cb::Clone) == clones, "{what}: inserting into an unshared tree cloned a value");
                let t = toks(&ms[k].p);
                ms[k].toks = t;
            }
            2 => {
                if n >= 6 {
                    continue;
                }
                ctx.t(|| format!("clone tree {k}/{n}"));
                let (clones, total) = (count(Cb::Clone), ledger_total());
                let len = ms[k].p.m.len();
                let d = ms[k].p.dup().ok_or("no clone")?;
                ensure!(
                    count(Cb::Clone) - clones == len as u64 && ledger_total() - total == len,
                    "{what}: cloning a tree of {len} runs cloned {} values and created {}",
                    count(Cb::Clone) - clones,
                    ledger_total() - total
                );
                let d = Member { toks: toks(&d), p: d };
                let old: HashSet<u32> = ms.iter().flat_map(|m| m.toks.iter().copied()).collect();
                ensure!(d.toks.iter().all(|t| !old.contains(t)), "{what}: a deep clone contains a value of another tree");
                verify(&d, &format!("{what}: the clone of tree {k}"), true)?;
                if len > 2 * inst.m {
                    big_clones += 1;
                }
                ms.push(d);
                ctx.c("clones");
            }
            3 => {
                if n > 1 {
                    ctx.t(|| format!("drop tree {k}/{n}"));
                    let len = ms[k].p.m.len();
                    let alive = ledger_alive();
                    ms.swap_remove(k);
                    ensure!(alive - ledger_alive() == len, "{what}: dropping a tree of {len} runs dropped {} values", alive - ledger_alive());
                }
            }
            4 => {
                let x = &ms[k];
                if x.p.m.len() > 0 {
                    let idx = resolve_idx(&x.p.m, op[1], op[2]);
                    check_ent(&x.p.t.get(idx, None), &x.p.m, x.p.m.find(idx), &what)?;
                }
            }
            _ => {
                let x = &ms[k];
                let (r, o) = make_range(&x.p.m, op[1], op[2], op[3]);
                check_iter(&*x.p.t, &x.p.m, r, o, None, op[4], &what)?;
            }
        }
        if due(step, ms.iter().map(|m| m.p.m.len()).sum::<usize>() / 2) {
            for (j, x) in ms.iter().enumerate() {
                verify(x, &format!("{what}: tree {j} of {}", ms.len()), (step + j) % 4 == 0)?;
            }
            let want: usize = ms.iter().map(|m| m.p.m.len()).sum();
            ensure!(ledger_alive() == want, "{what}: {} values alive, {want} stored", ledger_alive());
        }
    }
    for (j, x) in ms.iter().enumerate() {
        verify(x, &format!("at the end: tree {j}"), true)?;
    }
    ctx.nontrivial = big_clones > 0 && writes > 0;
    while let Some(x) = ms.pop() {
        drop(x);
        for (j, x) in ms.iter().enumerate() {
            verify(x, &format!("while dropping the others: tree {j}"), false)?;
        }
    }
    ensure!(ledger_alive() == 0, "{} values alive after all trees were dropped", ledger_alive());
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C11",
    gen,
    run,
    quick: 35_000,
    thorough: 3_000_000,
    rule: "random groups of trees made by deep clones of one another, with insertions, clones, lookups, iterations and drops; each clone is compared at birth (contents, structure, number of value clones, disjoint value identities) and every tree is compared with its own reference sequence after operations on the others; non-trivial = a tree of several nodes was cloned and there were insertions while clones existed",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 400_000_000,
};
