use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let cfg = gen_cfg(r);
    let ops = gen_mixed(r, tier, 5, &[2, 2, 1]);
    let case = Case { cfg, ops: with_kin(r, ops) };
    widen(r, tier, 60, case)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    // `p` is always called with hints, `q` never
    let mut p = Pair::<CIdx>::new(mk(inst));
    let mut q = mk(inst);
    // an unrelated tree to take hints from
    let mut other = Pair::<CIdx>::new(mk(inst_of(c.cfg(0) + 3 + 12 * (c.cfg(2) % 2))));
    ctx.t(|| format!("{inst:?}"));
    let mut saved: Vec<VC> = Vec::new();
    let mut used = 0;
    let mut shared = Vec::new();
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            // work on another member of the clone family
            if !shared.is_empty() {
                let n = shared.len();
                let (d, d2, m) = &mut shared[op[2] as usize % n];
                std::mem::swap(d, &mut p.t);
                std::mem::swap(d2, &mut q);
                std::mem::swap(m, &mut p.m);
            }
            continue;
        }
        let hint = match (op[5] / 2) % 12 {
            10 if other.m.len() > 0 => Some(other.t.cursor_to(resolve_idx(&other.m, op[5], op[4]))),
            k => make_hint(&*p.t, &p.m, &saved, k, op[4].wrapping_add(op[2] * 31)),
        };
        let hint = hint.unwrap_or_default();
        if op[0] != OP_FILL {
            ctx.t(|| format!("hint {:?}", hint.path()));
        }
        match op[0] {
            OP_FILL => {
                // same fill on both, hinted only on one
                for k in 0..op[1].min(2000) {
                    let i = fill_step(&p.m, op, k, c.cfg(2), p.last);
                    let h = saved.last().cloned().unwrap_or_default();
                    saved.push(p.t.insert_hint(i.idx, i.val.clone(), i.size, h));
                    q.insert(i.idx, i.val.clone(), i.size);
                    if k % 3 == 0 {
                        other.t.insert(other.m.size(), i.val.clone(), i.size);
                        other.m.insert(other.m.size(), unjoinable(i.size, k), i.size);
                    }
                    let e = p.m.insert(i.idx, i.val, i.size);
                    p.note(&e, ctx);
                    if saved.len() > 40 {
                        saved.remove(op[4] as usize % 20);
                    }
                }
            }
            OP_INSERT => {
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                ctx.t(|| format!("insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
                let got = if op[5] % 2 == 1 && inst.p == P::Ref {
                    let (cur, r) = p.t.insert_ref(i.idx, i.val.clone(), i.size, Some(hint)).unwrap();
                    drop(r);
                    let (c2, r2) = q.insert_ref(i.idx, i.val.clone(), i.size, None).unwrap();
                    drop(r2);
                    ensure!(c2.path() == cur.path(), "operation {step}: hinted insertion returned path {:?}, unhinted {:?}", cur.path(), c2.path());
                    cur
                } else {
                    let a = p.t.insert_hint(i.idx, i.val.clone(), i.size, hint);
                    let b = q.insert_hint(i.idx, i.val.clone(), i.size, VC::default());
                    ensure!(a.path() == b.path(), "operation {step}: hinted insertion returned path {:?}, unhinted {:?}", a.path(), b.path());
                    a
                };
                let e = p.m.insert(i.idx, i.val, i.size);
                p.note(&e, ctx);
                saved.push(got);
                used += 1;
                ctx.c("hinted insertions");
            }
            2 => {
                if p.m.len() == 0 {
                    continue;
                }
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let (a, b) = (p.t.get(idx, Some(hint)), p.t.get(idx, None));
                check_ent(&a, &p.m, p.m.find(idx), &format!("operation {step}: hinted get({idx:?})"))?;
                ensure!(a.path == b.path && a.tok == b.tok, "operation {step}: hinted lookup of {idx:?} found another entry");
                saved.extend(a.path.map(|p| VC::from_path(&p)));
                used += 1;
                ctx.c("hinted lookups");
            }
            3 => {
                let (r, o) = make_range(&p.m, op[1], op[2], op[3]);
                check_iter(&*p.t, &p.m, r, o, Some(hint), op[4], &format!("operation {step} (hinted)"))?;
                used += 1;
                ctx.c("hinted iterations");
            }
            _ => {
                // shallow copies share nodes, so that later hinted insertions run on shared nodes
                if shared.len() < 3 {
                    if let (Some(d), Some(d2)) = (p.t.dup(), q.dup()) {
                        shared.push((d, d2, p.m.clone()));
                    }
                } else {
                    let (d, d2, m) = shared.remove(op[1] as usize % 3);
                    check_full(&*d, &m, "copy taken earlier")?;
                    check_full(&*d2, &m, "copy of the twin taken earlier")?;
                }
            }
        }
        ensure!(saved.len() < 100_000, "unreachable");
        if op[0] < 2 && due(step, p.m.len()) {
            check_full(&*p.t, &p.m, &format!("after operation {step}"))?;
            check_full(&*q, &p.m, &format!("unhinted twin after operation {step}"))?;
            let (x, y) = (all_paths(&*p.t, &p.m), all_paths(&*q, &p.m));
            ensure!(x == y, "after operation {step}: the hinted tree has a different structure from its unhinted twin");
        }
    }
    check_full(&*p.t, &p.m, "at the end")?;
    ensure!(all_paths(&*p.t, &p.m) == all_paths(&*q, &p.m), "at the end: the hinted tree has a different structure from its unhinted twin");
    for (d, _, m) in &shared {
        check_full(&**d, m, "copy taken earlier")?;
    }
    ctx.nontrivial = used > 0 && height(&*p.t, &p.m) >= 1;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C05",
    gen,
    run,
    quick: 100_000,
    thorough: 5_000_000,
    rule: "differential: the same history on two trees, one always given a hint (accurate, stale, from another tree of another node size, truncated, extended, perturbed, random up to 255), one never; results, returned cursors and node structure must agree; non-trivial = hinted calls on a tree of several nodes",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
