use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let cfg = gen_cfg(r);
    let ops = gen_ops(r, tier, gen_insert);
    let case = Case { cfg, ops: with_kin(r, ops) };
    widen(r, tier, 100, case)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let (style, ss) = (c.cfg(1), c.cfg(2));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?} style {style} sizes {ss}"));
    let (mut splits, mut joins) = (0, 0);
    let mut kin = Kin(vec![]);
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            kin.op(&mut p, op, c, ctx)?;
            continue;
        }
        if op[0] == OP_FILL {
            ctx.t(|| format!("fill {} runs, pattern {}", op[1], op[2] % 6));
            p.fill(op, ss, ctx);
        } else {
            let i = decode_insert(&p.m, op, style, ss, p.last, ctx);
            ctx.t(|| format!("insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
            if p.m.len() == 0 && op[5] % 4 == 0 {
                p.t = p.t.fresh_with(i.val.clone(), i.size);
            } else {
                match op[5] % 4 {
                    1 if p.m.len() > 0 => {
                        let at = resolve_idx(&p.m, op[5] / 4, op[4]);
                        let h = p.t.cursor_to(at);
                        p.t.insert_hint(i.idx, i.val.clone(), i.size, h);
                    }
                    2 => {
                        let at = (p.m.len() > 0).then(|| resolve_idx(&p.m, op[5] / 4, op[4]));
                        p.t.insert_bounded(i.idx, i.val.clone(), i.size, at, [8u8, 3, 2, 1, 0][op[5] as usize / 64 % 5]);
                    }
                    3 if inst.p == P::Ref => {
                        let h = (op[5] / 4 % 2 == 0).then(VC::default);
                        drop(p.t.insert_ref(i.idx, i.val.clone(), i.size, h));
                    }
                    _ => p.t.insert(i.idx, i.val.clone(), i.size),
                }
            }
            let e = p.m.insert(i.idx, i.val, i.size);
            splits += e.split.is_some() as u32;
            joins += (e.join_left || e.join_right) as u32;
            p.note(&e, ctx);
        }
        if due(step, p.m.len()) {
            check_full(&*p.t, &p.m, &format!("after operation {step}"))?;
        } else {
            ensure!(eq(p.t.size(), p.m.size()), "after operation {step}: size() is {:?}, expected {:?}", p.t.size(), p.m.size());
            ensure!(p.t.nslices() == p.m.len(), "after operation {step}: run count {} expected {}", p.t.nslices(), p.m.len());
        }
    }
    check_full(&*p.t, &p.m, "at the end")?;
    kin.finish()?;
    let h = height(&*p.t, &p.m);
    ctx.max("max height", h as u64);
    ctx.max("max runs", p.m.len() as u64);
    if h >= 1 {
        ctx.c("cases reaching height >= 1");
    }
    if h >= 3 {
        ctx.c("cases reaching height >= 3");
    }
    ctx.nontrivial = h >= 1 && (splits > 0 || joins > 0);
    Ok(())
}

/// Recorded finding: inserting exactly between two runs that both join with the new value
fn probe_double() -> ProbeResult {
    let mut t = mk(Inst { p: P::No, m: 3, j: true });
    let s = |a: u64, b: u64| Val::S { src: 1, lo: CIdx(a), hi: CIdx(b) };
    t.insert(CIdx(0), s(0, 5), CIdx(5));
    t.insert(CIdx(5), s(8, 12), CIdx(4));
    match guarded(|| t.insert(CIdx(5), s(5, 8), CIdx(3))) {
        Err(_) => ProbeResult::KnownFailure,
        Ok(()) => {
            let e = t.entries();
            if e.len() == 1 && e[0].val.same(&s(0, 12)) && e[0].size.0 == 12 && t.nslices() == 1 {
                ProbeResult::Holds
            } else {
                ProbeResult::Other(format!("contents {e:?}"))
            }
        }
    }
}

pub const PROP: PropDef = PropDef {
    id: "C01",
    gen,
    run,
    quick: 500_000,
    thorough: 1_500_000,
    rule: "random insertion histories (single insertions and bulk fills; boundary, interior, start, end and last-insertion-relative positions; letter, segment, rigid and domino values) over every feature parameter and M in {1,2,3,5}; non-trivial = the tree grew beyond one node and at least one insertion split or joined a run",
    level: "exploration",
    assumptions: &["slice and index implementations obey their documented contracts", "boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[Probe {
        key: "double-edge-join",
        desc: "inserting exactly between two runs that both join with the new value",
        run: probe_double,
    }],
    fuel: 200_000_000,
};
