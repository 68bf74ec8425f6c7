use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::model::*;
use crate::rng::Rng;
use crate::types::*;

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let cfg = gen_cfg(r);
    let ops = gen_ops(r, tier, gen_insert);
    let case = Case { cfg, ops: with_kin(r, ops) };
    widen(r, tier, 100, case)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let mut seen = 0;
    let mut kin = Kin(vec![]);
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            kin.op(&mut p, op, c, ctx)?;
            continue;
        }
        if op[0] == OP_FILL {
            apply(&mut p, op, c, ctx);
            continue;
        }
        let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
        ctx.t(|| format!("insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
        // expected protocol
        let f = |v: &Val<CIdx>| format!("{v:?}");
        let mut split = None;
        let (l, r): (Option<Val<CIdx>>, Option<Val<CIdx>>) = match p.m.spot(i.idx) {
            Spot::Edge(k) => (
                k.checked_sub(1).map(|k| p.m.runs[k].val.clone()),
                p.m.runs.get(k).map(|r| r.val.clone()),
            ),
            Spot::Inside(k, off) => {
                let b = &p.m.runs[k].val;
                let mut left = b.clone();
                let right = left.split(off);
                split = Some(Ev::Split { before: f(b), at: format!("{off:?}"), left: f(&left), right: f(&right) });
                (Some(left), Some(right))
            }
        };
        let ev = |a: &Val<CIdx>, b: &Val<CIdx>| (Ev::Join { lhs: f(a), rhs: f(b), joined: a.join(b).map(|v| f(&v)) }, a.join(b));
        // either neighbour may be offered first
        let mut orders: Vec<Vec<Ev>> = vec![vec![], vec![]];
        if p.m.joins {
            let mut cur = i.val.clone();
            if let Some(l) = &l {
                let (e, j) = ev(l, &cur);
                orders[0].push(e);
                cur = j.unwrap_or(cur);
            }
            if let Some(r) = &r {
                orders[0].push(ev(&cur, r).0);
            }
            let mut cur = i.val.clone();
            if let Some(r) = &r {
                let (e, j) = ev(&cur, r);
                orders[1].push(e);
                cur = j.unwrap_or(cur);
            }
            if let Some(l) = &l {
                orders[1].push(ev(l, &cur).0);
            }
        }
        log_start();
        p.insert(i, ctx);
        let log = log_take();
        let (splits, joins): (Vec<Ev>, Vec<Ev>) = log.into_iter().partition(|e| matches!(e, Ev::Split { .. }));
        ensure!(
            splits == split.iter().cloned().collect::<Vec<_>>(),
            "operation {step}: split calls {splits:?}, expected {split:?}"
        );
        ensure!(
            joins == orders[0] || joins == orders[1],
            "operation {step}: join calls {joins:?}, expected {:?} (or the right neighbour first)",
            orders[0]
        );
        seen += joins.len() + splits.len();
        ctx.add("join calls checked", joins.len() as u64);
        ctx.add("split calls checked", splits.len() as u64);
        if due(step, p.m.len()) {
            check_full(&*p.t, &p.m, &format!("after operation {step}"))?;
        }
    }
    check_full(&*p.t, &p.m, "at the end")?;
    kin.finish()?;
    ctx.nontrivial = seen > 0 && height(&*p.t, &p.m) >= 1;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C04",
    gen,
    run,
    quick: 300_000,
    thorough: 6_000_000,
    rule: "random insertion histories with every call to split_at and try_join logged (receiver, argument, offset, result) and compared with the calls the contract allows; non-trivial = at least one such call in a tree of several nodes",
    level: "exploration",
    assumptions: &["which of the two neighbours is offered first is not constrained", "boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
