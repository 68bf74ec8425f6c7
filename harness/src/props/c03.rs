use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use sherman::range::{EndBound, StartBound};

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let cfg = gen_cfg(r);
    let ops = gen_mixed(r, tier, 4, &[4, 1, 1]);
    let case = Case { cfg, ops: with_kin(r, ops) };
    widen(r, tier, 100, case)
}

/// A range which must be refused
pub fn bad_range<I: HIdx>(m: &crate::model::Model<I>, a: u32, b: u32) -> Rng2<I> {
    use EndBound as E;
    use StartBound as S;
    let z = m.size();
    if let (Some(neg), 0) = (I::below_zero(b), b % 3) {
        return match a % 2 {
            0 => (S::Included(neg), E::Unbounded),
            _ => (S::Included(neg), E::Excluded(if m.len() > 0 { m.end(0) } else { I::ZERO })),
        };
    }
    if m.len() == 0 {
        return match a % 4 {
            0 => (S::Included(I::ZERO), E::Unbounded),
            1 => (S::Unbounded, E::Included(I::ZERO)),
            2 => (S::Unbounded, E::Excluded(I::ZERO.past(b))),
            _ => (S::Included(I::ZERO), E::Excluded(I::ZERO.past(b))),
        };
    }
    let x = resolve_idx(m, a / 9, b);
    let y = resolve_idx(m, a / 36, b / 3);
    let (lo, hi) = if lt(x, y) { (x, y) } else { (y, x) };
    match a % 9 {
        0 => (S::Included(z), E::Unbounded),
        1 => (S::Included(z.past(b)), E::Unbounded),
        2 => (S::Unbounded, E::Included(z)),
        3 => (S::Unbounded, E::Excluded(z.past(b))),
        4 => (S::Included(x), E::Included(z.past(b))),
        5 => (S::Included(x), E::Excluded(x)),
        6 if lt(lo, hi) => (S::Included(hi), E::Included(lo)),
        7 if lt(lo, hi) => (S::Included(hi), E::Excluded(lo)),
        8 => (S::Included(x), E::Excluded(z.past(b))),
        _ => (S::Included(z), E::Excluded(z)),
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let saved: Vec<VC> = Vec::new();
    let mut multi = 0;
    let mut kin = Kin(vec![]);
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            kin.op(&mut p, op, c, ctx)?;
            continue;
        }
        match op[0] {
            0 | 1 => {
                apply(&mut p, op, c, ctx);
            }
            2 => {
                let (r, o) = make_range(&p.m, op[1], op[2], op[3]);
                let hint = if op[5] % 3 == 0 { make_hint(&*p.t, &p.m, &saved, op[5] / 3, op[4]) } else { None };
                ctx.t(|| format!("iterate {r:?} (runs {o:?}) script {}", op[4]));
                if o.len() > 1 {
                    multi += 1;
                }
                ctx.c("ranges iterated");
                ctx.add("runs expected from iteration", o.len() as u64);
                check_iter(&*p.t, &p.m, r, o, hint, op[4], &format!("operation {step}"))?;
            }
            4 => {
                let (r, o) = make_range(&p.m, op[1], op[2], op[3]);
                let skip = op[4] as usize % (o.len() + 2);
                let k = op[5] as usize % (o.len() + 2);
                let left: Vec<usize> = o.clone().skip(skip).collect();
                let n = left.len();
                let what = format!("operation {step}: iterating {r:?} (runs {o:?}) after {skip} steps, method {}", op[1] % 7);
                ctx.t(|| what.clone());
                let ((lo, hi), got, count) = p.t.iter_provided(r, skip, op[1] % 7, k);
                ensure!(lo <= n && hi.is_none_or(|h| n <= h), "{what}: size_hint is ({lo}, {hi:?}), {n} runs are left");
                let want: Vec<usize> = match op[1] % 7 {
                    0 => {
                        ensure!(count == n, "{what}: count() is {count}, {n} runs are left");
                        vec![]
                    }
                    1 => left.last().copied().into_iter().collect(),
                    2 => left.iter().skip(k).take(2).copied().collect(),
                    3 => left.iter().rev().skip(k).take(2).copied().collect(),
                    5 => left,
                    _ => left.into_iter().rev().collect(),
                };
                ensure!(got.len() == want.len(), "{what}: {} entries, expected {want:?}", got.len());
                for (e, i) in got.iter().zip(want) {
                    check_ent(e, &p.m, i, &what)?;
                }
                ctx.c("provided iterator methods");
            }
            _ => {
                let r = bad_range(&p.m, op[1], op[2]);
                ctx.t(|| format!("refused range {r:?}"));
                ctx.c("invalid ranges");
                let hint = make_hint(&*p.t, &p.m, &saved, op[5], op[4]);
                let x = guarded(|| p.t.iter_script(r, hint, &[true, false]).len());
                ensure!(x.is_err(), "operation {step}: iterating {r:?} over a tree of size {:?} was not refused", p.m.size());
            }
        }
    }
    check_full(&*p.t, &p.m, "at the end")?;
    kin.finish()?;
    ctx.nontrivial = multi > 0 && height(&*p.t, &p.m) >= 1;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C03",
    gen,
    run,
    quick: 350_000,
    thorough: 8_000_000,
    rule: "random histories interleaved with iteration over random valid ranges (every bound form, narrow and wide) with random front/back scripts running past exhaustion, and with invalid ranges that must be refused; non-trivial = at least one range spanning several runs in a tree of several nodes",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
