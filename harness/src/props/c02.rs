use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::rng::Rng;
use crate::types::*;

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let cfg = gen_cfg(r);
    let ops = gen_mixed(r, tier, 4, &[3]);
    let case = Case { cfg, ops: with_kin(r, ops) };
    widen(r, tier, 100, case)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let mut saved: Vec<VC> = Vec::new();
    let mut q = 0;
    let mut kin = Kin(vec![]);
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            kin.op(&mut p, op, c, ctx)?;
            continue;
        }
        if op[0] < 2 {
            apply(&mut p, op, c, ctx);
            continue;
        }
        if p.m.len() == 0 {
            continue;
        }
        let idx = resolve_idx(&p.m, op[1], op[2]);
        let hint = make_hint(&*p.t, &p.m, &saved, op[3], op[4]);
        ctx.t(|| format!("get {idx:?} hint {:?}", hint.as_ref().map(|h| h.path())));
        ctx.c(if hint.is_some() { "lookups with a hint" } else { "lookups without a hint" });
        let e = p.t.get(idx, hint);
        check_ent(&e, &p.m, p.m.find(idx), &format!("operation {step}: get({idx:?})"))?;
        if let Some(path) = e.path {
            saved.push(VC::from_path(&path));
        }
        q += 1;
    }
    kin.finish()?;
    // sweep: start, an inner point and the last point of every run
    let n = p.m.len();
    for i in 0..n {
        for k in [0, 1, 3] {
            let idx = resolve_idx(&p.m, k, i as u32);
            let e = p.t.get(idx, None);
            check_ent(&e, &p.m, p.m.find(idx), &format!("final sweep: get({idx:?})"))?;
        }
    }
    ctx.add("lookups in final sweeps", 3 * n as u64);
    let h = height(&*p.t, &p.m);
    ctx.max("max height", h as u64);
    ctx.nontrivial = h >= 1 && q > 0;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C02",
    gen,
    run,
    quick: 350_000,
    thorough: 6_000_000,
    rule: "random histories interleaved with lookups at run starts, interiors and last points with and without (accurate, stale, random) hints, and a final sweep over every run; non-trivial = tree of several nodes with lookups between insertions",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
