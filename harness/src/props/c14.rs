use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;

// 2 = clone (to share nodes), 3 = drop the clones, 4 = take up a clone instead
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut ops = gen_mixed(r, tier, 24, &[1, 1, 1]);
    // patterns which hit one place again and again
    if r.chance(1, 3) {
        let o = gen_insert(r);
        let at = r.below(ops.len() as u64 + 1) as usize;
        for k in 0..r.below(30) as u32 {
            let mut x = o;
            x[3] = x[3].wrapping_add(k);
            x[4] = x[4].wrapping_add(k * 7);
            ops.insert(at, x);
        }
    }
    let case = Case { cfg: gen_cfg(r), ops };
    widen(r, tier, 60, case)
}

/// Structure of a tree: crate validator, B-tree shape from the paths, position lookups through every
/// node, parent links (followed by entries and references to rebuild their paths)
fn structure(x: &Pair<CIdx>, what: &str, links: bool) -> Result<usize, String> {
    let (t, m, min) = (&*x.t, &x.m, x.t.inst().m);
    guarded(|| t.validate()).map_err(|e| format!("{what}: validate() failed: {e}"))?;
    ensure!(t.nslices() == m.len(), "{what}: {} runs counted, expected {}", t.nslices(), m.len());
    let paths = all_paths(t, m);
    let h = check_paths(&paths, min).map_err(|e| format!("{what}: {e}"))?;
    if m.len() > 0 {
        // 2 (M+1)^h - 1 <= n
        let least = 2 * (min as u128 + 1).pow(h as u32) - 1;
        ensure!(m.len() as u128 >= least, "{what}: height {h} with {} runs and minimum {min}", m.len());
    }
    for i in 0..m.len() {
        let s = m.start(i);
        let e = t.get(s, None);
        check_ent(&e, m, i, &format!("{what}: lookup at {s:?}"))?;
        if let (Some(p), true) = (&e.path, links) {
            ensure!(*p == paths[i], "{what}: following parent links from run {i} gives {p:?}, but it is at {:?}", paths[i]);
        }
        if let Some(r) = t.make_ref(s) {
            let p = r.path().path();
            ensure!(p == paths[i], "{what}: a reference to run {i} has path {p:?}, but it is at {:?}", paths[i]);
        }
    }
    Ok(h)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let mut clones: Vec<Pair<CIdx>> = vec![];
    let mut top = 0;
    let mut grew = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("after operation {step}");
        match op[0] {
            OP_FILL | OP_INSERT => {
                apply(&mut p, op, c, ctx);
            }
            2 => {
                if clones.len() < 3 {
                    clones.extend(p.dup());
                }
            }
            3 => clones.clear(),
            _ => {
                if let Some(x) = clones.pop() {
                    p = x;
                }
            }
        }
        let n = p.m.len();
        if due(step, n) {
            let h = structure(&p, &what, inst.p != P::Cow)?;
            if h > top {
                top = h;
                grew += 1;
            }
            ctx.c("structures checked");
        }
        for x in &clones {
            if due(step, n * 2) {
                structure(x, &format!("{what}: a clone"), false)?;
            }
        }
    }
    let h = structure(&p, "at the end", inst.p != P::Cow)?;
    ctx.max("max height", h as u64);
    ctx.max("max runs", p.m.len() as u64);
    ctx.nontrivial = h >= 1 && grew + h >= 2;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C14",
    gen,
    run,
    quick: 45_000,
    thorough: 3_000_000,
    rule: "random insertion histories (with shared clones for clone-on-write) over every feature parameter and M in {1,2,3,5}; after the operations the crate's validator runs, the node structure is rebuilt from the in-order sequence of root-to-run paths and checked as a B-tree (depth, occupancy, height bound), every run is looked up, and parent links are followed back from every entry and reference; non-trivial = the tree has several nodes",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 400_000_000,
};
