use super::c07::{check_ref, Held};
use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;

// 2 = hinted insertion, 3 = referencing insertion, 4 = lookup, 5 = iteration, 6 = reference,
// 7 = cursor, 8 = serialization, 9 = continue on a clone
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut cfg = gen_cfg(r);
    cfg[2] = r.below(5) as u32;
    let ops = gen_mixed(r, tier, 10, &[3, 3, 2, 2, 2, 1, 1, 1]);
    Case { cfg, ops: with_kin(r, ops) }
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = Inst { m: MS_HEIS[c.cfg(0) as usize / 3 % 3], j: true, ..inst_of(c.cfg(0)) };
    ctx.t(|| format!("{inst:?}"));
    let mut p = Pair::<Heis>::new(mk_heis(inst));
    let mut held: Vec<Held<Heis>> = vec![];
    let mut saved: Vec<VC> = vec![];
    let mut kin = Kin(vec![]);
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            kin.op(&mut p, op, c, ctx)?;
            continue;
        }
        let what = format!("after operation {step}");
        let n = p.m.len();
        match op[0] {
            OP_FILL | OP_INSERT => {
                apply(&mut p, op, c, ctx);
            }
            2 | 3 => {
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                let hint = make_hint(&*p.t, &p.m, &saved, op[5], op[4]).unwrap_or_default();
                ctx.t(|| format!("hinted insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
                if op[0] == 3 && inst.p == P::Ref {
                    let (cur, r) = p.t.insert_ref(i.idx, i.val.clone(), i.size, Some(hint)).ok_or("no reference")?;
                    let e = p.m.insert(i.idx, i.val, i.size);
                    p.note(&e, ctx);
                    held.push(Held { r, id: e.id, moves: 0, at: e.at });
                    saved.push(cur);
                } else {
                    let cur = p.t.insert_hint(i.idx, i.val.clone(), i.size, hint);
                    let e = p.m.insert(i.idx, i.val, i.size);
                    p.note(&e, ctx);
                    let want = p.t.cursor_to(p.m.start(e.at)).path();
                    ensure!(cur.path() == want, "{what}: the returned cursor is {:?}, expected {want:?}", cur.path());
                    saved.push(cur);
                }
            }
            4 if n > 0 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let hint = make_hint(&*p.t, &p.m, &saved, op[5], op[4]);
                let e = p.t.get(idx, hint);
                check_ent(&e, &p.m, p.m.find(idx), &format!("{what}: lookup at {idx:?}"))?;
            }
            5 => {
                let (r, o) = make_range(&p.m, op[1], op[2], op[3]);
                let hint = make_hint(&*p.t, &p.m, &saved, op[5], op[4]);
                check_iter(&*p.t, &p.m, r, o, hint, op[4], &what)?;
            }
            6 if n > 0 && held.len() < 20 => {
                let i = op[2] as usize % n;
                if let Some(r) = p.t.make_ref(p.m.start(i)) {
                    held.push(Held { r, id: p.m.runs[i].id, moves: 0, at: i });
                }
            }
            7 if n > 0 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                saved.push(p.t.cursor_to(idx));
            }
            8 if n < 80 => {
                let s = p.t.ser(op[2])?;
                let q = p.t.de(op[3], &s)?;
                let mut m = crate::model::Model::new(true);
                for r in &p.m.runs {
                    let at = m.size();
                    m.insert(at, r.val.clone(), r.size);
                }
                check_full(&*q, &m, &format!("{what}: the tree read back"))?;
                q.validate();
                ctx.c("round trips through text");
            }
            9 => {
                if let Some(d) = p.dup() {
                    let old = std::mem::replace(&mut p, d);
                    if op[1] % 2 == 0 {
                        check_full(&*old.t, &old.m, &format!("{what}: the original of a clone"))?;
                    }
                }
            }
            _ => {}
        }
        if due(step, p.m.len()) {
            check_full(&*p.t, &p.m, &what)?;
            p.t.validate();
            for (k, h) in held.iter().enumerate() {
                check_ref(h, &p, &format!("{what}: reference {k}"), (step + k) % 3 == 0)?;
            }
        }
    }
    check_full(&*p.t, &p.m, "at the end")?;
    kin.finish()?;
    p.t.validate();
    for i in 0..p.m.len() {
        for k in 0..2 {
            let idx = if k == 0 { p.m.start(i) } else { pos_interior(&p.m, i, c.cfg(1) + i as u32) };
            check_ent(&p.t.get(idx, None), &p.m, i, &format!("at the end: lookup at {idx:?}"))?;
        }
    }
    let noncommuting = p.m.runs.windows(2).filter(|w| w[0].size.mul(w[1].size) != w[1].size.mul(w[0].size)).count();
    ctx.add("neighbouring sizes which do not commute", noncommuting as u64);
    ctx.nontrivial = noncommuting >= 2 && p.m.len() > 2 * inst.m;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C18",
    gen,
    run,
    quick: 80_000,
    thorough: 3_000_000,
    rule: "random histories (plain, hinted and referencing insertions, lookups, iterations, references, cursors, serialization, clones) over trees indexed by the discrete Heisenberg group with its bi-invariant order, every reported position, size, split offset and reference range compared with exact prefix products; non-trivial = more than one node and at least two pairs of neighbouring sizes which do not commute",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 400_000_000,
};
