use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    // 2 = reference by lookup, 3 = copy, 4 = drop, 5 = check everything
    let case = Case { cfg: gen_cfg(r), ops: gen_mixed(r, tier, 10, &[3, 1, 1, 1]) };
    widen(r, tier, 100, case)
}

pub struct Held<I: HIdx = CIdx> {
    pub r: Box<dyn DynRef<I>>,
    /// stable id of the run in the reference sequence
    pub id: u32,
    pub moves: u32,
    pub at: usize,
}

pub fn check_ref<I: HIdx>(h: &Held<I>, p: &Pair<I>, what: &str, deep: bool) -> Res {
    let i = p.m.find_id(h.id).ok_or("internal: run id lost")?;
    let (s, e, v) = (p.m.start(i), p.m.end(i), &p.m.runs[i].val);
    ensure!(h.r.is_valid(), "{what}: reference to run {i} is reported invalid while the tree lives");
    ensure!(h.r.can_borrow(), "{what}: reference to run {i} cannot be borrowed while the tree is idle");
    let g = h.r.try_range();
    ensure!(g.is_some(), "{what}: reference to run {i} has no range");
    let g = g.unwrap();
    ensure!(eq(g.start, s) && eq(g.end, e), "{what}: reference to run {i} reports {g:?}, expected {s:?}..{e:?}");
    let b = h.r.try_borrow();
    ensure!(b.is_some(), "{what}: reference to run {i} could not be borrowed");
    let b = b.unwrap();
    ensure!(b.val().same(v), "{what}: reference to run {i} yields {:?}, expected {v:?}", b.val());
    if deep {
        let t = p.t.get(s, None);
        ensure!(t.tok == b.tok(), "{what}: reference to run {i} yields another value than a lookup at {s:?}");
        drop(b);
        ensure!(h.r.borrow().val().same(v), "{what}: panicking accessor differs");
        let g = h.r.range();
        ensure!(eq(g.start, s) && eq(g.end, e), "{what}: range() differs from try_range()");
        let (a, c) = (h.r.path().path(), p.t.cursor_to(s).path());
        ensure!(a == c, "{what}: reference to run {i} gives path {a:?}, the tree {c:?}");
        ensure!(h.r.try_path().map(|x| x.path()) == Some(c), "{what}: try_cursor differs from cursor");
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_p(c.cfg(0), P::Ref);
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let mut held: Vec<Held> = Vec::new();
    let mut followed = 0u32;
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("after operation {step}");
        match op[0] {
            OP_FILL => {
                for k in 0..op[1].min(2000) {
                    let i = fill_step(&p.m, op, k, c.cfg(2), p.last);
                    let keep = k % 7 == op[4] % 7 && held.len() < 60;
                    let r = keep.then(|| p.t.insert_ref(i.idx, i.val.clone(), i.size, None).unwrap().1);
                    if !keep {
                        p.t.insert(i.idx, i.val.clone(), i.size);
                    }
                    let e = p.m.insert(i.idx, i.val, i.size);
                    p.note(&e, ctx);
                    if let Some(r) = r {
                        held.push(Held { r, id: e.id, moves: 0, at: e.at });
                    }
                }
                ctx.t(|| format!("fill {} runs, pattern {}", op[1], op[2] % 6));
            }
            OP_INSERT => {
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                let by_ref = op[5] % 3 != 0;
                ctx.t(|| format!("insert{} {:?} (size {:?}) at {:?}", if by_ref { "_ref" } else { "" }, i.val, i.size, i.idx));
                let r = if by_ref {
                    let hint = make_hint(&*p.t, &p.m, &[], op[5] / 3, op[4]);
                    let (cur, r) = p.t.insert_ref(i.idx, i.val.clone(), i.size, hint).unwrap();
                    Some((cur, r))
                } else {
                    p.t.insert(i.idx, i.val.clone(), i.size);
                    None
                };
                let e = p.m.insert(i.idx, i.val, i.size);
                p.note(&e, ctx);
                if let Some((cur, r)) = r {
                    let h = Held { r, id: e.id, moves: 0, at: e.at };
                    check_ref(&h, &p, &format!("{what}: reference returned by the insertion"), true)?;
                    ensure!(cur.path() == h.r.path().path(), "{what}: cursor and reference of the insertion differ");
                    ctx.c("references returned by insertions");
                    if op[5] % 2 == 0 || held.len() < 4 {
                        held.push(h);
                    }
                }
            }
            2 => {
                if p.m.len() > 0 {
                    let idx = resolve_idx(&p.m, op[1], op[2]);
                    let i = p.m.find(idx);
                    let r = p.t.make_ref(idx).unwrap();
                    ctx.t(|| format!("make_ref at {idx:?}"));
                    let h = Held { r, id: p.m.runs[i].id, moves: 0, at: i };
                    check_ref(&h, &p, &format!("{what}: new reference"), true)?;
                    held.push(h);
                    ctx.c("references made by lookup");
                }
            }
            3 => {
                if !held.is_empty() {
                    let k = op[1] as usize % held.len();
                    let h = Held { r: held[k].r.dup(), id: held[k].id, moves: held[k].moves, at: held[k].at };
                    check_ref(&h, &p, &format!("{what}: copied reference"), true)?;
                    held.push(h);
                    ctx.t(|| format!("copy reference {k}"));
                    ctx.c("references copied");
                }
            }
            4 => {
                if !held.is_empty() {
                    let k = op[1] as usize % held.len();
                    ctx.t(|| format!("drop reference {k}"));
                    held.swap_remove(k);
                }
            }
            _ => {
                for (k, h) in held.iter().enumerate() {
                    check_ref(h, &p, &format!("{what}: reference {k}"), true)?;
                }
            }
        }
        if held.len() > 80 {
            held.drain(..40);
        }
        // a rolling part of the references after every operation
        if !held.is_empty() {
            let n = held.len();
            for j in 0..n.min(6) {
                let k = (step * 6 + j) % n;
                check_ref(&held[k], &p, &format!("{what}: reference {k}"), step % 4 == 0)?;
                let i = p.m.find_id(held[k].id).unwrap();
                if i != held[k].at {
                    held[k].at = i;
                    held[k].moves += 1;
                    followed += 1;
                }
            }
        }
        ctx.max("max references held", held.len() as u64);
    }
    for (k, h) in held.iter().enumerate() {
        check_ref(h, &p, &format!("at the end: reference {k}"), true)?;
    }
    check_full(&*p.t, &p.m, "at the end")?;
    p.t.validate();
    ctx.add("times a checked reference had moved", followed as u64);
    ctx.nontrivial = followed > 0 && height(&*p.t, &p.m) >= 1;
    // the tree goes first: every reference becomes invalid
    let early = c.cfg(1) % 2 == 0;
    if early {
        drop(p);
        for (k, h) in held.iter().enumerate() {
            ensure!(!h.r.is_valid() && !h.r.can_borrow(), "reference {k} still valid after its tree was dropped");
            ensure!(h.r.try_range().is_none() && h.r.try_borrow().is_none(), "reference {k} still readable after its tree was dropped");
        }
    } else {
        drop(held);
        check_full(&*p.t, &p.m, "after dropping every reference")?;
    }
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C07",
    gen,
    run,
    quick: 200_000,
    thorough: 4_000_000,
    rule: "random histories of insertions (plain and insert_ref, hinted or not), references by lookup, copies and drops; every held reference is compared (validity, range, value identity, path) with the run it must name in the reference sequence; non-trivial = a held reference's run moved and the tree has several nodes",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
