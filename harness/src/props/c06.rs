use super::common::*;
use sherman::range::{EndBound, StartBound};
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use sherman::{BoundedCursor, Cursor, PathComponent};

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let cfg = gen_cfg(r);
    let ops = gen_mixed(r, tier, 5, &[3, 2, 2, 1, 1]);
    let case = Case { cfg, ops: with_kin(r, ops) };
    widen(r, tier, 100, case)
}

/// The components nearest the root are those prepended last
fn bounded(cap: usize, comps: &[PathComponent]) -> Result<(), String> {
    fn path<const N: usize>(comps: &[PathComponent]) -> Vec<u8> {
        let mut c = BoundedCursor::<N>::new_empty();
        for x in comps {
            c.prepend_to_path(*x);
        }
        c.into_path().map(|x| comp_idx(&x)).collect()
    }
    let got = match cap {
        0 => path::<0>(comps),
        1 => path::<1>(comps),
        2 => path::<2>(comps),
        3 => path::<3>(comps),
        8 => path::<8>(comps),
        13 => path::<13>(comps),
        _ => path::<255>(comps),
    };
    let want: Vec<u8> = comps.iter().rev().take(cap).map(comp_idx).collect();
    if got != want {
        return Err(format!("a bounded cursor of capacity {cap} given {} components holds {got:?}, expected {want:?}", comps.len()));
    }
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    let mut p = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let mut refs: Vec<(Box<dyn DynRef<CIdx>>, u32)> = Vec::new();
    let mut family: Vec<Box<dyn DynTree<CIdx>>> = Vec::new();
    let mut q = 0;
    let mut kin = Kin(vec![]);
    for (step, op) in c.ops.iter().enumerate() {
        if op[0] == OP_KIN {
            kin.op(&mut p, op, c, ctx)?;
            continue;
        }
        match op[0] {
            OP_FILL => {
                apply(&mut p, op, c, ctx);
            }
            OP_INSERT => {
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                ctx.t(|| format!("insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
                let hint = make_hint(&*p.t, &p.m, &[], op[5] / 4, op[4]).unwrap_or_default();
                let e;
                let got = match op[5] % 4 {
                    0 if inst.p == P::Ref => {
                        let (cur, r) = p.t.insert_ref(i.idx, i.val.clone(), i.size, (op[5] & 4 == 0).then_some(hint)).unwrap();
                        e = p.m.insert(i.idx, i.val, i.size);
                        refs.push((r, e.id));
                        cur.path()
                    }
                    1 => {
                        let at = (p.m.len() > 0 && op[5] & 8 == 0).then(|| resolve_idx(&p.m, op[5] / 4, op[4]));
                        let cap = [8u8, 8, 8, 3, 2, 1, 0, 8][(op[5] / 16) as usize % 8];
                        let v = p.t.insert_bounded(i.idx, i.val.clone(), i.size, at, cap);
                        e = p.m.insert(i.idx, i.val, i.size);
                        let full = p.t.cursor_to(p.m.start(e.at)).path();
                        ensure!(
                            v == full[..full.len().min(cap as usize)],
                            "operation {step}: insertion with a bounded cursor of capacity {cap} returned {v:?}, the path is {full:?}"
                        );
                        full
                    }
                    _ => {
                        // a hint which is the exact path to the run to split is followed to its end
                        let inside = p.m.len() > 0 && i.idx < p.m.size() && i.idx != p.m.start(p.m.find(i.idx));
                        let hint = if inside && op[5] & 1 == 1 { p.t.cursor_to(i.idx) } else { hint };
                        let n = hint.rev.len();
                        let before = count(Cb::CursorStep);
                        let cur = p.t.insert_hint(i.idx, i.val.clone(), i.size, hint);
                        let used = count(Cb::CursorStep) - before;
                        if inside && op[5] & 1 == 1 {
                            ctx.c("insertions along the exact path to a run");
                            ensure!(
                                used >= n as u64,
                                "operation {step}: an insertion followed only {used} of the {n} components of the exact path to the run it splits"
                            );
                        }
                        e = p.m.insert(i.idx, i.val, i.size);
                        cur.path()
                    }
                };
                p.note(&e, ctx);
                ctx.c("insertion cursors checked");
                let want = p.t.cursor_to(p.m.start(e.at)).path();
                ensure!(
                    got == want,
                    "operation {step}: insertion returned path {got:?}, the run holding the value is at {want:?}"
                );
            }
            // cursors agree whatever point of the run is asked for, and from every source
            2 if p.m.len() > 0 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let i = p.m.find(idx);
                let path = p.t.cursor_to(idx).path();
                let start = p.t.cursor_to(p.m.start(i)).path();
                ensure!(path == start, "operation {step}: cursor_to({idx:?}) is {path:?} but {start:?} for the start of the same run");
                let e = p.t.get(idx, None);
                if let Some(ep) = &e.path {
                    ensure!(*ep == path, "operation {step}: entry cursor at {idx:?} is {ep:?}, cursor_to gives {path:?}");
                    ctx.c("entry cursors checked");
                }
                // the exact path is followed to its end: every component is consumed
                let before = count(Cb::CursorStep);
                let e2 = p.t.get(idx, Some(VC::from_path(&path)));
                let used = count(Cb::CursorStep) - before;
                check_ent(&e2, &p.m, i, "lookup along the exact path")?;
                ensure!(
                    used >= path.len() as u64,
                    "operation {step}: only {used} of the {} components of the exact path were followed",
                    path.len()
                );
                let before = count(Cb::CursorStep);
                let at = (StartBound::Included(idx), EndBound::Included(idx));
                let es = p.t.iter_script(at, Some(VC::from_path(&path)), &[op[3] & 1 == 0]);
                let used = count(Cb::CursorStep) - before;
                let Some(Some(e3)) = es.first() else { return Err(format!("operation {step}: iterating over {idx:?}..={idx:?} yields nothing").into()) };
                check_ent(e3, &p.m, i, "iteration along the exact path")?;
                ensure!(
                    used >= path.len() as u64,
                    "operation {step}: an iterator followed only {used} of the {} components of the exact path to its start",
                    path.len()
                );
                q += 1;
            }
            3 if p.m.len() > 0 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let full = p.t.cursor_to(idx).path();
                let cap = [0u8, 1, 2, 3, 4, 5, 8, 20, 255][op[3] as usize % 9];
                let got = p.t.cursor_bounded(idx, cap);
                let want = &full[..full.len().min(cap as usize)];
                if full.len() > cap as usize {
                    ctx.c("bounded cursors that overflowed");
                } else {
                    ctx.c("bounded cursors that fit");
                }
                ensure!(got == want, "operation {step}: bounded cursor of capacity {cap} holds {got:?}, the path is {full:?}");
                q += 1;
            }
            4 if p.m.len() > 0 => match inst.p {
                P::Ref => {
                    if op[1] % 2 == 0 || refs.is_empty() {
                        let idx = resolve_idx(&p.m, op[1] / 2, op[2]);
                        let id = p.m.runs[p.m.find(idx)].id;
                        refs.push((p.t.make_ref(idx).unwrap(), id));
                    }
                    let (r, id) = &refs[op[3] as usize % refs.len()];
                    let i = p.m.find_id(*id).ok_or("run of a reference is missing from the model")?;
                    let want = p.t.cursor_to(p.m.start(i)).path();
                    let got = r.try_path().map(|c| c.path());
                    ensure!(got.as_ref() == Some(&want), "operation {step}: reference cursor is {got:?}, the run is at {want:?}");
                    ctx.c("reference cursors checked");
                    q += 1;
                    if refs.len() > 30 {
                        refs.remove(op[3] as usize % refs.len());
                    }
                }
                P::Cow => {
                    // work on a sharing copy, keeping the original alive
                    let d = p.t.dup().unwrap();
                    let old = std::mem::replace(&mut p.t, d);
                    if family.len() > 3 {
                        family.remove(op[3] as usize % family.len());
                    }
                    family.push(old);
                }
                P::No => {}
            },
            5 => {
                if p.m.len() < 400 {
                    let paths = all_paths(&*p.t, &p.m);
                    check_paths(&paths, inst.m).map_err(|e| format!("operation {step}: the reported cursors are not those of a tree: {e}"))?;
                }
            }
            // a bounded cursor given an arbitrary sequence of components
            6 if p.m.len() > 0 => {
                let n = if op[3] % 4 == 0 { op[3] / 4 % 600 } else { op[3] / 4 % 12 } as usize;
                let mut comps = Vec::new();
                let mut x = op[4];
                while comps.len() < n {
                    let c = p.t.cursor_to(resolve_idx(&p.m, op[1], x));
                    if c.rev.is_empty() {
                        break;
                    }
                    comps.extend(c.rev);
                    x = x.wrapping_mul(0x9E37_79B1).wrapping_add(step as u32 + 1);
                }
                comps.truncate(n);
                ctx.max("max components given to a bounded cursor", comps.len() as u64);
                for cap in [0, 1, 2, 3, 8, 13, 255] {
                    bounded(cap, &comps).map_err(|e| format!("operation {step}: {e}"))?;
                }
            }
            _ => {}
        }
    }
    ensure!(
        guarded(|| drop(BoundedCursor::<256>::new_empty())).is_err(),
        "a bounded cursor of capacity 256 is not refused"
    );
    kin.finish()?;
    let paths = all_paths(&*p.t, &p.m);
    let h = check_paths(&paths, inst.m).map_err(|e| format!("at the end: the reported cursors are not those of a tree: {e}"))?;
    for (i, path) in paths.iter().enumerate() {
        let e = p.t.get(p.m.start(i), Some(VC::from_path(path)));
        check_ent(&e, &p.m, i, "final lookup along the reported path")?;
        if let Some(ep) = e.path {
            ensure!(ep == *path, "final: entry cursor {ep:?}, cursor_to {path:?}");
        }
    }
    for (r, id) in &refs {
        let i = p.m.find_id(*id).ok_or("run of a reference is missing from the model")?;
        let got = r.try_path().map(|c| c.path());
        ensure!(got.as_ref() == Some(&paths[i]), "final: reference cursor is {got:?}, the run is at {:?}", paths[i]);
    }
    ctx.max("max height", h as u64);
    ctx.nontrivial = h >= 1 && q > 0;
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C06",
    gen,
    run,
    quick: 250_000,
    thorough: 6_000_000,
    rule: "random histories; cursors returned by insertions, cursor_to (any point of a run), entries, references and bounded cursors of capacity 0-255 are compared with each other, and the set of all reported paths must reconstruct a balanced tree holding the runs in order; non-trivial = tree of several nodes with cursor queries between insertions",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
