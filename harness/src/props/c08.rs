use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Model;
use crate::rng::Rng;
use crate::types::*;
use std::cell::RefCell;
use std::rc::Rc;

// 2 = reference by lookup, 3 = copy a reference, 4 = drop a reference, 5 = borrow, 6 = copy a borrow,
// 7 = map a borrow, 8 = drop a borrow, 9 = drop the tree, 10 = check everything,
// 11 = arrange for user code to run inside a callback of the next operation
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut ops = gen_mixed(r, tier, 8, &[5, 3, 2, 4, 2, 1, 5, 0, 1, 3]);
    // the tree is dropped once, usually late, followed by more operations on what is left
    if r.chance(4, 5) {
        let n = ops.len() as u64;
        let at = if r.chance(1, 4) { r.below(n + 1) } else { n };
        let mut o = gen_insert(r);
        o[0] = 9;
        if r.chance(2, 3) {
            let mut b = gen_insert(r);
            b[0] = 5;
            ops.insert(at as usize, b);
            ops.insert(at as usize + 1, o);
        } else {
            ops.insert(at as usize, o);
        }
        for _ in 0..r.below(16) {
            let mut o = gen_insert(r);
            o[0] = 3 + r.weighted(&[3, 3, 3, 2, 1, 4, 0, 2, 1]) as u32;
            ops.push(o);
        }
    }
    let case = Case { cfg: gen_cfg(r), ops };
    widen(r, tier, 100, case)
}

struct HRef {
    r: Box<dyn DynRef<CIdx>>,
    id: u32,
}
struct HBor {
    b: Box<dyn DynBorrow<CIdx>>,
    id: u32,
    tok: u32,
}

/// What the documentation says about the state a reference observes
#[derive(Copy, Clone, PartialEq, Debug)]
enum State {
    /// tree alive, or dropped while a borrow keeps it
    Readable,
    /// inside an insertion
    Mutable,
    Dead,
}

fn check(h: &HRef, m: &Model<CIdx>, st: State, what: &str, strict: bool) -> Res {
    let i = m.find_id(h.id).ok_or("internal: run id lost")?;
    let valid = st != State::Dead;
    let can = st == State::Readable;
    ensure!(h.r.is_valid() == valid, "{what}: is_valid() is {} in state {st:?}", !valid);
    ensure!(h.r.can_borrow() == can, "{what}: can_borrow() is {} in state {st:?}", !can);
    let g = guarded(|| h.r.try_range()).map_err(|e| format!("{what}: try_range panicked: {e}"))?;
    let c = guarded(|| h.r.try_path()).map_err(|e| format!("{what}: try_cursor panicked: {e}"))?;
    let b = guarded(|| h.r.try_borrow()).map_err(|e| format!("{what}: try_borrow_slice panicked: {e}"))?;
    ensure!(g.is_some() == can, "{what}: try_range() is {g:?} in state {st:?}");
    ensure!(c.is_some() == can, "{what}: try_cursor() is {} in state {st:?}", c.is_some());
    ensure!(b.is_some() == can, "{what}: try_borrow_slice() is {} in state {st:?}", b.is_some());
    if can {
        let (g, b) = (g.unwrap(), b.unwrap());
        ensure!(
            eq(g.start, m.start(i)) && eq(g.end, m.end(i)),
            "{what}: reports {g:?}, expected {:?}..{:?}",
            m.start(i),
            m.end(i)
        );
        ensure!(b.val().same(&m.runs[i].val), "{what}: yields {:?}, expected {:?}", b.val(), m.runs[i].val);
    }
    if strict {
        let a = guarded(|| h.r.range()).is_ok();
        let b = guarded(|| h.r.path()).is_ok();
        let c = guarded(|| h.r.borrow()).is_ok();
        ensure!(
            a == can && b == can && c == can,
            "{what}: range/cursor/borrow_slice return normally: {a}/{b}/{c} in state {st:?}"
        );
    }
    Ok(())
}

/// User code run from inside a callback: may only use references
fn poke_refs(refs: &Rc<RefCell<Vec<HRef>>>, arg: u32) {
    let Ok(mut v) = refs.try_borrow_mut() else { return };
    if v.is_empty() {
        return;
    }
    let k = arg as usize % v.len();
    let h = &v[k];
    let mut res = || -> Res {
        let can = h.r.can_borrow();
        let valid = h.r.is_valid();
        ensure!(valid || !can, "an invalid reference reports that it can be borrowed");
        let g = guarded(|| h.r.try_range()).map_err(|e| format!("try_range panicked: {e}"))?;
        let c = guarded(|| h.r.try_path()).map_err(|e| format!("try_cursor panicked: {e}"))?;
        let b = guarded(|| h.r.try_borrow()).map_err(|e| format!("try_borrow_slice panicked: {e}"))?;
        ensure!(
            g.is_some() == can && c.is_some() == can && b.is_some() == can,
            "can_borrow() is {can}, try_range/try_cursor/try_borrow_slice gave {}/{}/{}",
            g.is_some(),
            c.is_some(),
            b.is_some()
        );
        drop(b);
        let a = guarded(|| h.r.range()).is_ok();
        ensure!(a == can, "can_borrow() is {can}, range() returned normally: {a}");
        Ok(())
    };
    if let Err(e) = res() {
        set_bad(format!("inside a callback: {e}"));
        return;
    }
    match arg / 64 % 4 {
        0 => {
            let n = guarded(|| v[k].r.dup());
            match n {
                Ok(r) => {
                    let id = v[k].id;
                    v.push(HRef { r, id });
                }
                Err(e) => set_bad(format!("inside a callback: copying a reference panicked: {e}")),
            }
        }
        1 => {
            let h = v.swap_remove(k);
            drop(v);
            if let Err(e) = guarded(move || drop(h)) {
                set_bad(format!("inside a callback: dropping a reference panicked: {e}"));
            }
        }
        _ => {}
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_p(c.cfg(0), P::Ref);
    let p0 = Pair::<CIdx>::new(mk(inst));
    ctx.t(|| format!("{inst:?}"));
    let mut m = p0.m.clone();
    let tree: Rc<RefCell<Option<Pair<CIdx>>>> = Rc::new(RefCell::new(Some(p0)));
    let refs: Rc<RefCell<Vec<HRef>>> = Rc::default();
    let mut bors: Vec<HBor> = Vec::new();
    let mut dropped_borrowed = false;
    let mut poked = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("operation {step}");
        let alive = tree.borrow().is_some();
        let readable = alive || !bors.is_empty();
        let st = if readable { State::Readable } else { State::Dead };
        match op[0] {
            OP_INSERT | OP_FILL if !alive => {}
            OP_FILL if !bors.is_empty() => {}
            OP_FILL => {
                let mut t = tree.borrow_mut();
                let p = t.as_mut().unwrap();
                let mut o = *op;
                o[1] = o[1].min(60);
                apply(p, &o, c, ctx);
                m = p.m.clone();
            }
            OP_INSERT => {
                let mut t = tree.borrow_mut();
                let p = t.as_mut().unwrap();
                let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
                ctx.t(|| format!("insert {:?} (size {:?}) at {:?}, {} borrows", i.val, i.size, i.idx, bors.len()));
                if !bors.is_empty() {
                    let n = ledger_alive();
                    let r = guarded(|| {
                        if op[5] % 2 == 0 {
                            p.t.insert(i.idx, i.val.clone(), i.size);
                        } else {
                            p.t.insert_ref(i.idx, i.val.clone(), i.size, None);
                        }
                    });
                    ensure!(r.is_err(), "{what}: insertion accepted while {} borrows are held", bors.len());
                    ensure!(ledger_alive() == n, "{what}: the refused value was not dropped");
                    check_full(&*p.t, &p.m, &format!("{what}: after a refused insertion"))?;
                    p.t.validate();
                    ctx.c("insertions refused while borrowed");
                } else if op[5] % 2 == 0 {
                    p.insert(i, ctx);
                } else {
                    let r = p.t.insert_ref(i.idx, i.val.clone(), i.size, None).unwrap().1;
                    let e = p.m.insert(i.idx, i.val, i.size);
                    p.note(&e, ctx);
                    refs.borrow_mut().push(HRef { r, id: e.id });
                }
                m = p.m.clone();
            }
            2 => {
                // permitted while borrowed, as it does not need the tree mutably
                let t = tree.borrow();
                if let Some(p) = t.as_ref() {
                    if p.m.len() > 0 {
                        let idx = resolve_idx(&p.m, op[1], op[2]);
                        let id = p.m.runs[p.m.find(idx)].id;
                        ctx.t(|| format!("make_ref at {idx:?}"));
                        let r = p.t.make_ref(idx).unwrap();
                        refs.borrow_mut().push(HRef { r, id });
                    }
                }
            }
            3 => {
                let mut v = refs.borrow_mut();
                if !v.is_empty() {
                    let k = op[1] as usize % v.len();
                    ctx.t(|| format!("copy reference {k} in state {st:?}"));
                    let r = guarded(|| v[k].r.dup()).map_err(|e| format!("{what}: copying a reference panicked: {e}"))?;
                    let id = v[k].id;
                    let h = HRef { r, id };
                    check(&h, &m, st, &format!("{what}: the copy of a reference"), true)?;
                    check(&v[k], &m, st, &format!("{what}: a reference after being copied"), true)?;
                    v.push(h);
                    ctx.c(match (alive, readable) {
                        (true, _) => "references copied while the tree lives",
                        (_, true) => "references copied while a borrow keeps the dropped tree",
                        _ => "references copied after the tree is gone",
                    });
                }
            }
            4 => {
                let mut v = refs.borrow_mut();
                if !v.is_empty() {
                    let k = op[1] as usize % v.len();
                    ctx.t(|| format!("drop reference {k} in state {st:?}"));
                    let h = v.swap_remove(k);
                    drop(v);
                    guarded(move || drop(h)).map_err(|e| format!("{what}: dropping a reference panicked: {e}"))?;
                }
            }
            5 => {
                let v = refs.borrow();
                if !v.is_empty() {
                    let k = op[1] as usize % v.len();
                    let b = if op[2] % 2 == 0 {
                        guarded(|| v[k].r.borrow()).ok()
                    } else {
                        guarded(|| v[k].r.try_borrow()).map_err(|e| format!("{what}: try_borrow_slice panicked: {e}"))?
                    };
                    ctx.t(|| format!("borrow reference {k} in state {st:?}"));
                    ensure!(b.is_some() == readable, "{what}: borrowing gave {} in state {st:?}", b.is_some());
                    if let Some(b) = b {
                        let tok = b.tok();
                        bors.push(HBor { b, id: v[k].id, tok });
                    }
                }
            }
            6 => {
                if !bors.is_empty() {
                    let k = op[1] as usize % bors.len();
                    ctx.t(|| format!("copy borrow {k}"));
                    let n = HBor { b: bors[k].b.dup(), id: bors[k].id, tok: bors[k].tok };
                    bors.push(n);
                }
            }
            7 => {
                if !bors.is_empty() {
                    let k = op[1] as usize % bors.len();
                    ctx.t(|| format!("map borrow {k}"));
                    let h = bors.swap_remove(k);
                    if op[2] % 3 == 0 {
                        // the function given to `map` panics, which ends the borrow
                        let r = guarded(|| h.b.mapped_panics());
                        ensure!(r.is_err(), "{what}: internal: the mapping function was not called");
                        ctx.c("borrows ended by a panic in map");
                    } else {
                        bors.push(HBor { b: h.b.mapped(), ..h });
                    }
                }
            }
            8 => {
                if !bors.is_empty() {
                    let k = op[1] as usize % bors.len();
                    let h = bors.swap_remove(k);
                    ctx.t(|| format!("drop borrow {k}, {} left, tree alive: {alive}", bors.len()));
                    let before = ledger_alive();
                    drop(h);
                    let want = if alive || !bors.is_empty() { before } else { 0 };
                    ensure!(
                        ledger_alive() == want,
                        "{what}: {} values alive after dropping a borrow ({} borrows left, tree alive: {alive}), expected {want}",
                        ledger_alive(),
                        bors.len()
                    );
                    if !alive && bors.is_empty() {
                        ctx.c("contents released by the last borrow");
                    }
                }
            }
            9 => {
                let t = tree.borrow_mut().take();
                if let Some(p) = t {
                    ctx.t(|| format!("drop the tree, {} references, {} borrows", refs.borrow().len(), bors.len()));
                    let before = ledger_alive();
                    ensure!(before == p.m.len(), "{what}: {before} values alive, {} runs", p.m.len());
                    drop(p);
                    if bors.is_empty() {
                        ensure!(ledger_alive() == 0, "{what}: {} values alive after the tree was dropped", ledger_alive());
                    } else {
                        dropped_borrowed = true;
                        ctx.c("trees dropped while borrowed");
                        ensure!(
                            ledger_alive() == before,
                            "{what}: {} of {before} values alive after the tree was dropped with {} borrows held",
                            ledger_alive(),
                            bors.len()
                        );
                    }
                }
            }
            10 => {
                for (k, h) in refs.borrow().iter().enumerate() {
                    check(h, &m, st, &format!("{what}: reference {k}"), true)?;
                }
            }
            _ => {
                // user code inside a callback of the operations that follow
                let (rc, tc) = (refs.clone(), tree.clone());
                let arg = op[2];
                if op[1] % 5 == 0 && !refs.borrow().is_empty() && alive {
                    // ... dropping the tree from inside a query of a reference
                    let v = refs.borrow();
                    let k = op[3] as usize % v.len();
                    let i = m.find_id(v[k].id).unwrap();
                    let flag = Rc::new(std::cell::Cell::new(false));
                    let f2 = flag.clone();
                    set_poke(op[4] % 6, Box::new(move || {
                        f2.set(true);
                        let t = tc.borrow_mut().take();
                        drop(t);
                    }));
                    let g = guarded(|| v[k].r.try_range());
                    clear_poke();
                    let g = g.map_err(|e| format!("{what}: try_range panicked when its callback dropped the tree: {e}"))?;
                    let g = g.ok_or(format!("{what}: try_range gave nothing"))?;
                    ensure!(eq(g.start, m.start(i)) && eq(g.end, m.end(i)), "{what}: range is {g:?}");
                    if flag.get() {
                        ctx.c("trees dropped from inside a reference query");
                        ctx.t(|| "drop the tree from inside try_range".to_string());
                        let want = if bors.is_empty() { 0 } else { m.len() };
                        ensure!(ledger_alive() == want, "{what}: {} values alive after the tree was dropped inside a query, expected {want}", ledger_alive());
                    }
                } else {
                    ctx.t(|| format!("use a reference inside callback {} from here", op[3] % 40));
                    set_poke(op[3] % 40, Box::new(move || poke_refs(&rc, arg)));
                    poked += 1;
                }
            }
        }
        // what must hold after every step
        let alive = tree.borrow().is_some();
        let readable = alive || !bors.is_empty();
        let st = if readable { State::Readable } else { State::Dead };
        {
            let v = refs.borrow();
            for j in 0..v.len().min(3) {
                let k = (step * 3 + j) % v.len();
                check(&v[k], &m, st, &format!("after {what}: reference {k}"), step % 3 == 0)?;
            }
        }
        for (k, h) in bors.iter().enumerate() {
            let i = m.find_id(h.id).ok_or("internal: run id lost")?;
            ensure!(h.b.tok() == h.tok, "after {what}: borrow {k} changed identity");
            ensure!(h.b.val().same(&m.runs[i].val), "after {what}: borrow {k} reads {:?}, expected {:?}", h.b.val(), m.runs[i].val);
        }
        let want = if readable { m.len() } else { 0 };
        ensure!(ledger_alive() == want, "after {what}: {} values alive, expected {want}", ledger_alive());
        if refs.borrow().len() > 40 {
            refs.borrow_mut().drain(..20);
        }
        if bors.len() > 20 {
            bors.drain(..10);
        }
    }
    clear_poke();
    if let Some(p) = tree.borrow().as_ref() {
        check_full(&*p.t, &p.m, "at the end")?;
        p.t.validate();
    }
    ctx.c(if poked > 0 { "cases with references used inside callbacks" } else { "cases without" });
    ctx.nontrivial = dropped_borrowed || (poked > 0 && m.len() > 3);
    // tear everything down in an order chosen by the case
    match c.cfg(1) % 3 {
        0 => {
            bors.clear();
            refs.borrow_mut().clear();
            tree.borrow_mut().take();
        }
        1 => {
            tree.borrow_mut().take();
            refs.borrow_mut().clear();
            bors.clear();
        }
        _ => {
            refs.borrow_mut().clear();
            tree.borrow_mut().take();
            bors.clear();
        }
    }
    ensure!(ledger_alive() == 0, "at the end: {} values alive after everything was dropped", ledger_alive());
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C08",
    gen,
    run,
    quick: 300_000,
    thorough: 6_000_000,
    rule: "random interleavings of insertions, creating/copying/dropping references, borrows, mapped borrows, dropping the tree, and reference use from inside user callbacks, against an explicit state model (readable / mutable / dead); non-trivial = the tree was dropped while a borrow was held, or references were used inside callbacks of a tree with several runs",
    level: "exploration",
    assumptions: &["boundary insertions joining both neighbours are excluded (recorded finding)"],
    probes: &[],
    fuel: 200_000_000,
};
