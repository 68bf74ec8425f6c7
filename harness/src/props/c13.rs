use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use crate::types::*;
use sherman::range::{EndBound, StartBound};

const ALL: u32 = (1 << N_CB) - 1;

// the operations build the scene (2 = clone, 3 = make a reference); the operation under test is in
// cfg[3..]: kind, four arguments
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut cfg = gen_cfg(r);
    let n = match tier {
        Tier::Mini => r.below(8),
        _ => [2, 6, 15, 30][r.below(4) as usize],
    };
    let mut ops: Vec<Op> = (0..r.below(n + 1))
        .map(|_| {
            let mut o = gen_insert(r);
            o[0] = [0, 2, 3][r.weighted(&[6, 1, 2])];
            o
        })
        .collect();
    if r.chance(3, 4) {
        let max = if tier == Tier::Mini { 10 } else { [8, 20, 60][r.below(3) as usize] };
        let f = gen_fill(r, max);
        ops.insert(0, f);
    }
    cfg.push(r.weighted(&[5, 3, 3, 1, 1, 2, 3, 2, 1, 2]) as u32);
    for _ in 0..4 {
        cfg.push(r.u32() % 100_000);
    }
    let case = Case { cfg, ops };
    widen(r, tier, 400, case)
}

struct Scene {
    p: Pair<CIdx>,
    clones: Vec<Pair<CIdx>>,
    refs: Vec<(usize, Box<dyn DynRef<CIdx>>)>,
}

fn build(c: &Case) -> Scene {
    let mut ctx = Ctx::default();
    let mut s = Scene { p: Pair::new(mk(inst_of(c.cfg(0)))), clones: vec![], refs: vec![] };
    for op in &c.ops {
        match op[0] {
            OP_FILL | OP_INSERT => {
                apply(&mut s.p, op, c, &mut ctx);
            }
            2 => {
                if s.clones.len() < 3 {
                    s.clones.extend(s.p.dup());
                }
            }
            _ => {}
        }
    }
    // references last, so that the run each of them names is known
    for op in c.ops.iter().filter(|o| o[0] == 3) {
        if s.p.m.len() > 0 && s.refs.len() < 6 {
            let i = op[2] as usize % s.p.m.len();
            if let Some(r) = s.p.t.make_ref(s.p.m.start(i)) {
                s.refs.push((i, r));
            }
        }
    }
    s
}

const KINDS: [&str; 10] = [
    "insert",
    "insert with a hint",
    "insert returning a reference",
    "lookup",
    "hinted lookup",
    "cursor request",
    "iteration",
    "clone",
    "serialization",
    "reference queries",
];

/// What the operation under test will do, decided before the faults are armed
struct Target {
    kind: u32,
    ins: Ins<CIdx>,
    hint: VC,
    at: CIdx,
    range: Rng2<CIdx>,
    script: Vec<bool>,
}
fn target(s: &Scene, c: &Case) -> Target {
    let mut kind = c.cfg(3) % 10;
    let m = &s.p.m;
    if m.len() == 0 && (3..=6).contains(&kind) {
        kind = 0;
    }
    let op = [0, c.cfg(4), c.cfg(5), c.cfg(6), c.cfg(7), 0];
    let ins = decode_insert(m, &op, c.cfg(1), c.cfg(2), s.p.last, &mut Ctx::default());
    let hint = make_hint(&*s.p.t, m, &[], c.cfg(6), c.cfg(7) / 3).unwrap_or_default();
    let at = if m.len() > 0 { resolve_idx(m, c.cfg(4), c.cfg(5)) } else { CIdx(0) };
    let range = make_range(m, c.cfg(4), c.cfg(5), c.cfg(6)).0;
    let script = (0..1 + c.cfg(7) % 6).map(|b| c.cfg(5) >> b & 1 == 1).collect();
    Target { kind, ins, hint, at, range, script }
}

type Kept = (Option<Box<dyn DynTree<CIdx>>>, Option<Box<dyn DynRef<CIdx>>>);

fn perform(s: &mut Scene, t: &Target) -> Kept {
    let x = &mut s.p.t;
    let i = &t.ins;
    match t.kind {
        0 => x.insert(i.idx, i.val.clone(), i.size),
        1 => drop(x.insert_hint(i.idx, i.val.clone(), i.size, t.hint.clone())),
        2 => match x.insert_ref(i.idx, i.val.clone(), i.size, Some(t.hint.clone())) {
            Some(r) => return (None, Some(r.1)),
            None if x.inst().p != P::Ref => x.insert(i.idx, i.val.clone(), i.size),
            None => {}
        },
        3 => drop(x.get(t.at, None)),
        4 => drop(x.get(t.at, Some(t.hint.clone()))),
        5 => drop(x.cursor_to(t.at)),
        6 => drop(x.iter_script(t.range, Some(t.hint.clone()), &t.script)),
        7 => return (x.dup(), None),
        8 => drop(x.to_json()),
        _ => {
            for (_, r) in &s.refs {
                r.range();
                r.path();
                r.try_range();
                drop(r.borrow());
            }
        }
    }
    (None, None)
}

fn is_insert(k: u32) -> bool {
    k <= 2
}

fn intact(p: &Pair<CIdx>, toks: &[u32], what: &str) -> Res {
    check_full(&*p.t, &p.m, what)?;
    guarded(|| p.t.validate()).map_err(|e| format!("{what}: validate() failed: {e}"))?;
    let now: Vec<u32> = p.t.entries().iter().map(|e| e.tok).collect();
    ensure!(now == toks, "{what}: stored values were replaced");
    Ok(())
}
fn toks(p: &Pair<CIdx>) -> Vec<u32> {
    p.t.entries().iter().map(|e| e.tok).collect()
}

/// A few insertions into a tree which must be fully usable
fn use_it(p: &mut Pair<CIdx>, c: &Case, what: &str) -> Res {
    let mut ctx = Ctx::default();
    for k in 0..3u32 {
        let op = [0, c.cfg(5) + k * 5, c.cfg(6) + k * 31, c.cfg(4), c.cfg(7) + k, 0];
        let i = decode_insert(&p.m, &op, c.cfg(1), c.cfg(2), p.last, &mut ctx);
        let r = guarded(|| p.insert(i.clone(), &mut ctx));
        if let Err(e) = r {
            return Err(format!("{what}: inserting into it panicked: {e}"));
        }
    }
    check_full(&*p.t, &p.m, what)?;
    guarded(|| p.t.validate()).map_err(|e| format!("{what}: validate() failed: {e}"))
}

fn one(c: &Case, k: i64, ctx: &mut Ctx) -> Result<bool, String> {
    ledger_reset();
    let mut s = build(c);
    let t = target(&s, c);
    let what = format!("callback {k} of a {} panicked", KINDS[t.kind as usize]);
    let before: Vec<Vec<u32>> = s.clones.iter().map(toks).collect();
    let mine = toks(&s.p);
    arm(k, ALL);
    let r = guarded(|| perform(&mut s, &t));
    let blown = disarm();
    if let Some(b) = take_bad() {
        return Err(format!("{what}: {b}"));
    }
    if !blown {
        return match r {
            Ok(_) => Ok(false),
            Err(e) => Err(format!("a {} panicked without a fault: {e}", KINDS[t.kind as usize])),
        };
    }
    ensure!(r.is_err(), "{what}, but the panic did not reach the caller");
    ctx.c("panics injected");
    drop(r);
    // clones are untouched
    for (j, x) in s.clones.iter().enumerate() {
        intact(x, &before[j], &format!("{what}: clone {j}"))?;
    }
    if is_insert(t.kind) {
        // references must not misbehave: no panic from the fallible ones, and if they answer, the
        // answer must be usable
        for (i, r) in &s.refs {
            let q = guarded(|| {
                r.is_valid();
                r.can_borrow();
                let (a, b) = (r.try_range().is_some(), r.try_path().is_some());
                let d = r.dup();
                let e = d.try_borrow();
                let f = e.map(|e| drop(e.val())).is_some();
                (a, b, f, d.can_borrow())
            });
            match q {
                Err(e) => return Err(format!("{what}: a fallible accessor of the reference to run {i} panicked: {e}")),
                Ok((a, b, f, can)) => {
                    ensure!(a == can && b == can && f == can, "{what}: the accessors of the reference to run {i} disagree about its availability ({a} {b} {f} {can})");
                    if can {
                        ctx.c("references available after a failed insertion");
                    } else {
                        ctx.c("references unavailable after a failed insertion");
                    }
                }
            }
        }
        // reading on is allowed to panic, not to touch dropped values
        if c.cfg(7) % 2 == 0 {
            let _ = guarded(|| s.p.t.entries());
            let _ = guarded(|| s.p.t.size());
            if let Some(b) = take_bad() {
                return Err(format!("{what}; reading the tree afterwards: {b}"));
            }
        }
    } else {
        intact(&s.p, &mine, &format!("{what}: the tree itself"))?;
        for (i, r) in &s.refs {
            let w = guarded(|| (r.range(), r.borrow().val()));
            match w {
                Err(e) => return Err(format!("{what}: the reference to run {i} is unavailable afterwards: {e}")),
                Ok((g, v)) => ensure!(
                    g.start.0 == s.p.m.start(*i).0 && g.end.0 == s.p.m.end(*i).0 && v.same(&s.p.m.runs[*i].val),
                    "{what}: the reference to run {i} reports {g:?} {v:?}"
                ),
            }
        }
        use_it(&mut s.p, c, &format!("{what}: the tree itself"))?;
    }
    // dropping the tree first or last
    let Scene { p, mut clones, refs } = s;
    if k % 2 == 0 {
        if k % 4 == 0 {
            drop(refs);
            drop(p);
        } else {
            drop(p);
            for (i, r) in &refs {
                ensure!(!r.can_borrow() && r.try_range().is_none(), "{what}: the reference to run {i} is available after the tree was dropped");
            }
            drop(refs);
        }
        for (j, x) in clones.iter_mut().enumerate() {
            intact(x, &before[j], &format!("{what}, and the tree was dropped: clone {j}"))?;
            use_it(x, c, &format!("{what}, and the tree was dropped: clone {j}"))?;
        }
        drop(clones);
    } else {
        for (j, x) in clones.iter_mut().enumerate() {
            use_it(x, c, &format!("{what}: clone {j}"))?;
        }
        drop(clones);
        drop(refs);
        drop(p);
    }
    if let Some(b) = take_bad() {
        return Err(format!("{what}; dropping everything afterwards: {b}"));
    }
    if ledger_alive() > 0 {
        ctx.add("values leaked by failed insertions", ledger_alive() as u64);
    }
    Ok(true)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    ctx.t(|| format!("{:?}, operation under test: {}", inst_of(c.cfg(0)), KINDS[(c.cfg(3) % 10) as usize]));
    // number of callbacks in the fault-free run
    let total = {
        let mut s = build(c);
        let t = target(&s, c);
        let n0: u64 = INSTR.with(|i| i.counts.iter().map(|x| x.get()).sum());
        drop(perform(&mut s, &t));
        INSTR.with(|i| i.counts.iter().map(|x| x.get()).sum::<u64>()) - n0
    };
    let cap = if cfg!(miri) { 6 } else { 80 };
    let step = 1 + total / cap;
    let phase = if step > 1 { c.cfg(6) as u64 % step } else { 0 };
    let mut k = phase;
    let mut n = 0;
    while k < total + step {
        if !one(c, k as i64, ctx)? {
            break;
        }
        n += 1;
        k += step;
    }
    ctx.add("callback points of the operations tested", total);
    ctx.t(|| format!("{total} callbacks, {n} made to panic"));
    ctx.nontrivial = n >= 3;
    let _ = (StartBound::Included(0), EndBound::Included(0));
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C13",
    gen,
    run,
    quick: 50_000,
    thorough: 400_000,
    rule: "a random scene (tree, clones, references) and one operation on it (plain, hinted and referencing insertions, lookups, cursors, iteration, clone, serialization, reference queries); the operation is repeated on a rebuilt scene with its 1st, 2nd, ... user callback panicking (all points up to 80, then evenly spaced ones), and ledger, clones, references and, for read-only operations, the tree itself are checked afterwards; non-trivial = at least three faults were injected",
    level: "fault_enumeration",
    assumptions: &["a failed insertion may leak values and leave its own tree unusable except for being dropped"],
    probes: &[],
    fuel: 400_000_000,
};
