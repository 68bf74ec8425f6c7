use super::c03::bad_range;
use super::c07::{check_ref, Held};
use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Model;
use crate::rng::Rng;
use crate::types::*;
use sherman::mock::{Mock, Ref};

// 2 = reference by lookup, 3 = lookup, 4 = iteration, 5 = refused call, 6 = clone, 7 = check everything
// cfg[3]: index type; cfg[4]: alone (insertions joining both neighbours included) or with the tree
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut cfg = gen_cfg(r);
    cfg.push(r.below(4) as u32);
    cfg.push(r.below(3) as u32);
    let refs = if r.chance(1, 3) { 0 } else { 2 };
    cfg.push(refs);
    Case { cfg, ops: gen_mixed(r, tier, 10, &[refs, 2, 4, 2, 1, 1]) }
}

struct HMock {
    r: Ref,
    id: u32,
}

fn full<I: HIdx, const J: bool>(k: &Mock<I, Sl<I, J>>, m: &Model<I>, what: &str) -> Res {
    ensure!(eq(k.size(), m.size()), "{what}: the mock's size is {:?}, expected {:?}", k.size(), m.size());
    let mut n = 0;
    for (g, size, s) in k.iter(..) {
        s.tok.check("mock access");
        check_ent(&Ent { start: g.start, end: g.end, size, val: s.val.clone(), tok: 0, path: None }, m, n, &format!("{what}: mock"))?;
        n += 1;
    }
    ensure!(n == m.len(), "{what}: the mock yields {n} runs, expected {}", m.len());
    Ok(())
}

fn script(n: usize, seed: u32) -> Vec<bool> {
    let mut x = seed as u64 * 2 + 1;
    (0..n + 3)
        .map(|k| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            match seed % 4 {
                0 => true,
                1 => false,
                2 => k % 2 == 0,
                _ => (x >> 33) & 1 == 1,
            }
        })
        .collect()
}

fn go<I: HIdx, const J: bool>(maker: fn(Inst) -> Box<dyn DynTree<I>>, inst: Inst, c: &Case, ctx: &mut Ctx) -> Res {
    let alone = c.cfg(4) == 0;
    let refs_used = c.cfg(5) != 0;
    ctx.t(|| format!("{inst:?}, {}", if alone { "mock only" } else { "mock and tree" }));
    let mut p = Pair::<I>::new(maker(inst));
    let mut mock: Mock<I, Sl<I, J>> = Mock::new_empty();
    let mut twins: Vec<(Mock<I, Sl<I, J>>, Model<I>)> = vec![];
    let mut mrefs: Vec<HMock> = vec![];
    let mut held: Vec<Held<I>> = vec![];
    let (mut iters, mut started) = (0, false);
    for (step, op) in c.ops.iter().enumerate() {
        let what = format!("operation {step}");
        let n = p.m.len();
        match op[0] {
            OP_INSERT | OP_FILL => {
                for k in 0..if op[0] == OP_FILL { op[1].min(2000) } else { 1 } {
                    let i = if op[0] == OP_FILL {
                        fill_step(&p.m, op, k, c.cfg(2), p.last)
                    } else if alone {
                        let idx = resolve_pos(&p.m, op[1], op[2], p.last);
                        let size = I::gen_size(op[3], c.cfg(2));
                        let val = make_val(&p.m, c.cfg(1), idx, size, op[4]);
                        if p.m.is_double_edge_join(idx, &val) {
                            ctx.c("mock insertions joining both neighbours at a boundary");
                        }
                        Ins { idx, val, size }
                    } else {
                        decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx)
                    };
                    let make = refs_used && op[5] % 3 == 0 && mrefs.len() < 40;
                    if op[0] == OP_INSERT {
                        ctx.t(|| format!("insert {:?} (size {:?}) at {:?}, reference: {make}", i.val, i.size, i.idx));
                    }
                    // a mock may also be created with its first run
                    let r = if !started && !make && op[5] % 2 == 0 {
                        mock = Mock::new(Sl::new(i.val.clone()), i.size);
                        None
                    } else {
                        mock.insert(i.idx, Sl::new(i.val.clone()), i.size, make)
                    };
                    started = true;
                    ensure!(r.is_some() == make, "{what}: the mock's insertion returned a reference: {}", r.is_some());
                    let mut tr = None;
                    if !alone {
                        if make && inst.p == P::Ref {
                            tr = p.t.insert_ref(i.idx, i.val.clone(), i.size, None).map(|x| x.1);
                        } else {
                            p.t.insert(i.idx, i.val.clone(), i.size);
                        }
                    }
                    let e = p.m.insert(i.idx, i.val, i.size);
                    p.note(&e, ctx);
                    if let Some(r) = r {
                        mrefs.push(HMock { r, id: e.id });
                    }
                    if let Some(r) = tr {
                        held.push(Held { r, id: e.id, moves: 0, at: e.at });
                    }
                }
                if op[0] == OP_FILL {
                    ctx.t(|| format!("fill {} runs, pattern {}", op[1], op[2] % 6));
                }
            }
            2 if n > 0 && mrefs.len() < 60 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let i = p.m.find(idx);
                ctx.t(|| format!("reference at {idx:?}"));
                let r = mock.make_ref(idx);
                let id = p.m.runs[i].id;
                mrefs.push(HMock { r, id });
                if !alone && inst.p == P::Ref {
                    held.push(Held { r: p.t.make_ref(idx).ok_or("no reference")?, id, moves: 0, at: i });
                }
            }
            3 if n > 0 => {
                let idx = resolve_idx(&p.m, op[1], op[2]);
                let i = p.m.find(idx);
                let (g, s) = mock.get(idx);
                let e = Ent { start: g.start, end: g.end, size: p.m.runs[i].size, val: s.val.clone(), tok: 0, path: None };
                check_ent(&e, &p.m, i, &format!("{what}: mock lookup at {idx:?}"))?;
                if !alone {
                    check_ent(&p.t.get(idx, None), &p.m, i, &format!("{what}: tree lookup at {idx:?}"))?;
                }
            }
            4 => {
                let (r, o) = make_range(&p.m, op[1], op[2], op[3]);
                ctx.t(|| format!("iterate {r:?} (runs {o:?}) script {}", op[4]));
                let (mut lo, mut hi) = (o.start, o.end);
                let mut it = guarded(|| mock.iter(r)).map_err(|e| format!("{what}: the mock refused to iterate {r:?}: {e}"))?;
                for (k, f) in script(o.len(), op[4]).into_iter().enumerate() {
                    let got = if f { it.next() } else { it.next_back() };
                    let want = (lo < hi).then(|| if f { lo } else { hi - 1 });
                    let w = format!("{what}: mock iteration over {r:?} (runs {o:?}), step {k} from the {}", if f { "front" } else { "back" });
                    match (got, want) {
                        (None, None) => {}
                        (Some((g, size, s)), Some(i)) => {
                            check_ent(&Ent { start: g.start, end: g.end, size, val: s.val.clone(), tok: 0, path: None }, &p.m, i, &w)?;
                            if f {
                                lo += 1
                            } else {
                                hi -= 1
                            }
                        }
                        (g, e) => return Err(format!("{w}: yielded {:?}, expected run {e:?}", g.map(|x| x.0))),
                    }
                }
                iters += o.len();
                if !alone {
                    check_iter(&*p.t, &p.m, r, o, None, op[4], &what)?;
                }
            }
            5 => {
                let z = p.m.size();
                let alive = ledger_alive();
                let size = I::gen_size(op[3], c.cfg(2));
                let val = make_val(&p.m, c.cfg(1), z, size, op[4]);
                let (w, ok) = match op[5] % 6 {
                    0 => {
                        let idx = z.past(op[2]);
                        (format!("insert at {idx:?}"), guarded(|| drop(mock.insert(idx, Sl::new(val), size, false))).is_ok())
                    }
                    1 => {
                        let idx = resolve_pos(&p.m, op[1], op[2], p.last);
                        let neg = I::below_zero(op[3]).filter(|_| op[3] % 3 != 0).unwrap_or(I::ZERO);
                        (format!("insert of size {neg:?}"), guarded(|| drop(mock.insert(idx, Sl::new(val), neg, false))).is_ok())
                    }
                    2 | 3 => {
                        let idx = match (op[1] % 3, I::below_zero(op[2])) {
                            (0, _) => z,
                            (1, Some(x)) => x,
                            _ => z.past(op[2]),
                        };
                        if op[5] % 6 == 2 {
                            (format!("get({idx:?})"), guarded(|| drop(mock.get(idx))).is_ok())
                        } else {
                            (format!("make_ref({idx:?})"), guarded(|| drop(mock.make_ref(idx))).is_ok())
                        }
                    }
                    4 => {
                        let r = bad_range(&p.m, op[1], op[2]);
                        (format!("iter({r:?})"), guarded(|| drop(mock.iter(r))).is_ok())
                    }
                    _ => {
                        let neg = I::below_zero(op[3]).filter(|_| op[3] % 3 != 0).unwrap_or(I::ZERO);
                        (format!("new with size {neg:?}"), guarded(|| drop(Mock::new(Sl::<I, J>::new(val), neg))).is_ok())
                    }
                };
                ctx.t(|| format!("refused {w}"));
                ensure!(!ok, "{what}: {w} was accepted by a mock of size {z:?}");
                ctx.c("refused calls");
                full(&mock, &p.m, &format!("{what}: after refusing {w}"))?;
                ensure!(ledger_alive() == alive, "{what}: the refused {w} left {} values alive instead of {alive}", ledger_alive());
            }
            6 if !refs_used && n < 150 && twins.len() < 4 => {
                ctx.c("mock clones");
                let mut k = mock.clone();
                if op[1] % 2 == 0 {
                    std::mem::swap(&mut k, &mut mock);
                }
                twins.push((k, p.m.clone()));
            }
            7 => {
                full(&mock, &p.m, &what)?;
                if !alone {
                    check_full(&*p.t, &p.m, &what)?;
                }
            }
            _ => {}
        }
        if due(step, p.m.len()) {
            full(&mock, &p.m, &format!("after {what}"))?;
        }
        let k = mrefs.len();
        for j in 0..k.min(6) {
            let h = &mrefs[(step * 6 + j) % k];
            let i = p.m.find_id(h.id).ok_or("internal: run id lost")?;
            let g = mock.ref_range(&h.r).ok_or_else(|| format!("after {what}: a mock reference to run {i} has no range"))?;
            let s = mock.ref_slice(&h.r).ok_or_else(|| format!("after {what}: a mock reference to run {i} has no value"))?;
            let size = mock.ref_size(&h.r).ok_or_else(|| format!("after {what}: a mock reference to run {i} has no size"))?;
            check_ent(
                &Ent { start: g.start, end: g.end, size, val: s.val.clone(), tok: 0, path: None },
                &p.m,
                i,
                &format!("after {what}: mock reference"),
            )?;
        }
        if !held.is_empty() {
            let h = &held[step % held.len()];
            check_ref(h, &p, &format!("after {what}"), false)?;
        }
    }
    full(&mock, &p.m, "at the end")?;
    if !alone {
        check_full(&*p.t, &p.m, "at the end")?;
    }
    for (k, m) in &twins {
        full(k, m, "a clone, at the end")?;
    }
    ctx.max("max references held", mrefs.len() as u64);
    ctx.nontrivial = p.m.len() >= 3 && (iters >= 3 || mrefs.len() >= 2);
    drop((p, mock, twins, held));
    ensure!(ledger_alive() == 0, "{} values alive at the end", ledger_alive());
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    if c.cfg(3) == 3 {
        go::<Heis, true>(mk_heis, Inst { m: MS_HEIS[c.cfg(0) as usize / 3 % 3], j: true, ..inst }, c, ctx)
    } else if inst.j {
        go::<CIdx, true>(mk, inst, c, ctx)
    } else {
        go::<CIdx, false>(mk, inst, c, ctx)
    }
}

pub const PROP: PropDef = PropDef {
    id: "C20",
    gen,
    run,
    quick: 100_000,
    thorough: 2_500_000,
    rule: "random histories run in lock step on the mock, the reference sequence and (two thirds of the cases) a real tree, with unsigned and non-commutative indexes, joining and never-joining values: contents, lookups, iteration scripts, references, clones and refusals compared; non-trivial = three or more runs and either iterated runs or several references",
    level: "exploration",
    assumptions: &[
        "where the tree takes part, boundary insertions joining both neighbours are excluded (recorded finding); the mock alone is checked on them",
        "ranges unbounded below and ending below zero are not judged",
    ],
    probes: &[],
    fuel: 400_000_000,
};
