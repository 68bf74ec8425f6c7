use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Model;
use crate::rng::Rng;
use crate::types::*;
use sherman::param::AllowCow;
use sherman::{RleTree, Slice};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, AtomicUsize, Ordering::Relaxed};
use std::sync::mpsc::{Receiver, Sender};
use std::sync::{Arc, Barrier, Mutex};

// -- a stored value with a process-wide, synchronised drop ledger --------------------------------

const N: usize = if cfg!(miri) { 1 << 10 } else { 1 << 17 };
// all accesses are relaxed, so that the ledger adds no ordering between threads that the crate does
// not provide itself
static STATE: [AtomicU8; N] = [const { AtomicU8::new(0) }; N];
static NEXT: AtomicUsize = AtomicUsize::new(0);
static BAD: Mutex<Option<String>> = Mutex::new(None);

fn bad(s: String) {
    let mut b = BAD.lock().unwrap_or_else(|e| e.into_inner());
    if b.is_none() {
        *b = Some(s);
    }
}

thread_local! {
    static JIT: Cell<u64> = const { Cell::new(0) };
}
/// Perturb the schedule from inside user callbacks
fn jitter() {
    let mut x = match JIT.try_with(|j| j.get()) {
        Ok(0) | Err(_) => return,
        Ok(x) => x,
    };
    x ^= x << 13;
    x ^= x >> 7;
    x ^= x << 17;
    let _ = JIT.try_with(|j| j.set(x));
    match x % 16 {
        0 => std::thread::yield_now(),
        1 | 2 => {
            for _ in 0..(x >> 8) % 200 {
                std::hint::spin_loop();
            }
        }
        _ => {}
    }
}

struct At {
    val: Val<CIdx>,
    id: usize,
    // written on creation and read on every use, without synchronisation of its own: an access
    // which is not ordered after the creation, or before the release, is a data race
    payload: Box<u64>,
}
impl At {
    fn new(val: Val<CIdx>) -> At {
        let id = NEXT.fetch_add(1, Relaxed);
        if id < N {
            STATE[id].store(1, Relaxed);
        }
        At { val, id, payload: Box::new(id as u64) }
    }
    fn check(&self, what: &str) {
        if *self.payload != self.id as u64 {
            bad(format!("{what}: payload of value {} is {}", self.id, self.payload));
        }
        if self.id < N {
            let s = STATE[self.id].load(Relaxed);
            if s != 1 {
                bad(format!("{what}: value {} used in ledger state {s} (1 = alive, 2 = dropped)", self.id));
            }
        }
    }
}
impl Drop for At {
    fn drop(&mut self) {
        jitter();
        if self.id < N {
            let o = STATE[self.id].swap(2, Relaxed);
            if o != 1 {
                bad(format!("value {} dropped in ledger state {o} (1 = alive, 2 = dropped)", self.id));
            }
        }
        // an unsynchronised write: conflicts with any access not ordered before this drop
        *self.payload = u64::MAX;
    }
}
impl Clone for At {
    fn clone(&self) -> At {
        self.check("clone");
        jitter();
        At::new(self.val.clone())
    }
}
impl Slice<CIdx> for At {
    const MAY_JOIN: bool = true;
    fn split_at(&mut self, idx: CIdx) -> At {
        self.check("split");
        jitter();
        At::new(self.val.split(idx))
    }
    fn try_join(mut self, other: At) -> Result<At, (At, At)> {
        self.check("join (left)");
        other.check("join (right)");
        jitter();
        match self.val.join(&other.val) {
            Some(v) => {
                self.val = v;
                Ok(self)
            }
            None => Err((self, other)),
        }
    }
}

// -- threads -------------------------------------------------------------------------------------

type Tr<const M: usize> = RleTree<CIdx, At, AllowCow, M>;

struct Own<const M: usize> {
    t: Tr<M>,
    m: Model<CIdx>,
    last: usize,
}

fn same<const M: usize>(t: &Tr<M>, m: &Model<CIdx>, what: &str) -> Res {
    ensure!(eq(t.size(), m.size()), "{what}: size is {:?}, expected {:?}", t.size(), m.size());
    ensure!(t.number_of_slices() == m.len(), "{what}: {} runs, expected {}", t.number_of_slices(), m.len());
    let mut n = 0;
    for e in t.iter(..) {
        ensure!(n < m.len(), "{what}: iteration yields too many runs");
        let r = e.range();
        e.slice().check(what);
        ensure!(
            eq(r.start, m.start(n)) && eq(r.end, m.end(n)) && e.slice().val.same(&m.runs[n].val),
            "{what}: run {n} is {:?} at {r:?}, expected {:?} at {:?}..{:?}",
            e.slice().val,
            m.runs[n].val,
            m.start(n),
            m.end(n)
        );
        n += 1;
    }
    ensure!(n == m.len(), "{what}: iteration yields {n} runs, expected {}", m.len());
    Ok(())
}

// 2 = clone, 3 = drop, 4 = lookup, 5 = full check, 6 = send a clone to another thread,
// 7 = receive, 8 = clone/read the tree all threads share by reference
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let threads = 2 + r.below(if tier == Tier::Mini { 2 } else { 3 }) as u32;
    let mut cfg = gen_cfg(r);
    cfg.push(threads);
    cfg.push(r.below(3) as u32);
    let n = match tier {
        Tier::Mini => 6 + r.below(12),
        _ => 10 + r.below(90),
    };
    let mut ops: Vec<Op> = (0..n)
        .map(|_| {
            let k = r.weighted(&[9, 0, 4, 5, 1, 1, 2, 2, 2]);
            let mut o = gen_insert(r);
            o[0] = k as u32;
            o
        })
        .collect();
    let f = gen_fill(r, if tier == Tier::Mini { 10 } else { 60 });
    ops.insert(0, f);
    Case { cfg, ops }
}

fn worker<const M: usize>(
    me: usize,
    ops: Vec<Op>,
    c: &Case,
    mut own: Vec<Own<M>>,
    shared: Arc<(Tr<M>, Model<CIdx>)>,
    tx: Vec<Sender<Own<M>>>,
    rx: Receiver<Own<M>>,
    start: Arc<Barrier>,
) -> Res {
    let mut ctx = Ctx::default();
    start.wait();
    for (step, op) in ops.iter().enumerate() {
        let what = format!("thread {me}, operation {step}");
        let k = op[5] as usize % own.len().max(1);
        match op[0] {
            0 => {
                if let Some(x) = own.get_mut(k) {
                    let i = decode_insert(&x.m, op, c.cfg(1), c.cfg(2), x.last, &mut ctx);
                    if op[5] % 2 == 0 {
                        x.t.insert(i.idx, At::new(i.val.clone()), i.size);
                    } else {
                        let h: VC = if x.m.len() > 0 { x.t.cursor_to(resolve_idx(&x.m, op[1], op[2])) } else { VC::default() };
                        x.t.insert_with_cursor(h, i.idx, At::new(i.val.clone()), i.size);
                    }
                    x.last = x.m.insert(i.idx, i.val, i.size).at;
                    if op[4] % 4 == 0 {
                        same(&x.t, &x.m, &what)?;
                    }
                }
            }
            2 => {
                if own.len() < 4 && !own.is_empty() {
                    let x = &own[k];
                    let d = Own { t: x.t.clone(), m: x.m.clone(), last: x.last };
                    own.push(d);
                }
            }
            3 => {
                if !own.is_empty() {
                    own.swap_remove(k);
                }
            }
            4 => {
                if let Some(x) = own.get(k) {
                    if x.m.len() > 0 {
                        let idx = resolve_idx(&x.m, op[1], op[2]);
                        let e = x.t.get(idx);
                        let i = x.m.find(idx);
                        let r = e.range();
                        e.slice().check(&what);
                        ensure!(
                            eq(r.start, x.m.start(i)) && e.slice().val.same(&x.m.runs[i].val),
                            "{what}: lookup at {idx:?} gave {:?} at {r:?}",
                            e.slice().val
                        );
                    }
                }
            }
            5 => {
                if let Some(x) = own.get(k) {
                    same(&x.t, &x.m, &what)?;
                }
            }
            6 => {
                if let Some(x) = own.get(k) {
                    let d = Own { t: x.t.clone(), m: x.m.clone(), last: x.last };
                    let _ = tx[op[4] as usize % tx.len()].send(d);
                }
            }
            7 => {
                if let Ok(x) = rx.try_recv() {
                    same(&x.t, &x.m, &what)?;
                    own.push(x);
                    if own.len() > 5 {
                        own.swap_remove(0);
                    }
                }
            }
            _ => {
                if op[4] % 2 == 0 {
                    same(&shared.0, &shared.1, &what)?;
                } else if own.len() < 5 {
                    own.push(Own { t: shared.0.clone(), m: shared.1.clone(), last: 0 });
                }
            }
        }
    }
    for x in &own {
        same(&x.t, &x.m, &format!("thread {me}, at the end"))?;
        x.t.validate();
    }
    drop(tx);
    Ok(())
}

fn go<const M: usize>(c: &Case, rep: u64, ctx: &mut Ctx) -> Res {
    let n = c.cfg(3).clamp(2, 4) as usize;
    NEXT.store(0, Relaxed);
    *BAD.lock().unwrap_or_else(|e| e.into_inner()) = None;
    JIT.with(|j| j.set(0));
    // the common base
    let mut m: Model<CIdx> = Model::new(true);
    let mut t: Tr<M> = RleTree::new_empty();
    for op in c.ops.iter().filter(|o| o[0] == OP_FILL) {
        for k in 0..op[1].min(100) {
            let i = fill_step(&m, op, k, c.cfg(2), 0);
            t.insert(i.idx, At::new(i.val.clone()), i.size);
            m.insert(i.idx, i.val, i.size);
        }
    }
    let base = m.len();
    // in most cases only the threads hold the base, so that the last of them becomes its sole owner
    let common: (Tr<M>, Model<CIdx>) = if c.cfg(4) == 0 {
        (t.clone(), m.clone())
    } else {
        let mut m2: Model<CIdx> = Model::new(true);
        let mut t2: Tr<M> = RleTree::new_empty();
        for k in 0..2 * M as u32 + 2 {
            let i = fill_step(&m2, &[OP_FILL, 0, 0, 0, 0, 0], k, c.cfg(2), 0);
            t2.insert(i.idx, At::new(i.val.clone()), i.size);
            m2.insert(i.idx, i.val, i.size);
        }
        (t2, m2)
    };
    let barrier = Arc::new(Barrier::new(n));
    let (mut txs, mut rxs) = (vec![], vec![]);
    for _ in 0..n {
        let (tx, rx) = std::sync::mpsc::channel::<Own<M>>();
        txs.push(tx);
        rxs.push(rx);
    }
    let mut own: Vec<Vec<Own<M>>> =
        (0..n).map(|_| vec![Own { t: t.clone(), m: m.clone(), last: 0 }]).collect();
    drop((t, m));
    let shared = Arc::new(common);
    let mut hs = vec![];
    for (me, rx) in rxs.into_iter().enumerate() {
        let ops: Vec<Op> = c.ops.iter().filter(|o| o[0] != OP_FILL && o[3] as usize % n == me).copied().collect();
        let (c, own, shared, txs, barrier) =
            (Case { cfg: c.cfg.clone(), ops: vec![] }, std::mem::take(&mut own[me]), shared.clone(), txs.clone(), barrier.clone());
        let jit = (c.cfg(0) as u64 + 1).wrapping_mul(0x9E3779B97F4A7C15) ^ (me as u64 + 1) ^ (rep << 32);
        hs.push(std::thread::spawn(move || -> Res {
            JIT.with(|j| j.set(jit));
            INSTR.with(|i| i.fuel.set(20_000_000));
            guarded(|| worker(me, ops, &c, own, shared, txs, rx, barrier)).unwrap_or_else(|e| Err(format!("thread {me} panicked: {e}")))
        }));
    }
    drop(txs);
    drop(shared);
    let mut res: Res = Ok(());
    for h in hs {
        let r = h.join().unwrap_or_else(|_| Err("a thread ended abnormally".into()));
        res = res.and(r);
    }
    res?;
    if let Some(b) = BAD.lock().unwrap_or_else(|e| e.into_inner()).take() {
        return Err(b);
    }
    let total = NEXT.load(Relaxed).min(N);
    let alive = (0..total).filter(|i| STATE[*i].load(Relaxed) != 2).count();
    ensure!(alive == 0, "{alive} of {total} values were never dropped after every thread ended");
    ctx.add("values created", total as u64);
    ctx.nontrivial = base > 2 * M && c.ops.iter().filter(|o| o[0] == 0).count() >= 2;
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    ctx.t(|| format!("{} threads, M = {}", c.cfg(3), 1 + c.cfg(0) % 3));
    let reps = if cfg!(miri) { 1 } else { 2 };
    for rep in 0..reps {
        match c.cfg(0) % 3 {
            0 => go::<1>(c, rep, ctx)?,
            1 => go::<2>(c, rep, ctx)?,
            _ => go::<3>(c, rep, ctx)?,
        }
    }
    Ok(())
}

pub const PROP: PropDef = PropDef {
    id: "C10",
    gen,
    run,
    quick: 60_000,
    thorough: 1_000_000,
    rule: "random programs for 2-4 threads (insert, clone, drop, look up, hand clones over through channels, read and clone one tree shared by reference) with schedule perturbation inside user callbacks; each thread checks its own reference sequences, every stored value has a synchronised drop ledger; non-trivial = the common base has several nodes and threads insert",
    level: "exploration",
    assumptions: &["interleavings are those the scheduler and the perturbation produce; a part of the cases runs under Miri, which randomises preemption, models weak memory and detects data races"],
    probes: &[],
    fuel: 200_000_000,
};
