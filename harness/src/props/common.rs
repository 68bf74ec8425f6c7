//! Shared generators, operation interpreters and oracles.
use crate::dynt::*;
use crate::engine::*;
use crate::model::*;
use crate::rng::Rng;
use crate::types::*;
use sherman::range::{EndBound, StartBound};
use std::cmp::Ordering;
use std::ops::Range;

pub type Res = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}

pub fn eq<I: HIdx>(a: I, b: I) -> bool {
    a.m_cmp(b) == Ordering::Equal
}
pub fn lt<I: HIdx>(a: I, b: I) -> bool {
    a.m_cmp(b) == Ordering::Less
}

/// cfg[0]: instantiation
pub fn inst_of(x: u32) -> Inst {
    let p = [P::No, P::Cow, P::Ref][(x % 3) as usize];
    if x >= 48 {
        return Inst { p, m: MS_WIDE[(x / 3 % 2) as usize], j: true };
    }
    let m = MS[(x / 3 % 4) as usize];
    let j = (x / 12) % 4 != 3;
    Inst { p, m, j }
}
pub fn inst_p(x: u32, p: P) -> Inst {
    Inst { p, ..inst_of(x) }
}

// -- generators -------------------------------------------------------------------------------

/// Number of value styles understood by `make_val`
pub const N_STYLES: u32 = 7;

/// Operation kinds shared by the drivers: 0 = insert, 1 = fill; others are driver specific
pub const OP_INSERT: u32 = 0;
pub const OP_FILL: u32 = 1;

pub fn gen_cfg(r: &mut Rng) -> Vec<u32> {
    // instantiation, value style, size style
    vec![
        r.below(48) as u32,
        r.weighted(&[3, 2, 3, 3, 2, 3, 2]) as u32,
        r.weighted(&[3, 4, 3, 1]) as u32,
    ]
}

/// Once in `per` cases: wide nodes (up to the widest), filled far enough to split them
pub fn widen(r: &mut Rng, tier: Tier, per: u64, mut c: Case) -> Case {
    if tier != Tier::Mini && r.chance(1, per) {
        c.cfg[0] = 48 + r.below(6) as u32;
        c.cfg[2] %= 3;
        let n = [100u64, 300, 640, 900][r.below(4) as usize];
        let mut f = gen_fill(r, n);
        f[1] += n as u32 / 2;
        c.ops.retain(|o| o[0] != OP_FILL);
        c.ops.insert(0, f);
    }
    c
}

pub fn gen_insert(r: &mut Rng) -> Op {
    [OP_INSERT, r.u32() % 1000, r.u32() % 100_000, r.u32() % 100_000, r.u32() % 100_000, r.u32() % 64]
}
pub fn gen_fill(r: &mut Rng, max: u64) -> Op {
    [OP_FILL, 1 + r.below(max) as u32, r.below(6) as u32, r.u32() % 100_000, r.u32() % 100_000, 0]
}

/// Skeleton used by most drivers: a number of operations drawn from a size class, some of them bulk
/// fills, the rest from `f`
pub fn gen_ops(r: &mut Rng, tier: Tier, mut f: impl FnMut(&mut Rng) -> Op) -> Vec<Op> {
    if tier == Tier::Mini {
        let n = 3 + r.below(12);
        let mut ops: Vec<Op> = (0..n).map(|_| f(r)).collect();
        if r.chance(2, 3) {
            ops.insert(0, gen_fill(r, 14));
        }
        return ops;
    }
    let class = r.weighted(&[30, 45, 20, 5]);
    let (n, fills, fmax) = match class {
        0 => (1 + r.below(10), r.below(2), 12),
        1 => (5 + r.below(50), r.below(3), 40),
        2 => (20 + r.below(120), 1 + r.below(3), 120),
        _ => (
            50 + r.below(if tier == Tier::Quick { 200 } else { 500 }),
            1 + r.below(3),
            if tier == Tier::Quick { 300 } else { 900 },
        ),
    };
    let mut ops: Vec<Op> = (0..n).map(|_| f(r)).collect();
    for _ in 0..fills {
        let at = if r.chance(2, 3) { 0 } else { r.below(ops.len() as u64 + 1) as usize };
        let o = gen_fill(r, fmax);
        ops.insert(at, o);
    }
    ops
}

// -- interpretation ---------------------------------------------------------------------------

pub fn pos_boundary<I: HIdx>(m: &Model<I>, i: usize) -> I {
    let n = m.len() + 1;
    let i = i % n;
    if i == m.len() {
        m.size()
    } else {
        m.start(i)
    }
}
pub fn pos_interior<I: HIdx>(m: &Model<I>, i: usize, r: u32) -> I {
    if m.len() == 0 {
        return I::ZERO;
    }
    let i = i % m.len();
    match m.runs[i].size.interior(r) {
        Some(o) => m.start(i).m_add(o),
        None => m.start(i),
    }
}

/// Insertion position from two numbers, relative to the current contents and the last insertion
pub fn resolve_pos<I: HIdx>(m: &Model<I>, mode: u32, arg: u32, last: usize) -> I {
    let n = m.len();
    match mode % 13 {
        0 => I::ZERO,
        1 => m.size(),
        2 | 3 | 4 => pos_boundary(m, arg as usize),
        5 | 6 | 7 | 12 => pos_interior(m, arg as usize, arg / 7),
        8 => pos_boundary(m, last.min(n)),
        9 => pos_boundary(m, (last + 1).min(n)),
        10 => pos_interior(m, last.min(n.max(1) - 1), arg),
        _ => pos_interior(m, (last + arg as usize % 3).min(n.max(1) - 1), arg / 3),
    }
}
/// Some in-bounds index (the tree must not be empty)
pub fn resolve_idx<I: HIdx>(m: &Model<I>, mode: u32, arg: u32) -> I {
    let n = m.len();
    let i = arg as usize % n;
    match mode % 4 {
        0 => m.start(i),
        1 | 2 => pos_interior(m, i, arg / 3),
        _ => {
            // last point of a run, for integer-like indexes
            m.runs[i].size.interior(u32::MAX - 1).map(|o| m.start(i).m_add(o)).unwrap_or(m.start(i))
        }
    }
}

pub fn make_val<I: HIdx>(m: &Model<I>, style: u32, idx: I, size: I, arg: u32) -> Val<I> {
    let style = if style % N_STYLES == 6 { arg / 17 % 6 } else { style % N_STYLES };
    let spot = m.spot(idx);
    let (left, right): (Option<&Val<I>>, Option<&Val<I>>) = match spot {
        Spot::Edge(i) => (i.checked_sub(1).map(|k| &m.runs[k].val), m.runs.get(i).map(|r| &r.val)),
        Spot::Inside(i, _) => (Some(&m.runs[i].val), Some(&m.runs[i].val)),
    };
    match style {
        // few letters: many joins
        0 => Val::L((arg % 2) as u8),
        // neighbour-biased letters
        1 => {
            let nb = if arg % 2 == 0 { left } else { right };
            match (arg % 3, nb) {
                (0, Some(Val::L(a))) => Val::L(*a),
                _ => Val::L((arg / 6 % 26) as u8),
            }
        }
        // source segments, contiguity-biased
        2 => {
            let fresh = || {
                let lo = I::base(arg);
                Val::S { src: (arg % 5000) as u16, lo, hi: lo.m_add(size) }
            };
            match (arg % 4, left, right, spot) {
                (0, Some(Val::S { src, hi, .. }), _, Spot::Edge(_)) => {
                    Val::S { src: *src, lo: *hi, hi: hi.m_add(size) }
                }
                (0, Some(Val::S { src, lo, .. }), _, Spot::Inside(_, off)) => {
                    let lo = lo.m_add(off);
                    Val::S { src: *src, lo, hi: lo.m_add(size) }
                }
                (1, _, Some(Val::S { src, lo, .. }), _) => {
                    let hi = match spot {
                        Spot::Inside(_, off) => lo.m_add(off),
                        _ => *lo,
                    };
                    match hi.m_sub_right(size) {
                        Some(lo) => Val::S { src: *src, lo, hi },
                        None => fresh(),
                    }
                }
                _ => fresh(),
            }
        }
        // never joining
        3 => {
            let lo = I::base(arg / 3);
            Val::R { src: (arg % 7) as u16, lo, hi: lo.m_add(size) }
        }
        // dominoes
        4 => {
            let l = match (arg % 3, left) {
                (0, Some(Val::D(_, r))) => *r,
                _ => (arg / 3 % 4) as u8,
            };
            let r = match (arg % 5, right) {
                (0, Some(Val::D(l, _))) => *l,
                _ => (arg / 15 % 4) as u8,
            };
            if let (Spot::Inside(..), 0) = (spot, arg % 4) {
                Val::D(200, 200)
            } else {
                Val::D(l, r)
            }
        }
        // copies of a neighbour's letter or rigid
        _ => {
            if arg % 3 == 0 {
                let lo = I::base(arg);
                Val::R { src: (arg % 3) as u16, lo, hi: lo.m_add(size) }
            } else {
                Val::L((arg / 3 % 3) as u8)
            }
        }
    }
}

pub fn unjoinable<I: HIdx>(size: I, salt: u32) -> Val<I> {
    let lo = I::base(salt);
    Val::R { src: (salt % 50) as u16 + 100, lo, hi: lo.m_add(size) }
}

/// A concrete insertion
#[derive(Clone, Debug)]
pub struct Ins<I> {
    pub idx: I,
    pub val: Val<I>,
    pub size: I,
}

/// Decode an insert operation against the current contents. Insertions which would merge with both
/// neighbours at an existing boundary hit a recorded finding (unimplemented); they are replaced by
/// a non-joining value and counted.
pub fn decode_insert<I: HIdx>(m: &Model<I>, op: &Op, style: u32, sstyle: u32, last: usize, ctx: &mut Ctx) -> Ins<I> {
    let idx = resolve_pos(m, op[1], op[2], last);
    let size = I::gen_size(op[3], sstyle);
    let mut val = make_val(m, style, idx, size, op[4]);
    if m.is_double_edge_join(idx, &val) {
        ctx.c("excluded: boundary insertion joining both neighbours (recorded finding)");
        val = unjoinable(size, op[4]);
    }
    Ins { idx, val, size }
}

/// Positions and values of a bulk fill
pub fn fill_step<I: HIdx>(m: &Model<I>, op: &Op, k: u32, sstyle: u32, last: usize) -> Ins<I> {
    let x = (op[3] as u64).wrapping_add(k as u64).wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407) >> 33;
    let n = m.len() + 1;
    let idx = match op[2] % 6 {
        0 => m.size(),
        1 => I::ZERO,
        2 => pos_boundary(m, x as usize % n),
        3 => pos_boundary(m, n / 2),
        4 => pos_boundary(m, (last + 1).min(m.len())),
        _ => {
            if x % 3 == 0 {
                pos_interior(m, (x / 3) as usize, x as u32)
            } else {
                pos_boundary(m, x as usize % n)
            }
        }
    };
    let size = I::gen_size((x as u32) ^ op[4], sstyle);
    Ins { idx, val: unjoinable(size, (op[4].wrapping_add(k)) % 4000), size }
}

// -- oracles ----------------------------------------------------------------------------------

pub fn check_ent<I: HIdx>(e: &Ent<I>, m: &Model<I>, i: usize, what: &str) -> Res {
    ensure!(i < m.len(), "{what}: entry {e:?} reported although the sequence has only {} runs", m.len());
    let (s, t, z, v) = (m.start(i), m.end(i), m.runs[i].size, &m.runs[i].val);
    ensure!(
        eq(e.start, s) && eq(e.end, t),
        "{what}: run {i} reported at {:?}..{:?}, expected {s:?}..{t:?}",
        e.start,
        e.end
    );
    ensure!(eq(e.size, z), "{what}: run {i} reported with size {:?}, expected {z:?}", e.size);
    ensure!(e.val.same(v), "{what}: run {i} has value {:?}, expected {v:?}", e.val);
    Ok(())
}

/// Full comparison of a tree with its reference sequence
pub fn check_full<I: HIdx>(t: &dyn DynTree<I>, m: &Model<I>, what: &str) -> Res {
    ensure!(eq(t.size(), m.size()), "{what}: size() is {:?}, expected {:?}", t.size(), m.size());
    ensure!(
        t.nslices() == m.len(),
        "{what}: number of runs is {}, expected {}",
        t.nslices(),
        m.len()
    );
    let es = t.entries();
    for (i, e) in es.iter().enumerate() {
        check_ent(e, m, i, what)?;
    }
    ensure!(es.len() == m.len(), "{what}: iteration yielded {} runs, expected {}", es.len(), m.len());
    Ok(())
}

/// Whether to run an O(n) check at this step
pub fn due(step: usize, n: usize) -> bool {
    n <= 48 || step % (1 + n / 24) == 0
}

/// Height of a tree as a number of levels below the root, from the deepest recorded path
pub fn height<I: HIdx>(t: &dyn DynTree<I>, m: &Model<I>) -> usize {
    if m.len() == 0 {
        0
    } else {
        // the first run is always in a leaf
        t.cursor_to(I::ZERO).rev.len()
    }
}

/// Rebuild the node structure from the in-order sequence of root-to-node paths of all runs and
/// check that it is a B-tree with the given minimum. Returns the height.
pub fn check_paths(paths: &[Vec<u8>], min: usize) -> Result<usize, String> {
    let h = paths.iter().map(|p| p.len()).max().unwrap_or(0);
    if paths.is_empty() {
        return Ok(0);
    }
    fn node(paths: &[Vec<u8>], depth: usize, h: usize, min: usize, root: bool) -> Res {
        if depth == h {
            for p in paths {
                if p.len() != depth {
                    return Err(format!("path {p:?} inside a leaf at depth {depth}"));
                }
            }
            let n = paths.len();
            if n > 2 * min || (!root && n < min) || n == 0 {
                return Err(format!("leaf at depth {depth} holds {n} runs (minimum {min})"));
            }
            return Ok(());
        }
        let keys: Vec<usize> = (0..paths.len()).filter(|i| paths[*i].len() == depth).collect();
        let n = keys.len();
        if n > 2 * min || (!root && n < min) || n == 0 {
            return Err(format!("inner node at depth {depth} holds {n} runs (minimum {min})"));
        }
        let mut lo = 0;
        for c in 0..=n {
            let hi = if c == n { paths.len() } else { keys[c] };
            let part = &paths[lo..hi];
            if part.is_empty() {
                return Err(format!("child {c} at depth {depth} is empty"));
            }
            for p in part {
                if p.get(depth).copied() != Some(c as u8) {
                    return Err(format!("run in child {c} at depth {depth} has path {p:?}"));
                }
            }
            node(part, depth + 1, h, min, false)?;
            lo = hi + 1;
        }
        Ok(())
    }
    node(paths, 0, h, min, true)?;
    Ok(h)
}

pub fn all_paths<I: HIdx>(t: &dyn DynTree<I>, m: &Model<I>) -> Vec<Vec<u8>> {
    (0..m.len()).map(|i| t.cursor_to(m.start(i)).path()).collect()
}

/// A tree with its reference sequence
pub struct Pair<I: HIdx> {
    pub t: Box<dyn DynTree<I>>,
    pub m: Model<I>,
    pub last: usize,
}
impl<I: HIdx> Pair<I> {
    pub fn new(t: Box<dyn DynTree<I>>) -> Self {
        let j = t.inst().j;
        Pair { t, m: Model::new(j), last: 0 }
    }
    pub fn dup(&self) -> Option<Pair<I>> {
        Some(Pair { t: self.t.dup()?, m: self.m.clone(), last: self.last })
    }
    pub fn note(&mut self, e: &Effect, ctx: &mut Ctx) {
        self.last = e.at;
        if e.split.is_some() {
            ctx.c("insertions splitting a run");
        }
        match (e.join_left, e.join_right) {
            (true, true) => ctx.c("insertions joining both sides"),
            (true, false) => ctx.c("insertions joining left"),
            (false, true) => ctx.c("insertions joining right"),
            _ => {}
        }
    }
    pub fn insert(&mut self, i: Ins<I>, ctx: &mut Ctx) -> Effect {
        self.t.insert(i.idx, i.val.clone(), i.size);
        let e = self.m.insert(i.idx, i.val, i.size);
        self.note(&e, ctx);
        e
    }
    pub fn fill(&mut self, op: &Op, sstyle: u32, ctx: &mut Ctx) {
        for k in 0..op[1].min(2000) {
            let i = fill_step(&self.m, op, k, sstyle, self.last);
            self.insert(i, ctx);
        }
    }
}

// -- shared operation interpretation ----------------------------------------------------------

/// OP_INSERT / OP_FILL on a pair with no hints; returns the effect of an insert
pub fn apply<I: HIdx>(p: &mut Pair<I>, op: &Op, c: &Case, ctx: &mut Ctx) -> Option<Effect> {
    if op[0] == OP_FILL {
        ctx.t(|| format!("fill {} runs, pattern {}", op[1], op[2] % 6));
        p.fill(op, c.cfg(2), ctx);
        None
    } else {
        let i = decode_insert(&p.m, op, c.cfg(1), c.cfg(2), p.last, ctx);
        ctx.t(|| format!("insert {:?} (size {:?}) at {:?}", i.val, i.size, i.idx));
        Some(p.insert(i, ctx))
    }
}

/// A generator mixing insertions and driver-specific operations `2..2+kinds`
pub fn gen_mixed(r: &mut Rng, tier: Tier, ins: u32, others: &[u32]) -> Vec<Op> {
    let mut w = vec![ins];
    w.extend_from_slice(others);
    gen_ops(r, tier, move |r| {
        let k = r.weighted(&w);
        let mut o = gen_insert(r);
        if k > 0 {
            o[0] = 1 + k as u32;
        }
        o
    })
}

/// Some path hint, from two numbers and the trees at hand
pub fn make_hint<I: HIdx>(t: &dyn DynTree<I>, m: &Model<I>, saved: &[VC], kind: u32, arg: u32) -> Option<VC> {
    let exact = |k: u32| {
        (m.len() > 0).then(|| t.cursor_to(resolve_idx(m, k, arg / 4)))
    };
    match kind % 10 {
        0 => None,
        1 | 2 => exact(arg),
        3 | 4 => saved.get(arg as usize % saved.len().max(1)).cloned().or_else(|| Some(VC::default())),
        // random small components
        5 => {
            let mut x = arg as u64 + 1;
            let n = arg % 7;
            Some(VC::from_path(&(0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(99); (x >> 40) as u8 % 6 }).collect::<Vec<_>>()))
        }
        // random wide components
        6 => {
            let mut x = arg as u64 + 1;
            let n = arg % 12;
            Some(VC::from_path(&(0..n).map(|_| { x = x.wrapping_mul(6364136223846793005).wrapping_add(99); (x >> 40) as u8 }).collect::<Vec<_>>()))
        }
        // truncated or extended exact path
        7 => exact(arg).map(|c| {
            let mut p = c.path();
            p.truncate((arg / 8) as usize % (p.len() + 1));
            VC::from_path(&p)
        }),
        8 => exact(arg).map(|c| {
            let mut p = c.path();
            for k in 0..(arg / 8 % 40) {
                p.push((k * 7 + arg) as u8 % 11);
            }
            VC::from_path(&p)
        }),
        // one component changed
        _ => exact(arg).map(|c| {
            let mut p = c.path();
            let n = p.len();
            if n > 0 {
                let i = (arg / 8) as usize % n;
                p[i] = p[i].wrapping_add(1 + (arg / 64 % 3) as u8);
            }
            VC::from_path(&p)
        }),
    }
}

/// Range bounds valid for the current contents, with the indices of the runs they overlap
pub fn make_range<I: HIdx>(m: &Model<I>, a: u32, b: u32, c: u32) -> (Rng2<I>, Range<usize>) {
    let n = m.len();
    if n == 0 {
        return match a % 3 {
            0 => ((StartBound::Unbounded, EndBound::Unbounded), 0..0),
            _ => ((StartBound::Unbounded, EndBound::Excluded(I::ZERO)), 0..0),
        };
    }
    let x = resolve_idx(m, a / 4, b);
    let mut y = resolve_idx(m, c / 8, c / 64);
    let (mut s, mut lo) = match a % 4 {
        0 => (StartBound::Unbounded, I::ZERO),
        _ => (StartBound::Included(x), x),
    };
    // prefer narrow ranges half of the time
    if c % 2 == 0 {
        let i = (m.find(lo) + (c / 64) as usize % 4).min(n - 1);
        y = resolve_idx(m, c / 8, i as u32);
        if m.find(y) < m.find(lo) {
            y = lo;
        }
    }
    let (e, hi, incl) = match c / 2 % 5 {
        0 => (EndBound::Unbounded, m.size(), false),
        1 | 2 => (EndBound::Included(y), y, true),
        3 => (EndBound::Excluded(y), y, false),
        _ => (EndBound::Excluded(m.end(m.find(y))), m.end(m.find(y)), false),
    };
    // make it valid: swap or open the start
    let bad = if incl { lt(hi, lo) } else { !lt(lo, hi) && !matches!(s, StartBound::Unbounded) };
    if bad {
        if incl {
            s = StartBound::Included(hi);
            lo = hi;
        } else {
            s = StartBound::Unbounded;
            lo = I::ZERO;
        }
    }
    if !incl && eq(hi, I::ZERO) {
        return ((StartBound::Unbounded, EndBound::Excluded(hi)), 0..0);
    }
    let o = m.overlapping(lo, hi, incl);
    ((s, e), o)
}

pub fn check_iter<I: HIdx>(
    t: &dyn DynTree<I>,
    m: &Model<I>,
    r: Rng2<I>,
    expect: Range<usize>,
    hint: Option<VC>,
    script_seed: u32,
    what: &str,
) -> Res {
    let n = expect.len();
    let mut x = script_seed as u64 * 2 + 1;
    let style = script_seed % 5;
    let total = n + 3;
    let script: Vec<bool> = (0..total)
        .map(|k| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            let b = (x >> 33) & 1 == 1;
            match style {
                0 => true,
                1 => false,
                2 => k % 2 == 0,
                3 => (x >> 35) % 5 != 0,
                _ => b,
            }
        })
        .collect();
    let got = t.iter_script(r, hint, &script);
    let (mut lo, mut hi) = (expect.start, expect.end);
    for (k, (g, f)) in got.iter().zip(&script).enumerate() {
        let w = || format!("{what}: iterating {r:?} (runs {expect:?}), step {k} from the {}", if *f { "front" } else { "back" });
        let want = if lo >= hi {
            None
        } else if *f {
            lo += 1;
            Some(lo - 1)
        } else {
            hi -= 1;
            Some(hi)
        };
        match (g, want) {
            (None, None) => {}
            (Some(g), Some(i)) => check_ent(g, m, i, &w())?,
            (Some(g), None) => return Err(format!("{}: yielded {g:?} after exhaustion", w())),
            (None, Some(i)) => return Err(format!("{}: yielded nothing, expected run {i}", w())),
        }
    }
    Ok(())
}

// -- clone families ---------------------------------------------------------------------------

/// Operation on a family of clones
pub const OP_KIN: u32 = 100;

/// The members of a clone family other than the one currently worked on, each with its own
/// reference sequence
pub struct Kin<I: HIdx>(pub Vec<Pair<I>>);
impl<I: HIdx> Kin<I> {
    /// Duplicate, switch between, mutate, inspect or drop members
    pub fn op(&mut self, p: &mut Pair<I>, op: &Op, c: &Case, ctx: &mut Ctx) -> Res {
        let n = self.0.len();
        let at = op[2] as usize % n.max(1);
        match op[1] % 8 {
            0 | 1 | 2 => {
                let Some(d) = p.dup() else { return Ok(()) };
                ctx.t(|| format!("clone ({} members before), continue on the {}", n + 1, if op[1] % 8 == 0 { "original" } else { "clone" }));
                ctx.c("clones taken");
                self.0.push(d);
                if op[1] % 8 > 0 {
                    std::mem::swap(p, &mut self.0[n]);
                }
                if self.0.len() > 4 {
                    self.0.remove(op[3] as usize % 5);
                }
            }
            3 | 4 if n > 0 => {
                ctx.t(|| format!("switch to member {at}"));
                ctx.c("switches between clones");
                std::mem::swap(p, &mut self.0[at]);
            }
            5 if n > 0 => {
                ctx.t(|| format!("drop member {at}"));
                self.0.remove(at);
            }
            6 if n > 0 => {
                let k = 1 + op[3] % 9;
                ctx.t(|| format!("insert {k} runs into member {at}"));
                let o = &mut self.0[at];
                o.fill(&[OP_FILL, k, op[3] / 9 % 6, op[4], op[5], 0], c.cfg(2), ctx);
                ctx.c("insertions into another member");
            }
            7 if n > 0 => {
                ctx.t(|| format!("inspect member {at}"));
                self.check(at, op[4], "an inspected clone")?;
            }
            _ => {}
        }
        Ok(())
    }
    fn check(&self, k: usize, salt: u32, what: &str) -> Res {
        let o = &self.0[k];
        check_full(&*o.t, &o.m, what)?;
        check_iter(&*o.t, &o.m, (StartBound::Unbounded, EndBound::Unbounded), 0..o.m.len(), None, 1, what)?;
        let (r, e) = make_range(&o.m, salt, salt / 3, salt / 7);
        check_iter(&*o.t, &o.m, r, e, None, salt, what)
    }
    pub fn finish(&self) -> Res {
        for k in 0..self.0.len() {
            self.check(k, k as u32 * 1000 + self.0[k].m.len() as u32, &format!("at the end: member {k} of the clone family"))?;
        }
        Ok(())
    }
}

/// Sprinkle family operations over some of the cases
pub fn with_kin(r: &mut Rng, mut ops: Vec<Op>) -> Vec<Op> {
    if r.chance(2, 3) || ops.is_empty() {
        return ops;
    }
    let k = 1 + r.below(2 + ops.len() as u64 / 4);
    for _ in 0..k {
        let at = r.below(ops.len() as u64 + 1) as usize;
        ops.insert(at, [OP_KIN, r.u32() % 8, r.u32() % 16, r.u32() % 1000, r.u32() % 100_000, r.u32() % 64]);
    }
    ops
}
