//! C26: a tree of `Constant` values over a built-in index is the run-length encoding of a flat
//! array. The oracle knows nothing about runs: it is that flat array.
use crate::engine::{Case, Ctx, Op, PropDef, Tier};
use crate::rng::Rng;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::{BoundedCursor, Constant, Cursor, Index, RleTree, SliceEntry, SliceRef};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => {
        if !$c {
            return Err(format!($($t)*));
        }
    };
}

type Res = Result<(), String>;

pub trait Ix: Index + 'static {
    fn of(x: u128) -> Self;
    fn to(self) -> u128;
    const TOP: u128;
}
macro_rules! ix {
    ($($t:ty)*) => {$(impl Ix for $t {
        fn of(x: u128) -> Self {
            <$t>::try_from(x).unwrap()
        }
        fn to(self) -> u128 {
            self as u128
        }
        const TOP: u128 = <$t>::MAX as u128;
    })*};
}
ix!(u8 u16 u32 u64 u128 usize);

/// Values to be encoded. `same` is identity of what is stored, which is finer than `==` for the
/// values which are not equal to themselves.
pub trait Tv: Clone + PartialEq + Debug + 'static {
    fn mk(letter: u32) -> Self;
    fn same(&self, o: &Self) -> bool {
        self == o
    }
}
impl Tv for u8 {
    fn mk(l: u32) -> u8 {
        l as u8
    }
}
impl Tv for String {
    fn mk(l: u32) -> String {
        "ab".repeat(l as usize % 5) + &l.to_string()
    }
}
impl Tv for Option<Box<u64>> {
    fn mk(l: u32) -> Self {
        (l > 0).then(|| Box::new(l as u64))
    }
}
impl Tv for () {
    fn mk(_: u32) {}
}
/// letter 0 is not equal to itself
impl Tv for f32 {
    fn mk(l: u32) -> f32 {
        match l {
            0 => f32::NAN,
            l => l as f32,
        }
    }
    fn same(&self, o: &f32) -> bool {
        self.to_bits() == o.to_bits()
    }
}

type Tr<I, T, Q, const M: usize> = RleTree<I, Constant<T>, Q, M>;

pub trait Ft<I: Ix, T: Tv, const M: usize>:
    RleTreeConfig<I, Constant<T>, M> + SupportsInsert<I, Constant<T>, M> + Sized + 'static
{
    type Held;
    fn dup(t: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>>;
    fn held(t: &mut Tr<I, T, Self, M>, idx: I, ins: Option<(T, I)>) -> Option<Self::Held>;
    fn look(h: &Self::Held) -> Option<(std::ops::Range<I>, T)>;
}
impl<I: Ix, T: Tv, const M: usize> Ft<I, T, M> for NoFeatures {
    type Held = ();
    fn dup(t: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>> {
        Some(t.clone())
    }
    fn held(_: &mut Tr<I, T, Self, M>, _: I, _: Option<(T, I)>) -> Option<()> {
        None
    }
    fn look(_: &()) -> Option<(std::ops::Range<I>, T)> {
        None
    }
}
impl<I: Ix, T: Tv, const M: usize> Ft<I, T, M> for AllowCow {
    type Held = ();
    fn dup(t: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>> {
        Some(t.clone())
    }
    fn held(_: &mut Tr<I, T, Self, M>, _: I, _: Option<(T, I)>) -> Option<()> {
        None
    }
    fn look(_: &()) -> Option<(std::ops::Range<I>, T)> {
        None
    }
}
impl<I: Ix, T: Tv, const M: usize> Ft<I, T, M> for AllowSliceRefs {
    type Held = SliceRef<I, Constant<T>, M>;
    fn dup(_: &Tr<I, T, Self, M>) -> Option<Tr<I, T, Self, M>> {
        None
    }
    fn held(t: &mut Tr<I, T, Self, M>, idx: I, ins: Option<(T, I)>) -> Option<Self::Held> {
        Some(match ins {
            Some((v, size)) => t.insert_ref(idx, Constant(v), size),
            None => t.get(idx).make_ref(),
        })
    }
    fn look(h: &Self::Held) -> Option<(std::ops::Range<I>, T)> {
        Some((h.range(), h.borrow_slice().0.clone()))
    }
}

fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    // instantiation, value type, letters, scale of one unit, preload
    let cfg = vec![
        r.below(18) as u32,
        r.weighted(&[4, 2, 2, 1, 2]) as u32,
        r.pick(&[1, 2, 2, 3, 4, 8]),
        r.weighted(&[3, 1, 1, 2]) as u32,
        r.below(10_000) as u32,
    ];
    let n = match (tier, r.below(10)) {
        (Tier::Mini, _) => 3 + r.below(12),
        (_, 0..=2) => 1 + r.below(12),
        (_, 3..=7) => 10 + r.below(60),
        _ => 60 + r.below(if tier == Tier::Quick { 150 } else { 500 }),
    };
    let ops = (0..n)
        .map(|_| [r.weighted(&[12, 2, 3, 3, 1, 1]) as u32, r.u32() % 10_000, r.u32() % 10_000, r.u32() % 10_000, r.u32() % 16, r.u32() % 8])
        .collect();
    Case { cfg, ops }
}

fn group(flat: &[u32], i: usize) -> (usize, usize) {
    let (mut a, mut b) = (i, i + 1);
    while a > 0 && flat[a - 1] == flat[i] {
        a -= 1;
    }
    while b < flat.len() && flat[b] == flat[i] {
        b += 1;
    }
    (a, b)
}

struct Fam<I: Ix, T: Tv, Q: Ft<I, T, M>, const M: usize> {
    t: Tr<I, T, Q, M>,
    flat: Vec<u32>,
    unit: u128,
    /// values which equal themselves: groups of the flat array are exactly the runs
    maximal: bool,
}

impl<I: Ix, T: Tv, Q: Ft<I, T, M>, const M: usize> Fam<I, T, Q, M> {
    fn run_ok(&self, r: std::ops::Range<I>, size: I, v: &T, pos: Option<u128>, what: &str) -> Result<(usize, usize), String> {
        let (s, e) = (r.start.to(), r.end.to());
        ensure!(s < e && e - s == size.to(), "{what}: run at {r:?} reports size {size:?}");
        ensure!(s % self.unit == 0 && e % self.unit == 0, "{what}: run at {r:?} cuts a unit of {}", self.unit);
        let (a, b) = ((s / self.unit) as usize, (e / self.unit) as usize);
        ensure!(b <= self.flat.len(), "{what}: run at {r:?} beyond the array of {} units", self.flat.len());
        if let Some(p) = pos {
            ensure!(s <= p && p < e, "{what}: run at {r:?} does not contain {p}");
        }
        for (k, l) in self.flat[a..b].iter().enumerate() {
            ensure!(T::mk(*l).same(v), "{what}: position {} reads {v:?}, written was {:?}", a + k, T::mk(*l));
        }
        if self.maximal {
            let g = group(&self.flat, a);
            ensure!(g == (a, b), "{what}: run covers units {a}..{b}, equal values extend over {}..{}", g.0, g.1);
        }
        Ok((a, b))
    }
    fn entry_ok(&self, e: &SliceEntry<'_, I, Constant<T>, Q, M>, pos: Option<u128>, what: &str) -> Result<(usize, usize), String> {
        self.run_ok(e.range(), e.size(), &e.slice().0, pos, what)
    }
    fn all(&self, what: &str) -> Res {
        let n = self.flat.len();
        ensure!(self.t.size().to() == n as u128 * self.unit, "{what}: size() is {:?} for {n} units of {}", self.t.size(), self.unit);
        let mut at = 0;
        let mut runs = 0;
        for e in self.t.iter(..) {
            let (a, b) = self.entry_ok(&e, None, what)?;
            ensure!(a == at, "{what}: run starts at unit {a}, the one before ended at {at}");
            at = b;
            runs += 1;
        }
        ensure!(at == n, "{what}: the runs cover {at} of {n} units");
        ensure!(runs == self.t.number_of_slices(), "{what}: {runs} runs, number_of_slices() is {}", self.t.number_of_slices());
        Ok(())
    }
    fn range(&self, op: &Op, what: &str) -> Res {
        let n = self.flat.len() as u128 * self.unit;
        if n == 0 {
            ensure!(self.t.iter(..).next().is_none(), "{what}: an empty tree yields a run");
            return Ok(());
        }
        let p = |x: u32, y: u32| (x as u128 % self.flat.len() as u128) * self.unit + if y % 2 == 0 { 0 } else { self.unit - 1 };
        let (mut a, mut b) = (p(op[1], op[4]), p(op[2], op[4] / 2));
        if a > b {
            std::mem::swap(&mut a, &mut b);
        }
        // overlapping units, first and last
        let (range, first, last): ((Bound<I>, Bound<I>), u128, Option<u128>) = match op[5] % 6 {
            0 => ((Bound::Included(I::of(a)), Bound::Included(I::of(b))), a, Some(b)),
            1 if a < b => ((Bound::Included(I::of(a)), Bound::Excluded(I::of(b))), a, Some(b - 1)),
            2 => ((Bound::Included(I::of(a)), Bound::Unbounded), a, Some(n - 1)),
            3 => ((Bound::Unbounded, Bound::Included(I::of(b))), 0, Some(b)),
            4 => ((Bound::Unbounded, Bound::Excluded(I::of(b))), 0, b.checked_sub(1)),
            _ => ((Bound::Unbounded, Bound::Unbounded), 0, Some(n - 1)),
        };
        use sherman::range::{EndBound, StartBound};
        let r = (
            match range.0 {
                Bound::Included(x) => StartBound::Included(x),
                _ => StartBound::Unbounded,
            },
            match range.1 {
                Bound::Included(x) => EndBound::Included(x),
                Bound::Excluded(x) => EndBound::Excluded(x),
                _ => EndBound::Unbounded,
            },
        );
        let mut it = self.t.iter(r);
        let (mut front, mut back) = (Vec::new(), Vec::new());
        let mut k = op[3];
        loop {
            let fwd = k % 2 == 0;
            k = k.rotate_right(1);
            match if fwd { it.next() } else { it.next_back() } {
                None => break,
                Some(e) => {
                    let g = self.entry_ok(&e, None, what)?;
                    if fwd { &mut front } else { &mut back }.push(g);
                }
            }
        }
        ensure!(it.next().is_none() && it.next_back().is_none(), "{what}: {range:?} yields more after its end");
        front.extend(back.into_iter().rev());
        match last {
            None => ensure!(front.is_empty(), "{what}: {range:?} yields {front:?}"),
            Some(l) => {
                let (fu, lu) = ((first / self.unit) as usize, (l / self.unit) as usize);
                ensure!(!front.is_empty(), "{what}: {range:?} yields nothing");
                ensure!(front.windows(2).all(|w| w[0].1 == w[1].0), "{what}: {range:?} yields {front:?}");
                let (f, l) = (front[0], front[front.len() - 1]);
                ensure!(f.0 <= fu && fu < f.1 && l.0 <= lu && lu < l.1, "{what}: {range:?} yields {front:?}, overlapping units are {fu}..={lu}");
            }
        }
        Ok(())
    }
    fn insert(&mut self, p: usize, letter: u32, k: usize, op: &Op) -> Option<(usize, Q::Held)> {
        let (i, z, v) = (I::of(p as u128 * self.unit), I::of(k as u128 * self.unit), T::mk(letter));
        let mut held = None;
        match op[4] {
            0..=4 => self.t.insert(i, Constant(v), z),
            5..=8 => {
                let near = if self.flat.is_empty() { None } else { Some(I::of((op[2] as u128 * 7 % self.flat.len() as u128) * self.unit)) };
                let c: BoundedCursor = match near {
                    Some(x) => self.t.cursor_to(x),
                    None => BoundedCursor::new_empty(),
                };
                let _ = self.t.insert_with_cursor(c, i, Constant(v), z);
            }
            _ => match Q::held(&mut self.t, i, Some((v.clone(), z))) {
                Some(h) => held = Some((p, h)),
                None => self.t.insert(i, Constant(v), z),
            },
        }
        self.flat.splice(p..p, std::iter::repeat(letter).take(k));
        held
    }
}

fn hist<I: Ix, T: Tv, Q: Ft<I, T, M>, const M: usize>(c: &Case, ctx: &mut Ctx) -> Res {
    let letters = c.cfg(2).clamp(1, 8);
    let one = T::mk(0) == T::mk(1);
    let selfeq = T::mk(0) == T::mk(0);
    // number of units and the index points per unit
    let (cap, unit): (u128, u128) = {
        let cap = 1500u128.min(I::TOP);
        match c.cfg(3) {
            0 => (cap, 1),
            1 => (cap, I::TOP / cap),
            2 => {
                let u = 2 + c.cfg(4) as u128 % 11;
                (cap.min(I::TOP / u), u)
            }
            // the total can reach the maximum of the type exactly when the unit divides it
            _ => {
                let u = (1..=cap).map(|k| cap - k + 1).find(|k| I::TOP % k == 0).unwrap();
                (u, I::TOP / u)
            }
        }
    };
    ctx.t(|| format!("index {}, value {}, node size {M}, up to {cap} units of {unit}", std::any::type_name::<I>(), std::any::type_name::<T>()));
    let lt = |x: u32| if one { 0 } else { x % letters };
    let mut cur: Fam<I, T, Q, M> = Fam {
        t: RleTree::new_empty(),
        flat: vec![],
        unit,
        maximal: selfeq,
    };
    if c.cfg(4) % 4 == 0 {
        let (l, k) = (lt(c.cfg(4) / 4), 1 + (c.cfg(4) as usize / 32 % 9).min(cap as usize - 1));
        cur.t = RleTree::new(Constant(T::mk(l)), I::of(k as u128 * unit));
        cur.flat = vec![l; k];
    }
    let mut kin: Vec<Fam<I, T, Q, M>> = vec![];
    let mut held: Vec<(usize, Q::Held)> = vec![];
    let mut last = 0usize;
    let mut joins = 0;
    for (step, op) in c.ops.iter().enumerate() {
        let n = cur.flat.len();
        let room = cap as usize - n;
        let what = format!("after operation {step}");
        match op[0] {
            0 => {
                if room == 0 {
                    ctx.c("insertions skipped, the index type is full");
                    continue;
                }
                let p = match op[1] % 8 {
                    0 => n,
                    1 => 0,
                    2 | 3 if n > 0 => group(&cur.flat, op[1] as usize / 8 % n).0,
                    4 => last.min(n),
                    _ => op[1] as usize / 8 % (n + 1),
                };
                let k = match op[3] % 5 {
                    0 => 1 + op[3] as usize / 5 % 30,
                    1 if op[3] % 35 == 1 => room,
                    _ => 1 + op[3] as usize / 5 % 4,
                }
                .min(room);
                let l = match op[2] % 4 {
                    0 if p > 0 => cur.flat[p - 1],
                    1 if p < n => cur.flat[p],
                    _ => lt(op[2] / 4),
                };
                let before = cur.t.number_of_slices();
                ctx.t(|| format!("insert {k} of {l} at {p}"));
                held.iter_mut().for_each(|h| {
                    if h.0 >= p {
                        h.0 += k;
                    }
                });
                if let Some(h) = cur.insert(p, l, k, op) {
                    if held.len() < 20 {
                        held.push(h);
                    }
                }
                last = p + k;
                if cur.t.number_of_slices() <= before {
                    joins += 1;
                }
                let e = cur.t.get(I::of(p as u128 * unit));
                cur.entry_ok(&e, Some(p as u128 * unit), &what)?;
                if n + k == cap as usize && cap * unit == I::TOP {
                    ctx.c("trees filled up to the maximum of the index type");
                }
            }
            1 => {
                // alternating values, so that the number of runs grows
                let k = (1 + op[2] as usize % 60).min(room);
                ctx.t(|| format!("fill {k} single units"));
                for j in 0..k {
                    let n = cur.flat.len();
                    let p = match op[1] % 3 {
                        0 => n,
                        1 => 0,
                        _ => (op[3] as usize + j * 7919) % (n + 1),
                    };
                    held.iter_mut().for_each(|h| {
                        if h.0 >= p {
                            h.0 += 1;
                        }
                    });
                    cur.insert(p, lt(op[3] + j as u32), 1, &[0; 6]);
                }
            }
            2 if n > 0 => {
                let i = (op[1] as u128 % n as u128) * unit + op[2] as u128 * (unit / 10_000 + 1) % unit;
                let e = cur.t.get(I::of(i));
                cur.entry_ok(&e, Some(i), &format!("{what}: get({i})"))?;
                let c: BoundedCursor<3> = cur.t.cursor_to(I::of(i));
                let e = cur.t.get_with_cursor(c, I::of(i));
                cur.entry_ok(&e, Some(i), &format!("{what}: get_with_cursor({i})"))?;
            }
            3 => cur.range(op, &what)?,
            4 => {
                if let Some(t) = Q::dup(&cur.t) {
                    let flat = cur.flat.clone();
                    kin.push(Fam { t, flat, unit, maximal: selfeq });
                    if kin.len() > 3 {
                        let k = op[1] as usize % kin.len();
                        kin.swap_remove(k);
                    }
                    let k = op[2] as usize % kin.len();
                    if op[3] % 2 == 0 {
                        std::mem::swap(&mut cur, &mut kin[k]);
                    }
                    kin[k].all(&format!("{what}, relative"))?;
                } else if n > 0 && held.len() < 20 {
                    let p = op[1] as usize % n;
                    if let Some(h) = Q::held(&mut cur.t, I::of(p as u128 * unit), None) {
                        held.push((p, h));
                    }
                }
            }
            _ => cur.all(&what)?,
        }
        // A held reference names the run which starts before, and contains or ends with, the unit it
        // was made for, or the left part of that run: its value is the same whatever happened
        for (k, (p, h)) in held.iter().enumerate() {
            if let Some((r, v)) = Q::look(h) {
                let w = format!("{what}: reference {k}, made for unit {p}");
                let (a, _) = cur.run_ok(r.clone(), I::of(r.end.to() - r.start.to()), &v, None, &w)?;
                ensure!(T::mk(cur.flat[*p]).same(&v), "{w}: names units from {a} with value {v:?}, the unit holds {:?}", T::mk(cur.flat[*p]));
                ensure!(a <= *p, "{w}: names a run starting at unit {a}");
            }
        }
    }
    cur.all("at the end")?;
    for k in &kin {
        k.all("at the end, relative")?;
    }
    for (i, l) in cur.flat.iter().enumerate().step_by(1 + cur.flat.len() / 64) {
        let e = cur.t.get(I::of(i as u128 * unit));
        cur.entry_ok(&e, Some(i as u128 * unit), "final lookup")?;
        ensure!(T::mk(*l).same(&e.slice().0), "final lookup of unit {i}");
    }
    // the value itself behaves like what it wraps
    let (x, y) = (T::mk(1), T::mk(2));
    ensure!((Constant(x.clone()) == Constant(y.clone())) == (x == y) && Constant(x.clone()).0 == x, "Constant compares unlike what it holds");
    ctx.add("insertions that did not add a run", joins);
    ctx.max("most runs in a tree", cur.t.number_of_slices() as u64);
    ctx.nontrivial |= cur.t.number_of_slices() > 2 * M + 1 || (joins > 0 && cur.t.number_of_slices() >= 2);
    Ok(())
}

fn derived(c: &Case) -> Res {
    fn h<T: Hash>(t: &T) -> u64 {
        let mut s = DefaultHasher::new();
        t.hash(&mut s);
        s.finish()
    }
    let (a, b) = (c.cfg(4) % 7, c.cfg(4) / 7 % 7);
    let (x, y) = (Constant(a), Constant(b));
    ensure!(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == a.partial_cmp(&b), "Constant({a}) and Constant({b}) are ordered unlike their contents");
    ensure!((h(&x) == h(&y)) == (a == b), "Constant({a}) and Constant({b}): hash");
    ensure!(Constant::<u32>::default() == Constant(0) && format!("{x:?}") == format!("Constant({a})"), "Constant: default or debug form");
    Ok(())
}

fn by_value<I: Ix, Q, const M: usize>(c: &Case, ctx: &mut Ctx) -> Res
where
    Q: Ft<I, u8, M> + Ft<I, String, M> + Ft<I, Option<Box<u64>>, M> + Ft<I, (), M> + Ft<I, f32, M>,
{
    match c.cfg(1) {
        0 => hist::<I, u8, Q, M>(c, ctx),
        1 => hist::<I, String, Q, M>(c, ctx),
        2 => hist::<I, Option<Box<u64>>, Q, M>(c, ctx),
        3 => hist::<I, (), Q, M>(c, ctx),
        _ => hist::<I, f32, Q, M>(c, ctx),
    }
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    derived(c)?;
    match c.cfg(0) % 18 {
        0 => by_value::<u8, NoFeatures, 1>(c, ctx),
        1 => by_value::<u8, AllowCow, 2>(c, ctx),
        2 => by_value::<u8, AllowSliceRefs, 1>(c, ctx),
        3 => by_value::<u16, NoFeatures, 3>(c, ctx),
        4 => by_value::<u16, AllowCow, 1>(c, ctx),
        5 => by_value::<u16, AllowSliceRefs, 2>(c, ctx),
        6 => by_value::<u32, NoFeatures, 2>(c, ctx),
        7 => by_value::<u32, AllowCow, 3>(c, ctx),
        8 => by_value::<u32, AllowSliceRefs, 5>(c, ctx),
        9 => by_value::<u64, NoFeatures, 5>(c, ctx),
        10 => by_value::<u64, AllowCow, 1>(c, ctx),
        11 => by_value::<u64, AllowSliceRefs, 1>(c, ctx),
        12 => by_value::<u128, NoFeatures, 1>(c, ctx),
        13 => by_value::<u128, AllowCow, 2>(c, ctx),
        14 => by_value::<u128, AllowSliceRefs, 3>(c, ctx),
        15 => by_value::<usize, NoFeatures, 4>(c, ctx),
        16 => by_value::<usize, AllowCow, 5>(c, ctx),
        _ => by_value::<usize, AllowSliceRefs, 1>(c, ctx),
    }
}

pub const PROP: PropDef = PropDef {
    id: "C26",
    gen,
    run,
    quick: 60_000,
    thorough: 1_500_000,
    rule: "histories of insertions (single, hinted, referencing, fills), lookups, range iterations, clones and held references over trees of Constant values: six built-in index types, three feature parameters, node sizes 1-5, five value types (one not equal to itself), unit sizes up to the one at which the total is the index type's maximum; after each step compared with a flat array; non-trivial = the tree outgrew one node, or a run was merged in a tree of several",
    level: "exploration",
    assumptions: &["values which are not equal to themselves never merge; for them only contents, not the division into runs, is judged"],
    probes: &[],
    fuel: 400_000_000,
};
