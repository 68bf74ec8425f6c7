//! Interpretation of a history on one instantiation.
use crate::gen::Op;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::range::{EndBound, StartBound};
use sherman::{Cursor, Index, PathComponent, RleTree, Slice, SliceRef};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub fn mix(h: u64, x: u64) -> u64 {
    let mut z = (h ^ x).wrapping_add(0x9E3779B97F4A7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}
fn mix2(h: u64, x: u128) -> u64 {
    mix(mix(h, x as u64), (x >> 64) as u64)
}

pub trait Ix: Index + 'static {
    const BITS: u32;
    const NAME: &'static str;
    fn of(x: u128) -> Option<Self>;
    fn to(self) -> u128;
}
macro_rules! ix {
    ($($t:ident $b:literal),*) => { $(
        impl Ix for $t {
            const BITS: u32 = $b;
            const NAME: &'static str = stringify!($t);
            fn of(x: u128) -> Option<Self> { x.try_into().ok() }
            fn to(self) -> u128 { self as u128 }
        }
    )* };
}
ix!(u8 8, u16 16, u32 32, u64 64, u128 128, usize 64);

/// Letters (src < 16, join when equal), segments (join when contiguous), solitary values (never join)
#[derive(Clone, Debug, PartialEq)]
pub struct V<const J: bool> {
    pub src: u32,
    pub lo: u128,
    pub hi: u128,
}
pub const SOLO: u32 = 1 << 20;
pub fn make<const J: bool>(src: u32, lo: u128, size: u128) -> V<J> {
    if src < 16 {
        V { src, lo: 0, hi: 0 }
    } else {
        V { src, lo, hi: lo.wrapping_add(size) }
    }
}
pub fn joins<const J: bool>(a: &V<J>, b: &V<J>) -> bool {
    J && a.src == b.src && a.src < SOLO && a.hi == b.lo
}
pub fn cut<const J: bool>(v: &mut V<J>, at: u128) -> V<J> {
    if v.src < 16 {
        v.clone()
    } else {
        let m = v.lo.wrapping_add(at);
        let r = V { src: v.src, lo: m, hi: v.hi };
        v.hi = m;
        r
    }
}
impl<I: Ix, const J: bool> Slice<I> for V<J> {
    const MAY_JOIN: bool = J;
    fn split_at(&mut self, at: I) -> Self {
        cut(self, at.to())
    }
    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        if joins(&self, &other) {
            Ok(V { src: self.src, lo: self.lo, hi: other.hi })
        } else {
            Err((self, other))
        }
    }
}

#[derive(Clone, Default)]
pub struct Path(Vec<PathComponent>);
impl Cursor for Path {
    fn new_empty() -> Self {
        Path(vec![])
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        self.0.push(c)
    }
    type PathIter = std::iter::Rev<std::vec::IntoIter<PathComponent>>;
    fn into_path(self) -> Self::PathIter {
        self.0.into_iter().rev()
    }
}

pub trait Px<I: Ix, const J: bool, const M: usize>: RleTreeConfig<I, V<J>, M> + SupportsInsert<I, V<J>, M> + 'static {
    const C: char;
    fn dup(t: &RleTree<I, V<J>, Self, M>) -> Option<RleTree<I, V<J>, Self, M>>;
    fn ins_ref(t: &mut RleTree<I, V<J>, Self, M>, i: I, v: V<J>, n: I) -> Option<SliceRef<I, V<J>, M>>;
    fn mk_ref(t: &RleTree<I, V<J>, Self, M>, i: I) -> Option<SliceRef<I, V<J>, M>>;
}
macro_rules! px {
    ($p:ident $c:literal $dup:expr) => {
        impl<I: Ix, const J: bool, const M: usize> Px<I, J, M> for $p {
            const C: char = $c;
            fn dup(t: &RleTree<I, V<J>, Self, M>) -> Option<RleTree<I, V<J>, Self, M>> {
                Some(t.clone())
            }
            fn ins_ref(t: &mut RleTree<I, V<J>, Self, M>, i: I, v: V<J>, n: I) -> Option<SliceRef<I, V<J>, M>> {
                t.insert(i, v, n);
                None
            }
            fn mk_ref(_: &RleTree<I, V<J>, Self, M>, _: I) -> Option<SliceRef<I, V<J>, M>> {
                None
            }
        }
    };
}
px!(NoFeatures 'N' 0);
px!(AllowCow 'C' 0);
impl<I: Ix, const J: bool, const M: usize> Px<I, J, M> for AllowSliceRefs {
    const C: char = 'R';
    fn dup(_: &RleTree<I, V<J>, Self, M>) -> Option<RleTree<I, V<J>, Self, M>> {
        None
    }
    fn ins_ref(t: &mut RleTree<I, V<J>, Self, M>, i: I, v: V<J>, n: I) -> Option<SliceRef<I, V<J>, M>> {
        Some(t.insert_ref(i, v, n))
    }
    fn mk_ref(t: &RleTree<I, V<J>, Self, M>, i: I) -> Option<SliceRef<I, V<J>, M>> {
        Some(t.get(i).make_ref())
    }
}

#[derive(Default)]
pub struct Obs {
    pub main: Vec<u64>,
    pub refs: Vec<u64>,
    pub text: Vec<String>,
}

enum Snap<T> {
    Tree(T),
    /// hash of the contents at that time, for trees that cannot be cloned
    Hash(u64),
}

const PANIC: u64 = 0xdead;

fn ent(h: u64, r: std::ops::Range<u128>, size: u128, src: u32, lo: u128, hi: u128) -> u64 {
    mix2(mix2(mix(mix2(mix2(mix2(h, r.start), r.end), size), src as u64), lo), hi)
}

fn guard(f: impl FnOnce() -> u64) -> u64 {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or(PANIC)
}

fn see<I: Ix, P: Px<I, J, M>, const J: bool, const M: usize>(e: &sherman::SliceEntry<'_, I, V<J>, P, M>, h: u64) -> u64 {
    let (r, s) = (e.range(), e.slice());
    ent(h, r.start.to()..r.end.to(), e.size().to(), s.src, s.lo, s.hi)
}

fn dump<I: Ix, P: Px<I, J, M>, const J: bool, const M: usize>(t: &RleTree<I, V<J>, P, M>) -> u64 {
    guard(|| {
        #[cfg(feature = "fuzz")]
        t.validate();
        let mut h = mix2(mix(1, t.number_of_slices() as u64), t.size().to());
        for e in t.iter(..) {
            h = see(&e, h);
        }
        let mut b = 0;
        for e in t.iter(..).rev() {
            b = see(&e, b);
        }
        mix(h, b)
    })
}

fn path_of<I: Ix, P: Px<I, J, M>, const J: bool, const M: usize>(t: &RleTree<I, V<J>, P, M>, at: u128) -> Path {
    let n = t.size().to();
    if n == 0 {
        return Path::default();
    }
    t.cursor_to(I::of(at % n).unwrap())
}

pub fn run<I: Ix, P: Px<I, J, M>, const J: bool, const M: usize>(ops: &[Op]) -> Obs {
    let mut t: RleTree<I, V<J>, P, M> = RleTree::new_empty();
    let mut o = Obs::default();
    let mut snaps: Vec<Snap<RleTree<I, V<J>, P, M>>> = Vec::new();
    let mut refs: Vec<SliceRef<I, V<J>, M>> = Vec::new();
    for op in ops {
        let (mut r, mut rr) = (0u64, 0u64);
        let mut poisoned = false;
        match op.k {
            // insertions: plain, with a hint, with a reference
            0 | 1 | 2 => match (I::of(op.a), I::of(op.b)) {
                (Some(i), Some(n)) => {
                    let v = make::<J>(op.c as u32, op.e, op.b);
                    if t.number_of_slices() == 0 && op.k == 0 && op.a == 0 && op.d % 2 == 0 {
                        r = guard(|| {
                            t = RleTree::new(v, n);
                            1
                        });
                    } else {
                        r = guard(|| {
                            match op.k {
                                0 => t.insert(i, v, n),
                                1 => {
                                    let h = path_of(&t, op.d);
                                    let c = t.insert_with_cursor(h, i, v, n);
                                    // following it must lead somewhere sensible
                                    let at = I::of(op.a.min(t.size().to() - 1)).unwrap();
                                    return see(&t.get_with_cursor(c, at), 2);
                                }
                                _ => refs.extend(P::ins_ref(&mut t, i, v, n)),
                            }
                            1
                        });
                    }
                    poisoned = r == PANIC && op.ok;
                    // the tree itself is part of the observation
                    if r != PANIC {
                        r = mix2(mix(r, t.number_of_slices() as u64), t.size().to());
                    }
                }
                _ => r = PANIC,
            },
            3 | 4 => {
                r = match I::of(op.a) {
                    Some(i) => guard(|| {
                        if op.k == 3 {
                            see(&t.get(i), 3)
                        } else {
                            let h = path_of(&t, op.d);
                            see(&t.get_with_cursor(h, i), 3)
                        }
                    }),
                    None => PANIC,
                }
            }
            5 => {
                r = match (I::of(op.a), I::of(op.b)) {
                    (Some(a), Some(b)) => guard(|| {
                        let s = if op.c & 1 == 0 { StartBound::Unbounded } else { StartBound::Included(a) };
                        let e = match op.c / 2 % 3 {
                            0 => EndBound::Unbounded,
                            1 => EndBound::Included(b),
                            _ => EndBound::Excluded(b),
                        };
                        let mut h = 5;
                        let mut go = |it: &mut dyn FnMut(bool) -> Option<u64>| {
                            let mut end = 0;
                            let mut k = 0;
                            while end < 3 && k < 4000 {
                                let f = op.e >> (k % 100) & 1 == 1;
                                match it(f) {
                                    Some(x) => h = mix(h, x),
                                    None => {
                                        end += 1;
                                        h = mix(h, 77);
                                    }
                                }
                                k += 1;
                            }
                        };
                        if op.c / 6 % 2 == 0 {
                            let mut it = t.iter((s, e));
                            go(&mut |f| if f { it.next() } else { it.next_back() }.map(|e| see(&e, f as u64)));
                        } else {
                            let p = path_of(&t, op.d);
                            let mut it = t.iter_with_cursor(p, (s, e));
                            go(&mut |f| if f { it.next() } else { it.next_back() }.map(|e| see(&e, f as u64)));
                        }
                        h
                    }),
                    _ => PANIC,
                }
            }
            6 => r = dump(&t),
            7 => {
                match P::dup(&t) {
                    Some(d) => {
                        snaps.push(Snap::Tree(d));
                        if op.c % 2 == 0 {
                            if let Some(Snap::Tree(x)) = snaps.last_mut() {
                                std::mem::swap(&mut t, x);
                            }
                        }
                    }
                    None => snaps.push(Snap::Hash(dump(&t))),
                }
                if snaps.len() > 4 {
                    let s = snaps.remove(op.d as usize % 5);
                    r = match &s {
                        Snap::Tree(t) => dump(t),
                        Snap::Hash(h) => *h,
                    };
                }
            }
            8 => {
                if let Some(i) = I::of(op.a) {
                    if op.a < t.size().to() {
                        refs.extend(P::mk_ref(&t, i));
                    }
                }
            }
            9 => {
                if !refs.is_empty() {
                    let k = op.c as usize % refs.len();
                    rr = guard(|| {
                        let x = refs[k].range();
                        let b = refs[k].borrow_slice();
                        ent(9, x.start.to()..x.end.to(), 0, b.src, b.lo, b.hi)
                    });
                    if op.d % 3 == 0 {
                        refs.swap_remove(k);
                    }
                }
            }
            _ => {}
        }
        o.main.push(r);
        o.refs.push(rr);
        o.text.push(if r == PANIC { "panic".into() } else { format!("{r:x}") });
        if poisoned {
            std::mem::forget((t, snaps, refs));
            return o;
        }
    }
    let mut h = dump(&t);
    for s in &snaps {
        h = mix(h, match s {
            Snap::Tree(t) => dump(t),
            Snap::Hash(h) => *h,
        });
    }
    for r in &refs {
        let x = guard(|| {
            let x = r.range();
            mix2(mix2(1, x.start.to()), x.end.to())
        });
        o.refs.push(x);
    }
    o.main.push(h);
    o.text.push(format!("{h:x}"));
    // dropping everything must work, in either order
    let x = guard(|| {
        if ops.len() % 2 == 0 {
            drop(refs);
            drop(snaps);
            drop(t);
        } else {
            drop(t);
            drop(snaps);
            drop(refs);
        }
        1
    });
    *o.main.last_mut().unwrap() = mix(h, x);
    o
}
