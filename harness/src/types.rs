//! User-side types the tree under test is instantiated with: instrumented index types, an
//! instrumented slice type with a drop ledger, and a path-recording cursor.

use serde::de::{Deserialize, Deserializer};
use serde::{Serialize, Serializer};
use sherman::{Cursor, DirectionalAdd, DirectionalSub, Index, PathComponent, Slice};
use std::cell::{Cell, RefCell};
use std::cmp::Ordering;
use std::collections::HashMap;
use std::fmt::Debug;
use std::hash::Hash;

// ---------------------------------------------------------------------------------------------
// Callback instrumentation: counters, fuel (deterministic non-termination bound), fault fuse, log
// ---------------------------------------------------------------------------------------------

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
#[repr(usize)]
pub enum Cb {
    Arith = 0,
    Cmp = 1,
    Split = 2,
    Join = 3,
    Clone = 4,
    CursorStep = 5,
    Prepend = 6,
    Serde = 7,
}
pub const N_CB: usize = 8;

pub struct FaultInjected;
pub struct FuelExhausted;

pub struct Instr {
    pub counts: [Cell<u64>; N_CB],
    pub fuel: Cell<u64>,
    /// remaining callbacks before an injected panic; negative = disarmed
    pub fuse: Cell<i64>,
    /// bit mask of callback kinds which consume the fuse
    pub fuse_mask: Cell<u32>,
    pub fuse_blown: Cell<bool>,
    pub log_on: Cell<bool>,
    pub bad: RefCell<Option<String>>,
    /// misbehaviour mode for index comparisons and arithmetic (C21): 0 = well behaved
    pub chaos: Cell<u32>,
    pub chaos_state: Cell<u64>,
    /// one in `chaos_den` callbacks misbehaves
    pub chaos_den: Cell<u64>,
    /// remaining callbacks (or value drops) before the poke closure runs; negative = none
    pub poke: Cell<i64>,
}

thread_local! {
    /// user code executed from inside a callback, see `set_poke`
    static POKE: RefCell<Option<Box<dyn FnOnce()>>> = const { RefCell::new(None) };
    pub static INSTR: Instr = const { Instr {
        counts: [const { Cell::new(0) }; N_CB],
        fuel: Cell::new(u64::MAX),
        fuse: Cell::new(-1),
        fuse_mask: Cell::new(0),
        fuse_blown: Cell::new(false),
        log_on: Cell::new(false),
        bad: RefCell::new(None),
        chaos: Cell::new(0),
        chaos_state: Cell::new(0),
        chaos_den: Cell::new(7),
        poke: Cell::new(-1),
    } };
    pub static LOG: RefCell<Vec<Ev>> = const { RefCell::new(Vec::new()) };
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Split { before: String, at: String, left: String, right: String },
    Join { lhs: String, rhs: String, joined: Option<String> },
}

/// Run `f` once, from inside the `n`th following callback (or value drop)
pub fn set_poke(n: u32, f: Box<dyn FnOnce()>) {
    POKE.with(|p| *p.borrow_mut() = Some(f));
    INSTR.with(|i| i.poke.set(n as i64));
}
/// Remove the poke closure; returns whether it had run
pub fn clear_poke() -> bool {
    let ran = INSTR.with(|i| i.poke.replace(-1)) < 0;
    let f = POKE.with(|p| p.borrow_mut().take());
    drop(f);
    ran
}
fn poke() {
    let due = INSTR.try_with(|i| {
        let n = i.poke.get();
        if n < 0 {
            return false;
        }
        i.poke.set(n - 1);
        n == 0
    });
    if due == Ok(true) {
        let f = POKE.with(|p| p.borrow_mut().take());
        if let Some(f) = f {
            f();
        }
    }
}

pub fn tick(k: Cb) {
    poke();
    INSTR.with(|i| {
        let c = &i.counts[k as usize];
        c.set(c.get() + 1);
        let f = i.fuel.get();
        if f == 0 {
            i.fuel.set(u64::MAX);
            std::panic::panic_any(FuelExhausted);
        }
        i.fuel.set(f - 1);
        if i.fuse.get() >= 0 && i.fuse_mask.get() & (1 << (k as u32)) != 0 {
            let n = i.fuse.get();
            i.fuse.set(n - 1);
            if n == 0 {
                i.fuse_blown.set(true);
                i.fuse.set(-1);
                std::panic::panic_any(FaultInjected);
            }
        }
    })
}

pub fn count(k: Cb) -> u64 {
    INSTR.with(|i| i.counts[k as usize].get())
}
pub fn arm(n: i64, mask: u32) {
    INSTR.with(|i| {
        i.fuse.set(n);
        i.fuse_mask.set(mask);
        i.fuse_blown.set(false);
    })
}
pub fn disarm() -> bool {
    INSTR.with(|i| {
        i.fuse.set(-1);
        i.fuse_blown.replace(false)
    })
}
pub fn set_bad(s: String) {
    INSTR.with(|i| {
        let mut b = i.bad.borrow_mut();
        if b.is_none() {
            *b = Some(s);
        }
    })
}
pub fn take_bad() -> Option<String> {
    INSTR.with(|i| i.bad.borrow_mut().take())
}
pub fn set_chaos(mode: u32, seed: u64, den: u64) {
    INSTR.with(|i| {
        i.chaos_den.set(den.max(1));
        i.chaos.set(mode);
        i.chaos_state.set(seed);
    })
}
pub fn get_chaos() -> (u32, u64, u64) {
    INSTR.with(|i| (i.chaos.get(), i.chaos_state.get(), i.chaos_den.get()))
}
fn chaos_roll(bit: u32) -> bool {
    INSTR.with(|i| {
        if i.chaos.get() & bit == 0 {
            return false;
        }
        let den = i.chaos_den.get();
        let mut z = i.chaos_state.get().wrapping_add(0x9E3779B97F4A7C15);
        i.chaos_state.set(z);
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        (z ^ (z >> 31)) % den == 0
    })
}
pub const CHAOS_CMP: u32 = 1;
pub const CHAOS_ARITH: u32 = 2;
pub const CHAOS_SLICE: u32 = 4;

/// Reset all per-case state
pub fn reset_case(fuel: u64) {
    INSTR.with(|i| {
        for c in &i.counts {
            c.set(0);
        }
        i.fuel.set(fuel);
        i.fuse.set(-1);
        i.fuse_blown.set(false);
        i.log_on.set(false);
        i.chaos.set(0);
        i.poke.set(-1);
        *i.bad.borrow_mut() = None;
    });
    LOG.with(|l| l.borrow_mut().clear());
    clear_poke();
    ledger_reset();
}

pub fn log_start() {
    LOG.with(|l| l.borrow_mut().clear());
    INSTR.with(|i| i.log_on.set(true));
}
pub fn log_take() -> Vec<Ev> {
    INSTR.with(|i| i.log_on.set(false));
    LOG.with(|l| std::mem::take(&mut *l.borrow_mut()))
}
fn log_ev(f: impl FnOnce() -> Ev) {
    if INSTR.with(|i| i.log_on.get()) {
        let e = f();
        LOG.with(|l| l.borrow_mut().push(e));
    }
}

// ---------------------------------------------------------------------------------------------
// Drop ledger
// ---------------------------------------------------------------------------------------------

thread_local! {
    /// 1 = alive, 2 = dropped
    static LEDGER: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

pub fn ledger_reset() {
    LEDGER.with(|l| l.borrow_mut().clear());
}
pub fn ledger_alive() -> usize {
    LEDGER.with(|l| l.borrow().iter().filter(|x| **x == 1).count())
}
pub fn ledger_total() -> usize {
    LEDGER.with(|l| l.borrow().len())
}

/// Identity token of one stored value; registers its creation and its drop
pub struct Tok {
    pub id: u32,
    #[cfg(feature = "heap")]
    heap: Box<u32>,
}
impl Tok {
    pub fn new() -> Tok {
        let id = LEDGER.with(|l| {
            let mut l = l.borrow_mut();
            l.push(1);
            l.len() as u32 - 1
        });
        Tok {
            id,
            #[cfg(feature = "heap")]
            heap: Box::new(id),
        }
    }
    pub fn check(&self, what: &str) {
        let st = LEDGER.with(|l| l.borrow().get(self.id as usize).copied());
        if st != Some(1) {
            set_bad(format!("value {} used by {what} while its ledger state is {st:?}", self.id));
        }
        #[cfg(feature = "heap")]
        if *self.heap != self.id {
            set_bad(format!("value {} has a corrupted payload", self.id));
        }
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        poke();
        let st = LEDGER.try_with(|l| {
            let mut l = l.borrow_mut();
            match l.get_mut(self.id as usize) {
                Some(x) => {
                    let o = *x;
                    *x = 2;
                    Some(o)
                }
                None => None,
            }
        });
        if let Ok(st) = st {
            if st != Some(1) {
                set_bad(format!(
                    "value {} dropped while its ledger state is {st:?} (1 = alive, 2 = dropped)",
                    self.id
                ));
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Index types
// ---------------------------------------------------------------------------------------------

/// Index type used by the harness, with uncounted arithmetic for the model and generator support
pub trait HIdx: Index + Hash + Serialize + for<'a> Deserialize<'a> + Send + Sync + 'static {
    fn m_add(self, right: Self) -> Self;
    /// left⁻¹ · self
    fn m_sub_left(self, left: Self) -> Self;
    /// self · right⁻¹, if representable
    fn m_sub_right(self, right: Self) -> Option<Self>;
    /// start offset of a fresh source segment
    fn base(r: u32) -> Self;
    fn m_cmp(self, other: Self) -> Ordering;
    /// some positive size; `style` selects small or large ones
    fn gen_size(r: u32, style: u32) -> Self;
    /// some point strictly inside a run of this size, if there is one
    fn interior(self, r: u32) -> Option<Self>;
    /// the next representable index (used for out-of-bounds probes)
    fn past(self, r: u32) -> Self;
    /// a value below zero, if the type has one
    fn below_zero(r: u32) -> Option<Self>;
}

/// Counting, fault-injecting `u64`
#[derive(Copy, Clone)]
pub struct CIdx(pub u64);

impl Debug for CIdx {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Hash for CIdx {
    fn hash<H: std::hash::Hasher>(&self, h: &mut H) {
        self.0.hash(h)
    }
}
impl PartialEq for CIdx {
    fn eq(&self, o: &CIdx) -> bool {
        tick(Cb::Cmp);
        (self.0 == o.0) ^ chaos_roll(CHAOS_CMP)
    }
}
impl Eq for CIdx {}
impl PartialOrd for CIdx {
    fn partial_cmp(&self, o: &CIdx) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CIdx {
    fn cmp(&self, o: &CIdx) -> Ordering {
        tick(Cb::Cmp);
        let c = self.0.cmp(&o.0);
        if chaos_roll(CHAOS_CMP) {
            return match c {
                Ordering::Equal => Ordering::Less,
                Ordering::Less => Ordering::Greater,
                Ordering::Greater => Ordering::Equal,
            };
        }
        c
    }
}
impl DirectionalAdd for CIdx {
    fn add_right(self, right: Self) -> Self {
        tick(Cb::Arith);
        if chaos_roll(CHAOS_ARITH) {
            return CIdx(self.0.wrapping_mul(3).wrapping_sub(right.0) % 1000);
        }
        if INSTR.with(|i| i.chaos.get()) != 0 {
            return CIdx(self.0.wrapping_add(right.0));
        }
        CIdx(self.0 + right.0)
    }
}
impl DirectionalSub for CIdx {
    fn sub_left(self, left: Self) -> Self {
        tick(Cb::Arith);
        if chaos_roll(CHAOS_ARITH) {
            return CIdx(self.0.wrapping_add(left.0.wrapping_mul(5)) % 1000);
        }
        if INSTR.with(|i| i.chaos.get()) != 0 {
            return CIdx(self.0.wrapping_sub(left.0));
        }
        CIdx(self.0 - left.0)
    }
    fn sub_right(self, right: Self) -> Self {
        self.sub_left(right)
    }
}
impl Index for CIdx {
    const ZERO: CIdx = CIdx(0);
}
impl Serialize for CIdx {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick(Cb::Serde);
        s.serialize_u64(self.0)
    }
}
impl<'de> Deserialize<'de> for CIdx {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        tick(Cb::Serde);
        u64::deserialize(d).map(CIdx)
    }
}

pub fn gen_size_u64(r: u32, style: u32) -> u64 {
    match style {
        0 => 1,
        1 => 1 + (r as u64 % 4),
        2 => 1 + (r as u64 % 100),
        3 => {
            if r % 3 == 0 {
                1 + (r as u64 / 3) * 1000
            } else {
                1 + (r as u64 / 3 % 5)
            }
        }
        _ => 1 + (r as u64 % 7),
    }
}

impl HIdx for CIdx {
    fn m_add(self, right: Self) -> Self {
        CIdx(self.0 + right.0)
    }
    fn m_sub_left(self, left: Self) -> Self {
        CIdx(self.0 - left.0)
    }
    fn m_sub_right(self, right: Self) -> Option<Self> {
        self.0.checked_sub(right.0).map(CIdx)
    }
    fn base(r: u32) -> Self {
        CIdx((1 << 40) + r as u64)
    }
    fn m_cmp(self, other: Self) -> Ordering {
        self.0.cmp(&other.0)
    }
    fn gen_size(r: u32, style: u32) -> Self {
        CIdx(gen_size_u64(r, style))
    }
    fn interior(self, r: u32) -> Option<Self> {
        if self.0 < 2 {
            None
        } else {
            Some(CIdx(1 + r as u64 % (self.0 - 1)))
        }
    }
    fn past(self, r: u32) -> Self {
        CIdx(match r % 6 {
            0 | 1 => self.0.wrapping_add(1),
            2 => self.0.wrapping_add(2 + r as u64 / 4),
            3 => u64::MAX,
            4 => u64::MAX / 2 + 1,
            _ => self.0.wrapping_add(1 << 32),
        })
    }
    fn below_zero(_: u32) -> Option<Self> {
        None
    }
}

/// Upper unitriangular 4x4 integer matrices, ordered lexicographically along the lower central
/// series (which is invariant under multiplication from both sides): a lawful, non-commutative,
/// totally ordered index type. Nilpotency class 3, so that conjugation matters even for commutators.
/// The entries are x12, x23, x34, x13, x24, x14; the first two and x13 form a Heisenberg group.
#[derive(Copy, Clone, PartialEq, Eq, Hash)]
pub struct Heis(pub i64, pub i64, pub i64, pub i64, pub i64, pub i64);

impl Debug for Heis {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        write!(f, "h({},{},{},{},{},{})", self.0, self.1, self.2, self.3, self.4, self.5)
    }
}
impl Heis {
    pub fn mul(self, o: Heis) -> Heis {
        Heis(
            self.0 + o.0,
            self.1 + o.1,
            self.2 + o.2,
            self.3 + o.3 + self.0 * o.1,
            self.4 + o.4 + self.1 * o.2,
            self.5 + o.5 + self.0 * o.4 + self.3 * o.2,
        )
    }
    pub fn inv(self) -> Heis {
        let Heis(a, b, c, d, e, f) = self;
        Heis(-a, -b, -c, -d + a * b, -e + b * c, -f + a * e - a * b * c + d * c)
    }
    fn key(self) -> (i64, i64, i64, i64, i64, i64) {
        (self.0, self.1, self.2, self.3, self.4, self.5)
    }
}
impl PartialOrd for Heis {
    fn partial_cmp(&self, o: &Heis) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Heis {
    fn cmp(&self, o: &Heis) -> Ordering {
        tick(Cb::Cmp);
        self.key().cmp(&o.key())
    }
}
impl DirectionalAdd for Heis {
    fn add_right(self, right: Self) -> Self {
        tick(Cb::Arith);
        self.mul(right)
    }
}
impl DirectionalSub for Heis {
    fn sub_left(self, left: Self) -> Self {
        tick(Cb::Arith);
        left.inv().mul(self)
    }
    fn sub_right(self, right: Self) -> Self {
        tick(Cb::Arith);
        self.mul(right.inv())
    }
}
impl Index for Heis {
    const ZERO: Heis = Heis(0, 0, 0, 0, 0, 0);
}
impl Serialize for Heis {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.key().serialize(s)
    }
}
impl<'de> Deserialize<'de> for Heis {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        <(i64, i64, i64, i64, i64, i64)>::deserialize(d).map(|(a, b, c, d, e, f)| Heis(a, b, c, d, e, f))
    }
}
impl HIdx for Heis {
    fn m_add(self, right: Self) -> Self {
        self.mul(right)
    }
    fn m_sub_left(self, left: Self) -> Self {
        left.inv().mul(self)
    }
    fn m_sub_right(self, right: Self) -> Option<Self> {
        Some(self.mul(right.inv()))
    }
    fn base(r: u32) -> Self {
        let r = r as i64;
        Heis(r % 5 - 2, r / 5 % 5 - 2, r / 25 % 5 - 2, r / 125 % 7, r / 875 % 3 - 1, r / 2625 % 4)
    }
    fn m_cmp(self, o: Self) -> Ordering {
        self.key().cmp(&o.key())
    }
    fn gen_size(r: u32, style: u32) -> Self {
        let x = (r >> 4) as i64;
        // small digits of x
        let g = |k: u32, m: i64| (x / 7i64.pow(k)) % 7 % m - m / 2;
        match (r % 16, style) {
            (0..=2, _) | (_, 0) => Heis(1, g(0, 5), g(1, 3), g(2, 7), g(3, 3), g(4, 5)),
            (3..=4, _) => Heis(0, 1 + x % 3, g(1, 5), g(2, 7), g(3, 5), g(4, 7)),
            (5, _) => Heis(0, 0, 1 + x % 4, g(1, 3), g(2, 5), g(3, 3)),
            (6, _) => match x % 3 {
                0 => Heis(0, 0, 0, 1 + x / 3 % 4, g(1, 5), g(2, 7)),
                1 => Heis(0, 0, 0, 0, 1 + x / 3 % 4, g(1, 7)),
                _ => Heis(0, 0, 0, 0, 0, 1 + x / 3 % 4),
            },
            (7..=9, _) => Heis(2, g(0, 7), g(1, 7), g(2, 3), g(3, 7), 0),
            (10..=12, _) => Heis(1 + x % 4, g(1, 6), g(2, 5), 0, g(3, 5), g(0, 7)),
            _ => Heis(x % 3 + 1, -(x / 3 % 4), g(2, 3), g(3, 7), g(1, 3), g(0, 5)),
        }
    }
    fn interior(self, r: u32) -> Option<Self> {
        let x = (r >> 3) as i64;
        let g = |k: u32, m: i64| (x / 7i64.pow(k)) % 7 % m - m / 2;
        let Heis(a, b, c, d, e, f) = self;
        let cands = [
            Heis(a, b, c, d, e, f - 1 - x % 3),
            Heis(a, b, c, d, e - 1 - x % 3, g(1, 5)),
            Heis(a, b, c, d - 1 - x % 3, g(1, 5), g(2, 5)),
            Heis(a, b, c - 1 - x % 2, g(0, 3), g(1, 5), g(2, 5)),
            Heis(a, b - 1 - x % 3, g(0, 5), g(1, 3), g(2, 7), g(3, 5)),
            Heis(a - 1, g(0, 7), g(1, 5), g(2, 5), g(3, 3), g(4, 5)),
            Heis(0, 1 + x % 3, g(1, 5), g(2, 5), g(3, 5), g(4, 5)),
            Heis(0, 0, 1 + x % 3, g(1, 5), g(2, 5), g(3, 3)),
            Heis(0, 0, 0, 1 + x % 5, g(1, 5), g(2, 3)),
            Heis(0, 0, 0, 0, 0, 1 + x % 5),
            Heis(1, g(0, 5), g(1, 3), g(2, 5), g(3, 5), g(4, 5)),
        ];
        let n = cands.len();
        for k in 0..n {
            let c = cands[(r as usize + k) % n];
            if c.m_cmp(Heis::ZERO) == Ordering::Greater && c.m_cmp(self) == Ordering::Less {
                return Some(c);
            }
        }
        None
    }
    fn past(self, r: u32) -> Self {
        let mut h = self;
        match r % 4 {
            0 => h.5 += 1,
            1 => h.0 += 1,
            2 => h.3 += 2,
            _ => h.1 += 1 + r as i64 / 4 % 5,
        }
        h
    }
    fn below_zero(r: u32) -> Option<Self> {
        Some(match r % 4 {
            0 => Heis(-1, 5, 5, 5, 5, 5),
            1 => Heis(0, -1, 3, 0, 0, 0),
            2 => Heis(0, 0, 0, -2, 1, 0),
            _ => Heis(0, 0, 0, 0, 0, -1 - (r as i64 / 4 % 4)),
        })
    }
}

// ---------------------------------------------------------------------------------------------
// Slice values
// ---------------------------------------------------------------------------------------------

/// Pure value of a run
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val<I> {
    /// plain run-length value; joins with equal letters
    L(u8),
    /// part `[lo, hi)` of source text `src`; joins with the contiguous following part
    S { src: u16, lo: I, hi: I },
    /// like `S`, but never joins
    R { src: u16, lo: I, hi: I },
    /// domino; joins when the touching ends are equal
    D(u8, u8),
}

impl<I: HIdx> Val<I> {
    pub fn split(&mut self, at: I) -> Val<I> {
        match self {
            Val::L(a) => Val::L(*a),
            Val::S { src, lo, hi } => {
                let mid = lo.m_add(at);
                let r = Val::S { src: *src, lo: mid, hi: *hi };
                *hi = mid;
                r
            }
            Val::R { src, lo, hi } => {
                let mid = lo.m_add(at);
                let r = Val::R { src: *src, lo: mid, hi: *hi };
                *hi = mid;
                r
            }
            Val::D(_, r) => {
                let rr = *r;
                *r = 200;
                Val::D(200, rr)
            }
        }
    }
    pub fn join(&self, rhs: &Val<I>) -> Option<Val<I>> {
        match (self, rhs) {
            (Val::L(a), Val::L(b)) if a == b => Some(Val::L(*a)),
            (Val::S { src, lo, hi }, Val::S { src: s2, lo: l2, hi: h2 })
                if src == s2 && hi.m_cmp(*l2) == Ordering::Equal =>
            {
                Some(Val::S { src: *src, lo: *lo, hi: *h2 })
            }
            (Val::D(a, b), Val::D(c, d)) if b == c => Some(Val::D(*a, *d)),
            _ => None,
        }
    }
    pub fn same(&self, o: &Val<I>) -> bool {
        let eq = |a: &I, b: &I| a.m_cmp(*b) == Ordering::Equal;
        match (self, o) {
            (Val::L(a), Val::L(b)) => a == b,
            (Val::S { src, lo, hi }, Val::S { src: s, lo: l, hi: h })
            | (Val::R { src, lo, hi }, Val::R { src: s, lo: l, hi: h }) => {
                src == s && eq(lo, l) && eq(hi, h)
            }
            (Val::D(a, b), Val::D(c, d)) => a == c && b == d,
            _ => false,
        }
    }
}

/// The slice type stored in trees. `J` is `MAY_JOIN`.
pub struct Sl<I, const J: bool> {
    pub val: Val<I>,
    pub tok: Tok,
}

impl<I: HIdx, const J: bool> Sl<I, J> {
    pub fn new(val: Val<I>) -> Self {
        Sl { val, tok: Tok::new() }
    }
}

impl<I: HIdx, const J: bool> Clone for Sl<I, J> {
    fn clone(&self) -> Self {
        tick(Cb::Clone);
        self.tok.check("clone");
        Sl { val: self.val.clone(), tok: Tok::new() }
    }
}

impl<I: HIdx, const J: bool> Slice<I> for Sl<I, J> {
    const MAY_JOIN: bool = J;

    fn split_at(&mut self, idx: I) -> Self {
        tick(Cb::Split);
        self.tok.check("split_at");
        let before = format_lazy(&self.val);
        let r = self.val.split(idx);
        log_ev(|| Ev::Split {
            before,
            at: format!("{idx:?}"),
            left: format!("{:?}", self.val),
            right: format!("{r:?}"),
        });
        Sl::new(r)
    }

    fn try_join(self, other: Self) -> Result<Self, (Self, Self)> {
        tick(Cb::Join);
        self.tok.check("try_join (left)");
        other.tok.check("try_join (right)");
        if !J {
            set_bad("try_join called on a slice type with MAY_JOIN = false".into());
        }
        let mut j = self.val.join(&other.val);
        if chaos_roll(CHAOS_SLICE) {
            j = match j {
                Some(_) => None,
                None => Some(self.val.clone()),
            };
            if j.is_none() && chaos_roll(CHAOS_SLICE) {
                // handed back the wrong way around
                return Err((other, self));
            }
        }
        log_ev(|| Ev::Join {
            lhs: format!("{:?}", self.val),
            rhs: format!("{:?}", other.val),
            joined: j.as_ref().map(|v| format!("{v:?}")),
        });
        match j {
            Some(v) => Ok(Sl { val: v, tok: self.tok }),
            None => Err((self, other)),
        }
    }
}

fn format_lazy<I: Debug>(v: &Val<I>) -> String {
    if INSTR.with(|i| i.log_on.get()) {
        format!("{v:?}")
    } else {
        String::new()
    }
}

impl<I: HIdx, const J: bool> Serialize for Sl<I, J> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick(Cb::Serde);
        self.tok.check("serialize");
        match &self.val {
            Val::L(a) => ("L", a).serialize(s),
            Val::S { src, lo, hi } => ("S", src, lo, hi).serialize(s),
            Val::R { src, lo, hi } => ("R", src, lo, hi).serialize(s),
            Val::D(a, b) => ("D", a, b).serialize(s),
        }
    }
}
impl<'de, I: HIdx, const J: bool> Deserialize<'de> for Sl<I, J> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        tick(Cb::Serde);
        let v = serde_json::Value::deserialize(d)?;
        let e = || serde::de::Error::custom("bad slice value");
        let a = v.as_array().ok_or_else(e)?;
        let n = |i: usize| a.get(i).and_then(|x| x.as_u64());
        let idx = |i: usize| -> Option<I> { serde_json::from_value(a.get(i)?.clone()).ok() };
        let val = match a.first().and_then(|x| x.as_str()) {
            Some("L") => Val::L(n(1).ok_or_else(e)? as u8),
            Some(k @ ("S" | "R")) => {
                let src = n(1).ok_or_else(e)? as u16;
                let (lo, hi) = (idx(2).ok_or_else(e)?, idx(3).ok_or_else(e)?);
                if k == "S" {
                    Val::S { src, lo, hi }
                } else {
                    Val::R { src, lo, hi }
                }
            }
            Some("D") => Val::D(n(1).ok_or_else(e)? as u8, n(2).ok_or_else(e)? as u8),
            _ => return Err(e()),
        };
        Ok(Sl::new(val))
    }
}

// ---------------------------------------------------------------------------------------------
// Path-recording cursor
// ---------------------------------------------------------------------------------------------

/// Cursor recording the whole path; usable as a hint too
#[derive(Clone, Default, PartialEq, Eq)]
pub struct VC {
    /// deepest component first
    pub rev: Vec<PathComponent>,
}

pub struct VCIter(Vec<PathComponent>);
impl Iterator for VCIter {
    type Item = PathComponent;
    fn next(&mut self) -> Option<PathComponent> {
        tick(Cb::CursorStep);
        self.0.pop()
    }
}
impl Cursor for VC {
    fn new_empty() -> Self {
        VC::default()
    }
    fn prepend_to_path(&mut self, c: PathComponent) {
        tick(Cb::Prepend);
        self.rev.push(c);
    }
    type PathIter = VCIter;
    fn into_path(self) -> VCIter {
        VCIter(self.rev)
    }
}

/// Index of the child a component refers to, read from its `Debug` output
pub fn comp_idx(c: &PathComponent) -> u8 {
    thread_local! {
        static CACHE: RefCell<HashMap<PathComponent, u8>> = RefCell::new(HashMap::new());
    }
    CACHE.with(|m| {
        *m.borrow_mut().entry(*c).or_insert_with(|| {
            let s = format!("{c:?}");
            let digits: String =
                s.chars().rev().skip_while(|c| !c.is_ascii_digit()).take_while(|c| c.is_ascii_digit()).collect();
            digits.chars().rev().collect::<String>().parse().expect("component index")
        })
    })
}

impl VC {
    /// path from the root downward
    pub fn path(&self) -> Vec<u8> {
        self.rev.iter().rev().map(comp_idx).collect()
    }
    pub fn from_path(p: &[u8]) -> VC {
        VC { rev: p.iter().rev().map(|i| component(*i)).collect() }
    }
}

/// A component naming child `i`, harvested from a real, very wide tree (components have no public
/// constructor). Indices that cannot be harvested fall back to the largest one available.
pub fn component(i: u8) -> PathComponent {
    thread_local! {
        static TABLE: Vec<PathComponent> = {
            // for when the tree under test is too broken (or the interpreter too slow) to build the
            // wide tree
            fn direct() -> Vec<PathComponent> {
                assert_eq!(std::mem::size_of::<PathComponent>(), 1);
                (0..=255u8).map(|b| unsafe { std::mem::transmute_copy(&b) }).collect()
            }
            if cfg!(miri) || cfg!(feature = "heap") {
                direct()
            } else {
                std::panic::catch_unwind(harvest).unwrap_or_else(|_| direct())
            }
        };
    }
    TABLE.with(|t| t[(i as usize).min(t.len() - 1)])
}

fn harvest() -> Vec<PathComponent> {
    use sherman::{Constant, RleTree};
    type Big = RleTree<u64, Constant<u32>, sherman::param::NoFeatures, 127>;
    // same as `VC`, without instrumentation
    struct Quiet(Vec<PathComponent>);
    impl Cursor for Quiet {
        fn new_empty() -> Self {
            Quiet(Vec::new())
        }
        fn prepend_to_path(&mut self, c: PathComponent) {
            self.0.push(c);
        }
        type PathIter = std::vec::IntoIter<PathComponent>;
        fn into_path(self) -> Self::PathIter {
            self.0.into_iter()
        }
    }
    let mut t: Big = RleTree::new_empty();
    let n = 32_700u64;
    for i in 0..n {
        t.insert(i, Constant(i as u32), 1);
    }
    let mut seen: Vec<Option<PathComponent>> = vec![None; 256];
    for i in (0..n).step_by(40) {
        let c: Quiet = t.cursor_to(i);
        for x in c.0 {
            seen[comp_idx(&x) as usize] = Some(x);
        }
    }
    let mut last = seen.iter().flatten().next().copied().expect("some component");
    let out = seen
        .into_iter()
        .map(|x| {
            if let Some(x) = x {
                last = x;
            }
            last
        })
        .collect();
    out
}
