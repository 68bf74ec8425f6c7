//! Type-erased adapters, so that property drivers are written once for every instantiation of the
//! tree (feature parameter, node size, joining or not).
use crate::types::*;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures, RleTreeConfig, SupportsInsert};
use sherman::range::{EndBound, StartBound};
use sherman::{Borrow, BoundedCursor, Cursor, RleTree, SliceEntry, SliceRef};
use std::mem::ManuallyDrop;
use std::ops::Range;
use std::rc::Rc;

pub type Rng2<I> = (StartBound<I>, EndBound<I>);

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum P {
    No,
    Cow,
    Ref,
}

#[derive(Copy, Clone, PartialEq, Eq, Debug, Hash)]
pub struct Inst {
    pub p: P,
    pub m: usize,
    pub j: bool,
}

/// One entry as reported by the tree
#[derive(Clone, Debug)]
pub struct Ent<I> {
    pub start: I,
    pub end: I,
    pub size: I,
    pub val: Val<I>,
    pub tok: u32,
    pub path: Option<Vec<u8>>,
}

pub trait DynTree<I: HIdx> {
    fn inst(&self) -> Inst;
    fn size(&self) -> I;
    fn nslices(&self) -> usize;
    fn validate(&self);
    fn get(&self, idx: I, hint: Option<VC>) -> Ent<I>;
    /// lookup without materialising the entry (for cost measurements)
    fn get_raw(&self, idx: I, hint: Option<VC>);
    fn cursor_to(&self, idx: I) -> VC;
    /// path held by a bounded cursor of the given capacity (one of `CAPS`)
    fn cursor_bounded(&self, idx: I, cap: u8) -> Vec<u8>;
    fn insert(&mut self, idx: I, val: Val<I>, size: I);
    fn insert_hint(&mut self, idx: I, val: Val<I>, size: I, hint: VC) -> VC;
    /// insertion with a bounded cursor hint of the given capacity (0, 1, 2, 3 or 8) taken from
    /// `cursor_to(at)`; returns the path it holds
    fn insert_bounded(&mut self, idx: I, val: Val<I>, size: I, at: Option<I>, cap: u8) -> Vec<u8>;
    /// insertion returning a slice reference; `None` unless slice references are enabled
    fn insert_ref(&mut self, idx: I, val: Val<I>, size: I, hint: Option<VC>) -> Option<(VC, Box<dyn DynRef<I>>)>;
    fn make_ref(&self, idx: I) -> Option<Box<dyn DynRef<I>>>;
    fn entries(&self) -> Vec<Ent<I>>;
    /// run a front (true) / back (false) script over a range
    fn iter_script(&self, r: Rng2<I>, hint: Option<VC>, script: &[bool]) -> Vec<Option<Ent<I>>>;
    /// the provided methods of the iterator: after `skip` steps from the front, what `size_hint`
    /// promises and what one of count / last / nth / nth_back / rev / fold / rfold gives
    fn iter_provided(&self, r: Rng2<I>, skip: usize, which: u32, k: usize) -> ((usize, Option<usize>), Vec<Ent<I>>, usize);
    /// copy of the tree, if the feature parameter supports it
    fn dup(&self) -> Option<Box<dyn DynTree<I>>>;
    fn to_json(&self) -> Result<String, String>;
    /// serialization in different ways (0 = text, 1 = pretty text, 2 = value tree, 3 = through an
    /// erased writer, 4 = a format which needs the announced length to be right), always returned as compact text
    fn ser(&self, how: u32) -> Result<String, String>;
    /// serialization into a writer which fails after `n` bytes
    fn ser_limited(&self, n: usize) -> Result<(), String>;
    /// deserialization in different ways (0 = text, 1 = bytes, 2 = reader, 3 = value tree, 4-7 = a
    /// format of its own which announces a missing, too small or too large number of elements)
    fn de(&self, how: u32, s: &str) -> Result<Box<dyn DynTree<I>>, String>;
    fn fresh(&self) -> Box<dyn DynTree<I>>;
    fn fresh_with(&self, val: Val<I>, size: I) -> Box<dyn DynTree<I>>;
}

pub trait DynRef<I: HIdx> {
    fn is_valid(&self) -> bool;
    fn can_borrow(&self) -> bool;
    fn try_range(&self) -> Option<Range<I>>;
    fn range(&self) -> Range<I>;
    fn try_path(&self) -> Option<VC>;
    fn path(&self) -> VC;
    fn try_borrow(&self) -> Option<Box<dyn DynBorrow<I>>>;
    fn borrow(&self) -> Box<dyn DynBorrow<I>>;
    fn dup(&self) -> Box<dyn DynRef<I>>;
}

pub trait DynBorrow<I: HIdx> {
    fn val(&self) -> Val<I>;
    fn tok(&self) -> u32;
    fn dup(&self) -> Box<dyn DynBorrow<I>>;
    /// map to a component and back to a checkable borrow
    fn mapped(self: Box<Self>) -> Box<dyn DynBorrow<I>>;
    /// map with a function that panics
    fn mapped_panics(self: Box<Self>);
}

// ---------------------------------------------------------------------------------------------

pub trait PExt<I: HIdx, const J: bool, const M: usize>:
    RleTreeConfig<I, Sl<I, J>, M> + SupportsInsert<I, Sl<I, J>, M> + Sized + 'static
{
    const WHICH: P;
    fn dup(t: &RleTree<I, Sl<I, J>, Self, M>) -> Option<RleTree<I, Sl<I, J>, Self, M>>;
    fn entry_path(e: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Vec<u8>>;
    fn entry_ref(e: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Box<dyn DynRef<I>>>;
    fn insert_ref(
        t: &mut RleTree<I, Sl<I, J>, Self, M>,
        idx: I,
        v: Sl<I, J>,
        size: I,
        hint: Option<VC>,
    ) -> Option<(VC, Box<dyn DynRef<I>>)>;
}

impl<I: HIdx, const J: bool, const M: usize> PExt<I, J, M> for NoFeatures {
    const WHICH: P = P::No;
    fn dup(t: &RleTree<I, Sl<I, J>, Self, M>) -> Option<RleTree<I, Sl<I, J>, Self, M>> {
        Some(t.clone())
    }
    fn entry_path(e: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Vec<u8>> {
        Some(e.cursor::<VC>().path())
    }
    fn entry_ref(_: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Box<dyn DynRef<I>>> {
        None
    }
    fn insert_ref(
        _: &mut RleTree<I, Sl<I, J>, Self, M>,
        _: I,
        _: Sl<I, J>,
        _: I,
        _: Option<VC>,
    ) -> Option<(VC, Box<dyn DynRef<I>>)> {
        None
    }
}

impl<I: HIdx, const J: bool, const M: usize> PExt<I, J, M> for AllowCow {
    const WHICH: P = P::Cow;
    fn dup(t: &RleTree<I, Sl<I, J>, Self, M>) -> Option<RleTree<I, Sl<I, J>, Self, M>> {
        Some(t.clone())
    }
    fn entry_path(_: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Vec<u8>> {
        None
    }
    fn entry_ref(_: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Box<dyn DynRef<I>>> {
        None
    }
    fn insert_ref(
        _: &mut RleTree<I, Sl<I, J>, Self, M>,
        _: I,
        _: Sl<I, J>,
        _: I,
        _: Option<VC>,
    ) -> Option<(VC, Box<dyn DynRef<I>>)> {
        None
    }
}

impl<I: HIdx, const J: bool, const M: usize> PExt<I, J, M> for AllowSliceRefs {
    const WHICH: P = P::Ref;
    fn dup(_: &RleTree<I, Sl<I, J>, Self, M>) -> Option<RleTree<I, Sl<I, J>, Self, M>> {
        None
    }
    fn entry_path(e: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Vec<u8>> {
        Some(e.cursor::<VC>().path())
    }
    fn entry_ref(e: &SliceEntry<'_, I, Sl<I, J>, Self, M>) -> Option<Box<dyn DynRef<I>>> {
        Some(Box::new(R(Rc::new(e.make_ref()))))
    }
    fn insert_ref(
        t: &mut RleTree<I, Sl<I, J>, Self, M>,
        idx: I,
        v: Sl<I, J>,
        size: I,
        hint: Option<VC>,
    ) -> Option<(VC, Box<dyn DynRef<I>>)> {
        Some(match hint {
            Some(h) => {
                let (c, r) = t.insert_ref_with_cursor(h, idx, v, size);
                (c, Box::new(R(Rc::new(r))) as Box<dyn DynRef<I>>)
            }
            None => {
                let r = t.insert_ref(idx, v, size);
                let c = r.cursor::<VC>();
                (c, Box::new(R(Rc::new(r))) as Box<dyn DynRef<I>>)
            }
        })
    }
}

pub struct T<I: HIdx, Q: PExt<I, J, M>, const J: bool, const M: usize> {
    t: RleTree<I, Sl<I, J>, Q, M>,
}

fn ent<I: HIdx, Q: PExt<I, J, M>, const J: bool, const M: usize>(
    e: SliceEntry<'_, I, Sl<I, J>, Q, M>,
    with_path: bool,
) -> Ent<I> {
    let r = e.range();
    let s = e.slice();
    s.tok.check("entry access");
    Ent {
        start: r.start,
        end: r.end,
        size: e.size(),
        val: s.val.clone(),
        tok: s.tok.id,
        path: if with_path { Q::entry_path(&e) } else { None },
    }
}

impl<I: HIdx, Q: PExt<I, J, M>, const J: bool, const M: usize> DynTree<I> for T<I, Q, J, M> {
    fn inst(&self) -> Inst {
        Inst { p: Q::WHICH, m: M, j: J }
    }
    fn size(&self) -> I {
        self.t.size()
    }
    fn nslices(&self) -> usize {
        self.t.number_of_slices()
    }
    fn validate(&self) {
        self.t.validate()
    }
    fn get(&self, idx: I, hint: Option<VC>) -> Ent<I> {
        match hint {
            None => ent(self.t.get(idx), true),
            Some(h) => ent(self.t.get_with_cursor(h, idx), true),
        }
    }
    fn get_raw(&self, idx: I, hint: Option<VC>) {
        match hint {
            None => drop(std::hint::black_box(self.t.get(idx))),
            Some(h) => drop(std::hint::black_box(self.t.get_with_cursor(h, idx))),
        }
    }
    fn cursor_to(&self, idx: I) -> VC {
        self.t.cursor_to(idx)
    }
    fn cursor_bounded(&self, idx: I, cap: u8) -> Vec<u8> {
        fn p<const N: usize>(c: BoundedCursor<N>) -> Vec<u8> {
            c.into_path().map(|x| comp_idx(&x)).collect()
        }
        match cap {
            0 => p(self.t.cursor_to::<BoundedCursor<0>>(idx)),
            1 => p(self.t.cursor_to::<BoundedCursor<1>>(idx)),
            2 => p(self.t.cursor_to::<BoundedCursor<2>>(idx)),
            3 => p(self.t.cursor_to::<BoundedCursor<3>>(idx)),
            4 => p(self.t.cursor_to::<BoundedCursor<4>>(idx)),
            5 => p(self.t.cursor_to::<BoundedCursor<5>>(idx)),
            255 => p(self.t.cursor_to::<BoundedCursor<255>>(idx)),
            8 => p(self.t.cursor_to::<BoundedCursor>(idx)),
            _ => p(self.t.cursor_to::<BoundedCursor<20>>(idx)),
        }
    }
    fn insert(&mut self, idx: I, val: Val<I>, size: I) {
        self.t.insert(idx, Sl::new(val), size)
    }
    fn insert_hint(&mut self, idx: I, val: Val<I>, size: I, hint: VC) -> VC {
        self.t.insert_with_cursor(hint, idx, Sl::new(val), size)
    }
    fn insert_bounded(&mut self, idx: I, val: Val<I>, size: I, at: Option<I>, cap: u8) -> Vec<u8> {
        macro_rules! go {
            ($($n:literal),*) => {
                match cap {
                    $($n => {
                        let c: BoundedCursor<$n> = match at {
                            Some(a) => self.t.cursor_to(a),
                            None => BoundedCursor::new_empty(),
                        };
                        let c = self.t.insert_with_cursor(c, idx, Sl::new(val), size);
                        c.into_path().map(|x| comp_idx(&x)).collect()
                    })*
                    _ => unreachable!(),
                }
            };
        }
        go!(0, 1, 2, 3, 8)
    }
    fn insert_ref(&mut self, idx: I, val: Val<I>, size: I, hint: Option<VC>) -> Option<(VC, Box<dyn DynRef<I>>)> {
        if Q::WHICH != P::Ref {
            return None;
        }
        Q::insert_ref(&mut self.t, idx, Sl::new(val), size, hint)
    }
    fn make_ref(&self, idx: I) -> Option<Box<dyn DynRef<I>>> {
        Q::entry_ref(&self.t.get(idx))
    }
    fn entries(&self) -> Vec<Ent<I>> {
        self.t.iter(..).map(|e| ent(e, false)).collect()
    }
    fn iter_script(&self, r: Rng2<I>, hint: Option<VC>, script: &[bool]) -> Vec<Option<Ent<I>>> {
        fn go<'t, I: HIdx + 't, Q: PExt<I, J, M> + 't, const J: bool, const M: usize>(
            mut it: impl DoubleEndedIterator<Item = SliceEntry<'t, I, Sl<I, J>, Q, M>>,
            script: &[bool],
        ) -> Vec<Option<Ent<I>>> {
            script
                .iter()
                .map(|f| if *f { it.next() } else { it.next_back() }.map(|e| ent(e, false)))
                .collect()
        }
        match hint {
            None => go(self.t.iter(r), script),
            Some(h) => go(self.t.iter_with_cursor(h, r), script),
        }
    }
    fn iter_provided(&self, r: Rng2<I>, skip: usize, which: u32, k: usize) -> ((usize, Option<usize>), Vec<Ent<I>>, usize) {
        let mut it = self.t.iter(r);
        for _ in 0..skip {
            it.next();
        }
        let hint = it.size_hint();
        let mut out = Vec::new();
        let mut n = 0;
        match which % 7 {
            0 => n = it.count(),
            1 => out.extend(it.last().map(|e| ent(e, false))),
            2 => {
                out.extend(it.nth(k).map(|e| ent(e, false)));
                out.extend(it.next().map(|e| ent(e, false)));
            }
            3 => {
                out.extend(it.nth_back(k).map(|e| ent(e, false)));
                out.extend(it.next_back().map(|e| ent(e, false)));
            }
            4 => out.extend(it.rev().map(|e| ent(e, false))),
            5 => it.fold((), |_, e| out.push(ent(e, false))),
            _ => it.rfold((), |_, e| out.push(ent(e, false))),
        }
        (hint, out, n)
    }
    fn dup(&self) -> Option<Box<dyn DynTree<I>>> {
        Q::dup(&self.t).map(|t| Box::new(T::<I, Q, J, M> { t }) as Box<dyn DynTree<I>>)
    }
    fn to_json(&self) -> Result<String, String> {
        serde_json::to_string(&self.t).map_err(|e| e.to_string())
    }
    fn ser(&self, how: u32) -> Result<String, String> {
        match how % 5 {
            0 => serde_json::to_string(&self.t).map_err(|e| e.to_string()),
            4 => {
                let v = crate::fmt::to_list(&self.t)?;
                Ok(serde_json::Value::Array(v).to_string())
            }
            1 => {
                let p = serde_json::to_string_pretty(&self.t).map_err(|e| e.to_string())?;
                let v: serde_json::Value = serde_json::from_str(&p).map_err(|e| e.to_string())?;
                Ok(v.to_string())
            }
            2 => serde_json::to_value(&self.t).map(|v| v.to_string()).map_err(|e| e.to_string()),
            _ => {
                let mut v = Vec::new();
                serde_json::to_writer(&mut v, &self.t).map_err(|e| e.to_string())?;
                String::from_utf8(v).map_err(|e| e.to_string())
            }
        }
    }
    fn ser_limited(&self, n: usize) -> Result<(), String> {
        struct W(usize);
        impl std::io::Write for W {
            fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                if self.0 == 0 {
                    return Err(std::io::Error::new(std::io::ErrorKind::Other, "full"));
                }
                let k = b.len().min(self.0);
                self.0 -= k;
                Ok(k)
            }
            fn flush(&mut self) -> std::io::Result<()> {
                Ok(())
            }
        }
        serde_json::to_writer(W(n), &self.t).map_err(|e| e.to_string())
    }
    fn de(&self, how: u32, s: &str) -> Result<Box<dyn DynTree<I>>, String> {
        let r = match how % 8 {
            0 => serde_json::from_str::<RleTree<I, Sl<I, J>, Q, M>>(s),
            1 => serde_json::from_slice(s.as_bytes()),
            2 => serde_json::from_reader(s.as_bytes()),
            _ if how % 8 >= 4 => {
                serde_json::from_str::<serde_json::Value>(s).and_then(|v| crate::fmt::from_list(v, how / 8))
            }
            _ => serde_json::from_str::<serde_json::Value>(s).and_then(serde_json::from_value),
        };
        r.map(|t| Box::new(T::<I, Q, J, M> { t }) as Box<dyn DynTree<I>>).map_err(|e| e.to_string())
    }
    fn fresh(&self) -> Box<dyn DynTree<I>> {
        Box::new(T::<I, Q, J, M> { t: RleTree::new_empty() })
    }
    fn fresh_with(&self, val: Val<I>, size: I) -> Box<dyn DynTree<I>> {
        Box::new(T::<I, Q, J, M> { t: RleTree::new(Sl::new(val), size) })
    }
}

// ---------------------------------------------------------------------------------------------

struct R<I: HIdx, const J: bool, const M: usize>(Rc<SliceRef<I, Sl<I, J>, M>>);

struct B<I: HIdx, const J: bool, const M: usize> {
    // dropped (explicitly) before `_r`
    b: ManuallyDrop<Borrow<'static, Sl<I, J>>>,
    r: Rc<SliceRef<I, Sl<I, J>, M>>,
}
impl<I: HIdx, const J: bool, const M: usize> Drop for B<I, J, M> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.b) }
    }
}

/// A borrow mapped to the `val` component
struct BM<I: HIdx, const J: bool, const M: usize> {
    b: ManuallyDrop<Borrow<'static, Val<I>>>,
    tok: u32,
    r: Rc<SliceRef<I, Sl<I, J>, M>>,
}
impl<I: HIdx, const J: bool, const M: usize> Drop for BM<I, J, M> {
    fn drop(&mut self) {
        unsafe { ManuallyDrop::drop(&mut self.b) }
    }
}

impl<I: HIdx, const J: bool, const M: usize> R<I, J, M> {
    fn wrap(&self, b: Borrow<'_, Sl<I, J>>) -> Box<dyn DynBorrow<I>> {
        // SAFETY: the borrow's lifetime is that of the reference it came from, which the Rc keeps
        // alive (at a stable address) until after the borrow is dropped.
        let b: Borrow<'static, Sl<I, J>> = unsafe { std::mem::transmute(b) };
        b.tok.check("borrow");
        Box::new(B::<I, J, M> { b: ManuallyDrop::new(b), r: self.0.clone() })
    }
}

impl<I: HIdx, const J: bool, const M: usize> DynRef<I> for R<I, J, M> {
    fn is_valid(&self) -> bool {
        self.0.is_valid()
    }
    fn can_borrow(&self) -> bool {
        self.0.can_borrow()
    }
    fn try_range(&self) -> Option<Range<I>> {
        self.0.try_range()
    }
    fn range(&self) -> Range<I> {
        self.0.range()
    }
    fn try_path(&self) -> Option<VC> {
        self.0.try_cursor::<VC>()
    }
    fn path(&self) -> VC {
        self.0.cursor::<VC>()
    }
    fn try_borrow(&self) -> Option<Box<dyn DynBorrow<I>>> {
        self.0.try_borrow_slice().map(|b| self.wrap(b))
    }
    fn borrow(&self) -> Box<dyn DynBorrow<I>> {
        self.wrap(self.0.borrow_slice())
    }
    fn dup(&self) -> Box<dyn DynRef<I>> {
        Box::new(R::<I, J, M>(Rc::new((*self.0).clone())))
    }
}

impl<I: HIdx, const J: bool, const M: usize> DynBorrow<I> for B<I, J, M> {
    fn mapped_panics(self: Box<Self>) {
        let mut this = ManuallyDrop::new(*self);
        // SAFETY: `this` is never dropped; both fields are moved out exactly once, and the reference
        // outlives the borrow
        let (b, _r) = unsafe { (ManuallyDrop::take(&mut this.b), std::ptr::read(&this.r)) };
        drop(Borrow::map(b, |_| -> &u32 { std::panic::panic_any(MapPanic) }));
    }
    fn val(&self) -> Val<I> {
        self.b.tok.check("borrowed access");
        self.b.val.clone()
    }
    fn tok(&self) -> u32 {
        self.b.tok.id
    }
    fn dup(&self) -> Box<dyn DynBorrow<I>> {
        Box::new(B::<I, J, M> { b: self.b.clone(), r: self.r.clone() })
    }
    fn mapped(self: Box<Self>) -> Box<dyn DynBorrow<I>> {
        let mut this = ManuallyDrop::new(*self);
        let tok = this.b.tok.id;
        // SAFETY: `this` is never dropped; both fields are moved out exactly once
        let (b, r) = unsafe { (ManuallyDrop::take(&mut this.b), std::ptr::read(&this.r)) };
        let b = Borrow::map(b, |s| &s.val);
        Box::new(BM::<I, J, M> { b: ManuallyDrop::new(b), tok, r })
    }
}
/// payload of the panic in `mapped_panics`
pub struct MapPanic;
impl<I: HIdx, const J: bool, const M: usize> DynBorrow<I> for BM<I, J, M> {
    fn mapped_panics(self: Box<Self>) {
        let mut this = ManuallyDrop::new(*self);
        // SAFETY: as in `B::mapped`
        let (b, _r) = unsafe { (ManuallyDrop::take(&mut this.b), std::ptr::read(&this.r)) };
        drop(Borrow::map(b, |_| -> &u32 { std::panic::panic_any(MapPanic) }));
    }
    fn val(&self) -> Val<I> {
        (**self.b).clone()
    }
    fn tok(&self) -> u32 {
        self.tok
    }
    fn dup(&self) -> Box<dyn DynBorrow<I>> {
        Box::new(BM::<I, J, M> { b: self.b.clone(), tok: self.tok, r: self.r.clone() })
    }
    fn mapped(self: Box<Self>) -> Box<dyn DynBorrow<I>> {
        self
    }
}

// ---------------------------------------------------------------------------------------------

fn e<I: HIdx, Q: PExt<I, J, M>, const J: bool, const M: usize>() -> Box<dyn DynTree<I>> {
    Box::new(T::<I, Q, J, M> { t: RleTree::new_empty() })
}

macro_rules! reg {
    ($i:ty, $inst:expr, $( $m:literal )*) => {
        match ($inst.p, $inst.m, $inst.j) {
            $(
                (P::No, $m, true) => e::<$i, NoFeatures, true, $m>(),
                (P::Cow, $m, true) => e::<$i, AllowCow, true, $m>(),
                (P::Ref, $m, true) => e::<$i, AllowSliceRefs, true, $m>(),
                (P::No, $m, false) => e::<$i, NoFeatures, false, $m>(),
                (P::Cow, $m, false) => e::<$i, AllowCow, false, $m>(),
                (P::Ref, $m, false) => e::<$i, AllowSliceRefs, false, $m>(),
            )*
            _ => panic!("instantiation not available: {:?}", $inst),
        }
    };
}

pub const MS: [usize; 4] = [1, 2, 3, 5];
/// instantiated for joining slices only
pub const MS_WIDE: [usize; 2] = [17, 127];
pub const MS_HEIS: [usize; 3] = [1, 2, 3];

pub fn mk(inst: Inst) -> Box<dyn DynTree<CIdx>> {
    match (inst.p, inst.m) {
        (P::No, 17) => e::<CIdx, NoFeatures, true, 17>(),
        (P::Cow, 17) => e::<CIdx, AllowCow, true, 17>(),
        (P::Ref, 17) => e::<CIdx, AllowSliceRefs, true, 17>(),
        (P::No, 127) => e::<CIdx, NoFeatures, true, 127>(),
        (P::Cow, 127) => e::<CIdx, AllowCow, true, 127>(),
        (P::Ref, 127) => e::<CIdx, AllowSliceRefs, true, 127>(),
        _ => reg!(CIdx, inst, 1 2 3 5),
    }
}

pub fn mk_heis(inst: Inst) -> Box<dyn DynTree<Heis>> {
    match (inst.p, inst.m) {
        (P::No, 1) => e::<Heis, NoFeatures, true, 1>(),
        (P::No, 2) => e::<Heis, NoFeatures, true, 2>(),
        (P::No, 3) => e::<Heis, NoFeatures, true, 3>(),
        (P::Cow, 1) => e::<Heis, AllowCow, true, 1>(),
        (P::Cow, 2) => e::<Heis, AllowCow, true, 2>(),
        (P::Cow, 3) => e::<Heis, AllowCow, true, 3>(),
        (P::Ref, 1) => e::<Heis, AllowSliceRefs, true, 1>(),
        (P::Ref, 2) => e::<Heis, AllowSliceRefs, true, 2>(),
        (P::Ref, 3) => e::<Heis, AllowSliceRefs, true, 3>(),
        _ => panic!("instantiation not available: {inst:?}"),
    }
}
