//! C23: the fuzzing command layer. Byte strings are generated, decoded into command sequences, and
//!  (1) every prediction in the sequence is compared with a reference list of runs,
//!  (2) the sequence is run on the real tree by the runner of the crate: it passes,
//!  (3) sequences with altered expectations are run: the runner fails exactly when the reference
//!      says that the altered expectation is wrong,
//!  (4) mapping indexes and slices preserves all of this,
//!  (5) a sample is printed, for the orchestrating script to compile and run: the printed tests
//!      pass or fail exactly as the reference says.
//!
//! cmdfuzz run --seed S --from A --to B [--emit DIR --every N]     one process, prints a summary
//! cmdfuzz case FILE                                               a saved case
mod model;
mod rng;
mod types;
mod watch;
use arbitrary::{Arbitrary, Unstructured};
use model::*;
use rng::Rng;
use sherman::param::{AllowCow, AllowSliceRefs, NoFeatures};
use sherman::range::EndBound;
use sherman_fuzz_utils::*;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use types::*;

pub struct TyName;
impl Name for TyName {
    fn name() -> &'static str {
        "FuzzTree"
    }
}

/// What differs between the three kinds of command
trait Kind<I: Ix, S: Sv<I>, const M: usize> {
    type Cmd: for<'d> ArbitraryCommand<'d, Index = I, Slice = S> + Clone + Debug;
    const PARAM: &'static str;
    const EXTRA: u8;
    fn any(c: Self::Cmd) -> Any<I, S>;
    fn cmd(a: Any<I, S>) -> Self::Cmd;
    fn run(cmds: &[Self::Cmd]);
}
impl<I: Ix, S: Sv<I>, const M: usize> Kind<I, S, M> for NoFeatures {
    type Cmd = BasicCommand<I, S>;
    const PARAM: &'static str = "NoFeatures";
    const EXTRA: u8 = 0;
    fn any(c: Self::Cmd) -> Any<I, S> {
        Any::B(c)
    }
    fn cmd(a: Any<I, S>) -> Self::Cmd {
        match a {
            Any::B(c) => c,
            _ => unreachable!(),
        }
    }
    fn run(cmds: &[Self::Cmd]) {
        let mut r: RunnerState<I, S, NoFeatures, M> = RunnerState::init();
        let extra = ExtraRunnerInfo::new_basic();
        for c in cmds {
            r.run_basic_cmd(c, &extra);
        }
    }
}
impl<I: Ix, S: Sv<I>, const M: usize> Kind<I, S, M> for AllowSliceRefs {
    type Cmd = SliceRefCommand<I, S>;
    const PARAM: &'static str = "AllowSliceRefs";
    const EXTRA: u8 = 7;
    fn any(c: Self::Cmd) -> Any<I, S> {
        Any::R(c)
    }
    fn cmd(a: Any<I, S>) -> Self::Cmd {
        match a {
            Any::R(c) => c,
            _ => unreachable!(),
        }
    }
    fn run(cmds: &[Self::Cmd]) {
        let mut r: RunnerState<I, S, AllowSliceRefs, M> = RunnerState::init();
        let extra = ExtraRunnerInfo::new_slice_refs();
        for c in cmds {
            r.run_slice_ref_cmd(c, &extra);
        }
    }
}
impl<I: Ix, S: Sv<I>, const M: usize> Kind<I, S, M> for AllowCow {
    type Cmd = CowCommand<I, S>;
    const PARAM: &'static str = "AllowCow";
    const EXTRA: u8 = 2;
    fn any(c: Self::Cmd) -> Any<I, S> {
        Any::C(c)
    }
    fn cmd(a: Any<I, S>) -> Self::Cmd {
        match a {
            Any::C(c) => c,
            _ => unreachable!(),
        }
    }
    fn run(cmds: &[Self::Cmd]) {
        let mut r: RunnerState<I, S, AllowCow, M> = RunnerState::init();
        let extra = ExtraRunnerInfo::new_cow();
        for c in cmds {
            r.run_cow_cmd(c, &extra);
        }
    }
}

#[derive(Clone)]
struct Case {
    inst: usize,
    seed: u64,
    bytes: Vec<u8>,
}

#[derive(Default)]
struct Stats {
    count: BTreeMap<&'static str, u64>,
}
impl Stats {
    fn add(&mut self, k: &'static str, n: u64) {
        *self.count.entry(k).or_default() += n;
    }
}

/// A printed test, and what is to happen when it runs
struct Text {
    kind: &'static str,
    prelude: String,
    body: String,
    passes: bool,
    why: String,
    sabotage: bool,
}

// ---- generation -------------------------------------------------------------------------------

/// Writes bytes that decode, as long as the decoder reads the way it does today, to commands that are
/// mostly meaningful. Nothing is judged by this: what the bytes decode to is looked at afterwards.
struct Enc<'a, I, S> {
    r: &'a mut Rng,
    out: Vec<u8>,
    st: State<I, S>,
    counted_refs: usize,
}
impl<'a, I: Ix, S: Sv<I>> Enc<'a, I, S> {
    fn index(&mut self, n: usize, k: usize) {
        if n > 1 {
            self.out.push(k as u8);
        }
    }
    fn val(&mut self, v: i128) {
        self.out.extend_from_slice(&v.to_le_bytes()[..I::WIDTH]);
    }
    fn variant(&mut self, k: u64, n: u64) {
        let v = ((k << 32) + n - 1) / n;
        self.out.extend_from_slice(&(v as u32).to_le_bytes());
    }
    fn size(&self, t: usize) -> i128 {
        self.st.trees[t].as_ref().unwrap().size()
    }
    fn idx(&mut self, t: usize, bad: u64) -> i128 {
        let n = self.size(t);
        if self.r.chance(bad, 100) {
            return n + self.r.below(4) as i128 - 1;
        }
        let q = self.st.trees[t].as_ref().unwrap();
        if !q.runs.is_empty() && self.r.chance(1, 2) {
            // near a boundary
            let k = self.r.below(q.runs.len() as u64) as usize;
            let s: i128 = q.runs[..k].iter().map(|r| r.size).sum();
            return (s + self.r.below(3) as i128 - 1).clamp(0, n);
        }
        self.r.below((n + 1) as u64) as i128
    }
    fn insert(&mut self, t: usize, small: bool) {
        let n = self.size(t);
        let panics = self.r.chance(1, 60);
        let room = I::MAX - n;
        let i = if panics && self.r.chance(1, 2) { n + 1 } else { self.idx(t, 0).min(n) };
        let size = if panics {
            self.r.pick(&[0, room + 1, 0])
        } else {
            let cap = if small { 4 } else if self.r.chance(1, 40) { room.min(1 << 60) as u64 / 3 + 1 } else { 9 };
            (1 + self.r.below(cap) as i128).min(room.max(1))
        };
        self.val(i);
        let tag = self.r.pick(&[0u8, 1, 2, 3, 25]);
        self.out.push(tag);
        self.val(size);
        let _ = self.st_insert(t, i, tag, size);
    }
    fn st_insert(&mut self, t: usize, i: i128, tag: u8, size: i128) -> bool {
        let b = [tag];
        let v = S::arbitrary(&mut Unstructured::new(&b)).unwrap();
        let (Some(ix), Some(sz)) = (I::from_i(i), I::from_i(size)) else { return false };
        let id = tree_id(t);
        matches!(self.st.step(&Any::B(BasicCommand::Insert { id, index: ix, slice: v, size: sz, panics: false })), One::Ok)
    }
    fn iter(&mut self, t: usize, full: bool) {
        let n = self.size(t);
        let s = if full { 1 } else { self.r.below(3) };
        if s == 0 || s == 2 {
            let v = self.idx(t, 3);
            self.variant(0, 2);
            self.val(v);
        } else {
            self.variant(1, 2);
        }
        match if full { 2 } else { self.r.below(3) } {
            k @ (0 | 1) => {
                let a = self.idx(t, 3);
                let b = self.idx(t, 3);
                self.variant(k, 3);
                self.val(a.max(b));
            }
            _ => self.variant(2, 3),
        }
        let runs = self.st.trees[t].as_ref().unwrap().runs.len() as u64;
        let steps = if full { runs + 1 } else { self.r.below(runs.min(20) + 3) };
        let _ = n;
        let back = self.r.pick(&[0, 50, 50, 100]);
        for _ in 0..steps {
            self.out.push(1);
            let d = self.r.chance(back, 100);
            self.variant(d as u64, 2);
        }
        self.out.push(0);
    }
}

fn tree_id(k: usize) -> TreeId {
    let b = k.to_le_bytes();
    TreeId::arbitrary(&mut Unstructured::new(&b)).unwrap()
}

fn generate<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>(r: &mut Rng) -> Vec<u8> {
    if r.chance(1, 25) {
        let n = r.below(400);
        return (0..n).map(|_| r.u32() as u8).collect();
    }
    let n = match r.below(8) {
        0 => r.below(200) as usize,
        1 | 2 => r.below(12) as usize,
        _ => r.below(50) as usize,
    };
    let mut e: Enc<I, S> = Enc { r, out: vec![], st: State::new(), counted_refs: 0 };
    let small = e.r.chance(3, 4);
    let heavy = e.r.chance(1, 3);
    for k in 0..n + 3 {
        let live: Vec<usize> = (0..e.st.trees.len()).filter(|t| e.st.trees[*t].is_some()).collect();
        if live.is_empty() {
            break;
        }
        let k_t = e.r.below(live.len() as u64) as usize;
        let t = live[k_t];
        e.index(live.len(), k_t);
        let refs: Vec<usize> = (0..e.st.refs.len()).filter(|t| e.st.refs[*t].is_some()).collect();
        let last = k >= n;
        let w = if last {
            [1, 0, 0, 0, 0, 0, 0, 0, 0, 0]
        } else if heavy {
            [1, 1, 12, 3, 6, 2, 1, 2, 2, 1]
        } else {
            [3, 3, 6, 3, 3, 2, 2, 3, 3, 1]
        };
        let mut v = e.r.weighted(&w[..3 + P::EXTRA as usize]) as u8;
        if P::EXTRA == 2 && v == 4 && e.r.chance(1, 2) {
            v = 2;
        }
        if e.size(t) == 0 && v < 2 && !last && e.r.chance(9, 10) {
            v = 2;
        }
        if v >= 5 && e.counted_refs == 0 {
            v = if e.r.chance(1, 2) { 3 } else { 4 };
        }
        e.out.push(v);
        let before = e.st.trees.len();
        match v {
            0 => e.iter(t, last),
            1 => {
                let i = e.idx(t, 6);
                e.val(i);
            }
            2 => e.insert(t, small),
            3 if P::EXTRA == 2 => {
                let c = e.st.trees[t].clone();
                e.st.trees.push(c);
            }
            4 if P::EXTRA == 2 => e.st.trees[t] = None,
            3 => {
                let i = e.idx(t, 6);
                e.val(i);
                if i >= 0 && i < e.size(t) {
                    e.counted_refs += 1;
                    e.st.refs.push(Some(0));
                }
            }
            4 => {
                e.insert(t, small);
                if e.st.trees[t].is_some() {
                    e.counted_refs += 1;
                    e.st.refs.push(Some(0));
                }
            }
            _ => {
                let n = e.counted_refs;
                let k = e.r.below(n.min(refs.len()) as u64) as usize;
                e.index(n, k);
                if v == 5 {
                    e.st.refs.push(Some(0));
                } else if v == 9 {
                    e.st.refs[refs[k]] = None;
                    e.counted_refs -= 1;
                }
            }
        }
        let _ = before;
        if e.out.len() > 6000 {
            break;
        }
    }
    let mut out = e.out;
    let r = e.r;
    if r.chance(1, 4) && !out.is_empty() {
        for _ in 0..1 + r.below(4) {
            let k = r.below(out.len() as u64) as usize;
            match r.below(3) {
                0 => out[k] = r.u32() as u8,
                1 => {
                    out.remove(k);
                }
                _ => out.insert(k, r.u32() as u8),
            }
            if out.is_empty() {
                break;
            }
        }
    }
    if r.chance(1, 10) {
        let n = r.below(out.len() as u64 + 1) as usize;
        out.truncate(n);
    }
    out
}

// ---- the property -----------------------------------------------------------------------------

fn run_passes<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>(cmds: &[Any<I, S>]) -> Result<(), String> {
    let cmds: Vec<P::Cmd> = cmds.iter().cloned().map(P::cmd).collect();
    catch_unwind(AssertUnwindSafe(|| P::run(&cmds))).map_err(|e| {
        e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into())
    })
}

fn print_cmds<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>(cmds: &[Any<I, S>]) -> String {
    let cmds: Vec<P::Cmd> = cmds.iter().cloned().map(P::cmd).collect();
    format!("{:?}", CommandSequence::<TyName, P::Cmd> { cmds, ty_name: PhantomData })
}

/// Compare the verdict of the reference with that of the runner
fn judge<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>(what: &str, cmds: &[Any<I, S>], e: &Eval) -> Result<(), String> {
    let (upto, want) = match e {
        Eval::Holds => (cmds.len(), true),
        Eval::Fails(k, _) => (k + 1, false),
        Eval::Unknown(k, _) => (*k, true),
    };
    let got = run_passes::<I, S, P, M>(&cmds[..upto]);
    let text = || format!("{} over {}, {}, M = {M}\n{}", P::PARAM, I::NAME, S::NAME, print_cmds::<I, S, P, M>(&cmds[..upto]));
    match (want, got, e) {
        (true, Ok(()), _) | (false, Err(_), _) => Ok(()),
        (true, Err(m), _) => Err(format!("{what}: the runner fails although every expectation is right: {m}\n{}", text())),
        (false, Ok(()), Eval::Fails(k, m)) => {
            Err(format!("{what}: the runner accepts a wrong expectation (command {k}: {m})\n{}", text()))
        }
        _ => unreachable!(),
    }
}

/// Alter one thing in a sequence, through the public interface of the commands
fn alter<I: Ix, S: Sv<I>>(r: &mut Rng, cmds: &[Any<I, S>]) -> Option<(usize, Vec<Any<I, S>>)> {
    let k = r.below(cmds.len() as u64) as usize;
    let mut out = cmds.to_vec();
    let how = r.below(4);
    let c = cmds[k].clone();
    let nth = |r: &mut Rng, c: Any<I, S>| {
        // the n-th index in it, off by a little
        let mut n = 0;
        let _ = c.clone().map_index(|i| {
            n += 1;
            i
        });
        if n == 0 {
            return None;
        }
        let (pick, d) = (r.below(n), r.pick(&[-1i128, 1, 1, 2, -2]));
        let mut j = 0;
        let mut ok = true;
        let c = c.map_index(|i| {
            j += 1;
            if j - 1 != pick {
                return i;
            }
            I::from_i(i.to_i() + d).unwrap_or_else(|| {
                ok = false;
                i
            })
        });
        ok.then_some(c)
    };
    let nth_slice = |r: &mut Rng, c: Any<I, S>| {
        let mut n = 0;
        let _ = c.clone().map_slice(|i| {
            n += 1;
            i
        });
        if n == 0 {
            return None;
        }
        let pick = r.below(n);
        let mut j = 0;
        Some(c.map_slice(|s: S| {
            j += 1;
            if j - 1 == pick {
                s.other()
            } else {
                s
            }
        }))
    };
    let new = match how {
        0 => nth(r, c)?,
        1 => nth_slice(r, c)?,
        _ => match c.basic() {
            Some(BasicCommand::Insert { id, index, slice, size, panics }) => {
                c.with_basic(BasicCommand::Insert { id: *id, index: *index, slice: slice.clone(), size: *size, panics: !panics })
            }
            Some(BasicCommand::Get { id, index, info }) => match info {
                Ok(_) => c.with_basic(BasicCommand::Get { id: *id, index: *index, info: Err(()) }),
                Err(()) => c.with_basic(BasicCommand::Get { id: *id, index: *index, info: Ok((*index..*index, S::parse_any(*index)?)) }),
            },
            Some(BasicCommand::Iter { id, start, end, access }) => {
                let access = match access {
                    Err(()) => Ok(vec![]),
                    Ok(a) if a.is_empty() => Err(()),
                    Ok(a) => {
                        let mut a = a.clone();
                        let j = r.below(a.len() as u64) as usize;
                        match r.below(5) {
                            0 => {
                                a[j].0 = match a[j].0 {
                                    IterDirection::Forward => IterDirection::Backward,
                                    IterDirection::Backward => IterDirection::Forward,
                                };
                                Ok(a)
                            }
                            1 => {
                                a[j].1 = None;
                                Ok(a)
                            }
                            2 => {
                                a.remove(j);
                                Ok(a)
                            }
                            3 => {
                                let e = a[r.below(a.len() as u64) as usize].1.clone();
                                a[j].1 = e;
                                Ok(a)
                            }
                            _ => Err(()),
                        }
                    }
                };
                let end = match end {
                    EndBound::Included(i) => EndBound::Included(*i),
                    e => *e,
                };
                c.with_basic(BasicCommand::Iter { id: *id, start: *start, end, access })
            }
            None => match c {
                Any::R(SliceRefCommand::MakeRef { id, index, ref_id: Ok(_) }) => Any::R(SliceRefCommand::MakeRef { id, index, ref_id: Err(()) }),
                Any::R(SliceRefCommand::InsertRef { id, index, slice, size, ref_id: Ok(_) }) => {
                    Any::R(SliceRefCommand::InsertRef { id, index, slice, size, ref_id: Err(()) })
                }
                Any::R(SliceRefCommand::CheckRefValid { id, ref_id, valid }) => Any::R(SliceRefCommand::CheckRefValid { id, ref_id, valid: !valid }),
                Any::R(SliceRefCommand::CheckRefRange { id, ref_id, range: Ok(_) }) => {
                    Any::R(SliceRefCommand::CheckRefRange { id, ref_id, range: Err(()) })
                }
                Any::R(SliceRefCommand::CheckRefSlice { id, ref_id, slice: Ok(_) }) => {
                    Any::R(SliceRefCommand::CheckRefSlice { id, ref_id, slice: Err(()) })
                }
                _ => return None,
            },
        },
    };
    out[k] = new;
    Some((k, out))
}

trait ParseAny<I>: Sv<I> {
    fn parse_any(i: I) -> Option<Self>;
}
impl<I: Ix, S: Sv<I>> ParseAny<I> for S {
    fn parse_any(_: I) -> Option<Self> {
        S::arbitrary(&mut Unstructured::new(&[0; 8])).ok()
    }
}

fn prelude<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>() -> String {
    let s = if S::NAME == "Seg" { format!("Seg<{}>", I::NAME) } else { S::NAME.to_string() };
    format!("{}|{s}|{}|{M}", I::NAME, P::PARAM)
}

fn texts<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>(r: &mut Rng, cmds: &[Any<I, S>], out: &mut Vec<Text>) {
    let p = prelude::<I, S, P, M>();
    let push = |out: &mut Vec<Text>, kind, body: &[Any<I, S>], passes, why: String, sabotage| {
        out.push(Text { kind, prelude: p.clone(), body: print_cmds::<I, S, P, M>(body), passes, why, sabotage })
    };
    push(out, "faithful", cmds, true, String::new(), false);
    let mut done = 0;
    for _ in 0..12 {
        if done == 2 {
            break;
        }
        let Some((k, alt)) = alter(r, cmds) else { continue };
        match eval(&alt).0 {
            Eval::Fails(n, m) => {
                // later commands may use what a failing one no longer defines
                push(out, "altered", &alt[..n + 1], false, format!("command {k} altered, command {n}: {m}"), false);
                done += 1;
            }
            Eval::Holds if alt[k].is_insert() == cmds[k].is_insert() => {
                push(out, "altered", &alt, true, format!("command {k} altered without effect"), false);
                done += 1;
            }
            _ => {}
        }
    }
    // with cursor sources that lie, a test that compares cursors fails
    let cursors = |c: &Any<I, S>| match c.basic() {
        Some(BasicCommand::Insert { panics: false, .. }) => true,
        Some(BasicCommand::Get { info: Ok(_), .. }) => P::PARAM != "AllowCow",
        _ => false,
    };
    if let Some(k) = cmds.iter().position(cursors) {
        push(out, "lying cursors", &cmds[..k + 1], false, format!("command {k} compares cursors"), true);
    }
}

fn exec<I: Ix, S: Sv<I>, P: Kind<I, S, M>, const M: usize>(case: &Case, st: &mut Stats, emit: Option<&mut Vec<Text>>) -> Result<bool, String> {
    let decoded = catch_unwind(AssertUnwindSafe(|| {
        CommandSequence::<TyName, P::Cmd>::arbitrary(&mut Unstructured::new(&case.bytes)).map(|s| s.cmds)
    }));
    let cmds = match decoded {
        Err(_) => return Err(format!("decoding panics ({} over {}, {})", P::PARAM, I::NAME, S::NAME)),
        Ok(Err(_)) => {
            st.add("byte strings refused by the decoder", 1);
            return Ok(false);
        }
        Ok(Ok(c)) => c,
    };
    let cmds: Vec<Any<I, S>> = cmds.into_iter().map(P::any).collect();
    st.add("commands", cmds.len() as u64);
    let (e, state) = eval(&cmds);
    if let Eval::Fails(k, m) = &e {
        return Err(format!(
            "command {k} predicts something else than the reference: {m}\n{} over {}, {}\n{}",
            P::PARAM,
            I::NAME,
            S::NAME,
            print_cmds::<I, S, P, M>(&cmds[..k + 1])
        ));
    }
    if let Eval::Unknown(..) = e {
        st.add("sequences cut before a command that is not judged", 1);
    }
    judge::<I, S, P, M>("decoded", &cmds, &e)?;
    let cut = match e {
        Eval::Unknown(k, _) => &cmds[..k],
        _ => &cmds[..],
    };
    let mut r = Rng::new(case.seed, 77, 1);
    if !cut.is_empty() {
        let mut sequence = cut.to_vec();
        for k in 0..4 {
            if k == 2 {
                sequence = cut.to_vec();
            }
            let Some((_, alt)) = alter(&mut r, &sequence) else { continue };
            let (e, _) = eval(&alt);
            st.add(if matches!(e, Eval::Fails(..)) { "wrong expectations planted" } else { "neutral alterations" }, 1);
            judge::<I, S, P, M>("altered", &alt, &e)?;
            if e == Eval::Holds && alt.iter().zip(&sequence).all(|(a, b)| a.is_insert() == b.is_insert()) {
                sequence = alt;
            }
        }
    }
    // mapping with the identity
    let text = print_cmds::<I, S, P, M>(cut);
    let same: Vec<Any<I, S>> = cut.iter().cloned().map(|c| c.map_index(|i| i).map_slice(|s| s)).collect();
    if print_cmds::<I, S, P, M>(&same) != text {
        return Err(format!("mapping indexes and slices with the identity changes the commands\n{text}\n{}", print_cmds::<I, S, P, M>(&same)));
    }
    // sequence-level map
    let seq = CommandSequence::<TyName, P::Cmd> { cmds: cut.iter().cloned().map(P::cmd).collect(), ty_name: PhantomData };
    let mapped: CommandSequence<TyName, P::Cmd> = seq.map(|c| c);
    if format!("{mapped:?}") != text {
        return Err(format!("CommandSequence::map with the identity changes the commands\n{text}\n{mapped:?}"));
    }
    // an order-preserving relabelling of values that keeps them apart is again a right sequence
    if S::NAME != "Seg" {
        let re: Vec<Any<I, S>> = cut.iter().cloned().map(|c| c.map_slice(|s| s.other())).collect();
        let inj = {
            // `other` is injective except on letters other than A and B
            S::NAME == "Solo"
        };
        let (e, _) = eval(&re);
        if inj && e != Eval::Holds {
            return Err(format!("relabelling every value makes the sequence wrong: {e:?}\n{text}\n{}", print_cmds::<I, S, P, M>(&re)));
        }
        judge::<I, S, P, M>("relabelled", &re, &e)?;
    }
    if let Some(out) = emit {
        if !cut.is_empty() && cut.len() < 60 {
            texts::<I, S, P, M>(&mut r, cut, out);
        }
    }
    st.add("runs joined", state.joins);
    st.add("runs split", state.splits);
    let inserts = cut.iter().filter(|c| c.is_insert()).count();
    st.add("sequences with two or more levels", (state.most_runs > 2 * M) as u64);
    Ok(inserts >= 2 && cut.len() - inserts >= 1)
}

type Gen = fn(&mut Rng) -> Vec<u8>;
type Exec = fn(&Case, &mut Stats, Option<&mut Vec<Text>>) -> Result<bool, String>;
macro_rules! table {
    ($($i:ty, $s:ty, $p:ty, $m:literal;)*) => {
        const TABLE: &[(Gen, Exec)] = &[$((generate::<$i, $s, $p, $m>, exec::<$i, $s, $p, $m>)),*];
    };
}
table! {
    u8, Const, NoFeatures, 1;
    u8, Const, AllowSliceRefs, 1;
    u8, Const, AllowCow, 1;
    u8, Const, NoFeatures, 3;
    u8, Const, AllowSliceRefs, 3;
    u8, Const, AllowCow, 3;
    u8, Solo, NoFeatures, 1;
    u8, Solo, AllowSliceRefs, 1;
    u8, Solo, AllowCow, 1;
    u8, Seg<u8>, AllowSliceRefs, 1;
    u8, Seg<u8>, AllowCow, 1;
    u16, Const, AllowSliceRefs, 2;
    u16, Solo, AllowCow, 1;
    u32, Const, AllowSliceRefs, 1;
    u32, Seg<u32>, AllowSliceRefs, 3;
    u64, Solo, AllowSliceRefs, 1;
    u64, Seg<u64>, AllowCow, 1;
    usize, Const, NoFeatures, 2;
    usize, Const, AllowSliceRefs, 1;
    usize, Solo, AllowCow, 3;
    usize, Seg<usize>, NoFeatures, 1;
    u32, Solo, AllowSliceRefs, 3;
    u64, Const, AllowCow, 2;
}

fn gen_case(seed: u64, k: u64) -> Case {
    let mut r = Rng::new(seed, 23, k);
    // the widths and types of the fuzz targets get half of the cases
    let inst = if r.chance(1, 2) { r.below(6) } else { r.below(TABLE.len() as u64) } as usize;
    Case { inst, seed: r.next(), bytes: TABLE[inst].0(&mut r) }
}

fn show(c: &Case) -> String {
    let hex: String = c.bytes.iter().map(|b| format!("{b:02x}")).collect();
    format!("inst {}\nseed {}\nbytes {hex}\n", c.inst, c.seed)
}

fn load(text: &str) -> Case {
    let get = |k: &str| text.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").trim().to_string();
    let hex = get("bytes ");
    Case {
        inst: get("inst ").parse().unwrap(),
        seed: get("seed ").parse().unwrap(),
        bytes: (0..hex.len() / 2).map(|i| u8::from_str_radix(&hex[2 * i..2 * i + 2], 16).unwrap()).collect(),
    }
}

fn fails(c: &Case) -> Option<String> {
    TABLE[c.inst].1(c, &mut Stats::default(), None).err()
}

fn shrink(mut c: Case) -> Case {
    let t0 = std::time::Instant::now();
    let mut n = c.bytes.len() / 2;
    while n >= 1 {
        let mut i = 0;
        while i + n <= c.bytes.len() && t0.elapsed().as_secs() < 60 {
            let mut d = c.clone();
            d.bytes.drain(i..i + n);
            if fails(&d).is_some() {
                c = d;
            } else {
                i += n;
            }
        }
        n /= 2;
    }
    for i in 0..c.bytes.len() {
        for v in [0, 1, 2, c.bytes[i] / 2] {
            if v < c.bytes[i] && t0.elapsed().as_secs() < 60 {
                let mut d = c.clone();
                d.bytes[i] = v;
                if fails(&d).is_some() {
                    c = d;
                    break;
                }
            }
        }
    }
    c
}

fn write_texts(dir: &str, k: u64, ts: Vec<Text>) {
    for (j, t) in ts.into_iter().enumerate() {
        let name = format!("{dir}/t{k}_{j}");
        std::fs::write(
            &name,
            format!("{}\n{}\n{}\n{}\n{}\n{}\n", t.prelude, t.kind, t.passes, t.sabotage, t.why.replace('\n', " "), t.body),
        )
        .unwrap();
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let opt = |k: &str| a.iter().position(|x| x == k).map(|i| a[i + 1].clone());
    match a[1].as_str() {
        "run" => {
            let seed: u64 = opt("--seed").unwrap().parse().unwrap();
            let (from, to): (u64, u64) = (opt("--from").unwrap().parse().unwrap(), opt("--to").unwrap().parse().unwrap());
            let every: u64 = opt("--every").map_or(0, |s| s.parse().unwrap());
            let secs: u64 = opt("--secs").map_or(u64::MAX, |s| s.parse().unwrap());
            let t0 = std::time::Instant::now();
            let mut st = Stats::default();
            let mut seen = std::collections::HashSet::new();
            for k in from..to {
                if t0.elapsed().as_secs() >= secs {
                    break;
                }
                let case = gen_case(seed, k);
                watch::case(format!("HANG {k}"), 12);
                let mut ts = Vec::new();
                let emit = every > 0 && k % every == 0;
                st.add("cases", 1);
                match TABLE[case.inst].1(&case, &mut st, emit.then_some(&mut ts)) {
                    Ok(nt) => {
                        st.add("non-trivial", nt as u64);
                        if nt {
                            st.add("repeated", !seen.insert((case.inst, case.bytes.clone())) as u64);
                        }
                    }
                    Err(_) => {
                        let why = fails(&case).unwrap_or_default().lines().map(|l| format!("# {l}\n")).collect::<String>();
                        watch::case(format!("FAILED\n# generated case {k}\n{why}{}", show(&case)), 10);
                        let c = shrink(case);
                        println!("FAILED\n# generated case {k}\n{}", fails(&c).unwrap_or_default().lines().map(|l| format!("# {l}\n")).collect::<String>());
                        print!("{}", show(&c));
                        std::process::exit(10);
                    }
                }
                if emit {
                    write_texts(&opt("--emit").unwrap(), k, ts);
                }
            }
            for (k, v) in &st.count {
                println!("stat {v} {k}");
            }
        }
        "gen" => {
            let seed: u64 = opt("--seed").unwrap().parse().unwrap();
            print!("{}", show(&gen_case(seed, opt("--case").unwrap().parse().unwrap())));
        }
        "emit" => {
            let c = load(&std::fs::read_to_string(&a[2]).unwrap());
            let mut ts = Vec::new();
            match TABLE[c.inst].1(&c, &mut Stats::default(), Some(&mut ts)) {
                Ok(_) => write_texts(&opt("--emit").unwrap(), 0, ts),
                Err(_) => std::process::exit(10),
            }
        }
        "case" => {
            let c = load(&std::fs::read_to_string(&a[2]).unwrap());
            if let Some(m) = fails(&c) {
                println!("{m}");
                std::process::exit(10);
            }
        }
        _ => panic!("usage"),
    }
}
