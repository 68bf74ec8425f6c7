//! Reference semantics of command sequences: what each command does and expects, decided on a plain
//! list of runs. Independent of both the mock and the tree.
use crate::types::*;
use sherman::range::{EndBound, StartBound};
use sherman_fuzz_utils::{BasicCommand, CowCommand, IterDirection, SliceRefCommand};

/// One command of any kind
#[derive(Clone)]
pub enum Any<I, S> {
    B(BasicCommand<I, S>),
    R(SliceRefCommand<I, S>),
    C(CowCommand<I, S>),
}

impl<I: Ix, S: Sv<I>> Any<I, S> {
    pub fn map_index<J, F: FnMut(I) -> J>(self, f: F) -> Any<J, S> {
        match self {
            Any::B(c) => Any::B(c.map_index(f)),
            Any::R(c) => Any::R(c.map_index(f)),
            Any::C(c) => Any::C(c.map_index(f)),
        }
    }
    pub fn map_slice<T, F: FnMut(S) -> T>(self, f: F) -> Any<I, T> {
        match self {
            Any::B(c) => Any::B(c.map_slice(f)),
            Any::R(c) => Any::R(c.map_slice(f)),
            Any::C(c) => Any::C(c.map_slice(f)),
        }
    }
    pub fn basic(&self) -> Option<&BasicCommand<I, S>> {
        match self {
            Any::B(b) | Any::R(SliceRefCommand::Basic(b)) | Any::C(CowCommand::Basic(b)) => Some(b),
            _ => None,
        }
    }
    pub fn with_basic(&self, b: BasicCommand<I, S>) -> Any<I, S> {
        match self {
            Any::B(_) => Any::B(b),
            Any::R(_) => Any::R(SliceRefCommand::Basic(b)),
            Any::C(_) => Any::C(CowCommand::Basic(b)),
        }
    }
    pub fn is_insert(&self) -> bool {
        matches!(self.basic(), Some(BasicCommand::Insert { panics: false, .. })) || matches!(self, Any::R(SliceRefCommand::InsertRef { ref_id: Ok(_), .. }))
    }
}

#[derive(Clone)]
pub struct Run<I, S> {
    pub size: i128,
    pub val: S,
    pub uid: usize,
    _i: std::marker::PhantomData<I>,
}

#[derive(Clone)]
pub struct Seq<I, S> {
    pub runs: Vec<Run<I, S>>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Eval {
    Holds,
    /// command number and reason
    Fails(usize, String),
    /// the semantics of this command is not judged (number, reason)
    Unknown(usize, &'static str),
}

pub struct State<I, S> {
    pub trees: Vec<Option<Seq<I, S>>>,
    pub refs: Vec<Option<usize>>,
    alias: Vec<usize>,
    pub joins: u64,
    pub splits: u64,
    pub most_runs: usize,
}

pub enum One {
    Ok,
    Fail(String),
    Unknown(&'static str),
}

fn num<T: std::fmt::Display>(t: &T) -> usize {
    t.to_string().parse().expect("an id displays as its number")
}

/// range and size of an entry, from its debug form
pub fn entry_parts<I, S: Sv<I>>(text: &str) -> Option<(i128, i128, i128, S)> {
    let (val, a, b) = S::parse(text)?;
    let rest = format!("{} {}", &text[..a], &text[b..]);
    let dots = rest.find("..")?;
    let head = &rest[..dots];
    let st = head.rfind(|c: char| !(c.is_ascii_digit() || c == '-')).map_or(0, |i| i + 1);
    let tail = &rest[dots + 2..];
    let en = tail.find(|c: char| !(c.is_ascii_digit() || c == '-')).unwrap_or(tail.len());
    let start = head[st..].parse().ok()?;
    let end = tail[..en].parse().ok()?;
    let rest = format!("{} {}", &head[..st], &tail[en..]);
    let mut nums = rest.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|s| !s.is_empty());
    let size = nums.next()?.parse().ok()?;
    if nums.next().is_some() {
        return None;
    }
    Some((start, end, size, val))
}

impl<I: Ix, S: Sv<I>> Seq<I, S> {
    pub fn size(&self) -> i128 {
        self.runs.iter().map(|r| r.size).sum()
    }
    fn start(&self, k: usize) -> i128 {
        self.runs[..k].iter().map(|r| r.size).sum()
    }
    fn at(&self, idx: i128) -> usize {
        let mut p = 0;
        for (k, r) in self.runs.iter().enumerate() {
            p += r.size;
            if idx < p {
                return k;
            }
        }
        unreachable!()
    }
}

impl<I: Ix, S: Sv<I>> State<I, S> {
    pub fn new() -> Self {
        State { trees: vec![Some(Seq { runs: vec![] })], refs: vec![], alias: vec![], joins: 0, splits: 0, most_runs: 0 }
    }
    fn uid(&mut self) -> usize {
        self.alias.push(self.alias.len());
        self.alias.len() - 1
    }
    fn resolve(&self, mut u: usize) -> usize {
        while self.alias[u] != u {
            u = self.alias[u];
        }
        u
    }

    /// Err(None): panics. Err(Some(why)): not judged. Ok: the run covering the new value
    fn insert(&mut self, t: usize, idx: i128, val: S, size: i128) -> Result<usize, Option<&'static str>> {
        let total = self.trees[t].as_ref().unwrap().size();
        if idx < 0 {
            return Err(Some("insertion below zero"));
        }
        if idx > total || size <= 0 || total + size > I::MAX {
            self.trees[t] = None;
            return Err(None);
        }
        let id = self.uid();
        let right_id = self.uid();
        let q = self.trees[t].as_mut().unwrap();
        let mut new = Run { size, val, uid: id, _i: std::marker::PhantomData };
        let mut p = 0;
        let mut k = 0;
        while k < q.runs.len() && p + q.runs[k].size <= idx {
            p += q.runs[k].size;
            k += 1;
        }
        let inside = p < idx;
        let mut at = k;
        if inside {
            let off = idx - p;
            let r = q.runs[k].val.split_at(I::from_i(off).unwrap());
            let rs = q.runs[k].size - off;
            q.runs[k].size = off;
            q.runs.insert(k + 1, Run { size: rs, val: r, uid: right_id, _i: std::marker::PhantomData });
            at = k + 1;
            self.splits += 1;
        }
        let mut joined_left = false;
        if S::MAY_JOIN && at > 0 {
            let l = q.runs[at - 1].clone();
            if let Ok(v) = S::join(l.val, l.size, new.val.clone(), new.size) {
                new.val = v;
                new.size += l.size;
                self.alias[new.uid] = l.uid;
                new.uid = l.uid;
                q.runs.remove(at - 1);
                at -= 1;
                joined_left = true;
            }
        }
        let mut joined_right = false;
        if S::MAY_JOIN && at < q.runs.len() {
            let r = q.runs[at].clone();
            if let Ok(v) = S::join(new.val.clone(), new.size, r.val, r.size) {
                new.val = v;
                new.size += r.size;
                self.alias[r.uid] = new.uid;
                q.runs.remove(at);
                joined_right = true;
            }
        }
        if joined_left && joined_right && !inside {
            return Err(Some("value that joins with both of its neighbours (known finding double-edge-join)"));
        }
        let uid = new.uid;
        q.runs.insert(at, new);
        self.joins += joined_left as u64 + joined_right as u64;
        self.most_runs = self.most_runs.max(q.runs.len());
        Ok(uid)
    }

    fn get(&self, t: usize, idx: i128) -> Option<(i128, i128, S, usize)> {
        let q = self.trees[t].as_ref().unwrap();
        if idx < 0 || idx >= q.size() {
            return None;
        }
        let k = q.at(idx);
        let s = q.start(k);
        Some((s, s + q.runs[k].size, q.runs[k].val.clone(), q.runs[k].uid))
    }

    fn locate(&self, r: usize) -> Option<(i128, i128, S)> {
        let u = self.resolve(self.refs[r].expect("uses a dropped reference"));
        let q = self.trees[0].as_ref()?;
        let k = q.runs.iter().position(|x| x.uid == u)?;
        let s = q.start(k);
        Some((s, s + q.runs[k].size, q.runs[k].val.clone()))
    }

    fn basic(&mut self, c: &BasicCommand<I, S>) -> One {
        let fail = |s: String| One::Fail(s);
        match c {
            BasicCommand::Insert { id, index, slice, size, panics } => match self.insert(num(id), index.to_i(), slice.clone(), size.to_i()) {
                Err(Some(w)) => One::Unknown(w),
                r if r.is_err() == *panics => One::Ok,
                r => fail(format!("insertion {}", if r.is_ok() { "succeeds" } else { "panics" })),
            },
            BasicCommand::Get { id, index, info } => match (self.get(num(id), index.to_i()), info) {
                (None, Err(())) => One::Ok,
                (Some((a, b, v, _)), Ok((r, s))) if r.start.to_i() == a && r.end.to_i() == b && v == *s => One::Ok,
                (None, _) => fail("get panics".into()),
                (Some((a, b, v, _)), _) => fail(format!("get gives {a}..{b} {v:?}")),
            },
            BasicCommand::Iter { id, start, end, access } => {
                let q = self.trees[num(id)].as_ref().unwrap();
                let total = q.size();
                let (lo, bad_lo) = match start {
                    StartBound::Included(i) => (i.to_i(), i.to_i() < 0 || i.to_i() >= total),
                    StartBound::Unbounded => (0, false),
                };
                // first excluded index
                let (hi, bad_hi) = match end {
                    EndBound::Unbounded => (total, false),
                    EndBound::Included(i) => (i.to_i() + 1, i.to_i() >= total),
                    EndBound::Excluded(i) => (i.to_i(), i.to_i() > total),
                };
                let after = matches!(start, StartBound::Included(_)) && !matches!(end, EndBound::Unbounded) && lo >= hi;
                let panics = bad_lo || bad_hi || after;
                if !panics && hi < 0 || (!panics && matches!(end, EndBound::Included(i) if i.to_i() < 0)) {
                    return One::Unknown("range ending below zero");
                }
                let access = match access {
                    Err(()) if panics => return One::Ok,
                    Err(()) => return fail("iter does not panic".into()),
                    Ok(_) if panics => return fail("iter panics".into()),
                    Ok(a) => a,
                };
                let (mut f, mut b) = (0, 0);
                if lo < hi && !q.runs.is_empty() {
                    f = q.at(lo);
                    b = q.at(hi - 1) + 1;
                }
                for (k, (dir, e)) in access.iter().enumerate() {
                    let want = if f >= b {
                        None
                    } else if matches!(dir, IterDirection::Forward) {
                        f += 1;
                        Some(f - 1)
                    } else {
                        b -= 1;
                        Some(b)
                    };
                    match (want, e) {
                        (None, None) => {}
                        (None, Some(_)) => return fail(format!("step {k} yields nothing")),
                        (Some(_), None) => return fail(format!("step {k} yields a run")),
                        (Some(w), Some(e)) => {
                            let s = q.start(w);
                            match entry_parts::<I, S>(&format!("{e:?}")) {
                                None => return One::Unknown("entry whose debug form is not understood"),
                                Some((x, y, z, v)) => {
                                    let r = &q.runs[w];
                                    if (x, y, z) != (s, s + r.size, r.size) || v != r.val {
                                        return fail(format!("step {k} yields {s}..{} size {} {:?}", s + r.size, r.size, r.val));
                                    }
                                }
                            }
                        }
                    }
                }
                One::Ok
            }
        }
    }

    pub fn step(&mut self, c: &Any<I, S>) -> One {
        let fail = |s: String| One::Fail(s);
        if let Some(b) = c.basic() {
            return self.basic(b);
        }
        match c {
            Any::C(CowCommand::ShallowClone { src_id, new_id }) => {
                let t = self.trees[num(src_id)].clone();
                if num(new_id) != self.trees.len() {
                    return fail("new tree id is out of sequence".into());
                }
                self.trees.push(t);
                One::Ok
            }
            Any::C(CowCommand::DropTree { id }) => {
                self.trees[num(id)] = None;
                One::Ok
            }
            Any::R(SliceRefCommand::MakeRef { id, index, ref_id }) => match (self.get(num(id), index.to_i()), ref_id) {
                (None, Err(())) => One::Ok,
                (Some((.., u)), Ok(r)) => {
                    self.refs.push(Some(u));
                    if num(r) + 1 != self.refs.len() {
                        return fail("new reference id is out of sequence".into());
                    }
                    One::Ok
                }
                (g, _) => fail(format!("make_ref {}", if g.is_some() { "succeeds" } else { "panics" })),
            },
            Any::R(SliceRefCommand::InsertRef { id, index, slice, size, ref_id }) => {
                match (self.insert(num(id), index.to_i(), slice.clone(), size.to_i()), ref_id) {
                    (Err(Some(w)), _) => One::Unknown(w),
                    (Err(None), Err(())) => One::Ok,
                    (Ok(u), Ok(r)) => {
                        self.refs.push(Some(u));
                        if num(r) + 1 != self.refs.len() {
                            return fail("new reference id is out of sequence".into());
                        }
                        One::Ok
                    }
                    (r, _) => fail(format!("insert_ref {}", if r.is_ok() { "succeeds" } else { "panics" })),
                }
            }
            Any::R(SliceRefCommand::CloneRef { src_id, new_id }) => {
                let u = self.refs[num(src_id)];
                self.refs.push(Some(u.expect("clones a dropped reference")));
                if num(new_id) + 1 != self.refs.len() {
                    return fail("new reference id is out of sequence".into());
                }
                One::Ok
            }
            Any::R(SliceRefCommand::CheckRefValid { ref_id, valid, .. }) => {
                if self.locate(num(ref_id)).is_some() == *valid {
                    One::Ok
                } else {
                    fail(format!("is_valid gives {}", !valid))
                }
            }
            Any::R(SliceRefCommand::CheckRefRange { ref_id, range, .. }) => match (self.locate(num(ref_id)), range) {
                (None, Err(())) => One::Ok,
                (Some((a, b, _)), Ok(r)) if r.start.to_i() == a && r.end.to_i() == b => One::Ok,
                (l, _) => fail(format!("range of the reference is {:?}", l.map(|l| l.0..l.1))),
            },
            Any::R(SliceRefCommand::CheckRefSlice { ref_id, slice, .. }) => match (self.locate(num(ref_id)), slice) {
                (None, Err(())) => One::Ok,
                (Some((.., v)), Ok(s)) if v == *s => One::Ok,
                (l, _) => fail(format!("slice of the reference is {:?}", l.map(|l| l.2))),
            },
            Any::R(SliceRefCommand::DropRef { ref_id }) => {
                self.refs[num(ref_id)].take().expect("drops a dropped reference");
                One::Ok
            }
            _ => unreachable!(),
        }
    }
}

pub fn eval<I: Ix, S: Sv<I>>(cmds: &[Any<I, S>]) -> (Eval, State<I, S>) {
    let mut st = State::new();
    for (k, c) in cmds.iter().enumerate() {
        match st.step(c) {
            One::Ok => {}
            One::Fail(m) => return (Eval::Fails(k, m), st),
            One::Unknown(w) => return (Eval::Unknown(k, w), st),
        }
    }
    (Eval::Holds, st)
}
