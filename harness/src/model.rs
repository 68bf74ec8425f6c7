//! Reference model: a plain ordered sequence of runs.
use crate::types::{HIdx, Val};
use std::cmp::Ordering;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Run<I> {
    pub val: Val<I>,
    pub size: I,
    pub id: u32,
}

#[derive(Clone, Debug)]
pub struct Model<I> {
    pub runs: Vec<Run<I>>,
    /// prefix products: `ends[i]` is the end position of run `i`
    pub ends: Vec<I>,
    pub joins: bool,
    next_id: u32,
    alias: HashMap<u32, u32>,
}

/// What an insertion will do / did
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Effect {
    /// index of the run that was split, in the sequence before the insertion
    pub split: Option<usize>,
    pub join_left: bool,
    pub join_right: bool,
    /// final index of the run that contains the inserted value
    pub at: usize,
    /// stable id of that run
    pub id: u32,
}

/// Where a position falls
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Spot<I> {
    /// on the boundary before run `i` (`i == len` is the end)
    Edge(usize),
    /// inside run `i`, at the given offset
    Inside(usize, I),
}

impl<I: HIdx> Model<I> {
    pub fn new(joins: bool) -> Self {
        Model { runs: Vec::new(), ends: Vec::new(), joins, next_id: 0, alias: HashMap::new() }
    }
    pub fn len(&self) -> usize {
        self.runs.len()
    }
    pub fn size(&self) -> I {
        self.ends.last().copied().unwrap_or(I::ZERO)
    }
    pub fn start(&self, i: usize) -> I {
        if i == 0 {
            I::ZERO
        } else {
            self.ends[i - 1]
        }
    }
    pub fn end(&self, i: usize) -> I {
        self.ends[i]
    }
    /// index of the run containing `idx` (which must be in bounds)
    pub fn find(&self, idx: I) -> usize {
        // first run whose end is > idx
        self.ends.partition_point(|e| e.m_cmp(idx) != Ordering::Greater)
    }
    pub fn spot(&self, idx: I) -> Spot<I> {
        let i = self.find(idx);
        if i == self.len() {
            return Spot::Edge(i);
        }
        let s = self.start(i);
        if s.m_cmp(idx) == Ordering::Equal {
            Spot::Edge(i)
        } else {
            Spot::Inside(i, idx.m_sub_left(s))
        }
    }
    pub fn resolve(&self, mut id: u32) -> u32 {
        while let Some(n) = self.alias.get(&id) {
            id = *n;
        }
        id
    }
    pub fn find_id(&self, id: u32) -> Option<usize> {
        let id = self.resolve(id);
        self.runs.iter().position(|r| r.id == id)
    }

    /// Predict what inserting `val` at `idx` will do
    pub fn predict(&self, idx: I, val: &Val<I>) -> Effect {
        let mut e = Effect { split: None, join_left: false, join_right: false, at: 0, id: 0 };
        let (l, r, at) = match self.spot(idx) {
            Spot::Edge(i) => (
                i.checked_sub(1).map(|k| self.runs[k].val.clone()),
                self.runs.get(i).map(|r| r.val.clone()),
                i,
            ),
            Spot::Inside(i, off) => {
                let mut a = self.runs[i].val.clone();
                let b = a.split(off);
                e.split = Some(i);
                (Some(a), Some(b), i + 1)
            }
        };
        e.at = at;
        let mut cur = val.clone();
        if self.joins {
            if let Some(j) = l.as_ref().and_then(|l| l.join(&cur)) {
                e.join_left = true;
                e.at -= 1;
                cur = j;
            }
            if let Some(r) = r {
                e.join_right = cur.join(&r).is_some();
            }
        }
        e
    }

    /// An insertion on a boundary that merges with the runs on *both* sides
    pub fn is_double_edge_join(&self, idx: I, val: &Val<I>) -> bool {
        let e = self.predict(idx, val);
        e.split.is_none() && e.join_left && e.join_right
    }

    pub fn insert(&mut self, idx: I, val: Val<I>, size: I) -> Effect {
        let mut e = self.predict(idx, &val);
        let at0; // index where the new run goes
        match self.spot(idx) {
            Spot::Edge(i) => at0 = i,
            Spot::Inside(i, off) => {
                let rv = self.runs[i].val.split(off);
                let rsize = self.runs[i].size.m_sub_left(off);
                self.runs[i].size = off;
                let id = self.fresh();
                self.runs.insert(i + 1, Run { val: rv, size: rsize, id });
                at0 = i + 1;
            }
        }
        let id = self.fresh();
        self.runs.insert(at0, Run { val, size, id });
        let mut k = at0;
        if e.join_left {
            let me = self.runs.remove(k);
            k -= 1;
            let l = &mut self.runs[k];
            l.val = l.val.join(&me.val).unwrap();
            l.size = l.size.m_add(me.size);
            let to = l.id;
            self.alias.insert(me.id, to);
        }
        if e.join_right {
            let r = self.runs.remove(k + 1);
            let l = &mut self.runs[k];
            l.val = l.val.join(&r.val).unwrap();
            l.size = l.size.m_add(r.size);
            let to = l.id;
            self.alias.insert(r.id, to);
        }
        debug_assert_eq!(k, e.at);
        e.id = self.runs[k].id;
        // recompute prefix products from the first changed run
        let from = k.saturating_sub(1).min(self.ends.len());
        self.ends.truncate(from);
        let mut acc = self.size();
        for r in &self.runs[self.ends.len()..] {
            acc = acc.m_add(r.size);
            self.ends.push(acc);
        }
        e
    }

    fn fresh(&mut self) -> u32 {
        self.next_id += 1;
        self.next_id
    }

    /// Indices of the runs overlapping the half-open interval `[lo, hi)` (`hi` inclusive if `incl`)
    pub fn overlapping(&self, lo: I, hi: I, incl: bool) -> std::ops::Range<usize> {
        let a = self.find(lo);
        let b = if incl {
            self.find(hi) + 1
        } else {
            // runs whose start < hi
            let mut b = 0;
            while b < self.len() && self.start(b).m_cmp(hi) == Ordering::Less {
                b += 1;
            }
            b
        };
        a..b.min(self.len()).max(a)
    }
}
