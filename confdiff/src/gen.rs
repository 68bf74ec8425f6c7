//! Histories, the sequence they denote (used for choosing positions only) and their text form.
use crate::inst::Entry;
use crate::rng::Rng;
use crate::run::{cut, joins, make, SOLO, V};

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Op {
    pub k: u32,
    pub a: u128,
    pub b: u128,
    pub c: u64,
    pub d: u128,
    pub e: u128,
    /// an insertion that has to be accepted
    pub ok: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Case {
    /// narrowest index type able to hold the total size
    pub bits: u32,
    /// the value type can join
    pub j: bool,
    pub insts: Vec<String>,
    pub ops: Vec<Op>,
}

#[derive(Default)]
struct Model {
    runs: Vec<(u128, V<true>)>,
    total: u128,
}
impl Model {
    fn start(&self, i: usize) -> u128 {
        self.runs[..i].iter().map(|r| r.0).sum()
    }
    /// run holding `idx` (or the one starting there), and the offset
    fn find(&self, idx: u128) -> (usize, u128) {
        let mut at = 0;
        for (i, r) in self.runs.iter().enumerate() {
            if idx - at < r.0 {
                return (i, idx - at);
            }
            at += r.0;
        }
        (self.runs.len(), 0)
    }
    /// false if the insertion would merge with both neighbours at an existing boundary
    fn insert(&mut self, idx: u128, mut v: V<true>, mut n: u128, j: bool) -> bool {
        let (mut i, off) = self.find(idx);
        let lj = i > 0 && joins(&self.runs[i - 1].1, &v);
        let rj = i < self.runs.len() && joins(&v, &self.runs[i].1);
        self.total += n;
        if off == 0 {
            if j && lj && rj {
                self.total -= n;
                return false;
            }
        } else {
            let r = &mut self.runs[i];
            let right = cut(&mut r.1, off);
            let rn = r.0 - off;
            r.0 = off;
            self.runs.insert(i + 1, (rn, right));
            i += 1;
        }
        if j && i > 0 && joins(&self.runs[i - 1].1, &v) {
            let l = self.runs.remove(i - 1);
            i -= 1;
            n += l.0;
            v.lo = l.1.lo;
        }
        if j && i < self.runs.len() && joins(&v, &self.runs[i].1) {
            let r = self.runs.remove(i);
            n += r.0;
            v.hi = r.1.hi;
        }
        self.runs.insert(i, (n, v));
        true
    }
}

pub fn max_of(bits: u32) -> u128 {
    if bits == 128 {
        u128::MAX
    } else {
        (1u128 << bits) - 1
    }
}

impl Case {
    /// The operations to run: those the recorded finding concerns or which cannot fit are left out
    pub fn effective(&self) -> (Vec<Op>, bool) {
        let mut m = Model::default();
        let max = max_of(self.bits);
        let mut out = Vec::new();
        let mut inside = false;
        for op in &self.ops {
            let mut op = *op;
            if op.k < 3 {
                op.ok = op.a <= m.total && op.b > 0;
                if op.ok {
                    if max - m.total < op.b {
                        continue;
                    }
                    let v = make::<true>(op.c as u32, op.e, op.b);
                    let n = m.runs.len();
                    if !m.insert(op.a, v, op.b, self.j) {
                        continue;
                    }
                    inside |= n >= 3 && m.runs.len() != n + 1;
                }
            }
            out.push(op);
        }
        (out, inside || m.runs.len() > 10)
    }
    pub fn to_text(&self) -> String {
        let mut s = format!("engine confdiff\nbits {} joins {}\ninsts {}\n", self.bits, self.j as u32, self.insts.join(" "));
        for o in &self.ops {
            s += &format!("op {} {} {} {} {} {}\n", o.k, o.a, o.b, o.c, o.d, o.e);
        }
        s
    }
    pub fn parse(s: &str) -> Case {
        let mut c = Case::default();
        for l in s.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first() {
                Some(&"bits") => {
                    c.bits = w[1].parse().unwrap();
                    c.j = w[3] == "1";
                }
                Some(&"insts") => c.insts = w[1..].iter().map(|s| s.to_string()).collect(),
                Some(&"op") => {
                    let n = |i: usize| w[i].parse::<u128>().unwrap();
                    c.ops.push(Op { k: n(1) as u32, a: n(2), b: n(3), c: n(4) as u64, d: n(5), e: n(6), ok: false });
                }
                _ => {}
            }
        }
        c
    }
}

fn size(r: &mut Rng, room: u128, left: u64) -> u128 {
    let x = r.next() as u128;
    let n = match r.below(12) {
        0..=6 => 1 + x % 9,
        7 | 8 => 1 + x % 300,
        9 => room / (left as u128 + 1).max(1),
        10 => room / 2,
        _ => ((x << 64) | r.next() as u128) % room.max(1),
    };
    n.clamp(1, room.max(1))
}

fn value(r: &mut Rng, m: &Model, idx: u128, n: u128, style: u32, fresh: &mut u32) -> (u32, u128) {
    *fresh += 1;
    let style = if style == 3 { r.below(3) as u32 } else { style };
    match style {
        0 => (r.below(3) as u32, 0),
        1 => {
            let (i, off) = m.find(idx);
            let left = if off > 0 { Some(i) } else { i.checked_sub(1) };
            let right = (i < m.runs.len()).then_some(i);
            match (r.below(4), left, right) {
                // contiguous with what is on the left / on the right
                (0, Some(l), _) if m.runs[l].1.src >= 16 && m.runs[l].1.src < SOLO => {
                    let v = &m.runs[l].1;
                    (v.src, if off > 0 { v.lo.wrapping_add(off) } else { v.hi })
                }
                (1, _, Some(k)) if m.runs[k].1.src >= 16 && m.runs[k].1.src < SOLO => {
                    let v = &m.runs[k].1;
                    (v.src, v.lo.wrapping_add(off).wrapping_sub(n))
                }
                _ => (16 + *fresh, r.below(1000) as u128),
            }
        }
        _ => (SOLO + *fresh, r.below(1000) as u128),
    }
}

pub fn gen(seed: u64, k: u64, es: &[Entry]) -> Case {
    let mut r = Rng::new(seed, 25, k);
    let mut c = Case { bits: r.pick(&[8, 8, 16, 32, 64, 64, 64, 64, 128]), j: r.chance(3, 4), ..Default::default() };
    let class = r.weighted(&[50, 18, 32]);
    let target = r.pick(&[1usize, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 48, 63, 64, 80, 100, 120, 125, 126, 127]);
    let nops = match class {
        0 => 1 + r.below(60),
        1 => 1 + r.below(12),
        _ => 40 + r.below(160),
    };
    let style = r.below(4) as u32;
    let mut m = Model::default();
    let mut fresh = 0u32;
    let max = |c: &Case| max_of(c.bits);
    let mut push = |c: &mut Case, m: &mut Model, k: u32, a: u128, n: u128, src: u32, lo: u128, d: u128| {
        let op = Op { k, a, b: n, c: src as u64, d, e: lo, ok: true };
        if a <= m.total && n > 0 && max(c) - m.total >= n && m.insert(a, make::<true>(src, lo, n), n, c.j) {
            c.ops.push(op);
        }
    };
    if class == 1 {
        // up to the capacity of a node of some size, then changes around there
        let cap = 2 * target;
        let n = match r.below(6) {
            0 => cap - 1,
            1 | 2 => cap,
            3 => cap + 1,
            4 => cap + target,
            _ => (cap + 1) * (1 + r.below(3) as usize),
        }
        .min(620);
        let width = 1 + r.below(3) as u128;
        if (n as u128 + 20) * width > max_of(c.bits) {
            c.bits = 16;
        }
        let order = r.below(5);
        for i in 0..n {
            fresh += 1;
            let at = match order {
                0 | 1 => m.total,
                2 => 0,
                3 => {
                    let i = r.below(m.runs.len() as u64 + 1) as usize;
                    m.start(i)
                }
                _ => m.start(i / 2),
            };
            push(&mut c, &mut m, 0, at, width, SOLO + fresh, 0, 1);
        }
    }
    for i in 0..nops {
        let d = r.next() as u128;
        let w: &[u32] = if class == 1 { &[6, 4, 3, 1, 1, 1, 2, 1, 2, 2, 1] } else { &[10, 6, 4, 3, 3, 3, 1, 1, 2, 2, 1] };
        let kind = r.weighted(w) as u32;
        let room = max(&c) - m.total;
        match kind {
            0 | 1 | 2 => {
                if room == 0 {
                    continue;
                }
                let n = if i + 1 == nops && r.chance(1, 4) { room } else { size(&mut r, room, nops - i) };
                let nr = m.runs.len() as u64;
                let idx = match r.below(8) {
                    0 => 0,
                    1 => m.total,
                    2 | 3 | 4 => m.start(r.below(nr + 1) as usize),
                    _ if nr > 0 => {
                        let k = r.below(nr) as usize;
                        m.start(k) + (((r.next() as u128) << 64 | r.next() as u128) % m.runs[k].0)
                    }
                    _ => 0,
                };
                let (src, lo) = value(&mut r, &m, idx, n, style, &mut fresh);
                push(&mut c, &mut m, kind, idx, n, src, lo, d);
            }
            10 => {
                // to be refused
                let o = Op { k: r.below(5) as u32, a: m.total, b: 1, c: 1, d, e: 0, ok: false };
                c.ops.push(match (o.k, r.chance(1, 2)) {
                    (0..=2, true) if m.total < max(&c) => Op { a: m.total + 1 + r.below(3).min((max(&c) - m.total - 1) as u64) as u128, ..o },
                    (0..=2, _) => Op { a: if m.total > 0 { d % m.total } else { 0 }, b: 0, ..o },
                    _ => Op { a: m.total + if m.total < max(&c) { r.below(2) as u128 } else { 0 }, ..o },
                });
            }
            _ => {
                let pt = |r: &mut Rng| -> u128 {
                    let nr = m.runs.len() as u64;
                    match r.below(3) {
                        _ if nr == 0 => 0,
                        0 => m.start(r.below(nr) as usize),
                        1 => {
                            let k = r.below(nr) as usize;
                            m.start(k) + m.runs[k].0 - 1
                        }
                        _ => ((r.next() as u128) << 64 | r.next() as u128) % m.total,
                    }
                };
                let (x, y) = (pt(&mut r), pt(&mut r));
                let (a, b) = if x <= y || r.chance(1, 12) { (x, y) } else { (y, x) };
                let e = match r.below(4) {
                    0 => u128::MAX,
                    1 => 0,
                    _ => (r.next() as u128) << 64 | r.next() as u128,
                };
                let cc = r.below(1000);
                c.ops.push(Op { k: kind, a, b, c: cc, d, e, ok: false });
            }
        }
    }
    // the instantiations to compare
    let fit: Vec<&Entry> = es.iter().filter(|e| e.bits >= c.bits && e.j == c.j).collect();
    let mut names: Vec<String> = Vec::new();
    if class == 1 {
        names.extend(fit.iter().filter(|e| e.m == target || e.m == 127).map(|e| e.name()));
        names.truncate(8);
    }
    for _ in 0..10 {
        names.push(fit[r.below(fit.len() as u64) as usize].name());
    }
    names.sort();
    names.dedup();
    c.insts = names;
    c
}
