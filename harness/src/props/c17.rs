use super::common::*;
use crate::engine::*;
use crate::ensure;
use crate::rng::Rng;
use sherman::range::{EndBound, RangeBounds, StartBound};
use std::fmt::Debug;

const FORMS: u32 = 9;
const SMALL: u64 = 81 * 625;

// cfg: element type, form of each range, four bound values, value table
fn gen(r: &mut Rng, k: u64, _t: Tier) -> Case {
    // first every combination over five values, twice (extremes of the type, interior values)
    let cfg = if k < 2 * SMALL {
        let mut x = k % SMALL;
        let mut d = |n: u64| {
            let y = x % n;
            x /= n;
            y as u32
        };
        let (f, g) = (d(9), d(9));
        vec![0, f, g, d(5), d(5), d(5), d(5), (k / SMALL) as u32]
    } else {
        let near = r.chance(1, 2);
        let base = r.u32();
        let mut v = |r: &mut Rng| if near { base.wrapping_add(r.below(4) as u32) } else { r.u32() };
        vec![
            r.below(7) as u32,
            r.below(FORMS as u64) as u32,
            r.below(FORMS as u64) as u32,
            v(r),
            v(r),
            v(r),
            v(r),
            2,
        ]
    };
    Case { cfg, ops: vec![] }
}

type Bounds<T> = (StartBound<T>, EndBound<T>);

fn bounds<T: Clone>(form: u32, a: &T, b: &T) -> Bounds<T> {
    use EndBound as E;
    use StartBound as S;
    let (a, b) = (a.clone(), b.clone());
    match form % FORMS {
        0 => (S::Included(a), E::Excluded(b)),
        1 => (S::Included(a), E::Included(b)),
        2 => (S::Included(a), E::Unbounded),
        3 => (S::Unbounded, E::Excluded(b)),
        4 => (S::Unbounded, E::Included(b)),
        5 => (S::Unbounded, E::Unbounded),
        // the same bounds as tuples
        6 => (S::Included(a), E::Excluded(b)),
        7 => (S::Included(a), E::Included(b)),
        _ => (S::Unbounded, E::Excluded(b)),
    }
}

fn member<T: PartialOrd>(r: &Bounds<T>, v: &T) -> bool {
    let lo = match &r.0 {
        StartBound::Included(a) => v >= a,
        StartBound::Unbounded => true,
    };
    lo && match &r.1 {
        EndBound::Included(b) => v <= b,
        EndBound::Excluded(b) => v < b,
        EndBound::Unbounded => true,
    }
}

/// What one range value reports about itself and in relation to another
#[derive(Debug, PartialEq, Clone)]
struct Report {
    contains: Vec<bool>,
    after: bool,
    empty: bool,
    overlaps: Vec<bool>,
}

fn report<T: Ord + Clone + Debug, R: RangeBounds<T>>(r: R, b: &Bounds<T>, o: &Bounds<T>, pts: &[T]) -> Result<Report, String> {
    // bounds of the value itself, of a reference to it, and cloned
    let got = (r.start_bound().cloned(), r.end_bound().cloned());
    ensure!(&got == b, "reports the bounds {got:?}");
    let rr = &&r;
    let got = (rr.start_bound().cloned(), rr.end_bound().cloned());
    ensure!(&got == b, "reports the bounds {got:?} through a reference");
    ensure!((r.start_bound(), r.end_bound()).contains(&pts[0]) == r.contains(&pts[0]), "its bounds as a tuple contain something else");
    let rep = Report {
        contains: pts.iter().map(|p| r.contains(p)).collect(),
        after: r.starts_after_end(),
        empty: r.is_empty_naive(),
        overlaps: vec![r.overlaps_naive(o.clone()), r.overlaps_naive(&o), o.overlaps_naive(&r)],
    };
    let via = Report {
        contains: pts.iter().map(|p| (&r).contains(p)).collect(),
        after: (&r).starts_after_end(),
        empty: (&r).is_empty_naive(),
        overlaps: vec![(&r).overlaps_naive(o.clone()), (&r).overlaps_naive(&o), o.overlaps_naive(r)],
    };
    ensure!(rep == via, "answers differently through a reference: {rep:?} and {via:?}");
    Ok(rep)
}

fn check<T: Ord + Clone + Debug>(fa: u32, fb: u32, v: [T; 4], pts: &[T], min: &T, max: &T, ctx: &mut Ctx) -> Res {
    let [a, b, c, d] = &v;
    let x = bounds(fa, a, b);
    let y = bounds(fb, c, d);
    ctx.t(|| format!("{x:?} (form {fa}) and {y:?} (form {fb})"));
    let (ac, bc) = (a.clone(), b.clone());
    let rep = match fa % FORMS {
        0 => report(ac..bc, &x, &y, pts),
        1 => report(ac..=bc, &x, &y, pts),
        2 => report(ac.., &x, &y, pts),
        3 => report(..bc, &x, &y, pts),
        4 => report(..=bc, &x, &y, pts),
        5 => report(.., &x, &y, pts),
        _ => report(x.clone(), &x, &y, pts),
    }
    .map_err(|e| format!("{x:?} {e}"))?;
    // the same range over references
    {
        let (x, y) = (&x, &y);
        let (s, e) = (x.start_bound(), x.end_bound());
        let refs: Option<Report> = match fa % FORMS {
            0 => Some(by_ref::<T, _>(a..b, y, pts)),
            1 => Some(by_ref::<T, _>(a..=b, y, pts)),
            2 => Some(by_ref::<T, _>(a.., y, pts)),
            3 => Some(by_ref::<T, _>(..b, y, pts)),
            4 => Some(by_ref::<T, _>(..=b, y, pts)),
            5 => None,
            _ => Some(by_ref::<T, _>((s, e), y, pts)),
        };
        if let Some(r) = refs {
            ensure!(r == rep, "{x:?}: the range over references answers {r:?}, the range itself {rep:?}");
        }
    }
    // set semantics
    for (p, g) in pts.iter().zip(&rep.contains) {
        ensure!(*g == member(&x, p), "{x:?} contains({p:?}) is {g}");
    }
    let is_empty = !pts.iter().any(|p| member(&x, p));
    let y_empty = !pts.iter().any(|p| member(&y, p));
    let meet = pts.iter().any(|p| member(&x, p) && member(&y, p));
    // documented exceptions: an extreme bound opposite to an unbounded one
    let odd = |r: &Bounds<T>| match r {
        (StartBound::Unbounded, EndBound::Excluded(e) | EndBound::Included(e)) => e == min || e == max,
        (StartBound::Included(s), EndBound::Unbounded) => s == min || s == max,
        _ => false,
    };
    let crossed = match &x {
        (StartBound::Included(s), EndBound::Included(e)) => s > e,
        (StartBound::Included(s), EndBound::Excluded(e)) => s >= e,
        _ => false,
    };
    ensure!(rep.after == crossed, "{x:?} starts_after_end() is {}", rep.after);
    let range_to = matches!(x, (StartBound::Unbounded, EndBound::Excluded(_)));
    if rep.empty || !range_to || !odd(&x) {
        ensure!(rep.empty == is_empty, "{x:?} is_empty_naive() is {}, but {}", rep.empty, if is_empty { "it is" } else { "it is not" });
    }
    let shared = matches!((&x.0, &y.0), (StartBound::Unbounded, StartBound::Unbounded))
        || matches!((&x.1, &y.1), (EndBound::Unbounded, EndBound::Unbounded));
    for g in &rep.overlaps {
        if !*g || !(shared && (odd(&x) || odd(&y))) {
            ensure!(*g == meet, "{x:?} overlaps_naive({y:?}) is {g} although they {}", if meet { "have a common value" } else { "have no common value" });
        }
        ensure!(*g == rep.overlaps[0], "{x:?} overlaps_naive({y:?}) is not symmetric: {:?}", rep.overlaps);
    }
    ctx.nontrivial = true;
    if is_empty || y_empty {
        ctx.c("pairs with an empty range");
    } else if meet {
        ctx.c("pairs of overlapping ranges");
    } else {
        ctx.c("pairs of disjoint ranges");
    }
    Ok(())
}

fn by_ref<T: Ord + Clone + Debug, R: RangeBounds<T>>(r: R, o: &Bounds<T>, pts: &[T]) -> Report {
    Report {
        contains: pts.iter().map(|p| r.contains(p)).collect(),
        after: r.starts_after_end(),
        empty: r.is_empty_naive(),
        overlaps: vec![r.overlaps_naive(o), r.overlaps_naive(&o), o.overlaps_naive(r)],
    }
}

macro_rules! ints {
    ($t:ty, $fa:expr, $fb:expr, $v:expr, $ctx:expr) => {{
        let v: [$t; 4] = $v;
        let mut pts: Vec<$t> = vec![<$t>::MIN, <$t>::MAX, <$t>::MIN + 1, <$t>::MAX - 1];
        for x in v {
            pts.extend([x, x.wrapping_add(1), x.wrapping_sub(1)]);
        }
        pts.sort();
        pts.dedup();
        check($fa, $fb, v, &pts, &<$t>::MIN, &<$t>::MAX, $ctx)
    }};
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let (fa, fb) = (c.cfg(1), c.cfg(2));
    let raw = [c.cfg(3), c.cfg(4), c.cfg(5), c.cfg(6)];
    let wide = |x: u32| (x as u64 & 3).wrapping_add((x as u64 >> 2).wrapping_mul(0x9E37_79B9_7F4A_7C15));
    match c.cfg(0) % 7 {
        0 => {
            let table = [[0u8, 1, 2, 254, 255], [10, 11, 12, 13, 14]];
            let v = raw.map(|x| match c.cfg(7) {
                t @ (0 | 1) => table[t as usize][x as usize % 5],
                _ => x as u8,
            });
            let pts: Vec<u8> = (0..=255).collect();
            check(fa, fb, v, &pts, &0, &255, ctx)
        }
        1 => ints!(u64, fa, fb, raw.map(wide), ctx),
        2 => ints!(i32, fa, fb, raw.map(|x| x as i32), ctx),
        3 => ints!(u128, fa, fb, raw.map(|x| (wide(x) as u128) << (x % 64)), ctx),
        4 => {
            // text, compared with borrowed text
            let v = raw.map(|x| format!("{:0w$x}", x % 512, w = (x / 512 % 4) as usize));
            let mut pts: Vec<String> = v.to_vec();
            for x in &v {
                pts.push(format!("{x}0"));
                pts.push(x[..x.len() - 1].to_string());
            }
            pts.extend(["".into(), "0".into(), "zz".into()]);
            pts.sort();
            pts.dedup();
            // words are dense, so emptiness is decided by the bounds; the minimum is the empty word
            let x = bounds(fa, &v[0], &v[1]);
            // different, unsized item type
            struct W<'a>(&'a str);
            impl PartialEq<W<'_>> for String {
                fn eq(&self, o: &W) -> bool {
                    self.as_str() == o.0
                }
            }
            impl PartialOrd<W<'_>> for String {
                fn partial_cmp(&self, o: &W) -> Option<std::cmp::Ordering> {
                    self.as_str().partial_cmp(o.0)
                }
            }
            impl PartialEq<String> for W<'_> {
                fn eq(&self, o: &String) -> bool {
                    self.0 == o.as_str()
                }
            }
            impl PartialOrd<String> for W<'_> {
                fn partial_cmp(&self, o: &String) -> Option<std::cmp::Ordering> {
                    self.0.partial_cmp(o.as_str())
                }
            }
            for p in &pts {
                let g = x.contains(&W(p));
                ensure!(g == member(&x, p), "{x:?} contains(borrowed {p:?}) is {g}");
            }
            check(fa, fb, v, &pts, &String::new(), &"zzzz".to_string(), ctx)
        }
        5 => {
            // partially ordered: containment only, also compared with the standard library
            let f = |x: u32| match x % 9 {
                0 => f64::NAN,
                1 => f64::INFINITY,
                2 => f64::NEG_INFINITY,
                3 => -0.0,
                4 => 0.0,
                _ => (x / 9 % 7) as f64 - 3.0,
            };
            let v = raw.map(f);
            let x = bounds(fa, &v[0], &v[1]);
            let pts: Vec<f64> = (0..63).map(f).chain(v).collect();
            for p in &pts {
                let (g, s) = match fa % FORMS {
                    0 | 6 => (RangeBounds::contains(&(v[0]..v[1]), p), std::ops::RangeBounds::contains(&(v[0]..v[1]), p)),
                    1 | 7 => (RangeBounds::contains(&(v[0]..=v[1]), p), std::ops::RangeBounds::contains(&(v[0]..=v[1]), p)),
                    2 => (RangeBounds::contains(&(v[0]..), p), std::ops::RangeBounds::contains(&(v[0]..), p)),
                    3 | 8 => (RangeBounds::contains(&(..v[1]), p), std::ops::RangeBounds::contains(&(..v[1]), p)),
                    4 => (RangeBounds::contains(&(..=v[1]), p), std::ops::RangeBounds::contains(&(..=v[1]), p)),
                    _ => (RangeBounds::<f64>::contains(&(..), p), true),
                };
                ensure!(g == s && g == member(&x, p), "{x:?} contains({p:?}) is {g}, the standard library says {s}");
            }
            let crossed = match &x {
                (StartBound::Included(s), EndBound::Included(e)) => s > e,
                (StartBound::Included(s), EndBound::Excluded(e)) => s >= e,
                _ => false,
            };
            ensure!(x.starts_after_end() == crossed, "{x:?} starts_after_end() is {}", !crossed);
            ctx.nontrivial = true;
            ctx.c("ranges over a partial order");
            Ok(())
        }
        _ => {
            // pairs, ordered lexicographically
            let v = raw.map(|x| ((x % 4) as u8, (x / 4 % 4) as u8));
            let pts: Vec<(u8, u8)> = (0..5).flat_map(|a| (0..5).map(move |b| (a, b))).chain([(0, 255), (255, 255), (3, 255), (2, 255), (1, 255)]).collect();
            check(fa, fb, v, &pts, &(0, 0), &(255, 255), ctx)
        }
    }
}

pub const PROP: PropDef = PropDef {
    id: "C17",
    gen,
    run,
    quick: 4_000_000,
    thorough: 60_000_000,
    rule: "pairs of ranges in nine forms (the standard range types, tuples, each by value, by reference and over references): every combination over five values, once including the extremes of the type and once not, then random ones over u8, u64, i32, u128, pairs, text and floats; containment, emptiness, crossing and overlap compared with membership of all candidate points; non-trivial = every case",
    level: "exploration",
    assumptions: &["the documented exceptions (a bound at the extreme of the type opposite to an unbounded side) are not judged, except that emptiness and disjointness are never claimed wrongly"],
    probes: &[],
    fuel: 400_000_000,
};
