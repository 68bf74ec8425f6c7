use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::model::Model;
use crate::rng::Rng;
use crate::types::*;
use sherman::range::{EndBound, StartBound};
use std::cell::RefCell;
use std::collections::HashMap;

// 2 = lookup, 3 = cursor, 4 = iteration, 5 = make a reference, 6 = use a reference, 7 = drop a
// reference, 8 = clone, 9 = drop a tree, 10 = serialize / deserialize, 11 = change the behaviour of
// the user types, 12 = hold a borrow, 13 = inject a panic into the next call
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut cfg = gen_cfg(r);
    cfg.push(r.below(5) as u32);
    cfg.push((tier != Tier::Mini) as u32);
    let mut ops = gen_mixed(r, tier, 12, &[2, 2, 3, 2, 3, 1, 1, 1, 1, 4, 1, 2]);
    // fills stay small: with ill-behaved types there is no reference sequence to follow
    for o in ops.iter_mut() {
        if o[0] == OP_FILL {
            o[1] = o[1].min(if tier == Tier::Mini { 12 } else { 200 });
        }
    }
    Case { cfg, ops }
}

/// Whether a panic comes from an assumption which is only checked when debug assertions are on: in
/// a release build, execution continues with undefined behaviour
pub fn unchecked_assumption(msg: &str) -> bool {
    thread_local! {
        static FILES: RefCell<HashMap<String, Vec<String>>> = RefCell::new(HashMap::new());
    }
    let Some((_, loc)) = msg.rsplit_once(" at ") else { return false };
    let Some((file, line)) = loc.rsplit_once(':') else { return false };
    let Ok(line) = line.trim().parse::<usize>() else { return false };
    if !file.contains("src/") {
        return false;
    }
    FILES.with(|f| {
        let mut f = f.borrow_mut();
        let ls = f
            .entry(file.to_string())
            .or_insert_with(|| std::fs::read_to_string(file).unwrap_or_default().lines().map(|l| l.to_string()).collect());
        ls.get(line.wrapping_sub(1)).map_or(false, |l| l.contains("weak_assert!") || l.contains("weak_unreachable!"))
    })
}

fn index<I: HIdx>(size: I, m: &Model<I>, a: u32, b: u32) -> I {
    match a % 8 {
        0 => I::ZERO,
        1 => size,
        2 => size.past(b),
        3 => I::below_zero(b).unwrap_or(size),
        4 => size.interior(b).unwrap_or(I::ZERO),
        5 if m.len() > 0 => resolve_idx(m, a / 8, b),
        6 => I::gen_size(b, 2),
        _ => size.interior(b / 3).unwrap_or(I::ZERO),
    }
}

fn value<I: HIdx>(style: u32, size: I, a: u32) -> Val<I> {
    let lo = I::base(a);
    match (style + a / 64) % 4 {
        0 => Val::L((a % 3) as u8),
        1 => Val::D((a % 3) as u8, (a / 3 % 3) as u8),
        2 => Val::R { src: 1, lo, hi: lo.m_add(size) },
        _ => Val::L((a % 26) as u8),
    }
}

fn go<I: HIdx>(maker: fn(Inst) -> Box<dyn DynTree<I>>, inst: Inst, c: &Case, ctx: &mut Ctx) -> Res {
    let mut trees: Vec<Box<dyn DynTree<I>>> = vec![maker(inst)];
    let mut refs: Vec<Box<dyn DynRef<I>>> = vec![];
    let mut borrows: Vec<Box<dyn DynBorrow<I>>> = vec![];
    let mut hints: Vec<VC> = vec![];
    // where runs would be if the user types were well behaved (first tree only; merely a guide)
    let mut guide = Model::<I>::new(inst.j);
    let mut problem: Option<String> = None;
    let mut spoilt = 0;
    let (mut panics, mut chaos, mut odd_calls) = (0u32, false, 0u32);
    ctx.t(|| format!("{inst:?}"));
    let mut see = |r: Result<(), String>, what: &str, ctx: &mut Ctx| -> bool {
        let Err(e) = r else { return true };
        ctx.t(|| format!("  {what} panicked: {e}"));
        if unchecked_assumption(&e) && problem.is_none() {
            problem = Some(format!("{what}: an assumption which is unchecked in release builds does not hold: {e}"));
        }
        false
    };
    for (step, op) in c.ops.iter().enumerate() {
        let k = op[5] as usize / 4 % trees.len().max(1);
        let [_, a, b, s, v, o] = *op;
        if trees.is_empty() {
            trees.push(maker(inst));
        }
        let k = k.min(trees.len() - 1);
        if trees[k].nslices() == 0 && v % 2 == 0 {
            // start over with a few levels, built by well-behaved types
            let (mode, seed, den) = get_chaos();
            set_chaos(0, 0, 7);
            disarm();
            let n = v / 2 % if c.cfg(4) == 0 { 20 } else { 60 };
            let r = guarded(|| {
                for j in 0..n {
                    let z = I::gen_size(s.wrapping_add(j), c.cfg(2));
                    let t = &mut trees[k];
                    let at = if (v + j) % 3 == 0 { t.size() } else { t.size().interior(v.wrapping_mul(j + 7)).unwrap_or(I::ZERO) };
                    t.insert(at, unjoinable(z, v.wrapping_add(j)), z);
                }
            });
            ctx.t(|| format!("{step}: tree {k}: filled with {n} insertions"));
            see(r, "insertion", ctx);
            set_chaos(mode, seed, den);
        }
        // `size` may itself misbehave only by value
        let size = trees[k].size();
        if chaos {
            odd_calls += 1;
        }
        match op[0] {
            OP_INSERT | OP_FILL => {
                for j in 0..if op[0] == OP_FILL { op[1].min(200) } else { 1 } {
                    let size = trees[k].size();
                    let at = if op[0] == OP_FILL {
                        let x = s.wrapping_add(j).wrapping_mul(2654435761) >> 8;
                        match op[2] % 4 {
                            0 => size,
                            1 => I::ZERO,
                            _ => size.interior(x).unwrap_or(I::ZERO),
                        }
                    } else {
                        index(size, &guide, a, b)
                    };
                    let z = if s % 41 == 40 && op[0] == OP_INSERT {
                        I::below_zero(s).unwrap_or(I::ZERO)
                    } else {
                        I::gen_size(s.wrapping_add(j), c.cfg(2))
                    };
                    let val = if op[0] == OP_FILL { unjoinable(z, v.wrapping_add(j)) } else { value(c.cfg(1), z, v) };
                    ctx.t(|| format!("{step}: tree {k}: insert {val:?} (size {z:?}) at {at:?} of {size:?}, form {}", o % 4));
                    let in_guide = k == 0 && !chaos && lt(I::ZERO, z) && !lt(guide.size(), at) && !lt(at, I::ZERO);
                    if !chaos && (k != 0 || in_guide) && op[0] == OP_INSERT && o % 2 == 0 && in_guide && guide.is_double_edge_join(at, &val) {
                        continue;
                    }
                    let v2 = val.clone();
                    let t = &mut trees[k];
                    let h = make_hint(&**t, &Model::new(inst.j), &hints, if v % 3 == 0 { 3 } else { 5 + v % 2 }, v);
                    let r = guarded(|| match (o % 4, h) {
                        (1, Some(h)) => {
                            let c = t.insert_hint(at, val, z, h);
                            hints.push(c);
                        }
                        (2, h) if inst.p == P::Ref => {
                            if let Some((_, r)) = t.insert_ref(at, val, z, h) {
                                refs.push(r);
                            }
                        }
                        (3, _) => drop(t.insert_bounded(at, val, z, (v % 2 == 0).then_some(I::ZERO), [8, 2][v as usize / 2 % 2])),
                        _ => t.insert(at, val, z),
                    });
                    if r.is_ok() && in_guide {
                        guide.insert(at, v2, z);
                    }
                    let ok = see(r, "insertion", ctx);
                    spoilt = if ok { 0 } else { spoilt + 1 };
                    if spoilt >= 3 && v % 2 == 0 {
                        // a tree may stop accepting insertions after a panic in user code
                        ctx.t(|| format!("{step}: tree {k} replaced"));
                        let old = std::mem::replace(&mut trees[k], maker(inst));
                        see(guarded(|| drop(old)), "dropping a tree", ctx);
                        if k == 0 {
                            guide = Model::new(inst.j);
                        }
                        spoilt = 0;
                    }
                }
            }
            2 => {
                let at = index(size, &guide, a, b);
                let h = make_hint(&*trees[k], &Model::new(inst.j), &hints, if v % 3 == 0 { 0 } else { 3 + v % 4 }, v);
                ctx.t(|| format!("{step}: tree {k}: lookup at {at:?} of {size:?}"));
                see(guarded(|| drop(trees[k].get(at, h))), "lookup", ctx);
            }
            3 => {
                let at = index(size, &guide, a, b);
                ctx.t(|| format!("{step}: tree {k}: cursor to {at:?} of {size:?}"));
                see(guarded(|| hints.push(trees[k].cursor_to(at))), "cursor request", ctx);
                see(guarded(|| drop(trees[k].cursor_bounded(at, (v % 4) as u8))), "cursor request", ctx);
            }
            4 => {
                let (x, y) = (index(size, &guide, a, b), index(size, &guide, s, v));
                let r = (
                    if o % 3 == 0 { StartBound::Unbounded } else { StartBound::Included(x) },
                    match o / 3 % 3 {
                        0 => EndBound::Unbounded,
                        1 => EndBound::Included(y),
                        _ => EndBound::Excluded(y),
                    },
                );
                let n = (trees[k].nslices() + 4).min(if v % 4 == 0 { 1000 } else { 8 });
                let script: Vec<bool> = (0..n).map(|i| ((v as u64).wrapping_mul(0x9E3779B97F4A7C15) >> (i % 60)) & 1 == 1).collect();
                let h = (s % 3 == 0).then(|| hints.get(v as usize % hints.len().max(1)).cloned()).flatten();
                ctx.t(|| format!("{step}: tree {k}: iterate {r:?} of {size:?}"));
                see(guarded(|| drop(trees[k].iter_script(r, h, &script))), "iteration", ctx);
                if o % 5 == 0 {
                    see(guarded(|| drop(trees[k].entries())), "iteration", ctx);
                }
            }
            5 => {
                let at = index(size, &guide, a, b);
                ctx.t(|| format!("{step}: tree {k}: reference at {at:?}"));
                see(guarded(|| refs.extend(trees[k].make_ref(at))), "lookup", ctx);
            }
            6 if !refs.is_empty() => {
                let r = &refs[a as usize % refs.len()];
                ctx.t(|| format!("{step}: use reference {}", a as usize % refs.len()));
                see(guarded(|| drop(r.try_range())), "try_range", ctx);
                see(guarded(|| hints.extend(r.try_path())), "try_cursor", ctx);
                see(guarded(|| if let Some(b) = r.try_borrow() { b.val(); }), "try_borrow_slice", ctx);
                let mut copy = None;
                see(guarded(|| copy = Some(r.dup())), "copying a reference", ctx);
                if b % 3 == 0 {
                    refs.extend(copy);
                }
            }
            7 if !refs.is_empty() => {
                let r = refs.swap_remove(a as usize % refs.len());
                ctx.t(|| format!("{step}: drop a reference"));
                see(guarded(|| drop(r)), "dropping a reference", ctx);
            }
            8 if trees.len() < 5 => {
                ctx.t(|| format!("{step}: clone tree {k}"));
                let mut n = None;
                see(guarded(|| n = trees[k].dup()), "clone", ctx);
                trees.extend(n);
            }
            9 if step % 3 == 0 || trees.len() > 1 => {
                ctx.t(|| format!("{step}: drop tree {k}"));
                let t = trees.swap_remove(k);
                see(guarded(|| drop(t)), "dropping a tree", ctx);
                if k == 0 {
                    guide = Model::new(inst.j);
                }
            }
            10 => {
                ctx.t(|| format!("{step}: serialize tree {k}"));
                let mut text = None;
                see(guarded(|| text = trees[k].ser(a).ok()), "serialization", ctx);
                if let (Some(text), true) = (text, b % 2 == 0 && trees[k].nslices() < 100) {
                    let mut n = None;
                    see(guarded(|| n = trees[k].de(b / 2, &text).ok()), "deserialization", ctx);
                    if trees.len() < 5 {
                        trees.extend(n);
                    }
                }
            }
            11 => {
                let mode = [0, CHAOS_CMP, CHAOS_ARITH, CHAOS_SLICE, CHAOS_CMP | CHAOS_ARITH, 7, CHAOS_CMP, 0][a as usize % 8];
                let den = [2, 4, 8, 20, 60, 200][b as usize % 6];
                ctx.t(|| format!("{step}: behaviour {mode}, one in {den}"));
                set_chaos(mode, s as u64, den);
                chaos = mode != 0;
            }
            12 if !refs.is_empty() => {
                if !borrows.is_empty() || a % 3 == 0 {
                    borrows.clear();
                } else {
                    let r = &refs[b as usize % refs.len()];
                    ctx.t(|| format!("{step}: borrow reference {}", b as usize % refs.len()));
                    see(guarded(|| borrows.push(r.borrow())), "borrow", ctx);
                    if let Some(b) = borrows.last() {
                        b.val();
                        if s % 4 == 0 {
                            let d = b.dup().mapped();
                            d.val();
                        }
                    }
                }
            }
            13 => {
                ctx.t(|| format!("{step}: panic injected after {} callbacks", a % 30));
                arm((a % 30) as i64, if b % 3 == 0 { 1 << (s % 8) } else { 0xff });
                continue;
            }
            _ => {}
        }
        if step % 4 == 3 {
            borrows.clear();
        }
        disarm();
        hints.truncate(30);
        if refs.len() > 40 {
            refs.drain(..20);
        }
    }
    set_chaos(0, 0, 7);
    let order = c.cfg(1) % 3;
    ctx.t(|| "drop everything".into());
    if order == 0 {
        see(guarded(|| drop(refs)), "dropping references", ctx);
        see(guarded(|| drop(borrows)), "dropping borrows", ctx);
        see(guarded(|| drop(trees)), "dropping trees", ctx);
    } else {
        see(guarded(|| drop(trees)), "dropping trees", ctx);
        see(guarded(|| drop(refs)), "dropping references", ctx);
        see(guarded(|| drop(borrows)), "dropping borrows", ctx);
    }
    ctx.add("calls which panicked", panics as u64);
    ctx.add("calls with ill-behaved user types", odd_calls as u64);
    ctx.nontrivial = odd_calls >= 3 || panics >= 2;
    problem.map_or(Ok(()), Err)
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    if c.cfg(3) == 4 {
        go::<Heis>(mk_heis, Inst { m: MS_HEIS[c.cfg(0) as usize / 3 % 3], j: true, ..inst }, c, ctx)
    } else {
        go::<CIdx>(mk, inst, c, ctx)
    }
}

pub const PROP: PropDef = PropDef {
    id: "C21",
    gen,
    run,
    quick: 100_000,
    thorough: 5_000_000,
    rule: "random sequences of every call on several trees, references and borrows, with arbitrary (also out-of-domain) arguments and path hints, injected panics, and user types which turn ill behaved for part of the sequence (comparisons, arithmetic and joins giving wrong answers at several rates); every stored value is watched by a drop ledger and every assumption the crate leaves unchecked in release builds must hold; non-trivial = three calls with ill-behaved types or two panics",
    level: "exploration",
    assumptions: &["no reference model: anything but undefined behaviour and non-termination is accepted"],
    probes: &[],
    fuel: 30_000_000,
};
