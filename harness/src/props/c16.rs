use super::common::*;
use crate::dynt::*;
use crate::engine::*;
use crate::ensure;
use crate::model::Model;
use crate::rng::Rng;
use crate::types::*;
use serde_json::Value;

// operations build the tree; cfg[3..]: index type, target parameter, mutation kind and two arguments
fn gen(r: &mut Rng, _k: u64, tier: Tier) -> Case {
    let mut cfg = gen_cfg(r);
    for _ in 0..7 {
        cfg.push(r.u32() % 1_000_000);
    }
    let mut ops = gen_ops(r, tier, gen_insert);
    if r.chance(1, 40) {
        ops.clear();
    }
    ops.truncate(150);
    let case = Case { cfg, ops };
    widen(r, tier, 100, case)
}

/// The sequence form, as text
fn doc<I: HIdx>(m: &Model<I>) -> String {
    let v: Vec<(I, Sl<I, true>)> = m.runs.iter().map(|r| (r.size, Sl::new(r.val.clone()))).collect();
    serde_json::to_string(&v).unwrap()
}

/// What a document denotes: the reference deserialization of a list of pairs, each appended in turn
fn denote<I: HIdx>(s: &str, how: u32, joins: bool) -> Result<Model<I>, String> {
    let v: Vec<(I, Sl<I, true>)> = if how % 8 >= 3 {
        serde_json::from_str::<Value>(s).and_then(serde_json::from_value)
    } else {
        serde_json::from_str(s)
    }
    .map_err(|e| e.to_string())?;
    let mut m = Model::new(joins);
    for (size, sl) in v {
        if !lt(I::ZERO, size) {
            return Err("non-positive size".into());
        }
        let at = m.size();
        m.insert(at, sl.val, size);
    }
    Ok(m)
}

const MUTATIONS: [&str; 16] = [
    "none", "none", "none", "element replaced by a number", "element shortened", "element lengthened", "size replaced by text",
    "size replaced by zero", "negative size", "not a sequence", "text cut short", "element replaced by null",
    "trailing text", "value malformed", "fractional size", "elements shuffled",
];

/// Some other document
fn mutate<I: HIdx>(s: &str, kind: u32, a: u32, b: u32) -> String {
    let mut v: Value = serde_json::from_str(s).unwrap();
    let n = v.as_array().unwrap().len();
    let at = if n > 0 { a as usize % n } else { 0 };
    let zero = serde_json::to_value(I::ZERO).unwrap();
    let neg = match I::below_zero(b) {
        Some(x) => serde_json::to_value(x).unwrap(),
        None => Value::from(-1 - (b as i64 % 5)),
    };
    match kind {
        9 => {
            return match b % 5 {
                0 => "{}".into(),
                1 => format!("{{\"tree\":{s}}}"),
                2 => "7".into(),
                3 => "\"text\"".into(),
                _ => "null".into(),
            }
        }
        10 => return s.chars().take(b as usize % (s.len() + 1)).collect(),
        12 => return format!("{s}{}", ["]", "x", ",", " ", "[]", "0"][b as usize % 6]),
        15 => {
            let l = v.as_array_mut().unwrap();
            if n > 1 {
                l.swap(at, b as usize % n);
                if b % 3 == 0 {
                    l.rotate_left(b as usize / 3 % n);
                }
            }
            return v.to_string();
        }
        _ => {}
    }
    if n == 0 {
        if kind > 2 {
            v.as_array_mut().unwrap().push(Value::from(vec![zero, Value::from(1)]));
        }
        return v.to_string();
    }
    let e = &mut v.as_array_mut().unwrap()[at];
    match kind {
        3 => *e = Value::from(b),
        4 => drop(e.as_array_mut().unwrap().pop()),
        5 => e.as_array_mut().unwrap().push(Value::from(b)),
        6 => e[0] = Value::from("size"),
        7 => e[0] = zero,
        8 => e[0] = neg,
        11 => *e = Value::Null,
        13 => e[1] = [Value::Null, Value::from("L"), Value::from(vec![Value::from("L")]), Value::from(vec![Value::from("S"), Value::from(1)])][b as usize % 4].clone(),
        14 => e[0] = Value::from(1.5),
        _ => {}
    }
    v.to_string()
}

fn go<I: HIdx>(mk: fn(Inst) -> Box<dyn DynTree<I>>, inst: Inst, c: &Case, ctx: &mut Ctx) -> Res {
    ctx.t(|| format!("{inst:?}"));
    let mut p = Pair::<I>::new(mk(inst));
    for op in &c.ops {
        apply(&mut p, op, c, ctx);
    }
    let toks: Vec<u32> = p.t.entries().iter().map(|e| e.tok).collect();
    let alive = ledger_alive();
    let want = doc(&p.m);
    let how = c.cfg(4);
    ctx.t(|| format!("document: {want}"));
    // the sequence form
    let got = p.t.ser(how).map_err(|e| format!("serialization failed: {e}"))?;
    ensure!(got == want, "serialized as {got}, expected {want}");
    let cut = c.cfg(5) as usize % (want.len() + 1);
    let lim = p.t.ser_limited(cut);
    ensure!(lim.is_ok() == (cut >= want.len()), "serialization into a writer of {cut} bytes gave {lim:?} for a document of {} bytes", want.len());
    let now: Vec<u32> = p.t.entries().iter().map(|e| e.tok).collect();
    ensure!(now == toks, "serialization changed the stored values");
    check_full(&*p.t, &p.m, "after serialization")?;
    ensure!(ledger_alive() == alive, "serialization left {} values alive instead of {alive}", ledger_alive());

    // reading a document, possibly a changed one, into a tree with another feature parameter
    let kind = c.cfg(6) % 16;
    let text = mutate::<I>(&want, kind, c.cfg(7), c.cfg(8));
    let target = Inst { p: [P::No, P::Cow, P::Ref][c.cfg(9) as usize % 3], ..inst };
    let how = how / 5;
    ctx.t(|| format!("read back ({}) into {target:?}: {text}", MUTATIONS[kind as usize]));
    let expect = denote::<I>(&text, how, inst.j);
    ensure!(ledger_alive() == alive, "internal error in the reference");
    let maker = mk(target);
    let got = guarded(|| maker.de(how, &text)).map_err(|e| format!("reading {text} panicked: {e}"))?;
    match (got, expect) {
        (Err(_), Err(_)) => {
            ctx.c("malformed documents refused");
            ensure!(ledger_alive() == alive, "reading a malformed document left {} values alive instead of {alive}", ledger_alive());
            ctx.nontrivial = p.m.len() >= 2;
        }
        (Err(e), Ok(_)) => return Err(format!("reading {text} failed: {e}")),
        (Ok(_), Err(e)) => return Err(format!("malformed document {text} was accepted ({e})")),
        (Ok(t), Ok(m)) => {
            ctx.c("documents read");
            if m.len() < p.m.len() {
                ctx.c("documents whose elements merge");
            }
            ctx.nontrivial = m.len() >= 2;
            check_full(&*t, &m, "the tree read back")?;
            t.validate();
            let paths = all_paths(&*t, &m);
            check_paths(&paths, target.m).map_err(|e| format!("the tree read back: {e}"))?;
            ensure!(ledger_alive() == alive + m.len(), "reading a document left {} values alive, {} stored", ledger_alive(), alive + m.len());
            let again = t.ser(how).map_err(|e| format!("serialization of the tree read back failed: {e}"))?;
            ensure!(again == doc(&m), "the tree read back serialized as {again}, expected {}", doc(&m));
            // and it is an ordinary tree
            let mut q = Pair { t, m, last: 0 };
            for k in 0..3 {
                let op = [0, c.cfg(7) + k, c.cfg(8) + 7 * k, c.cfg(5), c.cfg(4) + k, 0];
                let i = decode_insert(&q.m, &op, c.cfg(1), c.cfg(2), q.last, ctx);
                q.insert(i, ctx);
            }
            check_full(&*q.t, &q.m, "the tree read back, after insertions")?;
            if let Some(r) = (q.m.len() > 0).then(|| q.t.make_ref(I::ZERO)).flatten() {
                ensure!(r.is_valid() && eq(r.range().end, q.m.end(0)), "a reference into the tree read back does not work");
            }
        }
    }
    check_full(&*p.t, &p.m, "the original tree, at the end")?;
    drop(p);
    ensure!(ledger_alive() == 0, "{} values alive at the end", ledger_alive());
    Ok(())
}

fn run(c: &Case, ctx: &mut Ctx) -> Res {
    let inst = inst_of(c.cfg(0));
    if c.cfg(3) % 4 == 3 {
        go::<Heis>(mk_heis, Inst { m: MS_HEIS[c.cfg(0) as usize / 3 % 3], j: true, ..inst }, c, ctx)
    } else {
        go::<CIdx>(mk, inst, c, ctx)
    }
}

pub const PROP: PropDef = PropDef {
    id: "C16",
    gen,
    run,
    quick: 100_000,
    thorough: 2_000_000,
    rule: "a tree from a random history is serialized (several ways, also into a writer that fails part-way) and compared with the document of the reference sequence; the document, unchanged or with one of 13 kinds of malformation or reordering, is read into a tree of any feature parameter and compared with the reference reading of a list of pairs; non-trivial = two or more runs",
    level: "exploration",
    assumptions: &["self-describing text format (JSON) and its value tree"],
    probes: &[],
    fuel: 400_000_000,
};
