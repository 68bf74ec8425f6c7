//! Differential testing across configurations (C25): the same history run on many instantiations of
//! the tree, with one stream of observations each.
//!
//!   confdiff worker --seed S --from A --to B --step K --status FILE   differential run over cases
//!   confdiff hash --seed S --from A --to B                            one hash per case, small set
//!   confdiff gen --seed S --case K                                    print a case
//!   confdiff exec                                                     run the case on stdin
//!   confdiff obs                                                      observations of the case on stdin
//!   confdiff list                                                     instantiations in this build
mod watch;
mod gen;
mod inst;
mod rng;
mod run;

use gen::Case;
use inst::{all, Entry};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;

fn arg(a: &[String], k: &str) -> Option<String> {
    a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned()
}
fn num(a: &[String], k: &str) -> u64 {
    arg(a, k).and_then(|x| x.parse().ok()).unwrap_or(0)
}

/// Compare the instances a case names; `Err` describes the first difference
fn exec(c: &Case, es: &[Entry]) -> Result<(usize, bool), String> {
    let (ops, info) = c.effective();
    let (bn, rn) = (base(c, 'N'), base(c, 'R'));
    let base = es.iter().find(|e| e.name() == bn).expect("the baseline is always there");
    let want = (base.f)(&ops);
    let refbase = es.iter().find(|e| e.name() == rn).expect("always there");
    let mut refwant: Option<run::Obs> = None;
    let mut n = 0;
    for name in &c.insts {
        let Some(e) = es.iter().find(|e| e.name() == *name) else { continue };
        if e.bits < c.bits || e.j != c.j {
            continue;
        }
        let got = (e.f)(&ops);
        n += 1;
        if let Some(k) = (0..ops.len() + 1).find(|k| got.main.get(*k) != want.main.get(*k)) {
            return Err(format!(
                "{name} differs from {bn} at {}: {} / {}",
                if k < ops.len() { format!("operation {k} ({:?})", ops[k]) } else { "the final contents".to_string() },
                got.text.get(k).map(|s| s.as_str()).unwrap_or("-"),
                want.text.get(k).map(|s| s.as_str()).unwrap_or("-"),
            ));
        }
        if e.p == 'R' {
            let rw = refwant.get_or_insert_with(|| (refbase.f)(&ops));
            if let Some(k) = (0..ops.len() + 1).find(|k| got.refs.get(*k) != rw.refs.get(*k)) {
                return Err(format!("{name} differs from {rn} in what references report at operation {k} ({:?})", ops.get(k)));
            }
        }
    }
    Ok((n, info))
}
/// What the others are compared with: the default node size and, unless the sizes need a wider one,
/// the usual index type
fn base(c: &Case, p: char) -> String {
    format!("{}/{p}/{}/{}", if c.bits > 64 { "u128" } else { "usize" }, if c.bits > 64 { 3 } else { 5 }, if c.j { "J" } else { "-" })
}

fn quiet() {
    std::panic::set_hook(Box::new(|_| {}));
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let es = all();
    quiet();
    let mut out = std::io::stdout();
    match a.first().map(|s| s.as_str()) {
        Some("list") => {
            for e in &es {
                println!("{}", e.name());
            }
        }
        Some("gen") => print!("{}", gen::gen(num(&a, "--seed"), num(&a, "--case"), &es).to_text()),
        Some("exec") => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            if let Err(m) = exec(&Case::parse(&s), &es) {
                println!("{m}");
                std::process::exit(10);
            }
        }
        Some("obs") => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let c = Case::parse(&s);
            let (ops, _) = c.effective();
            for e in es.iter().filter(|e| e.small && e.bits >= c.bits && e.j == c.j) {
                let o = (e.f)(&ops);
                for (k, t) in o.text.iter().enumerate() {
                    println!("{} {k} {t} {:x} {:x}", e.name(), o.main[k], o.refs.get(k).copied().unwrap_or(0));
                }
            }
        }
        Some("hash") => {
            let (seed, from, to) = (num(&a, "--seed"), num(&a, "--from"), num(&a, "--to"));
            let st = arg(&a, "--status").map(|p| std::fs::File::create(p).unwrap());
            for k in from..to {
                if let Some(st) = &st {
                    st.write_all_at(&k.to_le_bytes(), 0).unwrap();
                }
                watch::case(format!("HANG {k}"), 12);
                let c = gen::gen(seed, k, &es);
                let (ops, _) = c.effective();
                let mut h = 0u64;
                for e in es.iter().filter(|e| e.small && e.bits >= c.bits && e.j == c.j) {
                    let o = (e.f)(&ops);
                    for x in o.main.iter().chain(&o.refs) {
                        h = run::mix(h, *x);
                    }
                }
                writeln!(out, "{k} {h:x}").unwrap();
            }
        }
        Some("worker") => {
            let (seed, from, to, step) = (num(&a, "--seed"), num(&a, "--from"), num(&a, "--to"), num(&a, "--step").max(1));
            let st = std::fs::File::create(arg(&a, "--status").unwrap()).unwrap();
            let (mut cases, mut nontrivial, mut runs, mut maxruns) = (0u64, 0u64, 0u64, 0usize);
            let mut used = std::collections::BTreeSet::new();
            let mut bits = std::collections::BTreeMap::new();
            let mut samples = Vec::new();
            let mut k = from;
            while k < to {
                st.write_all_at(&k.to_le_bytes(), 0).unwrap();
                watch::case(format!("FAIL {k} no result after a minute"), 0);
                let c = gen::gen(seed, k, &es);
                match exec(&c, &es) {
                    Err(m) => {
                        writeln!(out, "FAIL {k} {}", m.replace('\n', " ")).unwrap();
                        return;
                    }
                    Ok((n, nt)) => {
                        cases += 1;
                        runs += n as u64;
                        nontrivial += (nt && n >= 2) as u64;
                        used.extend(c.insts.iter().cloned());
                        *bits.entry(c.bits).or_insert(0u64) += 1;
                        maxruns = maxruns.max(c.ops.len());
                        if nt && samples.len() < 2 && c.ops.len() < 12 {
                            samples.push(c.to_text().replace('\n', "; "));
                        }
                    }
                }
                k += step;
            }
            writeln!(out, "DONE {cases} {nontrivial} {runs} {maxruns}").unwrap();
            for (b, n) in bits {
                writeln!(out, "BITS {b} {n}").unwrap();
            }
            for u in used {
                writeln!(out, "USED {u}").unwrap();
            }
            for s in samples {
                writeln!(out, "SAMPLE {s}").unwrap();
            }
        }
        _ => std::process::exit(2),
    }
}
