//! Property-based testing engine: case generation by index, sharded worker processes, crash
//! attribution, shrinking in subprocesses, replay files, evidence.
use crate::rng::Rng;
use crate::types;
use std::collections::{BTreeMap, HashSet};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub type Op = [u32; 6];

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Case {
    pub cfg: Vec<u32>,
    pub ops: Vec<Op>,
}

impl Case {
    pub fn to_text(&self, prop: &str) -> String {
        let mut s = format!("prop {prop}\ncfg");
        for c in &self.cfg {
            s.push_str(&format!(" {c}"));
        }
        s.push('\n');
        for o in &self.ops {
            s.push_str("op");
            for x in o {
                s.push_str(&format!(" {x}"));
            }
            s.push('\n');
        }
        s
    }
    pub fn parse(s: &str) -> (String, Case) {
        let mut prop = String::new();
        let mut c = Case::default();
        for l in s.lines() {
            let mut w = l.split_whitespace();
            match w.next() {
                Some("prop") => prop = w.next().unwrap_or("").to_string(),
                Some("cfg") => c.cfg = w.map(|x| x.parse().unwrap()).collect(),
                Some("op") => {
                    let mut o = [0; 6];
                    for (i, x) in w.enumerate().take(6) {
                        o[i] = x.parse().unwrap();
                    }
                    c.ops.push(o);
                }
                _ => {}
            }
        }
        (prop, c)
    }
    pub fn cfg(&self, i: usize) -> u32 {
        self.cfg.get(i).copied().unwrap_or(0)
    }
    pub fn hash(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut put = |x: u32| {
            for b in x.to_le_bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        };
        self.cfg.iter().for_each(|x| put(*x));
        put(0xffff_ffff);
        self.ops.iter().flatten().for_each(|x| put(*x));
        h
    }
}

#[derive(Copy, Clone, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
    /// very small cases, for interpreters and sanitizers
    Mini,
}

impl Tier {
    pub fn name(self) -> &'static str {
        match self {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
            Tier::Mini => "mini",
        }
    }
}

#[derive(Default)]
pub struct Ctx {
    pub counters: BTreeMap<&'static str, u64>,
    pub nontrivial: bool,
    /// human-readable rendering of the case (filled only when `want_sample`)
    pub trace: Vec<String>,
    pub want_trace: bool,
}
impl Ctx {
    pub fn c(&mut self, k: &'static str) {
        *self.counters.entry(k).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &'static str, n: u64) {
        *self.counters.entry(k).or_insert(0) += n;
    }
    pub fn max(&mut self, k: &'static str, n: u64) {
        let e = self.counters.entry(k).or_insert(0);
        *e = (*e).max(n);
    }
    pub fn t(&mut self, f: impl FnOnce() -> String) {
        if self.want_trace && self.trace.len() < 400 {
            self.trace.push(f());
        }
    }
}

pub enum ProbeResult {
    /// behaves as the property demands
    Holds,
    /// fails with exactly the recorded signature
    KnownFailure,
    /// fails in some other way
    Other(String),
}

pub struct Probe {
    pub key: &'static str,
    pub desc: &'static str,
    pub run: fn() -> ProbeResult,
}

pub struct PropDef {
    pub id: &'static str,
    pub gen: fn(&mut Rng, u64, Tier) -> Case,
    pub run: fn(&Case, &mut Ctx) -> Result<(), String>,
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
    pub level: &'static str,
    pub assumptions: &'static [&'static str],
    pub probes: &'static [Probe],
    pub fuel: u64,
}

thread_local! {
    static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if info.payload().is::<types::FaultInjected>() {
            "injected fault".to_string()
        } else if info.payload().is::<types::FuelExhausted>() {
            "callback budget exhausted (operation does not terminate)".to_string()
        } else if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "non-string panic".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg}{loc}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Run `f`, turning a panic into `Err(message)`
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) => {
            // a fuel exhaustion must never be mistaken for an expected refusal
            if p.is::<types::FuelExhausted>() {
                types::set_bad("callback budget exhausted (operation does not terminate)".into());
            }
            Err(last_panic())
        }
    }
}

pub fn exec(p: &PropDef, c: &Case, ctx: &mut Ctx) -> Result<(), String> {
    types::reset_case(p.fuel);
    let r = guarded(|| (p.run)(c, ctx));
    types::INSTR.with(|i| {
        i.fuel.set(u64::MAX);
        i.fuse.set(-1);
        i.chaos.set(0);
    });
    let bad = types::take_bad();
    match (r, bad) {
        (Err(e), Some(b)) => Err(format!("panic: {e}; also: {b}")),
        (Err(e), None) => Err(format!("panic: {e}")),
        (Ok(_), Some(b)) => Err(b),
        (Ok(x), None) => x,
    }
}

pub fn stream(id: &str) -> u64 {
    id.bytes().fold(7u64, |h, b| h.wrapping_mul(31).wrapping_add(b as u64))
}
pub fn gen_case(p: &PropDef, seed: u64, k: u64, tier: Tier) -> Case {
    let mut r = Rng::new(seed, stream(p.id), k);
    (p.gen)(&mut r, k, tier)
}

pub struct Args {
    pub prop: String,
    pub tier: Tier,
    pub seed: u64,
    pub jobs: u64,
    pub cases: Option<u64>,
    pub root: PathBuf,
    pub rest: Vec<String>,
}

fn n_cases(p: &PropDef, a: &Args) -> u64 {
    a.cases.unwrap_or(match a.tier {
        Tier::Quick | Tier::Mini => p.quick,
        Tier::Thorough => p.thorough,
    })
}

/// Saved regression cases of a property, executed before the generated ones
fn corpus(root: &Path, id: &str) -> Vec<Case> {
    let mut v: Vec<PathBuf> = std::fs::read_dir(root.join("harness/corpus"))
        .map(|d| d.flatten().map(|e| e.path()).collect())
        .unwrap_or_default();
    v.retain(|p| p.extension().is_some_and(|e| e == "case"));
    v.sort();
    v.iter()
        .filter_map(|p| std::fs::read_to_string(p).ok())
        .map(|s| Case::parse(&s))
        .filter(|(p, _)| p == id)
        .map(|(_, c)| c)
        .collect()
}

const CORPUS_BASE: u64 = 1 << 40;

fn nth_case(p: &PropDef, a: &Args, k: u64) -> Case {
    if k >= CORPUS_BASE {
        corpus(&a.root, p.id)[(k - CORPUS_BASE) as usize].clone()
    } else {
        gen_case(p, a.seed, k, a.tier)
    }
}

/// Worker process: runs its share of the cases
pub fn worker(p: &PropDef, a: &Args, shard: u64, of: u64, status: &Path, out: &Path) -> i32 {
    let st = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(status).unwrap();
    let total = n_cases(p, a);
    let mut ctx = Ctx::default();
    let mut evals = 0u64;
    let mut nontrivial: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    let mut fail: Option<(u64, String)> = None;
    let mut one = |k: u64| -> bool {
        st.write_all_at(&k.to_le_bytes(), 0).unwrap();
        let c = nth_case(p, a, k);
        ctx.nontrivial = false;
        ctx.trace.clear();
        let r = exec(p, &c, &mut ctx);
        evals += 1;
        if let Err(m) = r {
            fail = Some((k, m));
            return false;
        }
        if ctx.nontrivial {
            nontrivial.insert(c.hash());
            if samples.len() < 2 && c.ops.len() <= 14 && c.ops.len() >= 3 {
                samples.push(c.to_text(p.id).replace('\n', "; "));
            }
        }
        true
    };
    let mut go = true;
    if shard == 0 {
        for k in 0..corpus(&a.root, p.id).len() as u64 {
            go = go && one(CORPUS_BASE + k);
        }
    }
    let mut k = shard;
    while go && k < total {
        go = one(k);
        k += of;
    }
    let hashes: Vec<u8> = nontrivial.iter().flat_map(|h| h.to_le_bytes()).collect();
    std::fs::write(out.with_extension("hashes"), hashes).unwrap();
    let j = serde_json::json!({
        "evals": evals,
        "counters": ctx.counters,
        "samples": samples,
        "fail": fail.as_ref().map(|f| serde_json::json!({"case": f.0, "msg": f.1})),
    });
    std::fs::write(out, j.to_string()).unwrap();
    0
}

#[derive(Debug)]
pub enum ExecOut {
    Pass,
    Fail(String),
    /// no verdict (timeout, killed)
    Unknown(String),
}

/// Run one case in a subprocess
pub fn exec_sub(prop: &str, c: &Case, root: &Path, timeout: Duration) -> ExecOut {
    let exe = std::env::current_exe().unwrap();
    let mut ch = match Command::new(exe)
        .arg("exec-stdin")
        .arg(prop)
        .arg("--root")
        .arg(root)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return ExecOut::Unknown(e.to_string()),
    };
    let text = c.to_text(prop);
    let mut si = ch.stdin.take().unwrap();
    let _ = si.write_all(text.as_bytes());
    drop(si);
    let t0 = Instant::now();
    let mut nap = 1;
    let status = loop {
        match ch.try_wait() {
            Ok(Some(s)) => break s,
            _ => {}
        }
        if t0.elapsed() > timeout {
            let _ = ch.kill();
            let _ = ch.wait();
            return ExecOut::Unknown("timeout".into());
        }
        std::thread::sleep(Duration::from_millis(nap));
        nap = (nap + 1).min(20);
    };
    let mut s = String::new();
    let _ = ch.stdout.take().unwrap().read_to_string(&mut s);
    if let Some(sig) = status.signal() {
        if sig == 9 || sig == 15 {
            return ExecOut::Unknown(format!("killed by signal {sig}"));
        }
        return ExecOut::Fail(format!("process died with signal {sig} {}", s.trim()));
    }
    match status.code() {
        Some(0) => ExecOut::Pass,
        Some(10) => ExecOut::Fail(s.trim().to_string()),
        c => ExecOut::Fail(format!("process exited with {c:?} {}", s.trim())),
    }
}

pub fn shrink(prop: &str, c: &Case, root: &Path, msg: &mut String, budget: Duration) -> Case {
    let t0 = Instant::now();
    let mut best = c.clone();
    let mut tries = 0;
    let mut attempt = |cand: Case, best: &mut Case, msg: &mut String| -> bool {
        if t0.elapsed() > budget || tries > 4000 {
            return false;
        }
        tries += 1;
        if let ExecOut::Fail(m) = exec_sub(prop, &cand, root, Duration::from_secs(15)) {
            *best = cand;
            *msg = m;
            true
        } else {
            false
        }
    };
    loop {
        let before = best.clone();
        // delete chunks of operations
        let mut chunk = best.ops.len().div_ceil(2).max(1);
        loop {
            let mut i = 0;
            while i < best.ops.len() {
                let mut cand = best.clone();
                let end = (i + chunk).min(cand.ops.len());
                cand.ops.drain(i..end);
                if !attempt(cand, &mut best, msg) {
                    i += chunk;
                }
            }
            if chunk == 1 {
                break;
            }
            chunk = chunk.div_ceil(2);
        }
        // shrink numbers
        for i in 0..best.ops.len() {
            for f in 0..6 {
                let mut guard = 0;
                while best.ops[i][f] > 0 && guard < 8 {
                    guard += 1;
                    let v = best.ops[i][f];
                    let mut done = true;
                    for nv in [0, v / 2, v - 1] {
                        if nv >= v {
                            continue;
                        }
                        let mut cand = best.clone();
                        cand.ops[i][f] = nv;
                        if attempt(cand, &mut best, msg) {
                            done = false;
                            break;
                        }
                    }
                    if done {
                        break;
                    }
                }
            }
        }
        for i in 0..best.cfg.len() {
            for nv in [0, best.cfg[i] / 2, best.cfg[i].saturating_sub(1)] {
                if nv < best.cfg[i] {
                    let mut cand = best.clone();
                    cand.cfg[i] = nv;
                    if attempt(cand, &mut best, msg) {
                        break;
                    }
                }
            }
        }
        if best == before || t0.elapsed() > budget {
            break;
        }
    }
    best
}

fn known_findings(root: &Path) -> Vec<(String, String, String)> {
    // lines: `KNOWN-FINDING: property=<id> key=<key> <description>`
    let s = std::fs::read_to_string(root.join("known_findings.txt")).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let l = l.strip_prefix("KNOWN-FINDING: property=")?;
            let (id, rest) = l.split_once(' ')?;
            let rest = rest.strip_prefix("key=")?;
            let (key, desc) = rest.split_once(' ')?;
            Some((id.to_string(), key.to_string(), desc.to_string()))
        })
        .collect()
}

pub fn write_replay(root: &Path, prop: &str, c: &Case, msg: &str) -> PathBuf {
    let dir = root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{prop}-{:016x}.case", c.hash()));
    let mut s = String::new();
    for l in msg.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    s.push_str(&c.to_text(prop));
    let _ = std::fs::write(&path, s);
    path
}

pub fn run_check(p: &PropDef, a: &Args) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let tmp = a.root.join(format!("tmp/{}-{}", p.id, std::process::id()));
    std::fs::create_dir_all(&tmp).unwrap();
    let jobs = a.jobs.max(1);
    let mut kids = Vec::new();
    for s in 0..jobs {
        let out = tmp.join(format!("w{s}.json"));
        let status = tmp.join(format!("w{s}.status"));
        let err = std::fs::File::create(tmp.join(format!("w{s}.err"))).unwrap();
        let mut cmd = Command::new(&exe);
        cmd.arg("worker")
            .arg(p.id)
            .args(["--seed", &a.seed.to_string()])
            .args(["--tier", a.tier.name()])
            .arg("--root")
            .arg(&a.root)
            .args(["--shard", &s.to_string(), "--of", &jobs.to_string()])
            .arg("--status")
            .arg(&status)
            .arg("--out")
            .arg(&out)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(err);
        if let Some(c) = a.cases {
            cmd.args(["--cases", &c.to_string()]);
        }
        kids.push((cmd.spawn().unwrap(), out, status, None::<std::process::ExitStatus>, 0u64, Instant::now()));
    }

    let read_status = |st: &Path| -> Option<u64> {
        let b = std::fs::read(st).ok()?;
        Some(u64::from_le_bytes(b.get(..8)?.try_into().ok()?))
    };
    let mut error: Option<String> = None;
    let mut crash: Option<(u64, String)> = None;
    let mut hang: Option<u64> = None;
    let mut fails: Vec<(u64, String)> = Vec::new();
    let mut outs = Vec::new();
    loop {
        let mut running = 0;
        for (ch, out, st, done, last, since) in kids.iter_mut() {
            if done.is_some() {
                continue;
            }
            match ch.try_wait() {
                Ok(Some(s)) => {
                    *done = Some(s);
                    if let Some(sig) = s.signal() {
                        let k = read_status(st);
                        let errtxt = std::fs::read_to_string(out.with_extension("err")).unwrap_or_default();
                        if sig == 9 || sig == 15 {
                            error = Some(format!("worker killed by signal {sig}: {}", errtxt.trim()));
                        } else if let Some(k) = k {
                            let tail: String = errtxt.trim().chars().take(600).collect();
                            crash = Some((k, format!("process died with signal {sig} {tail}")));
                        } else {
                            error = Some(format!("worker died with signal {sig} before its first case: {errtxt}"));
                        }
                    } else if s.code() != Some(0) {
                        let errtxt = std::fs::read_to_string(out.with_extension("err")).unwrap_or_default();
                        match read_status(st) {
                            Some(k) => crash = Some((k, format!("process exited with {:?} {}", s.code(), errtxt.trim()))),
                            None => error = Some(format!("worker exited with {:?}: {}", s.code(), errtxt.trim())),
                        }
                    } else {
                        let j: serde_json::Value =
                            serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap();
                        if let Some(f) = j.get("fail").filter(|f| !f.is_null()) {
                            fails.push((f["case"].as_u64().unwrap(), f["msg"].as_str().unwrap().to_string()));
                        }
                        outs.push((j, out.clone()));
                    }
                }
                _ => {
                    running += 1;
                    let k = read_status(st).unwrap_or(0) + 1;
                    if k != *last {
                        *last = k;
                        *since = Instant::now();
                    } else if since.elapsed() > Duration::from_secs(40) && hang.is_none() {
                        hang = Some(k - 1);
                    }
                }
            }
        }
        if running == 0 || error.is_some() || crash.is_some() || hang.is_some() || !fails.is_empty() {
            break;
        }
        std::thread::sleep(Duration::from_millis(20));
    }
    for (ch, ..) in kids.iter_mut() {
        let _ = ch.kill();
        let _ = ch.wait();
    }

    let mut violations = 0;
    let mut code = 0;
    if let (Some(k), true) = (hang, fails.is_empty() && crash.is_none()) {
        // decide it again, alone: a case takes milliseconds, so a second full minute is a hang
        match exec_sub(p.id, &nth_case(p, a, k), &a.root, Duration::from_secs(60)) {
            ExecOut::Fail(m) => crash = Some((k, m)),
            ExecOut::Unknown(m) if m == "timeout" => {
                crash = Some((k, "no progress for 40 s, then for 60 s alone: the operation does not terminate".into()))
            }
            o => error = Some(format!("case {k} made no progress for 40 s, then gave {o:?} alone")),
        }
    }
    let hung = hang.is_some() && crash.is_some();
    if let Some(c) = crash {
        fails.push(c);
    }
    if let Some((k, msg0)) = fails.into_iter().min() {
        let c = nth_case(p, a, k);
        let mut msg = msg0.clone();
        let again = if hung { ExecOut::Unknown("hung".into()) } else { exec_sub(p.id, &c, &a.root, Duration::from_secs(60)) };
        let small = match again {
            ExecOut::Fail(m) => {
                msg = m;
                shrink(p.id, &c, &a.root, &mut msg, Duration::from_secs(45))
            }
            _ => c.clone(),
        };
        let path = write_replay(&a.root, p.id, &small, &format!("{msg}\nfrom generated case {k} (seed {}), first seen as: {msg0}", a.seed));
        println!("case {k}: {msg}");
        for l in small.to_text(p.id).lines().take(60) {
            println!("  {l}");
        }
        println!("VIOLATION property={} replay={}", p.id, path.display());
        violations = 1;
        code = 1;
    } else if let Some(e) = error {
        println!("ERROR property={}: {e}", p.id);
        let _ = std::fs::remove_dir_all(&tmp);
        return 2;
    }

    // recorded findings
    if code == 0 {
        let known = known_findings(&a.root);
        for pr in p.probes {
            types::reset_case(u64::MAX);
            let listed = known.iter().find(|k| k.0 == p.id && k.1 == pr.key);
            let r = guarded(pr.run).unwrap_or_else(|e| ProbeResult::Other(format!("panic: {e}")));
            types::reset_case(u64::MAX);
            match (r, listed) {
                (ProbeResult::Holds, _) => {}
                (ProbeResult::KnownFailure, Some(k)) => {
                    println!("KNOWN-FINDING: property={} {}", p.id, k.2);
                }
                (ProbeResult::KnownFailure, None) => {
                    println!("probe {}: {}", pr.key, pr.desc);
                    println!("VIOLATION property={} replay=probe:{}", p.id, pr.key);
                    violations += 1;
                    code = 1;
                }
                (ProbeResult::Other(m), _) => {
                    println!("probe {}: {} -- {m}", pr.key, pr.desc);
                    println!("VIOLATION property={} replay=probe:{}", p.id, pr.key);
                    violations += 1;
                    code = 1;
                }
            }
        }
    }

    // evidence
    let mut evals = 0;
    let mut counters: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = Vec::new();
    for (j, out) in &outs {
        evals += j["evals"].as_u64().unwrap();
        for (k, v) in j["counters"].as_object().unwrap() {
            let e = counters.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(v.as_u64().unwrap());
            } else {
                *e += v.as_u64().unwrap();
            }
        }
        for s in j["samples"].as_array().unwrap() {
            if samples.len() < 6 {
                samples.push(s.as_str().unwrap().to_string());
            }
        }
        if let Ok(b) = std::fs::read(out.with_extension("hashes")) {
            for c in b.chunks_exact(8) {
                hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    let traced: Vec<serde_json::Value> = samples
        .iter()
        .take(3)
        .map(|s| {
            let (_, c) = Case::parse(&s.replace("; ", "\n"));
            let mut ctx = Ctx { want_trace: true, ..Ctx::default() };
            let r = exec(p, &c, &mut ctx);
            serde_json::json!({"case": s, "trace": ctx.trace, "result": format!("{r:?}")})
        })
        .collect();
    let ev = serde_json::json!({
        "property": p.id,
        "tier": a.tier.name(),
        "seed": a.seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": hashes.len(),
            "rule": p.rule,
            "samples": traced,
            "classes": counters,
        },
        "assumptions": p.assumptions,
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(a.root.join("evidence"));
    std::fs::write(a.root.join(format!("evidence/{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1}s, exit {}",
        p.id,
        evals,
        hashes.len(),
        t0.elapsed().as_secs_f64(),
        code
    );
    let _ = std::fs::remove_dir_all(&tmp);
    code
}
