mod alloc;
mod dynt;
mod engine;
mod fmt;
mod model;
mod props;
mod rng;
mod types;

use engine::*;
use std::io::Read;
use std::path::PathBuf;

/// Bound the address space, so that runaway memory use ends the worker (an abort attributed to the
/// case) and not the sandbox
fn limit_memory() {
    unsafe extern "C" {
        fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    }
    let lim = [3u64 << 30; 2];
    // RLIMIT_AS is 9 on Linux
    unsafe { setrlimit(9, &lim) };
}

fn main() {
    install_hook();
    let argv: Vec<String> = std::env::args().collect();
    let cmd = argv.get(1).map(|s| s.as_str()).unwrap_or("");
    let opt = |k: &str| -> Option<String> {
        argv.iter().position(|x| x == k).and_then(|i| argv.get(i + 1).cloned())
    };
    let a = Args {
        prop: argv.get(2).cloned().unwrap_or_default(),
        tier: match opt("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).as_deref() {
            Some("thorough") => Tier::Thorough,
            Some("mini") => Tier::Mini,
            _ => Tier::Quick,
        },
        seed: opt("--seed")
            .or_else(|| std::env::var("VERIF_SEED").ok())
            .and_then(|s| s.parse().ok())
            .unwrap_or(1),
        jobs: opt("--jobs").and_then(|s| s.parse().ok()).unwrap_or(8),
        cases: opt("--cases").and_then(|s| s.parse().ok()),
        root: opt("--root").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif")),
        rest: argv.clone(),
    };
    let find = |id: &str| props::all().iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    });
    let code = match cmd {
        "check" => run_check(find(&a.prop), &a),
        "worker" => {
            limit_memory();
            let n = |k: &str| opt(k).unwrap().parse::<u64>().unwrap();
            worker(
                find(&a.prop),
                &a,
                n("--shard"),
                n("--of"),
                &PathBuf::from(opt("--status").unwrap()),
                &PathBuf::from(opt("--out").unwrap()),
            )
        }
        "exec-stdin" => {
            if !cfg!(miri) && !cfg!(feature = "heap") {
                limit_memory();
            }
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            let (_, c) = Case::parse(&s);
            let mut ctx = Ctx::default();
            match exec(find(&a.prop), &c, &mut ctx) {
                Ok(()) => 0,
                Err(m) => {
                    println!("{m}");
                    10
                }
            }
        }
        "replay" => {
            let s = std::fs::read_to_string(&a.prop).expect("replay file");
            let (prop, c) = Case::parse(&s);
            let mut ctx = Ctx { want_trace: true, ..Ctx::default() };
            let mut r = exec(find(&prop), &c, &mut ctx);
            // what several threads do differs from run to run
            for _ in 0..if prop == "C10" { 500 } else { 0 } {
                if r.is_ok() {
                    r = exec(find(&prop), &c, &mut Ctx::default());
                }
            }
            for t in &ctx.trace {
                println!("  {t}");
            }
            match r {
                Ok(()) => {
                    println!("{prop}: holds on this case");
                    0
                }
                Err(m) => {
                    println!("{m}\nVIOLATION property={prop} replay={}", a.prop);
                    1
                }
            }
        }
        "noop" => 0,
        "gen" => {
            let k = opt("--case").unwrap().parse().unwrap();
            let p = find(&a.prop);
            print!("{}", gen_case(p, a.seed, k, a.tier).to_text(p.id));
            0
        }
        "exec-range" => {
            // in-process run of a range of cases (used under sanitizers and Miri)
            let p = find(&a.prop);
            let from: u64 = opt("--from").unwrap().parse().unwrap();
            let to: u64 = opt("--to").unwrap().parse().unwrap();
            let mut ctx = Ctx::default();
            let keep_going = a.rest.iter().any(|x| x == "--keep-going");
            let mut rc = 0;
            let (mut nt, mut failed) = (0, 0);
            for k in from..to {
                let c = gen_case(p, a.seed, k, a.tier);
                eprintln!("case {k}");
                ctx.nontrivial = false;
                if let Err(m) = exec(p, &c, &mut ctx) {
                    println!("FAIL case {k}: {m}");
                    failed += 1;
                    if !keep_going {
                        rc = 10;
                        break;
                    }
                }
                nt += ctx.nontrivial as u64;
            }
            println!("done {} {} {}", to - from, nt, failed);
            rc
        }
        _ => {
            eprintln!("usage: harness check|worker|exec-stdin|replay|gen ...");
            3
        }
    };
    std::process::exit(code);
}
