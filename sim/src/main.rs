//! gsim: deterministic simulation with fault injection for graviola and rustls-graviola.
pub mod alloc;
pub mod core;
pub mod cov;
pub mod env;
pub mod faults;
pub mod isa;
pub mod machine;
pub mod ops;
pub mod props;
pub mod refs;
pub mod rng;
pub mod sched;
pub mod tls;
pub mod vregs;

use crate::core::{Opts, Tier};

#[global_allocator]
static ALLOC: alloc::SimAlloc = alloc::SimAlloc;

fn usage() -> ! {
    eprintln!("usage: gsim check ID [quick|thorough] [--seed N] [--runs N] [--first N] [--workers N] [--cap S]\n       gsim replay FILE\n       gsim list\n       gsim one ID SEED RUN [quick|thorough]");
    std::process::exit(2)
}

fn find<'a>(defs: &'a [core::Def], id: &str) -> &'a core::Def {
    defs.iter().find(|d| d.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(2)
    })
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let defs = props::all();
    let num = |s: &String| s.parse::<u64>().unwrap_or_else(|_| usage());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for d in &defs {
                println!("{} {}", d.id, d.title);
            }
            0
        }
        // table of optional instructions of this binary
        Some("isa") => match isa::prepare() {
            Ok(()) => {
                if a.len() > 2 {
                    println!("{:?}", isa::counts());
                }
                0
            }
            Err(e) => {
                eprintln!("{e}");
                2
            }
        },
        Some("worker") if a.len() == 10 => {
            let o = Opts {
                workers: num(&a[4]),
                seed: num(&a[5]),
                tier: tier(&a[6]),
                runs: num(&a[7]),
                cap_s: a[8].parse().unwrap(),
                first: num(&a[9]),
            };
            core::worker(find(&defs, &a[2]), &o, num(&a[3]));
            0
        }
        Some("check") if a.len() >= 3 => {
            let def = find(&defs, &a[2]);
            let mut o = Opts {
                tier: Tier::Quick,
                seed: std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1),
                runs: 0,
                first: 0,
                workers: 8,
                cap_s: 0.0,
            };
            let mut i = 3;
            while i < a.len() {
                let v = a.get(i + 1);
                match a[i].as_str() {
                    "quick" | "thorough" => {
                        o.tier = tier(&a[i]);
                        i += 1;
                        continue;
                    }
                    "--seed" => o.seed = num(v.unwrap_or_else(|| usage())),
                    "--runs" => o.runs = num(v.unwrap_or_else(|| usage())),
                    "--first" => o.first = num(v.unwrap_or_else(|| usage())),
                    "--workers" => o.workers = num(v.unwrap_or_else(|| usage())),
                    "--cap" => o.cap_s = v.unwrap_or_else(|| usage()).parse().unwrap(),
                    _ => usage(),
                }
                i += 2;
            }
            if o.runs == 0 {
                o.runs = if o.tier == Tier::Quick { def.quick } else { def.thorough };
            }
            if o.cap_s == 0.0 {
                o.cap_s = if o.tier == Tier::Quick { 180.0 } else { 480.0 };
            }
            core::check(def, &o)
        }
        Some("replay") if a.len() == 3 => core::replay(&defs, &a[2]),
        Some("one") if a.len() >= 5 => {
            let def = find(&defs, &a[2]);
            core::one(def, num(&a[3]), num(&a[4]), tier(a.get(5).map(|s| s.as_str()).unwrap_or("quick")));
            0
        }
        _ => usage(),
    };
    std::process::exit(code)
}
