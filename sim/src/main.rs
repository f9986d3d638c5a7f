mod alloc;
mod derived;
mod driver;
mod env;
mod exec;
mod gen;
mod io;
mod model;
mod multi;
mod observe;
mod plan;
mod rng;
mod scen;
mod sched;
mod shrink;
mod spec;
mod stats;
mod stdio;

use std::path::PathBuf;

#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = PathBuf::from(std::env::var("SIM_VERIF").unwrap_or_else(|_| "/verif".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let prop = a[2].clone();
            if !plan::PROPS.contains(&prop.as_str()) {
                println!("ERROR: unknown property {prop}");
                std::process::exit(2);
            }
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok());
            let variant = if cfg!(feature = "arc") { "features macros,thread_safe" } else { "features macros" };
            driver::check(&driver::Opts { prop, tier, seed, verif, runs, variant })
        }
        Some("worker") => {
            let list: Vec<u64> = std::fs::read_to_string(&a[4]).expect("list").lines().filter_map(|l| l.parse().ok()).collect();
            driver::worker(&a[2], a[3].parse().expect("seed"), &list)
        }
        Some("exec") => driver::exec_file(&PathBuf::from(&a[2])),
        Some("alone") => driver::alone(a[2].parse().expect("actor")),
        Some("replay") => {
            let p = PathBuf::from(&a[2]);
            let p = std::fs::canonicalize(&p).unwrap_or(p);
            driver::replay(&p)
        }
        Some("show") => {
            let s = plan::scenario(&a[2], a[3].parse().expect("seed"), a[4].parse().expect("index"));
            println!("{}", serde_json::to_string_pretty(&s).unwrap());
            0
        }
        _ => {
            println!("usage: sim check ID [quick|thorough] | replay FILE | show ID SEED INDEX");
            2
        }
    };
    std::process::exit(code);
}
