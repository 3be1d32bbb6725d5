//! Deterministic simulation of cycle_map. See ../DESIGN.md.
mod check;
mod cost;
mod ctx;
mod disk;
mod gen;
mod issue;
mod lawless;
mod judge;
mod map;
mod mem;
mod model;
mod op;
mod options;
mod readers;
mod rng;
mod run;
mod shrink;
mod simfmt;
mod types;
mod verify;

#[global_allocator]
static A: ctx::SimAlloc = ctx::SimAlloc;

fn main() {
    ctx::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or_else(|| check::fail("usage: sim check <property> | replay <file> | show <property> <run>"));
    let env = |k: &str| std::env::var(k).ok();
    let root = std::path::PathBuf::from(env("VERIF_ROOT").unwrap_or_else(|| concat!(env!("CARGO_MANIFEST_DIR"), "/..").into()));
    let num = |s: &str| s.parse::<u64>().unwrap_or_else(|_| check::fail(&format!("{s} is not a number")));
    let seed = env("VERIF_SEED").map(|s| num(&s)).unwrap_or(1);
    match arg(1) {
        "check" => {
            let o = check::Options {
                prop: arg(2).into(),
                seed,
                tier: env("VERIF_TIER").filter(|t| t == "thorough").unwrap_or("quick".into()),
                runs: env("SIM_RUNS").map(|s| num(&s)),
                workers: env("SIM_WORKERS").map(|s| num(&s) as usize).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16)),
                root,
            };
            std::process::exit(check::check(&o))
        }
        "worker" => check::worker(&check::Job {
            prop: arg(2).into(),
            seed: num(arg(3)),
            from: num(arg(4)),
            total: num(arg(5)),
            stride: num(arg(6)),
            secs: arg(7).parse().unwrap(),
            out: arg(8).into(),
            skip: arg(9).split(',').filter_map(|s| s.parse().ok()).collect(),
        }),
        "one" => check::one(arg(2), arg(3)),
        "shrink" => check::shrink_cmd(arg(2), num(arg(3))),
        "replay" => std::process::exit(check::replay(arg(2), &root)),
        "show" => {
            let sc = gen::scenario(arg(2), gen::run_seed(arg(2), seed, num(arg(3))));
            println!("{}", serde_json::to_string_pretty(&sc).unwrap());
        }
        x => check::fail(&format!("unknown command {x}")),
    }
}
