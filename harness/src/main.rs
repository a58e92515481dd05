mod engine;
mod gen;
mod props;
mod refmodel;
mod util;

use engine::*;
use std::path::PathBuf;

fn main() {
    // error reports would capture a backtrace each
    std::env::set_var("RUST_BACKTRACE", "0");
    std::env::set_var("RUST_LIB_BACKTRACE", "0");
    install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let cases = std::env::var("VPH_CASES").ok().and_then(|s| s.parse().ok());
    let get = |id: &str| -> Box<dyn DynProp> {
        match props::all().into_iter().find(|p| p.id() == id) {
            Some(p) => p,
            None => {
                eprintln!("unknown property {id}");
                std::process::exit(2);
            }
        }
    };
    let tier = |s: &str| if s == "thorough" { Tier::Thorough } else { Tier::Quick };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("run") => {
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            parent(&*get(&a[2]), tier(&a[3]), seed, cases)
        }
        Some("worker") => {
            // worker ID TIER SEED SHARD OF OUT
            let args = Args {
                tier: tier(&a[3]),
                seed: a[4].parse().unwrap(),
                shard: a[5].parse().unwrap(),
                of: a[6].parse().unwrap(),
                out: PathBuf::from(&a[7]),
                isolate_from: std::env::var("VPH_ISOLATE").ok().and_then(|s| s.parse().ok()),
                cases,
            };
            let rep = get(&a[2]).worker(&args);
            std::fs::write(args.out.join(format!("rep-{}.json", args.shard)), serde_json::to_string(&rep).unwrap()).unwrap();
            0
        }
        Some("case") => run_case(&*get(&a[2]), &PathBuf::from(&a[3])),
        Some("replay") => match replay_process(&a[2], &PathBuf::from(&a[3])) {
            ReplayOutcome::Holds => {
                println!("the property holds on {}", a[3]);
                0
            }
            ReplayOutcome::Violated(m) => {
                println!("VIOLATION property={} replay={}", a[2], a[3]);
                println!("  {}", sanitize(&m));
                1
            }
            ReplayOutcome::Broken(m) => {
                println!("ERROR {m}");
                2
            }
        },
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id());
            }
            0
        }
        Some(sub) => props::subcommand(sub, &a[2..]),
        None => {
            eprintln!("usage: vph run ID quick|thorough | replay ID FILE | list");
            2
        }
    };
    std::process::exit(code);
}
