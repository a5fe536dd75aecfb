#![allow(deprecated, dead_code)]
mod alloc;
mod dict;
#[macro_use]
mod engine;
mod gen;
mod mval;
mod props;
mod refparse;
mod runner;

use std::path::PathBuf;

#[global_allocator]
static ALLOCATOR: alloc::Counting = alloc::Counting;

fn main() {
    engine::install_panic_hook();
    let args: Vec<String> = std::env::args().collect();
    let env = |k: &str| std::env::var(k).ok();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() >= 3 => {
            let props = props::all();
            let p = match props.iter().find(|p| p.id == args[2]) {
                Some(p) => p,
                None => {
                    println!("no property {}", args[2]);
                    std::process::exit(2);
                }
            };
            let root = env("OVERCHECK_ROOT").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("."));
            let o = runner::Opts {
                seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
                thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
                scale: env("OVERCHECK_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
                only_sub: args.get(3).cloned(),
                evidence: if args.len() > 3 || env("OVERCHECK_NO_EVIDENCE").is_some() { None } else { Some(root.join("evidence").join(format!("{}.json", args[2]))) },
                replays: root.join("replays"),
            };
            runner::run(p, &o)
        }
        Some("replay") if args.len() >= 3 => runner::replay(&props::all(), &args[2]),
        Some("list") => {
            for p in props::all() {
                if args.len() > 2 {
                    for s in &p.subs {
                        println!("{} {} {} {}", p.id, s.name, s.quick, s.thorough);
                    }
                    continue;
                }
                println!("{}", p.id);
            }
            0
        }
        Some("dict") => {
            println!("{:#?}", dict::dict());
            0
        }
        Some("ref") if args.len() >= 3 => {
            println!("{:?}", refparse::read_file(&args[2]));
            println!("{:?}", over::Obj::from_file(&args[2]).map_err(|e| e.to_string()));
            0
        }
        _ => {
            println!("usage: overcheck run ID [check] | replay FILE | list");
            2
        }
    };
    std::process::exit(code);
}
