mod cli;
mod lex;
mod mut_sol;
mod mut_vy;
mod mutdrv;
mod props_cli;
mod props_diff;
mod props_route;
mod props_fault;
mod props_lib;
mod props_mut;
mod props_perm;
mod props_sol;
mod props_vy;
mod runner;
mod sol;
mod solref;
mod src;
mod vy;

use runner::Prop;

fn props() -> Vec<Prop> {
    let mut v = vec![];
    v.extend(props_sol::props());
    v.extend(props_vy::props());
    v.extend(props_mut::props());
    v.extend(props_lib::props());
    v.extend(props_perm::props());
    v.extend(props_cli::props());
    v.extend(props_fault::props());
    v.extend(props_diff::props());
    v.extend(props_route::props());
    v
}

fn main() {
    if let Some(code) = cli::stand_in() {
        std::process::exit(code);
    }
    let a: Vec<String> = std::env::args().collect();
    let all = props();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = all.iter().find(|p| p.id == a[2]).expect("unknown property");
            let tier = a.get(3).cloned().unwrap_or_else(|| std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into()));
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1);
            runner::run(p, &tier, seed, "exploration")
        }
        Some("worker") => {
            let p = all.iter().find(|p| p.id == a[2]).expect("unknown property");
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            runner::worker(p, n(3), n(4), n(5), n(6));
            0
        }
        Some("one") => runner::one(&a[2], &all),
        Some("list") => {
            for p in &all {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: harness check <ID> [quick|thorough] | one <replay.json> | list");
            2
        }
    };
    std::process::exit(code);
}
