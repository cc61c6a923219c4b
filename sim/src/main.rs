//! Deterministic simulation of socket.io-client-rs. See /verif/DESIGN.md.

mod exec;
mod gen;
mod oracle;
mod plan;
mod runner;
mod sys;
mod user;
mod val;
mod wire;
mod world;

#[global_allocator]
static HEAP: simrt::Heap = simrt::Heap;

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let flag = |n: &str| a.iter().position(|x| x == n).and_then(|i| a.get(i + 1)).cloned();
    let num = |n: &str| flag(n).map(|x| x.parse::<u64>().expect("a number"));
    let seed = num("--seed").or_else(|| std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok())).unwrap_or(1);
    let tier = flag("--tier").or_else(|| std::env::var("VERIF_TIER").ok()).unwrap_or_else(|| "quick".into());
    let prop = flag("--prop").unwrap_or_else(|| "C01".into());
    let has = |n: &str| a.iter().any(|x| x == n);
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => runner::check(&prop, &tier, seed, &runner::root(), (num("--runs"), num("--secs"), num("--workers"))),
        Some("replay") => runner::replay(std::path::Path::new(&a[1]), has("--quiet")),
        Some("one") => runner::one(&prop, seed, num("--run").unwrap_or(0), has("--trace"), has("--plan")),
        Some("survey") => {
            for p in gen::PROPS {
                if flag("--prop").is_none() || prop == p {
                    runner::survey(p, seed, num("--runs").unwrap_or(500), num("--workers").unwrap_or(8));
                }
            }
            0
        }
        Some("determinism") => runner::determinism(seed, num("--runs").unwrap_or(5)),
        _ => {
            println!("siosim check --prop Cnn [--tier quick|thorough] [--seed N] [--runs N] [--secs N] | replay FILE | determinism | survey | one");
            2
        }
    };
    std::process::exit(code);
}
