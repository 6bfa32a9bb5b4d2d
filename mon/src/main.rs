//! Runtime monitors for the TOON library and command line tool.

mod core;
mod docs;
mod gen_;
mod h;
mod json;
mod liberal;
mod p_api;
mod p_cli;
mod p_decode;
mod p_encode;
mod p_rel;
mod rng;
mod spec;
mod sys;
#[cfg(feature = "async")]
mod p_async;
#[cfg(feature = "wasm")]
mod p_wasm;

use crate::core::{Prop, Tier, WorkerArgs, drive, worker};
use std::path::PathBuf;

#[global_allocator]
static ALLOC: sys::MonAlloc = sys::MonAlloc;

static PROPS: &[&[Prop]] = &[
    p_encode::PROPS,
    p_decode::PROPS,
    p_api::PROPS,
    p_cli::PROPS,
    p_rel::PROPS,
    #[cfg(feature = "async")]
    p_async::PROPS,
    #[cfg(feature = "wasm")]
    p_wasm::PROPS,
];

fn find(id: &str) -> Option<&'static Prop> {
    PROPS.iter().flat_map(|p| p.iter()).find(|p| p.id == id)
}

fn root() -> PathBuf {
    std::env::var_os("MON_ROOT").map_or_else(|| PathBuf::from("/verif"), PathBuf::from)
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<u64>().ok())
        .unwrap_or(1)
}

fn tier(s: &str) -> Tier {
    if s == "thorough" { Tier::Thorough } else { Tier::Quick }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(String::as_str) {
        Some("check") if a.len() >= 3 => match find(&a[2]) {
            Some(p) => {
                let t = a.get(3).map_or(Tier::Quick, |t| tier(t));
                drive(p, t, seed(), &root(), None)
            }
            None => {
                eprintln!("unknown property {}", a[2]);
                2
            }
        },
        Some("replay") if a.len() >= 3 => {
            let text = std::fs::read_to_string(&a[2]).unwrap_or_default();
            let v: serde_json::Value = serde_json::from_str(&text).unwrap_or_default();
            match (v["property"].as_str().and_then(find), v["case"].as_u64(), v["seed"].as_u64()) {
                (Some(p), Some(case), Some(seed)) => drive(
                    p,
                    tier(v["tier"].as_str().unwrap_or("quick")),
                    seed,
                    &root(),
                    Some((case, v["after"]["from"].as_u64().zip(v["after"]["step"].as_u64()))),
                ),
                _ => {
                    eprintln!("not a replay file for this build: {}", a[2]);
                    2
                }
            }
        }
        Some("worker") if a.len() >= 10 => match find(&a[2]) {
            Some(p) => worker(
                p,
                WorkerArgs {
                    seed: a[3].parse().unwrap_or(1),
                    tier: tier(&a[4]),
                    from: a[5].parse().unwrap_or(0),
                    step: a[6].parse().unwrap_or(1),
                    to: a[7].parse().unwrap_or(0),
                    out: a[8].clone(),
                    deadline: a[9].parse().unwrap_or(60.0),
                },
            ),
            None => 2,
        },
        Some("helper") => p_api::helper(&a[2..]),
        Some("list") => {
            for p in PROPS.iter().flat_map(|p| p.iter()) {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mon check PROPERTY [quick|thorough] | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
