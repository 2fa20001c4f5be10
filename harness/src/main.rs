mod cpp;
mod devtools;
mod engine;
mod lib_if;
mod cg;
mod rconst;
mod reflit;
mod mach;
mod cexpr;
mod rsi;
mod gram;
mod wf;
mod native;
mod props;

use engine::*;
use serde_json::Value;
use std::path::{Path, PathBuf};

fn root() -> PathBuf {
    std::env::var("VERIF_ROOT").map(PathBuf::from).unwrap_or_else(|_| PathBuf::from("/verif"))
}
fn find(id: &str) -> Prop {
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(3)
    })
}
fn load(f: &str) -> Value {
    serde_json::from_str(&std::fs::read_to_string(f).expect("read replay file")).expect("parse replay file")
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a[i].as_str();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        Some("check") => {
            let p = find(s(2));
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut cases = if tier == "thorough" { p.thorough } else { p.quick };
            if let Some(n) = std::env::var("CMV_CASES").ok().and_then(|s| s.parse().ok()) {
                cases = n;
            }
            let args = RunArgs { id: p.id.into(), tier, seed, root: root(), cases };
            std::process::exit(check(&p, &args));
        }
        Some("worker") => {
            let p = find(s(2));
            worker(&p, s(3).parse().unwrap(), s(4).parse().unwrap(), s(5).parse().unwrap(), s(6).parse().unwrap(), Path::new(s(7)));
        }
        Some("one") => {
            let v = load(s(2));
            one(&find(v["property"].as_str().unwrap()), &v, Path::new(s(3)));
        }
        Some("replay") => {
            let v = load(s(2));
            std::process::exit(replay(&find(v["property"].as_str().unwrap()), &v, &root()));
        }
        Some("gcccheck") => devtools::gcccheck(s(2).parse().unwrap(), s(3).parse().unwrap()),
        Some("fixtures") => devtools::fixtures("/repo/tests/fixtures"),
        Some("var") => devtools::show(None, s(2)),
        Some("fn") => devtools::show(Some(s(2)), s(3)),
        _ => {
            eprintln!("usage: cmv list | check ID [quick|thorough] | replay FILE");
            std::process::exit(2);
        }
    }
}
