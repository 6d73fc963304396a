#![cfg_attr(not(feature = "model"), allow(dead_code, unused_imports))]
mod base;
mod cmp;
mod docgen;
mod ev;
mod heap;
mod mutate;
mod obs;
mod p_conc;
#[cfg(feature = "model")]
mod p_hand;
mod p_load;
#[cfg(feature = "model")]
mod p_model;
mod p_run;
mod p_spec;
#[cfg(feature = "vello")]
mod p_vello;
mod refm;
mod rng;
mod run;
mod schema;
mod text;

#[global_allocator]
static HEAP: heap::Counting = heap::Counting;

use std::path::{Path, PathBuf};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let mut props: Vec<run::Prop> = p_spec::props();
    props.extend(p_load::props());
    props.extend(p_run::props());
    props.extend(p_conc::props());
    #[cfg(feature = "model")]
    props.extend(p_model::props());
    #[cfg(feature = "model")]
    props.extend(p_hand::props());
    #[cfg(not(feature = "model"))]
    props.retain(|p| !["P09", "P27"].contains(&p.id));
    #[cfg(feature = "vello")]
    props.extend(p_vello::props());
    let find = |id: &str| {
        props.iter().find(|p| p.id == id).unwrap_or_else(|| {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        })
    };
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => {
            let p = find(&a[2]);
            let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
            let tier = a.get(3).cloned().unwrap_or(tier);
            let seed = std::env::var("VERIF_SEED")
                .ok()
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let root = std::env::var("VERIF_ROOT")
                .map(PathBuf::from)
                .unwrap_or_else(|_| std::env::current_dir().unwrap());
            run::parent(p, &tier, seed, &root)
        }
        Some("worker") => {
            let n = |i: usize| a[i].parse::<u64>().unwrap();
            run::worker(
                find(&a[2]),
                &a[3],
                n(4),
                n(5) as usize,
                n(6) as usize,
                n(7),
                Path::new(&a[8]),
            );
            0
        }
        Some("one") => run::one(find(&a[2]), Path::new(&a[3])),
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_slice(&std::fs::read(&a[2]).unwrap()).unwrap();
            run::one(find(v["property"].as_str().unwrap()), Path::new(&a[2]))
        }
        Some("show") => {
            // show <ID> <seed> <index of a generated case>: the case, in the form `replay` reads
            let (p, n) = (find(&a[2]), |i: usize| a[i].parse::<u64>().unwrap());
            println!("{}", run::show(p, n(3), n(4) as usize));
            0
        }
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: monitor check <ID> [tier] | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
