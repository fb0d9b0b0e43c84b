mod conv;
#[macro_use]
mod core;
mod props;
mod watch;

use crate::core::*;
use std::path::Path;

fn usage() -> ! {
    eprintln!("mon check PROP [--tier quick|thorough] [--seed N] [--cases N] | mon replay FILE | mon list");
    std::process::exit(2)
}

fn tier(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn find(id: &str) -> &'static Prop {
    props::ALL.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no property {}", id);
        std::process::exit(2)
    })
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id)
            }
            0
        }
        Some("check") => {
            let p = find(a.get(2).unwrap_or_else(|| usage()));
            let mut t = tier(&std::env::var("VERIF_TIER").unwrap_or_default());
            let mut seed: u64 =
                std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let mut cases = None;
            let mut it = a[3..].iter();
            while let Some(x) = it.next() {
                let v = it.next().unwrap_or_else(|| usage());
                match x.as_str() {
                    "--tier" => t = tier(v),
                    "--seed" => seed = v.parse().unwrap_or_else(|_| usage()),
                    "--cases" => cases = Some(v.parse().unwrap_or_else(|_| usage())),
                    _ => usage(),
                }
            }
            check(p, seed, t, cases, &|o| props::extra(p.id, o))
        }
        Some("worker") if a.len() >= 9 => {
            let p = find(&a[2]);
            let n = |i: usize| a[i].parse::<u64>().unwrap_or_else(|_| usage());
            worker(
                p,
                n(3),
                tier(&a[4]),
                n(5) as usize,
                n(6) as usize,
                n(7),
                Path::new(&a[8]),
                a.get(9).map(|s| s.parse().unwrap_or_else(|_| usage())),
            )
        }
        Some("watch-test") => {
            println!("{:?}", watch::works(Path::new("/tmp/mon-wt")));
            0
        }
        Some("child") => props::host::child(&a[2..]),
        Some("answers") if a.len() >= 4 => {
            let n = |i: usize| a[i].parse::<u64>().unwrap_or_else(|_| usage());
            props::again::answers(n(2), n(3))
        }
        Some("deep") if a.len() >= 3 => props::deep(&a[2]),
        Some("replay") if a.len() >= 3 => {
            let s = std::fs::read_to_string(&a[2]).expect("replay file");
            let v: serde_json::Value = serde_json::from_str(&s).expect("replay file");
            let p = find(v["property"].as_str().expect("property"));
            let t = tier(v["tier"].as_str().unwrap_or(""));
            let seed = v["seed"].as_u64().expect("seed");
            let case = v["case"].as_u64().expect("case");
            let o = run_all(p, seed, t, 0, Some(case));
            for (c, m, i) in &o.violations {
                println!("VIOLATION property={} case {}: {}\n  input: {}", p.id, c, m, i);
            }
            for m in &o.inconclusive {
                println!("INCONCLUSIVE {}", m)
            }
            if !o.violations.is_empty() {
                1
            } else if o.inconclusive.is_empty() {
                println!("case {} of {} holds", case, p.id);
                0
            } else {
                2
            }
        }
        _ => usage(),
    };
    std::process::exit(code)
}
