use std::path::PathBuf;
use std::time::Instant;

use serde_json::{json, Value};

use vharness::runner::{self, Ctx, Known, Tier};
use vharness::{alloc, props};

#[global_allocator]
static GLOBAL: alloc::Counting = alloc::Counting;

fn usage() -> ! {
    eprintln!("usage: vharness check ID --evidence FILE --replays DIR --known FILE [--leg NAME] | vharness replay ID FILE");
    std::process::exit(2)
}

fn main() {
    // On a stack like that of a runtime's threads.
    let main = std::thread::Builder::new().stack_size(runner::STACK).spawn(run).expect("spawn");
    if main.join().is_err() {
        std::process::exit(101);
    }
}

fn run() {
    runner::install_panic_hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.first().map(String::as_str) == Some("child-agent") {
        props::agent::child(&args[1..]);
    }
    let opt = |name: &str| args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned();
    let (Some(cmd), Some(id)) = (args.first(), args.get(1)) else { usage() };
    let Some(legs) = props::legs(id) else {
        eprintln!("ERROR: no such property {id}");
        std::process::exit(2)
    };
    match cmd.as_str() {
        "replay" => {
            let Some(file) = args.get(2) else { usage() };
            let v: Value = serde_json::from_slice(&std::fs::read(file).expect("read replay")).expect("parse replay");
            let leg = legs.iter().find(|l| Some(l.name()) == v["leg"].as_str()).expect("leg of the replay");
            let case = serde_json::to_vec(&v["case"]).unwrap();
            vharness::crash::arm(id, leg.name(), file, move |f| f(&case));
            match leg.replay(&v["case"]) {
                Ok(()) => println!("replay: the property holds on this case"),
                Err(f) => {
                    println!("{}: {}", leg.name(), f.msg);
                    println!("VIOLATION property={id} replay={file}");
                    std::process::exit(1)
                }
            }
        }
        "check" => {
            let t0 = Instant::now();
            let tier = match std::env::var("VERIF_TIER").as_deref() {
                Ok("thorough") => Tier::Thorough,
                _ => Tier::Quick,
            };
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
            let scale = std::env::var("VH_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0);
            let known = opt("--known")
                .and_then(|f| std::fs::read(f).ok())
                .map(|b| {
                    let v: Value = serde_json::from_slice(&b).expect("parse known findings");
                    v["findings"]
                        .as_array()
                        .map(|a| {
                            a.iter()
                                .map(|k| Known {
                                    property: k["property"].as_str().unwrap().into(),
                                    signature: k["signature"].as_str().unwrap().into(),
                                    what: k["what"].as_str().unwrap().into(),
                                })
                                .collect()
                        })
                        .unwrap_or_default()
                })
                .unwrap_or_default();
            let ctx = Ctx {
                property: id.clone(),
                tier,
                seed,
                replays: PathBuf::from(opt("--replays").unwrap_or_else(|| "replays".into())),
                known,
                scale,
            };
            let only = opt("--leg");
            let mut reports = vec![];
            let mut violation = None;
            for leg in legs {
                if only.as_deref().is_some_and(|o| o != leg.name()) {
                    continue;
                }
                let r = leg.run(&ctx);
                println!(
                    "{} {}: {} cases, {} distinct non-trivial, {:.1}s",
                    id, r.leg, r.evaluations, r.distinct_nontrivial, r.wall
                );
                if std::env::var_os("VH_LABELS").is_some() {
                    for (k, v) in &r.labels {
                        println!("    {k}: {v}");
                    }
                }
                let v = r.violation.clone();
                reports.push(r);
                if let Some(v) = v {
                    violation = Some(v);
                    break;
                }
            }
            let wall = t0.elapsed().as_secs_f64();
            let evidence = json!({
                "property": id,
                "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
                "seed": seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": reports.iter().map(|r| r.evaluations).sum::<u64>(),
                    "distinct_nontrivial": reports.iter().map(|r| r.distinct_nontrivial).sum::<u64>(),
                    "rule": reports.iter().map(|r| format!("[{}] {}", r.leg, r.rule)).collect::<Vec<_>>().join("; "),
                    "samples": reports.iter().flat_map(|r| r.samples.iter().map(|s| json!({"leg": r.leg, "case": s}))).collect::<Vec<_>>(),
                    "legs": reports.iter().map(|r| json!({
                        "leg": r.leg, "evaluations": r.evaluations, "distinct_nontrivial": r.distinct_nontrivial,
                        "classes": r.labels, "known_findings_hit": r.known, "wall_s": r.wall,
                    })).collect::<Vec<_>>(),
                },
                "assumptions": [
                    "the reference encoder/decoder and models in /verif/harness state the SPOP specification correctly",
                    "generated inputs only: absence of a violation beyond them is not established"
                ],
                "wall_s": wall,
                "violations": u64::from(violation.is_some()),
            });
            if let Some(f) = opt("--evidence") {
                if let Some(d) = PathBuf::from(&f).parent() {
                    let _ = std::fs::create_dir_all(d);
                }
                std::fs::write(&f, serde_json::to_vec_pretty(&evidence).unwrap()).expect("write evidence");
            }
            for k in ctx.known.iter().filter(|k| k.property == *id) {
                if reports.iter().any(|r| r.known.contains_key(&k.signature)) {
                    println!("KNOWN-FINDING: property={id} {}", k.what);
                }
            }
            if let Some((msg, path)) = violation {
                println!("{msg}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
        }
        _ => usage(),
    }
}
