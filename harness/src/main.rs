mod gen;
mod geo;
mod guard;
mod props;
mod query;
mod runner;
mod src;

use runner::*;
use serde_json::{json, Value};

fn arg(args: &[String], name: &str) -> Option<String> {
    args.iter()
        .position(|a| a == name)
        .and_then(|i| args.get(i + 1).cloned())
}

/// Exact known findings: `{"property": .., "case": .., "what": ..}` entries of known_findings.json.
fn known(root: &str, id: &str) -> Vec<(String, String)> {
    let path = format!("{root}/known_findings.json");
    let Ok(text) = std::fs::read_to_string(&path) else {
        return vec![];
    };
    let v: Value = serde_json::from_str(&text).unwrap_or_else(|e| {
        println!("ERROR {path}: {e}");
        std::process::exit(2)
    });
    v["findings"]
        .as_array()
        .map(|a| {
            a.iter()
                .filter(|f| f["property"] == id)
                .map(|f| {
                    (
                        f["signature"].as_str().unwrap_or("").to_string(),
                        f["what"].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

fn captured_if<R>(p: &Prop, f: impl FnOnce() -> R) -> R {
    if p.id == "C20" {
        captured(f)
    } else {
        f()
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let root = arg(&args, "--root").unwrap_or_else(|| "/verif".into());
    install_panic_hook();
    let props = props::all();
    match args.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in props {
                println!("{}", p.id);
            }
        }
        Some("run") => std::process::exit(guard::run(&args, &root)),
        Some("judge-one") => {
            // internal: judges the words of a file in a process of its own
            let p = *props.iter().find(|p| p.id == args[1]).expect("property id");
            let words = guard::read_words(&args[2]);
            let mut ctx = Ctx {
                want_desc: true,
                ..Ctx::default()
            };
            guard::describe_to(&args[3]);
            guard::limit_memory(4 << 30);
            let _ = captured_if(p, || judge(p, &words, &mut ctx));
            props::tiles::clean();
        }
        Some("run-inner") => {
            let id = args.get(1).expect("property id");
            let p = *props.iter().find(|p| p.id == id).unwrap_or_else(|| {
                println!("ERROR no property {id}");
                std::process::exit(2)
            });
            let tier = arg(&args, "--tier").unwrap_or("quick".into());
            let seed: u64 = arg(&args, "--seed")
                .and_then(|s| s.parse().ok())
                .unwrap_or(1);
            let cases = arg(&args, "--cases")
                .and_then(|s| s.parse().ok())
                .unwrap_or(if tier == "thorough" { p.thorough } else { p.quick });
            let t0 = std::time::Instant::now();
            if let Some(path) = arg(&args, "--slots") {
                guard::attach(&path, p.words);
                guard::limit_memory(16 << 30);
            }
            let (stats, failure) = captured_if(p, || run(p, seed, cases));
            props::tiles::clean();
            let wall = t0.elapsed().as_secs_f64();
            if std::env::var_os("VERIF_CALIBRATE").is_some() {
                for (l, (x, d)) in &stats.maxima {
                    eprintln!("max {l} = {x:.3}  {d}");
                }
                for (l, n) in &stats.labels {
                    eprintln!("  {l}: {n} ({:.2}%)", 100.0 * *n as f64 / stats.evaluations as f64);
                }
            }
            let evidence = json!({
                "property": p.id,
                "tier": tier,
                "seed": seed,
                "level": "exploration",
                "coverage": {
                    "evaluations": stats.evaluations,
                    "distinct_nontrivial": stats.nontrivial.len(),
                    "rule": p.rule,
                    "samples": stats.samples,
                    "classes": stats.labels,
                },
                "assumptions": p.assumptions,
                "wall_s": (wall * 1000.0).round() / 1000.0,
                "violations": failure.is_some() as u32,
            });
            let dir = format!("{root}/evidence");
            std::fs::create_dir_all(&dir).expect("evidence dir");
            std::fs::write(
                format!("{dir}/{}.json", p.id),
                serde_json::to_string_pretty(&evidence).unwrap() + "\n",
            )
            .expect("write evidence");
            println!(
                "property={} tier={tier} seed={seed} evaluations={} distinct_nontrivial={} wall_s={wall:.1}",
                p.id,
                stats.evaluations,
                stats.nontrivial.len()
            );
            for (_, what) in known(&root, p.id) {
                println!("KNOWN-FINDING: property={} {what}", p.id);
            }
            if let Some(f) = failure {
                let dir = format!("{root}/evidence/replay");
                std::fs::create_dir_all(&dir).expect("replay dir");
                let path = format!("{dir}/{}.json", p.id);
                let replay = json!({
                    "property": p.id,
                    "case": f.case,
                    "message": f.message,
                    "words": f.words,
                    "seed": seed,
                    "how": "harness replay <this file> re-runs the case against /repo",
                });
                std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n")
                    .expect("write replay");
                println!("case: {}", f.case);
                println!("why: {}", f.message);
                println!("VIOLATION property={} replay={path}", p.id);
                std::process::exit(1);
            }
        }
        Some("guided") => {
            // guided ID RUNS SECONDS CRASH..: accounts for a coverage-guided search, judging again
            // the inputs on which it stopped
            let id = &args[1];
            let p = *props.iter().find(|p| p.id == id).expect("property id");
            let path = format!("{root}/evidence/{id}.json");
            let mut evidence: Value =
                serde_json::from_str(&std::fs::read_to_string(&path).expect("evidence")).expect("json");
            evidence["coverage"]["guided_evaluations"] = json!(args[2].parse::<u64>().unwrap_or(0));
            evidence["coverage"]["guided_wall_s"] = json!(args[3].parse::<u64>().unwrap_or(0));
            println!("property={id} guided search: evaluations={} wall_s={}", args[2], args[3]);
            let mut code = 0;
            for file in args[4..].iter().take_while(|a| !a.starts_with("--")) {
                let bytes = std::fs::read(file).expect("input");
                let words = guard::of_bytes(&bytes);
                let (words, case, why) = match guard::dies(id, &words) {
                    Some((case, why)) => (words, case, why),
                    None => {
                        let words = runner::shrink(p, words);
                        let mut ctx = Ctx {
                            want_desc: true,
                            ..Ctx::default()
                        };
                        match judge(p, &words, &mut ctx) {
                            Ok(()) => continue,
                            Err(why) => (words, ctx.desc, why),
                        }
                    }
                };
                let dir = format!("{root}/evidence/replay");
                std::fs::create_dir_all(&dir).expect("replay dir");
                let path = format!("{dir}/{id}.json");
                let replay = json!({
                    "property": id,
                    "case": case,
                    "message": why,
                    "words": words,
                    "how": "harness replay <this file> re-runs the case against /repo",
                });
                std::fs::write(&path, serde_json::to_string_pretty(&replay).unwrap() + "\n")
                    .expect("write replay");
                println!("case: {case}");
                println!("why: {why}");
                println!("VIOLATION property={id} replay={path}");
                evidence["violations"] = json!(1);
                code = 1;
                break;
            }
            props::tiles::clean();
            std::fs::write(&path, serde_json::to_string_pretty(&evidence).unwrap() + "\n")
                .expect("write evidence");
            std::process::exit(code);
        }
        Some("replay") => {
            let path = args.get(1).expect("replay file");
            let v: Value =
                serde_json::from_str(&std::fs::read_to_string(path).expect("replay file"))
                    .expect("json");
            let id = v["property"].as_str().expect("property");
            let p = *props.iter().find(|p| p.id == id).expect("known property");
            let words: Vec<u32> = v["words"]
                .as_array()
                .expect("words")
                .iter()
                .map(|w| w.as_u64().unwrap() as u32)
                .collect();
            println!("case: {}", v["case"].as_str().unwrap_or(""));
            if let Some((_, why)) = guard::dies(id, &words) {
                println!("why: {why}");
                println!("VIOLATION property={id} replay={path}");
                std::process::exit(1);
            }
            let mut ctx = Ctx::default();
            let mut verdict = Ok(());
            for _ in 0..runner::RETRIES {
                ctx = Ctx {
                    want_desc: true,
                    ..Ctx::default()
                };
                verdict = captured_if(p, || judge(p, &words, &mut ctx));
                if verdict.is_err() {
                    break;
                }
            }
            props::tiles::clean();
            println!("case: {}", ctx.desc);
            match verdict {
                Ok(()) => println!("the property holds for this case"),
                Err(m) => {
                    println!("why: {m}");
                    println!("VIOLATION property={id} replay={path}");
                    std::process::exit(1);
                }
            }
        }
        _ => {
            println!("usage: harness list | run <ID> [--tier quick|thorough] [--seed N] [--root DIR] | replay <FILE>");
            std::process::exit(2);
        }
    }
}
