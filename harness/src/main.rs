#![allow(dead_code, unused_imports)]
mod gen;
mod props;
mod refimpl;
mod rt;
mod world;

use rt::*;
use serde_json::{json, Value};
use std::time::Instant;

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => check(&a[2], &verif),
        Some("replay") => replay(&a[2]),
        Some("list") => {
            for p in props::all() {
                println!("{} {}", p.id, p.parts.iter().map(|x| x.name()).collect::<Vec<_>>().join(","));
            }
            0
        }
        _ => {
            eprintln!("usage: vh check ID | vh replay FILE | vh list");
            2
        }
    };
    std::process::exit(code)
}

fn replay(file: &str) -> i32 {
    let Ok(s) = std::fs::read_to_string(file) else { eprintln!("cannot read {file}"); return 2 };
    let Ok(v) = serde_json::from_str::<Value>(&s) else { eprintln!("not JSON: {file}"); return 2 };
    let (id, part) = (v["property"].as_str().unwrap_or(""), v["part"].as_str().unwrap_or(""));
    for p in props::all() {
        if p.id == id {
            for d in &p.parts {
                if d.name() == part {
                    let dir = std::env::temp_dir().to_string_lossy().into_owned();
                    running::watch(id, &dir, 0, std::time::Duration::from_secs(180));
                    let mut code = 0;
                    // on a thread like the workers', with the same stack
                    std::thread::scope(|sc| {
                        std::thread::Builder::new().stack_size(64 << 20).spawn_scoped(sc, || match d.replay(&v["case"]) {
                            Err(e) => { eprintln!("{e}"); code = 2 }
                            Ok(Ok(())) => println!("replay: property {id} holds on this case"),
                            Ok(Err(f)) => { println!("replay: [{}] {}\nVIOLATION property={id} replay={file}", f.sig, f.msg); code = 1 }
                        }).unwrap();
                    });
                    return code;
                }
            }
        }
    }
    eprintln!("unknown property/part {id}/{part}");
    2
}

fn check(id: &str, verif: &str) -> i32 {
    let t0 = Instant::now();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let limit: u64 = std::env::var("VERIF_LIMIT_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == Tier::Quick { 780 } else { 4 * 3600 });
    // Watchdog: a run that does not end is an error of the check, never a violation.
    std::thread::spawn(move || {
        std::thread::sleep(std::time::Duration::from_secs(limit));
        eprintln!("watchdog: no verdict within {limit} s");
        std::process::exit(3);
    });
    let known_file: Value = std::fs::read_to_string(format!("{verif}/known_findings.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(json!({"findings": []}));
    let known: Vec<(String, String)> = known_file["findings"]
        .as_array()
        .cloned()
        .unwrap_or_default()
        .iter()
        .filter(|f| f["property"] == id)
        .map(|f| (f["signature"].as_str().unwrap_or("").to_string(), f["what"].as_str().unwrap_or("").to_string()))
        .collect();
    let Some(p) = props::all().into_iter().find(|p| p.id == id) else { eprintln!("no such property: {id}"); return 2 };
    let only = std::env::var("VERIF_PART").ok();
    let ctx = Ctx {
        prop: id.to_string(),
        tier,
        seed,
        workers: std::env::var("VERIF_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8),
        known: known.iter().map(|k| k.0.clone()).collect(),
        scale: std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse().ok()).unwrap_or(1.0),
    };
    running::watch(id, verif, seed, std::time::Duration::from_secs(180));
    let (mut evals, mut inner, mut nt, mut viol) = (0u64, 0u64, 0u64, 0u64);
    let mut labels = serde_json::Map::new();
    let mut samples = vec![];
    let mut per = serde_json::Map::new();
    let mut code = 0;
    let mut known_hits: std::collections::BTreeMap<String, u64> = Default::default();
    for part in &p.parts {
        if only.as_deref().map_or(false, |o| o != part.name()) {
            continue;
        }
        let t = Instant::now();
        let o = part.run(&ctx);
        evals += o.evals;
        inner += o.inner;
        nt += o.nontrivial.len() as u64;
        per.insert(part.name().into(), json!({"evaluations": o.evals, "distinct_nontrivial": o.nontrivial.len(), "inner_executions": o.inner, "wall_s": t.elapsed().as_secs_f64()}));
        for (k, v) in o.labels {
            labels.insert(format!("{}/{}", part.name(), k), json!(v));
        }
        samples.extend(o.samples);
        for (k, v) in o.known {
            *known_hits.entry(k).or_default() += v;
        }
        if let Some(m) = o.abort {
            eprintln!("error: part {}: {m}", part.name());
            return 3;
        }
        if let Some((sig, msg, case)) = o.failure {
            viol += 1;
            code = 1;
            let dir = format!("{verif}/replay");
            let _ = std::fs::create_dir_all(&dir);
            let path = format!("{dir}/{id}-{}.json", part.name());
            let rep = json!({"property": id, "part": part.name(), "seed": seed, "signature": sig, "message": clip(&msg, 20000), "case": case});
            if std::fs::write(&path, serde_json::to_string_pretty(&rep).unwrap()).is_err() {
                eprintln!("cannot write {path}");
            }
            println!("[{sig}] {}", clip(&msg, 4000));
            println!("VIOLATION property={id} replay={path}");
            break;
        }
    }
    for (sig, what) in &known {
        // listed findings are always reported; the count says how often this run met them
        println!("KNOWN-FINDING: property={id} {what} (signature {sig}, met {} times in this run)", known_hits.get(sig).copied().unwrap_or(0));
    }
    let ev = json!({
        "property": id,
        "tier": if tier == Tier::Quick { "quick" } else { "thorough" },
        "seed": seed,
        "level": p.level,
        "coverage": {
            "evaluations": evals,
            "distinct_nontrivial": nt,
            "rule": p.rule,
            "samples": samples,
            "inner_executions": inner,
            "labels": labels,
            "parts": per,
            "known_findings_met": known_hits,
        },
        "assumptions": p.assumptions(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": viol,
    });
    let dir = format!("{verif}/evidence");
    let _ = std::fs::create_dir_all(&dir);
    if std::fs::write(format!("{dir}/{id}.json"), serde_json::to_string_pretty(&ev).unwrap()).is_err() {
        eprintln!("cannot write evidence");
        return 3;
    }
    println!("{id}: {evals} cases, {nt} distinct non-trivial, {inner} inner executions, {:.1} s, violations: {viol}", t0.elapsed().as_secs_f64());
    code
}
