mod core;
mod fits;
mod gen;
mod oracle;
mod props_det;
mod props_fit;
mod props_hist;
mod props_json;
mod props_misc;
mod props_params;
mod props_total;
mod props_missing;
mod props_predict;
mod serve;

use crate::core::*;
use std::io::Write;
use std::time::Instant;

const LEVEL: &str = "model_checking";

fn spaces<'a>(prop: &str, thorough: bool) -> Option<Vec<Space<'a>>> {
    Some(match prop {
        "C01" => props_fit::c01(thorough),
        "C02" => props_fit::c02(thorough),
        "C03" => props_fit::c03(thorough),
        "C04" => props_missing::c04(thorough),
        "C05" => props_missing::c05(thorough),
        "C06" => props_missing::c06(thorough),
        "C07" => props_missing::c07(thorough),
        "C08" => props_predict::c08(thorough),
        "C09" => props_predict::c09(thorough),
        "C10" => props_predict::c10(thorough),
        "C11" => props_predict::c11(thorough),
        "C12" => props_predict::c12(thorough),
        "C13" => props_det::c13(thorough),
        "C14" => props_json::c14(thorough),
        "C15" => props_json::c15(thorough),
        "C16" => props_json::c16(thorough),
        "C17" => props_hist::c17(thorough),
        "C18" => props_hist::c18(thorough),
        "C19" => props_misc::c19(thorough),
        "C20" => props_misc::c20(thorough),
        "C21" => props_misc::c21(thorough),
        "C22" => props_misc::c22(thorough),
        "C23" => props_misc::c23(thorough),
        "C24" => props_misc::c24(thorough),
        "C30" => props_params::c30(thorough),
        "C31" => props_total::c31(thorough),
        _ => return None,
    })
}

fn hang(space: &str, idx: u64, secs: u64) {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let (prop, tier) = (a[1].clone(), a.get(2).cloned().unwrap_or_else(|| "quick".into()));
    let path = format!("{}/replays/{}-{}-{}.txt", verif, prop, space, idx);
    let _ = std::fs::create_dir_all(format!("{}/replays", verif));
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif));
    let msg = format!("does not finish within {} s", secs);
    let _ = std::fs::write(&path, format!("replay with: /verif/run.sh replay {} {} {} {}\n\n{}\n", prop, tier, space, idx, msg));
    let ev = serde_json::json!({"property": prop, "tier": tier, "seed": 1, "level": LEVEL,
        "coverage": {"states": 1, "transitions": 1, "traces_validated_against_impl": 1, "samples": [format!("{} {} hangs", space, idx)]},
        "wall_s": secs as f64, "violations": 1, "assumptions": []});
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif, prop), ev.to_string());
    println!("VIOLATION property={} replay={}", prop, path);
    println!("  {}", msg);
    std::process::exit(1);
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    if a.len() >= 2 && a[1] == "serve" {
        return serve::serve();
    }
    if a.len() >= 6 && a[1] == "replay" {
        // mc replay C01 quick tiny1 123
        let sp = spaces(&a[2], a[3] == "thorough").expect("property");
        let s = sp.iter().find(|s| s.name == a[4]).expect("space");
        let i: u64 = a[5].parse().unwrap();
        match guarded(s, i, &mut Stats::default()) {
            Ok(()) => println!("holds on {} {} {}", a[2], a[4], i),
            Err(e) => {
                println!("violated: {}", e);
                std::process::exit(1);
            }
        }
        return;
    }
    let prop = a.get(1).cloned().unwrap_or_default();
    let tier = a.get(2).cloned().unwrap_or_else(|| "quick".into());
    let thorough = tier == "thorough";
    let only = a.get(3).cloned();
    let Some(mut sps) = spaces(&prop, thorough) else {
        eprintln!("unknown property {}", prop);
        std::process::exit(2);
    };
    if std::env::var("MC_TRACE").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for s in sps.iter_mut() {
        s.on_hang = hang;
    }
    let t0 = Instant::now();
    let budget: u64 = std::env::var("MC_BUDGET").ok().and_then(|s| s.parse().ok()).unwrap_or(if thorough { 1500 } else { 400 });
    let mut reports = vec![];
    for s in &sps {
        if only.as_ref().map_or(false, |o| *o != s.name) {
            continue;
        }
        let r = run_space(s, t0 + secs(budget), std::env::var("MC_MAX").ok().and_then(|s| s.parse().ok()).unwrap_or(3));
        eprintln!("{} {}: {}/{} cases, {:.1}s, {} violation(s)", prop, r.name, r.done, r.size, r.secs, r.found.len());
        reports.push(r);
    }
    let _ = std::fs::remove_dir_all(std::env::temp_dir().join(format!("mc-scratch-{}", std::process::id())));
    let mut tot = Stats::default();
    let mut violations = 0;
    for r in &reports {
        tot.merge(&r.stats);
        violations += r.found.len();
    }
    for r in &reports {
        if tot.samples.len() < 6 && r.done > 0 {
            tot.samples.push(format!("space {} case {} (of {}): {}", r.name, r.done - 1, r.size, if r.found.is_empty() { "held" } else { "violated" }));
        }
    }
    let exhaustive = reports.iter().all(|r| r.done >= r.size) && reports.len() == sps.len();
    let ev = serde_json::json!({
        "property": prop,
        "tier": tier,
        "seed": std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(0),
        "level": LEVEL,
        "coverage": {
            "states": tot.states,
            "transitions": tot.transitions,
            "traces_validated_against_impl": tot.traces,
            "cases": reports.iter().map(|r| r.done).sum::<u64>(),
            "nontrivial": tot.nontrivial,
            "oracle_comparisons": tot.evaluations,
            "exhaustive": exhaustive,
            "rule": "stateless exhaustive enumeration: every index of every space below is executed on the implementation built from /repo's working tree and judged by an independent oracle; no index is sampled",
            "spaces": reports.iter().map(|r| serde_json::json!({"name": r.name, "what": r.what, "size": r.size, "explored": r.done, "seconds": r.secs})).collect::<Vec<_>>(),
            "samples": tot.samples,
        },
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violations,
        "assumptions": ["behaviour outside the bounds listed per space is not decided", "f32 rounding is covered by tolerances derived from the sums involved"],
    });
    let evdir = format!("{}/evidence", verif);
    let _ = std::fs::create_dir_all(&evdir);
    if only.is_none() {
        std::fs::write(format!("{}/{}.json", evdir, prop), serde_json::to_string_pretty(&ev).unwrap()).expect("write evidence");
    }
    let out = std::io::stdout();
    let mut out = out.lock();
    if violations > 0 {
        let rdir = format!("{}/replays", verif);
        let _ = std::fs::create_dir_all(&rdir);
        for r in &reports {
            for f in &r.found {
                let path = format!("{}/{}-{}-{}.txt", rdir, prop, f.space, f.index);
                let _ = std::fs::write(&path, format!("replay with: /verif/run.sh replay {} {} {} {}\n\n{}\n", prop, tier, f.space, f.index, f.msg));
                let _ = writeln!(out, "VIOLATION property={} replay={}", prop, path);
                let _ = writeln!(out, "  {}", f.msg.lines().next().unwrap_or(""));
            }
        }
        drop(out);
        std::process::exit(1);
    }
    let _ = writeln!(out, "OK property={} cases={} states={} transitions={}", prop, reports.iter().map(|r| r.done).sum::<u64>(), tot.states, tot.transitions);
}
