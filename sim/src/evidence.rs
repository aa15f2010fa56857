//! The check of one property: search, report, evidence.

use std::collections::BTreeMap;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::exec::SEC;
use crate::runner::{self, Tally};

fn env(k: &str) -> Option<String> {
    std::env::var(k).ok().filter(|s| !s.is_empty())
}

/// Simulated runs of the quick check.
fn quick_runs(prop: &str) -> u64 {
    match prop {
        "C10" => 12_000,
        "C15" => 24_000,
        _ => 30_000,
    }
}

/// Listed findings of a property: id and text.
fn listed(prop: &str) -> Vec<(String, String)> {
    let path = env("VERIF_FINDINGS").unwrap_or_else(|| "/verif/KNOWN_FINDINGS.txt".into());
    let text = std::fs::read_to_string(path).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix("known: property="))
        .filter_map(|l| {
            let (p, rest) = l.split_once(' ')?;
            let (id, what) = rest.strip_prefix("id=")?.split_once(' ')?;
            (p == prop).then(|| (id.to_string(), what.to_string()))
        })
        .collect()
}

fn sample(prop: &str, seed: u64) -> Value {
    let o = runner::run(prop, seed, runner::entropy_of(seed), None, true);
    let n = o.trace.len();
    let lines: Vec<String> = o.trace.iter().take(25).map(|l| l.chars().take(240).collect()).collect();
    json!({
        "seed": seed, "steps": o.steps, "simulated_s": o.sim_ns / SEC, "events": n,
        "interleaving": format!("{:016x}", o.ihash), "counts": o.stats, "probes": o.probes, "first_events": lines
    })
}

fn write(prop: &str, tier: &str, base: u64, t: &Tally, wall: f64, violations: u64, extra: Value) {
    let faults: BTreeMap<&str, u64> =
        t.stats.iter().filter_map(|(k, v)| k.strip_prefix("fault.").map(|k| (k, *v))).collect();
    let other: BTreeMap<&str, u64> =
        t.stats.iter().filter(|(k, _)| !k.starts_with("fault.")).map(|(k, v)| (k.as_str(), *v)).collect();
    let samples: Vec<Value> = (0..2).map(|k| sample(prop, runner::seed_of(base, k))).collect();
    let per_hour = |n: u64| (n as f64 / wall.max(0.001) * 3600.0) as u64;
    let mut coverage = json!({
        "evaluations": t.runs,
        "distinct_nontrivial": t.nontrivial.len(),
        "rule": "one evaluation is one simulated run from one seed; distinct: its interleaving hash (every scheduling \
                 decision, provider call, node and endpoint entered, in order) was not seen before; non-trivial: at \
                 least five endpoint calls (or generated messages) succeeded in it",
        "distinct_interleavings": t.hashes.len(),
        "runs_per_hour": per_hour(t.runs),
        "seeds_per_hour": per_hour(t.runs),
        "steps": t.steps,
        "simulated_hours": (t.sim_ns / i128::from(SEC)) as f64 / 3600.0,
        "faults_injected": faults,
        "events": other,
        "reached": t.probes,
        "known_findings_seen": t.known,
        "real_code": "vercre-issuer, vercre-verifier, vercre-holder, vercre-openid, vercre-core, vercre-dif-exch, \
                      vercre-w3c-vc, vercre-iso-mdl, vercre-status, vercre-macros, all from /repo's working tree",
        "stubs": "network, state stores, subject data, metadata, key stores and DID documents (the provider traits); \
                  vercre-did, vercre-infosec (JOSE over ed25519), coset, uuid, qrcode/image, derive_builder stand-ins",
        "samples": samples
    });
    if let (Some(c), Some(e)) = (coverage.as_object_mut(), extra.as_object()) {
        c.extend(e.clone());
    }
    let doc = json!({
        "property": prop, "tier": tier, "seed": base, "level": "exploration", "coverage": coverage,
        "assumptions": [
            "the stand-ins for crates missing in this sandbox behave as the originals where the libraries use them",
            "a state store is linearizable per operation and offers no atomic take (known findings cover the races)",
            "a clean batch is evidence from sampled schedules, not a proof"
        ],
        "wall_s": (wall * 10.0).round() / 10.0, "violations": violations
    });
    let dir = env("VERIF_EVIDENCE").unwrap_or_else(|| "/verif/evidence".into());
    let _ = std::fs::create_dir_all(&dir);
    let _ = std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&doc).unwrap_or_default());
}

pub fn check(prop: &str, tier: &str) -> i32 {
    let tier = if tier == "thorough" { "thorough" } else { "quick" };
    let base: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let (n, secs) = match tier {
        "thorough" => (20_000_000, 3000),
        _ => (quick_runs(prop), 300),
    };
    let n = env("VERIF_RUNS").and_then(|s| s.parse().ok()).unwrap_or(n);
    let secs = env("VERIF_BUDGET_S").and_then(|s| s.parse().ok()).unwrap_or(secs);
    let begun = Instant::now();
    println!("{prop} {tier}: seed {base}, up to {n} runs");
    let t = runner::search(prop, base, n, Duration::from_secs(secs));
    let wall = begun.elapsed().as_secs_f64();
    let mut found = vec![];
    if let Some(path) = runner::found_line(prop, &t, Duration::from_secs(60)) {
        found.push(path);
    }
    let (extra, more) = crate::pool::judge(prop, base, &t);
    found.extend(more);
    write(prop, tier, base, &t, wall, found.len() as u64, extra);
    println!(
        "{} runs, {} distinct interleavings, {} steps, {:.1} simulated hours in {wall:.1} s; faults {:?}",
        t.runs,
        t.hashes.len(),
        t.steps,
        (t.sim_ns / i128::from(SEC)) as f64 / 3600.0,
        t.stats.iter().filter(|(k, _)| k.starts_with("fault.")).collect::<Vec<_>>()
    );
    for (id, what) in listed(prop) {
        println!("KNOWN-FINDING: property={prop} {id}: {what} (seen {} times)", t.known.get(&id).copied().unwrap_or(0));
    }
    if !found.is_empty() {
        for f in &found {
            println!("VIOLATION property={prop} replay={f}");
        }
        return 1;
    }
    // a finding the file does not list is not excused
    if let Some(k) = t.known.keys().find(|k| !listed(prop).iter().any(|(id, _)| id == *k)) {
        println!("harness: {k} is not a listed finding of {prop}");
        return 2;
    }
    if !t.harness.is_empty() {
        for (s, h) in t.harness.iter().take(10) {
            println!("harness error, seed {s}: {h}");
        }
        return 2;
    }
    println!("{prop} held on everything explored");
    0
}
