//! Runs seeds, collects what they found, minimises failures, writes replay and evidence files.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

use serde_json::{json, Value};

use crate::choice::{Streams, ACTOR0};
use crate::exec::{self, Exec, PANIC_MSG, SEC};
use crate::scripts;
use crate::seam;
use crate::world::{Violation, World};

pub struct Outcome {
    pub violations: Vec<Violation>,
    pub harness: Vec<String>,
    pub stats: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub ihash: u64,
    pub steps: u64,
    pub sim_ns: i64,
    pub finished: bool,
    pub log: Streams,
    pub trace: Vec<String>,
    /// Secrets handed out: kind, text, whether made after the reseeding of a twin run.
    pub secrets: Vec<(&'static str, String, bool)>,
    pub pins: Vec<String>,
    pub calls: u64,
}

/// From the n-th call on, the run draws its randomness from another seed.
pub type Reseed = Option<(u64, u64)>;

/// 2025-06-01T00:00:00Z
const EPOCH: i64 = 1_748_736_000 * SEC;
const MAX_STEPS: u64 = 400_000;

fn run_here(prop: &str, seed: u64, entropy: u64, replay: Option<Streams>, trace: bool, reseed: Reseed) -> Outcome {
    let _guard = crate::watch::enter(seed);
    seam::set_clock(EPOCH);
    seam::install(entropy);
    fastrand::seed(entropy ^ 0x5151);
    let x = Exec::new(seed, replay, EPOCH, trace);
    let mut world = World::new(x);
    world.reseed = reseed;
    exec::install(world);
    let p = scripts::profile(prop);
    let root = exec::spawn_actor(None, "root", ACTOR0 + 99, scripts::root(p));
    let finished = exec::run(root, MAX_STEPS);
    let mut w = exec::uninstall();
    seam::uninstall();
    if !finished && w.x.steps < MAX_STEPS {
        w.harness_errors.push("the root task never ended".into());
    }
    if w.x.steps >= MAX_STEPS {
        w.violate(&["C12"], "no-end", "the run does not come to an end: something keeps going round");
    }
    Outcome {
        violations: w.violations,
        harness: w.harness_errors,
        stats: w.x.stats,
        probes: w.probes,
        ihash: w.x.ihash,
        steps: w.x.steps,
        sim_ns: w.x.now - w.x.start,
        finished,
        calls: w.begun,
        log: w.x.ch.log,
        trace: w.x.trace,
        secrets: w.secret_log,
        pins: w.pins,
    }
}

/// One run, on a thread of its own (thread-local state of the code under test starts fresh).
pub fn run(prop: &str, seed: u64, entropy: u64, replay: Option<Streams>, trace: bool) -> Outcome {
    run_with(prop, seed, entropy, replay, trace, None)
}

pub fn run_with(
    prop: &str, seed: u64, entropy: u64, replay: Option<Streams>, trace: bool, reseed: Reseed,
) -> Outcome {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn_scoped(s, || run_here(prop, seed, entropy, replay, trace, reseed))
            .expect("thread")
            .join()
            .unwrap_or_else(|_| Outcome {
                violations: vec![],
                harness: vec!["the simulator itself panicked".into()],
                stats: BTreeMap::new(),
                probes: BTreeMap::new(),
                ihash: 0,
                steps: 0,
                sim_ns: 0,
                finished: false,
                log: Streams::new(),
                trace: vec![],
                secrets: vec![],
                pins: vec![],
                calls: 0,
            })
    })
}

pub fn entropy_of(seed: u64) -> u64 {
    let mut s = seed ^ 0xabcd_ef01_2345_6789;
    seam::mix(&mut s)
}

pub fn seed_of(base: u64, n: u64) -> u64 {
    let mut s = base.wrapping_mul(0x9e37_79b9).wrapping_add(n);
    seam::mix(&mut s) >> 1
}

fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| (*s).to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let text = format!("{loc}:: {msg}");
        if std::env::var_os("VSIM_PANICS").is_some() {
            eprintln!("panic {text}");
        }
        PANIC_MSG.with(|m| *m.borrow_mut() = Some(text));
    }));
}

#[derive(Default)]
pub struct Tally {
    pub runs: u64,
    pub steps: u64,
    pub sim_ns: i128,
    pub stats: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hashes: BTreeSet<u64>,
    pub nontrivial: BTreeSet<u64>,
    pub known: BTreeMap<String, u64>,
    pub harness: Vec<(u64, String)>,
    pub found: Vec<(u64, Violation, Streams)>,
    pub others: BTreeMap<String, u64>,
    pub secrets: Vec<(&'static str, String)>,
    pub pins: Vec<String>,
    pub twins: u64,
    /// Twin runs that handed out a secret of the first again: seed, reseeding, secret.
    pub foreseen: Vec<(u64, Reseed, String, Streams)>,
}

/// Of how many runs, the first ones, the secrets are laid side by side.
pub const POOLED: u64 = 40_000;

fn absorb(t: &mut Tally, prop: &str, k: u64, seed: u64, o: Outcome) {
    t.runs += 1;
    t.steps += o.steps;
    t.sim_ns += i128::from(o.sim_ns);
    for (k, v) in &o.stats {
        *t.stats.entry((*k).to_string()).or_default() += v;
    }
    for (k, v) in &o.probes {
        *t.probes.entry((*k).to_string()).or_default() += v;
    }
    t.hashes.insert(o.ihash);
    if o.stats.get("calls.ok").copied().unwrap_or(0) >= 5 {
        t.nontrivial.insert(o.ihash);
    }
    for h in o.harness {
        t.harness.push((seed, h));
    }
    if prop == "C15" && k < POOLED {
        t.secrets.extend(o.secrets.into_iter().map(|(k, s, _)| (k, s)));
        t.pins.extend(o.pins);
    }
    let mut first = true;
    for v in o.violations {
        if !v.props.contains(&prop) {
            *t.others.entry(format!("{:?} {}", v.props, v.class)).or_default() += 1;
            continue;
        }
        match v.known {
            Some(k) => *t.known.entry(k.to_string()).or_default() += 1,
            None => {
                if first {
                    t.found.push((seed, v, o.log.clone()));
                    first = false;
                }
            }
        }
    }
}

/// Searches `n` seeds with up to 8 workers; stops early once something was found.
pub fn search(prop: &str, base: u64, n: u64, budget: Duration) -> Tally {
    let tally = Mutex::new(Tally::default());
    let next = AtomicU64::new(0);
    let stop = AtomicBool::new(false);
    let begun = Instant::now();
    let workers = std::env::var("VSIM_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8);
    std::thread::scope(|s| {
        for _ in 0..workers {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n || stop.load(Ordering::Relaxed) || begun.elapsed() > budget {
                    return;
                }
                let seed = seed_of(base, k);
                let o = run(prop, seed, entropy_of(seed), None, false);
                let twin = (prop == "C15" && k % 4 == 0).then(|| {
                    let at = seed / 7 % (o.calls + 1);
                    let r = Some((at, entropy_of(seed ^ 0x77)));
                    (r, foreseen(prop, seed, &o.log, r), o.log.clone())
                });
                let mut t = tally.lock().unwrap();
                absorb(&mut t, prop, k, seed, o);
                if let Some((r, f, log)) = twin {
                    t.twins += 1;
                    if let Some(s) = f {
                        t.foreseen.push((seed, r, s, log));
                    }
                }
                if t.found.len() >= 3 || t.foreseen.len() >= 3 {
                    stop.store(true, Ordering::Relaxed);
                }
            });
        }
    });
    tally.into_inner().unwrap()
}

/// Runs the same schedule twice, the second time with other randomness from some call on: a secret made after that
/// point and yet equal to one of the first run does not come from randomness.
pub fn foreseen(prop: &str, seed: u64, log: &Streams, r: Reseed) -> Option<String> {
    let a = run_with(prop, seed, entropy_of(seed), Some(log.clone()), false, None);
    let b = run_with(prop, seed, entropy_of(seed), Some(log.clone()), false, r);
    let seen: BTreeSet<&String> = a.secrets.iter().map(|s| &s.1).collect();
    b.secrets.iter().find(|s| s.2 && seen.contains(&s.1)).map(|s| format!("{} {}", s.0, s.1))
}

// ---------------------------------------------------------------------------------------------------------------
// minimisation

fn reproduces(prop: &str, seed: u64, s: &Streams, class: &str) -> bool {
    let o = run(prop, seed, entropy_of(seed), Some(s.clone()), false);
    o.violations.iter().any(|v| v.known.is_none() && v.class == class && v.props.contains(&prop))
}

fn weight(s: &Streams) -> u64 {
    s.values().flat_map(|v| v.iter()).filter(|x| **x != 0).count() as u64
}

fn minimise(log: &Streams, budget: Duration, reproduces: impl Fn(&Streams) -> bool) -> Streams {
    let begun = Instant::now();
    let mut best = log.clone();
    if !reproduces(&best) {
        return best;
    }
    let keys: Vec<u32> = best.keys().rev().copied().collect();
    // whole streams
    for k in &keys {
        let mut t = best.clone();
        t.insert(*k, vec![]);
        if reproduces(&t) {
            best = t;
        }
    }
    let mut chunk = 64usize;
    while chunk >= 1 && begun.elapsed() < budget {
        for k in &keys {
            // shorten
            loop {
                let len = best[k].len();
                if len == 0 || begun.elapsed() > budget {
                    break;
                }
                let mut t = best.clone();
                t.get_mut(k).unwrap().truncate(len.saturating_sub(chunk));
                if reproduces(&t) {
                    best = t;
                } else {
                    break;
                }
            }
            let mut i = 0;
            while i < best[k].len() && begun.elapsed() < budget {
                let j = (i + chunk).min(best[k].len());
                if best[k][i..j].iter().any(|x| *x != 0) {
                    let mut t = best.clone();
                    for x in &mut t.get_mut(k).unwrap()[i..j] {
                        *x = 0;
                    }
                    if reproduces(&t) {
                        best = t;
                    }
                }
                i = j;
            }
        }
        chunk /= 4;
    }
    best.retain(|_, v| {
        while v.last() == Some(&0) {
            v.pop();
        }
        !v.is_empty()
    });
    best
}

fn replay_dir() -> String {
    std::env::var("VERIF_REPLAYS").unwrap_or_else(|_| "/verif/replays".into())
}

fn report(prop: &str, seed: u64, v: &Violation, log: &Streams, budget: Duration) -> String {
    let min = minimise(log, budget, |s| reproduces(prop, seed, s, &v.class));
    let o = run(prop, seed, entropy_of(seed), Some(min.clone()), true);
    let shown = o.violations.iter().find(|x| x.known.is_none() && x.class == v.class && x.props.contains(&prop));
    let (streams, o) = match shown {
        Some(_) => (min, o),
        None => (log.clone(), run(prop, seed, entropy_of(seed), Some(log.clone()), true)),
    };
    let detail = o
        .violations
        .iter()
        .find(|x| x.class == v.class && x.props.contains(&prop))
        .map_or(v.detail.clone(), |x| x.detail.clone());
    println!("seed {seed}: {}: {detail}", v.class);
    write_replay(prop, &seed.to_string(), &json!({
        "property": prop, "seed": seed, "entropy": entropy_of(seed), "class": v.class, "detail": detail,
        "choices_left": weight(&streams), "choices_before": weight(log),
        "streams": doc_streams(&streams), "trace": o.trace,
    }))
}

fn doc_streams(s: &Streams) -> Value {
    json!(s.iter().map(|(k, v)| (k.to_string(), json!(v))).collect::<serde_json::Map<String, Value>>())
}

/// Minimises and writes a twin pair.
pub fn report_twin(prop: &str, seed: u64, r: Reseed, log: &Streams, budget: Duration) -> String {
    let min = minimise(log, budget, |s| foreseen(prop, seed, s, r).is_some());
    let detail = foreseen(prop, seed, &min, r).unwrap_or_default();
    let o = run_with(prop, seed, entropy_of(seed), Some(min.clone()), true, r);
    println!("seed {seed}: the same {detail} whatever the randomness");
    write_replay(prop, &format!("{seed}-twin"), &json!({
        "property": prop, "kind": "twin", "seed": seed, "at": r.map(|r| r.0), "other": r.map(|r| r.1),
        "detail": detail, "streams": doc_streams(&min), "trace": o.trace,
    }))
}

pub fn write_replay(prop: &str, name: &str, doc: &Value) -> String {
    let dir = replay_dir();
    let _ = std::fs::create_dir_all(&dir);
    let path = format!("{dir}/{prop}-{name}.json");
    let _ = std::fs::write(&path, serde_json::to_string_pretty(doc).unwrap_or_default());
    path
}

// ---------------------------------------------------------------------------------------------------------------

pub fn main() -> i32 {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let arg = |n: usize| args.get(n).cloned().unwrap_or_default();
    match arg(1).as_str() {
        "check" if std::env::var_os("VSIM_CUR").is_none() => crate::watch::supervise(&arg(2), &arg(3)),
        "check" => {
            crate::watch::start(&arg(2));
            crate::evidence::check(&arg(2), &arg(3))
        }
        "run" => {
            let seed: u64 = arg(3).parse().unwrap_or(1);
            let o = run(&arg(2), seed, entropy_of(seed), None, true);
            for l in &o.trace {
                println!("{l}");
            }
            println!("{} steps, {} s simulated, hash {:016x}", o.steps, o.sim_ns / SEC, o.ihash);
            println!("stats {:?}\nprobes {:?}", o.stats, o.probes);
            for v in &o.violations {
                println!("{v:?}");
            }
            for h in &o.harness {
                println!("HARNESS {h}");
            }
            0
        }
        "survey" => {
            // all violations of any property, by class, with a seed each
            let (prop, base, n) = (arg(2), arg(3).parse().unwrap_or(1), arg(4).parse().unwrap_or(100u64));
            survey(&prop, base, n)
        }
        "replay" => replay(&arg(2)),
        "secrets" => {
            // what a fresh process hands out on the first schedules of a base, drawing randomness of its own
            let (base, other): (u64, u64) = (arg(2).parse().unwrap_or(1), arg(3).parse().unwrap_or(1));
            for k in 0..40 {
                let seed = seed_of(base, k);
                for (kind, s, _) in run("C15", seed, entropy_of(seed ^ other), None, false).secrets {
                    println!("{s} {kind}");
                }
            }
            0
        }
        "kill" => kill(arg(2).parse().unwrap_or(2000), &arg(3)),
        "determinism" => determinism(arg(2).parse().unwrap_or(50)),
        _ => {
            eprintln!("vsim check <property> <tier> | replay <file> | run <property> <seed> | survey | determinism");
            2
        }
    }
}

/// For mutation campaigns: which properties' checks notice, in passes over all of them, the first pass being short.
fn kill(n: u64, skip: &str) -> i32 {
    let mut done = 0;
    for part in [n / 20, n / 4, n] {
        let mut by = vec![];
        for k in 1..=16 {
            let prop = format!("C{k:02}");
            if skip.contains(&prop) {
                continue;
            }
            let t = search(&prop, 5000 + done, part.max(8), Duration::from_secs(600));
            if let Some((seed, v, _)) = t.found.first() {
                by.push(format!("{prop} ({} seed {seed})", v.class));
            } else if !t.harness.is_empty() {
                by.push(format!("{prop} (HARNESS {})", t.harness[0].1.chars().take(80).collect::<String>()));
            }
        }
        done += 1;
        if !by.is_empty() {
            println!("KILLED pass {done} {}", by.join("; "));
            return 0;
        }
    }
    println!("SURVIVED");
    0
}

fn survey(prop: &str, base: u64, n: u64) -> i32 {
    let begun = Instant::now();
    let all: Mutex<BTreeMap<String, (u64, u64, String)>> = Mutex::new(BTreeMap::new());
    let tally = Mutex::new(Tally::default());
    let next = AtomicU64::new(0);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let k = next.fetch_add(1, Ordering::Relaxed);
                if k >= n {
                    return;
                }
                let seed = seed_of(base, k);
                let o = run(prop, seed, entropy_of(seed), None, false);
                let mut m = all.lock().unwrap();
                for v in &o.violations {
                    let key = format!("{}{:?} {}", if v.known.is_some() { "known " } else { "" }, v.props, v.class);
                    let e = m.entry(key).or_insert((0, seed, v.detail.clone()));
                    e.0 += 1;
                }
                for h in &o.harness {
                    let e = m.entry(format!("HARNESS {h}")).or_insert((0, seed, String::new()));
                    e.0 += 1;
                }
                drop(m);
                absorb(&mut tally.lock().unwrap(), prop, k, seed, o);
            });
        }
    });
    for (k, (n, seed, d)) in all.into_inner().unwrap() {
        println!("{n:6} {k}\n         seed {seed}: {}", d.chars().take(600).collect::<String>());
    }
    let t = tally.into_inner().unwrap();
    println!(
        "{} runs in {:.1} s, {} steps, {} distinct, stats {:?}\nprobes {:?}",
        t.runs,
        begun.elapsed().as_secs_f64(),
        t.steps,
        t.hashes.len(),
        t.stats,
        t.probes
    );
    0
}

fn replay(path: &str) -> i32 {
    let Some(v) = std::fs::read(path).ok().and_then(|b| serde_json::from_slice::<Value>(&b).ok()) else {
        eprintln!("cannot read {path}");
        return 2;
    };
    let prop = v["property"].as_str().unwrap_or_default().to_string();
    let class = v["class"].as_str().unwrap_or_default().to_string();
    let seed = v["seed"].as_u64().unwrap_or_default();
    let entropy = v["entropy"].as_u64().unwrap_or_default();
    let streams: Streams = v["streams"]
        .as_object()
        .into_iter()
        .flatten()
        .filter_map(|(k, v)| Some((k.parse().ok()?, v.as_array()?.iter().filter_map(|x| x.as_u64().map(|x| x as u32)).collect())))
        .collect();
    match v["kind"].as_str() {
        Some("twin") => {
            let r = v["at"].as_u64().zip(v["other"].as_u64());
            return shown(&prop, path, foreseen(&prop, seed, &streams, r));
        }
        Some("batch") => {
            let t = search(&prop, v["base"].as_u64().unwrap_or(1), v["runs"].as_u64().unwrap_or(1), Duration::from_secs(3000));
            return shown(&prop, path, crate::pool::flaws(&t).into_iter().find(|f| f.0 == class).map(|f| f.1));
        }
        Some("hang" | "abort") => return shown(&prop, path, crate::watch::apart(&prop, seed)),
        Some("restart") => return shown(&prop, path, crate::pool::restart(v["base"].as_u64().unwrap_or(1))),
        _ => {}
    }
    let o = run(&prop, seed, entropy, Some(streams), true);
    for l in &o.trace {
        println!("{l}");
    }
    match o.violations.iter().find(|x| x.known.is_none() && x.class == class && x.props.iter().any(|p| *p == prop)) {
        Some(x) => {
            println!("VIOLATION property={prop} replay={path}\n{}: {}", x.class, x.detail);
            let same = v["trace"].as_array().is_some_and(|t| t.iter().map(|x| x.as_str().unwrap_or_default()).eq(o.trace.iter()));
            println!("trace identical to the recorded one: {same}");
            1
        }
        None => {
            println!("not reproduced on this tree");
            0
        }
    }
}

fn shown(prop: &str, path: &str, found: Option<String>) -> i32 {
    match found {
        Some(d) => {
            println!("VIOLATION property={prop} replay={path}\n{d}");
            1
        }
        None => {
            println!("not reproduced on this tree");
            0
        }
    }
}

fn determinism(n: u64) -> i32 {
    let mut bad = 0;
    for k in 0..n {
        let prop = format!("C{:02}", 1 + k % 16);
        let seed = seed_of(77, k);
        let a = run(&prop, seed, entropy_of(seed), None, true);
        let b = run(&prop, seed, entropy_of(seed), None, true);
        let c = run(&prop, seed, entropy_of(seed), Some(a.log.clone()), true);
        if a.trace != b.trace || a.trace != c.trace || a.log != b.log || a.steps != c.steps {
            bad += 1;
            let i = a.trace.iter().zip(&b.trace).position(|(x, y)| x != y);
            println!("seed {seed} ({prop}) differs at {i:?}");
            if let Some(i) = i {
                println!("  {}\n  {}", a.trace[i], b.trace[i]);
            }
        }
    }
    println!("{n} seeds, {bad} not reproduced exactly");
    i32::from(bad > 0)
}

pub fn found_line(prop: &str, t: &Tally, budget: Duration) -> Option<String> {
    let (seed, v, log) = t.found.iter().min_by_key(|(_, _, l)| l.values().map(Vec::len).sum::<usize>())?;
    Some(report(prop, *seed, v, log, budget))
}
