//! Watches the runs from outside: product code that never gives control back (a loop, a lock) or that brings the
//! whole process down (stack overflow, abort, allocation failure) cannot be seen from inside a run.

use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::sync::{LazyLock, Mutex};
use std::time::{Duration, Instant};

use serde_json::json;

use crate::runner;

struct Rec {
    seed: u64,
    begun: Instant,
    /// /proc path of the thread's statistics.
    stat: String,
}

static RUNS: Mutex<Vec<Option<Rec>>> = Mutex::new(Vec::new());
/// Seeds under way, for whoever looks after the process died.
static CUR: LazyLock<Option<std::fs::File>> =
    LazyLock::new(|| std::fs::OpenOptions::new().write(true).open(std::env::var_os("VSIM_CUR")?).ok());

pub struct Guard(usize);

pub fn enter(seed: u64) -> Guard {
    let tid = std::fs::read_link("/proc/thread-self").map(|p| p.display().to_string()).unwrap_or_default();
    let rec = Rec { seed, begun: Instant::now(), stat: format!("/proc/{tid}/stat") };
    let mut runs = RUNS.lock().unwrap();
    let slot = runs.iter().position(Option::is_none).unwrap_or_else(|| {
        runs.push(None);
        runs.len() - 1
    });
    runs[slot] = Some(rec);
    note(slot, seed);
    Guard(slot)
}

impl Drop for Guard {
    fn drop(&mut self) {
        RUNS.lock().unwrap()[self.0] = None;
        note(self.0, 0);
    }
}

fn note(slot: usize, seed: u64) {
    if let Some(f) = CUR.as_ref() {
        let _ = f.write_all_at(&seed.to_le_bytes(), slot as u64 * 8);
    }
}

/// Seconds of processor time a thread has used.
fn cpu(stat: &str) -> f64 {
    let s = std::fs::read_to_string(stat).unwrap_or_default();
    let mut it = s.rsplit(')').next().unwrap_or_default().split_whitespace();
    let (u, k) = (it.nth(11), it.next());
    let n = |x: Option<&str>| x.and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
    (n(u) + n(k)) / 100.0
}

/// A run takes milliseconds; one that is still at it after this much is not coming back.
const SPIN_S: f64 = 40.0;
const STUCK: Duration = Duration::from_secs(400);

pub fn start(prop: &str) {
    let prop = prop.to_string();
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_secs(2));
        let bad = RUNS.lock().unwrap().iter().flatten().find_map(|r| {
            (r.begun.elapsed() > STUCK || (r.begun.elapsed().as_secs_f64() > SPIN_S && cpu(&r.stat) > SPIN_S)).then_some(r.seed)
        });
        if let Some(seed) = bad {
            let path = runner::write_replay(&prop, &format!("{seed}-hang"), &json!({
                "property": prop, "kind": "hang", "class": "hang", "seed": seed, "entropy": runner::entropy_of(seed),
                "detail": "the code under test does not give control back: this run never ends"
            }));
            println!("seed {seed}: the code under test does not give control back");
            println!("VIOLATION property={prop} replay={path}");
            let _ = std::io::stdout().flush();
            std::process::exit(1);
        }
    });
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap_or_else(|_| "/proc/self/exe".into()))
}

/// How one run ends as a process of its own: a signal that ended it, or nothing within a minute.
pub fn apart(prop: &str, seed: u64) -> Option<String> {
    let mut c = me().args(["run", prop, &seed.to_string()]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().ok()?;
    let begun = Instant::now();
    loop {
        if let Ok(Some(s)) = c.try_wait() {
            return s.signal().map(|n| format!("the process dies of signal {n}"));
        }
        if begun.elapsed() > Duration::from_secs(60) {
            let _ = c.kill();
            let _ = c.wait();
            return Some("the run does not end".into());
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

/// Runs the check in a process of its own and looks after it.
pub fn supervise(prop: &str, tier: &str) -> i32 {
    let cur = std::env::temp_dir().join(format!("vsim-{}.cur", std::process::id()));
    let _ = std::fs::write(&cur, b"");
    let status = me().args(["check", prop, tier]).env("VSIM_CUR", &cur).status();
    let seeds: Vec<u64> = std::fs::read(&cur)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|b| u64::from_le_bytes(b.try_into().unwrap_or_default()))
        .filter(|s| *s != 0)
        .collect();
    let _ = std::fs::remove_file(&cur);
    let Ok(status) = status else { return 2 };
    let Some(sig) = status.signal() else { return status.code().unwrap_or(2) };
    println!("the process running the check died of signal {sig}");
    for seed in seeds {
        if let Some(how) = apart(prop, seed) {
            let path = runner::write_replay(prop, &format!("{seed}-abort"), &json!({
                "property": prop, "kind": "abort", "class": "abort", "seed": seed, "entropy": runner::entropy_of(seed),
                "detail": how
            }));
            println!("seed {seed}: {how}");
            println!("VIOLATION property={prop} replay={path}");
            return 1;
        }
    }
    2
}
