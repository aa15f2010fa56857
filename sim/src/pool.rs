//! Judgements over all runs of a search together: what the secrets of many runs look like side by side.

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::time::Duration;

use serde_json::{json, Value};

use crate::oracle;
use crate::runner::{self, Tally};

/// The symbols of a secret: what its base64url form encodes if that is readable text, else the text itself.
fn symbols(kind: &str, s: &str) -> Vec<char> {
    if !kind.ends_with("verifier") {
        if let Some(t) = oracle::b64d(s).and_then(|b| String::from_utf8(b).ok()) {
            if t.chars().all(|c| c.is_ascii_graphic()) {
                return t.chars().collect();
            }
        }
    }
    s.chars().collect()
}

/// How often each symbol stands at each position.
#[derive(Default)]
struct Spread {
    n: u64,
    at: Vec<BTreeMap<char, u64>>,
    /// At each position, how often the symbol equals an earlier one of the same secret, by position.
    same: Vec<Vec<u64>>,
}

impl Spread {
    fn add(&mut self, s: &[char]) {
        self.n += 1;
        for (i, c) in s.iter().enumerate() {
            if self.at.len() <= i {
                self.at.push(BTreeMap::new());
                self.same.push(vec![0; i]);
            }
            *self.at[i].entry(*c).or_default() += 1;
            for j in 0..if i < 64 { i } else { 0 } {
                self.same[i][j] += u64::from(s[j] == *c);
            }
        }
    }

    /// Positions every secret is long enough for must show the whole alphabet, none of it rarely, and no position may
    /// repeat another.
    fn flaw(&self, alphabet: &BTreeSet<char>) -> Option<String> {
        let a = alphabet.len() as f64;
        for (i, m) in self.at.iter().enumerate() {
            let n = m.values().sum::<u64>() as f64;
            // the chance that a symbol as frequent as the others shows less than a third as often must be nil
            if n / a < 80.0 {
                continue;
            }
            for c in alphabet {
                let k = m.get(c).copied().unwrap_or(0) as f64;
                if k < n / a / 3.0 {
                    return Some(format!("{c:?} stands at position {i} in {k} of {n}, about {:.0} expected", n / a));
                }
            }
            for (j, k) in self.same[i].iter().enumerate() {
                if *k as f64 > n * 0.5 && a > 4.0 {
                    return Some(format!("position {i} repeats position {j} in {k} of {n}"));
                }
            }
        }
        None
    }
}

/// The kinds share generators, so the alphabet they all draw from is what any of them shows; digits are digits.
pub fn flaws(t: &Tally) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut spread: BTreeMap<&str, Spread> = BTreeMap::new();
    for (k, s) in &t.secrets {
        let sym = symbols(k, s);
        let group = if k.ends_with("verifier") { "verifier" } else { k };
        spread.entry(group).or_default().add(&sym);
        if group == "verifier" && *k != group {
            continue;
        }
        if *k != "tx_code" {
            spread.entry("any").or_default().add(&sym);
        }
    }
    let digits: BTreeSet<char> = ('0'..='9').collect();
    let unreserved: BTreeSet<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').chain("-._~".chars()).collect();
    let mut text: BTreeSet<char> = ('A'..='Z').chain('a'..='z').chain('0'..='9').collect();
    if let Some(s) = spread.get("any") {
        text.extend(s.at.iter().flat_map(|m| m.keys()));
        if text.len() > 62 {
            // the generator's own choice of punctuation
            text.extend(")(*&^%$#@!~".chars());
        }
    }
    for (k, s) in &spread {
        let alphabet = match *k {
            "tx_code" => &digits,
            "verifier" => &unreserved,
            _ => &text,
        };
        if let Some(f) = s.flaw(alphabet) {
            out.push((format!("secret-spread:{k}"), format!("{k}: {f}")));
        }
    }
    // none equal to, inside of, or a digest or reversal of another
    let mut seen: HashMap<&str, &str> = HashMap::new();
    let mut parts: HashSet<(usize, &str)> = HashSet::new();
    for (k, s) in &t.secrets {
        if *k == "tx_code" {
            continue;
        }
        if let Some(old) = seen.insert(s, k) {
            out.push(("secret-repeat".into(), format!("{k} {s} was handed out in two runs (as {old})")));
            break;
        }
    }
    'all: for (k, s) in &t.secrets {
        if *k == "tx_code" || !s.is_ascii() {
            continue;
        }
        for (what, d) in [
            ("the S256 digest", oracle::s256(s)),
            ("the reversal", s.chars().rev().collect()),
            ("the base64 form", oracle::b64e(s.as_bytes())),
        ] {
            if d != *s && seen.contains_key(d.as_str()) {
                out.push(("secret-derived".into(), format!("{} {d} is {what} of {k} {s}", seen[d.as_str()])));
                break 'all;
            }
        }
        if parts.len() < 6_000_000 {
            for i in (0..s.len().saturating_sub(15)).step_by(4) {
                if !parts.insert((i, &s[i..i + 16])) {
                    out.push(("secret-shared".into(), format!("{k} {s} shares {} with another secret", &s[i..i + 16])));
                    break 'all;
                }
            }
        }
    }
    out
}

/// Two fresh processes on the same schedules with different randomness: nothing may be handed out by both.
pub fn restart(base: u64) -> Option<String> {
    let me = std::env::current_exe().ok()?;
    let hand = |other: &str| -> Option<BTreeMap<String, String>> {
        let o = std::process::Command::new(&me).args(["secrets", &base.to_string(), other]).output().ok()?;
        let text = String::from_utf8_lossy(&o.stdout).to_string();
        Some(
            text.lines()
                .filter_map(|l| l.split_once(' '))
                .filter(|(_, k)| *k != "tx_code")
                .map(|(s, k)| (s.to_string(), k.to_string()))
                .collect(),
        )
    };
    let (a, b) = (hand("4711")?, hand("1147")?);
    a.iter().find(|(s, _)| b.contains_key(*s)).map(|(s, k)| format!("{k} {s} is handed out again after a restart"))
}

/// Extra evidence, and replay files of violations only the whole batch shows.
pub fn judge(prop: &str, base: u64, t: &Tally) -> (Value, Vec<String>) {
    if prop != "C15" {
        return (json!({}), vec![]);
    }
    let mut out = vec![];
    if let Some((seed, r, _, log)) = t.foreseen.iter().min_by_key(|(_, _, _, l)| l.values().map(Vec::len).sum::<usize>()) {
        out.push(runner::report_twin(prop, *seed, *r, log, Duration::from_secs(60)));
    }
    // a batch cut short by a violation is no sample
    if t.found.is_empty() && t.foreseen.is_empty() {
        for (class, detail) in flaws(t) {
            println!("{detail}");
            out.push(runner::write_replay(
                prop,
                &format!("batch-{}", class.replace([':', ' '], "-")),
                &json!({"property": prop, "kind": "batch", "class": class, "detail": detail, "base": base, "runs": t.runs.min(runner::POOLED)}),
            ));
        }
    }
    if let Some(d) = restart(base) {
        println!("{d}");
        out.push(runner::write_replay(
            prop,
            "restart",
            &json!({"property": prop, "kind": "restart", "detail": d, "base": base}),
        ));
    }
    let mut kinds: BTreeMap<&str, u64> = BTreeMap::new();
    for (k, _) in &t.secrets {
        *kinds.entry(k).or_default() += 1;
    }
    (json!({"secrets_compared": kinds, "twin_runs": t.twins}), out)
}
