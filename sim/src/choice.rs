//! The decision streams of a run. Every decision of the simulator (configuration, schedule, network, faults, each
//! actor's script) is drawn from a named stream as a number below a bound, where 0 is always the plainest option.
//! A run is a pure function of (seed, entropy, recorded streams): a replay feeds the recorded numbers back, and 0 once
//! a stream is exhausted, which is what makes minimisation possible.

use std::collections::BTreeMap;

use crate::seam::mix;

pub const CONFIG: u32 = 0;
pub const SCHED: u32 = 1;
pub const NET: u32 = 2;
pub const FAULT: u32 = 3;
pub const ACTOR0: u32 = 16;

pub type Streams = BTreeMap<u32, Vec<u32>>;

pub struct Choices {
    seed: u64,
    replay: Option<Streams>,
    rng: BTreeMap<u32, u64>,
    pub log: Streams,
}

impl Choices {
    pub fn new(seed: u64, replay: Option<Streams>) -> Self {
        Self { seed, replay, rng: BTreeMap::new(), log: BTreeMap::new() }
    }

    pub fn pick(&mut self, stream: u32, n: u32) -> u32 {
        if n <= 1 {
            return 0;
        }
        let log = self.log.entry(stream).or_default();
        let v = match &self.replay {
            Some(r) => r.get(&stream).and_then(|v| v.get(log.len())).copied().unwrap_or(0).min(n - 1),
            None => {
                let seed = self.seed;
                let s = self.rng.entry(stream).or_insert_with(|| {
                    let mut s = seed ^ (u64::from(stream) + 1).wrapping_mul(0xd6e8_feb8_6659_fd93);
                    mix(&mut s);
                    s
                });
                ((u128::from(mix(s)) * u128::from(n)) >> 64) as u32
            }
        };
        log.push(v);
        v
    }
}
