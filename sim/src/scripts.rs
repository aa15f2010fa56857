//! Who acts in a run, the weather, and the calm after it.

use crate::choice::{ACTOR0, CONFIG, FAULT};
use crate::exec::{chan, crash, pick, pick_on, recv, restart, send, sleep, spawn_actor, with, Reply, MS, SEC};
use crate::issue::{self, Mode, Stop};
use crate::setup::{self, Shape};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Act {
    Pre,
    Code,
    Discover,
    Attack,
    Codec,
    Match,
    Present,
    VMeta,
    Wallet,
    Macro,
}

/// What a property's runs emphasise.
pub struct Profile {
    pub acts: &'static [(Act, u32)],
    /// Rates of deviation to draw from, per mille.
    pub mutate: &'static [u32],
    /// Faults at all?
    pub faults: bool,
    pub issuers: u32,
    pub verifiers: u32,
    pub wallets: u32,
    pub macros: bool,
}

const ISSUANCE: &[(Act, u32)] = &[(Act::Pre, 5), (Act::Code, 5), (Act::Discover, 1), (Act::Attack, 3)];

pub fn profile(prop: &str) -> Profile {
    let base = Profile { acts: ISSUANCE, mutate: &[0, 40, 120, 300], faults: true, issuers: 2, verifiers: 1, wallets: 1, macros: false };
    match prop {
        "C10" => Profile { acts: &[(Act::Codec, 8), (Act::Pre, 3), (Act::Code, 4), (Act::Discover, 1)], ..base },
        "C01" | "C02" => Profile {
            acts: &[(Act::Pre, 5), (Act::Code, 5), (Act::Present, 3), (Act::Attack, 3), (Act::Discover, 1)],
            ..base
        },
        "C08" => Profile { acts: &[(Act::Present, 10), (Act::Pre, 1), (Act::VMeta, 1)], verifiers: 2, ..base },
        "C09" => Profile {
            acts: &[(Act::Present, 8), (Act::Wallet, 4), (Act::VMeta, 1), (Act::Pre, 1)],
            verifiers: 2,
            wallets: 2,
            ..base
        },
        "C07" => Profile {
            acts: &[(Act::Pre, 5), (Act::Code, 5), (Act::Wallet, 4), (Act::Discover, 1), (Act::Attack, 2)],
            wallets: 2,
            ..base
        },
        "C12" | "C13" => Profile {
            acts: &[(Act::Pre, 4), (Act::Code, 5), (Act::Present, 3), (Act::Wallet, 2), (Act::Codec, 1), (Act::Attack, 3)],
            ..base
        },
        "C11" => Profile { acts: &[(Act::Match, 8), (Act::Present, 4)], ..base },
        "C15" => Profile {
            acts: &[(Act::Pre, 5), (Act::Code, 5), (Act::Present, 4), (Act::Wallet, 3), (Act::Attack, 1)],
            ..base
        },
        "C16" => Profile { acts: &[(Act::Pre, 4), (Act::Code, 5), (Act::Macro, 4)], macros: true, ..base },
        "C14" => Profile { acts: &[(Act::Wallet, 10), (Act::Pre, 1)], wallets: 2, ..base },
        _ => base,
    }
}

fn weighted(acts: &[(Act, u32)]) -> Act {
    let total: u32 = acts.iter().map(|a| a.1).sum();
    let mut n = pick_on(CONFIG, total);
    for (a, w) in acts {
        if n < *w {
            return *a;
        }
        n -= w;
    }
    acts[0].0
}

async fn act(a: Act, m: Mode) {
    let issuers = with(|w| w.setup.issuers.len()) as u32;
    let i = pick(issuers) as usize;
    let r = match a {
        Act::Pre => issue::pre_authorized(i, m).await,
        Act::Code => issue::authorization_code(i, m).await,
        Act::Discover => issue::discover(i, m).await,
        Act::Attack => {
            issue::attacker(i).await;
            Ok(())
        }
        Act::Present => {
            let n = with(|w| w.setup.verifiers.len()) as u32;
            crate::present::present(pick(n) as usize, m).await
        }
        Act::VMeta => crate::present::metadata(m).await,
        Act::Wallet => crate::wallet::life(i, m).await,
        Act::Match => {
            crate::matching::run().await;
            Ok(())
        }
        Act::Macro => {
            #[cfg(feature = "macros")]
            for _ in 0..20 {
                crate::macros::written();
                with(|w| w.x.count("calls.ok"));
                crate::exec::yield_now().await;
            }
            Ok(())
        }
        Act::Codec => {
            crate::wire::codec().await;
            Ok(())
        }
    };
    match r {
        Ok(()) => with(|w| w.probe("flow.done")),
        Err(Stop::Given) => with(|w| w.probe("flow.given_up")),
        Err(Stop::Stuck(s)) => with(|w| {
            let props: &[&'static str] = match a {
                Act::Present | Act::VMeta => &["C09"],
                Act::Wallet => &["C07", "C14"],
                _ => &["C07"],
            };
            w.violate(props, format!("stuck:{a:?}"), format!("an honest {a:?} flow cannot finish: {s}"));
        }),
    }
}

/// Crashes, partitions and clock jumps, until told to stop.
async fn chaos() {
    let nodes = with(|w| w.x.nodes.len()) as u32;
    let f = with(|w| w.faults.clone());
    loop {
        sleep(i64::from(1 + pick_on(FAULT, 240)) * SEC).await;
        if with(|w| w.calm) {
            return;
        }
        let n = pick_on(FAULT, nodes) as usize;
        match pick_on(FAULT, 4) {
            0 if f.crash > 0 => {
                crash(n);
                sleep(i64::from(1 + pick_on(FAULT, 60)) * SEC).await;
                restart(n);
            }
            1 if f.drop_req > 0 => {
                with(|w| {
                    w.cut.insert(n);
                    w.x.count("fault.partition");
                });
                sleep(i64::from(1 + pick_on(FAULT, 120)) * SEC).await;
                with(|w| {
                    w.cut.remove(&n);
                });
            }
            2 if f.skew > 0 => {
                let s = [1i64, -1, 5, -5, 60, -60, 299, 301, -301, 600, 3600, -3600][pick_on(FAULT, 12) as usize];
                with(|w| w.set_skew(n, s * SEC));
            }
            3 if f.skew > 0 => with(|w| w.set_skew(n, 0)),
            _ => {}
        }
    }
}

pub async fn root(p: Profile) {
    let (issuers, replicas) = (1 + pick_on(CONFIG, p.issuers), 1 + pick_on(CONFIG, 3));
    with(|w| {
        let shape = Shape { issuers, replicas, wallets: p.wallets, verifiers: p.verifiers };
        setup::build(w, &shape);
        let mut f = setup::draw_faults(w);
        if !p.faults {
            f = Default::default();
        }
        f.mutate = p.mutate[w.x.ch.pick(CONFIG, p.mutate.len() as u32) as usize];
        w.macros = p.macros;
        w.faults = f.clone();
        w.x.ev(|| format!("weather {f:?}"));
    });
    let n = 1 + pick_on(CONFIG, 5);
    let any = with(|w| w.faults.crash + w.faults.drop_req + w.faults.skew > 0);
    if any {
        spawn_actor(None, "chaos", ACTOR0 + 40, chaos());
    }
    let done = chan();
    for k in 0..n {
        let a = weighted(p.acts);
        let m = Mode { honest: false };
        let reps = 1 + pick_on(CONFIG, 2);
        spawn_actor(None, format!("{a:?}{k}"), ACTOR0 + k, async move {
            sleep(i64::from(pick(30)) * 100 * MS).await;
            for _ in 0..reps {
                act(a, m).await;
            }
            send(done, Reply { ok: true, body: vec![], meant: None });
        });
    }
    for _ in 0..n {
        recv(done, 1_000_000 * SEC).await;
    }
    // the calm: faults stop, everything heals, requests still under way settle
    with(|w| {
        w.calm = true;
        w.cut.clear();
        for n in 0..w.x.nodes.len() {
            w.set_skew(n, 0);
        }
        w.x.ev(|| "the weather is calm".into());
    });
    sleep(500 * SEC).await;
    let nodes = with(|w| w.x.nodes.len());
    for n in 0..nodes {
        restart(n);
    }
    with(|w| w.x.ev(|| "honest flows begin".into()));
    let acts: Vec<Act> = {
        let mut v: Vec<Act> = p.acts.iter().map(|a| a.0).filter(|a| *a != Act::Attack).collect();
        v.truncate(3);
        v
    };
    let done = chan();
    let n = acts.len();
    for (k, a) in acts.into_iter().enumerate() {
        spawn_actor(None, format!("honest-{a:?}"), ACTOR0 + 50 + k as u32, async move {
            act(a, Mode { honest: true }).await;
            send(done, Reply { ok: true, body: vec![], meant: None });
        });
    }
    for _ in 0..n {
        recv(done, 100_000 * SEC).await;
    }
}
