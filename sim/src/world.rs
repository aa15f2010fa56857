//! The world of one run: executor, stores, parameters, models, recorded calls and violations.

use std::collections::{BTreeMap, BTreeSet};

use ed25519_dalek::{Signer as _, SigningKey};
use serde_json::{Map, Value};
use sha2::{Digest, Sha256};
use vercre_openid::issuer::{Client, Issuer, Server};

use crate::exec::{Exec, TaskId};
use crate::model::Model;
use crate::vmodel::VModel;
use crate::wallet::Wallets;

#[derive(Clone, Debug)]
pub struct Violation {
    pub props: Vec<&'static str>,
    /// What kind of violation, stable under minimisation.
    pub class: String,
    pub detail: String,
    /// Entry of the known-findings file that covers it, if any.
    pub known: Option<&'static str>,
}

/// Fault rates of a run, per mille (0: kind off).
#[derive(Clone, Debug, Default)]
pub struct Faults {
    pub io_err: u32,
    pub io_err_after: u32,
    pub crash: u32,
    pub drop_req: u32,
    pub drop_resp: u32,
    pub dup: u32,
    pub slow: u32,
    pub corrupt: u32,
    pub stall: u32,
    pub sched_lat: u32,
    pub attack: u32,
    pub mutate: u32,
    pub evict: bool,
    pub skew: u32,
}

#[derive(Clone)]
pub struct Key {
    pub sk: SigningKey,
    pub did: String,
    pub kid: String,
}

impl Key {
    pub fn did_key(name: &str) -> Self {
        let sk = SigningKey::from_bytes(&Sha256::digest(name.as_bytes()).into());
        let mk = vercre_did::multikey(sk.verifying_key().as_bytes());
        let did = format!("did:key:{mk}");
        let kid = format!("{did}#{mk}");
        Self { sk, did, kid }
    }

    pub fn did_web(host: &str) -> Self {
        let sk = SigningKey::from_bytes(&Sha256::digest(host.as_bytes()).into());
        let did = format!("did:web:{host}");
        let kid = format!("{did}#key-0");
        Self { sk, did, kid }
    }

    pub fn public(&self) -> [u8; 32] {
        *self.sk.verifying_key().as_bytes()
    }

    pub fn sign(&self, msg: &[u8]) -> Vec<u8> {
        self.sk.sign(msg).to_bytes().to_vec()
    }
}

#[derive(Clone)]
pub struct IssuerSetup {
    pub id: String,
    pub meta: Issuer,
    pub server: Server,
    pub store: usize,
    pub nodes: Vec<usize>,
    pub key: Key,
}

#[derive(Clone)]
pub struct SubjData {
    pub claims: Map<String, Value>,
    pub ready_at: i64,
}

#[derive(Clone, Default)]
pub struct SubjectSetup {
    /// configuration id -> dataset identifiers
    pub grants: BTreeMap<String, Vec<String>>,
    pub data: BTreeMap<String, SubjData>,
}

#[derive(Clone)]
pub struct VerifierSetup {
    pub id: String,
    pub store: usize,
    pub nodes: Vec<usize>,
    pub key: Key,
    pub meta: vercre_openid::verifier::Verifier,
}

#[derive(Default)]
pub struct Setup {
    pub issuers: Vec<IssuerSetup>,
    pub clients: BTreeMap<String, Client>,
    pub subjects: BTreeMap<String, SubjectSetup>,
    pub verifiers: Vec<VerifierSetup>,
    /// DID (without fragment) -> key, for did:web resolution.
    pub dids: BTreeMap<String, Key>,
}

#[derive(Clone, Debug)]
pub struct Entry {
    pub json: Vec<u8>,
    pub expiry: i64,
}

#[derive(Default)]
pub struct Store {
    pub map: BTreeMap<String, Entry>,
}

#[derive(Clone, Debug)]
pub struct StoreOp {
    /// Global sequence number of the operation.
    pub seq: u64,
    pub kind: &'static str,
    pub key: String,
    pub existed: bool,
    pub ok: bool,
    pub effect: bool,
    pub same: bool,
}

#[derive(Clone, Debug, Default)]
pub struct CallRec {
    pub ep: &'static str,
    pub node: usize,
    pub begin: u64,
    pub end: Option<u64>,
    pub begin_local: i64,
    pub begin_true: i64,
    pub faults: u32,
    pub crashed: bool,
    pub failed_mut: u32,
    /// When the first provider call failed.
    pub failed_at: Option<u64>,
    pub ops: Vec<StoreOp>,
    pub keys: Vec<String>,
    pub overlaps: BTreeSet<u64>,
    pub clock_moved: bool,
    pub datasets: Vec<(String, String, i64, bool)>,
}

#[derive(Default)]
pub struct Calls {
    pub recs: BTreeMap<u64, CallRec>,
    pub inflight: BTreeSet<u64>,
}

impl Calls {
    pub fn crashed(&mut self, id: u64) {
        if let Some(c) = self.recs.get_mut(&id) {
            c.crashed = true;
        }
    }
}

pub struct World {
    pub x: Exec,
    pub faults: Faults,
    pub calm: bool,
    /// Nodes the network cannot reach.
    pub cut: BTreeSet<usize>,
    pub setup: Setup,
    pub stores: Vec<Store>,
    pub calls: Calls,
    pub model: Model,
    pub vmodel: VModel,
    pub wallets: Wallets,
    pub loot: Loot,
    pub violations: Vec<Violation>,
    pub harness_errors: Vec<String>,
    /// Secrets handed out in this run: value -> kind.
    pub secrets: BTreeMap<String, String>,
    pub pins: Vec<String>,
    pub secret_log: Vec<(&'static str, String, bool)>,
    /// Twin runs: from which call on other randomness is drawn, and whether it is by now.
    pub reseed: Option<(u64, u64)>,
    pub reseeded: Option<u64>,
    pub begun: u64,
    /// Requests go out as the request macros build them.
    pub macros: bool,
    /// First sequence number of the call being audited.
    pub audited: u64,
    pub probes: BTreeMap<&'static str, u64>,
}

/// Everything an eavesdropper has seen, for attackers to replay.
#[derive(Default)]
pub struct Loot {
    pub codes: Vec<String>,
    pub tx_codes: Vec<String>,
    pub tokens: Vec<String>,
    pub nonces: Vec<String>,
    pub proofs: Vec<String>,
    pub txns: Vec<String>,
    pub notifs: Vec<String>,
    pub uris: Vec<String>,
    pub pars: Vec<String>,
    pub verifiers: Vec<String>,
    pub vps: Vec<String>,
    pub vcs: Vec<String>,
    pub states: Vec<String>,
    pub idents: Vec<String>,
}

pub fn add_loot(v: &mut Vec<String>, s: &str) {
    if !s.is_empty() && !v.iter().any(|x| x == s) {
        v.push(s.to_string());
        if v.len() > 40 {
            v.remove(0);
        }
    }
}

impl World {
    pub fn new(x: Exec) -> Self {
        Self {
            x,
            faults: Faults::default(),
            calm: false,
            cut: BTreeSet::new(),
            setup: Setup::default(),
            stores: vec![],
            calls: Calls::default(),
            model: Model::default(),
            vmodel: VModel::default(),
            wallets: Wallets::default(),
            loot: Loot::default(),
            violations: vec![],
            harness_errors: vec![],
            secrets: BTreeMap::new(),
            pins: vec![],
            secret_log: vec![],
            reseed: None,
            reseeded: None,
            begun: 0,
            macros: false,
            audited: 0,
            probes: BTreeMap::new(),
        }
    }

    pub fn probe(&mut self, k: &'static str) {
        *self.probes.entry(k).or_default() += 1;
    }

    pub fn violate(&mut self, props: &[&'static str], class: impl Into<String>, detail: impl Into<String>) {
        self.violate_known(props, class, detail, None);
    }

    pub fn violate_known(
        &mut self, props: &[&'static str], class: impl Into<String>, detail: impl Into<String>,
        known: Option<&'static str>,
    ) {
        let (class, detail) = (class.into(), detail.into());
        self.x.ev(|| format!("!! {} {props:?} {class}: {detail}", if known.is_some() { "known" } else { "VIOLATION" }));
        if self.violations.len() < 200 {
            self.violations.push(Violation { props: props.to_vec(), class, detail, known });
        }
    }

    pub fn hang(&mut self, t: TaskId) {
        let name = self.x.tasks.get(&t).map_or(String::new(), |t| t.name.clone());
        self.violate(&["C12"], "hang", format!("task {name} waits for something nothing will ever provide"));
    }

    pub fn panicked(&mut self, t: TaskId, msg: &str) {
        let (name, call) = self.x.tasks.get(&t).map_or((String::new(), None), |t| (t.name.clone(), t.call));
        if let Some(c) = call {
            self.calls.crashed(c);
            self.end_abandoned(c);
        }
        if msg.contains("sim/src/") {
            self.harness_errors.push(format!("{name}: {msg}"));
        } else {
            let where_ = msg.split("::").next().unwrap_or_default().to_string();
            self.violate(&["C12"], format!("panic@{where_}"), format!("{name} panicked: {msg}"));
        }
    }

    /// A node's clock jumps.
    pub fn set_skew(&mut self, node: usize, skew: i64) {
        if self.x.nodes[node].skew == skew {
            return;
        }
        self.x.nodes[node].skew = skew;
        self.x.count("fault.clock_jump");
        let name = self.x.nodes[node].name.clone();
        self.x.ev(|| format!("CLOCK of {name} is now off by {} s", skew / crate::exec::SEC));
        for c in self.calls.inflight.clone() {
            if let Some(r) = self.calls.recs.get_mut(&c) {
                if r.node == node {
                    r.clock_moved = true;
                }
            }
        }
    }

    /// Calls that died with their node (or by panic) are settled against what the store shows.
    pub fn on_crash(&mut self, node: usize) {
        let dead: Vec<u64> = self
            .calls
            .inflight
            .iter()
            .copied()
            .filter(|c| self.calls.recs.get(c).is_some_and(|r| r.node == node))
            .collect();
        for c in dead {
            self.end_abandoned(c);
        }
    }
}
