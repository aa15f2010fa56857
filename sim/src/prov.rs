//! The providers: the seams the libraries already have, implemented by the simulator. Every call is a scheduling
//! point and a fault point (error before or after the effect, crash of the node, stall).

use anyhow::{anyhow, bail, Result};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::{Algorithm, Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::{Client, Dataset, Issuer, Server};
use vercre_openid::provider::StateStore;
use vercre_status::issuer::Status;
use vercre_w3c_vc::model::{Bitstring, CredentialStatus, CredentialStatusType, StatusPurpose};

use crate::choice::{FAULT, SCHED};
use crate::exec::{chance_on, count, crash, pick_on, sleep, spawn, with, yield_now, Never, MS, SEC};
use crate::world::{Entry, Key, StoreOp, World};

/// One provider call: yield, maybe fail, act, maybe fail after acting, maybe die.
pub async fn io<T: Send>(
    node: usize, what: &'static str, mutating: bool, act: impl FnOnce(&mut World) -> Result<T> + Send,
) -> Result<T> {
    let f = with(|w| if w.calm { Default::default() } else { w.faults.clone() });
    if with(runaway) {
        crate::exec::Never.await;
    }
    yield_now().await;
    if chance_on(SCHED, f.sched_lat) {
        sleep(i64::from(1 + pick_on(SCHED, 200)) * MS).await;
    }
    if chance_on(FAULT, f.stall) {
        count("fault.stall");
        sleep(i64::from(1 + pick_on(FAULT, 400)) * SEC).await;
    }
    if chance_on(FAULT, f.crash) {
        die(node).await;
    }
    if chance_on(FAULT, f.io_err) {
        with(|w| {
            w.x.count("fault.io_error");
            fault(w, mutating);
            w.x.ev(|| format!("FAULT {what} fails before its effect"));
        });
        bail!("injected {what} failure");
    }
    let r = with(|w| {
        w.x.mark(what);
        let n = node as u8;
        w.x.ihash = w.x.ihash.wrapping_mul(31).wrapping_add(u64::from(n));
        act(w)
    });
    if mutating && chance_on(FAULT, f.io_err_after) {
        with(|w| {
            w.x.count("fault.io_error_after_effect");
            fault(w, false);
            w.x.ev(|| format!("FAULT {what} reports failure after its effect"));
        });
        bail!("injected {what} failure (after effect)");
    }
    if mutating && chance_on(FAULT, f.crash) {
        die(node).await;
    }
    r
}

/// A request needs a handful of provider calls; one that goes on and on will not be answered.
fn runaway(w: &mut World) -> bool {
    let cur = w.x.cur;
    let Some(t) = w.x.tasks.get_mut(&cur).filter(|t| t.call.is_some()) else { return false };
    t.ios += 1;
    let (n, name) = (t.ios, t.name.clone());
    if n == 2000 {
        w.violate(&["C12", "C07"], "runaway", format!("{name} keeps calling its provider and does not answer"));
    }
    n >= 2000
}

fn fault(w: &mut World, mutating: bool) {
    let at = w.x.id();
    if let Some(c) = w.x.cur_call() {
        if let Some(r) = w.calls.recs.get_mut(&c) {
            r.faults += 1;
            r.failed_at.get_or_insert(at);
            if mutating {
                r.failed_mut += 1;
            }
        }
    }
}

async fn die(node: usize) {
    let down = i64::from(1 + pick_on(FAULT, 30)) * SEC;
    spawn(None, format!("restart{node}"), async move {
        sleep(down).await;
        crate::exec::restart(node);
    });
    crash(node);
    Never.await;
}

fn record(w: &mut World, mut op: StoreOp) {
    op.seq = w.x.id();
    w.x.ev(|| format!("store {} {} existed={} effect={}", op.kind, op.key, op.existed, op.effect));
    if let Some(c) = w.x.cur_call() {
        if let Some(r) = w.calls.recs.get_mut(&c) {
            r.ops.push(op);
        }
    }
}

pub async fn store_put(
    node: usize, store: usize, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>,
) -> Result<()> {
    let json = serde_json::to_vec(&state)?;
    let key = key.to_string();
    io(node, "put", true, move |w| {
        let expiry = expiry.timestamp_nanos_opt().unwrap_or(i64::MAX);
        let old = w.stores[store].map.insert(key.clone(), Entry { json: json.clone(), expiry });
        let same = old.as_ref().is_some_and(|o| o.json == json);
        record(w, StoreOp { seq: 0, kind: "put", key, existed: old.is_some(), ok: true, effect: true, same });
        Ok(())
    })
    .await
}

pub async fn store_get<T: DeserializeOwned>(node: usize, store: usize, key: &str) -> Result<T> {
    let key = key.to_string();
    let json = io(node, "get", false, move |w| {
        let evict = w.faults.evict;
        let now = w.x.now;
        let slack = 1500 * MS;
        let e = match w.stores[store].map.get(&key) {
            Some(e) if evict && e.expiry.saturating_add(slack) < now => None,
            Some(e) => Some(e.json.clone()),
            None => None,
        };
        if e.is_none() && w.stores[store].map.contains_key(&key) {
            w.x.count("fault.store_eviction");
            w.stores[store].map.remove(&key);
        }
        record(w, StoreOp { seq: 0, kind: "get", key, existed: e.is_some(), ok: e.is_some(), effect: false, same: true });
        e.ok_or_else(|| anyhow!("no matching item in state store"))
    })
    .await?;
    serde_json::from_slice(&json).map_err(|e| anyhow!("issue deserializing state: {e}"))
}

pub async fn store_purge(node: usize, store: usize, key: &str) -> Result<()> {
    let key = key.to_string();
    io(node, "purge", true, move |w| {
        let old = w.stores[store].map.remove(&key);
        record(w, StoreOp { seq: 0, kind: "purge", key, existed: old.is_some(), ok: true, effect: old.is_some(), same: false });
        Ok(())
    })
    .await
}

// ---------------------------------------------------------------------------------------------------------------

/// Signs with a simulator key.
#[derive(Clone)]
pub struct SimSigner {
    pub node: usize,
    pub key: Key,
}

impl Signer for SimSigner {
    async fn sign(&self, msg: &[u8]) -> Vec<u8> {
        yield_now().await;
        self.key.sign(msg)
    }

    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        let sig = self.key.sign(msg);
        io(self.node, "sign", false, move |_| Ok(sig)).await
    }

    async fn public_key(&self) -> Result<Vec<u8>> {
        let pk = self.key.public().to_vec();
        io(self.node, "public_key", false, move |_| Ok(pk)).await
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        self.key.kid.clone()
    }
}

pub struct NoCipher;

impl Encryptor for NoCipher {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        bail!("encryption is not simulated")
    }

    fn public_key(&self) -> Vec<u8> {
        vec![]
    }
}

impl Decryptor for NoCipher {
    async fn decrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        bail!("encryption is not simulated")
    }
}

pub async fn resolve_did(node: usize, url: &str) -> Result<Document> {
    let did = url.split('#').next().unwrap_or_default().to_string();
    io(node, "resolve", false, move |w| {
        let Some(key) = w.setup.dids.get(&did) else { bail!("unknown DID {did}") };
        Ok(Document {
            id: did.clone(),
            verification_method: Some(vec![VerificationMethod {
                id: key.kid.clone(),
                controller: did.clone(),
                method_type: MethodType::Multikey { public_key_multibase: vercre_did::multikey(&key.public()) },
            }]),
            ..Document::default()
        })
    })
    .await
}

// ---------------------------------------------------------------------------------------------------------------

/// Provider of one issuer replica.
#[derive(Clone, Debug)]
pub struct IssuerProv {
    pub issuer: usize,
    pub node: usize,
}

impl vercre_openid::issuer::Provider for IssuerProv {}

impl vercre_openid::issuer::Metadata for IssuerProv {
    async fn client(&self, client_id: &str) -> Result<Client> {
        let id = client_id.to_string();
        io(self.node, "client", false, move |w| {
            w.setup.clients.get(&id).cloned().ok_or_else(|| anyhow!("client not found for client_id: {id}"))
        })
        .await
    }

    async fn issuer(&self, issuer_id: &str) -> Result<Issuer> {
        let (i, id) = (self.issuer, issuer_id.to_string());
        io(self.node, "issuer", false, move |w| {
            let s = &w.setup.issuers[i];
            if s.id == id {
                Ok(s.meta.clone())
            } else {
                bail!("issuer not found")
            }
        })
        .await
    }

    async fn server(&self, server_id: &str, _issuer_id: Option<&str>) -> Result<Server> {
        let (i, id) = (self.issuer, server_id.to_string());
        io(self.node, "server", false, move |w| {
            let s = &w.setup.issuers[i];
            if s.id == id {
                Ok(s.server.clone())
            } else {
                bail!("server not found")
            }
        })
        .await
    }

    async fn register(&self, client: &Client) -> Result<Client> {
        let mut client = client.clone();
        io(self.node, "register", true, move |w| {
            let n = w.x.id();
            client.oauth.client_id = format!("http://registered{n}.sim");
            w.setup.clients.insert(client.oauth.client_id.clone(), client.clone());
            w.model.registered += 1;
            if let Some(c) = w.x.cur_call() {
                if let Some(r) = w.calls.recs.get_mut(&c) {
                    r.ops.push(StoreOp {
                        seq: 0,
                        kind: "register",
                        key: client.oauth.client_id.clone(),
                        existed: false,
                        ok: true,
                        effect: true,
                        same: false,
                    });
                }
            }
            Ok(client)
        })
        .await
    }
}

impl vercre_openid::issuer::Subject for IssuerProv {
    async fn authorize(&self, subject_id: &str, config_id: &str) -> Result<Vec<String>> {
        let (s, c) = (subject_id.to_string(), config_id.to_string());
        io(self.node, "authorize_subject", false, move |w| {
            let Some(subj) = w.setup.subjects.get(&s) else { bail!("no matching subject_id") };
            subj.grants.get(&c).cloned().ok_or_else(|| anyhow!("subject not authorized for {c}"))
        })
        .await
    }

    async fn dataset(&self, subject_id: &str, identifier: &str) -> Result<Dataset> {
        let (s, i) = (subject_id.to_string(), identifier.to_string());
        io(self.node, "dataset", false, move |w| {
            let Some(d) = w.setup.subjects.get(&s).and_then(|x| x.data.get(&i)).cloned() else {
                bail!("no dataset {i} for subject")
            };
            let pending = w.x.now < d.ready_at;
            if let Some(c) = w.x.cur_call() {
                let now = w.x.now;
                if let Some(r) = w.calls.recs.get_mut(&c) {
                    r.datasets.push((s, i, now, pending));
                }
            }
            Ok(Dataset { claims: d.claims, pending })
        })
        .await
    }
}

impl StateStore for IssuerProv {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> {
        let store = with(|w| w.setup.issuers[self.issuer].store);
        store_put(self.node, store, key, state, expiry).await
    }

    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let store = with(|w| w.setup.issuers[self.issuer].store);
        store_get(self.node, store, key).await
    }

    async fn purge(&self, key: &str) -> Result<()> {
        let store = with(|w| w.setup.issuers[self.issuer].store);
        store_purge(self.node, store, key).await
    }
}

impl SecOps for IssuerProv {
    fn signer(&self, identifier: &str) -> Result<impl Signer> {
        with(|w| {
            let s = &w.setup.issuers[self.issuer];
            if s.id != identifier {
                bail!("no key for {identifier}");
            }
            Ok(SimSigner { node: self.node, key: s.key.clone() })
        })
    }

    fn encryptor(&self, _: &str) -> Result<impl Encryptor> {
        Ok(NoCipher)
    }

    fn decryptor(&self, _: &str) -> Result<impl Decryptor> {
        Ok(NoCipher)
    }
}

impl DidResolver for IssuerProv {
    async fn resolve(&self, url: &str) -> Result<Document> {
        resolve_did(self.node, url).await
    }
}

/// The status entry the simulated issuer keeps for a credential.
pub fn status_of(subject: &str, ident: &str) -> Option<CredentialStatus> {
    let h = subject.bytes().chain(ident.bytes()).fold(7usize, |a, b| a.wrapping_mul(31).wrapping_add(b as usize)) % 5000;
    (h % 3 != 0).then(|| CredentialStatus {
        id: Some(format!("http://status.sim/1#{h}")),
        credential_status_type: CredentialStatusType::Bitstring(Bitstring {
            status_purpose: StatusPurpose::Revocation,
            status_list_index: h,
            status_list_credential: "http://status.sim/1".into(),
            status_size: None,
            status_message: None,
            status_reference: None,
        }),
    })
}

impl Status for IssuerProv {
    async fn status(
        &self, subject_id: &str, credential_identifier: &str,
    ) -> Result<Option<vercre_core::Quota<CredentialStatus>>> {
        let (s, i) = (subject_id.to_string(), credential_identifier.to_string());
        io(self.node, "status", false, move |w| {
            if !w.setup.subjects.get(&s).is_some_and(|x| x.data.contains_key(&i)) {
                // a status service that knows no such credential
                return Ok(None);
            }
            Ok(status_of(&s, &i).map(vercre_core::Quota::One))
        })
        .await
    }
}

// ---------------------------------------------------------------------------------------------------------------

/// Provider of one verifier replica.
#[derive(Clone, Debug)]
pub struct VerifierProv {
    pub verifier: usize,
    pub node: usize,
}

impl vercre_openid::verifier::Provider for VerifierProv {}

impl vercre_openid::verifier::Metadata for VerifierProv {
    async fn verifier(&self, id: &str) -> Result<vercre_openid::verifier::Verifier> {
        let (v, id) = (self.verifier, id.to_string());
        io(self.node, "verifier", false, move |w| {
            let s = &w.setup.verifiers[v];
            if s.id == id {
                Ok(s.meta.clone())
            } else {
                bail!("verifier not found")
            }
        })
        .await
    }

    async fn wallet(&self, _: &str) -> Result<vercre_openid::verifier::Wallet> {
        bail!("no wallet metadata")
    }

    async fn register(&self, v: &vercre_openid::verifier::Verifier) -> Result<vercre_openid::verifier::Verifier> {
        Ok(v.clone())
    }
}

impl StateStore for VerifierProv {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> {
        let store = with(|w| w.setup.verifiers[self.verifier].store);
        store_put(self.node, store, key, state, expiry).await
    }

    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let store = with(|w| w.setup.verifiers[self.verifier].store);
        store_get(self.node, store, key).await
    }

    async fn purge(&self, key: &str) -> Result<()> {
        let store = with(|w| w.setup.verifiers[self.verifier].store);
        store_purge(self.node, store, key).await
    }
}

impl SecOps for VerifierProv {
    fn signer(&self, identifier: &str) -> Result<impl Signer> {
        with(|w| {
            let s = &w.setup.verifiers[self.verifier];
            if s.id != identifier {
                bail!("no key for {identifier}");
            }
            Ok(SimSigner { node: self.node, key: s.key.clone() })
        })
    }

    fn encryptor(&self, _: &str) -> Result<impl Encryptor> {
        Ok(NoCipher)
    }

    fn decryptor(&self, _: &str) -> Result<impl Decryptor> {
        Ok(NoCipher)
    }
}

impl DidResolver for VerifierProv {
    async fn resolve(&self, url: &str) -> Result<Document> {
        resolve_did(self.node, url).await
    }
}
