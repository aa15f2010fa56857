//! Wallets: nodes that run the holder library. The library's provider is the simulator, which notes everything a flow
//! sends and receives; drivers play the user and hold what the library does against a small model of a wallet.

use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;

use anyhow::{anyhow, bail, Result};
use chrono::{DateTime, Utc};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_did::{DidResolver, Document};
use vercre_dif_exch::Constraints;
use vercre_holder::credential::{Credential, Logo};
use vercre_holder::issuance as hi;
use vercre_holder::presentation as hp;
use vercre_holder::provider as p;
use vercre_infosec::{Algorithm, Signer};
use vercre_openid::issuer as oi;
use vercre_openid::provider::StateStore;
use vercre_openid::verifier as ov;

use crate::audit;
use crate::exec::{chan, chance, one_of, pick, recv, send, sleep, spawn, with, Reply, SEC};
use crate::issue::{get_offer, issuer_id, mutate, pause, stuck, tried, Mode, Res, Stop};
use crate::matching;
use crate::net::{self, Fail, Target};
use crate::oracle::{self, Tri};
use crate::prov::{io, resolve_did, store_get, store_purge, store_put, SimSigner};
use crate::setup::*;
use crate::wire::strip;
use crate::world::{CallRec, Key, World};

const MINE: &[&str] = &[EMP, DEV, BADGE, GOLD];

/// One of the states a flow may be in, as far as its user can tell.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum St {
    Ready,
    Pin,
    Accepted,
    Token,
    Gone,
}

/// A credential as it reached the wallet.
#[derive(Clone, Debug)]
struct Got {
    jwt: String,
    /// The configurations it may have been issued under.
    cfg: Option<String>,
    step: u64,
}

/// Everything one issuance flow exchanged with the outside.
#[derive(Clone, Default)]
pub struct Flow {
    /// Metadata of the issuer as delivered.
    meta: Option<Value>,
    tokens: Vec<Value>,
    /// Nonces delivered, and in which step.
    nonces: Vec<(u64, String)>,
    got: Vec<Got>,
    /// Transactions delivered.
    txns: BTreeSet<String>,
    logos: BTreeMap<String, Value>,
    /// Requests sent: step, endpoint, body.
    sent: Vec<(u64, &'static str, Value)>,
    /// Calls that brought no good answer, by step.
    failed: Vec<u64>,
    /// Steps that ended well.
    good: BTreeSet<u64>,
    /// The flow's possible states.
    at: BTreeSet<St>,
    /// Transactions outstanding, as told to the user.
    deferred: BTreeMap<String, String>,
    /// Credentials of steps that ended well, still to be saved.
    due: BTreeSet<String>,
    /// Sent to a verifier: target and body.
    shown: Vec<(u64, Option<String>, Value)>,
    /// Request objects fetched.
    fetched: Vec<String>,
    /// Two of its steps ran at once.
    mixed: bool,
    /// A step failed after it may have had its effect.
    doubt: bool,
    /// Something it received was altered on the way.
    taint: bool,
    /// Its issuer answers whatever it likes.
    hostile: bool,
    /// What the credential store answered last.
    found: Option<Vec<String>>,
}

pub struct WalletSim {
    pub node: usize,
    pub store: usize,
    pub key: Key,
    creds: BTreeMap<String, Credential>,
    /// Credentials of issuers that answer whatever they like.
    odd: BTreeSet<String>,
    flows: BTreeMap<u64, Flow>,
    /// Issuance ids that were ended.
    ended: Vec<String>,
}

#[derive(Default)]
pub struct Wallets {
    pub list: Vec<WalletSim>,
    /// Request objects of parties that are no verifiers of the simulated world, by link.
    pub planted: BTreeMap<String, String>,
}

impl Wallets {
    pub fn add(&mut self, n: usize, node: usize, store: usize) {
        let key = if n % 2 == 0 { Key::did_key(&format!("holder{n}")) } else { Key::did_web(&format!("holder{n}.sim")) };
        self.list.push(WalletSim {
            node,
            store,
            key,
            creds: BTreeMap::new(),
            odd: BTreeSet::new(),
            flows: BTreeMap::new(),
            ended: vec![],
        });
    }
}

#[derive(Clone, Debug)]
pub struct WalletProv {
    wallet: usize,
    node: usize,
    flow: u64,
    step: u64,
}

impl WalletProv {
    fn flow<R>(&self, f: impl FnOnce(&mut Flow) -> R) -> R {
        with(|w| f(w.wallets.list[self.wallet].flows.entry(self.flow).or_default()))
    }

    fn issuer(&self, id: &str) -> Result<usize> {
        with(|w| w.setup.issuers.iter().position(|i| i.id == id)).ok_or_else(|| anyhow!("no issuer at {id}"))
    }

    /// Sends a request and waits; a wallet that is cut off hears nothing.
    async fn ask<R: DeserializeOwned + Serialize + Send>(
        &self, t: Target, ep: &'static str, what: &'static str, req: &(impl Serialize + Sync),
    ) -> Result<R> {
        let step = self.step;
        let v = serde_json::to_value(req)?;
        self.flow(|f| f.sent.push((step, ep, v.clone())));
        if with(|w| w.cut.contains(&self.node)) {
            sleep(net::TIMEOUT).await;
            self.flow(|f| f.failed.push(step));
            bail!("no network");
        }
        let reply = net::rpc(t, ep, v.to_string().into_bytes(), Some(v)).await;
        self.touched(reply.as_ref());
        let r: Result<R, Fail> = net::finish(what, reply);
        r.map_err(|e| {
            self.flow(|f| f.failed.push(step));
            anyhow!("{ep}: {e:?}")
        })
    }

    /// Notes an answer that was altered on the way.
    fn touched(&self, r: Option<&Reply>) {
        if r.is_some_and(|r| r.meant.is_none()) {
            self.flow(|f| f.taint = true);
        }
    }

    fn nonce(&self, n: Option<&String>) {
        if let Some(n) = n {
            let step = self.step;
            self.flow(|f| f.nonces.push((step, n.clone())));
        }
    }

    fn received(&self, r: &Value, cfg: Option<String>) {
        let step = self.step;
        let mut take = |v: &Value| {
            if let Some(s) = v.as_str() {
                let g = Got { jwt: s.to_string(), cfg: cfg.clone(), step };
                self.flow(|f| f.got.push(g));
            }
        };
        if let Some(t) = r["transaction_id"].as_str() {
            self.flow(|f| f.txns.insert(t.to_string()));
        }
        take(&r["credential"]);
        r["credentials"].as_array().into_iter().flatten().for_each(&mut take);
    }
}

/// What presentations are made from: credentials of proper issuers.
fn usual(x: &WalletSim) -> impl Iterator<Item = &Credential> {
    x.creds.values().filter(|c| !x.odd.contains(&c.issued))
}

/// Values no proper issuer sends.
fn odd_value() -> Value {
    match pick(9) {
        0 => Value::Null,
        1 => json!(i64::MAX),
        2 => json!(i64::MIN),
        3 => json!(-1),
        4 => json!(one_of(TEXTS)),
        5 => json!([]),
        6 => json!({}),
        7 => json!([one_of(TEXTS), {"x": [null]}]),
        _ => json!(0.5),
    }
}

/// Changes one member, somewhere, to something else, or removes or empties it.
fn twist_value(v: &mut Value) {
    match v {
        Value::Object(o) if !o.is_empty() => {
            let k = one_of(&o.keys().cloned().collect::<Vec<_>>());
            match pick(4) {
                0 => _ = o.remove(&k),
                1 => _ = o.insert(k, odd_value()),
                _ => twist_value(&mut o[&k]),
            }
        }
        Value::Array(a) if !a.is_empty() => match pick(5) {
            0 => a.clear(),
            1 => a.push(a[0].clone()),
            2 => a.push(odd_value()),
            _ => {
                let k = pick(a.len() as u32) as usize;
                twist_value(&mut a[k]);
            }
        },
        v => *v = odd_value(),
    }
}

impl WalletProv {
    /// An issuer that answers whatever it likes, as long as it is an answer at all.
    fn twist<R: DeserializeOwned + Serialize>(&self, i: usize, ep: &str, r: R) -> R {
        if !self.flow(|f| f.hostile) || pick(3) == 0 {
            return r;
        }
        let mut v = json!(r);
        let key = with(|w| w.setup.issuers[i].key.clone());
        let other = with(|w| w.wallets.list[self.wallet].key.clone());
        if ep == "credential" && pick(4) > 0 {
            let old = v["credential"].as_str().or(v["credentials"][0].as_str()).unwrap_or_default().to_string();
            let mut c = with(|w| oracle::jwt(&old, &w.setup.dids)).map_or_else(|| json!({"iss": key.did, "iat": 1, "vc": {
                "@context": [], "type": ["VerifiableCredential"], "issuer": key.did, "credentialSubject": {"id": other.did}}}), |j| j.claims);
            for _ in 0..1 + pick(2) {
                if !c["vc"].is_object() {
                    break;
                }
                match pick(5) {
                    0 => c["iat"] = odd_value(),
                    1 => c["vc"]["id"] = odd_value(),
                    2 => {
                        if let Some(o) = c["vc"].as_object_mut() {
                            o.remove("id");
                        }
                    }
                    3 => c["exp"] = odd_value(),
                    _ => twist_value(&mut c),
                }
            }
            let typ = one_of(&["jwt", "jwt", "jwt", "openid4vci-proof+jwt", "vp+jwt"]);
            let jwt = oracle::sign_jwt(typ, &c, if pick(5) == 0 { &other } else { &key });
            if let Some(o) = v.as_object_mut() {
                for k in ["credential", "credentials", "transaction_id"] {
                    o.remove(k);
                }
                match pick(6) {
                    0 => o.insert("credentials".into(), json!([jwt, old])),
                    1 => o.insert("credentials".into(), json!([])),
                    2 => o.insert("credential".into(), c["vc"].clone()),
                    3 => o.insert("transaction_id".into(), json!(one_of(TEXTS))),
                    _ => o.insert("credential".into(), json!(jwt)),
                };
            }
        } else {
            for _ in 0..1 + pick(2) {
                twist_value(&mut v);
            }
        }
        match serde_json::from_value(v) {
            Ok(t) => {
                self.flow(|f| f.taint = true);
                with(|w| w.x.count("hostile_answer"));
                t
            }
            Err(_) => r,
        }
    }
}

impl p::HolderProvider for WalletProv {}

impl p::Issuer for WalletProv {
    async fn metadata(&self, req: oi::MetadataRequest) -> Result<oi::MetadataResponse> {
        let i = self.issuer(&req.credential_issuer)?;
        let r: oi::MetadataResponse = self.ask(Target::Issuer(i), "metadata", "MetadataResponse", &req).await?;
        let r = self.twist(i, "metadata", r);
        let v = json!(r.credential_issuer);
        self.flow(|f| f.meta = Some(v));
        Ok(r)
    }

    async fn oauth_server(&self, req: oi::OAuthServerRequest) -> Result<oi::OAuthServerResponse> {
        let i = self.issuer(&req.credential_issuer)?;
        self.ask(Target::Issuer(i), "oauth_server", "OAuthServerResponse", &req).await
    }

    async fn authorization(&self, req: oi::AuthorizationRequest) -> Result<oi::AuthorizationResponse> {
        let v = json!(req);
        let i = self.issuer(v["credential_issuer"].as_str().unwrap_or_default())?;
        let step = self.step;
        self.flow(|f| f.sent.push((step, "authorize", v)));
        let r = if with(|w| w.cut.contains(&self.node)) {
            sleep(net::TIMEOUT).await;
            Err(Fail::Lost)
        } else {
            let reply = net::authorize_raw(i, &req, pick(2) == 0).await;
            self.touched(reply.as_ref());
            net::finish("AuthorizationResponse", reply)
        };
        r.map_err(|e| {
            self.flow(|f| f.failed.push(step));
            anyhow!("authorize: {e:?}")
        })
    }

    async fn token(&self, req: oi::TokenRequest) -> Result<oi::TokenResponse> {
        let i = self.issuer(&req.credential_issuer)?;
        let r: oi::TokenResponse = self.ask(Target::Issuer(i), "token", "TokenResponse", &req).await?;
        let r = self.twist(i, "token", r);
        self.nonce(r.c_nonce.as_ref());
        let v = json!(r);
        self.flow(|f| f.tokens.push(v));
        Ok(r)
    }

    async fn credential(&self, req: oi::CredentialRequest) -> Result<oi::CredentialResponse> {
        let i = self.issuer(&req.credential_issuer)?;
        let cfg = self.flow(|f| asked_cfg(f, &json!(req)));
        let r: oi::CredentialResponse = self.ask(Target::Issuer(i), "credential", "CredentialResponse", &req).await?;
        let r = self.twist(i, "credential", r);
        self.received(&json!(r), cfg);
        self.nonce(r.c_nonce.as_ref());
        Ok(r)
    }

    async fn deferred(&self, req: oi::DeferredCredentialRequest) -> Result<oi::DeferredCredentialResponse> {
        let i = self.issuer(&req.credential_issuer)?;
        let cfg = self.flow(|f| f.deferred.get(&req.transaction_id).cloned());
        let r: oi::DeferredCredentialResponse =
            self.ask(Target::Issuer(i), "deferred", "DeferredCredentialResponse", &req).await?;
        let r = self.twist(i, "credential", r);
        self.received(&json!(r.credential_response), cfg);
        self.nonce(r.credential_response.c_nonce.as_ref());
        Ok(r)
    }

    async fn logo(&self, url: &str) -> Result<Logo> {
        let u = url.to_string();
        let l = io(self.node, "logo", false, move |_| {
            Ok(Logo { image: oracle::b64e(u.as_bytes()), media_type: "image/png".into() })
        })
        .await?;
        let v = json!(l);
        let u = url.to_string();
        self.flow(|f| f.logos.insert(u, v));
        Ok(l)
    }

    async fn notification(&self, req: oi::NotificationRequest) -> Result<oi::NotificationResponse> {
        let i = self.issuer(&req.credential_issuer)?;
        self.ask(Target::Issuer(i), "notification", "NotificationResponse", &req).await
    }
}

impl p::Verifier for WalletProv {
    async fn request_object(&self, req: &str) -> Result<ov::RequestObjectResponse> {
        let found = with(|w| {
            w.setup.verifiers.iter().enumerate().find_map(|(n, v)| {
                req.strip_prefix(&format!("{}/request/", v.id)).map(|t| (n, v.id.clone(), t.to_string()))
            })
        });
        let Some((v, id, token)) = found else {
            // a party that signs whatever it likes
            if let Some(s) = with(|w| w.wallets.planted.get(req).cloned()) {
                let t = s.clone();
                self.flow(|f| f.fetched.push(t));
                return Ok(ov::RequestObjectResponse { request_object: ov::RequestObjectType::Jwt(s) });
            }
            bail!("no verifier at {req}")
        };
        let r: ov::RequestObjectResponse = self
            .ask(Target::Verifier(v), "request_object", "RequestObjectResponse", &json!({"client_id": id, "id": token}))
            .await?;
        if let ov::RequestObjectType::Jwt(s) = &r.request_object {
            let s = s.clone();
            self.flow(|f| f.fetched.push(s));
        }
        Ok(r)
    }

    async fn present(&self, uri: Option<&str>, presentation: &ov::ResponseRequest) -> Result<ov::ResponseResponse> {
        let (step, body, to) = (self.step, json!(presentation), uri.map(str::to_string));
        self.flow(|f| f.shown.push((step, to, body)));
        // without a response URI the answer goes back to where the request came from
        let v = with(|w| match uri {
            Some(u) => w.setup.verifiers.iter().position(|v| u == v.id || u.starts_with(&format!("{}/", v.id))),
            None => {
                let state = presentation.state.clone().unwrap_or_default();
                (0..w.setup.verifiers.len()).find(|n| w.vmodel.sessions.contains_key(&(*n, state.clone())))
            }
        });
        let Some(v) = v else { bail!("no verifier at {uri:?}") };
        self.ask(Target::Verifier(v), "response", "ResponseResponse", presentation).await
    }
}

impl p::CredentialStorer for WalletProv {
    async fn save(&self, credential: &Credential) -> Result<()> {
        let c = credential.clone();
        let (n, flow) = (self.wallet, self.flow);
        io(self.node, "save", true, move |w| {
            check_saved(w, n, flow, &c);
            let x = &mut w.wallets.list[n];
            if x.flows.get(&flow).is_some_and(|f| f.hostile) {
                x.odd.insert(c.issued.clone());
            }
            w.wallets.list[n].creds.insert(c.issued.clone(), c);
            w.probe("wallet.saved");
            Ok(())
        })
        .await
    }

    async fn load(&self, id: &str) -> Result<Option<Credential>> {
        let (n, id) = (self.wallet, id.to_string());
        io(self.node, "load", false, move |w| Ok(w.wallets.list[n].creds.values().find(|c| c.id == id).cloned())).await
    }

    async fn find(&self, filter: Option<Constraints>) -> Result<Vec<Credential>> {
        let n = self.wallet;
        let flow = self.flow;
        io(self.node, "find", false, move |w| {
            let all: Vec<Credential> = usual(&w.wallets.list[n]).cloned().collect();
            let mut out = vec![];
            for c in all {
                let ok = match &filter {
                    None => true,
                    Some(f) => f.satisfied(&c.vc)?,
                };
                if ok {
                    out.push(c);
                }
            }
            let ids = out.iter().map(|c| c.issued.clone()).collect();
            w.wallets.list[n].flows.entry(flow).or_default().found = Some(ids);
            Ok(out)
        })
        .await
    }

    async fn remove(&self, id: &str) -> Result<()> {
        let (n, id) = (self.wallet, id.to_string());
        io(self.node, "remove", true, move |w| {
            w.wallets.list[n].creds.retain(|_, c| c.id != id);
            Ok(())
        })
        .await
    }
}

impl StateStore for WalletProv {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> {
        let store = with(|w| w.wallets.list[self.wallet].store);
        store_put(self.node, store, key, state, expiry).await
    }

    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        let store = with(|w| w.wallets.list[self.wallet].store);
        store_get(self.node, store, key).await
    }

    async fn purge(&self, key: &str) -> Result<()> {
        let store = with(|w| w.wallets.list[self.wallet].store);
        let r = store_purge(self.node, store, key).await;
        with(|w| {
            let saving = w.x.cur_call().and_then(|c| w.calls.recs.get(&c)).is_some_and(|c| {
                c.ep == "wallet.save" && c.overlaps.is_empty() && c.ops.last().is_some_and(|o| o.kind == "purge" && o.effect)
            });
            let x = &w.wallets.list[self.wallet];
            let lost = x.flows.get(&self.flow).and_then(|f| f.due.iter().find(|d| !x.creds.contains_key(*d))).cloned();
            if let (true, Some(l)) = (saving, lost) {
                w.violate(&["C14"], "wallet-dropped", format!("the flow was dropped while the store still lacks {l}"));
            }
        });
        r
    }
}

impl WalletProv {
    fn signer(&self) -> SimSigner {
        SimSigner { node: self.node, key: with(|w| w.wallets.list[self.wallet].key.clone()) }
    }
}

impl Signer for WalletProv {
    async fn sign(&self, msg: &[u8]) -> Vec<u8> {
        self.signer().sign(msg).await
    }

    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        self.signer().try_sign(msg).await
    }

    async fn public_key(&self) -> Result<Vec<u8>> {
        self.signer().public_key().await
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        with(|w| w.wallets.list[self.wallet].key.kid.clone())
    }
}

impl DidResolver for WalletProv {
    async fn resolve(&self, url: &str) -> Result<Document> {
        resolve_did(self.node, url).await
    }
}

// ---------------------------------------------------------------------------------------------------------------
// what must be true of what a wallet keeps and sends

/// The configuration a credential request is for, by the token that authorizes it or by the format it names.
fn asked_cfg(f: &Flow, req: &Value) -> Option<String> {
    if let Some(id) = req["credential_identifier"].as_str() {
        let d = f.tokens.last()?["authorization_details"].as_array()?;
        return d
            .iter()
            .find(|d| d["credential_identifiers"].as_array().is_some_and(|a| a.contains(&json!(id))))
            .and_then(|d| match d["credential_configuration_id"].as_str() {
                Some(c) => Some(c.to_string()),
                None => cfg_of_format(f, d),
            });
    }
    cfg_of_format(f, req)
}

fn cfg_of_format(f: &Flow, v: &Value) -> Option<String> {
    let confs = f.meta.as_ref()?["credential_configurations_supported"].as_object()?;
    confs
        .iter()
        .find(|(_, c)| {
            c["format"] == v["format"] && c["credential_definition"]["type"] == v["credential_definition"]["type"]
        })
        .map(|(k, _)| k.clone())
}

fn check_saved(w: &mut World, n: usize, flow: u64, c: &Credential) {
    let f = w.wallets.list[n].flows.entry(flow).or_default().clone();
    let fail = |w: &mut World, what: &str, detail: String| {
        w.violate(&["C14"], format!("stored:{what}"), format!("wallet {n} stores a credential {what}: {detail}"));
    };
    let Some(g) = f.got.iter().find(|g| g.jwt == c.issued) else {
        return fail(w, "this flow never received", c.issued.clone());
    };
    let Some(j) = oracle::jwt(&c.issued, &w.setup.dids).filter(|j| j.valid || j.loose) else {
        return fail(w, "whose signature is wrong", c.issued.clone());
    };
    if f.hostile {
        // what becomes of parts that are not what they should be is the wallet's own affair
        return;
    }
    let vc = &j.claims["vc"];
    if vc["id"].as_str().is_some_and(|id| id != c.id) || c.id.is_empty() {
        fail(w, "under another id", format!("{} instead of {}", c.id, vc["id"]));
    }
    let iss = vc["issuer"].as_str().or_else(|| vc["issuer"]["id"].as_str()).unwrap_or_default();
    if c.issuer != iss {
        fail(w, "with another issuer", format!("{} instead of {iss}", c.issuer));
    }
    if strip(&json!(c.vc)) != strip(vc) {
        fail(w, "with other content", format!("{} instead of {vc}", json!(c.vc)));
    }
    if j.claims["iat"].as_i64().is_some_and(|t| t != c.issuance_date.timestamp()) {
        fail(w, "with another date", format!("{} instead of {}", c.issuance_date, j.claims["iat"]));
    }
    let Some(cfg) = &g.cfg else { return };
    let display = f.meta.as_ref().map_or(Value::Null, |m| m["credential_configurations_supported"][cfg]["display"].clone());
    if strip(&json!(c.display)) != strip(&display) {
        fail(w, "with another display", format!("{} instead of {display} for {cfg}", json!(c.display)));
    }
    let uri = display[0]["logo"]["uri"].as_str();
    let logo = uri.and_then(|u| f.logos.get(u)).cloned().unwrap_or_default();
    if c.logo.is_some() && json!(c.logo) != logo {
        fail(w, "with another logo", format!("{} instead of {logo}", json!(c.logo)));
    }
}

/// What came of one step.
struct Out {
    /// No answer: the wallet died or took forever.
    res: Option<Result<Value, String>>,
    rec: CallRec,
    step: u64,
    /// Every call the step made was answered well.
    served: bool,
}

impl Out {
    fn ok(&self) -> Option<&Value> {
        self.res.as_ref().and_then(|r| r.as_ref().ok())
    }

    /// Nothing but the step itself can have made it fail.
    fn undisturbed(&self) -> bool {
        self.rec.faults == 0 && !self.rec.crashed && self.rec.overlaps.is_empty() && !self.rec.clock_moved && self.served
    }
}

/// Runs one step of the library on the wallet's node.
async fn step<T: Serialize + 'static, F: Future<Output = Result<T>> + 'static>(
    n: usize, flow: u64, name: &'static str, id: &str, f: impl FnOnce(WalletProv) -> F,
) -> Out {
    // wait for the wallet to be running
    for _ in 0..40 {
        let node = with(|w| w.wallets.list[n].node);
        if with(|w| w.x.nodes[node].up) {
            break;
        }
        sleep(5 * SEC).await;
    }
    let (node, no) = with(|w| (w.wallets.list[n].node, w.x.id()));
    let c = chan();
    let call = chan();
    let fut = f(WalletProv { wallet: n, node, flow, step: no });
    let key = format!("w{n}:{id}");
    spawn(Some(node), format!("{name}@wallet{n}"), async move {
        let a = audit::begin(name, node, vec![key]);
        send(call, Reply { ok: true, body: a.to_string().into_bytes(), meant: None });
        let r = fut.await;
        with(|w| audit::end(w, a));
        let r = r.map_err(|e| e.to_string()).and_then(|v| serde_json::to_value(v).map_err(|e| format!("{e}")));
        with(|w| w.x.ev(|| format!("{name} gives {r:?}")));
        send(
            c,
            match r {
                Ok(v) => Reply { ok: true, body: v.to_string().into_bytes(), meant: None },
                Err(e) => Reply { ok: false, body: e.into_bytes(), meant: None },
            },
        );
    });
    let mut waited = 0;
    let r = loop {
        if let Some(r) = recv(c, 30 * SEC).await {
            break Some(r);
        }
        waited += 1;
        let up = with(|w| w.x.nodes[node].up);
        let alive = with(|w| w.x.tasks.values().any(|t| t.name == format!("{name}@wallet{n}")));
        if !up || !alive || waited > 400 {
            break None;
        }
    };
    let a = recv(call, 0).await.and_then(|r| String::from_utf8(r.body).ok()).and_then(|s| s.parse::<u64>().ok());
    let rec = a.and_then(|a| with(|w| w.calls.recs.get(&a).cloned())).unwrap_or_default();
    let res = r.map(|r| {
        let s = String::from_utf8_lossy(&r.body).into_owned();
        if r.ok {
            Ok(serde_json::from_str::<Value>(&s).unwrap_or_default())
        } else {
            Err(s)
        }
    });
    let served = with(|w| {
        let f = w.wallets.list[n].flows.entry(flow).or_default();
        !f.taint && !f.failed.contains(&no)
    });
    with(|w| {
        w.probe(match &res {
            Some(Ok(_)) => "wallet.step_ok",
            Some(Err(_)) => "wallet.step_refused",
            None => "wallet.step_lost",
        });
    });
    Out { res, rec, step: no, served }
}

/// A flow's user: which wallet, which flow, which issuance.
#[derive(Clone)]
struct Run {
    n: usize,
    flow: u64,
    id: String,
    subject: String,
}

impl Run {
    fn flow<R>(&self, f: impl FnOnce(&mut Flow) -> R) -> R {
        with(|w| f(w.wallets.list[self.n].flows.entry(self.flow).or_default()))
    }

    fn fail(&self, class: impl Into<String>, detail: impl Into<String>) {
        with(|w| w.violate(&["C14"], class, detail));
    }

    /// Holds a step's outcome against the states the flow may have been in.
    fn judge(&self, name: &'static str, o: &Out, from: &[St], sound: bool, next: impl Fn(St) -> St) {
        if !o.rec.overlaps.is_empty() {
            // two steps of one flow at once: either may have come last
            let step = o.step;
            self.flow(|f| {
                f.mixed = true;
                f.doubt = true;
                f.at.extend(from.iter().map(|s| next(*s)));
                if matches!(o.res, Some(Ok(_))) {
                    f.good.insert(step);
                }
            });
            return;
        }
        let at = self.flow(|f| f.at.clone());
        let can: BTreeSet<St> = at.iter().copied().filter(|s| from.contains(s)).collect();
        let must = sound && can.len() == at.len();
        let may = sound && !can.is_empty();
        let after: BTreeSet<St> = can.iter().map(|s| next(*s)).collect();
        match &o.res {
            Some(Ok(_)) => {
                if !may {
                    self.fail(
                        format!("wallet-accepted:{name}"),
                        format!("{name} was carried out although the flow is at {at:?} (valid input: {sound})"),
                    );
                }
                if o.rec.failed_mut > 0 {
                    self.fail(format!("wallet-success:{name}"), format!("{name} reported success although a write failed"));
                }
                let step = o.step;
                self.flow(|f| {
                    f.good.insert(step);
                    if may && f.mixed {
                        f.at.extend(after);
                    } else if may {
                        f.at = after;
                    }
                });
            }
            Some(Err(e)) => {
                if must && o.undisturbed() {
                    with(|w| {
                        w.violate(
                            &["C14", "C07"],
                            format!("wallet-refused:{name}"),
                            format!("{name} failed without a cause, at {at:?}: {e}"),
                        );
                    });
                }
                if !may {
                    // out of order: nothing is sent and nothing changes
                    let step = o.step;
                    let sent = self.flow(|f| f.sent.iter().find(|s| s.0 == step).cloned());
                    if let Some((_, ep, v)) = sent {
                        self.fail(format!("wallet-sent:{name}"), format!("{name}, refused at {at:?}, still sent {ep} {v}"));
                    }
                    if o.rec.faults == 0 && o.rec.ops.iter().any(|x| x.effect && !x.same) {
                        self.fail(format!("wallet-changed:{name}"), format!("{name}, refused at {at:?}, changed the flow"));
                    }
                } else if o.rec.faults > 0 {
                    self.flow(|f| {
                        f.doubt = true;
                        f.at.extend(after);
                    });
                }
            }
            None => self.flow(|f| {
                f.doubt = true;
                f.at.extend(after);
            }),
        }
        let sent: Vec<(&'static str, Value)> = {
            let step = o.step;
            self.flow(|f| f.sent.iter().filter(|s| s.0 == step).map(|s| (s.1, s.2.clone())).collect())
        };
        for (ep, v) in sent {
            if v.get("access_token").is_some() {
                let mine = self.flow(|f| f.tokens.iter().any(|t| t["access_token"] == v["access_token"]));
                if !mine {
                    self.fail(format!("wallet-token:{ep}"), format!("{ep} is asked with a token this flow never got: {v}"));
                }
            }
        }
    }

    /// The requests one step sent to one endpoint.
    fn sent(&self, o: &Out, ep: &str) -> Vec<Value> {
        let step = o.step;
        self.flow(|f| f.sent.iter().filter(|s| s.0 == step && s.1 == ep).map(|s| s.2.clone()).collect())
    }

    fn same(&self, what: &str, got: &Value, want: &Value) {
        if strip(got) != strip(want) {
            self.fail(format!("wallet-asks:{what}"), format!("{what} is {got} and should be {want}"));
        }
    }
}

async fn run_accept(r: &Run, spec: &Option<Vec<Value>>, sound: bool, tx: bool) -> Out {
    let req = json!({"issuance_id": r.id, "accept": spec});
    let Ok(req) = serde_json::from_value::<hi::AcceptRequest>(req) else {
        with(|w| w.harness_errors.push("accept request".into()));
        return step(r.n, r.flow, "wallet.none", &r.id, |_| async { Ok(()) }).await;
    };
    let o = step(r.n, r.flow, "wallet.accept", &r.id, |p| async move { hi::accept(p, &req).await }).await;
    r.judge("wallet.accept", &o, &[St::Ready], sound, |_| if tx { St::Pin } else { St::Accepted });
    o
}

async fn run_pin(r: &Run, pin: &str) -> Out {
    let req = hi::PinRequest { issuance_id: r.id.clone(), pin: pin.to_string() };
    let o = step(r.n, r.flow, "wallet.pin", &r.id, |p| async move { hi::pin(p, &req).await }).await;
    r.judge("wallet.pin", &o, &[St::Pin], true, |_| St::Accepted);
    o
}

async fn run_token(r: &Run, pre: bool) -> Out {
    let id = r.id.clone();
    let o = step(r.n, r.flow, "wallet.token", &r.id, |p| async move { hi::token(p, &id).await }).await;
    r.judge("wallet.token", &o, &[St::Accepted], pre, |_| St::Token);
    o
}

/// Asks for credentials; checks what is asked.
async fn run_credentials(r: &Run, ids: Option<Vec<String>>, format: Option<Value>, client: &str) -> Out {
    let scope = format.is_some();
    let req = hi::CredentialsRequest {
        issuance_id: r.id.clone(),
        credential_identifiers: ids.clone(),
        format: format.and_then(|f| serde_json::from_value(f).ok()),
    };
    let o = step(r.n, r.flow, "wallet.credentials", &r.id, |p| async move { hi::credentials(p, &req).await }).await;
    r.judge("wallet.credentials", &o, &[St::Token], true, |s| s);
    let sent = r.sent(&o, "credential");
    let (tok, key) = (r.flow(|f| f.tokens.last().cloned()), with(|w| w.wallets.list[r.n].key.clone()));
    if let (false, Some(tok)) = (scope, &tok) {
        let mut want: Vec<String> = vec![];
        for d in tok["authorization_details"].as_array().into_iter().flatten() {
            for i in d["credential_identifiers"].as_array().into_iter().flatten().filter_map(Value::as_str) {
                if ids.as_ref().is_none_or(|x| x.iter().any(|y| y == i)) {
                    want.push(i.to_string());
                }
            }
        }
        let got: Vec<String> =
            sent.iter().map(|v| v["credential_identifier"].as_str().unwrap_or_default().to_string()).collect();
        let mut left = want.clone();
        let extra = got.iter().find(|g| match left.iter().position(|x| x == *g) {
            Some(k) => {
                left.remove(k);
                false
            }
            None => true,
        });
        if let Some(e) = extra {
            r.fail("wallet-asks:identifier", format!("{e:?} is asked for, {want:?} is wanted"));
        }
        if o.ok().is_some() && !left.is_empty() {
            r.fail("wallet-asks:too-little", format!("{got:?} was asked for, {want:?} is wanted"));
        }
    }
    let mut last: Option<String> = None;
    let nonces = r.flow(|f| f.nonces.clone());
    for v in &sent {
        let meta = r.flow(|f| f.meta.clone()).unwrap_or_default();
        r.same("the credential issuer", &v["credential_issuer"], &meta["credential_issuer"]);
        let jwt = v["proof"]["jwt"].as_str().unwrap_or_default();
        let j = with(|w| oracle::jwt(jwt, &w.setup.dids));
        let Some(j) = j.filter(|j| j.valid && j.did == key.did) else {
            r.fail("wallet-proof:signature", format!("the key proof {jwt} is not signed by the wallet's key"));
            continue;
        };
        r.same("the audience of the key proof", &j.claims["aud"], &meta["credential_issuer"]);
        r.same("the issuer of the key proof", &j.claims["iss"], &json!(client));
        let nonce = j.claims["nonce"].as_str().map(str::to_string);
        let taint = r.flow(|f| f.taint);
        if !taint && !nonce.as_ref().is_some_and(|n| nonces.iter().any(|x| &x.1 == n)) {
            r.fail("wallet-proof:nonce", format!("the key proof has nonce {nonce:?}, the flow was given {nonces:?}"));
        }
        if last.is_some() && last == nonce && nonces.iter().filter(|x| x.0 == o.step).count() >= sent.len() {
            r.fail("wallet-proof:reuse", format!("two key proofs of one step use nonce {nonce:?}"));
        }
        last = nonce;
    }
    if let (Some(v), true) = (o.ok(), o.rec.overlaps.is_empty()) {
        let step = o.step;
        r.flow(|f| {
            let new: Vec<String> = f.got.iter().filter(|g| g.step == step).map(|g| g.jwt.clone()).collect();
            f.due.extend(new);
        });
        note_deferred(r, v);
    }
    o
}

fn note_deferred(r: &Run, v: &Value) {
    let d: BTreeMap<String, String> = v["deferred"]
        .as_object()
        .into_iter()
        .flatten()
        .map(|(k, v)| (k.clone(), v.as_str().unwrap_or_default().to_string()))
        .collect();
    let strange = r.flow(|f| d.keys().find(|k| !f.txns.contains(*k)).cloned());
    if let Some(k) = strange {
        r.fail("wallet-deferred", format!("the flow was never given transaction {k}"));
    }
    r.flow(|f| f.deferred = d);
}

async fn run_deferred(r: &Run, txn: &str, cfg: &str) -> Out {
    let req = hi::DeferredRequest {
        issuance_id: r.id.clone(),
        transaction_id: txn.to_string(),
        credential_configuration_id: cfg.to_string(),
    };
    let before = r.flow(|f| f.deferred.clone());
    let o = step(r.n, r.flow, "wallet.deferred", &r.id, |p| async move { hi::deferred(p, &req).await }).await;
    r.judge("wallet.deferred", &o, &[St::Token], true, |s| s);
    for v in r.sent(&o, "deferred") {
        r.same("the transaction", &v["transaction_id"], &json!(txn));
    }
    if let (Some(v), true) = (o.ok(), o.rec.overlaps.is_empty()) {
        let step = o.step;
        r.flow(|f| {
            let new: Vec<String> = f.got.iter().filter(|g| g.step == step).map(|g| g.jwt.clone()).collect();
            f.due.extend(new);
        });
        note_deferred(r, v);
        let mut want = before;
        want.remove(txn);
        let now = r.flow(|f| f.deferred.clone());
        if o.undisturbed() && !r.flow(|f| f.doubt) && now != want {
            r.fail("wallet-deferred:left", format!("after {txn} {now:?} is outstanding, {want:?} should be"));
        }
    }
    o
}

/// Saves; everything received must then be in the store.
async fn run_save(r: &Run) -> Out {
    let req = hi::SaveRequest { issuance_id: r.id.clone() };
    let more = !r.flow(|f| f.deferred.is_empty());
    let o = step(r.n, r.flow, "wallet.save", &r.id, |p| async move { hi::save(p, &req).await }).await;
    let live = [St::Ready, St::Pin, St::Accepted, St::Token];
    r.judge("wallet.save", &o, &live, true, |s| if more && s == St::Token { s } else { St::Gone });
    // whether anything is still to come is known to the wallet alone once a step ended in doubt
    r.flow(|f| {
        if more && f.doubt {
            f.at.insert(St::Gone);
        }
    });
    if o.ok().is_some() && o.rec.overlaps.is_empty() {
        let lost = with(|w| {
            let x = &w.wallets.list[r.n];
            x.flows[&r.flow].due.iter().find(|d| !x.creds.contains_key(*d)).cloned()
        });
        if let Some(l) = lost {
            r.fail("wallet-lost", format!("after saving, the store lacks {l}"));
        }
        with(|w| w.probe("wallet.save_ok"));
    }
    o
}

async fn run_cancel(r: &Run) -> Out {
    let req = hi::CancelRequest { issuance_id: r.id.clone() };
    let o = step(r.n, r.flow, "wallet.cancel", &r.id, |p| async move { hi::cancel(p, &req).await }).await;
    let live = [St::Ready, St::Pin, St::Accepted, St::Token];
    r.judge("wallet.cancel", &o, &live, true, |_| St::Gone);
    // a step running at the same time may bring the flow back
    if o.ok().is_some() && o.rec.overlaps.is_empty() && !r.flow(|f| f.mixed) {
        let id = r.id.clone();
        with(|w| w.wallets.list[r.n].ended.push(id));
    }
    o
}

/// A step nobody asked for, in whatever state the flow is.
async fn stray(r: &Run, pre: bool, tx: bool, client: &str) {
    let ended = with(|w| w.wallets.list[r.n].ended.clone());
    let other = if !ended.is_empty() && pick(3) == 0 {
        one_of(&ended)
    } else {
        "nonsense".to_string()
    };
    let mut r = r.clone();
    if pick(4) == 0 {
        // a flow that is over or never was
        r = Run { n: r.n, flow: with(|w| w.x.id()), id: other, subject: r.subject.clone() };
        r.flow(|f| f.at = BTreeSet::from([St::Gone]));
    } else {
        // only steps the flow is not ready for: the others would be ordinary progress
    }
    let at = r.flow(|f| f.at.clone());
    match pick(6) {
        0 if !at.contains(&St::Ready) => drop(run_accept(&r, &None, true, tx).await),
        1 if !at.contains(&St::Pin) => drop(run_pin(&r, "123456").await),
        2 if !at.contains(&St::Accepted) => drop(run_token(&r, pre).await),
        3 if !at.contains(&St::Token) => drop(run_credentials(&r, None, None, client).await),
        4 if !at.contains(&St::Token) => drop(run_deferred(&r, "nonsense", EMP).await),
        5 if at == BTreeSet::from([St::Gone]) => drop(run_save(&r).await),
        _ => {}
    }
}

/// Claims to accept of a configuration: all, or some of them.
fn some_claims(i: usize, cfg: &str) -> Value {
    let c = with(|w| json!(w.setup.issuers[i].meta.credential_configurations_supported.get(cfg)));
    let cs = if cfg == MDL { &c["claims"] } else { &c["credential_definition"]["credentialSubject"] };
    let Some(cs) = cs.as_object() else { return Value::Null };
    let mut out = serde_json::Map::new();
    for (k, v) in cs {
        if crate::issue::has_mandatory(v) || pick(2) == 0 {
            out.insert(k.clone(), v.clone());
        }
    }
    if out.is_empty() {
        Value::Null
    } else {
        Value::Object(out)
    }
}

/// The details an acceptance stands for.
fn details_of(spec: &Option<Vec<Value>>) -> Value {
    match spec {
        None => Value::Null,
        Some(s) => json!(s
            .iter()
            .map(|s| {
                let mut d = json!({"type": "openid_credential", "credential_configuration_id": s["credential_configuration_id"]});
                if s["claims"].is_object() && s["credential_configuration_id"] == MDL {
                    d["claims"] = s["claims"].clone();
                } else if s["claims"].is_object() {
                    d["credential_definition"] = json!({"credentialSubject": s["claims"]});
                }
                d
            })
            .collect::<Vec<_>>()),
    }
}

macro_rules! go {
    ($m:expr, $what:literal, $o:expr) => {{
        let o = $o;
        match &o.res {
            Some(Ok(v)) => v.clone(),
            Some(Err(e)) if $m.honest => return stuck(format!("{}: {e}", $what)),
            None if $m.honest => return stuck(format!("{}: no answer", $what)),
            _ => return Err(Stop::Given),
        }
    }};
}

/// Repeats a step the wallet died in, or that failed, once or twice.
macro_rules! again {
    ($m:expr, $what:literal, $e:expr) => {{
        let mut left = 2;
        loop {
            let o = $e;
            if o.ok().is_none() && !$m.honest && left > 0 && (o.res.is_none() || chance(600)) {
                left -= 1;
                continue;
            }
            break go!($m, $what, o);
        }
    }};
}

/// One issuance through the wallet library.
pub async fn issuance(n: usize, i: usize, m: Mode) -> Res<()> {
    let flow = with(|w| w.x.id());
    if !m.honest && chance(80) {
        with(|w| w.wallets.list[n].flows.entry(flow).or_default().hostile = true);
    }
    let client = if m.honest || chance(800) { CLIENT_OK } else { CLIENT_OTHER };
    let redirect = if client == CLIENT_OK { REDIRECT } else { REDIRECT_OTHER };
    let r = match pick(4) {
        0 | 1 => offered(n, i, m, flow, client, redirect).await?,
        2 => wallet_details(n, i, m, flow, client, redirect).await?,
        _ => return wallet_scope(n, i, m, flow, client, redirect).await,
    };
    collect(&r, i, m, client, vec![]).await
}

fn server_has(i: usize, g: &str) -> bool {
    with(|w| json!(w.setup.issuers[i].server.oauth.grant_types_supported).as_array().is_some_and(|a| a.contains(&json!(g))))
}

fn par_only(i: usize) -> bool {
    with(|w| json!(w.setup.issuers[i].server)["require_pushed_authorization_requests"] == json!(true))
}

/// From an issuer's offer to a token.
async fn offered(n: usize, i: usize, m: Mode, flow: u64, client: &str, redirect: &str) -> Res<Run> {
    let pre = if m.honest { server_has(i, PREAUTH) } else { pick(2) == 0 };
    if !pre && m.honest && (!server_has(i, "authorization_code") || par_only(i)) {
        return Err(Stop::Given);
    }
    let grants: &[&str] = match (pre, m.honest || pick(4) > 0) {
        (true, true) => &[PREAUTH],
        (false, true) => &["authorization_code"],
        _ => &[PREAUTH, "authorization_code"],
    };
    let o = get_offer(i, m, grants).await?;
    pause(m).await;
    let mut g = serde_json::Map::new();
    if let Some(c) = &o.pre {
        g.insert(PREAUTH.into(), json!({"pre-authorized_code": c}));
        if o.tx_code.is_some() {
            g[PREAUTH]["tx_code"] = json!({"input_mode": "numeric", "length": 6});
        }
    }
    if let Some(s) = &o.state {
        g.insert("authorization_code".into(), json!({"issuer_state": s}));
    }
    let mut offer = json!({"credential_issuer": issuer_id(i), "credential_configuration_ids": o.cfgs, "grants": g});
    let mut sound = !o.cfgs.is_empty();
    if mutate(m) {
        match pick(3) {
            0 => {
                offer["credential_configuration_ids"] = json!([]);
                sound = false;
            }
            1 => {
                offer["credential_configuration_ids"] = json!([EMP, "no_such_credential"]);
                sound = false;
            }
            _ => {
                offer["credential_issuer"] = json!("http://elsewhere.sim");
                sound = false;
            }
        }
    }
    if g.is_empty() && !m.honest {
        return Err(Stop::Given);
    }
    let Ok(offer) = serde_json::from_value::<oi::CredentialOffer>(offer.clone()) else {
        return stuck(format!("the offer {offer} cannot be read"));
    };
    let req = hi::OfferRequest { client_id: client.into(), subject_id: o.subject.clone(), offer: offer.clone() };
    let mut r = Run { n, flow, id: String::new(), subject: o.subject.clone() };
    let res = loop {
        let req = req.clone();
        let out = step(n, flow, "wallet.offer", "", |p| async move { hi::offer(p, &req).await }).await;
        match &out.res {
            Some(Ok(v)) => {
                if !sound {
                    r.fail("wallet-accepted:wallet.offer", format!("an offer of {offer:?} was taken"));
                }
                break v.clone();
            }
            Some(Err(e)) => {
                if sound && out.undisturbed() {
                    // metadata that travelled badly may lack what is offered
                    let missing = r.flow(|f| f.meta.clone()).is_none_or(|meta| {
                        o.cfgs.iter().any(|c| meta["credential_configurations_supported"].get(c).is_none())
                    });
                    if !missing {
                        r.fail("wallet-refused:wallet.offer", format!("an offer of {offer:?} was refused: {e}"));
                    }
                }
                if m.honest {
                    return stuck(format!("offer: {e}"));
                }
                return Err(Stop::Given);
            }
            None if m.honest => return stuck("offer: no answer"),
            None if chance(500) => {}
            None => return Err(Stop::Given),
        }
    };
    r.id = res["issuance_id"].as_str().unwrap_or_default().to_string();
    if r.id.is_empty() || res["issuer"] != json!(issuer_id(i)) {
        r.fail("wallet-offer", format!("the offer step answers {res}"));
    }
    let meta = r.flow(|f| {
        f.at = BTreeSet::from([St::Ready]);
        f.meta.clone()
    });
    // what is shown to the user is what the issuer offers and says of it
    let shown: BTreeMap<String, Value> =
        res["offered"].as_object().into_iter().flatten().map(|(k, v)| (k.clone(), strip(v))).collect();
    let want: BTreeMap<String, Value> = o
        .cfgs
        .iter()
        .map(|c| {
            let v = meta.as_ref().map_or(Value::Null, |m| m["credential_configurations_supported"][c].clone());
            (c.clone(), strip(&v))
        })
        .collect();
    if shown != want {
        r.fail("wallet-shown", format!("{shown:?} is shown for an offer of {want:?}"));
    }
    r.same("the grants shown", &res["grants"], &json!(offer.grants));

    let tx = o.tx_code.is_some() && o.pre.is_some();
    let has_pre = o.pre.is_some();
    // the wallet takes only what it can keep
    let mut keep: Vec<String> = o.cfgs.iter().filter(|c| MINE.contains(&c.as_str())).cloned().collect();
    // a choice can also be of something the wallet cannot keep, or of a credential without claims
    let mut odd = false;
    if mutate(m) && o.cfgs.iter().any(|c| c == MDL) {
        keep.push(MDL.into());
        odd = true;
    }
    if keep.is_empty() {
        if chance(500) {
            run_cancel(&r).await;
        }
        return Err(Stop::Given);
    }
    let whole = keep.len() == o.cfgs.len();
    let spec = if whole && !odd && pick(2) == 0 {
        None
    } else {
        if keep.len() > 1 && pick(2) == 0 {
            keep.truncate(1 + pick(keep.len() as u32 - 1) as usize);
        }
        Some(
            keep.iter()
                .map(|c| {
                    let mut s = json!({"credential_configuration_id": c});
                    let cl = if pick(2) == 0 { some_claims(i, c) } else { Value::Null };
                    if cl.is_object() {
                        s["claims"] = cl;
                    } else if mutate(m) {
                        s["claims"] = json!({});
                        odd = true;
                    }
                    s
                })
                .collect::<Vec<_>>(),
        )
    };
    if mutate(m) {
        stray(&r, has_pre, tx, client).await;
    }
    if mutate(m) {
        // acceptances that mean nothing
        let bad = match pick(2) {
            0 => Some(vec![]),
            _ => Some(vec![json!({"credential_configuration_id": "no_such_credential", "claims": {"email": {}}})]),
        };
        drop(run_accept(&r, &bad, false, tx).await);
    }
    pause(m).await;
    again!(m, "accept", run_accept(&r, &spec, true, tx).await);
    if mutate(m) {
        stray(&r, has_pre, tx, client).await;
    }
    if mutate(m) && pick(3) == 0 {
        run_cancel(&r).await;
        stray(&r, has_pre, tx, client).await;
        stray(&r, has_pre, tx, client).await;
        return Err(Stop::Given);
    }
    let mut pin = Value::Null;
    if tx {
        let mut code = o.tx_code.clone().unwrap_or_default();
        if mutate(m) {
            code = one_of(&["000000", "1", ""]).to_string();
        }
        pause(m).await;
        again!(m, "pin", run_pin(&r, &code).await);
        pin = json!(code);
    }
    let details = details_of(&spec);
    let via_code = o.state.is_some() && (!has_pre || pick(2) == 0);
    if !via_code {
        if mutate(m) {
            stray(&r, has_pre, tx, client).await;
        }
        let out = run_token(&r, has_pre).await;
        for v in r.sent(&out, "token") {
            let mut want = json!({
                "credential_issuer": issuer_id(i), "client_id": client, "grant_type": PREAUTH,
                "pre-authorized_code": o.pre, "tx_code": pin, "authorization_details": details
            });
            want.as_object_mut().map(|o| o.retain(|_, v| !v.is_null()));
            r.same("the token request", &v, &want);
        }
        if odd {
            return Err(Stop::Given);
        }
        if out.ok().is_none() && !m.honest && chance(500) {
            // the code may be spent, or the wallet may not know that it has the token
            let again = run_token(&r, has_pre).await;
            go!(m, "token", again);
        } else {
            go!(m, "token", out);
        }
    } else {
        let who = json!({"Issuer": {"issuance_id": r.id}});
        // the choice can be made, or made again, at this step
        let explicit = !odd && pick(3) == 0;
        let mut details = details;
        if explicit {
            keep.truncate(1 + pick(keep.len() as u32) as usize);
            let mut spec = vec![];
            for c in &keep {
                let mut s = json!({"credential_configuration_id": c});
                let cl = if pick(2) == 0 { some_claims(i, c) } else { Value::Null };
                if cl.is_object() {
                    s["claims"] = cl;
                }
                spec.push(s);
            }
            details = details_of(&Some(spec));
        }
        authorize(&r, i, m, who, client, redirect, &details, None, o.state.as_ref(), &o, explicit).await?;
        if odd {
            return Err(Stop::Given);
        }
    }
    Ok(r)
}

/// The authorization step, and what it must send.
#[allow(clippy::too_many_arguments)]
async fn authorize(
    r: &Run, i: usize, m: Mode, initiator: Value, client: &str, redirect: &str, details: &Value, scope: Option<&str>,
    state: Option<&String>, o: &crate::issue::Offer, explicit: bool,
) -> Res<Value> {
    let mut req = json!({"initiator": initiator, "redirect_uri": redirect});
    let by_wallet = initiator.get("Wallet").is_some();
    if explicit && !details.is_null() {
        req["authorization_details"] = details.clone();
    }
    let Ok(req) = serde_json::from_value::<hi::AuthorizeRequest>(req.clone()) else {
        with(|w| w.harness_errors.push(format!("authorize request {req}")));
        return Err(Stop::Given);
    };
    let out = step(r.n, r.flow, "wallet.authorize", &r.id, |p| async move { hi::authorize(p, &req).await }).await;
    if by_wallet {
        r.flow(|f| f.at = BTreeSet::from([St::Accepted]));
    }
    r.judge("wallet.authorize", &out, &[St::Accepted], true, |_| St::Token);
    let mut challenge = Value::Null;
    for v in r.sent(&out, "authorize") {
        challenge = v["code_challenge"].clone();
        r.same("the client", &v["client_id"], &json!(client));
        r.same("the redirect", &v["redirect_uri"], &json!(redirect));
        r.same("the subject", &v["subject_id"], &json!(o.subject));
        r.same("the challenge method", &v["code_challenge_method"], &json!("S256"));
        r.same("the issuer state", &v["issuer_state"], &json!(state));
        r.same("the scope", &v["scope"], &json!(scope));
        let want = match (details.is_null(), scope) {
            (false, _) => details.clone(),
            (true, Some(_)) => Value::Null,
            // everything on offer, with every claim
            (true, None) => Value::Null,
        };
        if !want.is_null() {
            r.same("the details", &v["authorization_details"], &want);
        } else if scope.is_none() {
            let got: BTreeSet<String> = v["authorization_details"]
                .as_array()
                .into_iter()
                .flatten()
                .filter_map(|d| d["credential_configuration_id"].as_str().map(str::to_string))
                .collect();
            if got != o.cfgs.iter().cloned().collect() {
                r.fail("wallet-asks:details", format!("{got:?} is asked for of {:?}", o.cfgs));
            }
        } else {
            r.same("the details", &v["authorization_details"], &Value::Null);
        }
    }
    for v in r.sent(&out, "token") {
        r.same("the client", &v["client_id"], &json!(client));
        r.same("the redirect", &v["redirect_uri"], &json!(redirect));
        r.same("the details of the token request", &v["authorization_details"], details);
        if let Some(cv) = v["code_verifier"].as_str() {
            with(|w| w.secret("wallet verifier", cv));
        }
        let s256 = oracle::s256(v["code_verifier"].as_str().unwrap_or_default());
        r.same("the code verifier", &json!(s256), &challenge);
    }
    let _ = i;
    Ok(go!(m, "authorize", out))
}

/// The wallet asks by itself, naming configurations.
async fn wallet_details(n: usize, i: usize, m: Mode, flow: u64, client: &str, redirect: &str) -> Res<Run> {
    if m.honest && (!server_has(i, "authorization_code") || par_only(i)) {
        return Err(Stop::Given);
    }
    let subject = format!("subject{}", pick(3));
    let have: Vec<&str> =
        MINE.iter().copied().filter(|c| with(|w| w.setup.subjects[&subject].grants.contains_key(*c))).collect();
    let mut cfgs: Vec<String> = have.iter().filter(|_| pick(2) == 0).map(|s| (*s).to_string()).collect();
    if cfgs.is_empty() {
        cfgs.push(one_of(&have).to_string());
    }
    let spec: Vec<Value> = cfgs
        .iter()
        .map(|c| {
            let mut s = json!({"credential_configuration_id": c});
            let cl = if pick(2) == 0 { some_claims(i, c) } else { Value::Null };
            if cl.is_object() {
                s["claims"] = cl;
            }
            s
        })
        .collect();
    let details = details_of(&Some(spec));
    let mut r = Run { n, flow, id: String::new(), subject: subject.clone() };
    let who = json!({"Wallet": {"client_id": client, "issuer": issuer_id(i), "subject_id": subject}});
    let o = crate::issue::Offer { cfgs, subject, ..Default::default() };
    let v = authorize(&r, i, m, who, client, redirect, &details, None, None, &o, true).await?;
    r.id = v["issuance_id"].as_str().unwrap_or_default().to_string();
    Ok(r)
}

/// The wallet asks by itself, with a scope.
async fn wallet_scope(n: usize, i: usize, m: Mode, flow: u64, client: &str, redirect: &str) -> Res<()> {
    if m.honest && (!server_has(i, "authorization_code") || par_only(i)) {
        return Err(Stop::Given);
    }
    // a scope the subject has every credential of
    let subject = format!("subject{}", pick(3));
    let all: Vec<(String, Value)> = with(|w| {
        let c = &w.setup.issuers[i].meta.credential_configurations_supported;
        let mut v: Vec<_> = c.iter().map(|(k, v)| (k.clone(), json!(v))).collect();
        v.sort_by(|a, b| a.0.cmp(&b.0));
        v
    });
    let has = |c: &str| with(|w| w.setup.subjects[&subject].grants.contains_key(c));
    let scopes = ["EmployeeIDCredential", "StaffCredential", "StaffCredentialGold"];
    let whole = |s: &str| all.iter().filter(|(_, v)| v["scope"] == json!(s)).all(|(k, _)| has(k));
    let scopes: Vec<&str> = scopes.into_iter().filter(|s| whole(s)).collect();
    let scope = one_of(&scopes).to_string();
    let mut of: Vec<(String, Value)> = all.into_iter().filter(|(_, v)| v["scope"] == json!(scope)).collect();
    if pick(2) == 1 {
        of.reverse();
    }
    of.truncate(1 + pick(of.len() as u32) as usize);
    let cfgs: Vec<String> = of.iter().map(|x| x.0.clone()).collect();
    let mut r = Run { n, flow, id: String::new(), subject: subject.clone() };
    let who =
        json!({"Wallet": {"client_id": client, "issuer": issuer_id(i), "subject_id": subject, "scope": scope}});
    let o = crate::issue::Offer { cfgs, subject, ..Default::default() };
    let v = authorize(&r, i, m, who, client, redirect, &Value::Null, Some(&scope), None, &o, false).await?;
    r.id = v["issuance_id"].as_str().unwrap_or_default().to_string();
    let mut formats: Vec<Value> = of.into_iter().map(|x| x.1).collect();
    for f in &mut formats {
        f.as_object_mut().map(|o| o.retain(|k, _| ["format", "credential_definition"].contains(&k.as_str())));
    }
    collect(&r, i, m, client, formats).await
}

/// From a token to stored credentials.
async fn collect(r: &Run, _i: usize, m: Mode, client: &str, formats: Vec<Value>) -> Res<()> {
    let tok = r.flow(|f| f.tokens.last().cloned()).unwrap_or_default();
    let mut ids: Vec<String> = tok["authorization_details"]
        .as_array()
        .into_iter()
        .flatten()
        .flat_map(|d| d["credential_identifiers"].as_array().cloned().unwrap_or_default())
        .filter_map(|v| v.as_str().map(str::to_string))
        .collect();
    // everything at once, some of it, or in two goes
    let mut goes: Vec<(Option<Vec<String>>, Option<Value>)> = if !formats.is_empty() {
        formats.into_iter().map(|f| (None, Some(f))).collect()
    } else if !ids.is_empty() && pick(3) == 0 {
        let rest = ids.split_off(1 + pick(ids.len() as u32) as usize);
        let mut v = vec![(Some(ids), None)];
        if !rest.is_empty() && pick(2) == 1 {
            v.push((Some(rest), None));
        }
        match pick(12) {
            0 => v.insert(0, (Some(vec![]), None)),
            1 => v.push((Some(vec!["nothing of the kind".into(), String::new()]), None)),
            _ => {}
        }
        v
    } else {
        vec![(None, None)]
    };
    let later = goes.split_off(1 + pick(goes.len() as u32) as usize);
    if mutate(m) {
        stray(r, false, false, client).await;
    }
    pause(m).await;
    if mutate(m) && pick(2) == 0 {
        // an impatient user asks twice at once
        let (r2, (ids2, f2), c2) = (r.clone(), goes[0].clone(), client.to_string());
        with(|w| w.x.count("double_fire"));
        spawn(None, "wallet-again", async move {
            drop(run_credentials(&r2, ids2, f2, &c2).await);
        });
    }
    for (ids, f) in &goes {
        again!(m, "credentials", run_credentials(r, ids.clone(), f.clone(), client).await);
    }
    let mut latest = with(|w| w.x.now);
    if mutate(m) && pick(3) == 0 {
        run_cancel(r).await;
        stray(r, false, false, client).await;
        return Err(Stop::Given);
    }
    if pick(3) == 0 && !r.flow(|f| f.deferred.is_empty()) {
        // keep what is there already
        again!(m, "save", run_save(r).await);
    }
    let outstanding = r.flow(|f| f.deferred.clone());
    for (txn, cfg) in outstanding {
        let ready = with(|w| {
            let Some(s) = w.setup.subjects.get(&r.subject) else { return 0 };
            let of = s.grants.get(&cfg).into_iter().flatten().filter_map(|i| s.data.get(i));
            of.map(|d| d.ready_at).max().unwrap_or_default()
        });
        let wait = (ready - with(|w| w.x.now)) / SEC + 1;
        if m.honest {
            if wait > 700 {
                continue;
            }
            sleep(wait.max(0) * SEC).await;
            go!(m, "deferred", run_deferred(r, &txn, &cfg).await);
            latest = with(|w| w.x.now);
            continue;
        }
        let mut left = 3;
        while left > 0 {
            left -= 1;
            let s = if pick(2) == 0 { wait.max(0) } else { i64::from(pick(300)) };
            sleep(s * SEC).await;
            let o = run_deferred(r, &txn, &cfg).await;
            if o.ok().is_some() {
                break;
            }
        }
    }
    for (ids, f) in &later {
        // a nonce lasts ten minutes
        if m.honest && with(|w| w.x.now) - latest > 400 * SEC {
            break;
        }
        pause(m).await;
        with(|w| w.probe("wallet.second_go"));
        again!(m, "credentials", run_credentials(r, ids.clone(), f.clone(), client).await);
        latest = with(|w| w.x.now);
    }
    again!(m, "save", run_save(r).await);
    if mutate(m) {
        stray(r, false, false, client).await;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------

/// A request no honest verifier makes: the text the wallet is given, and what it says if it needs no fetching.
fn strange_request(n: usize, honest: &Value) -> (String, Option<Value>) {
    let mut d = honest.clone();
    let second = json!({"id": "two", "constraints": {"fields": [{"path": ["$.type"], "optional": true}]}});
    match pick(12) {
        0 => d["presentation_definition"]["input_descriptors"] = json!([]),
        1 => d["presentation_definition"] = json!("https://elsewhere.example/definition"),
        2 => d["presentation_definition"]["input_descriptors"][0]["constraints"] = json!({}),
        3 => d["presentation_definition"]["input_descriptors"][0]["constraints"]["fields"] = json!([]),
        4 => {
            if let Some(a) = d["presentation_definition"]["input_descriptors"].as_array_mut() {
                a.push(second);
            }
        }
        5 => d["response_uri"] = json!(["https://elsewhere.example/post", "", "/", "https://elsewhere.example///"][pick(4) as usize]),
        6 => d["nonce"] = json!(one_of(TEXTS)),
        7 => d["state"] = json!(one_of(TEXTS)),
        8 => d["client_id"] = json!(one_of(TEXTS)),
        9 => d["presentation_definition"]["input_descriptors"][0]["constraints"] =
            json!({"fields": [{"path": [one_of(&["", "$", "$..", "$[", "$.a[?@.b == 'c']", "$.type"]).to_string()],
                "filter": {"type": "string", "pattern": one_of(&["(", "", "a{2,1}", "\\", "(?P<x>a)"]).to_string()}}]}),
        10 => d["presentation_definition"]["id"] = json!(one_of(TEXTS)),
        _ => {
            if let Some(o) = d.as_object_mut() {
                let k: Vec<String> = o.keys().cloned().collect();
                o.remove(&one_of(&k));
            }
        }
    }
    with(|w| w.x.count("strange_request"));
    if pick(2) == 0 {
        if let Some(q) =
            serde_json::from_value::<ov::RequestObject>(d.clone()).ok().and_then(|o| o.to_querystring().ok())
        {
            return (q, Some(d));
        }
    }
    let uri = format!("https://elsewhere.example/request/{}", with(|w| w.x.id()));
    let key = with(|w| {
        let v = w.setup.verifiers[0].key.clone();
        [v, w.wallets.list[n].key.clone()]
    })[pick(2) as usize]
        .clone();
    let jwt = oracle::sign_jwt("oauth-authz-req+jwt", &d, &key);
    with(|w| w.wallets.planted.insert(uri.clone(), jwt));
    (uri, None)
}

/// One presentation through the wallet library.
pub async fn presentation(n: usize, v: usize, m: Mode) -> Res<()> {
    let flow = with(|w| w.x.id());
    let r = Run { n, flow, id: String::new(), subject: String::new() };
    let creds: Vec<Value> = with(|w| usual(&w.wallets.list[n]).map(|c| json!(c.vc)).collect());
    if creds.is_empty() {
        return Err(Stop::Given);
    }
    let vc = one_of(&creds);
    let cons = if pick(3) > 0 { matching::met_by(&vc) } else { None }.unwrap_or_else(|| {
        let t = match &vc["type"] {
            Value::Array(a) => a.last().cloned().unwrap_or_default(),
            t => t.clone(),
        };
        json!({"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": t}}]})
    });
    let cross = pick(2) == 0;
    let vid = with(|w| w.setup.verifiers[v].id.clone());
    let req = json!({
        "client_id": vid, "purpose": one_of(TEXTS), "input_descriptors": [{"id": "one", "constraints": cons}],
        "device_flow": if cross { "CrossDevice" } else { "SameDevice" }, "client_id_scheme": "redirect_uri"
    });
    let t = Target::Verifier(v);
    let resp = tried!(m, "create_request", {
        let reply = net::rpc(t, "create_request", req.to_string().into_bytes(), Some(req.clone())).await;
        if reply.as_ref().is_some_and(|r| r.meant.is_none()) {
            // the application would not pass on what it cannot have asked for
            return Err(Stop::Given);
        }
        net::finish::<ov::CreateRequestResponse>("CreateRequestResponse", reply)
    });
    let (text, direct) = match (&resp.request_object, &resp.request_uri) {
        (Some(o), _) => match o.to_querystring() {
            Ok(q) => (q, Some(json!(o))),
            Err(e) => return stuck(format!("the request has no query string: {e}")),
        },
        (None, Some(u)) => (if pick(2) == 0 { u.clone() } else { crate::wire::pct(u) }, None),
        _ => return Err(Stop::Given),
    };
    pause(m).await;
    if direct.is_some() && !text.contains("&presentation_definition") {
        return stuck(format!("the wallet would not take {text} for a request"));
    }
    let (text, direct, strange) = match &direct {
        Some(d) if mutate(m) => {
            let (t, d) = strange_request(n, d);
            (t, d, true)
        }
        _ => (text, direct, false),
    };
    let q = text.clone();
    let o = step(n, flow, "wallet.request", "", |p| async move { hp::request(p, &q).await }).await;
    let said = match (&direct, r.flow(|f| f.fetched.last().cloned())) {
        (Some(d), _) => Some(d.clone()),
        (None, Some(s)) => {
            let j = with(|w| oracle::jwt(&s, &w.setup.dids));
            if o.ok().is_some() && !j.as_ref().is_some_and(|j| j.valid || j.loose) {
                with(|w| w.violate(&["C14"], "wallet-accepted:wallet.request", format!("the wallet took the request object {s}")));
            }
            j.map(|j| j.claims)
        }
        _ => None,
    };
    let res = match &o.res {
        Some(Ok(x)) => x.clone(),
        Some(Err(e)) => {
            if direct.is_some() && o.undisturbed() && !strange {
                with(|w| {
                    w.violate(&["C09"], "wallet-refused:wallet.request", format!("the wallet cannot read {text}: {e}"));
                });
            }
            return if m.honest { stuck(format!("request: {e}")) } else { Err(Stop::Given) };
        }
        None => return if m.honest { stuck("request: no answer") } else { Err(Stop::Given) },
    };
    let said = said.unwrap_or_default();
    // the wallet shows those of its credentials that meet the request, and no other
    let shown: BTreeSet<String> = res["credentials"]
        .as_array()
        .into_iter()
        .flatten()
        .filter_map(|c| c["issued"].as_str().map(str::to_string))
        .collect();
    let held: Vec<(String, Value)> =
        with(|w| usual(&w.wallets.list[n]).map(|c| (c.issued.clone(), json!(c.vc))).collect());
    let asked = said["presentation_definition"]["input_descriptors"][0]["constraints"].clone();
    let found = r.flow(|f| f.found.clone()).unwrap_or_default();
    for (jwt, vc) in &held {
        let t = oracle::satisfied(&asked, vc);
        // a credential saved meanwhile may have been overlooked
        if t == Tri::No && shown.contains(jwt) {
            with(|w| w.violate(&["C09", "C11"], "wallet-shows:too-much", format!("{vc} is offered for {asked}")));
        }
        if t == Tri::Yes && found.contains(jwt) && !shown.contains(jwt) {
            with(|w| w.violate(&["C09", "C11"], "wallet-shows:too-little", format!("{vc} is not offered for {asked}")));
        }
    }
    if let Some(x) = shown.iter().find(|s| !held.iter().any(|h| &h.0 == *s)) {
        with(|w| w.violate(&["C09", "C14"], "wallet-shows:unknown", format!("{x} is offered but not held")));
    }
    if let Some(c) = res["credentials"].as_array().into_iter().flatten().find(|c| {
        let s = c["issued"].as_str().unwrap_or_default();
        with(|w| w.wallets.list[n].creds.get(s).is_none_or(|x| strip(&json!(x)) != strip(c)))
    }) {
        with(|w| w.violate(&["C09", "C14"], "wallet-shows:altered", format!("{c} is not what is stored")));
    }
    let id = res["presentation_id"].as_str().unwrap_or_default().to_string();
    let mut authorized = false;
    if mutate(m) {
        // before the holder agreed
        let i2 = id.clone();
        let o = step(n, flow, "wallet.present", &id, |p| async move { hp::present(p, i2).await }).await;
        premature(&r, &o);
        if pick(2) == 0 {
            return Err(Stop::Given);
        }
    }
    if mutate(m) {
        let o = step(n, flow, "wallet.present", "nonsense", |p| async move { hp::present(p, "nonsense".into()).await }).await;
        premature(&r, &o);
    }
    pause(m).await;
    let mut left = 3;
    while left > 0 {
        left -= 1;
        let i2 = id.clone();
        let o = step(n, flow, "wallet.presentation_authorize", &id, |p| async move { hp::authorize(p, i2).await }).await;
        match &o.res {
            Some(Ok(_)) => {
                authorized = true;
                break;
            }
            Some(Err(e)) => {
                if o.undisturbed() && left == 2 {
                    with(|w| w.violate(&["C09"], "wallet-refused:wallet.presentation_authorize", e.clone()));
                }
                if m.honest {
                    return stuck(format!("authorize: {e}"));
                }
            }
            None if m.honest => return stuck("authorize: no answer"),
            None => {}
        }
    }
    if !authorized && !m.honest && chance(500) {
        return Err(Stop::Given);
    }
    let i2 = id.clone();
    let o = step(n, flow, "wallet.present", &id, |p| async move { hp::present(p, i2).await }).await;
    let key = with(|w| w.wallets.list[n].key.clone());
    for (st, to, body) in r.flow(|f| f.shown.clone()) {
        if st != o.step {
            continue;
        }
        let bad = |what: &str, d: String| {
            with(|w| w.violate(&["C09", "C14"], format!("wallet-presents:{what}"), format!("{what}: {d}")));
        };
        let uri = said["response_uri"].as_str().map(|u| u.trim_end_matches('/').to_string());
        if to != uri {
            bad("to another place", format!("{to:?} instead of {uri:?}"));
        }
        if body["state"] != said["state"] {
            bad("another state", format!("{} instead of {}", body["state"], said["state"]));
        }
        let tokens: Vec<String> = match &body["vp_token"] {
            Value::Array(a) => a.iter().filter_map(|x| x.as_str().map(str::to_string)).collect(),
            Value::String(s) => vec![s.clone()],
            _ => vec![],
        };
        let mut carried: BTreeSet<String> = BTreeSet::new();
        for s in &tokens {
            let Some(j) = with(|w| oracle::jwt(s, &w.setup.dids)).filter(|j| j.valid && j.did == key.did) else {
                bad("not signed by the holder", s.clone());
                continue;
            };
            if j.claims["nonce"] != said["nonce"] {
                bad("another nonce", format!("{} instead of {}", j.claims["nonce"], said["nonce"]));
            }
            if j.claims["aud"] != said["client_id"] {
                bad("another audience", format!("{} instead of {}", j.claims["aud"], said["client_id"]));
            }
            match &j.claims["vp"]["verifiableCredential"] {
                Value::Array(a) => carried.extend(a.iter().filter_map(|x| x.as_str().map(str::to_string))),
                Value::String(s) => drop(carried.insert(s.clone())),
                _ => {}
            }
        }
        if let Some(x) = carried.iter().find(|c| !shown.contains(*c)) {
            bad("a credential the holder did not agree to", x.clone());
        }
        if !shown.is_empty() && carried.is_empty() {
            bad("nothing", body.to_string());
        }
    }
    match &o.res {
        Some(Ok(_)) => {
            with(|w| w.probe("wallet.presented"));
            Ok(())
        }
        Some(Err(e)) => {
            if authorized && o.undisturbed() && !shown.is_empty() && !strange {
                with(|w| w.violate(&["C09"], "wallet-refused:wallet.present", e.clone()));
            }
            if m.honest && !shown.is_empty() {
                return stuck(format!("present: {e}"));
            }
            Err(Stop::Given)
        }
        None if m.honest => stuck("present: no answer"),
        None => Err(Stop::Given),
    }
}

fn premature(r: &Run, o: &Out) {
    let step = o.step;
    let sent = r.flow(|f| f.shown.iter().any(|s| s.0 == step));
    if o.ok().is_some() || sent {
        with(|w| {
            w.violate(
                &["C09", "C14"],
                "wallet-accepted:wallet.present",
                format!("a presentation was made before the holder agreed: {:?}, sent: {sent}", o.res),
            );
        });
    }
}

/// A wallet's user gets a credential and shows it.
pub async fn life(i: usize, m: Mode) -> Res<()> {
    let wallets = with(|w| w.wallets.list.len()) as u32;
    let verifiers = with(|w| w.setup.verifiers.len()) as u32;
    if wallets == 0 {
        return Ok(());
    }
    let n = pick(wallets) as usize;
    let r = issuance(n, i, m).await;
    if let Err(Stop::Stuck(_)) = &r {
        return r;
    }
    if verifiers > 0 && pick(2) == 0 {
        let v = pick(verifiers) as usize;
        match presentation(n, v, m).await {
            Err(Stop::Stuck(s)) => with(|w| {
                w.violate(&["C09"], "stuck:WalletPresent", format!("an honest presentation cannot finish: {s}"));
            }),
            _ => {}
        }
    }
    Ok(())
}
