//! A plain in-memory deployment of the issuer and verifier for demonstrations: one store, one clock that can be moved,
//! provider failures on request. No simulation, no search: each demonstration is one scripted sequence.
#![allow(dead_code)]

use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::future::Future;
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::Mutex;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};

use anyhow::{anyhow, bail, Result};
use base64ct::{Base64UrlUnpadded, Encoding};
use chrono::{DateTime, Utc};
use ed25519_dalek::{Signer as _, SigningKey};
use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use sha2::{Digest, Sha256};
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::{Algorithm, Decryptor, Encryptor, SecOps, Signer};
use vercre_openid::issuer::{Client, Dataset, Issuer, Server};
use vercre_openid::provider::StateStore;
use vercre_status::issuer::Status;
use vercre_w3c_vc::model::{Bitstring, CredentialStatus, CredentialStatusType, StatusPurpose};

#[repr(C)]
pub struct Timespec {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(num: i64, ...) -> i64;
}
static SHIFT: AtomicI64 = AtomicI64::new(0);

/// The clock everything in this process reads, moved by `advance`.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut Timespec) -> i32 {
    let r = syscall(228, clk as i64, ts) as i32;
    (*ts).sec += SHIFT.load(Ordering::SeqCst);
    r
}

pub fn advance(secs: i64) {
    SHIFT.fetch_add(secs, Ordering::SeqCst);
}

pub const ISSUER: &str = "http://issuer.demo";
pub const VERIFIER: &str = "http://verifier.demo";
pub const CLIENT: &str = "http://wallet.demo/client";
pub const REDIRECT: &str = "http://wallet.demo/callback";
pub const PREAUTH: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
pub const SUBJECT: &str = "subject0";
pub const EMP: &str = "EmployeeID_JWT";
pub const DEV: &str = "Developer_JWT";
pub const BADGE: &str = "Badge_JWT";
pub const MDL: &str = "org.iso.18013.5.1.mDL";

#[derive(Clone)]
pub struct Key {
    pub sk: SigningKey,
    pub did: String,
    pub kid: String,
}

pub fn key(name: &str) -> Key {
    let sk = SigningKey::from_bytes(&Sha256::digest(name.as_bytes()).into());
    let mk = vercre_did::multikey(sk.verifying_key().as_bytes());
    let did = format!("did:key:{mk}");
    let kid = format!("{did}#{mk}");
    Key { sk, did, kid }
}

pub fn jwt(k: &Key, typ: &str, claims: Value) -> String {
    let b = |v: &Value| Base64UrlUnpadded::encode_string(v.to_string().as_bytes());
    let msg = format!("{}.{}", b(&json!({"alg": "EdDSA", "typ": typ, "kid": k.kid})), b(&claims));
    let sig = k.sk.sign(msg.as_bytes()).to_bytes();
    format!("{msg}.{}", Base64UrlUnpadded::encode_string(&sig))
}

pub fn claims_of(jwt: &str) -> Value {
    let p = jwt.split('.').nth(1).unwrap_or_default();
    serde_json::from_slice(&Base64UrlUnpadded::decode_vec(p).unwrap_or_default()).unwrap_or_default()
}

#[derive(Default)]
pub struct Shared {
    pub store: BTreeMap<String, (Vec<u8>, i64)>,
    pub clients: BTreeMap<String, Client>,
    pub pending: BTreeSet<String>,
    /// Provider operations that fail, with how many successes come first.
    pub fail: BTreeMap<&'static str, u32>,
    pub log: Vec<String>,
    pub issuer: Value,
    pub server: Value,
    pub data: BTreeMap<(String, String), Value>,
    pub grants: BTreeMap<(String, String), Vec<String>>,
    /// Drop expired entries, as a store with time-to-live does.
    pub evict: bool,
}

static SHARED: Mutex<Option<Shared>> = Mutex::new(None);

pub fn world<R>(f: impl FnOnce(&mut Shared) -> R) -> R {
    let mut g = SHARED.lock().unwrap_or_else(|e| e.into_inner());
    f(g.get_or_insert_with(fresh))
}

pub fn reset() {
    *SHARED.lock().unwrap_or_else(|e| e.into_inner()) = Some(fresh());
}

fn fresh() -> Shared {
    let entry = |m: bool| json!({"mandatory": m, "value_type": "string"});
    let proofs = json!({"jwt": {"proof_signing_alg_values_supported": ["ES256K", "EdDSA"]}});
    let issuer = json!({
        "credential_issuer": ISSUER, "credential_endpoint": format!("{ISSUER}/credential"),
        "deferred_credential_endpoint": format!("{ISSUER}/deferred"),
        "display": {"name": "Demo", "locale": "en-NZ"},
        "credential_configurations_supported": {
            EMP: {"format": "jwt_vc_json", "scope": "EmployeeIDCredential", "proof_types_supported": proofs,
                "cryptographic_binding_methods_supported": ["did:key"],
                "display": [{"name": "Employee ID", "locale": "en-NZ"}],
                "credential_definition": {"type": ["VerifiableCredential", "EmployeeIDCredential"],
                    "credentialSubject": {"email": entry(true), "family_name": entry(true), "given_name": entry(false),
                        "address": {"street_address": entry(false), "locality": entry(false)}}}},
            DEV: {"format": "jwt_vc_json", "scope": "DeveloperCredential", "proof_types_supported": proofs,
                "cryptographic_binding_methods_supported": ["did:key"],
                "credential_definition": {"type": ["VerifiableCredential", "DeveloperCredential"],
                    "credentialSubject": {"family_name": entry(false), "proficiency": entry(false)}}},
            BADGE: {"format": "jwt_vc_json", "scope": "BadgeCredential",
                "credential_definition": {"type": ["VerifiableCredential", "BadgeCredential"],
                    "credentialSubject": {"badge": entry(false)}}},
            MDL: {"format": "mso_mdoc", "doctype": MDL, "proof_types_supported": proofs,
                "cryptographic_binding_methods_supported": ["cose_key"],
                "claims": {MDL: {"given_name": {}, "family_name": {}, "birth_date": {}}}}
        }
    });
    let server = json!({
        "issuer": ISSUER, "authorization_endpoint": "/auth", "token_endpoint": "/token",
        "scopes_supported": ["openid", "credential"], "response_types_supported": ["code"],
        "response_modes_supported": ["query"], "grant_types_supported": ["authorization_code", PREAUTH],
        "code_challenge_methods_supported": ["S256"], "pre-authorized_grant_anonymous_access_supported": true
    });
    let mut s = Shared { issuer, server, ..Shared::default() };
    let c: Client = serde_json::from_value(json!({
        "client_id": CLIENT, "redirect_uris": [REDIRECT], "grant_types": ["authorization_code", PREAUTH],
        "response_types": ["code"], "scope": "openid credential", "credential_offer_endpoint": "openid-credential-offer://"
    }))
    .expect("client");
    s.clients.insert(CLIENT.into(), c);
    for n in 0..2 {
        let id = format!("subject{n}");
        for (cfg, ident, v) in [
            (EMP, "PHLEmployeeID", json!({"email": format!("user{n}@demo"), "family_name": format!("Person{n}"),
                "given_name": "Normal", "address": {"street_address": "1 Fake St", "locality": "Wellington"}})),
            (DEV, "PHLDeveloper", json!({"family_name": format!("Dev{n}"), "proficiency": n + 1})),
            (BADGE, "Badge", json!({"badge": format!("B-{n}")})),
            (MDL, "DriverLicence", json!({MDL: {"given_name": "Normal", "family_name": format!("Driver{n}"), "birth_date": "1980-01-02"}})),
        ] {
            s.grants.insert((id.clone(), cfg.into()), vec![ident.into()]);
            s.data.insert((id.clone(), ident.into()), v);
        }
    }
    s
}

fn op(name: &'static str, detail: &str) -> Result<()> {
    world(|w| {
        w.log.push(format!("{name} {detail}"));
        if let Some(n) = w.fail.get_mut(name) {
            if *n == 0 {
                bail!("{name} failed");
            }
            *n -= 1;
        }
        Ok(())
    })
}

#[derive(Clone, Debug)]
pub struct P;

struct Sign(Key);

impl Signer for Sign {
    async fn try_sign(&self, msg: &[u8]) -> Result<Vec<u8>> {
        op("sign", "")?;
        Ok(self.0.sk.sign(msg).to_bytes().to_vec())
    }

    async fn sign(&self, msg: &[u8]) -> Vec<u8> {
        self.0.sk.sign(msg).to_bytes().to_vec()
    }

    async fn public_key(&self) -> Result<Vec<u8>> {
        Ok(self.0.sk.verifying_key().as_bytes().to_vec())
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        self.0.kid.clone()
    }
}

struct NoCipher;
impl Encryptor for NoCipher {
    async fn encrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        bail!("no encryption here")
    }
    fn public_key(&self) -> Vec<u8> {
        vec![]
    }
}
impl Decryptor for NoCipher {
    async fn decrypt(&self, _: &[u8], _: &[u8]) -> Result<Vec<u8>> {
        bail!("no encryption here")
    }
}

impl vercre_openid::issuer::Provider for P {}
impl vercre_openid::verifier::Provider for P {}

impl vercre_openid::issuer::Metadata for P {
    async fn client(&self, id: &str) -> Result<Client> {
        op("client", id)?;
        world(|w| w.clients.get(id).cloned().ok_or_else(|| anyhow!("unknown client")))
    }
    async fn issuer(&self, id: &str) -> Result<Issuer> {
        op("issuer", id)?;
        if id != ISSUER {
            bail!("unknown issuer");
        }
        Ok(serde_json::from_value(world(|w| w.issuer.clone()))?)
    }
    async fn server(&self, _: &str, _: Option<&str>) -> Result<Server> {
        op("server", "")?;
        Ok(serde_json::from_value(world(|w| w.server.clone()))?)
    }
    async fn register(&self, c: &Client) -> Result<Client> {
        op("register", "")?;
        let mut c = c.clone();
        c.oauth.client_id = "http://registered.demo".into();
        world(|w| w.clients.insert(c.oauth.client_id.clone(), c.clone()));
        Ok(c)
    }
}

impl vercre_openid::issuer::Subject for P {
    async fn authorize(&self, subject: &str, cfg: &str) -> Result<Vec<String>> {
        op("authorize", subject)?;
        world(|w| w.grants.get(&(subject.into(), cfg.into())).cloned().ok_or_else(|| anyhow!("not authorized")))
    }
    async fn dataset(&self, subject: &str, ident: &str) -> Result<Dataset> {
        op("dataset", ident)?;
        world(|w| {
            let Some(v) = w.data.get(&(subject.into(), ident.into())) else { bail!("no dataset") };
            let claims = v.as_object().cloned().unwrap_or_default();
            Ok(Dataset { claims, pending: w.pending.contains(ident) })
        })
    }
}

impl StateStore for P {
    async fn put(&self, key: &str, state: impl Serialize + Send, expiry: DateTime<Utc>) -> Result<()> {
        op("put", key)?;
        let json = serde_json::to_vec(&state)?;
        world(|w| w.store.insert(key.into(), (json, expiry.timestamp())));
        Ok(())
    }
    async fn get<T: DeserializeOwned>(&self, key: &str) -> Result<T> {
        op("get", key)?;
        let now = Utc::now().timestamp();
        let e = world(|w| match w.store.get(key) {
            Some((_, x)) if w.evict && *x + 1 < now => None,
            e => e.map(|e| e.0.clone()),
        });
        Ok(serde_json::from_slice(&e.ok_or_else(|| anyhow!("no matching item in state store"))?)?)
    }
    async fn purge(&self, key: &str) -> Result<()> {
        op("purge", key)?;
        world(|w| w.store.remove(key));
        Ok(())
    }
}

impl SecOps for P {
    fn signer(&self, id: &str) -> Result<impl Signer> {
        Ok(Sign(key(id)))
    }
    fn encryptor(&self, _: &str) -> Result<impl Encryptor> {
        Ok(NoCipher)
    }
    fn decryptor(&self, _: &str) -> Result<impl Decryptor> {
        Ok(NoCipher)
    }
}

impl DidResolver for P {
    async fn resolve(&self, url: &str) -> Result<Document> {
        let did = url.split('#').next().unwrap_or_default().to_string();
        for n in [ISSUER, VERIFIER, "holder", "holder2", "other"] {
            let k = key(n);
            if k.did == did {
                return Ok(Document {
                    id: did.clone(),
                    verification_method: Some(vec![VerificationMethod {
                        id: k.kid.clone(),
                        controller: did,
                        method_type: MethodType::Multikey {
                            public_key_multibase: vercre_did::multikey(k.sk.verifying_key().as_bytes()),
                        },
                    }]),
                    ..Document::default()
                });
            }
        }
        bail!("unknown DID {did}")
    }
}

impl Status for P {
    async fn status(&self, subject: &str, ident: &str) -> Result<Option<vercre_core::Quota<CredentialStatus>>> {
        op("status", ident)?;
        let n = subject.len() + 7 * ident.len();
        Ok(Some(vercre_core::Quota::One(CredentialStatus {
            id: Some(format!("http://status.demo/1#{n}")),
            credential_status_type: CredentialStatusType::Bitstring(Bitstring {
                status_purpose: StatusPurpose::Revocation,
                status_list_index: n,
                status_list_credential: "http://status.demo/1".into(),
                status_size: None,
                status_message: None,
                status_reference: None,
            }),
        })))
    }
}

impl vercre_openid::verifier::Metadata for P {
    async fn verifier(&self, _: &str) -> Result<vercre_openid::verifier::Verifier> {
        op("verifier", "")?;
        Ok(serde_json::from_value(json!({"client_id": VERIFIER, "redirect_uris": ["http://localhost:3000/callback"],
            "vp_formats": {"jwt_vp_json": {"alg": ["EdDSA"]}}}))?)
    }
    async fn wallet(&self, _: &str) -> Result<vercre_openid::verifier::Wallet> {
        bail!("no wallet metadata")
    }
    async fn register(&self, v: &vercre_openid::verifier::Verifier) -> Result<vercre_openid::verifier::Verifier> {
        Ok(v.clone())
    }
}

// ---------------------------------------------------------------------------------------------------------------

thread_local! { static POLLS: Cell<u64> = const { Cell::new(0) }; }

fn raw() -> RawWaker {
    fn no(_: *const ()) {}
    fn clone(_: *const ()) -> RawWaker {
        raw()
    }
    static T: RawWakerVTable = RawWakerVTable::new(clone, no, no, no);
    RawWaker::new(std::ptr::null(), &T)
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let waker = unsafe { Waker::from_raw(raw()) };
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}

pub fn from<T: DeserializeOwned>(v: Value) -> T {
    match serde_json::from_value(v.clone()) {
        Ok(t) => t,
        Err(e) => panic!("{v}: {e}"),
    }
}

pub type R = std::result::Result<Value, Value>;

macro_rules! ep {
    ($name:ident, $call:expr) => {
        /// One endpoint call with a JSON request; answers as JSON.
        pub fn $name(v: Value) -> R {
            block_on($call(P, from(v))).map(|r| json!(r)).map_err(|e| e.to_json())
        }
    };
}

ep!(create_offer, vercre_issuer::create_offer);
ep!(credential_offer, vercre_issuer::credential_offer);
ep!(authorize, vercre_issuer::authorize);
ep!(par, vercre_issuer::par);
ep!(token, vercre_issuer::token);
ep!(credential, vercre_issuer::credential);
ep!(deferred, vercre_issuer::deferred);
ep!(notification, vercre_issuer::notification);
ep!(register, vercre_issuer::register);

/// A pre-authorized offer: code and transaction code.
pub fn offer(configs: &[&str], tx: bool) -> (String, String) {
    let r = create_offer(json!({
        "credential_issuer": ISSUER, "client_id": CLIENT, "credential_configuration_ids": configs, "subject_id": SUBJECT,
        "grant_types": [PREAUTH], "tx_code_required": tx, "send_type": "ByVal"
    }))
    .expect("create_offer");
    let text = r.to_string();
    let code = r["credential_offer"]["grants"][PREAUTH]["pre-authorized_code"].as_str();
    (code.unwrap_or_else(|| panic!("{text}")).into(), r["tx_code"].as_str().unwrap_or_default().into())
}

pub fn redeem(code: &str, tx: Option<&str>) -> R {
    let mut v = json!({"credential_issuer": ISSUER, "client_id": CLIENT, "grant_type": PREAUTH, "pre-authorized_code": code});
    if let Some(t) = tx {
        v["tx_code"] = json!(t);
    }
    token(v)
}

pub fn proof(holder: &Key, nonce: &str) -> String {
    let now = Utc::now().timestamp();
    jwt(holder, "openid4vci-proof+jwt", json!({"iss": CLIENT, "aud": ISSUER, "iat": now, "nonce": nonce}))
}

pub fn get(access: &str, ident: &str, nonce: &str) -> R {
    credential(json!({"credential_issuer": ISSUER, "access_token": access, "credential_identifier": ident,
        "proof": {"proof_type": "jwt", "jwt": proof(&key("holder"), nonce)}}))
}

pub fn s(v: &Value) -> String {
    v.as_str().unwrap_or_default().to_string()
}

/// Ends the demonstration: failure if the behaviour is broken.
pub fn expect(ok: bool, what: &str) {
    if ok {
        println!("ok: {what}");
    } else {
        println!("BROKEN: {what}");
        std::process::exit(1);
    }
}
