//! The simulated network and the servers behind it. Requests and responses travel as bytes, may be delayed, reordered,
//! duplicated, lost or corrupted, and reach whichever replica the network picks. Servers decode with the library's own
//! types, call the library's endpoints, and hand every outcome to the reference model.

use std::collections::BTreeSet;
use std::str::FromStr;

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_openid::issuer as oi;
use vercre_openid::verifier as ov;

use crate::audit::{self, Refusal};
use crate::choice::NET;
use crate::exec::{chance_on, chan, ev, pick_on, recv, send, sleep, spawn, with, Reply, MS, SEC};
use crate::model::key_of;
use crate::oracle;
use crate::prov::{IssuerProv, VerifierProv};
use crate::world::World;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Target {
    Issuer(usize),
    Verifier(usize),
}

/// Why a client got no answer of the expected kind.
#[derive(Clone, Debug)]
pub enum Fail {
    /// Nothing came back: lost, partitioned, server down or too slow.
    Lost,
    /// The server refused.
    Refused(Refusal),
    /// Something came back that is not an answer (corrupted on the way).
    Garbled,
}

pub const TIMEOUT: i64 = 30 * SEC;

fn latency() -> i64 {
    let f = with(|w| if w.calm { Default::default() } else { w.faults.clone() });
    let mut d = i64::from(1 + pick_on(NET, 40)) * MS;
    if chance_on(NET, f.slow) {
        with(|w| w.x.count("fault.delay"));
        d += i64::from(1 + pick_on(NET, 25)) * SEC;
    }
    d
}

fn corrupt(body: &mut Vec<u8>) {
    if body.is_empty() {
        return;
    }
    let n = body.len() as u32;
    match pick_on(NET, 4) {
        0 => body.truncate(pick_on(NET, n) as usize),
        1 => {
            let i = pick_on(NET, n) as usize;
            body[i] ^= 1 << pick_on(NET, 7);
        }
        2 => {
            let i = pick_on(NET, n) as usize;
            body[i] = b"{}[]\",:0aA=&%\\."[pick_on(NET, 15) as usize];
        }
        _ => {
            let i = pick_on(NET, n) as usize;
            let j = (i + 1 + pick_on(NET, 20) as usize).min(body.len());
            body.drain(i..j);
        }
    }
}

/// One request over the network; `None` when no answer arrives in time.
pub async fn rpc(t: Target, ep: &'static str, body: Vec<u8>, meant: Option<Value>) -> Option<Reply> {
    let f = with(|w| if w.calm { Default::default() } else { w.faults.clone() });
    let c = chan();
    ev(|| format!("-> {t:?} {ep} {}", String::from_utf8_lossy(&body)));
    let copies = if chance_on(NET, f.dup) {
        with(|w| w.x.count("fault.duplicate"));
        2
    } else {
        1
    };
    for n in 0..copies {
        if chance_on(NET, f.drop_req) {
            with(|w| w.x.count("fault.drop_request"));
            ev(|| format!("FAULT {ep} request lost"));
            continue;
        }
        let mut body = body.clone();
        let mut meant = meant.clone();
        if chance_on(NET, f.corrupt) {
            with(|w| w.x.count("fault.corrupt_request"));
            let old = body.clone();
            corrupt(&mut body);
            if old != body {
                meant = None;
                ev(|| format!("FAULT {ep} request corrupted: {}", String::from_utf8_lossy(&body)));
            }
        }
        let mut d = latency();
        if n > 0 {
            d += i64::from(pick_on(NET, 100)) * 100 * MS;
        }
        spawn(None, format!("net-{ep}"), async move {
            sleep(d).await;
            deliver(t, ep, body, meant, c).await;
        });
    }
    let r = recv(c, TIMEOUT).await;
    ev(|| match &r {
        Some(r) => format!("<- {t:?} {ep} {} {}", if r.ok { "ok" } else { "refused" }, String::from_utf8_lossy(&r.body)),
        None => format!("<- {t:?} {ep} no answer"),
    });
    r
}

async fn deliver(t: Target, ep: &'static str, body: Vec<u8>, meant: Option<Value>, c: u64) {
    let nodes = with(|w| match t {
        Target::Issuer(i) => w.setup.issuers[i].nodes.clone(),
        Target::Verifier(v) => w.setup.verifiers[v].nodes.clone(),
    });
    let node = nodes[pick_on(NET, nodes.len() as u32) as usize];
    let reachable = with(|w| w.x.nodes[node].up && !w.cut.contains(&node));
    if !reachable {
        with(|w| w.x.count("fault.unreachable"));
        ev(|| format!("FAULT {ep} cannot reach its server"));
        return;
    }
    spawn(Some(node), format!("{ep}@{node}"), async move {
        let reply = match t {
            Target::Issuer(i) => serve_issuer(i, node, ep, &body, meant.as_ref()).await,
            Target::Verifier(v) => serve_verifier(v, node, ep, &body, meant.as_ref()).await,
        };
        spawn(None, format!("net-{ep}-reply"), async move {
            let f = with(|w| if w.calm { Default::default() } else { w.faults.clone() });
            let d = latency();
            sleep(d).await;
            if with(|w| w.cut.contains(&node)) || chance_on(NET, f.drop_resp) {
                with(|w| w.x.count("fault.drop_response"));
                ev(|| format!("FAULT {ep} response lost"));
                return;
            }
            let mut reply = reply;
            if chance_on(NET, f.corrupt) {
                with(|w| w.x.count("fault.corrupt_response"));
                let old = reply.body.clone();
                corrupt(&mut reply.body);
                if old != reply.body {
                    reply.meant = None;
                }
            }
            send(c, reply);
        });
    });
}

// ---------------------------------------------------------------------------------------------------------------
// servers

/// Decodes a message; one that travelled untouched must decode to what was meant.
pub fn decode<T: DeserializeOwned + Serialize>(what: &'static str, body: &[u8], meant: Option<&Value>) -> Option<T> {
    let r = serde_json::from_slice::<T>(body);
    if let Some(m) = meant {
        match &r {
            Err(e) => with(|w| {
                w.violate(&["C10"], format!("decode:{what}"), format!("{what} message {m} does not decode: {e}"));
            }),
            Ok(v) => {
                let back = json!(v);
                if crate::wire::strip(&back) != crate::wire::strip(m) {
                    with(|w| {
                        w.violate(&["C10"], format!("roundtrip:{what}"), format!("{what} message {m} decodes to {back}"));
                    });
                }
            }
        }
    }
    r.ok()
}

fn bad_request() -> Reply {
    let v = json!({"error": "invalid_request", "error_description": "malformed"});
    Reply { ok: false, body: v.to_string().into_bytes(), meant: None }
}

/// Every string a request contains.
fn strings(v: &Value, out: &mut BTreeSet<String>) {
    match v {
        Value::String(s) => {
            out.insert(s.clone());
        }
        Value::Array(a) => a.iter().for_each(|x| strings(x, out)),
        Value::Object(o) => o.values().for_each(|x| strings(x, out)),
        _ => {}
    }
}

pub fn named(v: &impl Serialize) -> BTreeSet<String> {
    let mut out = BTreeSet::new();
    strings(&json!(v), &mut out);
    out
}

fn reply<T: Serialize>(res: &Result<T, Refusal>) -> Reply {
    match res {
        Ok(v) => {
            let body = serde_json::to_vec(v).unwrap_or_default();
            let meant = serde_json::to_value(v).ok();
            Reply { ok: true, body, meant }
        }
        Err(e) => Reply { ok: false, body: e.json.to_string().into_bytes(), meant: Some(e.json.clone()) },
    }
}

macro_rules! issuer_ep {
    ($i:ident, $node:ident, $ep:literal, $req:expr, $keys:expr, $h:path, $audit:ident) => {{
        let Some(req) = $req else { return bad_request() };
        let keys: Vec<String> = $keys(&req);
        let id = audit::begin($ep, $node, keys);
        let res = $h(IssuerProv { issuer: $i, node: $node }, req.clone()).await;
        with(|w| {
            let r = audit::end(w, id);
            let res = res.map_err(|e| w.error_form(&r, e, &named(&req)));
            w.$audit(&r, $i, &req, &res);
            reply(&res)
        })
    }};
}

async fn serve_issuer(i: usize, node: usize, ep: &'static str, body: &[u8], meant: Option<&Value>) -> Reply {
    let k = |s: &str| key_of(i, s);
    match ep {
        "create_offer" => issuer_ep!(
            i,
            node,
            "create_offer",
            decode::<oi::CreateOfferRequest>("CreateOfferRequest", body, meant),
            |_: &oi::CreateOfferRequest| vec![],
            vercre_issuer::create_offer,
            audit_create_offer
        ),
        "credential_offer" => issuer_ep!(
            i,
            node,
            "credential_offer",
            decode::<oi::CredentialOfferRequest>("CredentialOfferRequest", body, meant),
            |r: &oi::CredentialOfferRequest| vec![k(&r.id)],
            vercre_issuer::credential_offer,
            audit_credential_offer
        ),
        "authorize" => {
            let req = String::from_utf8(body.to_vec()).ok().and_then(|s| {
                let r = oi::AuthorizationRequest::from_str(&s);
                if let Some(m) = meant {
                    let back = r.as_ref().map(|r| json!(r));
                    if !back.as_ref().is_ok_and(|b| crate::wire::strip(b) == crate::wire::strip(m)) {
                        with(|w| {
                            w.violate(
                                &["C10"],
                                "roundtrip:AuthorizationRequest",
                                format!("authorization request {s}, meaning {m}, decodes to {back:?}"),
                            );
                        });
                    }
                }
                r.ok()
            });
            issuer_ep!(
                i,
                node,
                "authorize",
                req,
                |r: &oi::AuthorizationRequest| match r {
                    oi::AuthorizationRequest::Object(o) => o.issuer_state.iter().map(|s| k(s)).collect(),
                    oi::AuthorizationRequest::Uri(u) => {
                        let mut v = vec![k(&u.request_uri)];
                        let st = with(|w| {
                            w.model.pars.get(&(i, u.request_uri.clone())).and_then(|p| p.req.issuer_state.clone())
                        });
                        v.extend(st.iter().map(|s| k(s)));
                        v
                    }
                },
                vercre_issuer::authorize,
                audit_authorize
            )
        }
        "par" => issuer_ep!(
            i,
            node,
            "par",
            decode::<oi::PushedAuthorizationRequest>("PushedAuthorizationRequest", body, meant),
            |r: &oi::PushedAuthorizationRequest| r.request.issuer_state.iter().map(|s| k(s)).collect(),
            vercre_issuer::par,
            audit_par
        ),
        "token" => issuer_ep!(
            i,
            node,
            "token",
            decode::<oi::TokenRequest>("TokenRequest", body, meant),
            |r: &oi::TokenRequest| vec![k(match &r.grant_type {
                oi::TokenGrantType::AuthorizationCode { code, .. } => code,
                oi::TokenGrantType::PreAuthorizedCode { pre_authorized_code, .. } => pre_authorized_code,
            })],
            vercre_issuer::token,
            audit_token
        ),
        "credential" => issuer_ep!(
            i,
            node,
            "credential",
            decode::<oi::CredentialRequest>("CredentialRequest", body, meant),
            |r: &oi::CredentialRequest| vec![k(&r.access_token)],
            vercre_issuer::credential,
            audit_credential
        ),
        "deferred" => issuer_ep!(
            i,
            node,
            "deferred",
            decode::<oi::DeferredCredentialRequest>("DeferredCredentialRequest", body, meant),
            |r: &oi::DeferredCredentialRequest| vec![k(&r.access_token), k(&r.transaction_id)],
            vercre_issuer::deferred,
            audit_deferred
        ),
        "notification" => {
            let Some(req) = decode::<oi::NotificationRequest>("NotificationRequest", body, meant) else {
                return bad_request();
            };
            let id = audit::begin("notification", node, vec![k(&req.notification_id)]);
            let res = vercre_issuer::notification(IssuerProv { issuer: i, node }, req.clone()).await;
            with(|w| {
                let r = audit::end(w, id);
                let res = res.map_err(|e| w.error_form(&r, e, &named(&req)));
                let unit = res.as_ref().map(|_| ()).map_err(Clone::clone);
                w.audit_notification(&r, i, &req, &unit);
                reply(&res)
            })
        }
        "register" => issuer_ep!(
            i,
            node,
            "register",
            decode::<oi::RegistrationRequest>("RegistrationRequest", body, meant),
            |r: &oi::RegistrationRequest| vec![k(&r.access_token)],
            vercre_issuer::register,
            audit_register
        ),
        "metadata" => issuer_ep!(
            i,
            node,
            "metadata",
            decode::<oi::MetadataRequest>("MetadataRequest", body, meant),
            |_: &oi::MetadataRequest| vec![],
            vercre_issuer::metadata,
            audit_metadata
        ),
        "oauth_server" => issuer_ep!(
            i,
            node,
            "oauth_server",
            decode::<oi::OAuthServerRequest>("OAuthServerRequest", body, meant),
            |_: &oi::OAuthServerRequest| vec![],
            vercre_issuer::oauth_server,
            audit_oauth_server
        ),
        _ => bad_request(),
    }
}

macro_rules! verifier_ep {
    ($v:ident, $node:ident, $ep:literal, $req:expr, $keys:expr, $h:path, $audit:ident) => {{
        let Some(req) = $req else { return bad_request() };
        let keys: Vec<String> = $keys(&req);
        let id = audit::begin($ep, $node, keys);
        let res = $h(VerifierProv { verifier: $v, node: $node }, &req).await;
        with(|w| {
            let r = audit::end(w, id);
            let res = res.map_err(|e| w.error_form(&r, e, &named(&req)));
            w.$audit(&r, $v, &req, &res);
            reply(&res)
        })
    }};
}

async fn serve_verifier(v: usize, node: usize, ep: &'static str, body: &[u8], meant: Option<&Value>) -> Reply {
    let k = |s: &str| format!("v{v}:{s}");
    match ep {
        "create_request" => verifier_ep!(
            v,
            node,
            "create_request",
            decode::<ov::CreateRequestRequest>("CreateRequestRequest", body, meant),
            |_: &ov::CreateRequestRequest| vec![],
            vercre_verifier::create_request,
            audit_create_request
        ),
        "request_object" => verifier_ep!(
            v,
            node,
            "request_object",
            decode::<ov::RequestObjectRequest>("RequestObjectRequest", body, meant),
            |r: &ov::RequestObjectRequest| vec![k(&r.id)],
            vercre_verifier::request_object,
            audit_request_object
        ),
        "response" => verifier_ep!(
            v,
            node,
            "response",
            decode::<ov::ResponseRequest>("ResponseRequest", body, meant),
            |r: &ov::ResponseRequest| r.state.iter().map(|s| k(s)).collect(),
            vercre_verifier::response,
            audit_response
        ),
        "metadata" => {
            let Ok(req) = serde_json::from_slice::<ov::MetadataRequest>(body) else { return bad_request() };
            let id = audit::begin("verifier_metadata", node, vec![]);
            let res = vercre_verifier::metadata(VerifierProv { verifier: v, node }, &req).await;
            with(|w| {
                let r = audit::end(w, id);
                let named = BTreeSet::from([req.client_id.clone()]);
                let res = res.map_err(|e| w.error_form(&r, e, &named));
                w.audit_verifier_metadata(&r, v, &req, &res);
                reply(&res)
            })
        }
        _ => bad_request(),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// clients

/// A typed request; an untouched answer must decode to what the server said.
pub async fn call<R: DeserializeOwned + Serialize>(
    t: Target, ep: &'static str, what: &'static str, req: &impl Serialize,
) -> Result<R, Fail> {
    let mut meant = serde_json::to_value(req).ok();
    if let (Target::Issuer(_), Some(v)) = (t, &meant) {
        if let Some(m) = remade(ep, v) {
            meant = Some(m);
        }
    }
    let body = meant.as_ref().map(|v| v.to_string().into_bytes()).unwrap_or_default();
    finish(what, rpc(t, ep, body, meant).await)
}

/// In runs about the request macros, a request goes out as the macro builds it.
pub fn remade(ep: &str, v: &Value) -> Option<Value> {
    #[cfg(feature = "macros")]
    if with(|w| w.macros) && crate::exec::pick(4) > 0 {
        let m = crate::macros::remake(ep, v);
        with(|w| w.x.count(if m.is_some() { "macro.sent" } else { "macro.no_shape" }));
        return m;
    }
    let _ = (ep, v);
    None
}

pub fn finish<R: DeserializeOwned + Serialize>(what: &'static str, r: Option<Reply>) -> Result<R, Fail> {
    match r {
        None => Err(Fail::Lost),
        Some(r) if r.ok => decode::<R>(what, &r.body, r.meant.as_ref()).ok_or(Fail::Garbled),
        Some(r) => match serde_json::from_slice::<Value>(&r.body) {
            Ok(v) => Err(Fail::Refused(Refusal {
                code: v["error"].as_str().unwrap_or_default().to_string(),
                json: v,
            })),
            Err(_) => Err(Fail::Garbled),
        },
    }
}

/// Sends an authorization request, as JSON or as the query string of a URL.
pub async fn authorize(i: usize, req: &oi::AuthorizationRequest, query: bool) -> Result<oi::AuthorizationResponse, Fail> {
    finish("AuthorizationResponse", authorize_raw(i, req, query).await)
}

pub async fn authorize_raw(i: usize, req: &oi::AuthorizationRequest, query: bool) -> Option<Reply> {
    let v = json!(req);
    let body = if query {
        let q = req.to_string();
        match oracle::query(&q) {
            Some(p) if oracle::url_safe(&q) => {
                if let Err(m) = oracle::query_matches(&p, &v) {
                    with(|w| w.violate(&["C10"], "query:AuthorizationRequest", format!("{v} is sent as {q}: {m}")));
                }
            }
            _ => with(|w| w.violate(&["C10"], "query:AuthorizationRequest", format!("{v} is sent as {q}"))),
        }
        q
    } else {
        v.to_string()
    };
    rpc(Target::Issuer(i), "authorize", body.into_bytes(), Some(v)).await
}

impl World {
    pub fn audit_metadata(
        &mut self, r: &crate::world::CallRec, i: usize, req: &oi::MetadataRequest,
        res: &Result<oi::MetadataResponse, Refusal>,
    ) {
        let mut d = vec![];
        let s = self.setup.issuers[i].clone();
        if req.credential_issuer != s.id {
            audit::defect(&mut d, "the issuer is unknown", &["C07"], &[]);
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C07"], &format!("{req:?}"));
        match res {
            Ok(m) if json!(m) != json!(s.meta) => {
                self.violate(&["C07", "C10"], "metadata-content", format!("{} instead of {}", json!(m), json!(s.meta)));
            }
            Ok(_) => {}
            Err(e) => self.leftovers(r, e, &[], &[]),
        }
    }

    pub fn audit_oauth_server(
        &mut self, r: &crate::world::CallRec, i: usize, req: &oi::OAuthServerRequest,
        res: &Result<oi::OAuthServerResponse, Refusal>,
    ) {
        let mut d = vec![];
        let s = self.setup.issuers[i].clone();
        if req.credential_issuer != s.id {
            audit::defect(&mut d, "the issuer is unknown", &["C07"], &[]);
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C07"], &format!("{req:?}"));
        match res {
            Ok(m) if json!(m.authorization_server) != json!(s.server) => {
                self.violate(&["C07", "C10"], "server-content", format!("{} instead of {}", json!(m), json!(s.server)));
            }
            Ok(_) => {}
            Err(e) => self.leftovers(r, e, &[], &[]),
        }
    }
}
