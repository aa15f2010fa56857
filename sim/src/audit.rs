//! Bookkeeping common to every audited endpoint call: when it began and ended, on which node and clock, what it named,
//! what else was running, and the verdict over its outcome.

use std::collections::BTreeSet;

use serde_json::Value;

use crate::exec::with;
use crate::oracle;
use crate::world::{CallRec, World};

/// Why a request ought to be refused.
#[derive(Clone, Debug)]
pub struct Defect {
    pub what: &'static str,
    pub props: &'static [&'static str],
    /// The error codes that name this cause; empty: any.
    pub codes: &'static [&'static str],
    pub sure: bool,
}

pub fn defect(
    v: &mut Vec<Defect>, what: &'static str, props: &'static [&'static str], codes: &'static [&'static str],
) {
    v.push(Defect { what, props, codes, sure: true });
}

pub fn maybe(
    v: &mut Vec<Defect>, what: &'static str, props: &'static [&'static str], codes: &'static [&'static str],
) {
    v.push(Defect { what, props, codes, sure: false });
}

/// The outcome of a call: the error as the client sees it, if it was refused.
#[derive(Clone, Debug)]
pub struct Refusal {
    pub code: String,
    pub json: Value,
}

/// A copy of an error (the type has none of its own), for its second wire form.
fn dup(e: &vercre_openid::Error) -> Option<vercre_openid::Error> {
    use vercre_openid::Error as E;
    #[allow(unreachable_patterns)]
    Some(match e {
        E::InvalidRequest(s) => E::InvalidRequest(s.clone()),
        E::InvalidClient(s) => E::InvalidClient(s.clone()),
        E::InvalidGrant(s) => E::InvalidGrant(s.clone()),
        E::UnauthorizedClient(s) => E::UnauthorizedClient(s.clone()),
        E::UnsupportedGrantType(s) => E::UnsupportedGrantType(s.clone()),
        E::InvalidScope(s) => E::InvalidScope(s.clone()),
        E::InvalidAuthorizationDetails(s) => E::InvalidAuthorizationDetails(s.clone()),
        E::AccessDenied(s) => E::AccessDenied(s.clone()),
        E::UnsupportedResponseType(s) => E::UnsupportedResponseType(s.clone()),
        E::ServerError(s) => E::ServerError(s.clone()),
        E::InvalidCredentialRequest(s) => E::InvalidCredentialRequest(s.clone()),
        E::UnsupportedCredentialType(s) => E::UnsupportedCredentialType(s.clone()),
        E::UnsupportedFormat(s) => E::UnsupportedFormat(s.clone()),
        E::InvalidProof { hint, c_nonce, c_nonce_expires_in } => {
            E::InvalidProof { hint: hint.clone(), c_nonce: c_nonce.clone(), c_nonce_expires_in: *c_nonce_expires_in }
        }
        E::IssuancePending(i) => E::IssuancePending(*i),
        E::InvalidTransactionId(s) => E::InvalidTransactionId(s.clone()),
        _ => return None,
    })
}

/// Begins an audited call on the current task.
pub fn begin(ep: &'static str, node: usize, keys: Vec<String>) -> u64 {
    with(|w| {
        let id = w.x.id();
        if let Some((n, seed)) = w.reseed {
            if w.begun == n {
                fastrand::seed(seed);
                crate::seam::install(seed);
                w.reseeded = Some(id);
            }
        }
        w.begun += 1;
        let mut r = CallRec {
            ep,
            node,
            begin: id,
            begin_local: w.x.local(node),
            begin_true: w.x.now,
            keys,
            ..CallRec::default()
        };
        for o in w.calls.inflight.clone() {
            let Some(other) = w.calls.recs.get_mut(&o) else { continue };
            if other.keys.iter().any(|k| r.keys.contains(k)) {
                other.overlaps.insert(id);
                r.overlaps.insert(o);
            }
        }
        w.calls.inflight.insert(id);
        w.calls.recs.insert(id, r);
        let cur = w.x.cur;
        if let Some(t) = w.x.tasks.get_mut(&cur) {
            t.call = Some(id);
        }
        w.x.count("calls");
        w.x.mark(ep);
        id
    })
}

/// Ends it and hands back its record.
pub fn end(w: &mut World, id: u64) -> CallRec {
    w.calls.inflight.remove(&id);
    let cur = w.x.cur;
    if let Some(t) = w.x.tasks.get_mut(&cur) {
        t.call = None;
    }
    let seq = w.x.id();
    let Some(r) = w.calls.recs.get_mut(&id) else { return CallRec::default() };
    r.end = Some(seq);
    let r = r.clone();
    w.audited = r.begin;
    r
}

impl CallRec {
    /// Nothing but its own inputs can explain this call's outcome.
    pub fn clean(&self) -> bool {
        self.faults == 0 && !self.crashed && self.overlaps.is_empty() && !self.clock_moved
    }
}

impl World {
    /// The call took no time to speak of, so lifetimes it announces are still ahead.
    pub fn prompt(&self, r: &CallRec) -> bool {
        !r.clock_moved && self.x.now - r.begin_true < 60 * crate::exec::SEC
    }

    pub fn end_local(&self, r: &CallRec) -> i64 {
        self.x.local(r.node)
    }

    /// A call that died with its node or by a panic.
    pub fn end_abandoned(&mut self, id: u64) {
        self.calls.inflight.remove(&id);
        let seq = self.x.id();
        let Some(r) = self.calls.recs.get_mut(&id) else { return };
        if r.end.is_some() {
            return;
        }
        r.end = Some(seq);
        r.crashed = true;
        let r = r.clone();
        let local = self.x.local(r.node);
        let taint = !matches!(r.ep, "credential" | "deferred" | "register");
        for k in &r.keys {
            self.model.uncertain(k, r.begin_local, local, taint);
            self.vmodel.uncertain(k);
        }
    }

    /// Judges a call's outcome against the defects its request had.
    pub fn verdict(
        &mut self, r: &CallRec, res: Result<(), &Refusal>, defects: &[Defect], must: &[&'static str], detail: &str,
    ) {
        let ep = r.ep;
        match res {
            Ok(()) => {
                self.x.count("calls.ok");
                if let Some(d) = defects.iter().find(|d| d.sure) {
                    let (props, what) = (d.props, d.what);
                    self.violate(props, format!("accepted:{ep}:{what}"), format!("{ep} accepted although {what}: {detail}"));
                }
                if r.failed_mut > 0 {
                    self.violate(
                        &["C12"],
                        format!("success-despite-failure:{ep}"),
                        format!("{ep} reported success although a provider write failed: {detail}"),
                    );
                }
                self.probe("accepted");
            }
            Err(e) => {
                self.x.count("calls.refused");
                if r.faults > 0 {
                    self.probe("refused.fault");
                } else if defects.is_empty() {
                    if r.clean() {
                        self.violate(
                            must,
                            format!("refused:{ep}:{}", e.code),
                            format!("{ep} refused a valid request with {}: {detail}", e.json),
                        );
                    }
                } else if r.clean() {
                    self.probe("refused.defect");
                    let all = defects.iter().all(|d| !d.codes.is_empty());
                    if all && !defects.iter().any(|d| d.codes.contains(&e.code.as_str())) {
                        let what: Vec<&str> = defects.iter().map(|d| d.what).collect();
                        self.violate(
                            &["C13"],
                            format!("code:{ep}:{}:{}", what.join("+"), e.code),
                            format!("{ep} answered {} for a request where {}: {detail}", e.json, what.join(", ")),
                        );
                    }
                }
            }
        }
    }

    /// Refused requests leave nothing behind except what refusing is allowed to do.
    pub fn leftovers(&mut self, r: &CallRec, e: &Refusal, allow_purge: &[String], allow_put: &[String]) {
        if r.faults > 0 {
            // a request that fails for lack of its provider must not go on to use anything up
            let late = r.ops.iter().find(|o| o.kind == "purge" && o.effect && r.failed_at.is_some_and(|f| o.seq > f));
            if let Some(o) = late {
                let mut props = vec!["C12"];
                if self.model.txns.keys().any(|k| k.1 == o.key) {
                    props.push("C06");
                } else {
                    props.push(if matches!(r.ep, "create_request" | "request_object" | "response") { "C09" } else { "C07" });
                }
                let (ep, key) = (r.ep, o.key.clone());
                self.violate(&props, format!("used-up:{ep}"), format!("{ep} failed with {} and then removed {key}", e.code));
            }
            return;
        }
        let bad = r.ops.iter().find(|o| {
            o.effect
                && !o.same
                && !match o.kind {
                    "purge" => allow_purge.contains(&o.key),
                    "put" => allow_put.contains(&o.key),
                    _ => false,
                }
        });
        if let Some(o) = bad {
            let (ep, kind) = (r.ep, o.kind);
            self.violate(
                &["C12"],
                format!("leftover:{ep}:{kind}"),
                format!("{ep} refused with {} but did {kind} of {}", e.code, o.key),
            );
        }
    }

    /// Every error must be well formed in each of its wire forms.
    pub fn error_form(&mut self, r: &CallRec, e: vercre_openid::Error, named: &BTreeSet<String>) -> Refusal {
        let ep = r.ep;
        let prompt = self.prompt(r);
        let text = e.to_string();
        let ser = serde_json::to_value(&e);
        let q = dup(&e).map(vercre_openid::Error::to_querystring);
        let mut json = e.to_json();
        let code = json["error"].as_str().unwrap_or_default().to_string();
        let fail = |w: &mut World, what: &str, detail: String| {
            w.violate(&["C13", "C10"], format!("error-form:{ep}:{what}"), format!("{ep}: {what}: {detail}"));
        };
        if !json.is_object() || code.is_empty() {
            fail(self, "not an error object", format!("{text:?} gives {json}"));
        }
        if !code.bytes().all(|b| b.is_ascii_lowercase() || b == b'_') {
            fail(self, "not an error code", code.clone());
        }
        let mut members = vec!["error", "error_description"];
        if code == "issuance_pending" {
            members.push("interval");
            if json["interval"].as_i64().is_none_or(|i| i <= 0) {
                fail(self, "no retry interval", json.to_string());
            }
        }
        if code == "invalid_proof" {
            members.extend(["c_nonce", "c_nonce_expires_in"]);
            let ttl = json["c_nonce_expires_in"].as_i64();
            if json["c_nonce"].as_str().is_none_or(str::is_empty) || ttl.is_none_or(|i| i <= 0 && prompt) {
                fail(self, "no new nonce", json.to_string());
            }
        }
        if let Some(o) = json.as_object() {
            if let Some(k) = o.keys().find(|k| !members.contains(&k.as_str())) {
                fail(self, "unexpected member", format!("{k} in {json}"));
            }
        }
        // an empty description may be sent or left out
        let trim = |v: &mut Value| {
            if v["error_description"].as_str() == Some("") {
                v.as_object_mut().map(|o| o.remove("error_description"));
            }
        };
        trim(&mut json);
        match serde_json::from_str::<Value>(&text).map(|mut v| {
            trim(&mut v);
            v
        }) {
            Ok(v) if v == json => {}
            other => fail(self, "text form differs", format!("{text} parsed as {other:?}, JSON form {json}")),
        }
        match ser.map(|mut v| {
            trim(&mut v);
            v
        }) {
            Ok(v) if v == json => {}
            other => fail(self, "serialized form differs", format!("{other:?} vs {json}")),
        }
        if let Some(q) = q {
            match oracle::query(&q) {
                Some(mut p) if oracle::url_safe(&q) => {
                    p.retain(|(k, v)| !(k == "error_description" && v.is_empty()));
                    if let Err(m) = oracle::query_matches(&p, &json) {
                        fail(self, "query string differs", format!("{q}: {m}"));
                    }
                }
                _ => fail(self, "query string unsafe", q),
            }
        }
        let desc = json["error_description"].as_str().unwrap_or_default().to_string();
        let leak = self.secrets.keys().find(|s| desc.contains(s.as_str()) && !named.contains(*s)).cloned();
        if let Some(s) = leak {
            fail(self, "discloses a secret", format!("{s} in {desc}"));
        } else if let Some(s) = self.part_of_secret(&desc, named) {
            fail(self, "discloses part of a secret", format!("{s} in {desc}"));
        }
        Refusal { code, json }
    }

    /// A longer piece of a secret, or a transaction code, that the request did not bring itself.
    fn part_of_secret(&self, desc: &str, named: &BTreeSet<String>) -> Option<String> {
        const PIECE: usize = 16;
        for run in desc.split(|c: char| !c.is_ascii_alphanumeric() && !"-_".contains(c)) {
            let brought = |x: &str| named.iter().any(|n| n.contains(x));
            if run.len() == 6 && self.pins.iter().any(|p| p == run) && !brought(run) {
                return Some(run.to_string());
            }
            for at in 0..(run.len() + 1).saturating_sub(PIECE) {
                let piece = &run[at..at + PIECE];
                if self.secrets.keys().any(|s| s.contains(piece)) && !brought(piece) {
                    return Some(piece.to_string());
                }
            }
        }
        None
    }

    /// Registers a secret the system handed out.
    pub fn secret(&mut self, kind: &'static str, s: &str) {
        self.x.count("secrets");
        let made = if kind == "code verifier" { u64::MAX } else { self.audited };
        // an offer fetched by its link was made earlier
        let after = !["linked code", "linked nonce", "tx_code", "wallet verifier"].contains(&kind) && self.reseeded.is_some_and(|r| made >= r);
        self.secret_log.push((kind, s.to_string(), after));
        if kind == "tx_code" {
            if s.len() != 6 || !s.bytes().all(|b| b.is_ascii_digit()) {
                self.violate(&["C15"], "secret:tx_code", format!("transaction code {s:?} is not six digits"));
            }
            self.pins.push(s.to_string());
            return;
        }
        if kind.ends_with("verifier") && !(43..=128).contains(&s.len()) {
            self.violate(&["C15"], "verifier-form", format!("code verifier {s:?} is not 43 to 128 characters long"));
        }
        if s.chars().count() < 32 || !s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-_.~".contains(&b)) {
            self.violate(&["C15"], format!("secret-form:{kind}"), format!("{kind} {s:?} is too short or not URL-safe"));
        }
        if let Some(old) = self.secrets.insert(s.to_string(), kind.to_string()) {
            let props: &[&'static str] = if kind == "c_nonce" { &["C15", "C05"] } else { &["C15"] };
            self.violate(props, format!("secret-repeat:{kind}"), format!("{kind} {s} was already handed out as {old}"));
        }
    }
}
