//! The reference model of the verifier: which requests are open, what they ask for, and whether a presentation answers
//! one of them.

use std::collections::BTreeMap;

use serde_json::{json, Value};
use vercre_openid::verifier as ov;
use vercre_openid::verifier::{DeviceFlow, RequestObjectType};

use crate::audit::{defect, maybe, Defect, Refusal};
use crate::exec::SEC;
use crate::model::{one_time, spend, Life, Use};
use crate::oracle::{self, Tri};
use crate::world::{add_loot, CallRec, World};

#[derive(Clone, Debug)]
pub struct Session {
    pub life: Life,
    pub state: Use,
    pub req: ov::CreateRequestRequest,
    /// The request object as handed out, once it has been.
    pub obj: Option<Value>,
    pub honoured: Vec<u64>,
}

#[derive(Default)]
pub struct VModel {
    pub sessions: BTreeMap<(usize, String), Session>,
    pub accepted: u64,
}

impl VModel {
    pub fn uncertain(&mut self, key: &str) {
        let Some((v, s)) = key.strip_prefix('v').and_then(|r| r.split_once(':')) else { return };
        let Ok(v) = v.parse::<usize>() else { return };
        if let Some(x) = self.sessions.get_mut(&(v, s.to_string())) {
            if x.state == Use::Fresh {
                x.state = Use::Maybe;
            }
        }
    }
}

impl World {
    pub fn audit_verifier_metadata(
        &mut self, r: &CallRec, v: usize, req: &ov::MetadataRequest, res: &Result<ov::MetadataResponse, Refusal>,
    ) {
        let mut d = vec![];
        let s = self.setup.verifiers[v].clone();
        if req.client_id != s.id {
            defect(&mut d, "the verifier is unknown", &["C09"], &[]);
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C09"], &format!("{req:?}"));
        match res {
            Ok(m) if json!(m) != json!(s.meta) => {
                self.violate(&["C09", "C10"], "verifier-metadata", format!("{} instead of {}", json!(m), json!(s.meta)));
            }
            Ok(_) => {}
            Err(e) => self.leftovers(r, e, &[], &[]),
        }
    }

    pub fn audit_create_request(
        &mut self, r: &CallRec, v: usize, req: &ov::CreateRequestRequest,
        res: &Result<ov::CreateRequestResponse, Refusal>,
    ) {
        let mut d = vec![];
        let id = self.setup.verifiers[v].id.clone();
        if req.client_id != id {
            defect(&mut d, "the verifier is unknown", &["C08"], &["invalid_request"]);
        }
        if req.input_descriptors.is_empty() {
            defect(&mut d, "no credential is asked for", &["C08"], &["invalid_request"]);
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C09"], &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(resp) => {
                let life = self.life(r, 300);
                let cross = req.device_flow == DeviceFlow::CrossDevice;
                let (state, obj) = match (&resp.request_uri, &resp.request_object) {
                    (Some(u), None) if cross => match u.strip_prefix(&format!("{id}/request/")) {
                        Some(t) => (t.to_string(), None),
                        None => {
                            self.violate(&["C09"], "request-uri", format!("{u} does not lead to {id}"));
                            return;
                        }
                    },
                    (None, Some(o)) if !cross => {
                        let o = json!(o);
                        self.request_ok(v, req, &o);
                        (o["state"].as_str().unwrap_or_default().to_string(), Some(o))
                    }
                    _ => {
                        self.violate(&["C09"], "request-form", format!("{} for {req:?}", json!(resp)));
                        return;
                    }
                };
                self.secret("request state", &state);
                add_loot(&mut self.loot.states, &state);
                self.vmodel
                    .sessions
                    .insert((v, state), Session { life, state: Use::Fresh, req: req.clone(), obj, honoured: vec![] });
            }
        }
    }

    /// Is the request object what the verifier's application asked for?
    fn request_ok(&mut self, v: usize, req: &ov::CreateRequestRequest, o: &Value) {
        let s = self.setup.verifiers[v].clone();
        let cross = req.device_flow == DeviceFlow::CrossDevice;
        let pd = &o["presentation_definition"];
        let mut bad = vec![];
        if pd["input_descriptors"] != json!(req.input_descriptors) {
            bad.push("input descriptors");
        }
        if pd["purpose"] != json!(req.purpose) {
            bad.push("purpose");
        }
        if pd["id"].as_str().is_none_or(str::is_empty) {
            bad.push("definition id");
        }
        if o["client_metadata"] != json!(s.meta) {
            bad.push("client metadata");
        }
        if o["response_type"] != "vp_token" {
            bad.push("response type");
        }
        if cross {
            if o["response_uri"] != json!(format!("{}/post", s.id)) || o["response_mode"] != "direct_post" {
                bad.push("response uri");
            }
            if o["client_id"] != json!(format!("{}/post", s.id)) {
                bad.push("client id");
            }
        } else if o["client_id"] != json!(format!("{}/callback", s.id)) {
            bad.push("client id");
        }
        if !bad.is_empty() {
            self.violate(&["C09"], format!("request-object:{}", bad.join("+")), format!("{o} for {req:?}"));
        }
        let nonce = o["nonce"].as_str().unwrap_or_default().to_string();
        self.secret(if cross { "linked nonce" } else { "request nonce" }, &nonce);
        add_loot(&mut self.loot.nonces, &nonce);
    }

    pub fn audit_request_object(
        &mut self, r: &CallRec, v: usize, req: &ov::RequestObjectRequest,
        res: &Result<ov::RequestObjectResponse, Refusal>,
    ) {
        let mut d = vec![];
        let k = (v, req.id.clone());
        let s = self.vmodel.sessions.get(&k).cloned();
        let mut must = vec!["C09"];
        match &s {
            None => defect(&mut d, "there is no such request", &["C08"], &[]),
            Some(x) => {
                if self.x.now - x.life.born > 60 * SEC {
                    must.push("C02");
                }
                one_time(&mut d, r, x.state, false, "the request was already answered", &["C01"], &[]);
                self.check_life(r, &x.life, &mut d, "the request has expired", &["C02", "C08"], &["invalid_request"]);
                if x.req.device_flow == DeviceFlow::SameDevice || req.client_id != x.req.client_id {
                    defect(&mut d, "the request belongs to another client", &["C08"], &["invalid_request"]);
                }
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(resp) => {
                let o = match &resp.request_object {
                    RequestObjectType::Jwt(t) => {
                        let Some(j) = oracle::jwt(t, &self.setup.dids) else {
                            self.violate(&["C09", "C08"], "request-jwt", format!("{t} is not a JWT"));
                            return;
                        };
                        if !j.valid || j.did != self.setup.verifiers[v].key.did {
                            self.violate(&["C09", "C08"], "request-signature", format!("request object signed as {}", j.header));
                        }
                        j.claims
                    }
                    RequestObjectType::Object(o) => json!(o),
                };
                let Some(x) = s else { return };
                if o["state"] != json!(req.id) {
                    self.violate(&["C09", "C08"], "request-state", format!("{o} for state {}", req.id));
                }
                match &x.obj {
                    Some(old) if old != &o => {
                        self.violate(&["C08", "C09"], "request-changed", format!("request object was {old}, now {o}"));
                    }
                    Some(_) => {}
                    None => {
                        self.request_ok(v, &x.req, &o);
                        if let Some(x) = self.vmodel.sessions.get_mut(&k) {
                            x.obj = Some(o);
                        }
                    }
                }
            }
        }
    }

    pub fn audit_response(
        &mut self, r: &CallRec, v: usize, req: &ov::ResponseRequest, res: &Result<ov::ResponseResponse, Refusal>,
    ) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let mut d = vec![];
        let mut must = vec!["C09"];
        let k = (v, req.state.clone().unwrap_or_default());
        let s = req.state.as_ref().and_then(|_| self.vmodel.sessions.get(&k).cloned());
        let mut embedded = false;
        match &s {
            None => defect(&mut d, "the state is not an open request", &["C08"], &["invalid_request"]),
            Some(x) => {
                if self.x.now - x.life.born > 60 * SEC {
                    must.push("C02");
                }
                one_time(&mut d, r, x.state, false, "the request was already answered", &["C01", "C08"], &["invalid_request"]);
                self.check_life(r, &x.life, &mut d, "the request has expired", &["C02", "C08"], &["invalid_request"]);
                match &x.obj {
                    None => defect(&mut d, "the request was never read", &["C08"], &[]),
                    Some(o) => embedded = self.answer_defects(r, o, req, &mut d),
                }
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{}", json!(req)));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(resp) => {
                self.vmodel.accepted += 1;
                self.probe("presentation.accepted");
                if embedded {
                    self.violate_known(
                        &["C08"],
                        "embedded-vp",
                        "a presentation with an embedded proof was accepted without its proof being verified",
                        Some("embedded-vp"),
                    );
                }
                if let Some(x) = &s {
                    self.twice(r, me, &x.honoured, &k.1, "presentation request", &["C01", "C08"]);
                }
                if resp.redirect_uri.is_none() && resp.response_code.is_none() {
                    self.probe("response.empty");
                }
            }
        }
        if let Some(x) = self.vmodel.sessions.get_mut(&k) {
            if res.is_ok() {
                x.honoured.push(me);
                spend(&mut x.state, r, seq, true);
            } else if r.faults > 0 {
                spend(&mut x.state, r, seq, false);
            }
        }
    }

    /// Why a presentation does not answer the request; tells whether it carries an embedded proof.
    fn answer_defects(&self, r: &CallRec, o: &Value, req: &ov::ResponseRequest, d: &mut Vec<Defect>) -> bool {
        let mut embedded = false;
        let nonce = o["nonce"].as_str().unwrap_or_default();
        let Some(tokens) = &req.vp_token else {
            defect(d, "there is no presentation", &["C08"], &["invalid_request"]);
            return false;
        };
        let mut vps = vec![];
        for t in tokens {
            let t = json!(t);
            match &t {
                Value::String(t) => {
                    let Some(j) = oracle::jwt(t, &self.setup.dids) else {
                        defect(d, "the presentation is not a JWT", &["C08"], &[]);
                        continue;
                    };
                    if !j.valid {
                        if j.loose {
                            maybe(d, "the presentation names its key loosely", &["C08"], &[]);
                        } else {
                            defect(d, "the presentation's signature is invalid", &["C08"], &[]);
                        }
                    }
                    if j.typ() != "vp+jwt" {
                        maybe(d, "the presentation is of another type", &["C08"], &[]);
                    }
                    let c = &j.claims;
                    if c["nonce"].as_str().is_none() {
                        defect(d, "the presentation has no nonce", &["C08"], &[]);
                    } else if c["nonce"].as_str() != Some(nonce) {
                        defect(d, "the presentation's nonce is not the request's", &["C08"], &["invalid_request"]);
                    }
                    let full = ["iss", "jti", "aud", "nbf", "iat", "exp", "vp"].iter().all(|k| !c[k].is_null());
                    if !full {
                        maybe(d, "the presentation lacks a claim", &["C08"], &[]);
                    }
                    if c["aud"] != o["client_id"] {
                        defect(d, "the presentation is for another audience", &["C08"], &[]);
                    }
                    match c["exp"].as_i64().map(|e| e.saturating_mul(SEC)) {
                        Some(e) if e < r.begin_local - 2 * SEC && !r.clock_moved => {
                            defect(d, "the presentation has expired", &["C08"], &[]);
                        }
                        Some(e) if e < self.end_local(r) + 2 * SEC => {
                            maybe(d, "the presentation has expired", &["C08"], &[]);
                        }
                        _ => {}
                    }
                    if c["vp"]["holder"].as_str().is_some_and(|h| h != j.did) {
                        defect(d, "the presentation is by someone else", &["C08"], &[]);
                    }
                    vps.push(c["vp"].clone());
                }
                vp => {
                    embedded = true;
                    if vp["proof"]["challenge"].as_str() != Some(nonce) {
                        defect(d, "the presentation's nonce is not the request's", &["C08"], &[]);
                    }
                    maybe(d, "the presentation's proof is embedded", &["C08"], &[]);
                    vps.push(vp.clone());
                }
            }
        }
        if tokens.is_empty() {
            maybe(d, "there is no presentation", &["C08"], &[]);
        }
        let Some(subm) = req.presentation_submission.as_ref().map(|s| json!(s)) else {
            defect(d, "there is no submission", &["C08"], &["invalid_request"]);
            return embedded;
        };
        if subm["definition_id"] != o["presentation_definition"]["id"] {
            defect(d, "the submission is for another definition", &["C08"], &["invalid_request"]);
        }
        let all = if vps.len() == 1 { vps[0].clone() } else { Value::Array(vps.clone()) };
        let lists = vps.iter().all(|v| v["verifiableCredential"].is_array() || v["verifiableCredential"].is_null());
        for input in o["presentation_definition"]["input_descriptors"].as_array().into_iter().flatten() {
            let Some(map) =
                subm["descriptor_map"].as_array().into_iter().flatten().find(|m| m["id"] == input["id"])
            else {
                defect(d, "a descriptor is not answered", &["C08"], &["invalid_request"]);
                continue;
            };
            if let Some(f) = input["format"].as_object() {
                if !f.contains_key(map["path_nested"]["format"].as_str().unwrap_or_default()) {
                    defect(d, "the credential's format was not asked for", &["C08"], &["invalid_request"]);
                }
            }
            let path = map["path_nested"]["path"].as_str().unwrap_or_default();
            let segs = match oracle::parse_path(path) {
                Ok(s) => s,
                Err(true) => {
                    defect(d, "the path is not a path", &["C08"], &[]);
                    continue;
                }
                Err(false) => {
                    maybe(d, "the path is unusual", &["C08"], &[]);
                    continue;
                }
            };
            if !lists {
                maybe(d, "a presentation holds a bare credential", &["C08"], &[]);
            }
            let nodes = oracle::eval_path(&segs, &all);
            let [node] = nodes.as_slice() else {
                if lists {
                    defect(d, "the path finds no single credential", &["C08"], &["invalid_request"]);
                }
                continue;
            };
            let Some(j) = node.as_str().and_then(|t| oracle::jwt(t, &self.setup.dids)) else {
                defect(d, "what the path finds is no signed credential", &["C08"], &[]);
                continue;
            };
            if !j.valid {
                if j.loose {
                    maybe(d, "the credential names its key loosely", &["C08"], &[]);
                } else {
                    defect(d, "the credential's signature is invalid", &["C08"], &["invalid_request"]);
                }
            }
            let vc = &j.claims["vc"];
            if !vc.is_object() {
                defect(d, "the credential is not a credential", &["C08"], &["invalid_request"]);
                continue;
            }
            if !self.model.vcs.iter().any(|x| Some(x.as_str()) == node.as_str()) {
                maybe(d, "the credential was not issued here", &["C08"], &[]);
            }
            match oracle::satisfied(&input["constraints"], vc) {
                Tri::Yes => {}
                Tri::Open => maybe(d, "the constraints may not be met", &["C08", "C11"], &[]),
                Tri::No => defect(d, "the constraints are not met", &["C08", "C11"], &[]),
            }
            if let Some(u) = vc["validUntil"].as_str() {
                match chrono::DateTime::parse_from_rfc3339(u).ok().and_then(|t| t.timestamp_nanos_opt()) {
                    Some(t) if t < r.begin_local - 2 * SEC => {
                        d.push(Defect {
                            what: "the credential has expired",
                            props: &["C08"],
                            codes: &["invalid_request"],
                            sure: !r.clock_moved,
                        });
                    }
                    Some(t) if t > self.end_local(r) + 2 * SEC => {}
                    _ => maybe(d, "the credential may have expired", &["C08"], &[]),
                }
            }
        }
        embedded
    }
}
