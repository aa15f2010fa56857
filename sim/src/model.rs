//! The reference model of the issuer: what has been handed out, to whom, until when, and what may still be done with
//! it. Every endpoint call is judged against it when it ends.

use std::collections::{BTreeMap, BTreeSet};

use serde_json::{json, Value};
use vercre_core::Kind;
use vercre_openid::issuer as oi;
use vercre_openid::issuer::{
    CredentialAuthorization, CredentialIssuance, CredentialResponseType, Format, GrantType, OfferType, Proof, SendType,
    TokenGrantType,
};

use crate::audit::{defect, maybe, Defect, Refusal};
use crate::exec::SEC;
use crate::oracle;
use crate::world::{add_loot, CallRec, World};

type K = (usize, String);

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Use {
    Fresh,
    Maybe,
    Spent(u64),
}

/// Bounds on the wall-clock instant at which an artefact expires.
#[derive(Clone, Copy, Debug)]
pub struct Life {
    pub min: i64,
    pub max: i64,
    pub born: i64,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub cfg: String,
    pub idents: Vec<String>,
    /// The authorization detail it was granted for; `None` for a scope.
    pub detail: Option<Value>,
    /// The claims it is limited to (`None`: all of them); several if it was asked for more than once.
    pub limits: Vec<Option<Value>>,
}

#[derive(Clone, Debug)]
pub struct AuthGrant {
    pub client: String,
    pub redirect: Option<String>,
    pub challenge: String,
    pub items: Vec<Item>,
}

#[derive(Clone, Debug)]
pub struct Code {
    pub life: Life,
    pub state: Use,
    pub subject: Option<String>,
    pub pre: Option<(Option<String>, Vec<Item>)>,
    pub auth: Option<AuthGrant>,
    pub issuer_state: bool,
    pub honoured: Vec<u64>,
    pub taint: bool,
}

#[derive(Clone, Debug)]
pub struct Link {
    pub life: Life,
    pub state: Use,
    pub req: oi::CreateOfferRequest,
    pub tx_code: Option<String>,
    pub honoured: Vec<u64>,
    pub taint: bool,
}

#[derive(Clone, Debug)]
pub struct Par {
    pub life: Life,
    pub state: Use,
    pub req: oi::RequestObject,
    pub honoured: Vec<u64>,
    pub taint: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Nst {
    Live,
    Maybe,
    Dead(u64),
}

#[derive(Clone, Debug)]
pub struct Nonce {
    pub st: Nst,
    pub life: Life,
    pub used: Vec<u64>,
}

#[derive(Clone, Debug)]
pub struct Tok {
    pub life: Life,
    pub ttl: i64,
    pub subject: Option<String>,
    pub grants: BTreeMap<String, String>,
    /// By configuration, the claims it is limited to.
    pub limits: BTreeMap<String, Vec<Option<Value>>>,
    pub nonces: BTreeMap<String, Nonce>,
    pub taint: bool,
}

#[derive(Clone, Debug)]
pub struct Txn {
    pub life: Life,
    pub state: Use,
    pub token: String,
    pub req: oi::CredentialRequest,
    pub honoured: Vec<u64>,
    pub taint: bool,
}

#[derive(Clone, Debug)]
pub struct Notif {
    pub life: Life,
    pub state: Use,
    pub honoured: Vec<u64>,
    pub taint: bool,
}

#[derive(Default)]
pub struct Model {
    pub registered: u64,
    pub codes: BTreeMap<K, Code>,
    pub links: BTreeMap<K, Link>,
    pub pars: BTreeMap<K, Par>,
    pub toks: BTreeMap<K, Tok>,
    pub txns: BTreeMap<K, Txn>,
    pub notifs: BTreeMap<K, Notif>,
    pub issued: u64,
    /// Signed credentials as issued, for the wallet and verifier checks.
    pub vcs: Vec<String>,
}

pub fn key_of(i: usize, s: &str) -> String {
    format!("i{i}:{s}")
}

impl Model {
    /// Something went wrong while this artefact was in use: what is left of it is unknown.
    pub fn uncertain(&mut self, key: &str, begin: i64, local: i64, taint: bool) {
        let Some((i, s)) = key.strip_prefix('i').and_then(|r| r.split_once(':')) else { return };
        let Ok(i) = i.parse::<usize>() else { return };
        let k = (i, s.to_string());
        let un = |u: &mut Use| {
            if *u == Use::Fresh {
                *u = Use::Maybe;
            }
        };
        if let Some(c) = self.codes.get_mut(&k) {
            un(&mut c.state);
        }
        if let Some(c) = self.links.get_mut(&k) {
            un(&mut c.state);
        }
        if let Some(c) = self.pars.get_mut(&k) {
            un(&mut c.state);
        }
        if let Some(c) = self.txns.get_mut(&k) {
            un(&mut c.state);
        }
        if let Some(c) = self.notifs.get_mut(&k) {
            un(&mut c.state);
        }
        if let Some(t) = self.toks.get_mut(&k) {
            t.unsure(begin, local);
            t.taint |= taint;
        }
    }

    /// Used where it does not belong: the implementation may have dropped it.
    fn misuse(&mut self, k: &K) {
        if let Some(c) = self.codes.get_mut(k) {
            c.taint = true;
        }
        if let Some(c) = self.links.get_mut(k) {
            c.taint = true;
        }
        if let Some(c) = self.pars.get_mut(k) {
            c.taint = true;
        }
        if let Some(c) = self.txns.get_mut(k) {
            c.taint = true;
        }
        if let Some(c) = self.notifs.get_mut(k) {
            c.taint = true;
        }
        if let Some(c) = self.toks.get_mut(k) {
            c.taint = true;
        }
    }

    fn known(&self, k: &K) -> bool {
        self.codes.contains_key(k)
            || self.links.contains_key(k)
            || self.pars.contains_key(k)
            || self.txns.contains_key(k)
            || self.notifs.contains_key(k)
            || self.toks.contains_key(k)
    }
}

/// When something made during a call expires; anything goes if the clock was set meanwhile.
fn span(r: &CallRec, end_local: i64, ttl: i64, born: i64) -> Life {
    if r.clock_moved {
        Life { min: i64::MIN / 2, max: i64::MAX / 2, born }
    } else {
        Life { min: r.begin_local + ttl * SEC, max: end_local + ttl * SEC, born }
    }
}

impl Tok {
    fn unsure(&mut self, begin: i64, local: i64) {
        let (begin, local) = (begin.min(local), begin.max(local));
        for n in self.nonces.values_mut() {
            if n.st == Nst::Live {
                n.st = Nst::Maybe;
            }
        }
        self.life.max = self.life.max.max(local + self.ttl * SEC);
        // a slow clock may have brought the end forward
        self.life.min = self.life.min.min(begin + self.ttl * SEC);
    }

    /// A new nonce replaces the old ones.
    fn rotate(&mut self, r: &CallRec, end_seq: u64, end_local: i64, now: i64, nonce: &str, nonce_ttl: i64) {
        let clean = r.clean();
        for n in self.nonces.values_mut() {
            match n.st {
                Nst::Live | Nst::Maybe if clean => n.st = Nst::Dead(end_seq),
                Nst::Live => n.st = Nst::Maybe,
                _ => {}
            }
        }
        let life = span(r, end_local, nonce_ttl, now);
        self.nonces
            .insert(nonce.to_string(), Nonce { st: if clean { Nst::Live } else { Nst::Maybe }, life, used: vec![] });
        if clean {
            self.life = span(r, end_local, self.ttl, self.life.born);
        } else {
            let l = span(r, end_local, self.ttl, now);
            self.life.max = self.life.max.max(l.max);
            self.life.min = self.life.min.min(l.min);
        }
    }
}

impl World {
    pub fn life(&self, r: &CallRec, ttl: i64) -> Life {
        span(r, self.end_local(r), ttl, self.x.now)
    }

    /// `None`: certainly alive; `Some(true)`: certainly expired.
    pub fn expired(&self, r: &CallRec, l: &Life) -> Option<bool> {
        if !r.clock_moved && r.begin_local > l.max + 2 * SEC {
            return Some(true);
        }
        let alive = !r.clock_moved
            && self.end_local(r) < l.min - SEC
            && (!self.faults.evict || self.x.now < l.min - SEC);
        if alive {
            None
        } else {
            Some(false)
        }
    }

    pub fn check_life(
        &self, r: &CallRec, l: &Life, d: &mut Vec<Defect>, what: &'static str, props: &'static [&'static str],
        codes: &'static [&'static str],
    ) {
        match self.expired(r, l) {
            None => {}
            // a store that drops expired entries makes them look unknown
            Some(sure) => d.push(Defect { what, props, codes: if self.faults.evict { &[] } else { codes }, sure }),
        }
    }

    fn aged(&self, l: &Life, base: &[&'static str]) -> Vec<&'static str> {
        let mut p = base.to_vec();
        if self.x.now - l.born > 60 * SEC {
            p.push("C02");
        }
        p
    }

    /// One artefact honoured by two calls: a race of the missing atomic take (known), or worse.
    pub fn twice(&mut self, r: &CallRec, me: u64, prior: &[u64], key: &str, kind: &'static str, props: &[&'static str]) {
        for p in prior {
            let Some(o) = self.calls.recs.get(p).cloned() else { continue };
            let first = |r: &CallRec, kinds: &[&str]| {
                r.ops.iter().find(|op| op.key == key && kinds.contains(&op.kind)).map(|op| op.seq)
            };
            let my_get = first(r, &["get"]);
            let their_take = o
                .ops
                .iter()
                .filter(|op| op.key == key && (op.kind == "purge" || op.kind == "put"))
                .map(|op| op.seq)
                .min();
            let their_get = first(&o, &["get"]);
            let my_take = first(r, &["purge", "put"]);
            let overlapped = o.end.is_none_or(|e| e > r.begin) && r.overlaps.contains(p);
            let raced = match (my_get, their_take, their_get, my_take) {
                (Some(g), Some(t), Some(tg), Some(mt)) => g < t && tg < mt,
                _ => false,
            };
            let known = (overlapped && raced).then_some(match kind {
                "nonce" => "nonce-race",
                _ => "take-race",
            });
            self.violate_known(
                props,
                format!("twice:{kind}"),
                format!("{kind} {key} honoured by call {p} and again by call {me}"),
                known,
            );
        }
    }

    // -----------------------------------------------------------------------------------------------------------

    pub fn audit_create_offer(
        &mut self, r: &CallRec, i: usize, req: &oi::CreateOfferRequest,
        res: &Result<oi::CreateOfferResponse, Refusal>,
    ) {
        let mut d = vec![];
        let s = self.setup.issuers[i].clone();
        if req.credential_issuer != s.id {
            defect(&mut d, "the issuer is unknown", &["C07"], &[]);
        }
        if req.credential_configuration_ids.is_empty() {
            defect(&mut d, "no credential is offered", &["C07"], &["invalid_request"]);
        }
        if req.credential_configuration_ids.iter().any(|c| !s.meta.credential_configurations_supported.contains_key(c)) {
            defect(&mut d, "the credential is not supported", &["C03"], &["unsupported_credential_type"]);
        }
        let grants = req.grant_types.clone().unwrap_or_default();
        let allowed = s.server.oauth.grant_types_supported.clone().unwrap_or_default();
        if grants.iter().any(|g| !allowed.contains(g)) {
            defect(&mut d, "the grant type is not supported", &["C03"], &["unsupported_grant_type"]);
        }
        let pre = grants.contains(&GrantType::PreAuthorizedCode);
        if pre {
            match &req.subject_id {
                None => defect(&mut d, "a pre-authorized offer names no subject", &["C03"], &["invalid_request"]),
                Some(sub) => {
                    let ok = self.setup.subjects.get(sub).is_some_and(|x| {
                        req.credential_configuration_ids.iter().all(|c| x.grants.contains_key(c))
                    });
                    if !ok {
                        defect(&mut d, "the subject is not authorized for it", &["C03"], &[]);
                    }
                }
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C07"], &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(resp) => {
                let life = self.life(r, 300);
                let tx = resp.tx_code.clone();
                if tx.is_some() != (pre && req.tx_code_required) {
                    self.violate(&["C03", "C07"], "offer-tx_code", format!("tx_code {tx:?} for {req:?}"));
                }
                if let Some(t) = &tx {
                    self.secret("tx_code", t);
                    add_loot(&mut self.loot.tx_codes, t);
                }
                match &resp.offer_type {
                    OfferType::Object(o) => {
                        if req.send_type != SendType::ByVal {
                            self.violate(&["C07"], "offer-by-value", "offer sent by value although by reference was asked");
                        }
                        self.learn_offer(i, req, o, tx, life, false);
                    }
                    OfferType::Uri(u) => {
                        if req.send_type != SendType::ByRef {
                            self.violate(&["C07"], "offer-by-ref", "offer sent by reference although by value was asked");
                        }
                        let Some(t) = u.strip_prefix(&format!("{}/credential_offer/", s.id)) else {
                            self.violate(&["C07"], "offer-uri", format!("offer link {u} does not lead to the issuer"));
                            return;
                        };
                        self.secret("offer link", t);
                        add_loot(&mut self.loot.uris, t);
                        self.model.links.insert(
                            (i, t.to_string()),
                            Link { life, state: Use::Fresh, req: req.clone(), tx_code: tx, honoured: vec![], taint: false },
                        );
                    }
                }
            }
        }
    }

    /// Checks an offer against the request that made it and remembers its codes.
    fn learn_offer(
        &mut self, i: usize, req: &oi::CreateOfferRequest, o: &oi::CredentialOffer, tx: Option<String>, life: Life,
        linked: bool,
    ) {
        let grants = req.grant_types.clone().unwrap_or_default();
        let v = json!(o);
        if o.credential_issuer != req.credential_issuer
            || o.credential_configuration_ids != req.credential_configuration_ids
        {
            self.violate(&["C07", "C10"], "offer-content", format!("offer {v} for {req:?}"));
        }
        let pre = o.grants.as_ref().and_then(|g| g.pre_authorized_code.clone());
        let auth = o.grants.as_ref().and_then(|g| g.authorization_code.clone());
        if pre.is_some() != grants.contains(&GrantType::PreAuthorizedCode)
            || auth.is_some() != grants.contains(&GrantType::AuthorizationCode)
        {
            self.violate(&["C07", "C03"], "offer-grants", format!("offer {v} for {req:?}"));
        }
        if let Some(p) = &pre {
            if p.tx_code.is_some() != req.tx_code_required {
                self.violate(&["C07", "C03"], "offer-tx-hint", format!("offer {v} for {req:?}"));
            }
        }
        let add = |w: &mut World, code: &str, is_pre: bool, is_state: bool| {
            let items: Vec<Item> = if is_pre {
                let sub = req.subject_id.clone().unwrap_or_default();
                req.credential_configuration_ids
                    .iter()
                    .map(|c| Item {
                        cfg: c.clone(),
                        idents: w
                            .setup
                            .subjects
                            .get(&sub)
                            .and_then(|s| s.grants.get(c))
                            .cloned()
                            .unwrap_or_default(),
                        detail: Some(json!({"type": "openid_credential", "credential_configuration_id": c})),
                        limits: vec![None],
                    })
                    .collect()
            } else {
                vec![]
            };
            w.secret(if linked { "linked code" } else { "code" }, code);
            add_loot(&mut w.loot.codes, code);
            w.model.codes.insert(
                (i, code.to_string()),
                Code {
                    life,
                    state: Use::Fresh,
                    subject: req.subject_id.clone(),
                    pre: is_pre.then(|| (tx.clone(), items)),
                    auth: None,
                    issuer_state: is_state,
                    honoured: vec![],
                    taint: false,
                },
            );
        };
        let state = auth.as_ref().and_then(|a| a.issuer_state.clone());
        if let Some(p) = &pre {
            add(self, &p.pre_authorized_code, true, state.as_ref() == Some(&p.pre_authorized_code));
        }
        if let Some(s) = &state {
            if pre.as_ref().is_none_or(|p| &p.pre_authorized_code != s) {
                add(self, s, false, true);
            }
        }
    }

    pub fn audit_credential_offer(
        &mut self, r: &CallRec, i: usize, req: &oi::CredentialOfferRequest,
        res: &Result<oi::CredentialOfferResponse, Refusal>,
    ) {
        let k = (i, req.id.clone());
        let mut d = vec![];
        let link = self.model.links.get(&k).cloned();
        let mut must = vec!["C07"];
        match &link {
            None => {
                defect(&mut d, "there is no such offer link", &["C01", "C03"], &[]);
                self.model.misuse(&k);
            }
            Some(l) => {
                must = self.aged(&l.life, &must);
                one_time(&mut d, r, l.state, l.taint, "the offer link was already used", &["C01"], &[]);
                self.check_life(r, &l.life, &mut d, "the offer link has expired", &["C02"], &["invalid_request"]);
                if req.credential_issuer != l.req.credential_issuer {
                    defect(&mut d, "the link belongs to another issuer", &["C03"], &[]);
                }
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{req:?}"));
        let me = r.begin;
        match res {
            Err(e) => self.leftovers(r, e, &[req.id.clone()], &[]),
            Ok(resp) => {
                if let Some(l) = &link {
                    self.twice(r, me, &l.honoured, &req.id, "offer link", &["C01"]);
                    if l.honoured.is_empty() {
                        self.learn_offer(i, &l.req.clone(), &resp.credential_offer, l.tx_code.clone(), l.life, true);
                    }
                }
            }
        }
        let seq = r.end.unwrap_or(me);
        let mismatch = link.as_ref().is_some_and(|l| req.credential_issuer != l.req.credential_issuer);
        if let Some(l) = self.model.links.get_mut(&k) {
            if res.is_ok() {
                l.honoured.push(me);
            }
            spend(&mut l.state, r, seq, res.is_ok() && !mismatch);
        }
    }

    // -----------------------------------------------------------------------------------------------------------

    /// Why an authorization request ought to be refused, and the items it would grant.
    fn auth_defects(
        &mut self, r: &CallRec, i: usize, req: &oi::RequestObject, is_par: bool, granting: bool,
    ) -> (Vec<Defect>, Vec<Item>) {
        let mut d = vec![];
        let mut items = vec![];
        let s = self.setup.issuers[i].clone();
        if req.credential_issuer != s.id {
            defect(&mut d, "the issuer is unknown", &["C03"], &[]);
            return (d, items);
        }
        let client = self.setup.clients.get(&req.client_id).cloned();
        if client.is_none() {
            defect(&mut d, "the client is unknown", &["C03"], &["invalid_client"]);
        }
        if s.server.oauth.require_pushed_authorization_requests == Some(true) && !is_par {
            defect(&mut d, "the server demands a pushed request", &["C03"], &["invalid_request"]);
        }
        if !s.server.oauth.response_types_supported.contains(&req.response_type) {
            defect(&mut d, "the response type is not supported", &["C03"], &["unsupported_response_type"]);
        }
        let server_scopes = s.server.oauth.scopes_supported.clone().unwrap_or_default();
        if let Some(c) = &client {
            match &c.oauth.scope {
                None => defect(&mut d, "the client has no scope", &["C03"], &[]),
                Some(sc) => {
                    if sc.split_whitespace().any(|x| !server_scopes.contains(&x.to_string())) {
                        defect(&mut d, "the client's scope is not supported", &["C03"], &[]);
                    }
                }
            }
            if !c.oauth.grant_types.clone().unwrap_or_default().contains(&GrantType::AuthorizationCode) {
                defect(&mut d, "the client may not use this grant", &["C03"], &["unauthorized_client"]);
            }
            match &req.redirect_uri {
                None => defect(&mut d, "there is no redirect URI", &["C03"], &["invalid_request"]),
                Some(u) => {
                    if !c.oauth.redirect_uris.clone().unwrap_or_default().contains(u) {
                        defect(&mut d, "the redirect URI is not registered", &["C03"], &["invalid_request"]);
                    }
                }
            }
            if !c.oauth.response_types.clone().unwrap_or_default().contains(&req.response_type) {
                defect(&mut d, "the response type is not the client's", &["C03"], &["unsupported_response_type"]);
            }
        }
        if !s.server.oauth.grant_types_supported.clone().unwrap_or_default().contains(&GrantType::AuthorizationCode) {
            defect(&mut d, "the server does not support this grant", &["C03"], &[]);
        }
        if req.subject_id.is_empty() {
            defect(&mut d, "there is no subject", &["C03"], &[]);
        }
        if let Some(st) = &req.issuer_state {
            let k = (i, st.clone());
            match self.model.codes.get(&k).cloned() {
                Some(c) if c.issuer_state => {
                    one_time(&mut d, r, c.state, c.taint, "the issuer state was already used", &["C01"], &[]);
                    self.check_life(r, &c.life, &mut d, "the issuer state has expired", &["C02"], &[]);
                    if c.subject.as_ref() != Some(&req.subject_id) {
                        defect(&mut d, "the subject is not the offer's", &["C03"], &[]);
                    }
                }
                _ => {
                    if self.model.known(&k) {
                        maybe(&mut d, "the issuer state is something else", &["C03"], &[]);
                        self.model.misuse(&k);
                    } else {
                        defect(&mut d, "the issuer state is unknown", &["C03"], &[]);
                    }
                }
            }
        }
        if req.authorization_details.is_none() && req.scope.is_none() {
            defect(&mut d, "nothing is requested", &["C03"], &[]);
        }
        let mut seen = BTreeSet::new();
        for det in req.authorization_details.iter().flatten() {
            let (cfg, claims) = self.detail_config(i, &det.credential);
            let conf = cfg.as_ref().and_then(|c| s.meta.credential_configurations_supported.get(c));
            let (Some(cfg), Some(conf)) = (cfg, conf) else {
                // a pushed request may leave this to the authorization that uses it
                d.push(Defect { what: "the credential is not supported", props: &["C03"], codes: &[], sure: granting });
                continue;
            };
            if let Some(c) = &claims {
                if !oracle::claims_ok(c, &supported_claims(conf)) {
                    defect(
                        &mut d,
                        "the requested claims are not supported or incomplete",
                        &["C04", "C03"],
                        &["invalid_request", "invalid_authorization_details"],
                    );
                }
            }
            if !seen.insert(cfg.clone()) {
                maybe(&mut d, "the same credential is requested twice", &["C03"], &[]);
            }
            let mut limits = vec![claims];
            limits.extend(items.iter().filter(|x: &&Item| x.cfg == cfg).flat_map(|x| x.limits.clone()));
            items.retain(|x: &Item| x.cfg != cfg);
            items.push(Item { cfg, idents: vec![], detail: Some(json!(det)), limits });
        }
        for item in req.scope.iter().flat_map(|s| s.split_whitespace()) {
            let cfgs: Vec<String> = s
                .meta
                .credential_configurations_supported
                .iter()
                .filter(|(_, c)| c.scope.as_deref() == Some(item))
                .map(|(id, _)| id.clone())
                .collect();
            if cfgs.is_empty() {
                defect(&mut d, "the scope is not supported", &["C03"], &["invalid_scope"]);
            }
            if cfgs.iter().all(|c| seen.contains(c)) {
                maybe(&mut d, "the scope adds nothing", &["C03"], &[]);
            }
            for c in cfgs {
                if !seen.contains(&c) && !items.iter().any(|x| x.cfg == c) {
                    items.push(Item { cfg: c, idents: vec![], detail: None, limits: vec![None] });
                }
            }
        }
        if req.scope.is_some() && items.is_empty() && d.is_empty() {
            maybe(&mut d, "an empty scope is requested", &["C03"], &[]);
        }
        if req.authorization_details.as_ref().is_some_and(Vec::is_empty) {
            maybe(&mut d, "an empty list of details is requested", &["C03"], &[]);
        }
        if req.code_challenge.len() < 43 || req.code_challenge.len() > 128 {
            defect(&mut d, "the code challenge has a wrong length", &["C03"], &["invalid_request"]);
        }
        if granting {
            for it in &mut items {
                match self.setup.subjects.get(&req.subject_id).and_then(|x| x.grants.get(&it.cfg)) {
                    Some(ids) => it.idents = ids.clone(),
                    None => defect(&mut d, "the subject is not authorized for it", &["C03"], &["access_denied"]),
                }
            }
        }
        (d, items)
    }

    /// The configuration an authorization detail refers to, and the claims it lists.
    fn detail_config(&self, i: usize, c: &CredentialAuthorization) -> (Option<String>, Option<Value>) {
        match c {
            CredentialAuthorization::ConfigurationId { credential_configuration_id, claims } => {
                let v = json!({"claims": claims});
                let cl = match &v["claims"] {
                    Value::Object(o) => o
                        .get("credential_definition")
                        .map(|cd| cd["credentialSubject"].clone())
                        .or_else(|| o.get("claims").cloned()),
                    _ => None,
                };
                (Some(credential_configuration_id.clone()), cl.filter(|x| !x.is_null()))
            }
            CredentialAuthorization::Format(f) => (self.format_config(i, f), format_claims(f)),
        }
    }

    /// The configuration a format describes.
    pub fn format_config(&self, i: usize, f: &Format) -> Option<String> {
        let want = format_key(f);
        self.setup.issuers[i]
            .meta
            .credential_configurations_supported
            .iter()
            .find(|(_, c)| format_key(&c.format) == want)
            .map(|(id, _)| id.clone())
    }

    pub fn audit_authorize(
        &mut self, r: &CallRec, i: usize, req: &oi::AuthorizationRequest,
        res: &Result<oi::AuthorizationResponse, Refusal>,
    ) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let mut d = vec![];
        let mut must = vec!["C07"];
        let mut named = vec![];
        let (obj, is_par) = match req {
            oi::AuthorizationRequest::Object(o) => (Some(o.clone()), false),
            oi::AuthorizationRequest::Uri(u) => {
                let k = (i, u.request_uri.clone());
                named.push(u.request_uri.clone());
                match self.model.pars.get(&k).cloned() {
                    None => {
                        defect(&mut d, "there is no such pushed request", &["C01", "C03"], &[]);
                        self.model.misuse(&k);
                        (None, true)
                    }
                    Some(p) => {
                        must = self.aged(&p.life, &must);
                        one_time(&mut d, r, p.state, p.taint, "the pushed request was already used", &["C01"], &[]);
                        self.check_life(
                            r,
                            &p.life,
                            &mut d,
                            "the pushed request has expired",
                            &["C02"],
                            &["invalid_request"],
                        );
                        (Some(p.req), true)
                    }
                }
            }
        };
        let mut items = vec![];
        if let Some(o) = &obj {
            let (more, it) = self.auth_defects(r, i, o, is_par, true);
            d.extend(more);
            items = it;
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &named, &[]),
            Ok(resp) => {
                self.secret("code", &resp.code);
                add_loot(&mut self.loot.codes, &resp.code);
                if let Some(o) = &obj {
                    if resp.state != o.state || Some(&resp.redirect_uri) != o.redirect_uri.as_ref() {
                        self.violate(
                            &["C07", "C03"],
                            "authorize-response",
                            format!("answer {} to {req:?}", json!(resp)),
                        );
                    }
                    let life = self.life(r, 300);
                    self.model.codes.insert(
                        (i, resp.code.clone()),
                        Code {
                            life,
                            state: Use::Fresh,
                            subject: Some(o.subject_id.clone()),
                            pre: None,
                            auth: Some(AuthGrant {
                                client: o.client_id.clone(),
                                redirect: o.redirect_uri.clone(),
                                challenge: o.code_challenge.clone(),
                                items,
                            }),
                            issuer_state: false,
                            honoured: vec![],
                            taint: false,
                        },
                    );
                }
                if let Some(p) = named.first().and_then(|n| self.model.pars.get(&(i, n.clone()))).cloned() {
                    self.twice(r, me, &p.honoured, &named[0], "pushed request", &["C01"]);
                }
                if let Some(st) = obj.as_ref().and_then(|o| o.issuer_state.clone()) {
                    if let Some(c) = self.model.codes.get(&(i, st.clone())).cloned().filter(|c| c.issuer_state) {
                        self.twice(r, me, &c.honoured, &st, "issuer state", &["C01"]);
                    }
                }
            }
        }
        if let Some(p) = named.first().and_then(|n| self.model.pars.get_mut(&(i, n.clone()))) {
            if res.is_ok() {
                p.honoured.push(me);
            }
            spend(&mut p.state, r, seq, true);
        }
        if let Some(st) = obj.as_ref().and_then(|o| o.issuer_state.clone()) {
            if let Some(c) = self.model.codes.get_mut(&(i, st)) {
                if res.is_ok() {
                    c.honoured.push(me);
                    spend(&mut c.state, r, seq, true);
                } else if r.faults > 0 {
                    spend(&mut c.state, r, seq, false);
                }
            }
        }
    }

    pub fn audit_par(
        &mut self, r: &CallRec, i: usize, req: &oi::PushedAuthorizationRequest,
        res: &Result<oi::PushedAuthorizationResponse, Refusal>,
    ) {
        let (d, _) = self.auth_defects(r, i, &req.request, true, false);
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C07"], &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(resp) => {
                let t = resp.request_uri.strip_prefix("urn:ietf:params:oauth:request_uri:").unwrap_or_default();
                let t = t.to_string();
                self.secret("request_uri", &t);
                add_loot(&mut self.loot.pars, &resp.request_uri);
                if self.prompt(r) && resp.expires_in <= 0 {
                    self.violate(&["C02"], "par-lifetime", format!("pushed request lives {} s", resp.expires_in));
                }
                let life = self.life(r, resp.expires_in);
                self.model.pars.insert(
                    (i, resp.request_uri.clone()),
                    Par { life, state: Use::Fresh, req: req.request.clone(), honoured: vec![], taint: false },
                );
            }
        }
    }

    // -----------------------------------------------------------------------------------------------------------

    pub fn audit_token(
        &mut self, r: &CallRec, i: usize, req: &oi::TokenRequest, res: &Result<oi::TokenResponse, Refusal>,
    ) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let s = self.setup.issuers[i].clone();
        let mut d = vec![];
        let mut must = vec!["C07"];
        let code = match &req.grant_type {
            TokenGrantType::AuthorizationCode { code, .. } => code.clone(),
            TokenGrantType::PreAuthorizedCode { pre_authorized_code, .. } => pre_authorized_code.clone(),
        };
        let k = (i, code.clone());
        let c = self.model.codes.get(&k).cloned();
        let mut retained: Vec<Item> = vec![];
        match &c {
            None => {
                if self.model.known(&k) {
                    defect(&mut d, "the code is something else", &["C03"], &[]);
                    self.model.misuse(&k);
                } else {
                    defect(&mut d, "the code is unknown", &["C03"], &["invalid_grant"]);
                }
            }
            Some(c) => {
                must = self.aged(&c.life, &must);
                one_time(&mut d, r, c.state, c.taint, "the code was already used", &["C01"], &["invalid_grant"]);
                self.check_life(
                    r,
                    &c.life,
                    &mut d,
                    "the code has expired",
                    &["C02"],
                    &["invalid_request", "invalid_grant"],
                );
                if req.credential_issuer != s.id {
                    defect(&mut d, "the issuer is unknown", &["C03"], &[]);
                }
                let server_grants = s.server.oauth.grant_types_supported.clone().unwrap_or_default();
                match &req.grant_type {
                    TokenGrantType::PreAuthorizedCode { tx_code, .. } => {
                        if !server_grants.contains(&GrantType::PreAuthorizedCode) {
                            defect(&mut d, "the grant is not supported", &["C03"], &["invalid_grant", "unsupported_grant_type"]);
                        }
                        match &c.pre {
                            None => defect(&mut d, "the code is not pre-authorized", &["C03"], &[]),
                            Some((tx, items)) => {
                                if tx != tx_code {
                                    defect(&mut d, "the transaction code is wrong", &["C03"], &["invalid_grant"]);
                                }
                                if req.client_id.as_deref().unwrap_or_default().is_empty() {
                                    if !s.server.pre_authorized_grant_anonymous_access_supported {
                                        defect(&mut d, "anonymous access is not supported", &["C03"], &["invalid_client"]);
                                    } else if req.client_id.is_some() {
                                        maybe(&mut d, "the client id is empty", &["C03"], &["invalid_client"]);
                                    }
                                }
                                retained = self.retain(i, req, items, &mut d);
                            }
                        }
                    }
                    TokenGrantType::AuthorizationCode { redirect_uri, code_verifier, .. } => {
                        if !server_grants.contains(&GrantType::AuthorizationCode) {
                            defect(&mut d, "the grant is not supported", &["C03"], &["invalid_grant", "unsupported_grant_type"]);
                        }
                        match &c.auth {
                            None => defect(&mut d, "the code is not an authorization code", &["C03"], &[]),
                            Some(a) => {
                                match &req.client_id {
                                    None => defect(&mut d, "there is no client id", &["C03"], &["invalid_request", "invalid_client"]),
                                    Some(x) if x != &a.client => {
                                        defect(&mut d, "the client is another one", &["C03"], &["invalid_client"]);
                                    }
                                    Some(_) => {}
                                }
                                if redirect_uri != &a.redirect {
                                    defect(&mut d, "the redirect URI is another one", &["C03"], &["invalid_grant"]);
                                }
                                match code_verifier {
                                    None => defect(&mut d, "there is no code verifier", &["C03"], &["access_denied"]),
                                    Some(v) if oracle::s256(v) != a.challenge => {
                                        defect(&mut d, "the code verifier is wrong", &["C03"], &["access_denied"]);
                                    }
                                    Some(_) => {}
                                }
                                retained = a.items.clone();
                            }
                        }
                    }
                }
                if let Some(id) = &req.client_id {
                    match self.setup.clients.get(id) {
                        None => defect(&mut d, "the client is unknown", &["C03"], &["invalid_client"]),
                        Some(cl) => {
                            let scopes = s.server.oauth.scopes_supported.clone().unwrap_or_default();
                            let ok = cl.oauth.scope.as_ref().is_some_and(|sc| {
                                sc.split_whitespace().all(|x| scopes.contains(&x.to_string()))
                            });
                            if !ok {
                                defect(&mut d, "the client's scope is not supported", &["C03"], &[]);
                            }
                        }
                    }
                }
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[code.clone()], &[]),
            Ok(resp) => {
                self.secret("access token", &resp.access_token);
                add_loot(&mut self.loot.tokens, &resp.access_token);
                let nonce = resp.c_nonce.clone().unwrap_or_default();
                let nonce_ttl = resp.c_nonce_expires_in.unwrap_or_default();
                if nonce.is_empty() || (self.prompt(r) && (resp.expires_in <= 0 || nonce_ttl <= 0)) {
                    self.violate(&["C07", "C02"], "token-response", format!("incomplete answer {}", json!(resp)));
                }
                self.secret("c_nonce", &nonce);
                add_loot(&mut self.loot.nonces, &nonce);
                // what is granted is what was authorized
                let mut want: Vec<(String, Vec<String>)> = retained
                    .iter()
                    .filter(|x| x.detail.is_some())
                    .map(|x| (canon_detail(x.detail.as_ref().unwrap_or(&Value::Null)), sorted(&x.idents)))
                    .collect();
                let mut got: Vec<(String, Vec<String>)> = resp
                    .authorization_details
                    .iter()
                    .flatten()
                    .map(|x| (canon_detail(&json!(x.authorization_detail)), sorted(&x.credential_identifiers)))
                    .collect();
                want.sort();
                want.dedup();
                got.sort();
                got.dedup();
                if c.is_some() && want != got {
                    self.violate(
                        &["C03", "C07"],
                        "token-details",
                        format!("granted {got:?}, authorized {want:?} for {req:?}"),
                    );
                }
                let mut grants = BTreeMap::new();
                let mut limits: BTreeMap<String, Vec<Option<Value>>> = BTreeMap::new();
                for it in &retained {
                    limits.entry(it.cfg.clone()).or_default().extend(it.limits.clone());
                    for id in &it.idents {
                        grants.insert(id.clone(), it.cfg.clone());
                        add_loot(&mut self.loot.idents, id);
                    }
                }
                let life = self.life(r, resp.expires_in);
                let nlife = self.life(r, nonce_ttl);
                self.model.toks.insert(
                    (i, resp.access_token.clone()),
                    Tok {
                        life,
                        ttl: resp.expires_in,
                        subject: c.as_ref().and_then(|c| c.subject.clone()),
                        grants,
                        limits,
                        nonces: BTreeMap::from([(nonce, Nonce { st: Nst::Live, life: nlife, used: vec![] })]),
                        taint: false,
                    },
                );
                if let Some(c) = &c {
                    self.twice(r, me, &c.honoured, &code, "code", &["C01"]);
                }
            }
        }
        if let Some(c) = self.model.codes.get_mut(&k) {
            if res.is_ok() {
                c.honoured.push(me);
            }
            spend(&mut c.state, r, seq, true);
        }
    }

    /// The offered items a pre-authorized token request asks for.
    fn retain(&self, i: usize, req: &oi::TokenRequest, items: &[Item], d: &mut Vec<Defect>) -> Vec<Item> {
        let Some(dets) = &req.authorization_details else { return items.to_vec() };
        let mut out: Vec<Item> = vec![];
        if dets.is_empty() {
            maybe(d, "an empty list of details is requested", &["C03"], &[]);
        }
        for det in dets {
            let (cfg, claims) = self.detail_config(i, &det.credential);
            let by_id = matches!(det.credential, CredentialAuthorization::ConfigurationId { .. });
            match items.iter().find(|x| Some(&x.cfg) == cfg.as_ref()) {
                None => defect(d, "the credential was not offered", &["C03"], &["access_denied"]),
                Some(x) => {
                    if !by_id {
                        maybe(d, "the credential is asked for by format", &["C03"], &[]);
                    }
                    if let (Some(c), Some(conf)) =
                        (&claims, self.setup.issuers[i].meta.credential_configurations_supported.get(&x.cfg))
                    {
                        if !oracle::claims_ok(c, &supported_claims(conf)) {
                            defect(
                                d,
                                "the requested claims are not supported or incomplete",
                                &["C04", "C03"],
                                &["invalid_request", "invalid_authorization_details"],
                            );
                        }
                    }
                    out.push(Item { detail: Some(json!(det)), limits: vec![claims], ..x.clone() });
                }
            }
        }
        out
    }

    // -----------------------------------------------------------------------------------------------------------

    fn token_defects(
        &mut self, r: &CallRec, i: usize, token: &str, d: &mut Vec<Defect>, codes: &'static [&'static str],
        late: &'static [&'static str],
    ) -> Option<Tok> {
        let k = (i, token.to_string());
        let t = self.model.toks.get(&k).cloned();
        match &t {
            None => {
                if self.model.known(&k) {
                    defect(d, "the access token is something else", &["C03"], &[]);
                } else {
                    defect(d, "the access token is unknown", &["C03"], codes);
                }
            }
            Some(t) => {
                if t.taint {
                    maybe(d, "the access token was used as something else", &["C03"], &[]);
                }
                let n = d.len();
                self.check_life(r, &t.life, d, "the access token has expired", &["C02"], late);
                if !r.overlaps.is_empty() {
                    // a use still under way may have renewed it
                    d[n..].iter_mut().for_each(|x| x.sure = false);
                }
            }
        }
        t
    }

    /// The identifiers a credential request may be answered from, and the configuration.
    fn wanted(
        &self, i: usize, t: &Tok, c: &CredentialIssuance, d: &mut Vec<Defect>,
    ) -> Option<(String, Vec<String>)> {
        match c {
            CredentialIssuance::Identifier { credential_identifier } => match t.grants.get(credential_identifier) {
                Some(cfg) => Some((cfg.clone(), vec![credential_identifier.clone()])),
                None => {
                    defect(d, "the token does not cover the credential", &["C03"], &["invalid_credential_request"]);
                    None
                }
            },
            CredentialIssuance::Format(f) => {
                let Some(cfg) = self.format_config(i, f) else {
                    defect(d, "the format is not supported", &["C03"], &["unsupported_credential_format"]);
                    return None;
                };
                let ids: Vec<String> =
                    t.grants.iter().filter(|(_, c)| **c == cfg).map(|(id, _)| id.clone()).collect();
                if ids.is_empty() {
                    defect(d, "the token does not cover the credential", &["C03"], &["invalid_credential_request"]);
                    return None;
                }
                Some((cfg, ids))
            }
        }
    }

    /// Judges the proofs of a credential request; returns the DIDs they prove and the nonces they carry.
    fn proof_defects(
        &self, r: &CallRec, t: &Tok, proof: Option<&Proof>, deferred: bool, d: &mut Vec<Defect>,
    ) -> (Vec<String>, Vec<String>) {
        let (mut dids, mut nonces) = (vec![], vec![]);
        let jwts = proof_jwts(proof);
        if jwts.is_empty() {
            defect(d, "there is no key proof", &["C05"], &["invalid_proof"]);
        }
        for p in jwts {
            let Some(j) = oracle::jwt(&p, &self.setup.dids) else {
                defect(d, "the key proof is not a JWT", &["C05"], &["invalid_proof"]);
                continue;
            };
            if !j.valid {
                if j.loose {
                    maybe(d, "the key proof names its key loosely", &["C05"], &["invalid_proof"]);
                } else {
                    defect(d, "the key proof's signature is invalid", &["C05"], &["invalid_proof"]);
                }
            }
            if j.typ() != "openid4vci-proof+jwt" {
                defect(d, "the key proof is of another type", &["C05"], &["invalid_proof"]);
            }
            if !deferred {
                let n = j.claims["nonce"].as_str().unwrap_or_default();
                match t.nonces.get(n) {
                    None => defect(d, "the key proof's nonce is not the token's", &["C05"], &["invalid_proof", "access_denied"]),
                    Some(x) => {
                        match x.st {
                            Nst::Live => {}
                            Nst::Maybe => {
                                maybe(d, "the nonce may be replaced", &["C05"], &["invalid_proof", "access_denied"]);
                            }
                            Nst::Dead(at) if at < r.begin => {
                                defect(d, "the nonce was replaced", &["C05"], &["invalid_proof", "access_denied"]);
                            }
                            Nst::Dead(_) => {
                                maybe(d, "the nonce may be replaced", &["C05"], &["invalid_proof", "access_denied"]);
                            }
                        }
                        if let Some(sure) = self.expired(r, &x.life) {
                            d.push(Defect {
                                what: "the nonce has expired",
                                props: &["C02", "C05"],
                                codes: &["access_denied", "invalid_proof"],
                                sure,
                            });
                        }
                        nonces.push(n.to_string());
                    }
                }
            }
            dids.push(j.did);
        }
        (dids, nonces)
    }

    pub fn audit_credential(
        &mut self, r: &CallRec, i: usize, req: &oi::CredentialRequest, res: &Result<oi::CredentialResponse, Refusal>,
    ) {
        let mut d = vec![];
        let s = self.setup.issuers[i].clone();
        let tok = self.token_defects(
            r,
            i,
            &req.access_token,
            &mut d,
            &["access_denied"],
            &["access_denied", "invalid_credential_request"],
        );
        if req.credential_issuer != s.id {
            defect(&mut d, "the issuer is unknown", &["C03"], &[]);
        }
        let mut want = None;
        let (mut dids, mut nonces) = (vec![], vec![]);
        let mut must = vec!["C07"];
        if let Some(t) = &tok {
            must = self.aged(&t.life, &must);
            want = self.wanted(i, t, &req.credential, &mut d);
            let proof_needed = want
                .as_ref()
                .and_then(|(cfg, _)| s.meta.credential_configurations_supported.get(cfg))
                .is_none_or(|c| c.proof_types_supported.is_some());
            if proof_needed {
                (dids, nonces) = self.proof_defects(r, t, req.proof.as_ref(), false, &mut d);
                must.push("C05");
            }
            let live = t.nonces.values().any(|n| n.st == Nst::Live && self.expired(r, &n.life).is_none());
            if !live {
                maybe(&mut d, "no nonce is certainly alive", &["C02"], &["access_denied", "invalid_proof"]);
            }
        }
        if let Some((cfg, ids)) = &want {
            self.serviceable(i, cfg, tok.as_ref(), ids, &mut d);
            if res.is_err() && ids.iter().any(|x| self.pending(r, tok.as_ref(), x) != Some(false)) {
                must.push("C06");
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{req:?}"));
        self.after_credential(r, i, &req.access_token, tok, want, dids, nonces, req, res, None);
    }

    /// Is the format one the issuer can issue?
    fn serviceable(&self, i: usize, cfg: &str, tok: Option<&Tok>, ids: &[String], d: &mut Vec<Defect>) {
        let Some(c) = self.setup.issuers[i].meta.credential_configurations_supported.get(cfg) else {
            defect(d, "the configuration is unknown", &["C03"], &[]);
            return;
        };
        if !matches!(c.format, Format::JwtVcJson(_) | Format::IsoMdl(_)) {
            // refused once the data is ready; a deferral may come first
            maybe(d, "the format cannot be issued", &["C04"], &["unsupported_credential_format"]);
        }
        let Some(t) = tok else { return };
        let sub = t.subject.clone().unwrap_or_default();
        if !ids.iter().all(|x| self.setup.subjects.get(&sub).is_some_and(|y| y.data.contains_key(x))) {
            defect(d, "there is no data for the subject", &["C04"], &[]);
        }
    }

    /// Was the data certainly pending (`Some(true)`) or certainly ready during the call?
    fn pending(&self, r: &CallRec, tok: Option<&Tok>, ident: &str) -> Option<bool> {
        let sub = tok.and_then(|t| t.subject.clone()).unwrap_or_default();
        let ready = self.setup.subjects.get(&sub)?.data.get(ident)?.ready_at;
        if self.x.now < ready {
            Some(true)
        } else if r.begin_true >= ready {
            Some(false)
        } else {
            None
        }
    }

    /// What an answered credential (or deferred) request changes, and whether the answer is right.
    #[allow(clippy::too_many_arguments)]
    fn after_credential(
        &mut self, r: &CallRec, i: usize, token: &str, tok: Option<Tok>, want: Option<(String, Vec<String>)>,
        dids: Vec<String>, nonces: Vec<String>, req: &oi::CredentialRequest,
        res: &Result<oi::CredentialResponse, Refusal>, txn: Option<&str>,
    ) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let end_local = self.end_local(r);
        let now = self.x.now;
        let k = (i, token.to_string());
        match res {
            Err(e) => {
                let puts = if e.code == "invalid_proof" { vec![token.to_string()] } else { vec![] };
                self.leftovers(r, e, &[], &puts);
                if e.code == "invalid_proof" {
                    let n = e.json["c_nonce"].as_str().unwrap_or_default().to_string();
                    let ttl = e.json["c_nonce_expires_in"].as_i64().unwrap_or_default();
                    self.secret("c_nonce", &n);
                    add_loot(&mut self.loot.nonces, &n);
                    if let Some(t) = self.model.toks.get_mut(&k) {
                        t.rotate(r, seq, end_local, now, &n, ttl);
                    }
                } else if r.faults > 0 {
                    if let Some(t) = self.model.toks.get_mut(&k) {
                        t.unsure(r.begin_local, end_local);
                    }
                }
            }
            Ok(resp) => {
                let (Some(t), Some((cfg, ids))) = (tok, want) else { return };
                match &resp.response {
                    CredentialResponseType::TransactionId(id) => {
                        self.secret("transaction id", id);
                        add_loot(&mut self.loot.txns, id);
                        if ids.iter().all(|x| self.pending(r, Some(&t), x) == Some(false)) {
                            self.violate(
                                &["C06", "C07"],
                                "deferred-needlessly",
                                format!("{req:?} was deferred although its data is ready"),
                            );
                        }
                        if txn.is_some() {
                            self.violate(&["C06"], "deferred-again", format!("polling gave a new transaction {id}"));
                        }
                        let life = self.life(r, 900);
                        self.model.txns.insert(
                            (i, id.clone()),
                            Txn {
                                life,
                                state: Use::Fresh,
                                token: token.to_string(),
                                req: req.clone(),
                                honoured: vec![],
                                taint: false,
                            },
                        );
                        if resp.c_nonce.is_some() {
                            let n = resp.c_nonce.clone().unwrap_or_default();
                            if !t.nonces.contains_key(&n) {
                                let ttl = resp.c_nonce_expires_in.unwrap_or_default();
                                if let Some(t) = self.model.toks.get_mut(&k) {
                                    t.rotate(r, seq, end_local, now, &n, ttl);
                                }
                            }
                        }
                        self.probe("deferred");
                    }
                    CredentialResponseType::Credential(c) => {
                        self.issued(r, i, &t, &cfg, &ids, &dids, req, std::slice::from_ref(c));
                        self.after_issue(r, &k, &nonces, resp, txn.is_some());
                    }
                    CredentialResponseType::Credentials(cs) => {
                        self.issued(r, i, &t, &cfg, &ids, &dids, req, cs);
                        self.after_issue(r, &k, &nonces, resp, txn.is_some());
                    }
                }
            }
        }
    }

    fn after_issue(&mut self, r: &CallRec, k: &K, nonces: &[String], resp: &oi::CredentialResponse, deferred: bool) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let end_local = self.end_local(r);
        let now = self.x.now;
        let n = resp.c_nonce.clone().unwrap_or_default();
        let ttl = resp.c_nonce_expires_in.unwrap_or_default();
        self.probe(if deferred { "issued.deferred" } else { "issued" });
        if n.is_empty() || (ttl <= 0 && self.prompt(r)) {
            self.violate(&["C05", "C07"], "no-new-nonce", format!("credential issued without a new nonce: {}", json!(resp)));
        } else {
            self.secret("c_nonce", &n);
            add_loot(&mut self.loot.nonces, &n);
        }
        let used: Vec<u64> = self
            .model
            .toks
            .get(k)
            .map(|t| nonces.iter().filter_map(|x| t.nonces.get(x)).flat_map(|x| x.used.clone()).collect())
            .unwrap_or_default();
        self.twice(r, me, &used, &k.1, "nonce", &["C05"]);
        if let Some(t) = self.model.toks.get_mut(k) {
            for x in nonces {
                if let Some(x) = t.nonces.get_mut(x) {
                    if !x.used.contains(&me) {
                        x.used.push(me);
                    }
                }
            }
            t.rotate(r, seq, end_local, now, &n, ttl);
        }
        match &resp.notification_id {
            Some(id) => {
                self.secret("notification id", id);
                add_loot(&mut self.loot.notifs, id);
                let life = self.life(r, 900);
                self.model.notifs.insert(
                    (k.0, id.clone()),
                    Notif { life, state: Use::Fresh, honoured: vec![], taint: false },
                );
            }
            None => self.violate(&["C07"], "no-notification-id", "credential issued without a notification id"),
        }
    }

    /// Checks issued credentials against the data source, the configuration and the proof.
    #[allow(clippy::too_many_arguments)]
    fn issued(
        &mut self, r: &CallRec, i: usize, t: &Tok, cfg: &str, ids: &[String], dids: &[String],
        req: &oi::CredentialRequest, creds: &[Kind<vercre_w3c_vc::model::VerifiableCredential>],
    ) {
        self.model.issued += creds.len() as u64;
        if ids.iter().all(|x| self.pending(r, Some(t), x) == Some(true)) {
            self.violate(&["C06"], "issued-early", format!("credential issued before its data was ready: {req:?}"));
        }
        let sub = t.subject.clone().unwrap_or_default();
        let keep: Option<Value> = match &req.credential {
            CredentialIssuance::Format(f) => format_claims(f),
            CredentialIssuance::Identifier { .. } => None,
        };
        let limits = t.limits.get(cfg).cloned().unwrap_or_else(|| vec![None]);
        if keep.is_some() || limits.iter().any(Option::is_some) {
            self.probe("issued.narrowed");
        }
        let conf = self.setup.issuers[i].meta.credential_configurations_supported.get(cfg).cloned();
        let Some(conf) = conf else { return };
        for c in creds {
            let Kind::String(s) = c else {
                self.violate(&["C04"], "unsigned", "credential issued without a signature");
                continue;
            };
            let mut why = String::new();
            let mut ok = false;
            for (id, limit) in ids.iter().flat_map(|id| limits.iter().map(move |l| (id, l))) {
                let Some(data) = self.setup.subjects.get(&sub).and_then(|x| x.data.get(id)).cloned() else { continue };
                let mut claims = data.claims;
                for keep in [limit, &keep].into_iter().flatten() {
                    narrowed(&mut claims, keep);
                }
                let res = match &conf.format {
                    Format::JwtVcJson(_) => {
                        crate::vccheck::w3c(self, r, i, cfg, &sub, id, &claims, dids, s, conf.proof_types_supported.is_some())
                    }
                    Format::IsoMdl(_) => crate::vccheck::mdoc(self, r, i, &claims, s),
                    _ => Err("the format cannot be issued".into()),
                };
                match res {
                    Ok(()) => {
                        ok = true;
                        break;
                    }
                    Err(e) => why = e,
                }
            }
            if !ok {
                let class = why.split(':').next().unwrap_or_default().to_string();
                let mut props = vec!["C04"];
                if class == "subject" {
                    props.push("C05");
                }
                if r.ep == "deferred" {
                    props.push("C06");
                }
                self.violate(&props, format!("credential:{class}"), format!("wrong credential ({why}) for {req:?}"));
            } else if matches!(conf.format, Format::JwtVcJson(_)) {
                self.model.vcs.push(s.clone());
                add_loot(&mut self.loot.vcs, s);
            }
        }
    }

    pub fn audit_deferred(
        &mut self, r: &CallRec, i: usize, req: &oi::DeferredCredentialRequest,
        res: &Result<oi::DeferredCredentialResponse, Refusal>,
    ) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let mut d = vec![];
        let k = (i, req.transaction_id.clone());
        let txn = self.model.txns.get(&k).cloned();
        let mut must = vec!["C06", "C07"];
        match &txn {
            None => {
                if self.model.known(&k) {
                    defect(&mut d, "the transaction is something else", &["C03", "C06"], &[]);
                } else {
                    defect(&mut d, "the transaction is unknown", &["C06", "C03"], &["invalid_transaction_id"]);
                }
            }
            Some(x) => {
                must = self.aged(&x.life, &must);
                one_time(&mut d, r, x.state, x.taint, "the transaction is complete", &["C01", "C06"], &["invalid_transaction_id"]);
                self.check_life(
                    r,
                    &x.life,
                    &mut d,
                    "the transaction has expired",
                    &["C02", "C06"],
                    &["invalid_request", "invalid_transaction_id"],
                );
                if x.token != req.access_token {
                    defect(&mut d, "the access token is another one", &["C06", "C03"], &["access_denied"]);
                }
            }
        }
        let tok = self.token_defects(
            r,
            i,
            &req.access_token,
            &mut d,
            &["access_denied"],
            &["access_denied", "invalid_credential_request"],
        );
        if req.credential_issuer != self.setup.issuers[i].id {
            defect(&mut d, "the issuer is unknown", &["C03"], &[]);
        }
        let mut want = None;
        let mut dids = vec![];
        if let (Some(x), Some(t)) = (&txn, &tok) {
            want = self.wanted(i, t, &x.req.credential, &mut d);
            if let Some((cfg, ids)) = &want {
                self.serviceable(i, cfg, Some(t), ids, &mut d);
                let p: Vec<Option<bool>> = ids.iter().map(|x| self.pending(r, Some(t), x)).collect();
                if p.iter().all(|x| *x == Some(true)) {
                    defect(&mut d, "the data is not ready", &["C06"], &["issuance_pending"]);
                } else if p.iter().any(|x| *x != Some(false)) {
                    maybe(&mut d, "the data may not be ready", &["C06"], &["issuance_pending"]);
                }
            }
            let needed = want
                .as_ref()
                .and_then(|(cfg, _)| self.setup.issuers[i].meta.credential_configurations_supported.get(cfg))
                .is_none_or(|c| c.proof_types_supported.is_some());
            if needed {
                (dids, _) = self.proof_defects(r, t, x.req.proof.as_ref(), true, &mut d);
            }
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &must, &format!("{req:?}"));
        if let Err(e) = res {
            if e.code == "issuance_pending" {
                self.probe("pending");
            }
        }
        let creq = txn.as_ref().map(|x| x.req.clone()).unwrap_or_default();
        if res.is_ok() {
            if let Some(x) = &txn {
                self.twice(r, me, &x.honoured, &req.transaction_id, "deferred transaction", &["C01", "C06"]);
            }
        }
        let inner = match res {
            Ok(x) => Ok(x.credential_response.clone()),
            Err(e) => Err(e.clone()),
        };
        self.after_credential(
            r,
            i,
            &req.access_token,
            tok,
            want,
            dids,
            vec![],
            &creq,
            &inner,
            Some(&req.transaction_id),
        );
        if let Some(x) = self.model.txns.get_mut(&k) {
            if res.is_ok() {
                x.honoured.push(me);
                spend(&mut x.state, r, seq, true);
            } else if r.faults > 0 {
                spend(&mut x.state, r, seq, false);
            }
        }
    }

    pub fn audit_notification(
        &mut self, r: &CallRec, i: usize, req: &oi::NotificationRequest, res: &Result<(), Refusal>,
    ) {
        let me = r.begin;
        let seq = r.end.unwrap_or(me);
        let mut d = vec![];
        let k = (i, req.notification_id.clone());
        let n = self.model.notifs.get(&k).cloned();
        match &n {
            None => {
                if self.model.known(&k) {
                    defect(&mut d, "the notification id is something else", &["C03"], &[]);
                } else {
                    defect(&mut d, "the notification id is unknown", &["C03"], &[]);
                }
            }
            Some(x) => {
                one_time(&mut d, r, x.state, x.taint, "the notification was already given", &["C01"], &[]);
                if self.expired(r, &x.life).is_some() {
                    maybe(&mut d, "the notification id may have expired", &["C02"], &[]);
                }
            }
        }
        // whether the access token of the request counts is left open
        if !self.model.toks.contains_key(&(i, req.access_token.clone())) {
            maybe(&mut d, "the access token is unknown", &["C03"], &[]);
        }
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C07"], &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(()) => {
                if let Some(x) = &n {
                    self.twice(r, me, &x.honoured, &req.notification_id, "notification id", &["C01"]);
                }
            }
        }
        if let Some(x) = self.model.notifs.get_mut(&k) {
            if res.is_ok() {
                x.honoured.push(me);
                spend(&mut x.state, r, seq, true);
            } else if r.faults > 0 {
                spend(&mut x.state, r, seq, false);
            }
        }
    }

    pub fn audit_register(
        &mut self, r: &CallRec, i: usize, req: &oi::RegistrationRequest,
        res: &Result<oi::RegistrationResponse, Refusal>,
    ) {
        let mut d = vec![];
        self.token_defects(
            r,
            i,
            &req.access_token,
            &mut d,
            &["access_denied", "server_error"],
            &["access_denied", "server_error"],
        );
        self.verdict(r, res.as_ref().map(|_| ()), &d, &["C07"], &format!("{req:?}"));
        match res {
            Err(e) => self.leftovers(r, e, &[], &[]),
            Ok(resp) => {
                let mut want = json!(req.client_metadata);
                let mut got = json!(resp.client_metadata);
                let id = got["client_id"].as_str().unwrap_or_default().to_string();
                want.as_object_mut().map(|o| o.remove("client_id"));
                got.as_object_mut().map(|o| o.remove("client_id"));
                if want != got || !self.setup.clients.contains_key(&id) {
                    self.violate(&["C07", "C10"], "register-response", format!("registered {got} for {want}"));
                }
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------------------------

/// Defect of a one-time artefact that may be used up.
pub fn one_time(
    d: &mut Vec<Defect>, r: &CallRec, u: Use, taint: bool, what: &'static str, props: &'static [&'static str],
    codes: &'static [&'static str],
) {
    match u {
        Use::Spent(at) if at < r.begin => d.push(Defect { what, props, codes, sure: true }),
        Use::Spent(_) | Use::Maybe => d.push(Defect { what, props, codes, sure: false }),
        Use::Fresh => {}
    }
    if taint {
        maybe(d, "it was used as something else", &["C03"], &[]);
    }
}

/// An attempt that definitely consumed the artefact, or one that may have.
pub fn spend(u: &mut Use, r: &CallRec, seq: u64, sure: bool) {
    if matches!(u, Use::Spent(_)) {
        return;
    }
    *u = if sure && r.faults == 0 && !r.crashed { Use::Spent(seq) } else { Use::Maybe };
}

/// Leaves only the claims listed, at every level that lists any.
fn narrowed(claims: &mut serde_json::Map<String, Value>, keep: &Value) {
    claims.retain(|k, _| keep.get(k).is_some());
    for (k, v) in claims {
        if let Value::Object(o) = v {
            if !oracle::is_entry(&keep[k.as_str()]) {
                narrowed(o, &keep[k.as_str()]);
            }
        }
    }
}

pub fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}

/// What a detail grants, whichever way it was written.
fn canon_detail(v: &Value) -> String {
    match v["credential_configuration_id"].as_str() {
        Some(c) => c.to_string(),
        None => {
            let t = &v["credential_definition"]["type"];
            format!("{}|{}|{}", v["format"], t, v["doctype"])
        }
    }
}

/// What identifies a format: its kind and its type, document type or vct.
fn format_key(f: &Format) -> String {
    let v = json!(f);
    format!("{}|{}|{}|{}", v["format"], v["credential_definition"]["type"], v["doctype"], v["vct"])
}

pub fn format_claims(f: &Format) -> Option<Value> {
    let v = json!(f);
    let c = match f {
        Format::JwtVcJson(_) | Format::LdpVc(_) | Format::JwtVcJsonLd(_) => {
            v["credential_definition"]["credentialSubject"].clone()
        }
        _ => v["claims"].clone(),
    };
    (!c.is_null()).then_some(c)
}

pub fn supported_claims(c: &oi::CredentialConfiguration) -> Value {
    format_claims(&c.format).unwrap_or(Value::Null)
}

pub fn proof_jwts(p: Option<&Proof>) -> Vec<String> {
    match p {
        None => vec![],
        Some(Proof::Single { proof_type: oi::SingleProof::Jwt { jwt } }) => vec![jwt.clone()],
        Some(Proof::Multiple(oi::MultipleProofs::Jwt(v))) => v.clone(),
    }
}
