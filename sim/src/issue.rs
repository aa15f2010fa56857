//! Hand-built issuance clients. Requests are written as JSON from the specification, not with the library's types, so
//! that what the servers decode is judged against an independent writing of the same message.

use serde_json::{json, Map, Value};
use vercre_core::Kind;
use vercre_openid::issuer as oi;

use crate::choice::NET;
use crate::exec::{chance, count, ev, one_of, pick, pick_on, sleep, spawn, with, MS, SEC};
use crate::net::{self, call, rpc, Fail, Target};
use crate::oracle;
use crate::setup::*;
use crate::world::{add_loot, Key};

/// How an actor behaves: honest actors make only valid requests and report a violation when they cannot finish.
#[derive(Clone, Copy, Debug)]
pub struct Mode {
    pub honest: bool,
}

pub type Res<T> = Result<T, Stop>;

/// Why a flow ended early.
#[derive(Clone, Debug)]
pub enum Stop {
    /// A fault, an intended refusal or a dead end the script accepts.
    Given,
    /// Something an honest client cannot explain.
    Stuck(String),
}

/// Draws one of the actor's deviations from the plain flow.
pub fn mutate(m: Mode) -> bool {
    let p = with(|w| w.faults.mutate);
    !m.honest && chance(p)
}

/// Time a user or a network takes between two steps; lands often on either side of a lifetime.
pub async fn pause(m: Mode) {
    if m.honest {
        sleep(i64::from(pick(5)) * SEC).await;
        return;
    }
    let s = match pick(16) {
        0..=7 => return,
        8 | 9 => i64::from(1 + pick(5)),
        10 => 60,
        11 => 200 + i64::from(pick(90)),
        12 => 290 + i64::from(pick(21)),
        13 => 590 + i64::from(pick(21)),
        14 => 890 + i64::from(pick(21)),
        _ => i64::from(pick(1300)),
    };
    count("waits");
    sleep(s * SEC).await;
}

/// Sends the same request a second time, concurrently, without waiting for it.
pub fn fire(t: Target, ep: &'static str, v: &Value) {
    let v = v.clone();
    count("double_fire");
    let late = pick_on(NET, 3) == 2;
    spawn(None, format!("again-{ep}"), async move {
        if late {
            sleep(i64::from(pick_on(NET, 2000)) * MS).await;
        }
        rpc(t, ep, v.to_string().into_bytes(), Some(v)).await;
    });
}

pub fn issuer_id(i: usize) -> String {
    with(|w| w.setup.issuers[i].id.clone())
}

pub fn stuck<T>(s: impl Into<String>) -> Res<T> {
    Err(Stop::Stuck(s.into()))
}

/// Retries a call that was lost; an honest client in calm weather loses nothing.
macro_rules! tried {
    ($m:expr, $what:literal, $e:expr) => {{
        let mut left = 3;
        loop {
            match $e {
                Ok(v) => break v,
                Err(Fail::Lost | Fail::Garbled) if left > 0 && !$m.honest => left -= 1,
                Err(Fail::Refused(_)) if !$m.honest => return Err(Stop::Given),
                Err(_) if !$m.honest => return Err(Stop::Given),
                Err(f) => return stuck(format!("{}: {f:?}", $what)),
            }
        }
    }};
}

pub(crate) use tried;

/// An offer as received: the codes, what is offered, the transaction code told out of band.
#[derive(Clone, Debug, Default)]
pub struct Offer {
    pub cfgs: Vec<String>,
    pub pre: Option<String>,
    pub state: Option<String>,
    pub tx_code: Option<String>,
    pub subject: String,
}

/// Picks what to offer, to whom.
fn offer_plan(m: Mode) -> (String, Vec<String>) {
    let subject = format!("subject{}", pick(3));
    let sets: &[&[&str]] = &[
        &[EMP],
        &[DEV],
        &[EMP, DEV],
        &[BADGE],
        &[MDL],
        &[EMP, DEV, BADGE, MDL],
        &[BADGE, DEV],
        &[GOLD],
        &[GOLD, BADGE],
        &[UNSUP],
        &[UNSUP, EMP],
    ];
    let n = if m.honest { 9 } else { 11 };
    let mut set = sets[pick(n) as usize].iter().map(|s| (*s).to_string()).collect::<Vec<_>>();
    let has = |c: &str| with(|w| w.setup.subjects[&subject].grants.contains_key(c));
    if m.honest || !chance(150) {
        set.retain(|c| has(c));
        if set.is_empty() {
            set = vec![EMP.into()];
        }
    }
    (subject, set)
}

/// Has the issuer make an offer and fetches it.
pub async fn get_offer(i: usize, m: Mode, grants: &[&str]) -> Res<Offer> {
    let (subject, cfgs) = offer_plan(m);
    let tx = pick(2) == 1;
    let by_ref = pick(2) == 1;
    let mut v = json!({
        "credential_issuer": issuer_id(i),
        "subject_id": subject,
        "credential_configuration_ids": cfgs,
        "grant_types": grants,
        "tx_code_required": tx,
        "send_type": if by_ref { "ByRef" } else { "ByVal" }
    });
    if mutate(m) {
        match pick(8) {
            0 => v["credential_configuration_ids"] = json!([]),
            1 => v["credential_configuration_ids"] = json!([one_of(&["nonsense", "", "Badge_JWT ", "{\"x\"}"])]),
            2 => v["subject_id"] = json!(one_of(&["nobody", "", "subject0 ", "\"quoted\""])),
            3 => {
                v.as_object_mut().map(|o| o.remove("subject_id"));
            }
            4 => v["credential_issuer"] = json!("http://elsewhere.sim"),
            5 => v["grant_types"] = one_of(&[json!([PREAUTH, "authorization_code"]), json!(["authorization_code", PREAUTH])]),
            6 => v["grant_types"] = json!([]),
            _ => {
                v.as_object_mut().map(|o| o.remove("grant_types"));
            }
        }
    }
    if mutate(m) {
        fire(Target::Issuer(i), "create_offer", &v);
    }
    let t = Target::Issuer(i);
    let resp = tried!(m, "create_offer", call::<oi::CreateOfferResponse>(t, "create_offer", "CreateOfferResponse", &v).await);
    let offer = match resp.offer_type {
        oi::OfferType::Object(o) => o,
        oi::OfferType::Uri(u) => {
            let id = u.rsplit('/').next().unwrap_or_default().to_string();
            let mut v = json!({"credential_issuer": issuer_id(i), "id": id});
            pause(m).await;
            if mutate(m) {
                match pick(4) {
                    0 => fire(t, "credential_offer", &v),
                    1 => v["id"] = json!(one_of(&with(|w| w.loot.uris.clone()))),
                    2 => v["id"] = json!(one_of(&["", "nonsense"])),
                    _ => v["credential_issuer"] = json!("http://elsewhere.sim"),
                }
            }
            tried!(
                m,
                "credential_offer",
                call::<oi::CredentialOfferResponse>(t, "credential_offer", "CredentialOfferResponse", &v).await
            )
            .credential_offer
        }
    };
    crate::wire::offer_forms(&offer);
    let g = offer.grants.clone();
    Ok(Offer {
        cfgs: offer.credential_configuration_ids.clone(),
        pre: g.as_ref().and_then(|g| g.pre_authorized_code.as_ref()).map(|p| p.pre_authorized_code.clone()),
        state: g.and_then(|g| g.authorization_code).and_then(|a| a.issuer_state),
        tx_code: resp.tx_code,
        subject,
    })
}

fn server_allows(i: usize, g: &str) -> bool {
    with(|w| {
        json!(w.setup.issuers[i].server.oauth.grant_types_supported).as_array().is_some_and(|a| a.contains(&json!(g)))
    })
}

/// The pre-authorized code flow from offer to credentials.
pub async fn pre_authorized(i: usize, m: Mode) -> Res<()> {
    if m.honest && !server_allows(i, PREAUTH) {
        return Ok(());
    }
    let both = server_allows(i, PREAUTH) && server_allows(i, "authorization_code");
    let grants: &[&str] = match pick(10) {
        8 if both || !m.honest => &[PREAUTH, "authorization_code"],
        9 if both || !m.honest => &["authorization_code", PREAUTH],
        _ => &[PREAUTH],
    };
    let o = get_offer(i, m, grants).await?;
    let Some(code) = o.pre.clone() else {
        return if m.honest { stuck("no pre-authorized code in the offer") } else { Err(Stop::Given) };
    };
    pause(m).await;
    let mut v = json!({
        "credential_issuer": issuer_id(i),
        "grant_type": PREAUTH,
        "pre-authorized_code": code,
    });
    if let Some(t) = &o.tx_code {
        v["tx_code"] = json!(t);
    }
    let anon = with(|w| w.setup.issuers[i].server.pre_authorized_grant_anonymous_access_supported);
    if pick(3) > 0 || (m.honest && !anon) {
        v["client_id"] = json!(one_of(&[CLIENT_OK, CLIENT_OTHER, CLIENT_LONG, CLIENT_UP]));
    }
    if pick(3) == 2 {
        // ask for a part of what is offered
        let keep: Vec<String> = o.cfgs.iter().filter(|_| pick(3) < 2).cloned().collect();
        let keep = if keep.is_empty() { o.cfgs.clone() } else { keep };
        v["authorization_details"] = json!(keep.iter().map(|c| detail(i, c, m, false)).collect::<Vec<_>>());
    }
    if mutate(m) {
        match pick(11) {
            0 => {
                let real = v["tx_code"].as_str().unwrap_or("1").to_string();
                v["tx_code"] = json!(one_of(&["000000".to_string(), String::new(), "12345".into(), "999999".into(), format!("{real} "), format!("0{real}"), real[1..].to_string()]));
            }
            1 => {
                v.as_object_mut().map(|o| o.remove("tx_code"));
            }
            2 => v["client_id"] = json!(one_of(&["unknown", "", "http://wallet.sim", "http://wallet.sim/client2", CLIENT_NO_SCOPE, CLIENT_BAD_SCOPE, CLIENT_NO_GRANT])),
            3 => v["pre-authorized_code"] = json!(one_of(&["", "nonsense", "%00"])),
            4 => v["pre-authorized_code"] = json!(any_loot()),
            5 => v["credential_issuer"] = json!("http://elsewhere.sim"),
            6 => {
                v["authorization_details"] =
                    json!([{"type": "openid_credential", "credential_configuration_id": one_of(&[EMP, DEV, BADGE, GOLD, MDL, UNSUP, "nope"])}]);
            }
            7 => v["authorization_details"] = json!([]),
            8 => {
                // the wrong kind of grant for this code
                let o = v.as_object_mut().expect("object");
                o.remove("pre-authorized_code");
                o.remove("tx_code");
                o.insert("grant_type".into(), json!("authorization_code"));
                o.insert("code".into(), json!(code));
                o.insert("client_id".into(), json!(CLIENT_OK));
                o.insert("redirect_uri".into(), json!(REDIRECT));
                o.insert("code_verifier".into(), json!("x".repeat(43)));
            }
            9 => fire(Target::Issuer(i), "token", &v),
            _ => {
                // a wrong guess first, then the right request
                let mut w = v.clone();
                w["tx_code"] = json!("123456");
                fire(Target::Issuer(i), "token", &w);
                pause(m).await;
            }
        }
    }
    let t = Target::Issuer(i);
    let tok = tried!(m, "token", call::<oi::TokenResponse>(t, "token", "TokenResponse", &v).await);
    use_token(i, m, tok, &o.subject, &[]).await
}

/// Any string that was ever handed out, of whatever kind.
pub fn any_loot() -> String {
    let all = with(|w| {
        let l = &w.loot;
        let mut all: Vec<String> = vec!["nonsense".into()];
        for v in [&l.codes, &l.tokens, &l.nonces, &l.txns, &l.notifs, &l.uris, &l.pars, &l.states, &l.verifiers] {
            all.extend(v.iter().rev().take(6).cloned());
        }
        all
    });
    one_of(&all)
}

fn conf(i: usize, cfg: &str) -> Value {
    with(|w| w.setup.issuers[i].meta.credential_configurations_supported.get(cfg).map_or(Value::Null, |c| json!(c)))
}

/// The format part of a configuration, without claims.
fn format_of(i: usize, cfg: &str) -> Map<String, Value> {
    let mut c = conf(i, cfg);
    if c.is_null() {
        c = json!({"format": "jwt_vc_json", "credential_definition": {"type": ["VerifiableCredential", cfg]}});
    }
    let mut o = Map::new();
    o.insert("format".into(), c["format"].clone());
    if c["doctype"].is_string() {
        o.insert("doctype".into(), c["doctype"].clone());
    } else {
        o.insert("credential_definition".into(), json!({"type": c["credential_definition"]["type"]}));
    }
    o
}

/// Is there a mandatory claim in this part of a configuration?
pub fn has_mandatory(v: &Value) -> bool {
    if oracle::is_entry(v) {
        v["mandatory"] == json!(true)
    } else {
        v.as_object().is_some_and(|o| o.values().any(has_mandatory))
    }
}

/// A claim set to ask for: some of the configuration's claims; with `all_mandatory`, every mandatory one among them.
pub fn claim_subset(supported: &Value, all_mandatory: bool) -> Map<String, Value> {
    let mut out = Map::new();
    for (k, v) in supported.as_object().into_iter().flatten() {
        let nested = !oracle::is_entry(v);
        if !(all_mandatory && has_mandatory(v)) && pick(2) == 0 {
            continue;
        }
        let val = if nested && pick(2) == 1 {
            Value::Object(claim_subset(v, all_mandatory))
        } else if nested {
            v.clone()
        } else {
            json!({})
        };
        if val.as_object().is_some_and(|o| nested && o.is_empty()) {
            continue;
        }
        out.insert(k.clone(), val);
    }
    out
}

/// A claim set that asks for something the configuration does not have, or lacks something it must have.
fn spoil_claims(claims: &mut Map<String, Value>, sup: &Value) {
    let deep: Vec<String> = sup.as_object().into_iter().flatten().filter(|(_, v)| !oracle::is_entry(v)).map(|(k, _)| k.clone()).collect();
    let flat: Vec<String> = sup.as_object().into_iter().flatten().filter(|(_, v)| oracle::is_entry(v)).map(|(k, _)| k.clone()).collect();
    match pick(8) {
        0 => {
            claims.insert("salary".into(), json!({}));
        }
        1 => {
            claims.insert("address".into(), json!({"planet": {}}));
        }
        2 => claims.clear(),
        3 | 4 if !deep.is_empty() => {
            let k = deep[pick(deep.len() as u32) as usize].clone();
            let mut inner = if pick(2) == 0 { sup[&k].clone() } else { claims.get(&k).cloned().unwrap_or_else(|| json!({})) };
            inner["planet"] = one_of(&[json!({}), json!({"mandatory": false}), json!({"deep": {"er": {}}})]);
            claims.insert(k, inner);
        }
        5 | 6 if !deep.is_empty() => {
            // a nested claim left out, mandatory or not
            let k = deep[pick(deep.len() as u32) as usize].clone();
            let mut inner = sup[&k].clone();
            let o = inner.as_object_mut().expect("nested claims");
            let names: Vec<String> = o.keys().cloned().collect();
            let gone = names.iter().find(|n| has_mandatory(&o[*n])).filter(|_| pick(2) == 0).unwrap_or(&names[0]).clone();
            o.remove(&gone);
            if o.is_empty() || pick(4) == 0 {
                claims.remove(&k);
            } else {
                claims.insert(k, inner);
            }
        }
        _ if !flat.is_empty() => {
            let k = flat[pick(flat.len() as u32) as usize].clone();
            claims.insert(k, json!({"part": {}}));
        }
        _ => claims.clear(),
    }
}

fn supported(i: usize, cfg: &str) -> Value {
    let c = conf(i, cfg);
    if c["claims"].is_object() {
        c["claims"].clone()
    } else {
        c["credential_definition"]["credentialSubject"].clone()
    }
}

/// An authorization detail for a configuration, by id or by format, with or without claims.
pub fn detail(i: usize, cfg: &str, m: Mode, may_format: bool) -> Value {
    let mut o = Map::new();
    o.insert("type".into(), json!("openid_credential"));
    let by_format = may_format && pick(3) == 2;
    if by_format {
        o.extend(format_of(i, cfg));
    } else {
        o.insert("credential_configuration_id".into(), json!(cfg));
    }
    if pick(3) == 2 && cfg != UNSUP {
        let sup = supported(i, cfg);
        let mut claims = claim_subset(&sup, m.honest || pick(4) > 0);
        if mutate(m) {
            spoil_claims(&mut claims, &sup);
        }
        if cfg == MDL {
            if by_format || !claims.is_empty() {
                o.insert("claims".into(), json!(claims));
            }
        } else {
            let mut cd = json!({"credentialSubject": claims});
            if by_format || pick(2) == 1 {
                cd["type"] = conf(i, cfg)["credential_definition"]["type"].clone();
            }
            if !claims.is_empty() {
                o.insert("credential_definition".into(), cd);
            }
        }
    }
    Value::Object(o)
}

/// A client's code verifier, as the library makes them or by hand.
fn verifier() -> String {
    if pick(2) == 0 {
        let v = vercre_core::pkce::code_verifier();
        with(|w| {
            let ok = (43..=128).contains(&v.len()) && v.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~".contains(&b));
            if !ok {
                w.violate(&["C15"], "verifier-form", format!("code verifier {v:?} is not 43 to 128 unreserved characters"));
            }
            w.secret("code verifier", &v);
        });
        v
    } else {
        let n = [43usize, 44, 64, 127, 128][pick(5) as usize];
        let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~";
        (0..n).map(|k| a[(pick(66) as usize + k) % a.len()] as char).collect()
    }
}

/// The authorization code flow: direct or pushed, from an offer or not, by details or by scope.
pub async fn authorization_code(i: usize, m: Mode) -> Res<()> {
    if m.honest && !server_allows(i, "authorization_code") {
        return Ok(());
    }
    let t = Target::Issuer(i);
    let from_offer = pick(3) == 2;
    let (subject, cfgs, state) = if from_offer {
        let o = get_offer(i, m, &["authorization_code"]).await?;
        pause(m).await;
        (o.subject, o.cfgs, o.state)
    } else {
        let (s, c) = offer_plan(m);
        (s, c, None)
    };
    let ver = verifier();
    let challenge = oracle::s256(&ver);
    let lib = vercre_core::pkce::code_challenge(&ver);
    if lib != challenge {
        with(|w| w.violate(&["C03"], "challenge", format!("challenge of {ver} is {lib}, not {challenge}")));
    }
    with(|w| add_loot(&mut w.loot.verifiers, &ver));
    let client = one_of(&[CLIENT_OK, CLIENT_OTHER, CLIENT_LONG, CLIENT_UP]);
    let redirect = match client {
        CLIENT_OTHER => REDIRECT_OTHER,
        CLIENT_LONG => one_of(&[REDIRECT, REDIRECT_OTHER]),
        _ => one_of(&[REDIRECT, REDIRECT2]),
    };
    let mut v = json!({
        "credential_issuer": issuer_id(i),
        "response_type": "code",
        "client_id": client,
        "redirect_uri": redirect,
        "code_challenge": challenge,
        "code_challenge_method": "S256",
        "subject_id": subject,
    });
    if pick(3) > 0 {
        v["state"] = json!(one_of(&["1234", "a b&c=d", "\"q\"", "é%20+", "{x", "[y", "true", "12", "null", "ä{\"a\":1}"]));
    }
    if let Some(s) = &state {
        v["issuer_state"] = json!(s);
    }
    let scoped = pick(4) == 3 && !cfgs.iter().any(|c| c == MDL || c == UNSUP);
    if scoped {
        let has_badge = with(|w| w.setup.subjects[&subject].grants.contains_key(BADGE));
        let mut scopes = vec![];
        if cfgs.iter().any(|c| c == EMP) {
            scopes.push("EmployeeIDCredential");
        }
        if cfgs.iter().any(|c| c == DEV || c == BADGE) && (has_badge || (!m.honest && pick(2) == 1)) {
            scopes.push("StaffCredential");
        }
        if cfgs.iter().any(|c| c == GOLD) {
            scopes.push("StaffCredentialGold");
        }
        if scopes.is_empty() {
            scopes.push("EmployeeIDCredential");
        }
        if pick(2) == 1 {
            scopes.reverse();
        }
        v["scope"] = json!(scopes.join(" "));
    } else {
        v["authorization_details"] = json!(cfgs.iter().map(|c| detail(i, c, m, true)).collect::<Vec<_>>());
    }
    if pick(4) == 3 {
        v["user_hint"] = json!("hint & <x>");
        v["wallet_issuer"] = json!("http://wallet.sim/?a=b");
        v["resource"] = json!("http://issuer.sim/r#x");
    }
    if mutate(m) {
        match pick(14) {
            0 => v["client_id"] = json!(one_of(&["unknown", "", CLIENT_NO_SCOPE, CLIENT_BAD_SCOPE, CLIENT_NO_GRANT])),
            1 => v["redirect_uri"] = json!(one_of(&["http://evil.sim/cb", "", REDIRECT_OTHER, REDIRECT, "http://wallet.sim/callback/", "http://wallet.sim/callback2", "http://wallet.sim/call", "http://wallet.sim/callback?x=1", "HTTP://wallet.sim/callback"])),
            2 => {
                v.as_object_mut().map(|o| o.remove("redirect_uri"));
            }
            3 => v["subject_id"] = json!(one_of(&["subject0", "subject1", "subject2", "nobody", ""])),
            4 => v["scope"] = json!(one_of(&["nonsense", "EmployeeIDCredential nonsense", "StaffCredential", "", "EmployeeIDCredential", "Staff", "StaffCredentialGold", "StaffCredentialGoldest"])),
            5 => v["code_challenge"] = json!(one_of(&["short", "", &"y".repeat(42), &"y".repeat(129), &"y".repeat(128)])),
            6 => v["issuer_state"] = json!(any_loot()),
            7 => {
                v.as_object_mut().map(|o| o.remove("authorization_details"));
                v.as_object_mut().map(|o| o.remove("scope"));
            }
            8 => v["credential_issuer"] = json!("http://elsewhere.sim"),
            9 => {
                v["authorization_details"] = json!([{"type": "openid_credential", "credential_configuration_id": "nope"}]);
            }
            10 => {
                v["authorization_details"] = json!([{"type": "openid_credential", "format": "jwt_vc_json",
                    "credential_definition": {"type": ["VerifiableCredential", "Nothing"]}}]);
            }
            11 => v["issuer_state"] = json!(one_of(&["", "nonsense"])),
            12 => {
                v["authorization_details"] = json!([
                    {"type": "openid_credential", "credential_configuration_id": EMP},
                    {"type": "openid_credential", "credential_configuration_id": EMP}]);
            }
            _ => {
                // no PKCE downgrade
                v["code_challenge"] = json!(ver);
            }
        }
    }
    let must_push = with(|w| w.setup.issuers[i].server.oauth.require_pushed_authorization_requests == Some(true));
    let push = if m.honest { must_push || pick(2) == 1 } else { (must_push && !chance(200)) || pick(3) == 2 };
    let resp = if push {
        if pick(3) == 2 {
            v["client_assertion_type"] = json!("urn:ietf:params:oauth:client-assertion-type:jwt-bearer");
            v["client_assertion"] = json!("header.payload.sig");
        }
        if mutate(m) {
            fire(t, "par", &v);
        }
        let p = tried!(m, "par", call::<oi::PushedAuthorizationResponse>(t, "par", "PushedAuthorizationResponse", &v).await);
        pause(m).await;
        let mut u = json!({"request_uri": p.request_uri});
        if mutate(m) {
            match pick(3) {
                0 => u["request_uri"] = json!(any_loot()),
                1 => u["request_uri"] = json!("urn:ietf:params:oauth:request_uri:nonsense"),
                _ => fire(t, "authorize", &u),
            }
        }
        tried!(m, "authorize", send_authorize(i, &u).await)
    } else {
        if mutate(m) {
            fire(t, "authorize", &v);
        }
        tried!(m, "authorize", send_authorize(i, &v).await)
    };
    pause(m).await;
    let mut v = json!({
        "credential_issuer": issuer_id(i),
        "grant_type": "authorization_code",
        "client_id": client,
        "code": resp.code,
        "redirect_uri": redirect,
        "code_verifier": ver,
    });
    if mutate(m) {
        match pick(11) {
            0 => v["client_id"] = json!(one_of(&[CLIENT_OK, CLIENT_OTHER, CLIENT_LONG, CLIENT_UP, "unknown", "", CLIENT_NO_GRANT])),
            1 => v["redirect_uri"] = json!(one_of(&[REDIRECT, REDIRECT2, REDIRECT_OTHER, "http://evil.sim/cb", "", "http://wallet.sim/callback/", "http://wallet.sim/callback2", "http://wallet.sim/call", "http://wallet.sim/callback?x=1", "HTTP://wallet.sim/callback"])),
            2 => {
                v.as_object_mut().map(|o| o.remove("redirect_uri"));
            }
            3 => {
                let mut bad = ver.clone();
                let last = bad.pop();
                bad.push(if last == Some('a') { 'b' } else { 'a' });
                v["code_verifier"] = json!(one_of(&[bad, String::new(), challenge.clone(), format!("{ver} "), ver[..42].to_string(), ver.to_lowercase()]));
            }
            4 => {
                v.as_object_mut().map(|o| o.remove("code_verifier"));
            }
            5 => {
                v.as_object_mut().map(|o| o.remove("client_id"));
            }
            6 => v["code"] = json!(any_loot()),
            7 => {
                let o = v.as_object_mut().expect("object");
                for k in ["code", "redirect_uri", "code_verifier"] {
                    o.remove(k);
                }
                o.insert("grant_type".into(), json!(PREAUTH));
                o.insert("pre-authorized_code".into(), json!(resp.code));
            }
            8 => fire(t, "token", &v),
            9 => v["code_verifier"] = json!(one_of(&with(|w| w.loot.verifiers.clone()))),
            _ => {
                let mut w = v.clone();
                w["code_verifier"] = json!("z".repeat(43));
                fire(t, "token", &w);
                pause(m).await;
            }
        }
    }
    let tok = tried!(m, "token", call::<oi::TokenResponse>(t, "token", "TokenResponse", &v).await);
    let scope_ids: Vec<String> = if scoped {
        with(|w| w.model.toks.get(&(i, tok.access_token.clone())).map(|t| t.grants.keys().cloned().collect()).unwrap_or_default())
    } else {
        vec![]
    };
    use_token(i, m, tok, &subject, &scope_ids).await
}

/// Sends an authorization request, by JSON or by query string.
async fn send_authorize(i: usize, v: &Value) -> Result<oi::AuthorizationResponse, Fail> {
    let t = Target::Issuer(i);
    let made = net::remade("authorize", v);
    let v = made.as_ref().unwrap_or(v);
    if pick(3) == 2 {
        let q = crate::wire::form_encode(v);
        ev(|| format!("as query string {q}"));
        return net::finish("AuthorizationResponse", rpc(t, "authorize", q.into_bytes(), Some(v.clone())).await);
    }
    match serde_json::from_value::<oi::AuthorizationRequest>(v.clone()) {
        Ok(r) => {
            let query = pick(2) == 1;
            net::authorize(i, &r, query).await
        }
        Err(e) => {
            with(|w| w.violate(&["C10"], "decode:AuthorizationRequest", format!("{v} does not decode: {e}")));
            Err(Fail::Garbled)
        }
    }
}

/// The keys a client may prove possession of.
fn holder_key() -> Key {
    let n = pick(3);
    if pick(4) == 3 {
        Key::did_web(&format!("holder{}.sim", n.min(1)))
    } else {
        Key::did_key(&format!("holder{}", n.min(1)))
    }
}

fn now_secs() -> i64 {
    with(|w| w.x.now) / SEC
}

pub fn proof_jwt(i: usize, key: &Key, nonce: &str) -> String {
    let mut c = json!({"aud": issuer_id(i), "iat": now_secs(), "nonce": nonce});
    if pick(2) == 1 {
        c["iss"] = json!(CLIENT_OK);
    }
    let p = oracle::sign_jwt("openid4vci-proof+jwt", &c, key);
    with(|w| add_loot(&mut w.loot.proofs, &p));
    p
}

/// A proof that should not be accepted (or is a replay that might be).
fn bad_proof(i: usize, key: &Key, nonce: &str) -> Value {
    let other = Key::did_key("holder1");
    let evil = Key::did_web("evil.sim");
    let c = json!({"aud": issuer_id(i), "iat": now_secs(), "nonce": nonce});
    let good = oracle::sign_jwt("openid4vci-proof+jwt", &c, key);
    let jwt = |s: String| json!({"proof_type": "jwt", "jwt": s});
    let p = match pick(16) {
        0 => jwt(one_of(&["", "a.b.c", "..", "nonsense", "e30.e30.", "\u{1F600}.\u{1F600}.x"]).to_string()),
        1 => jwt(good[..good.len() - 4].to_string()),
        2 => {
            // altered payload under the old signature
            let p: Vec<&str> = good.split('.').collect();
            let c = json!({"aud": issuer_id(i), "iat": now_secs() + 1, "nonce": nonce});
            jwt(format!("{}.{}.{}", p[0], oracle::b64e(c.to_string().as_bytes()), p[2]))
        }
        3 => {
            // signed by one key, naming another
            let k = Key { kid: other.kid.clone(), did: other.did.clone(), sk: evil.sk.clone() };
            jwt(oracle::sign_jwt("openid4vci-proof+jwt", &c, &k))
        }
        4 => jwt(oracle::sign_jwt(one_of(&["JWT", "jwt", "vp+jwt", "openid4vci-proof"]), &c, key)),
        5 => {
            let mut c = c.clone();
            c["nonce"] = json!(one_of(&["", "nonsense", nonce.to_uppercase().as_str()]));
            jwt(oracle::sign_jwt("openid4vci-proof+jwt", &c, key))
        }
        6 => {
            let c = json!({"aud": issuer_id(i), "iat": now_secs()});
            jwt(oracle::sign_jwt("openid4vci-proof+jwt", &c, key))
        }
        7 => {
            let n = one_of(&with(|w| w.loot.nonces.clone()));
            let mut c = c.clone();
            c["nonce"] = json!(n);
            jwt(oracle::sign_jwt("openid4vci-proof+jwt", &c, key))
        }
        8 => {
            let mut all = with(|w| w.loot.proofs.clone());
            all.push(good);
            jwt(one_of(&all))
        }
        9 => {
            let k = Key { kid: one_of(&["", "#", "did:key:zzz#zzz", "did:web:unknown.sim#key-0", "nonsense"]).to_string(), ..key.clone() };
            jwt(oracle::sign_jwt("openid4vci-proof+jwt", &c, &k))
        }
        10 => {
            let h = json!({"alg": "none", "typ": "openid4vci-proof+jwt", "kid": key.kid});
            jwt(format!("{}.{}.", oracle::b64e(h.to_string().as_bytes()), oracle::b64e(c.to_string().as_bytes())))
        }
        11 => return json!({"proofs": {"jwt": []}}),
        12 => {
            let b = oracle::sign_jwt("openid4vci-proof+jwt", &c, &Key { kid: other.kid.clone(), did: other.did, sk: evil.sk });
            return json!({"proofs": {"jwt": if pick(2) == 0 { [good, b] } else { [b, good] }}});
        }
        13 => return json!({}),
        14 => {
            // a proof that names its DID but not the key
            let k = Key { kid: key.did.clone(), ..key.clone() };
            jwt(oracle::sign_jwt("openid4vci-proof+jwt", &c, &k))
        }
        _ => {
            let sig = good.rsplit('.').next().unwrap_or_default().to_string();
            let head = &good[..good.len() - sig.len()];
            jwt(format!("{head}{}", oracle::b64e(&[7u8; 64])))
        }
    };
    if pick(3) == 0 {
        // among good ones
        let mut all: Vec<Value> = (0..=pick(2)).map(|_| json!(proof_jwt(i, &holder_key(), nonce))).collect();
        let at = pick(all.len() as u32 + 1) as usize;
        all.insert(at, p["jwt"].clone());
        return json!({"proofs": {"jwt": all}});
    }
    json!({"proof": p})
}

/// What a client learns from a refusal.
fn fresh_nonce(f: &Fail) -> Option<String> {
    match f {
        Fail::Refused(r) if r.code == "invalid_proof" => r.json["c_nonce"].as_str().map(str::to_string),
        _ => None,
    }
}

/// Uses an access token for everything it is good for (and some things it is not).
async fn use_token(i: usize, m: Mode, tok: oi::TokenResponse, subject: &str, scope_ids: &[String]) -> Res<()> {
    let mut nonce = tok.c_nonce.clone().unwrap_or_default();
    let mut ids: Vec<(String, Option<String>)> = vec![];
    for d in tok.authorization_details.iter().flatten() {
        let v = json!(d);
        let cfg = v["credential_configuration_id"].as_str().map(str::to_string);
        for id in &d.credential_identifiers {
            let cfg = cfg.clone().or_else(|| config_of(subject, id));
            ids.push((id.clone(), cfg));
        }
    }
    for id in scope_ids {
        if !ids.iter().any(|(x, _)| x == id) {
            ids.push((id.clone(), config_of(subject, id)));
        }
    }
    if ids.is_empty() {
        return if m.honest { stuck("the token covers nothing") } else { Err(Stop::Given) };
    }
    if pick(4) == 3 {
        register(i, m, &tok.access_token).await?;
    }
    let mut rounds = 0;
    for (id, cfg) in ids {
        let reps = 1 + u32::from(pick(4) == 3);
        for _ in 0..reps {
            rounds += 1;
            if rounds > 6 {
                return Ok(());
            }
            pause(m).await;
            match one_credential(i, m, &tok.access_token, &mut nonce, &id, cfg.as_deref(), subject).await {
                Ok(()) => {}
                Err(Stop::Given) if !m.honest => {}
                Err(e) => return Err(e),
            }
        }
    }
    if m.honest {
        with(|w| w.probe("honest.done"));
    }
    Ok(())
}

fn config_of(subject: &str, id: &str) -> Option<String> {
    with(|w| {
        let s = w.setup.subjects.get(subject)?;
        s.grants.iter().find(|(_, ids)| ids.iter().any(|x| x == id)).map(|(c, _)| c.clone())
    })
}

#[allow(clippy::too_many_arguments)]
async fn one_credential(
    i: usize, m: Mode, token: &str, nonce: &mut String, id: &str, cfg: Option<&str>, subject: &str,
) -> Res<()> {
    let t = Target::Issuer(i);
    let key = holder_key();
    let mut attempts = 0;
    let resp = loop {
        attempts += 1;
        if attempts > 4 {
            return if m.honest { stuck(format!("credential {id} refused again and again")) } else { Err(Stop::Given) };
        }
        let mut v = json!({"credential_issuer": issuer_id(i), "access_token": token});
        let o = v.as_object_mut().expect("object");
        let mut plain = true;
        match cfg {
            Some(c) if pick(3) == 2 => {
                let mut f = format_of(i, c);
                if pick(2) == 1 && c != UNSUP {
                    let claims = claim_subset(&supported(i, c), false);
                    if c == MDL {
                        // the claims of an mdoc are listed by name space
                        f.insert("claims".into(), if pick(4) == 0 { supported(i, c) } else { json!(claims) });
                    } else {
                        f["credential_definition"]["credentialSubject"] = json!(claims);
                    }
                }
                o.extend(f);
                plain = false;
            }
            _ => {
                o.insert("credential_identifier".into(), json!(id));
            }
        }
        let extra = match pick(6) {
            5 => json!({"proofs": {"jwt": [proof_jwt(i, &holder_key(), nonce), proof_jwt(i, &key, nonce)]}}),
            4 => json!({"proofs": {"jwt": [proof_jwt(i, &key, nonce)]}}),
            _ => json!({"proof": {"proof_type": "jwt", "jwt": proof_jwt(i, &key, nonce)}}),
        };
        let extra = if mutate(m) { bad_proof(i, &key, nonce) } else { extra };
        o.extend(extra.as_object().cloned().unwrap_or_default());
        if mutate(m) {
            match pick(7) {
                0 => v["access_token"] = json!(any_loot()),
                1 => v["access_token"] = json!(one_of(&["", "nonsense"])),
                2 => v["credential_issuer"] = json!("http://elsewhere.sim"),
                3 if plain => v["credential_identifier"] = json!(one_of(&["PHLEmployeeID", "PHLDeveloper", "Badge", "BadgeGold", "DriverLicence", "nope", ""])),
                4 if plain => {
                    let f = format_of(i, one_of(&[EMP, DEV, BADGE, GOLD, MDL, UNSUP]));
                    let o = v.as_object_mut().expect("object");
                    o.remove("credential_identifier");
                    o.extend(f);
                }
                5 if plain => {
                    let o = v.as_object_mut().expect("object");
                    o.remove("credential_identifier");
                    o.insert("format".into(), json!("jwt_vc_json"));
                    o.insert("credential_definition".into(), json!({"type": ["VerifiableCredential", "Nothing"]}));
                }
                _ => fire(t, "credential", &v),
            }
        }
        match call::<oi::CredentialResponse>(t, "credential", "CredentialResponse", &v).await {
            Ok(r) => break r,
            Err(f) => {
                if let Some(n) = fresh_nonce(&f) {
                    *nonce = n;
                    pause(m).await;
                } else if m.honest {
                    return stuck(format!("credential: {f:?} for {v}"));
                }
            }
        }
    };
    if let Some(n) = &resp.c_nonce {
        nonce.clone_from(n);
    }
    let (mut creds, mut notif) = (vec![], resp.notification_id.clone());
    match resp.response {
        oi::CredentialResponseType::Credential(c) => creds.push(c),
        oi::CredentialResponseType::Credentials(cs) => creds.extend(cs),
        oi::CredentialResponseType::TransactionId(tx) => {
            let Some(r) = poll(i, m, token, &tx, subject, id).await? else { return Ok(()) };
            if let Some(n) = &r.c_nonce {
                nonce.clone_from(n);
            }
            notif.clone_from(&r.notification_id);
            match r.response {
                oi::CredentialResponseType::Credential(c) => creds.push(c),
                oi::CredentialResponseType::Credentials(cs) => creds.extend(cs),
                oi::CredentialResponseType::TransactionId(_) => return stuck("polling a transaction gave another"),
            }
        }
    }
    for c in &creds {
        if let Kind::String(s) = c {
            with(|w| add_loot(&mut w.loot.vcs, s));
        }
    }
    if let Some(n) = notif {
        if pick(2) == 1 {
            notify(i, m, token, &n).await?;
        }
    }
    Ok(())
}

/// Polls a deferred transaction until it delivers or is hopeless.
async fn poll(i: usize, m: Mode, token: &str, tx: &str, subject: &str, id: &str) -> Res<Option<oi::CredentialResponse>> {
    let t = Target::Issuer(i);
    let begun = with(|w| w.x.now);
    for n in 0..if m.honest { 16 } else { 6 } {
        if m.honest {
            sleep(60 * SEC).await;
        } else {
            pause(m).await;
            if n > 0 {
                sleep(i64::from(pick(200)) * SEC).await;
            }
        }
        let mut v = json!({"credential_issuer": issuer_id(i), "access_token": token, "transaction_id": tx});
        let mut odd = false;
        if mutate(m) {
            odd = true;
            match pick(6) {
                0 => v["access_token"] = json!(any_loot()),
                1 => v["access_token"] = json!(one_of(&["", "nonsense"])),
                2 => v["transaction_id"] = json!(any_loot()),
                3 => v["transaction_id"] = json!(one_of(&["", "nonsense"])),
                4 => {
                    let toks = with(|w| w.loot.tokens.clone());
                    v["access_token"] = json!(one_of(&toks));
                }
                _ => fire(t, "deferred", &v),
            }
        }
        match call::<oi::DeferredCredentialResponse>(t, "deferred", "DeferredCredentialResponse", &v).await {
            Ok(r) => return Ok(Some(r.credential_response)),
            Err(Fail::Refused(r)) if r.code == "issuance_pending" => {}
            Err(f) if m.honest => {
                // a transaction that outlived its lifetime before the data was ready is allowed to fail
                let now = with(|w| w.x.now);
                if now - begun > 880 * SEC {
                    return Ok(None);
                }
                return stuck(format!("deferred: {f:?}"));
            }
            Err(Fail::Lost | Fail::Garbled) => {}
            Err(_) if odd => {}
            Err(_) => return Err(Stop::Given),
        }
    }
    if m.honest {
        let ready = with(|w| w.setup.subjects.get(subject).and_then(|s| s.data.get(id)).map_or(0, |d| d.ready_at));
        if ready < begun {
            return stuck(format!("{id} is ready but never delivered"));
        }
    }
    Ok(None)
}

async fn notify(i: usize, m: Mode, token: &str, id: &str) -> Res<()> {
    let t = Target::Issuer(i);
    pause(m).await;
    let mut v = json!({
        "credential_issuer": issuer_id(i), "access_token": token, "notification_id": id,
        "event": one_of(&["credential_accepted", "credential_failure", "credential_deleted"])
    });
    if pick(2) == 1 {
        v["event_description"] = json!(one_of(TEXTS));
    }
    if mutate(m) {
        match pick(4) {
            0 => v["notification_id"] = json!(any_loot()),
            1 => v["notification_id"] = json!(one_of(&["", "nonsense"])),
            2 => v["access_token"] = json!(any_loot()),
            _ => fire(t, "notification", &v),
        }
    }
    match rpc(t, "notification", v.to_string().into_bytes(), Some(v)).await {
        Some(r) if r.ok => Ok(()),
        r if m.honest => stuck(format!("notification: {r:?}")),
        _ => Err(Stop::Given),
    }
}

async fn register(i: usize, m: Mode, token: &str) -> Res<()> {
    let t = Target::Issuer(i);
    let mut v = json!({
        "credential_issuer": issuer_id(i), "access_token": token,
        "client_id": "", "client_name": one_of(TEXTS), "redirect_uris": [REDIRECT],
        "grant_types": ["authorization_code"], "response_types": ["code"], "scope": "openid credential",
        "credential_offer_endpoint": "openid-credential-offer://"
    });
    if mutate(m) {
        match pick(3) {
            0 => v["access_token"] = json!(any_loot()),
            1 => v["access_token"] = json!(one_of(&["", "nonsense"])),
            _ => fire(t, "register", &v),
        }
    }
    let _ = tried!(m, "register", call::<oi::RegistrationResponse>(t, "register", "RegistrationResponse", &v).await);
    Ok(())
}

/// Reads what issuer and authorization server publish about themselves.
pub async fn discover(i: usize, m: Mode) -> Res<()> {
    let t = Target::Issuer(i);
    let mut v = json!({"credential_issuer": issuer_id(i)});
    if mutate(m) {
        v["credential_issuer"] = json!(one_of(&["", "http://elsewhere.sim"]));
    }
    let mut l = v.clone();
    if pick(2) == 1 {
        l["languages"] = json!(one_of(&["en", "en-NZ, de;q=0.5", "*", ""]));
    }
    let _ = tried!(m, "metadata", call::<oi::MetadataResponse>(t, "metadata", "MetadataResponse", &l).await);
    let mut o = v;
    if pick(2) == 1 {
        o["issuer"] = json!(issuer_id(i));
    }
    let _ = tried!(m, "oauth_server", call::<oi::OAuthServerResponse>(t, "oauth_server", "OAuthServerResponse", &o).await);
    Ok(())
}

/// Replays and recombines what was seen on the wire.
pub async fn attacker(i: usize) {
    crate::wire::errors();
    let t = Target::Issuer(i);
    let m = Mode { honest: false };
    for _ in 0..4 + pick(8) {
        pause(m).await;
        sleep(i64::from(pick(4000)) * MS).await;
        let id = issuer_id(i);
        let pre = with(|w| w.loot.tx_codes.clone());
        let v = match pick(9) {
            0 => {
                let mut v = json!({"credential_issuer": id, "grant_type": PREAUTH, "pre-authorized_code": any_loot()});
                if pick(2) == 1 && !pre.is_empty() {
                    v["tx_code"] = json!(one_of(&pre));
                }
                if pick(2) == 1 {
                    v["client_id"] = json!(CLIENT_OK);
                }
                rpc(t, "token", v.to_string().into_bytes(), Some(v)).await
            }
            1 => {
                let vs = with(|w| w.loot.verifiers.clone());
                let ver = if vs.is_empty() { "x".repeat(43) } else { one_of(&vs) };
                let codes = with(|w| w.loot.codes.clone());
                let code = if codes.is_empty() { any_loot() } else { one_of(&codes) };
                let v = json!({"credential_issuer": id, "grant_type": "authorization_code", "code": code,
                    "client_id": one_of(&[CLIENT_OK, CLIENT_OTHER, CLIENT_LONG, CLIENT_UP]), "redirect_uri": one_of(&[REDIRECT, REDIRECT2, REDIRECT_OTHER]),
                    "code_verifier": ver});
                rpc(t, "token", v.to_string().into_bytes(), Some(v)).await
            }
            2 | 3 => {
                let toks = with(|w| w.loot.tokens.clone());
                let tok = if toks.is_empty() || pick(4) == 3 { any_loot() } else { one_of(&toks) };
                let proofs = with(|w| w.loot.proofs.clone());
                let nonces = with(|w| w.loot.nonces.clone());
                let p = if !proofs.is_empty() && pick(2) == 0 {
                    one_of(&proofs)
                } else {
                    let n = if nonces.is_empty() { String::new() } else { one_of(&nonces) };
                    proof_jwt(i, &Key::did_web("evil.sim"), &n)
                };
                let v = json!({"credential_issuer": id, "access_token": tok,
                    "credential_identifier": one_of(&["PHLEmployeeID", "PHLDeveloper", "Badge", "BadgeGold", "DriverLicence"]),
                    "proof": {"proof_type": "jwt", "jwt": p}});
                rpc(t, "credential", v.to_string().into_bytes(), Some(v)).await
            }
            4 => {
                let txs = with(|w| w.loot.txns.clone());
                let toks = with(|w| w.loot.tokens.clone());
                let v = json!({"credential_issuer": id,
                    "access_token": if toks.is_empty() { any_loot() } else { one_of(&toks) },
                    "transaction_id": if txs.is_empty() { any_loot() } else { one_of(&txs) }});
                rpc(t, "deferred", v.to_string().into_bytes(), Some(v)).await
            }
            5 => {
                let v = json!({"credential_issuer": id, "id": any_loot()});
                rpc(t, "credential_offer", v.to_string().into_bytes(), Some(v)).await
            }
            6 => {
                let ps = with(|w| w.loot.pars.clone());
                let v = json!({"request_uri": if ps.is_empty() { any_loot() } else { one_of(&ps) }});
                rpc(t, "authorize", v.to_string().into_bytes(), Some(v)).await
            }
            7 => {
                let v = json!({"credential_issuer": id, "access_token": any_loot(), "client_id": "", "redirect_uris": ["http://evil.sim"],
                    "credential_offer_endpoint": "openid-credential-offer://"});
                rpc(t, "register", v.to_string().into_bytes(), Some(v)).await
            }
            _ => {
                let v = json!({"credential_issuer": id, "access_token": any_loot(), "notification_id": any_loot(), "event": "credential_deleted"});
                rpc(t, "notification", v.to_string().into_bytes(), Some(v)).await
            }
        };
        drop(v);
        count("attack.requests");
    }
}
