//! What messages look like on the wire: query strings, QR codes, and every message type with generated content. The
//! expected forms are written by hand from the specifications; the library's own encoders and decoders are judged
//! against them.

use std::collections::BTreeMap;

use base64ct::{Base64, Encoding};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use vercre_core::{urlencode, Kind, Quota};
use vercre_openid::issuer as oi;
use vercre_did::{DidResolver, Document, MethodType, VerificationMethod};
use vercre_infosec::{Algorithm, Signer};
use vercre_openid::verifier as ov;
use vercre_w3c_vc::proof::{self, Payload, Verify, W3cFormat};

use crate::exec::{one_of, pick, with, yield_now};
use crate::oracle;
use crate::setup::{PREAUTH, TEXTS};
use crate::world::Key;

fn bad(class: impl Into<String>, detail: impl Into<String>) {
    with(|w| w.violate(&["C10"], class, detail));
}

/// Percent-encodes everything but unreserved characters.
pub fn pct(s: &str) -> String {
    let mut out = String::new();
    for b in s.bytes() {
        if b.is_ascii_alphanumeric() || b"-._~".contains(&b) {
            out.push(b as char);
        } else {
            out.push_str(&format!("%{b:02X}"));
        }
    }
    out
}

/// A JSON object as query parameters: strings as they are, everything else as JSON.
pub fn form_encode(v: &Value) -> String {
    let mut out = vec![];
    for (k, v) in v.as_object().into_iter().flatten() {
        let val = match v {
            Value::String(s) => s.clone(),
            other => other.to_string(),
        };
        out.push(format!("{}={}", pct(k), pct(&val)));
    }
    out.join("&")
}

/// A query string the library made must be URL-safe and say what the value says.
pub fn query_form(what: &'static str, q: &str, v: &Value) -> bool {
    let r = match oracle::query(q) {
        Some(p) if oracle::url_safe(q) => oracle::query_matches(&p, v),
        Some(_) => Err("it contains unescaped characters".into()),
        None => Err("it is not a query string".into()),
    };
    if let Err(m) = &r {
        bad(format!("query:{what}"), format!("{what} {v} is sent as {q}: {m}"));
    }
    r.is_ok()
}

fn qr_form(what: &'static str, r: anyhow::Result<String>, want: &str) {
    match r {
        Ok(s) => {
            let got = s.strip_prefix("data:image/png;base64,").and_then(|b| Base64::decode_vec(b).ok());
            let got = got.map(|b| String::from_utf8_lossy(&b).into_owned()).unwrap_or_default();
            if !got.ends_with(want) {
                bad(format!("qrcode:{what}"), format!("{what} QR code holds {got:?} instead of {want:?}"));
            }
        }
        Err(e) => {
            if want.len() <= 2331 {
                bad(format!("qrcode:{what}"), format!("{what} {want}: {e}"));
            }
        }
    }
}

/// Every way of writing a credential offer says the same.
pub fn offer_forms(o: &oi::CredentialOffer) {
    let v = json!(o);
    match o.to_querystring() {
        Ok(q) => {
            query_form("CredentialOffer", &q, &v);
            match urlencode::from_str::<oi::CredentialOffer>(&q) {
                Ok(back) if json!(back) == v => {}
                other => bad("roundtrip:CredentialOffer", format!("{v} as {q} decodes to {:?}", other.map(|x| json!(x)))),
            }
            let e = "openid-credential-offer://credential_offer=";
            qr_form("CredentialOffer", o.to_qrcode(e), &format!("{e}{q}"));
        }
        Err(e) => bad("query:CredentialOffer", format!("{v}: {e}")),
    }
}

/// Every way of writing a presentation request says the same.
pub fn request_forms(o: &ov::RequestObject) {
    let v = json!(o);
    match o.to_querystring() {
        Ok(q) => {
            query_form("RequestObject", &q, &v);
            match urlencode::from_str::<ov::RequestObject>(&q) {
                Ok(back) if json!(back) == v => {}
                other => bad("roundtrip:RequestObject", format!("{v} as {q} decodes to {:?}", other.map(|x| json!(x)))),
            }
            let e = "openid4vp://?";
            qr_form("RequestObject", o.to_qrcode(e), &format!("{e}{q}"));
        }
        Err(e) => bad("query:RequestObject", format!("{v}: {e}")),
    }
}

// ---------------------------------------------------------------------------------------------------------------
// generated messages

/// Nulls and absent members mean the same, and so do an empty and an absent issuer or access token (which travel
/// outside the body).
pub fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => {
            Value::Object(o.iter().filter(|(k, v)| !v.is_null() && !(*v == "" && (*k == "credential_issuer" || *k == "access_token"))).map(|(k, v)| (k.clone(), strip(v))).collect())
        }
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}

fn text() -> String {
    match pick(3) {
        0 => one_of(TEXTS).to_string(),
        1 => {
            let n = 1 + pick(12);
            let a: Vec<char> = "abcXYZ019 &=+%#?/\\\"'{}[]():;,.<>|~^`!@$*-_éß日\u{1F600}\n\t".chars().collect();
            (0..n).map(|_| a[pick(a.len() as u32) as usize]).collect()
        }
        _ => one_of(&["a=b&c=d", "{", "[", "}", "%7B%22", "100%", "a+b", "null", "\"", "{\"", "\u{0}", "[x", "{a:1}", "&", "=", "%", "ab%2", "%E4"]).to_string(),
    }
}

/// Text that is not itself a JSON array or object: query strings cannot tell those from nested values.
fn plain() -> String {
    loop {
        let t = text();
        if !(t.starts_with(['{', '[']) && serde_json::from_str::<Value>(&t).is_ok()) {
            return t;
        }
    }
}

fn opt(o: &mut Map<String, Value>, k: &str, f: impl FnOnce() -> Value) {
    if pick(2) == 1 {
        let v = f();
        o.insert(k.into(), v);
    }
}

fn obj(v: Value) -> Map<String, Value> {
    match v {
        Value::Object(o) => o,
        _ => Map::new(),
    }
}

fn texts() -> Value {
    json!((0..1 + pick(3)).map(|_| text()).collect::<Vec<_>>())
}

fn claims() -> Value {
    let mut o = Map::new();
    for k in ["given_name", "email", "address", "älter", "a.b"] {
        if pick(2) == 1 {
            continue;
        }
        let v = match pick(4) {
            0 => json!({}),
            1 => json!({"mandatory": true}),
            2 => json!({"mandatory": true, "value_type": "string", "display": [{"name": text(), "locale": "en"}]}),
            _ => json!({"street": {}, "inner": {"deep": {"mandatory": true}}}),
        };
        o.insert(k.into(), v);
    }
    Value::Object(o)
}

fn format() -> Value {
    let kind = pick(5);
    let mut o = Map::new();
    match kind {
        0..=2 => {
            o.insert("format".into(), json!(["jwt_vc_json", "ldp-vc", "jwt_vc_json-ld"][kind as usize]));
            let mut cd = Map::new();
            opt(&mut cd, "@context", texts);
            opt(&mut cd, "type", || json!(["VerifiableCredential", text()]));
            opt(&mut cd, "credentialSubject", claims);
            o.insert("credential_definition".into(), Value::Object(cd));
        }
        3 => {
            o.insert("format".into(), json!("mso_mdoc"));
            o.insert("doctype".into(), json!(text()));
            opt(&mut o, "claims", claims);
        }
        _ => {
            o.insert("format".into(), json!("vc+sd-jwt"));
            o.insert("vct".into(), json!(text()));
            opt(&mut o, "claims", claims);
        }
    }
    Value::Object(o)
}

fn detail() -> Value {
    let mut o = obj(json!({"type": "openid_credential"}));
    if pick(2) == 0 {
        o.insert("credential_configuration_id".into(), json!(text()));
        match pick(3) {
            1 => {
                let mut cd = Map::new();
                opt(&mut cd, "type", || json!(["VerifiableCredential", text()]));
                opt(&mut cd, "credentialSubject", claims);
                o.insert("credential_definition".into(), Value::Object(cd));
            }
            2 => {
                o.insert("claims".into(), claims());
            }
            _ => {}
        }
    } else {
        o.extend(obj(format()));
    }
    opt(&mut o, "locations", texts);
    Value::Object(o)
}

fn details() -> Value {
    json!((0..1 + pick(2)).map(|_| detail()).collect::<Vec<_>>())
}

fn authorization_request(string: fn() -> String) -> Value {
    let mut o = obj(json!({
        "response_type": "code", "client_id": string(), "code_challenge": string(), "code_challenge_method": "S256",
        "subject_id": string()
    }));
    opt(&mut o, "credential_issuer", || json!(format!("http://x{}", pick(9))));
    for k in ["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"] {
        opt(&mut o, k, || json!(string()));
    }
    opt(&mut o, "authorization_details", details);
    Value::Object(o)
}

fn offer() -> Value {
    let mut o = obj(json!({"credential_configuration_ids": texts()}));
    o.insert("credential_issuer".into(), json!(format!("http://x{}", plain())));
    let mut g = Map::new();
    opt(&mut g, "authorization_code", || {
        let mut a = Map::new();
        opt(&mut a, "issuer_state", || json!(text()));
        opt(&mut a, "authorization_server", || json!(text()));
        Value::Object(a)
    });
    opt(&mut g, PREAUTH, || {
        let mut a = obj(json!({"pre-authorized_code": text()}));
        opt(&mut a, "authorization_server", || json!(text()));
        opt(&mut a, "tx_code", || {
            let mut t = Map::new();
            opt(&mut t, "input_mode", || json!("numeric"));
            opt(&mut t, "length", || json!(pick(10)));
            opt(&mut t, "description", || json!(text()));
            Value::Object(t)
        });
        Value::Object(a)
    });
    if pick(3) > 0 {
        o.insert("grants".into(), Value::Object(g));
    }
    Value::Object(o)
}

fn filter() -> Value {
    let mut f = obj(json!({"type": one_of(&["string", "array", "number"])}));
    match pick(3) {
        0 => f.insert("const".into(), json!(text())),
        1 => f.insert("pattern".into(), json!(text())),
        _ => f.insert("format".into(), json!("date")),
    };
    Value::Object(f)
}

fn fields() -> Value {
    json!((0..1 + pick(2))
        .map(|_| {
            let mut o = obj(json!({"path": texts()}));
            for k in ["id", "purpose", "name"] {
                opt(&mut o, k, || json!(text()));
            }
            opt(&mut o, "optional", || json!(pick(2) == 1));
            opt(&mut o, "filter", filter);
            Value::Object(o)
        })
        .collect::<Vec<_>>())
}

fn descriptors() -> Value {
    json!((0..1 + pick(2))
        .map(|_| {
            let mut o = obj(json!({"id": text(), "constraints": {}}));
            for k in ["purpose", "name"] {
                opt(&mut o, k, || json!(text()));
            }
            if pick(3) > 0 {
                o.insert("constraints".into(), json!({"fields": fields()}));
            }
            if pick(3) == 2 {
                o["constraints"]["limit_disclosure"] = json!(one_of(&["required", "preferred"]));
            }
            Value::Object(o)
        })
        .collect::<Vec<_>>())
}

fn request_object() -> Value {
    let mut o = obj(json!({"response_type": "vp_token", "client_id": plain(), "nonce": plain(), "client_id_scheme": "redirect_uri"}));
    for k in ["redirect_uri", "response_uri", "scope", "state"] {
        opt(&mut o, k, || json!(plain()));
    }
    o.insert("response_mode".into(), json!(one_of(&["direct_post", "fragment"])));
    o.insert("presentation_definition".into(), {
        let mut d = obj(json!({"id": text(), "input_descriptors": descriptors()}));
        for k in ["purpose", "name"] {
            opt(&mut d, k, || json!(text()));
        }
        Value::Object(d)
    });
    o.insert("client_metadata".into(), client_metadata());
    Value::Object(o)
}

/// What a relying party says about itself.
fn client_metadata() -> Value {
    let mut o = obj(json!({"client_id": text()}));
    for k in [
        "client_name", "client_uri", "logo_uri", "scope", "tos_uri", "policy_uri", "software_id", "software_version", "client_secret",
        "contacts", "jwks_uri", "jwks",
    ] {
        if pick(6) == 5 {
            o.insert(k.into(), json!(text()));
        }
    }
    opt(&mut o, "redirect_uris", texts);
    opt(&mut o, "client_id_issued_at", || json!(pick(99999)));
    if pick(2) == 1 {
        o.insert("vp_formats".into(), json!({"jwt_vp_json": {"alg": ["ES256K", text()]}}));
        rarely(&mut o, "vp_formats", || json!({"jwt_vp_json": {"proof_type": texts()}}));
    }
    rarely(&mut o, "client_secret_expires_at", || json!(pick(99999)));
    rarely(&mut o, "token_endpoint_auth_method", || json!(one_of(&["none", "client_secret_jwt", "private_key_jwt"])));
    rarely(&mut o, "grant_types", || one_of(&[json!([PREAUTH]), json!(["authorization_code"]), json!(["authorization_code", PREAUTH])]));
    rarely(&mut o, "response_types", || json!([one_of(&["code", "vp_token", "id_token vp_token"])]));
    rarely(&mut o, "require_pushed_authorization_requests", || json!(pick(2) == 1));
    rarely(&mut o, "credential_offer_endpoint", || json!(text()));
    Value::Object(o)
}

fn proof() -> Map<String, Value> {
    match pick(3) {
        1 => obj(json!({"proof": {"proof_type": "jwt", "jwt": text()}})),
        2 => obj(json!({"proofs": {"jwt": texts()}})),
        _ => Map::new(),
    }
}

fn status() -> Value {
    let mut o = obj(json!({
        "type": "BitstringStatusListEntry", "statusPurpose": one_of(&["revocation", "suspension", "message"]),
        "statusListIndex": pick(1000), "statusListCredential": text()
    }));
    opt(&mut o, "id", || json!(text()));
    rarely(&mut o, "statusSize", || json!(1 + pick(8)));
    rarely(&mut o, "statusMessage", || json!([{"status": "0x0", "message": text()}, {"status": "0x1", "message": text()}]));
    rarely(&mut o, "statusReference", || json!(text()));
    Value::Object(o)
}

fn rarely(o: &mut Map<String, Value>, k: &str, f: impl FnOnce() -> Value) {
    if pick(5) == 4 {
        let v = f();
        o.insert(k.into(), v);
    }
}

/// One, or a list of several.
fn some(f: fn() -> Value) -> Value {
    if pick(2) == 0 {
        f()
    } else {
        json!([f(), f()])
    }
}

/// Text in one or more languages.
fn lang() -> Value {
    fn one() -> Value {
        let mut o = obj(json!({"@value": text()}));
        opt(&mut o, "@language", || json!(one_of(&["en", "ar", "en-NZ"])));
        opt(&mut o, "@direction", || json!(one_of(&["ltr", "rtl"])));
        Value::Object(o)
    }
    if pick(3) == 0 {
        json!(text())
    } else {
        some(one)
    }
}

/// An embedded proof.
fn integrity() -> Value {
    let mut o = obj(json!({"type": "DataIntegrityProof", "proofPurpose": "assertionMethod", "verificationMethod": text(), "proofValue": text()}));
    for k in ["id", "cryptosuite", "challenge", "nonce"] {
        rarely(&mut o, k, || json!(text()));
    }
    rarely(&mut o, "created", || json!("2024-02-29T12:34:56Z"));
    rarely(&mut o, "expires", || json!("2034-02-28T23:59:59Z"));
    rarely(&mut o, "domain", || some(|| json!(text())));
    rarely(&mut o, "previousProof", || some(|| json!(text())));
    Value::Object(o)
}

fn related() -> Value {
    let mut o = obj(json!({"id": text()}));
    opt(&mut o, "mediaType", || json!(text()));
    opt(&mut o, "digestSRI", || some(|| json!(text())));
    opt(&mut o, "digestMultibase", || some(|| json!(text())));
    Value::Object(o)
}

fn evidence() -> Value {
    let mut o = obj(json!({"type": texts()}));
    for k in ["id", "name", "description", "verifier"] {
        opt(&mut o, k, || json!(text()));
    }
    opt(&mut o, "digestSRI", || some(|| json!(text())));
    opt(&mut o, "digestMultibase", || some(|| json!(text())));
    Value::Object(o)
}

fn image() -> Value {
    let mut o = Map::new();
    opt(&mut o, "uri", || json!(text()));
    opt(&mut o, "alt_text", || json!(text()));
    Value::Object(o)
}

fn display() -> Value {
    let mut o = obj(json!({"name": text()}));
    opt(&mut o, "locale", || json!(one_of(&["en", "en-NZ", "ar"])));
    Value::Object(o)
}

/// What an issuer says about itself.
fn issuer_metadata() -> Value {
    let mut o = obj(json!({"credential_issuer": format!("http://x{}", pick(9)), "credential_endpoint": text()}));
    for k in ["deferred_credential_endpoint", "notification_endpoint", "signed_metadata"] {
        opt(&mut o, k, || json!(text()));
    }
    opt(&mut o, "authorization_servers", texts);
    opt(&mut o, "credential_response_encryption", || {
        json!({"alg_values_supported": texts(), "enc_values_supported": texts(), "encryption_required": pick(2) == 1})
    });
    opt(&mut o, "batch_credential_issuance", || json!({"batch_size": pick(99)}));
    opt(&mut o, "display", display);
    let mut cfgs = Map::new();
    for _ in 0..pick(3) {
        let mut c = obj(format());
        opt(&mut c, "scope", || json!(text()));
        opt(&mut c, "cryptographic_binding_methods_supported", texts);
        opt(&mut c, "credential_signing_alg_values_supported", texts);
        opt(&mut c, "proof_types_supported", || json!({"jwt": {"proof_signing_alg_values_supported": texts()}}));
        opt(&mut c, "display", || {
            let mut d = obj(display());
            for k in ["description", "background_color", "text_color"] {
                opt(&mut d, k, || json!(text()));
            }
            opt(&mut d, "logo", image);
            opt(&mut d, "background_image", image);
            json!([d])
        });
        cfgs.insert(text(), Value::Object(c));
    }
    o.insert("credential_configurations_supported".into(), Value::Object(cfgs));
    Value::Object(o)
}

/// What an authorization server says about itself.
fn server_metadata() -> Value {
    let mut o = obj(json!({"issuer": text(), "authorization_endpoint": text(), "token_endpoint": text(), "response_types_supported": ["code"]}));
    for k in [
        "jwks_uri", "registration_endpoint", "service_documentation", "op_policy_uri", "op_tos_uri", "revocation_endpoint",
        "introspection_endpoint", "signed_metadata", "pushed_authorization_request_endpoint",
    ] {
        rarely(&mut o, k, || json!(text()));
    }
    for k in [
        "scopes_supported", "ui_locales_supported", "revocation_endpoint_auth_methods_supported",
        "revocation_endpoint_auth_signing_alg_values_supported", "introspection_endpoint_auth_methods_supported",
        "introspection_endpoint_auth_signing_alg_values_supported",
    ] {
        rarely(&mut o, k, texts);
    }
    opt(&mut o, "response_modes_supported", || json!(["query"]));
    opt(&mut o, "grant_types_supported", || one_of(&[json!([PREAUTH]), json!(["authorization_code"]), json!(["authorization_code", PREAUTH])]));
    opt(&mut o, "token_endpoint_auth_methods_supported", || json!(["none", "private_key_jwt", "client_secret_jwt"]));
    opt(&mut o, "token_endpoint_auth_signing_alg_values_supported", || one_of(&[json!(["EdDSA"]), json!(["ES256K", "EdDSA"])]));
    opt(&mut o, "code_challenge_methods_supported", || json!(["S256"]));
    opt(&mut o, "require_pushed_authorization_requests", || json!(pick(2) == 1));
    Value::Object(o)
}

fn subject() -> Value {
    let mut o = Map::new();
    opt(&mut o, "id", || json!(text()));
    for k in ["givenName", "naïve", "nested", "list"] {
        opt(&mut o, k, || match pick(5) {
            0 => json!(text()),
            1 => json!(pick(1000)),
            2 => json!({"a": text(), "b": [1, true, null]}),
            3 => json!([text(), {"x": 1}]),
            _ => json!(pick(2) == 1),
        });
    }
    Value::Object(o)
}

fn vc() -> Value {
    let mut o = obj(json!({
        "@context": ["https://www.w3.org/2018/credentials/v1"],
        "type": ["VerifiableCredential", text()],
        "issuer": text(),
        "credentialSubject": subject()
    }));
    opt(&mut o, "id", || json!(text()));
    if pick(3) == 2 {
        o["issuer"] = json!({"id": text()});
    }
    if pick(3) == 2 {
        o["credentialSubject"] = json!([subject(), subject()]);
    }
    opt(&mut o, "validFrom", || json!("2024-02-29T12:34:56Z"));
    opt(&mut o, "validUntil", || json!("2034-02-28T23:59:59Z"));
    opt(&mut o, "credentialStatus", || some(status));
    if pick(3) == 0 {
        return Value::Object(o);
    }
    // the parts a credential seldom has
    rarely(&mut o, "@context", || json!(["https://www.w3.org/2018/credentials/v1", text(), {"@vocab": text(), "deep": {"x": [text()]}}]));
    rarely(&mut o, "type", || json!("VerifiableCredential"));
    rarely(&mut o, "issuer", || json!({"id": text(), "name": text(), "more": {"list": [text(), 1, null]}}));
    rarely(&mut o, "name", lang);
    rarely(&mut o, "description", lang);
    rarely(&mut o, "credentialSchema", || some(|| json!({"id": text(), "type": text()})));
    rarely(&mut o, "proof", || some(integrity));
    rarely(&mut o, "relatedResource", || some(related));
    rarely(&mut o, "refreshService", || json!({"url": text(), "type": text(), "refreshToken": text()}));
    rarely(&mut o, "termsOfUse", || some(|| json!({"type": text(), "id": text(), "prohibition": [{"assigner": text()}]})));
    rarely(&mut o, "evidence", || some(evidence));
    Value::Object(o)
}

fn credential_response() -> Value {
    let mut o = Map::new();
    match pick(4) {
        0 => o.insert("credential".into(), json!(text())),
        1 => o.insert("credential".into(), vc()),
        2 => o.insert("credentials".into(), json!([text(), text()])),
        _ => o.insert("transaction_id".into(), json!(text())),
    };
    opt(&mut o, "c_nonce", || json!(text()));
    opt(&mut o, "c_nonce_expires_in", || json!(pick(1000)));
    opt(&mut o, "notification_id", || json!(text()));
    Value::Object(o)
}

fn check<T: DeserializeOwned + Serialize>(what: &'static str, v: &Value) -> Option<T> {
    match serde_json::from_value::<T>(v.clone()) {
        Ok(t) => {
            let back = json!(t);
            if strip(&back) != strip(v) {
                bad(format!("roundtrip:{what}"), format!("{what} {v} decodes to {back}"));
            }
            // and once more through text
            match serde_json::to_string(&t).ok().and_then(|s| serde_json::from_str::<T>(&s).ok()) {
                Some(u) if json!(u) == back => {}
                other => bad(format!("roundtrip:{what}"), format!("{what} {back} re-read as {:?}", other.map(|u| json!(u)))),
            }
            with(|w| w.x.count("wire.messages"));
            Some(t)
        }
        Err(e) => {
            bad(format!("decode:{what}"), format!("{what} {v} does not decode: {e}"));
            None
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
enum Shade {
    Light,
    #[serde(rename = "dark-er")]
    Dark,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(rename_all = "snake_case")]
enum Choice {
    ByName(String),
    ByNumber(i64),
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Inner {
    a: String,
    n: i64,
    #[serde(skip_serializing_if = "Option::is_none")]
    b: Option<bool>,
    list: Vec<String>,
    shade: Shade,
    choice: Choice,
    map: BTreeMap<String, Value>,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Outer {
    s: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    maybe: Option<String>,
    shade: Shade,
    inner: Inner,
    inners: Vec<Inner>,
    kind: Kind<Inner>,
    quota: Quota<Inner>,
    names: Vec<String>,
    #[serde(flatten)]
    more: BTreeMap<String, String>,
}

fn inner() -> Inner {
    let v = |n: u32| match n {
        0 => json!(text()),
        1 => json!([text(), 1, -2.5, {"k": text()}]),
        2 => json!({"x": {"y": [text()]}, "e": {}, "l": []}),
        3 => json!(true),
        _ => Value::Null,
    };
    Inner {
        a: text(),
        n: i64::from(pick(2000)) - 1000,
        b: [None, Some(true), Some(false)][pick(3) as usize],
        list: (0..pick(3)).map(|_| text()).collect(),
        shade: if pick(2) == 0 { Shade::Light } else { Shade::Dark },
        choice: if pick(2) == 0 { Choice::ByName(text()) } else { Choice::ByNumber(i64::from(pick(99))) },
        map: (0..pick(3)).map(|i| (if i == 0 { text() } else { format!("k{i}") }, v(pick(5)))).collect(),
    }
}

/// Sends generated messages of every kind through the library's encoders and decoders.
pub async fn codec() {
    for _ in 0..24 {
        yield_now().await;
        match pick(26) {
            0 => {
                let v = offer();
                if let Some(o) = check::<oi::CredentialOffer>("CredentialOffer", &v) {
                    offer_forms(&o);
                }
            }
            1 | 2 => {
                let v = authorization_request(plain);
                let enc = form_encode(&v);
                match enc.parse::<oi::AuthorizationRequest>() {
                    Ok(r) => {
                        if strip(&json!(r)) != strip(&v) {
                            bad("roundtrip:AuthorizationRequest", format!("{enc} decodes to {}, meant {v}", json!(r)));
                        }
                        let q = r.to_string();
                        query_form("AuthorizationRequest", &q, &json!(r));
                        match q.parse::<oi::AuthorizationRequest>() {
                            Ok(b) if json!(b) == json!(r) => {}
                            other => bad("roundtrip:AuthorizationRequest", format!("{q} decodes to {:?}", other.map(|x| json!(x)))),
                        }
                        match json!(r).to_string().parse::<oi::AuthorizationRequest>() {
                            Ok(b) if json!(b) == json!(r) => {}
                            other => bad("roundtrip:AuthorizationRequest", format!("{} decodes to {:?}", json!(r), other.map(|x| json!(x)))),
                        }
                    }
                    Err(e) => bad("decode:AuthorizationRequest", format!("{enc} does not decode: {e}")),
                }
            }
            3 => {
                let mut v = obj(authorization_request(text));
                if pick(2) == 1 {
                    v.insert("client_assertion_type".into(), json!("urn:ietf:params:oauth:client-assertion-type:jwt-bearer"));
                    v.insert("client_assertion".into(), json!(text()));
                }
                check::<oi::PushedAuthorizationRequest>("PushedAuthorizationRequest", &Value::Object(v));
            }
            4 => {
                let mut v = Map::new();
                opt(&mut v, "credential_issuer", || json!("http://x"));
                opt(&mut v, "client_id", || json!(text()));
                if pick(2) == 0 {
                    v.insert("grant_type".into(), json!(PREAUTH));
                    v.insert("pre-authorized_code".into(), json!(text()));
                    opt(&mut v, "tx_code", || json!(text()));
                } else {
                    v.insert("grant_type".into(), json!("authorization_code"));
                    v.insert("code".into(), json!(text()));
                    opt(&mut v, "redirect_uri", || json!(text()));
                    opt(&mut v, "code_verifier", || json!(text()));
                }
                opt(&mut v, "authorization_details", details);
                if pick(3) == 2 {
                    v.insert("client_assertion_type".into(), json!("urn:ietf:params:oauth:client-assertion-type:jwt-bearer"));
                    v.insert("client_assertion".into(), json!(text()));
                }
                check::<oi::TokenRequest>("TokenRequest", &Value::Object(v));
            }
            5 => {
                let mut v = obj(json!({"access_token": text(), "token_type": "Bearer", "expires_in": pick(9999)}));
                opt(&mut v, "c_nonce", || json!(text()));
                opt(&mut v, "c_nonce_expires_in", || json!(pick(999)));
                opt(&mut v, "authorization_details", || {
                    let mut d = obj(detail());
                    d.insert("credential_identifiers".into(), texts());
                    json!([d])
                });
                check::<oi::TokenResponse>("TokenResponse", &Value::Object(v));
            }
            6 | 7 => {
                let mut v = if pick(2) == 0 { obj(json!({"credential_identifier": text()})) } else { obj(format()) };
                opt(&mut v, "credential_issuer", || json!("http://x"));
                opt(&mut v, "access_token", || json!(format!("t{}", text())));
                v.extend(proof());
                check::<oi::CredentialRequest>("CredentialRequest", &Value::Object(v));
            }
            8 => {
                check::<oi::CredentialResponse>("CredentialResponse", &credential_response());
                check::<oi::DeferredCredentialResponse>("DeferredCredentialResponse", &credential_response());
            }
            9 => {
                let v = json!({"credential_issuer": "http://x", "access_token": "t", "transaction_id": text()});
                check::<oi::DeferredCredentialRequest>("DeferredCredentialRequest", &v);
                let mut v = obj(json!({"credential_issuer": "http://x", "access_token": "t", "notification_id": text(),
                    "event": one_of(&["credential_accepted", "credential_failure", "credential_deleted"])}));
                opt(&mut v, "event_description", || json!(text()));
                check::<oi::NotificationRequest>("NotificationRequest", &Value::Object(v));
            }
            10 => {
                let mut v = obj(json!({"credential_configuration_ids": texts(), "tx_code_required": pick(2) == 1,
                    "send_type": one_of(&["ByVal", "ByRef"])}));
                opt(&mut v, "credential_issuer", || json!("http://x"));
                opt(&mut v, "subject_id", || json!(text()));
                opt(&mut v, "grant_types", || json!([PREAUTH, "authorization_code"]));
                check::<oi::CreateOfferRequest>("CreateOfferRequest", &Value::Object(v));
                let v = if pick(2) == 0 { json!({"credential_offer": offer()}) } else { json!({"credential_offer_uri": text(), "tx_code": "123456"}) };
                check::<oi::CreateOfferResponse>("CreateOfferResponse", &v);
            }
            11 | 12 => {
                let v = request_object();
                if let Some(o) = check::<ov::RequestObject>("RequestObject", &v) {
                    request_forms(&o);
                }
            }
            13 => {
                let mut v = obj(json!({"client_id": text(), "purpose": text(), "input_descriptors": descriptors(),
                    "device_flow": one_of(&["CrossDevice", "SameDevice"]), "client_id_scheme": "redirect_uri"}));
                v.retain(|_, v| !v.is_null());
                check::<ov::CreateRequestRequest>("CreateRequestRequest", &Value::Object(v));
            }
            14 => {
                let mut v = Map::new();
                opt(&mut v, "vp_token", || json!([text(), text()]));
                opt(&mut v, "state", || json!(text()));
                opt(&mut v, "presentation_submission", || {
                    json!({"id": text(), "definition_id": text(), "descriptor_map": [
                        {"id": text(), "format": "jwt_vp_json", "path": "$[0]", "path_nested": {"format": "jwt_vc_json", "path": text()}}]})
                });
                check::<ov::ResponseRequest>("ResponseRequest", &Value::Object(v));
                let mut v = Map::new();
                opt(&mut v, "redirect_uri", || json!(text()));
                opt(&mut v, "response_code", || json!(text()));
                check::<ov::ResponseResponse>("ResponseResponse", &Value::Object(v));
            }
            15 => {
                let v = vc();
                check::<vercre_w3c_vc::model::VerifiableCredential>("VerifiableCredential", &v);
                if pick(2) == 0 {
                    signed(&v, false).await;
                }
            }
            16 => {
                let mut v = obj(json!({"@context": ["https://www.w3.org/2018/credentials/v1"], "type": "VerifiablePresentation"}));
                if pick(2) == 1 {
                    v["type"] = json!(["VerifiablePresentation", "EmployeePresentation"]);
                }
                opt(&mut v, "id", || json!(text()));
                opt(&mut v, "holder", || json!(text()));
                rarely(&mut v, "proof", || some(integrity));
                rarely(&mut v, "@context", || json!(["https://www.w3.org/2018/credentials/v1", {"@vocab": text()}]));
                opt(&mut v, "verifiableCredential", || if pick(2) == 0 { json!([text()]) } else { json!([vc(), text()]) });
                let v = Value::Object(v);
                vp(&v);
                if pick(2) == 0 {
                    signed(&v, true).await;
                }
            }
            18 => errors(),
            17 => {
                let meta = with(|w| json!(w.setup.issuers[0].meta));
                check::<oi::Issuer>("Issuer metadata", &meta);
                let server = with(|w| json!(w.setup.issuers[0].server));
                check::<oi::Server>("Server metadata", &server);
                let v = issuer_metadata();
                check::<oi::Issuer>("Issuer metadata", &v);
                check::<oi::MetadataResponse>("MetadataResponse", &v);
                let mut v = obj(server_metadata());
                v.insert("presentation_definition_uri_supported".into(), json!(pick(2) == 1));
                opt(&mut v, "vp_formats_supported", || json!({"jwt_vp_json": {"alg": texts()}, text(): {"proof_type": texts()}}));
                check::<ov::Wallet>("Wallet metadata", &Value::Object(v));
                let mut v = obj(server_metadata());
                v.insert("pre-authorized_grant_anonymous_access_supported".into(), json!(pick(2) == 1));
                check::<oi::OAuthServerResponse>("OAuthServerResponse", &json!({"authorization_server": v}));
            }
            19 => {
                let mut v = obj(client_metadata());
                check::<ov::MetadataResponse>("Verifier metadata", &Value::Object(v.clone()));
                v.remove("vp_formats");
                check::<oi::RegistrationResponse>("RegistrationResponse", &Value::Object(v.clone()));
                v.insert("credential_issuer".into(), json!("http://x"));
                v.insert("access_token".into(), json!("t"));
                check::<oi::RegistrationRequest>("RegistrationRequest", &Value::Object(v));
                check::<oi::PushedAuthorizationResponse>("PushedAuthorizationResponse", &json!({"request_uri": text(), "expires_in": pick(999)}));
                let mut v = obj(json!({"code": text()}));
                opt(&mut v, "state", || json!(text()));
                v.insert("redirect_uri".into(), json!(text()));
                check::<oi::AuthorizationResponse>("AuthorizationResponse", &Value::Object(v));
                let mut v = Map::new();
                opt(&mut v, "credential_issuer", || json!("http://x"));
                opt(&mut v, "languages", || json!(text()));
                check::<oi::MetadataRequest>("MetadataRequest", &Value::Object(v));
                let mut v = Map::new();
                opt(&mut v, "credential_issuer", || json!("http://x"));
                opt(&mut v, "issuer", || json!(text()));
                check::<oi::OAuthServerRequest>("OAuthServerRequest", &Value::Object(v));
                check::<oi::CredentialOfferRequest>("CredentialOfferRequest", &json!({"credential_issuer": "http://x", "id": text()}));
                check::<oi::CredentialOfferResponse>("CredentialOfferResponse", &json!({"credential_offer": offer()}));
                let v = if pick(2) == 0 { json!({"request_object": request_object()}) } else { json!({"request_uri": text()}) };
                check::<ov::CreateRequestResponse>("CreateRequestResponse", &v);
                let v = if pick(2) == 0 { json!({"request_object": request_object()}) } else { json!(text()) };
                check::<ov::RequestObjectResponse>("RequestObjectResponse", &v);
                check::<ov::RequestObjectRequest>("RequestObjectRequest", &json!({"client_id": text(), "id": text()}));
            }
            _ => generic(),
        }
    }
}

/// Every error, with text of any kind in it, in each of its forms.
pub fn errors() {
    use vercre_openid::Error as E;
    type Make = fn(String) -> E;
    let kinds: [(&str, Make); 19] = [
        ("invalid_request", E::InvalidRequest),
        ("invalid_client", E::InvalidClient),
        ("invalid_grant", E::InvalidGrant),
        ("unauthorized_client", E::UnauthorizedClient),
        ("unsupported_grant_type", E::UnsupportedGrantType),
        ("invalid_scope", E::InvalidScope),
        ("invalid_authorization_details", E::InvalidAuthorizationDetails),
        ("access_denied", E::AccessDenied),
        ("unsupported_response_type", E::UnsupportedResponseType),
        ("server_error", E::ServerError),
        ("temporarily_unavailable", E::TemporarilyUnavailable),
        ("invalid_credential_request", E::InvalidCredentialRequest),
        ("unsupported_credential_type", E::UnsupportedCredentialType),
        ("unsupported_credential_format", E::UnsupportedFormat),
        ("invalid_encryption_parameters", E::InvalidEncryptionParameters),
        ("invalid_transaction_id", E::InvalidTransactionId),
        ("vp_formats_not_supported", E::VpFormatsNotSupported),
        ("invalid_presentation_definition_uri", E::InvalidPresentationDefinitionUri),
        ("wallet_unavailable", E::WalletUnavailable),
    ];
    let why = plain();
    let (nonce, n) = (plain(), i64::from(pick(4000)) - 5);
    let which = pick(21) as usize;
    let make = || match which {
        19 => E::IssuancePending(n),
        20 => E::InvalidProof { hint: why.clone(), c_nonce: nonce.clone(), c_nonce_expires_in: n },
        k => kinds[k].1(why.clone()),
    };
    let mut want = match which {
        19 => json!({"error": "issuance_pending", "interval": n}),
        20 => json!({"error": "invalid_proof", "error_description": why, "c_nonce": nonce, "c_nonce_expires_in": n}),
        k => json!({"error": kinds[k].0, "error_description": why}),
    };
    let fail = |form: &str, got: String| {
        with(|w| w.violate(&["C13", "C10"], format!("error-form:{form}"), format!("{:?} as {form}: {got}", make())));
    };
    // an empty description may be sent or left out
    let trim = |mut v: Value| {
        if v["error_description"].as_str() == Some("") {
            v.as_object_mut().map(|o| o.remove("error_description"));
        }
        v
    };
    want = trim(want);
    let forms = [
        ("JSON", make().to_json()),
        ("text", serde_json::from_str(&make().to_string()).unwrap_or_default()),
        ("serialized", serde_json::to_value(make()).unwrap_or_default()),
    ];
    for (form, v) in forms {
        if trim(v.clone()) != want {
            fail(form, v.to_string());
        }
    }
    let q = make().to_querystring();
    match oracle::query(&q) {
        Some(mut p) if oracle::url_safe(&q) => {
            p.retain(|(k, v)| !(k == "error_description" && v.is_empty()));
            if let Err(m) = oracle::query_matches(&p, &want) {
                fail("query string", format!("{q}: {m}"));
            }
        }
        _ => fail("query string", q),
    }
    with(|w| w.x.count("wire.errors"));
}

/// Signs without a node around it.
#[derive(Clone)]
struct Pen(Key);

impl Signer for Pen {
    async fn sign(&self, msg: &[u8]) -> Vec<u8> {
        self.0.sign(msg)
    }

    async fn try_sign(&self, msg: &[u8]) -> anyhow::Result<Vec<u8>> {
        yield_now().await;
        Ok(self.0.sign(msg))
    }

    async fn public_key(&self) -> anyhow::Result<Vec<u8>> {
        Ok(self.0.public().to_vec())
    }

    fn algorithm(&self) -> Algorithm {
        Algorithm::EdDSA
    }

    fn verification_method(&self) -> String {
        self.0.kid.clone()
    }
}

/// Knows every identity.
struct Book;

impl DidResolver for Book {
    async fn resolve(&self, url: &str) -> anyhow::Result<Document> {
        let did = url.split('#').next().unwrap_or_default().to_string();
        let key = with(|w| w.setup.dids.get(&did).cloned()).ok_or_else(|| anyhow::anyhow!("unknown DID {did}"))?;
        Ok(Document {
            id: did.clone(),
            verification_method: Some(vec![VerificationMethod {
                id: key.kid.clone(),
                controller: did,
                method_type: MethodType::Multikey { public_key_multibase: vercre_did::multikey(&key.public()) },
            }]),
            ..Document::default()
        })
    }
}

/// The token with one symbol of its header, content or signature changed.
fn altered(jwt: &str) -> String {
    let parts: Vec<&str> = jwt.split('.').collect();
    let n = pick(parts.len() as u32) as usize;
    let at = parts[..n].iter().map(|p| p.len() + 1).sum::<usize>() + pick(parts[n].len() as u32 - 4) as usize;
    let c = if &jwt[at..=at] == "A" { "B" } else { "A" };
    format!("{}{c}{}", &jwt[..at], &jwt[at + 1..])
}

/// Credentials and presentations as signed tokens: what the token says is what was signed, and what the receiver reads.
async fn signed(v: &Value, presentation: bool) {
    let keys: Vec<Key> = with(|w| w.setup.dids.values().filter(|k| w.setup.dids.get(&k.did).is_some_and(|x| x.kid == k.kid)).cloned().collect());
    let key = keys[pick(keys.len() as u32) as usize].clone();
    let mut v = v.clone();
    if presentation && v.get("holder").is_some() {
        // only the holder signs
        v["holder"] = json!(key.did);
    }
    let v = &v;
    let (aud, nonce, at) = (text(), text(), i64::from(pick(0x7fff_ffff)));
    let format = if pick(3) == 0 { W3cFormat::JwtVcJsonLd } else { W3cFormat::JwtVcJson };
    let payload = if presentation {
        let Ok(vp) = serde_json::from_value(v.clone()) else { return };
        Payload::Vp { vp, client_id: aud.clone(), nonce: nonce.clone() }
    } else {
        let Ok(vc) = serde_json::from_value(v.clone()) else { return };
        Payload::Vc { vc, issued_at: at }
    };
    let token = match proof::create(format, payload, Pen(key)).await {
        Ok(t) => t,
        Err(e) => return bad("signed:refused", format!("{v} cannot be signed: {e}")),
    };
    let Some(j) = with(|w| oracle::jwt(&token, &w.setup.dids)).filter(|j| j.valid) else {
        return bad("signed:form", format!("{token} for {v} is not a signed token"));
    };
    let c = &j.claims;
    let s = |x: &Value| json!(x.as_str().unwrap_or_default());
    let mut same = vec![];
    if presentation {
        same.extend([("aud", json!(aud)), ("nonce", json!(nonce)), ("iss", s(&v["holder"])), ("jti", s(&v["id"]))]);
    } else {
        let subject = if v["credentialSubject"].is_array() { &v["credentialSubject"][0] } else { &v["credentialSubject"] };
        let issuer = if v["issuer"].is_object() { &v["issuer"]["id"] } else { &v["issuer"] };
        let until = v["validUntil"].as_str().and_then(|x| chrono::DateTime::parse_from_rfc3339(x).ok());
        same.extend([("iat", json!(at)), ("sub", s(&subject["id"])), ("iss", s(issuer)), ("jti", s(&v["id"])), ("exp", json!(until.map(|t| t.timestamp())))]);
    }
    for (k, want) in same {
        if c[k] != want {
            bad("signed:claims", format!("the token for {v} has {k} {} instead of {want}", c[k]));
        }
    }
    let body = if presentation { &c["vp"] } else { &c["vc"] };
    let plain = |x: &Value| if presentation { json!([x["id"], x["holder"], x["verifiableCredential"]]) } else { x.clone() };
    if strip(&plain(body)) != strip(&plain(v)) {
        bad("signed:content", format!("{v} is signed as {body}"));
    }
    // what the receiver reads
    for spoilt in [false, true] {
        let t = if spoilt { altered(&token) } else { token.clone() };
        let (vc, vp) = (Kind::String(t.clone()), Kind::String(t.clone()));
        let r = proof::verify(if presentation { Verify::Vp(&vp) } else { Verify::Vc(&vc) }, &Book).await;
        match (spoilt, r) {
            (true, Err(_)) => {}
            (true, Ok(_)) => {
                // the same bytes in another spelling, or really something else?
                if !with(|w| oracle::jwt(&t, &w.setup.dids)).is_some_and(|j| j.valid || j.loose) {
                    bad("signed:altered", format!("{t}, altered from {token}, is accepted"));
                }
            }
            (false, Ok(Payload::Vc { vc, issued_at })) if !presentation => {
                if strip(&json!(vc)) != strip(v) || issued_at != at {
                    bad("signed:read", format!("{v} issued at {at} is read as {} issued at {issued_at}", json!(vc)));
                }
            }
            (false, Ok(Payload::Vp { vp, client_id, nonce: n })) if presentation => {
                if strip(&plain(&json!(vp))) != strip(&plain(v)) || client_id != aud || n != nonce {
                    bad("signed:read", format!("{v} for {aud:?} {nonce:?} is read as {} for {client_id:?} {n:?}", json!(vp)));
                }
            }
            (false, r) => bad("signed:read", format!("{token} for {v} is read as {r:?}")),
        }
    }
    with(|w| w.x.count("wire.signed"));
}

fn vp(v: &Value) {
    match serde_json::from_value::<vercre_w3c_vc::model::VerifiablePresentation>(v.clone()) {
        Ok(p) => {
            let back = json!(p);
            match serde_json::from_value::<vercre_w3c_vc::model::VerifiablePresentation>(back.clone()) {
                Ok(q) if json!(q) == back => {}
                other => bad("roundtrip:VerifiablePresentation", format!("{back} re-read as {other:?}")),
            }
            // as text, plain, spread over lines, or base64
            let texts = [
                v.to_string(),
                serde_json::to_string_pretty(v).unwrap_or_default(),
                oracle::b64e(v.to_string().as_bytes()),
            ];
            for t in texts {
                match t.parse::<vercre_w3c_vc::model::VerifiablePresentation>() {
                    Ok(q) if json!(q) == back => {}
                    other => bad("roundtrip:VerifiablePresentation", format!("{t} read as {other:?}")),
                }
            }
            for k in ["@context", "type", "id", "holder", "verifiableCredential", "proof"] {
                if v.get(k).map(strip) != back.get(k).map(strip) {
                    bad("roundtrip:VerifiablePresentation", format!("{v} decodes to {back}"));
                }
            }
        }
        Err(e) => bad("decode:VerifiablePresentation", format!("{v} does not decode: {e}")),
    }
}

/// A value of many shapes through the query-string encoder and back.
fn generic() {
    let o = Outer {
        s: plain(),
        maybe: if pick(2) == 1 { Some(plain()) } else { None },
        shade: if pick(2) == 0 { Shade::Light } else { Shade::Dark },
        inner: inner(),
        inners: (0..pick(3)).map(|_| inner()).collect(),
        kind: if pick(2) == 0 { Kind::String(plain()) } else { Kind::Object(inner()) },
        quota: if pick(2) == 0 { Quota::One(inner()) } else { Quota::Many(vec![inner(), inner()]) },
        names: (0..pick(3)).map(|_| text()).collect(),
        more: (0..pick(3)).map(|i| (if i == 0 { format!("x{}", plain()) } else { format!("m{i}") }, plain())).collect(),
    };
    let v = json!(o);
    match urlencode::to_string(&o) {
        Ok(q) => {
            query_form("nested value", &q, &v);
            match urlencode::from_str::<Outer>(&q) {
                Ok(b) if b == o => {}
                other => bad("roundtrip:nested value", format!("{q} decodes to {other:?}, meant {o:?}")),
            }
            let k = *["s", "shade", "kind", "inner"].get(pick(4) as usize).expect("a key");
            let twice = match pick(3) {
                0 => format!("{q}&{k}={}", pct(&plain())),
                1 => format!("{k}={}&{q}", pct(&plain())),
                _ => format!("{q}&{q}"),
            };
            if let Ok(b) = urlencode::from_str::<Outer>(&twice) {
                bad("duplicate parameter", format!("{twice} gives a parameter twice and decodes to {b:?}"));
            }
        }
        Err(e) => bad("query:nested value", format!("{o:?}: {e}")),
    }
    match urlencode::from_str::<Outer>(&form_encode(&v)) {
        Ok(b) if b == o => {}
        other => bad("roundtrip:nested value", format!("{} decodes to {other:?}", form_encode(&v))),
    }
    // the two one-or-many helpers
    let kind: Kind<BTreeMap<String, Value>> = if pick(2) == 0 { Kind::String(text()) } else { Kind::Object(inner().map) };
    if kind.is_string() == kind.is_object() || kind.is_string() != json!(kind).is_string() {
        bad("kind", format!("{kind:?} is_string {} is_object {}", kind.is_string(), kind.is_object()));
    }
    let n = pick(4) as usize;
    let all: Vec<String> = (0..n).map(|_| text()).collect();
    let mut q: Quota<String> = if n == 1 && pick(2) == 0 { Quota::One(all[0].clone()) } else { Quota::Many(all.clone()) };
    let mut want = all;
    for _ in 0..pick(3) {
        let t = text();
        q.add(t.clone());
        want.push(t);
    }
    let got: Vec<String> = match &q {
        Quota::One(x) => vec![x.clone()],
        Quota::Many(v) => v.clone(),
    };
    if got != want || q.len() != want.len() || q.is_empty() != want.is_empty() || q.is_one() == q.is_many() {
        bad("quota", format!("{q:?} for {want:?}"));
    }
    let back = serde_json::from_value::<Quota<String>>(json!(q)).ok();
    if back.as_ref() != Some(&q) {
        bad("roundtrip:Quota", format!("{q:?} re-read as {back:?}"));
    }
    // whatever bytes arrive as a query string, the decoder answers
    let mut junk = form_encode(&v);
    for _ in 0..1 + pick(4) {
        let cut: Vec<usize> = junk.char_indices().map(|(i, _)| i).collect();
        if cut.is_empty() {
            break;
        }
        let at = cut[pick(cut.len() as u32) as usize];
        match pick(3) {
            0 => junk.truncate(at),
            1 => junk.insert_str(at, one_of(&["%", "&", "=", "%7B", "&&", "%FF", "%C3", "é"])),
            _ => {
                junk.remove(at);
            }
        }
    }
    let _ = urlencode::from_str::<Outer>(&junk);
    let _ = junk.parse::<oi::AuthorizationRequest>();
}
