//! Is an issued credential what the data source, the configuration and the key proof say it must be?

use std::collections::{BTreeMap, BTreeSet};

use ciborium::Value as Cbor;
use ed25519_dalek::{Signature, Verifier as _};
use serde_json::{json, Map, Value};
use sha2::{Digest, Sha256};

use crate::exec::SEC;
use crate::oracle;
use crate::prov::status_of;
use crate::world::{CallRec, World};

/// The instants (seconds) a call may have read as "now".
fn window(w: &World, r: &CallRec) -> (i64, i64) {
    let end = w.end_local(r);
    if r.clock_moved {
        return (i64::MIN / 2, i64::MAX / 2);
    }
    (r.begin_local / SEC - 1, end / SEC + 1)
}

/// The texts of a name or description, each with its language.
fn texts(v: &Value) -> BTreeSet<(String, Option<String>)> {
    match v {
        Value::String(s) => BTreeSet::from([(s.clone(), None)]),
        Value::Array(a) => a.iter().flat_map(texts).collect(),
        Value::Object(o) => {
            let s = |k: &str| o.get(k).and_then(Value::as_str).map(str::to_string);
            s("@value").into_iter().map(|t| (t, s("@language"))).collect()
        }
        _ => BTreeSet::new(),
    }
}

fn shown(display: &Value, k: &str) -> BTreeSet<(String, Option<String>)> {
    let of = |x: &Value, k: &str| x[k].as_str().map(str::to_string);
    display.as_array().into_iter().flatten().filter_map(|x| Some((of(x, k)?, of(x, "locale")))).collect()
}

/// One subject, whether written alone or as a list of one.
pub fn only(v: &Value) -> Option<&Value> {
    match v {
        Value::Array(a) if a.len() == 1 => a.first(),
        Value::Object(_) => Some(v),
        _ => None,
    }
}

#[allow(clippy::too_many_arguments)]
pub fn w3c(
    w: &World, r: &CallRec, i: usize, cfg: &str, sub: &str, ident: &str, claims: &Map<String, Value>, dids: &[String],
    s: &str, proof_needed: bool,
) -> Result<(), String> {
    let iss = &w.setup.issuers[i];
    let conf = &iss.meta.credential_configurations_supported[cfg];
    let j = oracle::jwt(s, &w.setup.dids).ok_or("form: not a JWT")?;
    if !j.valid || j.did != iss.key.did {
        return Err(format!("signature: signed as {} and valid={}", j.header, j.valid));
    }
    let vc = &j.claims["vc"];
    let fconf = json!(conf.format);
    let types = &fconf["credential_definition"]["type"];
    if &vc["type"] != types {
        return Err(format!("type: {} instead of {types}", vc["type"]));
    }
    let issuer = vc["issuer"].as_str().or_else(|| vc["issuer"]["id"].as_str()).unwrap_or_default();
    if issuer != iss.id || j.claims["iss"] != json!(iss.id) {
        return Err(format!("issuer: {} / {}", vc["issuer"], j.claims["iss"]));
    }
    let cs = only(&vc["credentialSubject"]).ok_or_else(|| format!("claims: subject is {}", vc["credentialSubject"]))?;
    let mut got = cs.as_object().cloned().unwrap_or_default();
    let id = got.remove("id").and_then(|x| x.as_str().map(str::to_string)).unwrap_or_default();
    if proof_needed && !dids.contains(&id) {
        return Err(format!("subject: bound to {id}, proven keys are {dids:?}"));
    }
    if !proof_needed && !id.is_empty() && !dids.contains(&id) {
        return Err(format!("subject: bound to {id} without a proof"));
    }
    if j.claims["sub"].as_str().unwrap_or_default() != id {
        return Err(format!("subject: sub is {} but the subject is {id}", j.claims["sub"]));
    }
    if &got != claims {
        return Err(format!("claims: {} instead of {}", json!(got), json!(claims)));
    }
    let (lo, hi) = window(w, r);
    let iat = j.claims["iat"].as_i64().ok_or("time: no iat")?;
    if iat < lo || iat > hi {
        return Err(format!("time: iat {iat} outside [{lo},{hi}]"));
    }
    for k in ["nbf", "exp"] {
        if let Some(t) = j.claims[k].as_i64() {
            let bad = if k == "nbf" { t > hi } else { t < hi };
            if bad {
                return Err(format!("time: {k} {t} at {hi}"));
            }
        }
    }
    if vc["id"].as_str().is_none_or(str::is_empty) || j.claims["jti"] != vc["id"] {
        return Err(format!("id: {} / {}", vc["id"], j.claims["jti"]));
    }
    let want = status_of(sub, ident).map(|s| json!(s));
    let status = match &vc["credentialStatus"] {
        Value::Null => None,
        Value::Array(a) if a.len() == 1 => Some(a[0].clone()),
        v => Some(v.clone()),
    };
    if status != want {
        return Err(format!("status: {status:?} instead of {want:?}"));
    }
    let d = json!(conf.display);
    for k in ["name", "description"] {
        if texts(&vc[k]) != shown(&d, k) {
            return Err(format!("{k}: {} instead of {:?}", vc[k], shown(&d, k)));
        }
    }
    Ok(())
}

fn dec(b: &[u8]) -> Option<Cbor> {
    ciborium::from_reader(b).ok()
}

fn enc(v: &Cbor) -> Vec<u8> {
    let mut b = vec![];
    ciborium::into_writer(v, &mut b).ok();
    b
}

fn get<'a>(v: &'a Cbor, k: &str) -> Option<&'a Cbor> {
    v.as_map()?.iter().find(|(x, _)| x.as_text() == Some(k)).map(|(_, v)| v)
}

/// Contents of `#6.24(bstr)`.
fn tag24(v: &Cbor) -> Option<Cbor> {
    match v {
        Cbor::Tag(24, b) => dec(b.as_bytes()?),
        _ => None,
    }
}

pub fn mdoc(w: &World, r: &CallRec, i: usize, claims: &Map<String, Value>, s: &str) -> Result<(), String> {
    let iss = &w.setup.issuers[i];
    let raw = oracle::b64d(s).ok_or("form: not base64url")?;
    let doc = dec(&raw).ok_or("form: not CBOR")?;
    let auth = get(&doc, "issuerAuth").and_then(Cbor::as_array).ok_or("form: no issuerAuth")?;
    let [prot, unprot, payload, sig] = auth.as_slice() else { return Err("form: not a COSE_Sign1".into()) };
    let payload = payload.as_bytes().ok_or("form: no payload")?;
    let prot = prot.as_bytes().ok_or("form: no protected header")?;
    let sig = sig.as_bytes().and_then(|b| Signature::from_slice(b).ok()).ok_or("signature: malformed")?;
    let tbs = enc(&Cbor::Array(vec![
        Cbor::Text("Signature1".into()),
        Cbor::Bytes(prot.clone()),
        Cbor::Bytes(vec![]),
        Cbor::Bytes(payload.clone()),
    ]));
    let vk = iss.key.sk.verifying_key();
    // the signature covers the security object, either bare or as the COSE signature structure
    if vk.verify(payload, &sig).is_err() && vk.verify(&tbs, &sig).is_err() {
        return Err("signature: does not verify".into());
    }
    let alg = dec(prot).and_then(|h| h.as_map()?.iter().find(|(k, _)| k.as_integer() == Some(1.into())).cloned());
    if alg.and_then(|(_, v)| v.as_integer()) != Some((-8).into()) {
        return Err("signature: algorithm".into());
    }
    let kid = unprot
        .as_map()
        .and_then(|m| m.iter().find(|(k, _)| k.as_integer() == Some(4.into())))
        .and_then(|(_, v)| v.as_bytes().cloned());
    if kid.as_deref() != Some(iss.key.kid.as_bytes()) {
        return Err("signature: key id".into());
    }
    let mso = dec(payload).and_then(|v| tag24(&v)).ok_or("form: no security object")?;
    if get(&mso, "docType").and_then(Cbor::as_text) != Some("org.iso.18013.5.1.mDL")
        || get(&mso, "version").and_then(Cbor::as_text) != Some("1.0")
        || get(&mso, "digestAlgorithm").and_then(Cbor::as_text) != Some("SHA-256")
    {
        return Err("type: document type, version or digest algorithm".into());
    }
    // validity
    let (lo, hi) = window(w, r);
    let v = get(&mso, "validityInfo").ok_or("time: no validity")?;
    let t = |k: &str| {
        get(v, k)
            .and_then(Cbor::as_text)
            .and_then(|s| chrono::DateTime::parse_from_rfc3339(s).ok())
            .map(|d| d.timestamp())
            .ok_or_else(|| format!("time: no {k}"))
    };
    let (signed, from, until) = (t("signed")?, t("validFrom")?, t("validUntil")?);
    if signed < lo || signed > hi || from < signed || from > hi || until <= from || (hi < i64::MAX / 8 && until < hi) {
        return Err(format!("time: signed {signed} from {from} until {until}, now [{lo},{hi}]"));
    }
    // every claim once, each with its digest
    let spaces = get(&doc, "nameSpaces").and_then(Cbor::as_map).ok_or("claims: no name spaces")?;
    let digests = get(&mso, "valueDigests").and_then(Cbor::as_map).ok_or("claims: no digests")?;
    let mut got: BTreeMap<String, BTreeMap<String, Value>> = BTreeMap::new();
    let mut salts = BTreeSet::new();
    for (ns, items) in spaces {
        let ns = ns.as_text().unwrap_or_default().to_string();
        let of = digests.iter().find(|(k, _)| k.as_text() == Some(&ns)).and_then(|(_, v)| v.as_map());
        let of = of.ok_or("digest: name space has none")?;
        let mut ids = BTreeSet::new();
        let items = items.as_array().ok_or("form: items")?;
        for it in items {
            let inner = tag24(it).ok_or("form: item")?;
            let f = |a: &str, b: &str| get(&inner, a).or_else(|| get(&inner, b)).cloned();
            let id = f("digestID", "digest_id").and_then(|x| x.as_integer()).ok_or("digest: no id")?;
            if !ids.insert(i128::from(id)) {
                return Err(format!("digest: id {id:?} twice"));
            }
            if !(0..1i128 << 31).contains(&i128::from(id)) {
                return Err(format!("digest: id {id:?} out of range"));
            }
            let want = of.iter().find(|(k, _)| k.as_integer() == Some(id)).map(|(_, v)| v.clone());
            let have = Sha256::digest(enc(it)).to_vec();
            let same = match want {
                Some(Cbor::Bytes(b)) => b == have,
                Some(Cbor::Array(a)) => {
                    a.iter().map(|x| x.as_integer().map_or(-1, i128::from)).eq(have.iter().map(|b| i128::from(*b)))
                }
                _ => false,
            };
            if !same {
                return Err(format!("digest: item {id:?} does not match its digest"));
            }
            let salt = f("random", "random").unwrap_or(Cbor::Null);
            let long = match &salt {
                Cbor::Bytes(b) => b.len(),
                Cbor::Array(a) => a.len(),
                _ => 0,
            };
            if long < 16 {
                return Err(format!("digest: salt of {long} bytes"));
            }
            if !salts.insert(enc(&salt)) {
                return Err("digest: one salt for two items".into());
            }
            let name = f("elementIdentifier", "element_identifier");
            let name = name.as_ref().and_then(Cbor::as_text).ok_or("form: no element name")?.to_string();
            let val = f("elementValue", "element_value").ok_or("form: no element value")?;
            let val: Value = val.deserialized().map_err(|e| format!("claims: {e}"))?;
            if got.entry(ns.clone()).or_default().insert(name.clone(), val).is_some() {
                return Err(format!("claims: {name} twice"));
            }
        }
        if ids.len() != of.len() {
            return Err(format!("digest: {} digests for {} items", of.len(), ids.len()));
        }
    }
    let mut want = json!(claims);
    want.as_object_mut().map(|o| o.retain(|_, v| v.as_object().is_some_and(|x| !x.is_empty())));
    if json!(got) != want {
        return Err(format!("claims: {} instead of {want}", json!(got)));
    }
    Ok(())
}
