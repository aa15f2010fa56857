//! Written by tools/mkmacros.py. Requests built with the request macros, each held against the same JSON.

#![allow(clippy::all, unused_variables)]
#![cfg_attr(rustfmt, rustfmt::skip)]

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_macros::{authorization_request, create_offer_request, credential_request, token_request};

use crate::exec::{pick, with};

const CONST_A: &str = "http://const.sim/?a=b&c";

struct Inner { name: String, flag: bool }
struct Vars { a: String, inner: Inner }
fn pass(s: &str) -> String { s.to_string() }

/// Does the macro's request equal the one its JSON decodes to? Hands back what goes on the wire.
fn same<T: Serialize + DeserializeOwned>(name: &str, made: T, v: &Value) -> Option<Value> {
    let made = serde_json::to_value(&made).ok()?;
    match serde_json::from_value::<T>(v.clone()) {
        Ok(read) => {
            let read = serde_json::to_value(&read).ok()?;
            with(|w| {
                w.x.count("macro.compared");
                if made != read {
                    w.violate(&["C16"], format!("macro:{name}"), format!("the macro makes {made}, the JSON {v} means {read}"));
                }
            });
        }
        Err(e) => with(|w| {
            w.x.count("macro.undecodable");
            w.x.ev(|| format!("{name}: {v} is not a request: {e}"));
        }),
    }
    Some(made)
}

fn text() -> String {
    const ODD: &[&str] = &["plain", "", " a b ", "\"q\"", "a=b&c=d", "é%20+", "{\"a\":1}", "null", "12", "\\", "x.to_string()", "#k", "line\nline", "http://x.sim/?q=1#f"];
    ODD[pick(ODD.len() as u32) as usize].to_string()
}

fn s(v: &Value, k: &str) -> String { v[k].as_str().unwrap_or_default().to_string() }
fn list(v: &Value) -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect() }

fn offer_0(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = create_offer_request!({"credential_configuration_ids": [t3.clone(), "é%20+", "{\"a\":1}"], "send_type": "ByVal", "subject_id": "", "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "tx_code_required": false, "credential_issuer": t0.clone(),}); let v = json!({"send_type": "ByVal", "subject_id": "", "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_issuer": t0, "credential_configuration_ids": [t3, "é%20+", "{\"a\":1}"], "tx_code_required": false}); same("offer", r, &v); }
        1 => { let r = create_offer_request!({"tx_code_required": false, "credential_configuration_ids": [" a b ", t0.clone()], "subject_id": t3.clone(), "grant_types": ["authorization_code"], "credential_issuer": String::from(v2), "send_type": "ByRef",}); let v = json!({"credential_issuer": v2, "tx_code_required": false, "send_type": "ByRef", "credential_configuration_ids": [" a b ", t0], "subject_id": t3, "grant_types": ["authorization_code"]}); same("offer", r, &v); }
        2 => { let r = create_offer_request!({"credential_configuration_ids": [vars.a.clone(), pass(v0)], "tx_code_required": b0, "credential_issuer": t2.clone(), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"],}); let v = json!({"send_type": "ByVal", "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": [vars.a, v0], "credential_issuer": t2, "tx_code_required": b0}); same("offer", r, &v); }
        3 => { let r = create_offer_request!({"grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "send_type": "ByRef", "subject_id": String::from(v1), "credential_issuer": "é%20+", "tx_code_required": true, "credential_configuration_ids": [" a b "]}); let v = json!({"subject_id": v1, "credential_configuration_ids": [" a b "], "send_type": "ByRef", "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "tx_code_required": true, "credential_issuer": "é%20+"}); same("offer", r, &v); }
        4 => { let r = create_offer_request!({"send_type": "by_ref", "credential_configuration_ids": ["plain"], "credential_issuer": "a=b&c=d", "tx_code_required": true}); let v = json!({"credential_issuer": "a=b&c=d", "send_type": "ByRef", "tx_code_required": true, "credential_configuration_ids": ["plain"]}); same("offer", r, &v); }
        5 => { let r = create_offer_request!({"tx_code_required": true, "credential_issuer": &v2, "credential_configuration_ids": ["#k"], "send_type": "by_val"}); let v = json!({"credential_configuration_ids": ["#k"], "tx_code_required": true, "send_type": "ByVal", "credential_issuer": v2}); same("offer", r, &v); }
        6 => { let r = create_offer_request!({"send_type": vercre_issuer::SendType::ByVal, "subject_id": t1.clone(), "credential_issuer": v3, "credential_configuration_ids": ["#k", "null", " a b "]}); let v = json!({"tx_code_required": false, "credential_configuration_ids": ["#k", "null", " a b "], "send_type": "ByVal", "subject_id": t1, "credential_issuer": v3}); same("offer", r, &v); }
        7 => { let r = create_offer_request!({"send_type": "by_ref", "credential_configuration_ids": [t1.clone()], "grant_types": ["authorization_code"], "credential_issuer": "#k", "tx_code_required": b0}); let v = json!({"grant_types": ["authorization_code"], "send_type": "ByRef", "credential_configuration_ids": [t1], "credential_issuer": "#k", "tx_code_required": b0}); same("offer", r, &v); }
        8 => { let r = create_offer_request!({"credential_configuration_ids": [vars.a.clone(), "null"], "credential_issuer": vars.inner.name.clone(), "grant_types": ["authorization_code"]}); let v = json!({"send_type": "ByVal", "tx_code_required": false, "grant_types": ["authorization_code"], "credential_configuration_ids": [vars.a, "null"], "credential_issuer": vars.inner.name}); same("offer", r, &v); }
        9 => { let r = create_offer_request!({"tx_code_required": false, "subject_id": "é%20+", "credential_configuration_ids": [vars.a.clone(), "", pass(v2)], "grant_types": ["authorization_code"], "credential_issuer": vars.a.clone() + "x" + &t1}); let v = json!({"subject_id": "é%20+", "credential_configuration_ids": [vars.a, "", v2], "send_type": "ByVal", "credential_issuer": (vars.a.clone() + "x" + &t1), "tx_code_required": false, "grant_types": ["authorization_code"]}); same("offer", r, &v); }
        _ => {}
    }
}

fn offer_1(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = create_offer_request!({"credential_issuer": "{\"a\":1}", "tx_code_required": b0, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "send_type": vercre_issuer::SendType::ByVal, "credential_configuration_ids": ["x.to_string()"]}); let v = json!({"tx_code_required": b0, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "credential_issuer": "{\"a\":1}", "send_type": "ByVal", "credential_configuration_ids": ["x.to_string()"]}); same("offer", r, &v); }
        1 => { let r = create_offer_request!({"credential_configuration_ids": [pass(v1), pass(v3), "a=b&c=d"], "credential_issuer": "12",}); let v = json!({"send_type": "ByVal", "tx_code_required": false, "credential_configuration_ids": [v1, v3, "a=b&c=d"], "credential_issuer": "12"}); same("offer", r, &v); }
        2 => { let r = create_offer_request!({"send_type": "ByRef", "subject_id": pass(v0), "credential_issuer": vars.inner.name.clone(), "tx_code_required": b0, "credential_configuration_ids": ["x.to_string()", vars.a.clone(), vars.a.clone()], "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}); let v = json!({"send_type": "ByRef", "tx_code_required": b0, "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "subject_id": v0, "credential_configuration_ids": ["x.to_string()", vars.a, vars.a], "credential_issuer": vars.inner.name}); same("offer", r, &v); }
        3 => { let r = create_offer_request!({"credential_issuer": pass(v3), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": [t3.clone(), t2.clone(), " a b "],}); let v = json!({"credential_configuration_ids": [t3, t2, " a b "], "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "tx_code_required": false, "send_type": "ByVal", "credential_issuer": v3}); same("offer", r, &v); }
        4 => { let r = create_offer_request!({"send_type": vercre_issuer::SendType::ByVal, "credential_issuer": vars.a.clone() + "x" + &t3, "tx_code_required": vars.inner.flag, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "credential_configuration_ids": [vars.a.clone()]}); let v = json!({"send_type": "ByVal", "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "tx_code_required": vars.inner.flag, "credential_issuer": (vars.a.clone() + "x" + &t3), "credential_configuration_ids": [vars.a]}); same("offer", r, &v); }
        5 => { let r = create_offer_request!({"credential_configuration_ids": [pass(v2), "http://x.sim/?q=1#f", "a=b&c=d"], "credential_issuer": pass(v2), "tx_code_required": true,}); let v = json!({"send_type": "ByVal", "credential_configuration_ids": [v2, "http://x.sim/?q=1#f", "a=b&c=d"], "tx_code_required": true, "credential_issuer": v2}); same("offer", r, &v); }
        6 => { let r = create_offer_request!({"grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_issuer": "null", "send_type": "by_ref", "tx_code_required": true, "credential_configuration_ids": ["CONST_A"]}); let v = json!({"send_type": "ByRef", "credential_issuer": "null", "tx_code_required": true, "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": ["CONST_A"]}); same("offer", r, &v); }
        7 => { let r = create_offer_request!({"credential_issuer": v2.to_string(), "tx_code_required": true, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "send_type": "ByRef", "credential_configuration_ids": [vars.a.clone(), t2.clone()]}); let v = json!({"tx_code_required": true, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_issuer": v2, "send_type": "ByRef", "credential_configuration_ids": [vars.a, t2]}); same("offer", r, &v); }
        8 => { let r = create_offer_request!({"credential_issuer": t0.clone(), "credential_configuration_ids": [pass(v2)], "tx_code_required": b0, "send_type": vercre_issuer::SendType::ByRef}); let v = json!({"tx_code_required": b0, "credential_configuration_ids": [v2], "send_type": "ByRef", "credential_issuer": t0}); same("offer", r, &v); }
        9 => { let r = create_offer_request!({"send_type": vercre_issuer::SendType::ByVal, "credential_configuration_ids": [t3.clone(), "a=b&c=d"], "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_issuer": v2, "tx_code_required": false}); let v = json!({"credential_issuer": v2, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "tx_code_required": false, "credential_configuration_ids": [t3, "a=b&c=d"], "send_type": "ByVal"}); same("offer", r, &v); }
        _ => {}
    }
}

fn offer_2(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = create_offer_request!({"credential_configuration_ids": [t1.clone(), "", pass(v0)], "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "credential_issuer": String::from(v0), "subject_id": v3,}); let v = json!({"send_type": "ByVal", "subject_id": v3, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "credential_configuration_ids": [t1, "", v0], "tx_code_required": false, "credential_issuer": v0}); same("offer", r, &v); }
        1 => { let r = create_offer_request!({"credential_issuer": String::from(v0), "grant_types": ["authorization_code"], "tx_code_required": vars.inner.flag, "send_type": vercre_issuer::SendType::ByRef, "credential_configuration_ids": [t3.clone(), "{\"a\":1}"]}); let v = json!({"tx_code_required": vars.inner.flag, "credential_configuration_ids": [t3, "{\"a\":1}"], "grant_types": ["authorization_code"], "send_type": "ByRef", "credential_issuer": v0}); same("offer", r, &v); }
        2 => { let r = create_offer_request!({"credential_issuer": v2, "credential_configuration_ids": [vars.a.clone()], "send_type": "ByRef", "tx_code_required": false,}); let v = json!({"send_type": "ByRef", "tx_code_required": false, "credential_configuration_ids": [vars.a], "credential_issuer": v2}); same("offer", r, &v); }
        3 => { let r = create_offer_request!({"credential_configuration_ids": [" a b "], "send_type": vercre_issuer::SendType::ByRef, "credential_issuer": pass(v1), "subject_id": t2.clone(), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "tx_code_required": false,}); let v = json!({"send_type": "ByRef", "credential_issuer": v1, "tx_code_required": false, "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": [" a b "], "subject_id": t2}); same("offer", r, &v); }
        4 => { let r = create_offer_request!({"grant_types": ["authorization_code"], "credential_configuration_ids": [pass(v2), "{\"a\":1}"], "tx_code_required": false, "credential_issuer": "\"q\""}); let v = json!({"grant_types": ["authorization_code"], "tx_code_required": false, "credential_issuer": "\"q\"", "credential_configuration_ids": [v2, "{\"a\":1}"], "send_type": "ByVal"}); same("offer", r, &v); }
        5 => { let r = create_offer_request!({"subject_id": "x.to_string()", "credential_issuer": " a b ", "grant_types": ["authorization_code"], "credential_configuration_ids": ["12", pass(v2)]}); let v = json!({"credential_issuer": " a b ", "grant_types": ["authorization_code"], "subject_id": "x.to_string()", "send_type": "ByVal", "tx_code_required": false, "credential_configuration_ids": ["12", v2]}); same("offer", r, &v); }
        6 => { let r = create_offer_request!({"credential_issuer": v2, "credential_configuration_ids": [t2.clone(), vars.a.clone(), vars.a.clone()], "subject_id": t1.clone(), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"],}); let v = json!({"grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "tx_code_required": false, "credential_configuration_ids": [t2, vars.a, vars.a], "send_type": "ByVal", "credential_issuer": v2, "subject_id": t1}); same("offer", r, &v); }
        7 => { let r = create_offer_request!({"send_type": vercre_issuer::SendType::ByRef, "credential_issuer": "\"q\"", "tx_code_required": b0, "subject_id": CONST_A, "credential_configuration_ids": ["null", t2.clone()],}); let v = json!({"subject_id": CONST_A, "credential_issuer": "\"q\"", "tx_code_required": b0, "credential_configuration_ids": ["null", t2], "send_type": "ByRef"}); same("offer", r, &v); }
        8 => { let r = create_offer_request!({"credential_issuer": vars.a.clone() + "x" + &t2, "subject_id": v1.to_string(), "send_type": vercre_issuer::SendType::ByRef, "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": ["{\"a\":1}"]}); let v = json!({"tx_code_required": false, "subject_id": v1, "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": ["{\"a\":1}"], "credential_issuer": (vars.a.clone() + "x" + &t2), "send_type": "ByRef"}); same("offer", r, &v); }
        9 => { let r = create_offer_request!({"credential_issuer": "plain", "tx_code_required": vars.inner.flag, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": ["12"],}); let v = json!({"credential_issuer": "plain", "credential_configuration_ids": ["12"], "tx_code_required": vars.inner.flag, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "send_type": "ByVal"}); same("offer", r, &v); }
        _ => {}
    }
}

fn offer_3(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = create_offer_request!({"send_type": "ByRef", "credential_issuer": &v1, "grant_types": ["authorization_code"], "credential_configuration_ids": ["12", "http://x.sim/?q=1#f"], "tx_code_required": b0}); let v = json!({"tx_code_required": b0, "credential_issuer": v1, "grant_types": ["authorization_code"], "send_type": "ByRef", "credential_configuration_ids": ["12", "http://x.sim/?q=1#f"]}); same("offer", r, &v); }
        1 => { let r = create_offer_request!({"grant_types": ["authorization_code"], "tx_code_required": vars.inner.flag, "credential_issuer": &v0, "credential_configuration_ids": ["a=b&c=d"], "subject_id": v3}); let v = json!({"send_type": "ByVal", "subject_id": v3, "tx_code_required": vars.inner.flag, "credential_issuer": v0, "grant_types": ["authorization_code"], "credential_configuration_ids": ["a=b&c=d"]}); same("offer", r, &v); }
        2 => { let r = create_offer_request!({"credential_issuer": &v0, "credential_configuration_ids": [pass(v0)], "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}); let v = json!({"credential_issuer": v0, "credential_configuration_ids": [v0], "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"], "tx_code_required": false, "send_type": "ByVal"}); same("offer", r, &v); }
        3 => { let r = create_offer_request!({"credential_issuer": v3.to_string(), "tx_code_required": false, "credential_configuration_ids": [pass(v2), "x.to_string()"],}); let v = json!({"credential_issuer": v3, "credential_configuration_ids": [v2, "x.to_string()"], "send_type": "ByVal", "tx_code_required": false}); same("offer", r, &v); }
        4 => { let r = create_offer_request!({"grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_issuer": pass(v3), "send_type": vercre_issuer::SendType::ByVal, "credential_configuration_ids": [t3.clone()],}); let v = json!({"grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": [t3], "tx_code_required": false, "credential_issuer": v3, "send_type": "ByVal"}); same("offer", r, &v); }
        5 => { let r = create_offer_request!({"tx_code_required": true, "credential_issuer": "CONST_A", "credential_configuration_ids": [pass(v2)], "send_type": "ByRef", "grant_types": ["authorization_code"],}); let v = json!({"tx_code_required": true, "credential_issuer": "CONST_A", "send_type": "ByRef", "credential_configuration_ids": [v2], "grant_types": ["authorization_code"]}); same("offer", r, &v); }
        6 => { let r = create_offer_request!({"tx_code_required": vars.inner.flag, "grant_types": ["authorization_code"], "credential_issuer": "\"q\"", "send_type": "ByRef", "credential_configuration_ids": [vars.a.clone()],}); let v = json!({"credential_issuer": "\"q\"", "send_type": "ByRef", "credential_configuration_ids": [vars.a], "tx_code_required": vars.inner.flag, "grant_types": ["authorization_code"]}); same("offer", r, &v); }
        7 => { let r = create_offer_request!({"credential_configuration_ids": [""], "subject_id": "null", "credential_issuer": v1}); let v = json!({"subject_id": "null", "credential_configuration_ids": [""], "send_type": "ByVal", "tx_code_required": false, "credential_issuer": v1}); same("offer", r, &v); }
        8 => { let r = create_offer_request!({"send_type": vercre_issuer::SendType::ByVal, "subject_id": String::from(v3), "credential_issuer": pass(v2), "credential_configuration_ids": [vars.a.clone(), "a=b&c=d", " a b "], "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"],}); let v = json!({"credential_issuer": v2, "subject_id": v3, "send_type": "ByVal", "tx_code_required": false, "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"], "credential_configuration_ids": [vars.a, "a=b&c=d", " a b "]}); same("offer", r, &v); }
        9 => { let r = create_offer_request!({"grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"], "send_type": vercre_issuer::SendType::ByVal, "credential_configuration_ids": [pass(v1)], "credential_issuer": t2.clone(), "tx_code_required": false}); let v = json!({"credential_issuer": t2, "tx_code_required": false, "send_type": "ByVal", "credential_configuration_ids": [v1], "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}); same("offer", r, &v); }
        _ => {}
    }
}

fn authorization_0(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"wallet_issuer": pass(v3), "authorization_details": [{"credential_definition": {"credentialSubject": {}, "type": ["é%20+", t3.clone(), vars.a.clone()],}, "type": "openid_credential", "format": "jwt_vc_json",}], "credential_issuer": CONST_A, "response_type": "code", "resource": &v1, "state": "12", "code_challenge": pass(v1), "subject_id": " a b ", "user_hint": vars.a.clone() + "x" + &t0, "client_id": v1, "code_challenge_method": "S256",}); let v = json!({"wallet_issuer": v3, "authorization_details": [{"credential_definition": {"credentialSubject": {}, "type": ["é%20+", t3, vars.a]}, "type": "openid_credential", "format": "jwt_vc_json"}], "credential_issuer": CONST_A, "response_type": "code", "resource": v1, "state": "12", "code_challenge": v1, "subject_id": " a b ", "user_hint": (vars.a.clone() + "x" + &t0), "client_id": v1, "code_challenge_method": "S256"}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"code_challenge": v0, "subject_id": "null", "credential_issuer": pass(v1), "code_challenge_method": "S256", "client_id": t2.clone(), "redirect_uri": &v0, "response_type": "code",}); let v = json!({"code_challenge": v0, "subject_id": "null", "credential_issuer": v1, "code_challenge_method": "S256", "client_id": t2, "redirect_uri": v0, "response_type": "code"}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"redirect_uri": &v1, "credential_issuer": vars.inner.name.clone(), "response_type": "code", "user_hint": CONST_A, "subject_id": "null", "client_id": &v0, "code_challenge": &v3, "code_challenge_method": "S256", "resource": String::from(v1), "wallet_issuer": String::from(v3)}); let v = json!({"redirect_uri": v1, "credential_issuer": vars.inner.name, "response_type": "code", "user_hint": CONST_A, "subject_id": "null", "client_id": v0, "code_challenge": v3, "code_challenge_method": "S256", "resource": v1, "wallet_issuer": v3}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"code_challenge_method": "S256", "issuer_state": pass(v3), "response_type": "code", "client_id": String::from(v0), "subject_id": vars.a.clone() + "x" + &t3, "credential_issuer": vars.inner.name.clone(), "authorization_details": [{"locations": ["#k", "plain"], "credential_configuration_id": "\"q\"", "type": "openid_credential",}, {"credential_definition": {"type": l0.clone(),}, "format": "jwt_vc_json", "type": "openid_credential", "locations": ["a=b&c=d", "null"]}, {"type": "openid_credential", "credential_configuration_id": "a=b&c=d", "credential_definition": {"@context": ["null", ""],},}], "code_challenge": t3.clone()}); let v = json!({"code_challenge_method": "S256", "issuer_state": v3, "response_type": "code", "client_id": v0, "subject_id": (vars.a.clone() + "x" + &t3), "credential_issuer": vars.inner.name, "authorization_details": [{"locations": ["#k", "plain"], "credential_configuration_id": "\"q\"", "type": "openid_credential"}, {"credential_definition": {"type": l0}, "format": "jwt_vc_json", "type": "openid_credential", "locations": ["a=b&c=d", "null"]}, {"type": "openid_credential", "credential_configuration_id": "a=b&c=d", "credential_definition": {"@context": ["null", ""]}}], "code_challenge": t3}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"response_type": "code", "scope": v3, "code_challenge": pass(v0), "credential_issuer": "{\"a\":1}", "code_challenge_method": "S256", "authorization_details": [{"locations": ["CONST_A", "é%20+"], "credential_definition": {"type": [pass(v1)], "credentialSubject": {"given_name": {}},}, "format": "jwt_vc_json", "type": "openid_credential"}], "client_id": String::from(v1), "subject_id": vars.a.clone() + "x" + &t2,}); let v = json!({"response_type": "code", "scope": v3, "code_challenge": v0, "credential_issuer": "{\"a\":1}", "code_challenge_method": "S256", "authorization_details": [{"locations": ["CONST_A", "é%20+"], "credential_definition": {"type": [v1], "credentialSubject": {"given_name": {}}}, "format": "jwt_vc_json", "type": "openid_credential"}], "client_id": v1, "subject_id": (vars.a.clone() + "x" + &t2)}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"credential_issuer": "12", "response_type": "code", "wallet_issuer": String::from(v1), "subject_id": pass(v0), "code_challenge_method": "S256", "authorization_details": [{"credential_definition": {"type": l0.clone(), "credentialSubject": {"org.iso.18013.5.1": {},}}, "type": "openid_credential", "format": "jwt_vc_json"}], "redirect_uri": v0, "code_challenge": t3.clone(), "client_id": t1.clone()}); let v = json!({"credential_issuer": "12", "response_type": "code", "wallet_issuer": v1, "subject_id": v0, "code_challenge_method": "S256", "authorization_details": [{"credential_definition": {"type": l0, "credentialSubject": {"org.iso.18013.5.1": {}}}, "type": "openid_credential", "format": "jwt_vc_json"}], "redirect_uri": v0, "code_challenge": t3, "client_id": t1}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"scope": vars.a.clone() + "x" + &t0, "response_type": "code", "credential_issuer": t0.clone(), "redirect_uri": &v1, "state": pass(v3), "code_challenge_method": "S256", "resource": pass(v1), "wallet_issuer": &v2, "subject_id": &v1, "client_id": t2.clone(), "user_hint": vars.inner.name.clone(), "code_challenge": pass(v1)}); let v = json!({"scope": (vars.a.clone() + "x" + &t0), "response_type": "code", "credential_issuer": t0, "redirect_uri": v1, "state": v3, "code_challenge_method": "S256", "resource": v1, "wallet_issuer": v2, "subject_id": v1, "client_id": t2, "user_hint": vars.inner.name, "code_challenge": v1}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"authorization_details": [{"credential_configuration_id": "é%20+", "type": "openid_credential", "credential_definition": {"credentialSubject": {"x y": {"email": {}, "x y": {}}},}}, {"credential_configuration_id": t2.clone(), "credential_definition": {"@context": [t0.clone()], "type": l0.clone(), "credentialSubject": {"org.iso.18013.5.1": {}, "x y": {}, "street": {}},}, "type": "openid_credential",}], "subject_id": vars.inner.name.clone(), "user_hint": pass(v0), "code_challenge": "plain", "credential_issuer": v3.to_string(), "scope": vars.inner.name.clone(), "response_type": "code", "client_id": vars.a.clone() + "x" + &t3, "code_challenge_method": "S256",}); let v = json!({"authorization_details": [{"credential_configuration_id": "é%20+", "type": "openid_credential", "credential_definition": {"credentialSubject": {"x y": {"email": {}, "x y": {}}}}}, {"credential_configuration_id": t2, "credential_definition": {"@context": [t0], "type": l0, "credentialSubject": {"org.iso.18013.5.1": {}, "x y": {}, "street": {}}}, "type": "openid_credential"}], "subject_id": vars.inner.name, "user_hint": v0, "code_challenge": "plain", "credential_issuer": v3, "scope": vars.inner.name, "response_type": "code", "client_id": (vars.a.clone() + "x" + &t3), "code_challenge_method": "S256"}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"wallet_issuer": String::from(v3), "code_challenge": v1.to_string(), "resource": CONST_A, "subject_id": &v3, "authorization_details": [{"credential_configuration_id": "x.to_string()", "type": "openid_credential",}, {"type": "openid_credential", "credential_definition": {"credentialSubject": {"org.iso.18013.5.1": {}, "family_name": {"mandatory": false},}, "type": ["\"q\"", pass(v1)]}, "credential_configuration_id": t3.clone(),}], "client_id": t0.clone(), "response_type": "code", "credential_issuer": v0, "code_challenge_method": "S256", "scope": "a=b&c=d"}); let v = json!({"wallet_issuer": v3, "code_challenge": v1, "resource": CONST_A, "subject_id": v3, "authorization_details": [{"credential_configuration_id": "x.to_string()", "type": "openid_credential"}, {"type": "openid_credential", "credential_definition": {"credentialSubject": {"org.iso.18013.5.1": {}, "family_name": {"mandatory": false}}, "type": ["\"q\"", v1]}, "credential_configuration_id": t3}], "client_id": t0, "response_type": "code", "credential_issuer": v0, "code_challenge_method": "S256", "scope": "a=b&c=d"}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"code_challenge": CONST_A, "state": v3.to_string(), "authorization_details": [{"claims": {"x y": {"mandatory": true}}, "type": "openid_credential", "locations": ["http://x.sim/?q=1#f", " a b "], "credential_configuration_id": "12",}], "wallet_issuer": vars.a.clone() + "x" + &t3, "resource": "{\"a\":1}", "client_id": t0.clone(), "subject_id": "x.to_string()", "code_challenge_method": "S256", "response_type": "code", "credential_issuer": &v2}); let v = json!({"code_challenge": CONST_A, "state": v3, "authorization_details": [{"claims": {"x y": {"mandatory": true}}, "type": "openid_credential", "locations": ["http://x.sim/?q=1#f", " a b "], "credential_configuration_id": "12"}], "wallet_issuer": (vars.a.clone() + "x" + &t3), "resource": "{\"a\":1}", "client_id": t0, "subject_id": "x.to_string()", "code_challenge_method": "S256", "response_type": "code", "credential_issuer": v2}); same("authorization", r, &v); }
        _ => {}
    }
}

fn authorization_1(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"code_challenge": t1.clone(), "resource": CONST_A, "user_hint": &v1, "code_challenge_method": "S256", "authorization_details": [{"credential_configuration_id": pass(v1), "type": "openid_credential", "locations": ["http://x.sim/?q=1#f"]}], "redirect_uri": &v1, "subject_id": "é%20+", "credential_issuer": t2.clone(), "client_id": vars.inner.name.clone(), "response_type": "code"}); let v = json!({"code_challenge": t1, "resource": CONST_A, "user_hint": v1, "code_challenge_method": "S256", "authorization_details": [{"credential_configuration_id": v1, "type": "openid_credential", "locations": ["http://x.sim/?q=1#f"]}], "redirect_uri": v1, "subject_id": "é%20+", "credential_issuer": t2, "client_id": vars.inner.name, "response_type": "code"}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"code_challenge": "", "issuer_state": t3.clone(), "user_hint": &v0, "credential_issuer": pass(v2), "client_id": " a b ", "subject_id": CONST_A, "code_challenge_method": "S256", "response_type": "code", "scope": vars.a.clone() + "x" + &t2,}); let v = json!({"code_challenge": "", "issuer_state": t3, "user_hint": v0, "credential_issuer": v2, "client_id": " a b ", "subject_id": CONST_A, "code_challenge_method": "S256", "response_type": "code", "scope": (vars.a.clone() + "x" + &t2)}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"credential_issuer": t3.clone(), "resource": "{\"a\":1}", "issuer_state": pass(v3), "client_id": String::from(v0), "code_challenge": vars.inner.name.clone(), "scope": String::from(v1), "code_challenge_method": "S256", "wallet_issuer": "x.to_string()", "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"type": [vars.a.clone(), vars.a.clone(), "x.to_string()"], "credentialSubject": {"address": {}, "é": {"mandatory": b0,}},}, "type": "openid_credential"}], "subject_id": &v2,}); let v = json!({"credential_issuer": t3, "resource": "{\"a\":1}", "issuer_state": v3, "client_id": v0, "code_challenge": vars.inner.name, "scope": v1, "code_challenge_method": "S256", "wallet_issuer": "x.to_string()", "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"type": [vars.a, vars.a, "x.to_string()"], "credentialSubject": {"address": {}, "é": {"mandatory": b0}}}, "type": "openid_credential"}], "subject_id": v2}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"authorization_details": [{"credential_definition": {"credentialSubject": {"é": {}, "locality": {"value_type": "string",}}, "type": [t3.clone(), "x.to_string()", t0.clone()],}, "type": "openid_credential", "format": "jwt_vc_json"}, {"type": "openid_credential", "credential_configuration_id": pass(v0),}, {"credential_definition": {"@context": ["http://x.sim/?q=1#f"], "type": ["a=b&c=d"],}, "locations": ["CONST_A", vars.a.clone()], "credential_configuration_id": "#k", "type": "openid_credential",}], "credential_issuer": v0, "code_challenge_method": "S256", "code_challenge": vars.a.clone() + "x" + &t1, "resource": String::from(v1), "client_id": "", "state": "é%20+", "subject_id": "http://x.sim/?q=1#f", "user_hint": String::from(v0), "response_type": "code", "issuer_state": String::from(v3),}); let v = json!({"authorization_details": [{"credential_definition": {"credentialSubject": {"é": {}, "locality": {"value_type": "string"}}, "type": [t3, "x.to_string()", t0]}, "type": "openid_credential", "format": "jwt_vc_json"}, {"type": "openid_credential", "credential_configuration_id": v0}, {"credential_definition": {"@context": ["http://x.sim/?q=1#f"], "type": ["a=b&c=d"]}, "locations": ["CONST_A", vars.a], "credential_configuration_id": "#k", "type": "openid_credential"}], "credential_issuer": v0, "code_challenge_method": "S256", "code_challenge": (vars.a.clone() + "x" + &t1), "resource": v1, "client_id": "", "state": "é%20+", "subject_id": "http://x.sim/?q=1#f", "user_hint": v0, "response_type": "code", "issuer_state": v3}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"resource": CONST_A, "code_challenge_method": "S256", "client_id": pass(v1), "subject_id": String::from(v2), "authorization_details": [{"credential_definition": {"type": l0.clone(),}, "credential_configuration_id": t3.clone(), "type": "openid_credential"}, {"credential_definition": {"@context": [t1.clone(), vars.a.clone()], "credentialSubject": {"email": {},},}, "credential_configuration_id": "CONST_A", "type": "openid_credential"}, {"credential_definition": {"credentialSubject": {"x y": {"value_type": "number",}}, "type": [vars.a.clone()]}, "format": "jwt_vc_json", "type": "openid_credential", "locations": [t2.clone()]}], "credential_issuer": "", "code_challenge": v0.to_string(), "wallet_issuer": "null", "response_type": "code",}); let v = json!({"resource": CONST_A, "code_challenge_method": "S256", "client_id": v1, "subject_id": v2, "authorization_details": [{"credential_definition": {"type": l0}, "credential_configuration_id": t3, "type": "openid_credential"}, {"credential_definition": {"@context": [t1, vars.a], "credentialSubject": {"email": {}}}, "credential_configuration_id": "CONST_A", "type": "openid_credential"}, {"credential_definition": {"credentialSubject": {"x y": {"value_type": "number"}}, "type": [vars.a]}, "format": "jwt_vc_json", "type": "openid_credential", "locations": [t2]}], "credential_issuer": "", "code_challenge": v0, "wallet_issuer": "null", "response_type": "code"}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"response_type": "code", "credential_issuer": v3.to_string(), "scope": v2, "client_id": pass(v3), "code_challenge_method": "S256", "subject_id": "CONST_A", "code_challenge": vars.inner.name.clone(),}); let v = json!({"response_type": "code", "credential_issuer": v3, "scope": v2, "client_id": v3, "code_challenge_method": "S256", "subject_id": "CONST_A", "code_challenge": vars.inner.name}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"state": v2.to_string(), "code_challenge": String::from(v1), "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"email": {}, "a-b": {}, "family_name": {},}, "type": ["\"q\"", "{\"a\":1}"]}, "type": "openid_credential"}, {"format": "jwt_vc_json", "credential_definition": {"type": l0.clone(), "credentialSubject": {"org.iso.18013.5.1": {}, "family_name": {"given_name": {"mandatory": true,}}},}, "type": "openid_credential",}, {"locations": ["#k", vars.a.clone()], "type": "openid_credential", "credential_definition": {"type": [pass(v3), vars.a.clone(), "CONST_A"], "credentialSubject": {"street": {"address": {}}, "address": {"locality": {"locality": {}, "x y": {},}, "street": {"address": {}}, "a-b": {"address": {},},}, "é": {}}}, "credential_configuration_id": "a=b&c=d",}], "redirect_uri": &v3, "credential_issuer": CONST_A, "subject_id": pass(v2), "client_id": "plain", "code_challenge_method": "S256",}); let v = json!({"state": v2, "code_challenge": v1, "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"email": {}, "a-b": {}, "family_name": {}}, "type": ["\"q\"", "{\"a\":1}"]}, "type": "openid_credential"}, {"format": "jwt_vc_json", "credential_definition": {"type": l0, "credentialSubject": {"org.iso.18013.5.1": {}, "family_name": {"given_name": {"mandatory": true}}}}, "type": "openid_credential"}, {"locations": ["#k", vars.a], "type": "openid_credential", "credential_definition": {"type": [v3, vars.a, "CONST_A"], "credentialSubject": {"street": {"address": {}}, "address": {"locality": {"locality": {}, "x y": {}}, "street": {"address": {}}, "a-b": {"address": {}}}, "é": {}}}, "credential_configuration_id": "a=b&c=d"}], "redirect_uri": v3, "credential_issuer": CONST_A, "subject_id": v2, "client_id": "plain", "code_challenge_method": "S256"}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"client_id": v3.to_string(), "authorization_details": [{"credential_configuration_id": t3.clone(), "type": "openid_credential", "claims": {"a-b": {"value_type": "string",}, "street": {}, "email": {"value_type": "image",}},}], "response_type": "code", "subject_id": v1, "code_challenge": v2, "issuer_state": CONST_A, "code_challenge_method": "S256", "state": pass(v0), "credential_issuer": v1.to_string(),}); let v = json!({"client_id": v3, "authorization_details": [{"credential_configuration_id": t3, "type": "openid_credential", "claims": {"a-b": {"value_type": "string"}, "street": {}, "email": {"value_type": "image"}}}], "response_type": "code", "subject_id": v1, "code_challenge": v2, "issuer_state": CONST_A, "code_challenge_method": "S256", "state": v0, "credential_issuer": v1}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"redirect_uri": vars.inner.name.clone(), "code_challenge_method": "S256", "code_challenge": v1.to_string(), "credential_issuer": String::from(v3), "client_id": vars.inner.name.clone(), "subject_id": v2.to_string(), "user_hint": pass(v1), "authorization_details": [{"credential_definition": {"credentialSubject": {"street": {"street": {"mandatory": false}, "é": {"value_type": "string"}, "given_name": {"locality": {}, "é": {"value_type": "string"}}},}, "@context": [vars.a.clone()], "type": l0.clone()}, "type": "openid_credential", "format": "jwt_vc_json"}], "resource": vars.a.clone() + "x" + &t3, "response_type": "code", "state": "{\"a\":1}", "wallet_issuer": t1.clone(), "issuer_state": t2.clone(),}); let v = json!({"redirect_uri": vars.inner.name, "code_challenge_method": "S256", "code_challenge": v1, "credential_issuer": v3, "client_id": vars.inner.name, "subject_id": v2, "user_hint": v1, "authorization_details": [{"credential_definition": {"credentialSubject": {"street": {"street": {"mandatory": false}, "é": {"value_type": "string"}, "given_name": {"locality": {}, "é": {"value_type": "string"}}}}, "@context": [vars.a], "type": l0}, "type": "openid_credential", "format": "jwt_vc_json"}], "resource": (vars.a.clone() + "x" + &t3), "response_type": "code", "state": "{\"a\":1}", "wallet_issuer": t1, "issuer_state": t2}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"code_challenge_method": "S256", "resource": vars.a.clone() + "x" + &t3, "redirect_uri": &v2, "state": pass(v1), "credential_issuer": "é%20+", "code_challenge": vars.inner.name.clone(), "response_type": "code", "subject_id": pass(v2), "client_id": pass(v0), "authorization_details": [{"format": "jwt_vc_json", "locations": [t1.clone(), "a=b&c=d"], "type": "openid_credential", "credential_definition": {"type": l0.clone()}}], "wallet_issuer": String::from(v2)}); let v = json!({"code_challenge_method": "S256", "resource": (vars.a.clone() + "x" + &t3), "redirect_uri": v2, "state": v1, "credential_issuer": "é%20+", "code_challenge": vars.inner.name, "response_type": "code", "subject_id": v2, "client_id": v0, "authorization_details": [{"format": "jwt_vc_json", "locations": [t1, "a=b&c=d"], "type": "openid_credential", "credential_definition": {"type": l0}}], "wallet_issuer": v2}); same("authorization", r, &v); }
        _ => {}
    }
}

fn authorization_2(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"response_type": "code", "code_challenge_method": "S256", "state": vars.inner.name.clone(), "code_challenge": v3.to_string(), "user_hint": "a=b&c=d", "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {"locality": {}, "a-b": {"email": {"mandatory": false,}, "é": {"a-b": {}},}, "family_name": {},},}, "locations": [" a b ", "CONST_A"], "credential_configuration_id": ""}, {"claims": {"email": {"mandatory": b0,},}, "type": "openid_credential", "locations": [t0.clone(), "#k"], "credential_configuration_id": "plain"}], "subject_id": pass(v3), "client_id": v3.to_string(), "credential_issuer": &v1,}); let v = json!({"response_type": "code", "code_challenge_method": "S256", "state": vars.inner.name, "code_challenge": v3, "user_hint": "a=b&c=d", "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {"locality": {}, "a-b": {"email": {"mandatory": false}, "é": {"a-b": {}}}, "family_name": {}}}, "locations": [" a b ", "CONST_A"], "credential_configuration_id": ""}, {"claims": {"email": {"mandatory": b0}}, "type": "openid_credential", "locations": [t0, "#k"], "credential_configuration_id": "plain"}], "subject_id": v3, "client_id": v3, "credential_issuer": v1}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"scope": "12", "wallet_issuer": vars.a.clone() + "x" + &t0, "authorization_details": [{"credential_definition": {"@context": ["plain", pass(v1)]}, "type": "openid_credential", "credential_configuration_id": vars.a.clone()}], "code_challenge": &v0, "subject_id": CONST_A, "state": v1, "issuer_state": String::from(v2), "code_challenge_method": "S256", "redirect_uri": String::from(v3), "credential_issuer": pass(v0), "client_id": String::from(v3), "response_type": "code"}); let v = json!({"scope": "12", "wallet_issuer": (vars.a.clone() + "x" + &t0), "authorization_details": [{"credential_definition": {"@context": ["plain", v1]}, "type": "openid_credential", "credential_configuration_id": vars.a}], "code_challenge": v0, "subject_id": CONST_A, "state": v1, "issuer_state": v2, "code_challenge_method": "S256", "redirect_uri": v3, "credential_issuer": v0, "client_id": v3, "response_type": "code"}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"client_id": vars.inner.name.clone(), "subject_id": t0.clone(), "issuer_state": v2.to_string(), "credential_issuer": v0.to_string(), "authorization_details": [{"credential_definition": {"type": l0.clone(), "@context": ["x.to_string()"], "credentialSubject": {"given_name": {}, "address": {"value_type": "string",},}}, "type": "openid_credential", "credential_configuration_id": t2.clone(),}, {"type": "openid_credential", "locations": [t2.clone(), "x.to_string()"], "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"a-b": {}}, "type": l0.clone()}}], "code_challenge": v2, "code_challenge_method": "S256", "wallet_issuer": CONST_A, "response_type": "code"}); let v = json!({"client_id": vars.inner.name, "subject_id": t0, "issuer_state": v2, "credential_issuer": v0, "authorization_details": [{"credential_definition": {"type": l0, "@context": ["x.to_string()"], "credentialSubject": {"given_name": {}, "address": {"value_type": "string"}}}, "type": "openid_credential", "credential_configuration_id": t2}, {"type": "openid_credential", "locations": [t2, "x.to_string()"], "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"a-b": {}}, "type": l0}}], "code_challenge": v2, "code_challenge_method": "S256", "wallet_issuer": CONST_A, "response_type": "code"}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"redirect_uri": "null", "response_type": "code", "code_challenge_method": "S256", "client_id": &v0, "subject_id": t2.clone(), "code_challenge": String::from(v2), "authorization_details": [{"type": "openid_credential", "locations": [" a b ", t0.clone()], "format": "jwt_vc_json", "credential_definition": {"type": ["12"]}}], "credential_issuer": "é%20+", "user_hint": v1.to_string(), "issuer_state": vars.a.clone() + "x" + &t3,}); let v = json!({"redirect_uri": "null", "response_type": "code", "code_challenge_method": "S256", "client_id": v0, "subject_id": t2, "code_challenge": v2, "authorization_details": [{"type": "openid_credential", "locations": [" a b ", t0], "format": "jwt_vc_json", "credential_definition": {"type": ["12"]}}], "credential_issuer": "é%20+", "user_hint": v1, "issuer_state": (vars.a.clone() + "x" + &t3)}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"response_type": "code", "credential_issuer": "{\"a\":1}", "user_hint": CONST_A, "state": &v0, "issuer_state": vars.a.clone() + "x" + &t3, "subject_id": CONST_A, "resource": &v2, "authorization_details": [{"claims": {}, "locations": ["", pass(v1)], "credential_configuration_id": "#k", "type": "openid_credential"}, {"format": "jwt_vc_json", "credential_definition": {"type": ["#k", vars.a.clone()]}, "type": "openid_credential",}, {"credential_configuration_id": vars.a.clone(), "type": "openid_credential", "credential_definition": {"credentialSubject": {"é": {}, "a-b": {}, "street": {"value_type": "number"}}, "type": l0.clone(),},}], "client_id": pass(v1), "code_challenge": &v1, "code_challenge_method": "S256",}); let v = json!({"response_type": "code", "credential_issuer": "{\"a\":1}", "user_hint": CONST_A, "state": v0, "issuer_state": (vars.a.clone() + "x" + &t3), "subject_id": CONST_A, "resource": v2, "authorization_details": [{"claims": {}, "locations": ["", v1], "credential_configuration_id": "#k", "type": "openid_credential"}, {"format": "jwt_vc_json", "credential_definition": {"type": ["#k", vars.a]}, "type": "openid_credential"}, {"credential_configuration_id": vars.a, "type": "openid_credential", "credential_definition": {"credentialSubject": {"é": {}, "a-b": {}, "street": {"value_type": "number"}}, "type": l0}}], "client_id": v1, "code_challenge": v1, "code_challenge_method": "S256"}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"credential_issuer": v0.to_string(), "user_hint": v0.to_string(), "client_id": pass(v1), "code_challenge_method": "S256", "state": v1.to_string(), "response_type": "code", "code_challenge": v1.to_string(), "scope": v1, "subject_id": "x.to_string()",}); let v = json!({"credential_issuer": v0, "user_hint": v0, "client_id": v1, "code_challenge_method": "S256", "state": v1, "response_type": "code", "code_challenge": v1, "scope": v1, "subject_id": "x.to_string()"}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"issuer_state": pass(v1), "response_type": "code", "client_id": vars.inner.name.clone(), "credential_issuer": v1, "code_challenge_method": "S256", "code_challenge": vars.inner.name.clone(), "authorization_details": [{"credential_configuration_id": pass(v0), "type": "openid_credential",}], "subject_id": v1.to_string()}); let v = json!({"issuer_state": v1, "response_type": "code", "client_id": vars.inner.name, "credential_issuer": v1, "code_challenge_method": "S256", "code_challenge": vars.inner.name, "authorization_details": [{"credential_configuration_id": v0, "type": "openid_credential"}], "subject_id": v1}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"issuer_state": vars.a.clone() + "x" + &t2, "authorization_details": [{"locations": [t1.clone()], "credential_configuration_id": vars.a.clone(), "type": "openid_credential",}], "credential_issuer": String::from(v2), "scope": "#k", "subject_id": v3, "code_challenge_method": "S256", "code_challenge": "plain", "client_id": t3.clone(), "user_hint": String::from(v0), "response_type": "code",}); let v = json!({"issuer_state": (vars.a.clone() + "x" + &t2), "authorization_details": [{"locations": [t1], "credential_configuration_id": vars.a, "type": "openid_credential"}], "credential_issuer": v2, "scope": "#k", "subject_id": v3, "code_challenge_method": "S256", "code_challenge": "plain", "client_id": t3, "user_hint": v0, "response_type": "code"}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"code_challenge": pass(v2), "subject_id": t2.clone(), "code_challenge_method": "S256", "redirect_uri": &v3, "user_hint": CONST_A, "client_id": vars.a.clone() + "x" + &t3, "resource": CONST_A, "credential_issuer": pass(v3), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": t3.clone(),}, {"format": "jwt_vc_json", "credential_definition": {"type": ["http://x.sim/?q=1#f"], "@context": ["#k"], "credentialSubject": {}}, "type": "openid_credential", "locations": [t2.clone(), "#k"],}], "response_type": "code",}); let v = json!({"code_challenge": v2, "subject_id": t2, "code_challenge_method": "S256", "redirect_uri": v3, "user_hint": CONST_A, "client_id": (vars.a.clone() + "x" + &t3), "resource": CONST_A, "credential_issuer": v3, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": t3}, {"format": "jwt_vc_json", "credential_definition": {"type": ["http://x.sim/?q=1#f"], "@context": ["#k"], "credentialSubject": {}}, "type": "openid_credential", "locations": [t2, "#k"]}], "response_type": "code"}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"client_id": v0.to_string(), "scope": "x.to_string()", "subject_id": String::from(v1), "code_challenge": CONST_A, "code_challenge_method": "S256", "wallet_issuer": &v2, "credential_issuer": v2.to_string(), "authorization_details": [{"credential_definition": {"@context": [" a b ", "null"], "type": l0.clone(), "credentialSubject": {"email": {}, "street": {"mandatory": false}, "address": {"mandatory": b0,}},}, "format": "jwt_vc_json", "type": "openid_credential"}, {"credential_definition": {"type": l0.clone(), "credentialSubject": {"x y": {}, "street": {"given_name": {"value_type": "number",}, "org.iso.18013.5.1": {"value_type": "string",}, "x y": {"a-b": {}, "x y": {"value_type": "string"}, "email": {"mandatory": b0,}},}}}, "type": "openid_credential", "credential_configuration_id": t3.clone(),}, {"locations": [t3.clone()], "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": l0.clone(), "credentialSubject": {"email": {"value_type": "string",}, "a-b": {},},},}], "response_type": "code", "issuer_state": pass(v1),}); let v = json!({"client_id": v0, "scope": "x.to_string()", "subject_id": v1, "code_challenge": CONST_A, "code_challenge_method": "S256", "wallet_issuer": v2, "credential_issuer": v2, "authorization_details": [{"credential_definition": {"@context": [" a b ", "null"], "type": l0, "credentialSubject": {"email": {}, "street": {"mandatory": false}, "address": {"mandatory": b0}}}, "format": "jwt_vc_json", "type": "openid_credential"}, {"credential_definition": {"type": l0, "credentialSubject": {"x y": {}, "street": {"given_name": {"value_type": "number"}, "org.iso.18013.5.1": {"value_type": "string"}, "x y": {"a-b": {}, "x y": {"value_type": "string"}, "email": {"mandatory": b0}}}}}, "type": "openid_credential", "credential_configuration_id": t3}, {"locations": [t3], "type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": l0, "credentialSubject": {"email": {"value_type": "string"}, "a-b": {}}}}], "response_type": "code", "issuer_state": v1}); same("authorization", r, &v); }
        _ => {}
    }
}

fn authorization_3(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"scope": &v1, "client_id": t0.clone(), "credential_issuer": CONST_A, "subject_id": pass(v1), "code_challenge_method": "S256", "resource": vars.inner.name.clone(), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "locations": ["http://x.sim/?q=1#f"], "credential_definition": {"type": l0.clone(), "@context": [t0.clone(), "null"]},}, {"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": l0.clone(), "credentialSubject": {"org.iso.18013.5.1": {"é": {}},},},}], "response_type": "code", "code_challenge": String::from(v0),}); let v = json!({"scope": v1, "client_id": t0, "credential_issuer": CONST_A, "subject_id": v1, "code_challenge_method": "S256", "resource": vars.inner.name, "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "locations": ["http://x.sim/?q=1#f"], "credential_definition": {"type": l0, "@context": [t0, "null"]}}, {"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": l0, "credentialSubject": {"org.iso.18013.5.1": {"é": {}}}}}], "response_type": "code", "code_challenge": v0}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"response_type": "code", "code_challenge": pass(v2), "issuer_state": &v2, "subject_id": "plain", "credential_issuer": pass(v2), "client_id": t3.clone(), "authorization_details": [{"locations": ["null"], "credential_definition": {"type": [""]}, "type": "openid_credential", "format": "jwt_vc_json",}, {"type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "credential_configuration_id": t1.clone(),}, {"claims": {"a-b": {"value_type": "string"}}, "credential_configuration_id": vars.a.clone(), "locations": [vars.a.clone(), "null"], "type": "openid_credential",}], "wallet_issuer": v0, "code_challenge_method": "S256", "scope": "CONST_A"}); let v = json!({"response_type": "code", "code_challenge": v2, "issuer_state": v2, "subject_id": "plain", "credential_issuer": v2, "client_id": t3, "authorization_details": [{"locations": ["null"], "credential_definition": {"type": [""]}, "type": "openid_credential", "format": "jwt_vc_json"}, {"type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "credential_configuration_id": t1}, {"claims": {"a-b": {"value_type": "string"}}, "credential_configuration_id": vars.a, "locations": [vars.a, "null"], "type": "openid_credential"}], "wallet_issuer": v0, "code_challenge_method": "S256", "scope": "CONST_A"}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"subject_id": CONST_A, "code_challenge_method": "S256", "state": v0, "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": [pass(v2), "CONST_A"],}}, {"credential_configuration_id": "", "type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "locations": [" a b "]}], "redirect_uri": vars.a.clone() + "x" + &t3, "issuer_state": v1, "code_challenge": vars.inner.name.clone(), "credential_issuer": CONST_A, "response_type": "code", "client_id": "{\"a\":1}",}); let v = json!({"subject_id": CONST_A, "code_challenge_method": "S256", "state": v0, "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": [v2, "CONST_A"]}}, {"credential_configuration_id": "", "type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "locations": [" a b "]}], "redirect_uri": (vars.a.clone() + "x" + &t3), "issuer_state": v1, "code_challenge": vars.inner.name, "credential_issuer": CONST_A, "response_type": "code", "client_id": "{\"a\":1}"}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"code_challenge_method": "S256", "client_id": v1.to_string(), "credential_issuer": v3.to_string(), "redirect_uri": &v1, "code_challenge": "12", "response_type": "code", "scope": vars.a.clone() + "x" + &t1, "subject_id": v1, "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}, "type": l0.clone()}}], "issuer_state": "plain"}); let v = json!({"code_challenge_method": "S256", "client_id": v1, "credential_issuer": v3, "redirect_uri": v1, "code_challenge": "12", "response_type": "code", "scope": (vars.a.clone() + "x" + &t1), "subject_id": v1, "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}, "type": l0}}], "issuer_state": "plain"}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"user_hint": String::from(v0), "code_challenge": "12", "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {"street": {"family_name": {}}, "locality": {}, "address": {"address": {"mandatory": false,}, "org.iso.18013.5.1": {},},}}, "credential_configuration_id": t1.clone(), "locations": ["CONST_A", pass(v3)]}], "credential_issuer": pass(v3), "subject_id": v3.to_string(), "response_type": "code", "code_challenge_method": "S256", "client_id": "CONST_A", "wallet_issuer": t3.clone()}); let v = json!({"user_hint": v0, "code_challenge": "12", "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {"street": {"family_name": {}}, "locality": {}, "address": {"address": {"mandatory": false}, "org.iso.18013.5.1": {}}}}, "credential_configuration_id": t1, "locations": ["CONST_A", v3]}], "credential_issuer": v3, "subject_id": v3, "response_type": "code", "code_challenge_method": "S256", "client_id": "CONST_A", "wallet_issuer": t3}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"code_challenge": pass(v1), "scope": String::from(v2), "state": "http://x.sim/?q=1#f", "authorization_details": [{"credential_definition": {"type": ["12", vars.a.clone(), vars.a.clone()], "credentialSubject": {}}, "type": "openid_credential", "format": "jwt_vc_json",}], "client_id": vars.a.clone() + "x" + &t2, "response_type": "code", "code_challenge_method": "S256", "subject_id": "plain", "credential_issuer": &v1,}); let v = json!({"code_challenge": v1, "scope": v2, "state": "http://x.sim/?q=1#f", "authorization_details": [{"credential_definition": {"type": ["12", vars.a, vars.a], "credentialSubject": {}}, "type": "openid_credential", "format": "jwt_vc_json"}], "client_id": (vars.a.clone() + "x" + &t2), "response_type": "code", "code_challenge_method": "S256", "subject_id": "plain", "credential_issuer": v1}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"response_type": "code", "code_challenge": v1, "code_challenge_method": "S256", "subject_id": String::from(v1), "wallet_issuer": CONST_A, "authorization_details": [{"credential_configuration_id": vars.a.clone(), "type": "openid_credential",}, {"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"é": {}, "email": {"street": {"address": {}, "locality": {}, "family_name": {"mandatory": true,}}},}, "type": l0.clone(),}, "type": "openid_credential",}, {"credential_definition": {"@context": [vars.a.clone(), t3.clone()], "type": l0.clone(), "credentialSubject": {"email": {"family_name": {}, "org.iso.18013.5.1": {"address": {}, "locality": {"mandatory": b0}, "x y": {},}, "x y": {},}},}, "format": "jwt_vc_json", "type": "openid_credential", "locations": ["{\"a\":1}"]}], "client_id": &v1, "scope": &v2, "credential_issuer": v0.to_string(), "state": "null", "issuer_state": t2.clone()}); let v = json!({"response_type": "code", "code_challenge": v1, "code_challenge_method": "S256", "subject_id": v1, "wallet_issuer": CONST_A, "authorization_details": [{"credential_configuration_id": vars.a, "type": "openid_credential"}, {"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"é": {}, "email": {"street": {"address": {}, "locality": {}, "family_name": {"mandatory": true}}}}, "type": l0}, "type": "openid_credential"}, {"credential_definition": {"@context": [vars.a, t3], "type": l0, "credentialSubject": {"email": {"family_name": {}, "org.iso.18013.5.1": {"address": {}, "locality": {"mandatory": b0}, "x y": {}}, "x y": {}}}}, "format": "jwt_vc_json", "type": "openid_credential", "locations": ["{\"a\":1}"]}], "client_id": v1, "scope": v2, "credential_issuer": v0, "state": "null", "issuer_state": t2}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"code_challenge": vars.inner.name.clone(), "response_type": "code", "resource": vars.a.clone() + "x" + &t0, "code_challenge_method": "S256", "authorization_details": [{"credential_configuration_id": "x.to_string()", "type": "openid_credential",}, {"type": "openid_credential", "credential_configuration_id": vars.a.clone(),}, {"credential_definition": {"credentialSubject": {}, "type": l0.clone(),}, "locations": ["{\"a\":1}", t2.clone()], "format": "jwt_vc_json", "type": "openid_credential"}], "subject_id": &v2, "credential_issuer": v2, "redirect_uri": t1.clone(), "client_id": String::from(v2),}); let v = json!({"code_challenge": vars.inner.name, "response_type": "code", "resource": (vars.a.clone() + "x" + &t0), "code_challenge_method": "S256", "authorization_details": [{"credential_configuration_id": "x.to_string()", "type": "openid_credential"}, {"type": "openid_credential", "credential_configuration_id": vars.a}, {"credential_definition": {"credentialSubject": {}, "type": l0}, "locations": ["{\"a\":1}", t2], "format": "jwt_vc_json", "type": "openid_credential"}], "subject_id": v2, "credential_issuer": v2, "redirect_uri": t1, "client_id": v2}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"code_challenge_method": "S256", "issuer_state": v0, "client_id": t1.clone(), "state": "plain", "response_type": "code", "subject_id": t0.clone(), "credential_issuer": String::from(v1), "wallet_issuer": String::from(v1), "authorization_details": [{"credential_definition": {"type": ["a=b&c=d", pass(v3), t0.clone()],}, "type": "openid_credential", "locations": [vars.a.clone(), "x.to_string()"], "format": "jwt_vc_json",}], "scope": v2.to_string(), "code_challenge": &v3,}); let v = json!({"code_challenge_method": "S256", "issuer_state": v0, "client_id": t1, "state": "plain", "response_type": "code", "subject_id": t0, "credential_issuer": v1, "wallet_issuer": v1, "authorization_details": [{"credential_definition": {"type": ["a=b&c=d", v3, t0]}, "type": "openid_credential", "locations": [vars.a, "x.to_string()"], "format": "jwt_vc_json"}], "scope": v2, "code_challenge": v3}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"credential_issuer": vars.inner.name.clone(), "state": "null", "client_id": v3.to_string(), "code_challenge_method": "S256", "subject_id": "CONST_A", "response_type": "code", "code_challenge": v2, "authorization_details": [{"credential_definition": {"@context": [vars.a.clone()], "credentialSubject": {"given_name": {"mandatory": true}, "email": {"street": {"mandatory": false,}, "é": {"family_name": {"value_type": "number",}, "x y": {"mandatory": b0,},},}, "family_name": {"given_name": {"value_type": "string",}, "org.iso.18013.5.1": {}},}, "type": [pass(v1), "", "http://x.sim/?q=1#f"]}, "type": "openid_credential", "format": "jwt_vc_json",}]}); let v = json!({"credential_issuer": vars.inner.name, "state": "null", "client_id": v3, "code_challenge_method": "S256", "subject_id": "CONST_A", "response_type": "code", "code_challenge": v2, "authorization_details": [{"credential_definition": {"@context": [vars.a], "credentialSubject": {"given_name": {"mandatory": true}, "email": {"street": {"mandatory": false}, "é": {"family_name": {"value_type": "number"}, "x y": {"mandatory": b0}}}, "family_name": {"given_name": {"value_type": "string"}, "org.iso.18013.5.1": {}}}, "type": [v1, "", "http://x.sim/?q=1#f"]}, "type": "openid_credential", "format": "jwt_vc_json"}]}); same("authorization", r, &v); }
        _ => {}
    }
}

fn authorization_4(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"authorization_details": [{"type": "openid_credential", "locations": ["\"q\"", "x.to_string()"], "credential_definition": {"type": ["CONST_A"],}, "credential_configuration_id": "CONST_A"}], "code_challenge_method": "S256", "subject_id": vars.a.clone() + "x" + &t2, "code_challenge": "a=b&c=d", "client_id": CONST_A, "state": vars.inner.name.clone(), "credential_issuer": CONST_A, "response_type": "code", "issuer_state": " a b "}); let v = json!({"authorization_details": [{"type": "openid_credential", "locations": ["\"q\"", "x.to_string()"], "credential_definition": {"type": ["CONST_A"]}, "credential_configuration_id": "CONST_A"}], "code_challenge_method": "S256", "subject_id": (vars.a.clone() + "x" + &t2), "code_challenge": "a=b&c=d", "client_id": CONST_A, "state": vars.inner.name, "credential_issuer": CONST_A, "response_type": "code", "issuer_state": " a b "}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"response_type": "code", "code_challenge": v3.to_string(), "user_hint": "CONST_A", "wallet_issuer": &v2, "code_challenge_method": "S256", "credential_issuer": v2, "resource": "http://x.sim/?q=1#f", "subject_id": pass(v3), "client_id": "plain", "scope": CONST_A}); let v = json!({"response_type": "code", "code_challenge": v3, "user_hint": "CONST_A", "wallet_issuer": v2, "code_challenge_method": "S256", "credential_issuer": v2, "resource": "http://x.sim/?q=1#f", "subject_id": v3, "client_id": "plain", "scope": CONST_A}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"code_challenge_method": "S256", "issuer_state": String::from(v0), "redirect_uri": String::from(v0), "subject_id": CONST_A, "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": l0.clone(), "credentialSubject": {},}, "format": "jwt_vc_json"}], "credential_issuer": "CONST_A", "wallet_issuer": v2, "response_type": "code", "client_id": &v1, "code_challenge": vars.a.clone() + "x" + &t3}); let v = json!({"code_challenge_method": "S256", "issuer_state": v0, "redirect_uri": v0, "subject_id": CONST_A, "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": l0, "credentialSubject": {}}, "format": "jwt_vc_json"}], "credential_issuer": "CONST_A", "wallet_issuer": v2, "response_type": "code", "client_id": v1, "code_challenge": (vars.a.clone() + "x" + &t3)}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"client_id": vars.a.clone() + "x" + &t2, "issuer_state": t0.clone(), "response_type": "code", "state": t3.clone(), "subject_id": "é%20+", "code_challenge_method": "S256", "user_hint": v2, "authorization_details": [{"credential_definition": {"@context": [vars.a.clone(), ""],}, "type": "openid_credential", "credential_configuration_id": "",}, {"type": "openid_credential", "credential_definition": {"type": l0.clone(), "credentialSubject": {},}, "format": "jwt_vc_json",}], "credential_issuer": v1.to_string(), "code_challenge": String::from(v1)}); let v = json!({"client_id": (vars.a.clone() + "x" + &t2), "issuer_state": t0, "response_type": "code", "state": t3, "subject_id": "é%20+", "code_challenge_method": "S256", "user_hint": v2, "authorization_details": [{"credential_definition": {"@context": [vars.a, ""]}, "type": "openid_credential", "credential_configuration_id": ""}, {"type": "openid_credential", "credential_definition": {"type": l0, "credentialSubject": {}}, "format": "jwt_vc_json"}], "credential_issuer": v1, "code_challenge": v1}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"code_challenge_method": "S256", "client_id": v3, "credential_issuer": vars.inner.name.clone(), "response_type": "code", "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "credential_configuration_id": pass(v2),}, {"credential_definition": {"credentialSubject": {}, "type": [pass(v0), "12", "#k"],}, "credential_configuration_id": t2.clone(), "type": "openid_credential",}, {"credential_configuration_id": t1.clone(), "type": "openid_credential", "locations": [pass(v2), t3.clone()],}], "code_challenge": t0.clone(), "subject_id": String::from(v2)}); let v = json!({"code_challenge_method": "S256", "client_id": v3, "credential_issuer": vars.inner.name, "response_type": "code", "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "credential_configuration_id": v2}, {"credential_definition": {"credentialSubject": {}, "type": [v0, "12", "#k"]}, "credential_configuration_id": t2, "type": "openid_credential"}, {"credential_configuration_id": t1, "type": "openid_credential", "locations": [v2, t3]}], "code_challenge": t0, "subject_id": v2}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"code_challenge": CONST_A, "response_type": "code", "credential_issuer": v1, "scope": v3, "subject_id": "a=b&c=d", "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": l0.clone()}, "locations": ["{\"a\":1}"]}, {"credential_definition": {"type": l0.clone(), "credentialSubject": {"email": {}, "locality": {"value_type": "number"}}}, "type": "openid_credential", "format": "jwt_vc_json",}, {"format": "jwt_vc_json", "credential_definition": {"type": l0.clone(),}, "type": "openid_credential",}], "state": t2.clone(), "client_id": "x.to_string()", "code_challenge_method": "S256", "user_hint": "é%20+",}); let v = json!({"code_challenge": CONST_A, "response_type": "code", "credential_issuer": v1, "scope": v3, "subject_id": "a=b&c=d", "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": l0}, "locations": ["{\"a\":1}"]}, {"credential_definition": {"type": l0, "credentialSubject": {"email": {}, "locality": {"value_type": "number"}}}, "type": "openid_credential", "format": "jwt_vc_json"}, {"format": "jwt_vc_json", "credential_definition": {"type": l0}, "type": "openid_credential"}], "state": t2, "client_id": "x.to_string()", "code_challenge_method": "S256", "user_hint": "é%20+"}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"wallet_issuer": vars.inner.name.clone(), "resource": t2.clone(), "code_challenge": v1, "issuer_state": t0.clone(), "code_challenge_method": "S256", "response_type": "code", "credential_issuer": &v1, "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": l0.clone(), "credentialSubject": {"locality": {"value_type": "number"}, "org.iso.18013.5.1": {"x y": {}, "é": {"mandatory": false}, "family_name": {"value_type": "string"}}, "street": {"email": {}, "family_name": {}, "x y": {"x y": {}}}}}, "credential_configuration_id": t3.clone()}, {"credential_definition": {"credentialSubject": {"street": {}, "address": {}}, "type": ["http://x.sim/?q=1#f", t3.clone()], "@context": ["12"]}, "type": "openid_credential", "format": "jwt_vc_json",}], "state": String::from(v3), "subject_id": vars.inner.name.clone(), "client_id": CONST_A}); let v = json!({"wallet_issuer": vars.inner.name, "resource": t2, "code_challenge": v1, "issuer_state": t0, "code_challenge_method": "S256", "response_type": "code", "credential_issuer": v1, "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": l0, "credentialSubject": {"locality": {"value_type": "number"}, "org.iso.18013.5.1": {"x y": {}, "é": {"mandatory": false}, "family_name": {"value_type": "string"}}, "street": {"email": {}, "family_name": {}, "x y": {"x y": {}}}}}, "credential_configuration_id": t3}, {"credential_definition": {"credentialSubject": {"street": {}, "address": {}}, "type": ["http://x.sim/?q=1#f", t3], "@context": ["12"]}, "type": "openid_credential", "format": "jwt_vc_json"}], "state": v3, "subject_id": vars.inner.name, "client_id": CONST_A}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"client_id": pass(v0), "code_challenge_method": "S256", "user_hint": v1, "resource": t3.clone(), "credential_issuer": vars.a.clone() + "x" + &t2, "subject_id": v1.to_string(), "response_type": "code", "code_challenge": CONST_A,}); let v = json!({"client_id": v0, "code_challenge_method": "S256", "user_hint": v1, "resource": t3, "credential_issuer": (vars.a.clone() + "x" + &t2), "subject_id": v1, "response_type": "code", "code_challenge": CONST_A}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"credential_issuer": pass(v0), "code_challenge": &v1, "scope": vars.inner.name.clone(), "subject_id": vars.inner.name.clone(), "state": pass(v3), "authorization_details": [{"credential_definition": {"credentialSubject": {"locality": {}, "é": {}, "family_name": {"email": {"value_type": "image",}, "x y": {}, "é": {"locality": {"value_type": "string"},}}}, "type": [vars.a.clone(), "é%20+", vars.a.clone()]}, "format": "jwt_vc_json", "type": "openid_credential"}, {"credential_definition": {"type": l0.clone(), "@context": [" a b "], "credentialSubject": {"é": {},},}, "type": "openid_credential", "format": "jwt_vc_json",}], "code_challenge_method": "S256", "user_hint": vars.inner.name.clone(), "response_type": "code", "client_id": pass(v0),}); let v = json!({"credential_issuer": v0, "code_challenge": v1, "scope": vars.inner.name, "subject_id": vars.inner.name, "state": v3, "authorization_details": [{"credential_definition": {"credentialSubject": {"locality": {}, "é": {}, "family_name": {"email": {"value_type": "image"}, "x y": {}, "é": {"locality": {"value_type": "string"}}}}, "type": [vars.a, "é%20+", vars.a]}, "format": "jwt_vc_json", "type": "openid_credential"}, {"credential_definition": {"type": l0, "@context": [" a b "], "credentialSubject": {"é": {}}}, "type": "openid_credential", "format": "jwt_vc_json"}], "code_challenge_method": "S256", "user_hint": vars.inner.name, "response_type": "code", "client_id": v0}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"code_challenge": pass(v0), "response_type": "code", "redirect_uri": v3.to_string(), "state": vars.inner.name.clone(), "wallet_issuer": v1.to_string(), "user_hint": "", "client_id": "12", "subject_id": pass(v0), "resource": CONST_A, "credential_issuer": vars.a.clone() + "x" + &t1, "code_challenge_method": "S256", "issuer_state": CONST_A}); let v = json!({"code_challenge": v0, "response_type": "code", "redirect_uri": v3, "state": vars.inner.name, "wallet_issuer": v1, "user_hint": "", "client_id": "12", "subject_id": v0, "resource": CONST_A, "credential_issuer": (vars.a.clone() + "x" + &t1), "code_challenge_method": "S256", "issuer_state": CONST_A}); same("authorization", r, &v); }
        _ => {}
    }
}

fn authorization_5(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"credential_issuer": v1, "wallet_issuer": String::from(v0), "client_id": String::from(v1), "response_type": "code", "subject_id": CONST_A, "code_challenge_method": "S256", "authorization_details": [{"locations": ["plain"], "type": "openid_credential", "credential_definition": {"credentialSubject": {"street": {"family_name": {"mandatory": true},}, "é": {}, "address": {"mandatory": b0}}, "type": ["12", vars.a.clone(), "null"],}, "format": "jwt_vc_json",}], "issuer_state": v3, "code_challenge": "",}); let v = json!({"credential_issuer": v1, "wallet_issuer": v0, "client_id": v1, "response_type": "code", "subject_id": CONST_A, "code_challenge_method": "S256", "authorization_details": [{"locations": ["plain"], "type": "openid_credential", "credential_definition": {"credentialSubject": {"street": {"family_name": {"mandatory": true}}, "é": {}, "address": {"mandatory": b0}}, "type": ["12", vars.a, "null"]}, "format": "jwt_vc_json"}], "issuer_state": v3, "code_challenge": ""}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"code_challenge": v1, "wallet_issuer": pass(v2), "client_id": "http://x.sim/?q=1#f", "code_challenge_method": "S256", "response_type": "code", "subject_id": pass(v0), "credential_issuer": &v1, "resource": pass(v2), "redirect_uri": v0,}); let v = json!({"code_challenge": v1, "wallet_issuer": v2, "client_id": "http://x.sim/?q=1#f", "code_challenge_method": "S256", "response_type": "code", "subject_id": v0, "credential_issuer": v1, "resource": v2, "redirect_uri": v0}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"response_type": "code", "credential_issuer": "null", "authorization_details": [{"type": "openid_credential", "credential_configuration_id": pass(v1), "locations": ["http://x.sim/?q=1#f"]}, {"type": "openid_credential", "credential_definition": {"credentialSubject": {},}, "credential_configuration_id": "\"q\""}], "subject_id": vars.a.clone() + "x" + &t1, "issuer_state": pass(v1), "code_challenge": t2.clone(), "code_challenge_method": "S256", "client_id": CONST_A, "state": CONST_A}); let v = json!({"response_type": "code", "credential_issuer": "null", "authorization_details": [{"type": "openid_credential", "credential_configuration_id": v1, "locations": ["http://x.sim/?q=1#f"]}, {"type": "openid_credential", "credential_definition": {"credentialSubject": {}}, "credential_configuration_id": "\"q\""}], "subject_id": (vars.a.clone() + "x" + &t1), "issuer_state": v1, "code_challenge": t2, "code_challenge_method": "S256", "client_id": CONST_A, "state": CONST_A}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"credential_issuer": pass(v0), "client_id": String::from(v3), "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": l0.clone(), "credentialSubject": {"family_name": {"mandatory": b0,}, "org.iso.18013.5.1": {"value_type": "image",}, "x y": {"value_type": "number"},},}}, {"credential_definition": {"credentialSubject": {"email": {}, "address": {}}}, "type": "openid_credential", "credential_configuration_id": t3.clone(),}], "resource": pass(v0), "scope": vars.inner.name.clone(), "wallet_issuer": v2, "subject_id": v2, "code_challenge": CONST_A, "code_challenge_method": "S256"}); let v = json!({"credential_issuer": v0, "client_id": v3, "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": l0, "credentialSubject": {"family_name": {"mandatory": b0}, "org.iso.18013.5.1": {"value_type": "image"}, "x y": {"value_type": "number"}}}}, {"credential_definition": {"credentialSubject": {"email": {}, "address": {}}}, "type": "openid_credential", "credential_configuration_id": t3}], "resource": v0, "scope": vars.inner.name, "wallet_issuer": v2, "subject_id": v2, "code_challenge": CONST_A, "code_challenge_method": "S256"}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"code_challenge_method": "S256", "scope": v2.to_string(), "code_challenge": v0, "authorization_details": [{"credential_configuration_id": "#k", "type": "openid_credential"}, {"format": "jwt_vc_json", "locations": [pass(v1), "a=b&c=d"], "type": "openid_credential", "credential_definition": {"credentialSubject": {}, "type": l0.clone()},}], "resource": CONST_A, "client_id": v2.to_string(), "redirect_uri": pass(v2), "response_type": "code", "credential_issuer": vars.inner.name.clone(), "subject_id": String::from(v2), "wallet_issuer": vars.inner.name.clone()}); let v = json!({"code_challenge_method": "S256", "scope": v2, "code_challenge": v0, "authorization_details": [{"credential_configuration_id": "#k", "type": "openid_credential"}, {"format": "jwt_vc_json", "locations": [v1, "a=b&c=d"], "type": "openid_credential", "credential_definition": {"credentialSubject": {}, "type": l0}}], "resource": CONST_A, "client_id": v2, "redirect_uri": v2, "response_type": "code", "credential_issuer": vars.inner.name, "subject_id": v2, "wallet_issuer": vars.inner.name}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"client_id": &v3, "scope": t3.clone(), "wallet_issuer": v1.to_string(), "state": pass(v1), "subject_id": CONST_A, "code_challenge": pass(v2), "redirect_uri": "x.to_string()", "credential_issuer": CONST_A, "response_type": "code", "issuer_state": "x.to_string()", "code_challenge_method": "S256",}); let v = json!({"client_id": v3, "scope": t3, "wallet_issuer": v1, "state": v1, "subject_id": CONST_A, "code_challenge": v2, "redirect_uri": "x.to_string()", "credential_issuer": CONST_A, "response_type": "code", "issuer_state": "x.to_string()", "code_challenge_method": "S256"}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"code_challenge_method": "S256", "code_challenge": pass(v0), "user_hint": t2.clone(), "wallet_issuer": "http://x.sim/?q=1#f", "response_type": "code", "subject_id": pass(v2), "credential_issuer": vars.inner.name.clone(), "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"type": [vars.a.clone(), "{\"a\":1}", "\"q\""]}, "type": "openid_credential"}, {"locations": [t1.clone()], "credential_definition": {"credentialSubject": {"org.iso.18013.5.1": {"mandatory": b0,}, "address": {"mandatory": true}, "locality": {"mandatory": false}}}, "type": "openid_credential", "credential_configuration_id": vars.a.clone(),}], "client_id": t3.clone(), "resource": vars.a.clone() + "x" + &t3,}); let v = json!({"code_challenge_method": "S256", "code_challenge": v0, "user_hint": t2, "wallet_issuer": "http://x.sim/?q=1#f", "response_type": "code", "subject_id": v2, "credential_issuer": vars.inner.name, "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"type": [vars.a, "{\"a\":1}", "\"q\""]}, "type": "openid_credential"}, {"locations": [t1], "credential_definition": {"credentialSubject": {"org.iso.18013.5.1": {"mandatory": b0}, "address": {"mandatory": true}, "locality": {"mandatory": false}}}, "type": "openid_credential", "credential_configuration_id": vars.a}], "client_id": t3, "resource": (vars.a.clone() + "x" + &t3)}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"client_id": "#k", "credential_issuer": &v1, "code_challenge": "x.to_string()", "response_type": "code", "code_challenge_method": "S256", "resource": v2, "subject_id": vars.inner.name.clone(), "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"x y": {"value_type": "number",}, "locality": {}}, "type": ["#k", t3.clone()],}}], "scope": "a=b&c=d",}); let v = json!({"client_id": "#k", "credential_issuer": v1, "code_challenge": "x.to_string()", "response_type": "code", "code_challenge_method": "S256", "resource": v2, "subject_id": vars.inner.name, "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"x y": {"value_type": "number"}, "locality": {}}, "type": ["#k", t3]}}], "scope": "a=b&c=d"}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"credential_issuer": &v2, "state": pass(v3), "issuer_state": vars.a.clone() + "x" + &t2, "resource": v0, "subject_id": v1.to_string(), "scope": t0.clone(), "wallet_issuer": CONST_A, "code_challenge_method": "S256", "code_challenge": vars.a.clone() + "x" + &t3, "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}, "type": l0.clone(),}, "type": "openid_credential"}], "client_id": vars.inner.name.clone(),}); let v = json!({"credential_issuer": v2, "state": v3, "issuer_state": (vars.a.clone() + "x" + &t2), "resource": v0, "subject_id": v1, "scope": t0, "wallet_issuer": CONST_A, "code_challenge_method": "S256", "code_challenge": (vars.a.clone() + "x" + &t3), "response_type": "code", "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}, "type": l0}, "type": "openid_credential"}], "client_id": vars.inner.name}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"wallet_issuer": vars.a.clone() + "x" + &t2, "subject_id": &v1, "code_challenge": v2.to_string(), "code_challenge_method": "S256", "scope": vars.inner.name.clone(), "user_hint": v0.to_string(), "issuer_state": CONST_A, "authorization_details": [{"credential_configuration_id": "null", "type": "openid_credential", "credential_definition": {"credentialSubject": {"address": {"mandatory": false}, "é": {"street": {"street": {}, "given_name": {},}, "é": {}, "locality": {},},},},}], "credential_issuer": t0.clone(), "response_type": "code", "client_id": &v1,}); let v = json!({"wallet_issuer": (vars.a.clone() + "x" + &t2), "subject_id": v1, "code_challenge": v2, "code_challenge_method": "S256", "scope": vars.inner.name, "user_hint": v0, "issuer_state": CONST_A, "authorization_details": [{"credential_configuration_id": "null", "type": "openid_credential", "credential_definition": {"credentialSubject": {"address": {"mandatory": false}, "é": {"street": {"street": {}, "given_name": {}}, "é": {}, "locality": {}}}}}], "credential_issuer": t0, "response_type": "code", "client_id": v1}); same("authorization", r, &v); }
        _ => {}
    }
}

fn authorization_6(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = authorization_request!({"redirect_uri": pass(v3), "code_challenge_method": "S256", "response_type": "code", "wallet_issuer": v0.to_string(), "state": "#k", "credential_issuer": t2.clone(), "subject_id": &v3, "code_challenge": "http://x.sim/?q=1#f", "issuer_state": "#k", "client_id": " a b "}); let v = json!({"redirect_uri": v3, "code_challenge_method": "S256", "response_type": "code", "wallet_issuer": v0, "state": "#k", "credential_issuer": t2, "subject_id": v3, "code_challenge": "http://x.sim/?q=1#f", "issuer_state": "#k", "client_id": " a b "}); same("authorization", r, &v); }
        1 => { let r = authorization_request!({"code_challenge": pass(v1), "response_type": "code", "user_hint": v1.to_string(), "client_id": v2, "wallet_issuer": t2.clone(), "credential_issuer": CONST_A, "state": t2.clone(), "code_challenge_method": "S256", "subject_id": "CONST_A"}); let v = json!({"code_challenge": v1, "response_type": "code", "user_hint": v1, "client_id": v2, "wallet_issuer": t2, "credential_issuer": CONST_A, "state": t2, "code_challenge_method": "S256", "subject_id": "CONST_A"}); same("authorization", r, &v); }
        2 => { let r = authorization_request!({"code_challenge_method": "S256", "subject_id": v0, "response_type": "code", "code_challenge": pass(v3), "redirect_uri": "#k", "client_id": CONST_A, "scope": v3, "credential_issuer": "x.to_string()"}); let v = json!({"code_challenge_method": "S256", "subject_id": v0, "response_type": "code", "code_challenge": v3, "redirect_uri": "#k", "client_id": CONST_A, "scope": v3, "credential_issuer": "x.to_string()"}); same("authorization", r, &v); }
        3 => { let r = authorization_request!({"subject_id": v1, "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {"é": {}, "org.iso.18013.5.1": {}, "email": {}}, "type": ["CONST_A"]}, "credential_configuration_id": vars.a.clone()}, {"credential_definition": {"@context": [vars.a.clone(), vars.a.clone()], "type": [t3.clone()]}, "type": "openid_credential", "format": "jwt_vc_json",}, {"format": "jwt_vc_json", "locations": ["{\"a\":1}", vars.a.clone()], "credential_definition": {"type": l0.clone(), "credentialSubject": {"a-b": {}, "email": {"mandatory": false,},}}, "type": "openid_credential"}], "wallet_issuer": t3.clone(), "credential_issuer": v2, "client_id": String::from(v1), "response_type": "code", "code_challenge": pass(v1), "code_challenge_method": "S256", "redirect_uri": "plain",}); let v = json!({"subject_id": v1, "authorization_details": [{"type": "openid_credential", "credential_definition": {"credentialSubject": {"é": {}, "org.iso.18013.5.1": {}, "email": {}}, "type": ["CONST_A"]}, "credential_configuration_id": vars.a}, {"credential_definition": {"@context": [vars.a, vars.a], "type": [t3]}, "type": "openid_credential", "format": "jwt_vc_json"}, {"format": "jwt_vc_json", "locations": ["{\"a\":1}", vars.a], "credential_definition": {"type": l0, "credentialSubject": {"a-b": {}, "email": {"mandatory": false}}}, "type": "openid_credential"}], "wallet_issuer": t3, "credential_issuer": v2, "client_id": v1, "response_type": "code", "code_challenge": v1, "code_challenge_method": "S256", "redirect_uri": "plain"}); same("authorization", r, &v); }
        4 => { let r = authorization_request!({"resource": "x.to_string()", "subject_id": v3, "response_type": "code", "code_challenge": vars.a.clone() + "x" + &t3, "code_challenge_method": "S256", "credential_issuer": "CONST_A", "user_hint": v2.to_string(), "issuer_state": CONST_A, "client_id": t1.clone(), "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"x y": {"a-b": {"given_name": {},},}, "email": {}, "address": {},}, "type": l0.clone(),}, "locations": ["é%20+"],}], "wallet_issuer": vars.inner.name.clone(), "state": pass(v1)}); let v = json!({"resource": "x.to_string()", "subject_id": v3, "response_type": "code", "code_challenge": (vars.a.clone() + "x" + &t3), "code_challenge_method": "S256", "credential_issuer": "CONST_A", "user_hint": v2, "issuer_state": CONST_A, "client_id": t1, "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"x y": {"a-b": {"given_name": {}}}, "email": {}, "address": {}}, "type": l0}, "locations": ["é%20+"]}], "wallet_issuer": vars.inner.name, "state": v1}); same("authorization", r, &v); }
        5 => { let r = authorization_request!({"client_id": pass(v1), "code_challenge": vars.inner.name.clone(), "subject_id": t0.clone(), "code_challenge_method": "S256", "credential_issuer": String::from(v2), "response_type": "code", "authorization_details": [{"credential_configuration_id": vars.a.clone(), "type": "openid_credential",}, {"credential_configuration_id": t2.clone(), "type": "openid_credential", "credential_definition": {"type": [vars.a.clone()], "credentialSubject": {},}}, {"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"@context": [t0.clone()], "type": ["12"], "credentialSubject": {"family_name": {"x y": {}}, "email": {"x y": {"locality": {"mandatory": true,}},}, "é": {"value_type": "number",}}},}],}); let v = json!({"client_id": v1, "code_challenge": vars.inner.name, "subject_id": t0, "code_challenge_method": "S256", "credential_issuer": v2, "response_type": "code", "authorization_details": [{"credential_configuration_id": vars.a, "type": "openid_credential"}, {"credential_configuration_id": t2, "type": "openid_credential", "credential_definition": {"type": [vars.a], "credentialSubject": {}}}, {"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"@context": [t0], "type": ["12"], "credentialSubject": {"family_name": {"x y": {}}, "email": {"x y": {"locality": {"mandatory": true}}}, "é": {"value_type": "number"}}}}]}); same("authorization", r, &v); }
        6 => { let r = authorization_request!({"scope": "CONST_A", "wallet_issuer": String::from(v2), "subject_id": CONST_A, "state": t3.clone(), "response_type": "code", "code_challenge_method": "S256", "resource": CONST_A, "credential_issuer": "a=b&c=d", "client_id": t3.clone(), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "locations": ["http://x.sim/?q=1#f", pass(v1)], "credential_definition": {"type": l0.clone(), "credentialSubject": {"given_name": {}, "street": {}, "a-b": {},},}}, {"type": "openid_credential", "locations": [t0.clone()], "format": "jwt_vc_json", "credential_definition": {"type": [pass(v1), "é%20+"], "credentialSubject": {"address": {"given_name": {"mandatory": true,}, "street": {"mandatory": false}, "locality": {},}, "locality": {}, "family_name": {},},}}, {"credential_configuration_id": "12", "type": "openid_credential", "credential_definition": {"@context": [t3.clone(), "\"q\""]},}], "code_challenge": v1,}); let v = json!({"scope": "CONST_A", "wallet_issuer": v2, "subject_id": CONST_A, "state": t3, "response_type": "code", "code_challenge_method": "S256", "resource": CONST_A, "credential_issuer": "a=b&c=d", "client_id": t3, "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "locations": ["http://x.sim/?q=1#f", v1], "credential_definition": {"type": l0, "credentialSubject": {"given_name": {}, "street": {}, "a-b": {}}}}, {"type": "openid_credential", "locations": [t0], "format": "jwt_vc_json", "credential_definition": {"type": [v1, "é%20+"], "credentialSubject": {"address": {"given_name": {"mandatory": true}, "street": {"mandatory": false}, "locality": {}}, "locality": {}, "family_name": {}}}}, {"credential_configuration_id": "12", "type": "openid_credential", "credential_definition": {"@context": [t3, "\"q\""]}}], "code_challenge": v1}); same("authorization", r, &v); }
        7 => { let r = authorization_request!({"subject_id": CONST_A, "code_challenge": "", "redirect_uri": "12", "client_id": "#k", "code_challenge_method": "S256", "credential_issuer": String::from(v1), "response_type": "code"}); let v = json!({"subject_id": CONST_A, "code_challenge": "", "redirect_uri": "12", "client_id": "#k", "code_challenge_method": "S256", "credential_issuer": v1, "response_type": "code"}); same("authorization", r, &v); }
        8 => { let r = authorization_request!({"response_type": "code", "state": String::from(v0), "code_challenge": vars.inner.name.clone(), "authorization_details": [{"locations": ["CONST_A"], "claims": {"a-b": {}, "org.iso.18013.5.1": {"x y": {"value_type": "number"}, "given_name": {"value_type": "number"}, "é": {}}, "locality": {"mandatory": b0,},}, "credential_configuration_id": vars.a.clone(), "type": "openid_credential"}], "client_id": v2, "redirect_uri": String::from(v0), "user_hint": "CONST_A", "code_challenge_method": "S256", "subject_id": pass(v0), "credential_issuer": CONST_A,}); let v = json!({"response_type": "code", "state": v0, "code_challenge": vars.inner.name, "authorization_details": [{"locations": ["CONST_A"], "claims": {"a-b": {}, "org.iso.18013.5.1": {"x y": {"value_type": "number"}, "given_name": {"value_type": "number"}, "é": {}}, "locality": {"mandatory": b0}}, "credential_configuration_id": vars.a, "type": "openid_credential"}], "client_id": v2, "redirect_uri": v0, "user_hint": "CONST_A", "code_challenge_method": "S256", "subject_id": v0, "credential_issuer": CONST_A}); same("authorization", r, &v); }
        9 => { let r = authorization_request!({"scope": CONST_A, "code_challenge_method": "S256", "response_type": "code", "credential_issuer": " a b ", "code_challenge": vars.inner.name.clone(), "subject_id": vars.a.clone() + "x" + &t0, "client_id": vars.a.clone() + "x" + &t0}); let v = json!({"scope": CONST_A, "code_challenge_method": "S256", "response_type": "code", "credential_issuer": " a b ", "code_challenge": vars.inner.name, "subject_id": (vars.a.clone() + "x" + &t0), "client_id": (vars.a.clone() + "x" + &t0)}); same("authorization", r, &v); }
        _ => {}
    }
}

fn token_0(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = token_request!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "tx_code": "a=b&c=d", "client_id": &v0, "pre-authorized_code": vars.a.clone() + "x" + &t0, "credential_issuer": " a b "}); let v = json!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "tx_code": "a=b&c=d", "client_id": v0, "pre-authorized_code": (vars.a.clone() + "x" + &t0), "credential_issuer": " a b "}); same("token", r, &v); }
        1 => { let r = token_request!({"client_id": vars.inner.name.clone(), "credential_issuer": t3.clone(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": pass(v3)}); let v = json!({"client_id": vars.inner.name, "credential_issuer": t3, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": v3}); same("token", r, &v); }
        2 => { let r = token_request!({"credential_issuer": pass(v2), "pre-authorized_code": &v1, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); let v = json!({"credential_issuer": v2, "pre-authorized_code": v1, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        3 => { let r = token_request!({"pre-authorized_code": vars.inner.name.clone(), "client_id": vars.a.clone() + "x" + &t3, "credential_issuer": pass(v2), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",}); let v = json!({"pre-authorized_code": vars.inner.name, "client_id": (vars.a.clone() + "x" + &t3), "credential_issuer": v2, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        4 => { let r = token_request!({"client_id": vars.inner.name.clone(), "redirect_uri": CONST_A, "code_verifier": v1, "code": v2, "grant_type": "authorization_code", "credential_issuer": v0.to_string()}); let v = json!({"client_id": vars.inner.name, "redirect_uri": CONST_A, "code_verifier": v1, "code": v2, "grant_type": "authorization_code", "credential_issuer": v0}); same("token", r, &v); }
        5 => { let r = token_request!({"credential_issuer": v1.to_string(), "client_id": v1.to_string(), "code_verifier": v0.to_string(), "code": " a b ", "grant_type": "authorization_code"}); let v = json!({"credential_issuer": v1, "client_id": v1, "code_verifier": v0, "code": " a b ", "grant_type": "authorization_code"}); same("token", r, &v); }
        6 => { let r = token_request!({"credential_issuer": vars.inner.name.clone(), "grant_type": "authorization_code", "code_verifier": v1, "client_id": String::from(v1), "redirect_uri": vars.inner.name.clone(), "code": v1}); let v = json!({"credential_issuer": vars.inner.name, "grant_type": "authorization_code", "code_verifier": v1, "client_id": v1, "redirect_uri": vars.inner.name, "code": v1}); same("token", r, &v); }
        7 => { let r = token_request!({"credential_issuer": pass(v2), "pre-authorized_code": CONST_A, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",}); let v = json!({"credential_issuer": v2, "pre-authorized_code": CONST_A, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        8 => { let r = token_request!({"pre-authorized_code": v0.to_string(), "client_id": &v1, "authorization_details": [{"credential_definition": {"type": l0.clone()}, "format": "jwt_vc_json", "type": "openid_credential", "locations": ["x.to_string()"]}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": pass(v1),}); let v = json!({"pre-authorized_code": v0, "client_id": v1, "authorization_details": [{"credential_definition": {"type": l0}, "format": "jwt_vc_json", "type": "openid_credential", "locations": ["x.to_string()"]}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": v1}); same("token", r, &v); }
        9 => { let r = token_request!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v2, "credential_issuer": "plain", "tx_code": &v0, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "null", "credential_definition": {}}], "pre-authorized_code": CONST_A,}); let v = json!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v2, "credential_issuer": "plain", "tx_code": v0, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "null", "credential_definition": {}}], "pre-authorized_code": CONST_A}); same("token", r, &v); }
        _ => {}
    }
}

fn token_1(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = token_request!({"grant_type": "authorization_code", "redirect_uri": v0, "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"type": l0.clone(),}, "locations": [""], "type": "openid_credential",}], "code": vars.a.clone() + "x" + &t0, "code_verifier": vars.inner.name.clone(), "credential_issuer": vars.a.clone() + "x" + &t2,}); let v = json!({"grant_type": "authorization_code", "redirect_uri": v0, "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"type": l0}, "locations": [""], "type": "openid_credential"}], "code": (vars.a.clone() + "x" + &t0), "code_verifier": vars.inner.name, "credential_issuer": (vars.a.clone() + "x" + &t2)}); same("token", r, &v); }
        1 => { let r = token_request!({"pre-authorized_code": vars.a.clone() + "x" + &t3, "credential_issuer": pass(v2), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": "\"q\"", "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": [pass(v0)], "credentialSubject": {"address": {}, "family_name": {}, "locality": {},},},}]}); let v = json!({"pre-authorized_code": (vars.a.clone() + "x" + &t3), "credential_issuer": v2, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": "\"q\"", "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": [v0], "credentialSubject": {"address": {}, "family_name": {}, "locality": {}}}}]}); same("token", r, &v); }
        2 => { let r = token_request!({"credential_issuer": CONST_A, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t1.clone(), "client_id": pass(v3), "tx_code": " a b "}); let v = json!({"credential_issuer": CONST_A, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t1, "client_id": v3, "tx_code": " a b "}); same("token", r, &v); }
        3 => { let r = token_request!({"code_verifier": "é%20+", "credential_issuer": "é%20+", "code": "é%20+", "redirect_uri": "plain", "grant_type": "authorization_code"}); let v = json!({"code_verifier": "é%20+", "credential_issuer": "é%20+", "code": "é%20+", "redirect_uri": "plain", "grant_type": "authorization_code"}); same("token", r, &v); }
        4 => { let r = token_request!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t2.clone(), "credential_issuer": vars.inner.name.clone()}); let v = json!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t2, "credential_issuer": vars.inner.name}); same("token", r, &v); }
        5 => { let r = token_request!({"code_verifier": pass(v2), "code": CONST_A, "authorization_details": [{"type": "openid_credential", "claims": {}, "credential_configuration_id": t0.clone()}], "redirect_uri": v1, "credential_issuer": "12", "grant_type": "authorization_code",}); let v = json!({"code_verifier": v2, "code": CONST_A, "authorization_details": [{"type": "openid_credential", "claims": {}, "credential_configuration_id": t0}], "redirect_uri": v1, "credential_issuer": "12", "grant_type": "authorization_code"}); same("token", r, &v); }
        6 => { let r = token_request!({"grant_type": "authorization_code", "credential_issuer": vars.a.clone() + "x" + &t2, "authorization_details": [{"credential_configuration_id": "CONST_A", "type": "openid_credential",}, {"credential_configuration_id": " a b ", "claims": {"a-b": {}, "x y": {}}, "type": "openid_credential",}, {"type": "openid_credential", "credential_configuration_id": "CONST_A"}], "code": vars.a.clone() + "x" + &t3, "code_verifier": &v3}); let v = json!({"grant_type": "authorization_code", "credential_issuer": (vars.a.clone() + "x" + &t2), "authorization_details": [{"credential_configuration_id": "CONST_A", "type": "openid_credential"}, {"credential_configuration_id": " a b ", "claims": {"a-b": {}, "x y": {}}, "type": "openid_credential"}, {"type": "openid_credential", "credential_configuration_id": "CONST_A"}], "code": (vars.a.clone() + "x" + &t3), "code_verifier": v3}); same("token", r, &v); }
        7 => { let r = token_request!({"tx_code": vars.a.clone() + "x" + &t3, "client_id": v3.to_string(), "credential_issuer": " a b ", "authorization_details": [{"credential_definition": {"type": [vars.a.clone()]}, "type": "openid_credential", "format": "jwt_vc_json",}], "pre-authorized_code": v2.to_string(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",}); let v = json!({"tx_code": (vars.a.clone() + "x" + &t3), "client_id": v3, "credential_issuer": " a b ", "authorization_details": [{"credential_definition": {"type": [vars.a]}, "type": "openid_credential", "format": "jwt_vc_json"}], "pre-authorized_code": v2, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        8 => { let r = token_request!({"pre-authorized_code": " a b ", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.inner.name.clone(), "tx_code": v0}); let v = json!({"pre-authorized_code": " a b ", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.inner.name, "tx_code": v0}); same("token", r, &v); }
        9 => { let r = token_request!({"tx_code": "x.to_string()", "authorization_details": [{"credential_definition": {"type": l0.clone(), "credentialSubject": {"given_name": {"mandatory": true,}, "é": {"value_type": "image",}, "email": {}}}, "format": "jwt_vc_json", "type": "openid_credential",}, {"credential_definition": {"credentialSubject": {}}, "credential_configuration_id": "x.to_string()", "type": "openid_credential", "locations": ["CONST_A"]}], "credential_issuer": v1.to_string(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v3, "pre-authorized_code": "12"}); let v = json!({"tx_code": "x.to_string()", "authorization_details": [{"credential_definition": {"type": l0, "credentialSubject": {"given_name": {"mandatory": true}, "é": {"value_type": "image"}, "email": {}}}, "format": "jwt_vc_json", "type": "openid_credential"}, {"credential_definition": {"credentialSubject": {}}, "credential_configuration_id": "x.to_string()", "type": "openid_credential", "locations": ["CONST_A"]}], "credential_issuer": v1, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v3, "pre-authorized_code": "12"}); same("token", r, &v); }
        _ => {}
    }
}

fn token_2(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = token_request!({"tx_code": &v0, "pre-authorized_code": String::from(v1), "client_id": vars.inner.name.clone(), "credential_issuer": String::from(v2), "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"street": {"value_type": "string",}, "family_name": {"value_type": "string"}, "x y": {"a-b": {}, "given_name": {"mandatory": false},}}, "type": l0.clone()}}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); let v = json!({"tx_code": v0, "pre-authorized_code": v1, "client_id": vars.inner.name, "credential_issuer": v2, "authorization_details": [{"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"street": {"value_type": "string"}, "family_name": {"value_type": "string"}, "x y": {"a-b": {}, "given_name": {"mandatory": false}}}, "type": l0}}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        1 => { let r = token_request!({"credential_issuer": "a=b&c=d", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": &v3, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain",}, {"type": "openid_credential", "locations": [pass(v0)], "credential_configuration_id": vars.a.clone(), "credential_definition": {"credentialSubject": {"street": {"value_type": "number",}}, "type": l0.clone(), "@context": ["é%20+", vars.a.clone()],},}]}); let v = json!({"credential_issuer": "a=b&c=d", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": v3, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain"}, {"type": "openid_credential", "locations": [v0], "credential_configuration_id": vars.a, "credential_definition": {"credentialSubject": {"street": {"value_type": "number"}}, "type": l0, "@context": ["é%20+", vars.a]}}]}); same("token", r, &v); }
        2 => { let r = token_request!({"credential_issuer": CONST_A, "code": vars.a.clone() + "x" + &t1, "code_verifier": v0.to_string(), "grant_type": "authorization_code"}); let v = json!({"credential_issuer": CONST_A, "code": (vars.a.clone() + "x" + &t1), "code_verifier": v0, "grant_type": "authorization_code"}); same("token", r, &v); }
        3 => { let r = token_request!({"code": CONST_A, "credential_issuer": String::from(v0), "grant_type": "authorization_code", "redirect_uri": v1, "code_verifier": v3.to_string(), "authorization_details": [{"type": "openid_credential", "claims": {"org.iso.18013.5.1": {"given_name": {"mandatory": true}, "email": {}, "é": {"address": {},}}, "family_name": {},}, "locations": [vars.a.clone(), "{\"a\":1}"], "credential_configuration_id": t2.clone(),}, {"credential_definition": {"credentialSubject": {"email": {"email": {}, "x y": {}, "street": {}}, "address": {"mandatory": true,}, "street": {"value_type": "image"}}, "type": [t3.clone(), pass(v0), t0.clone()],}, "type": "openid_credential", "format": "jwt_vc_json",}]}); let v = json!({"code": CONST_A, "credential_issuer": v0, "grant_type": "authorization_code", "redirect_uri": v1, "code_verifier": v3, "authorization_details": [{"type": "openid_credential", "claims": {"org.iso.18013.5.1": {"given_name": {"mandatory": true}, "email": {}, "é": {"address": {}}}, "family_name": {}}, "locations": [vars.a, "{\"a\":1}"], "credential_configuration_id": t2}, {"credential_definition": {"credentialSubject": {"email": {"email": {}, "x y": {}, "street": {}}, "address": {"mandatory": true}, "street": {"value_type": "image"}}, "type": [t3, v0, t0]}, "type": "openid_credential", "format": "jwt_vc_json"}]}); same("token", r, &v); }
        4 => { let r = token_request!({"pre-authorized_code": String::from(v3), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain"}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.inner.name.clone(), "tx_code": vars.inner.name.clone(), "client_id": t0.clone(),}); let v = json!({"pre-authorized_code": v3, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain"}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.inner.name, "tx_code": vars.inner.name, "client_id": t0}); same("token", r, &v); }
        5 => { let r = token_request!({"code": v2.to_string(), "redirect_uri": t1.clone(), "client_id": t3.clone(), "credential_issuer": String::from(v2), "code_verifier": v3.to_string(), "grant_type": "authorization_code"}); let v = json!({"code": v2, "redirect_uri": t1, "client_id": t3, "credential_issuer": v2, "code_verifier": v3, "grant_type": "authorization_code"}); same("token", r, &v); }
        6 => { let r = token_request!({"client_id": "\"q\"", "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": ["null", t1.clone(), vars.a.clone()], "credentialSubject": {"email": {"mandatory": true}, "locality": {"mandatory": false},}}, "format": "jwt_vc_json", "locations": [t1.clone(), pass(v3)]}], "pre-authorized_code": String::from(v0), "credential_issuer": vars.a.clone() + "x" + &t2, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code",}); let v = json!({"client_id": "\"q\"", "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": ["null", t1, vars.a], "credentialSubject": {"email": {"mandatory": true}, "locality": {"mandatory": false}}}, "format": "jwt_vc_json", "locations": [t1, v3]}], "pre-authorized_code": v0, "credential_issuer": (vars.a.clone() + "x" + &t2), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        7 => { let r = token_request!({"client_id": vars.a.clone() + "x" + &t3, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t2.clone(), "credential_issuer": vars.a.clone() + "x" + &t3,}); let v = json!({"client_id": (vars.a.clone() + "x" + &t3), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": t2, "credential_issuer": (vars.a.clone() + "x" + &t3)}); same("token", r, &v); }
        8 => { let r = token_request!({"code_verifier": t2.clone(), "authorization_details": [{"type": "openid_credential", "locations": [pass(v0), "a=b&c=d"], "claims": {}, "credential_configuration_id": pass(v1),}, {"format": "jwt_vc_json", "type": "openid_credential", "locations": [vars.a.clone()], "credential_definition": {"@context": ["é%20+", t0.clone()], "type": l0.clone()},}], "grant_type": "authorization_code", "code": String::from(v1), "credential_issuer": v2, "client_id": String::from(v0),}); let v = json!({"code_verifier": t2, "authorization_details": [{"type": "openid_credential", "locations": [v0, "a=b&c=d"], "claims": {}, "credential_configuration_id": v1}, {"format": "jwt_vc_json", "type": "openid_credential", "locations": [vars.a], "credential_definition": {"@context": ["é%20+", t0], "type": l0}}], "grant_type": "authorization_code", "code": v1, "credential_issuer": v2, "client_id": v0}); same("token", r, &v); }
        9 => { let r = token_request!({"code_verifier": vars.inner.name.clone(), "grant_type": "authorization_code", "redirect_uri": "a=b&c=d", "code": String::from(v3), "client_id": vars.a.clone() + "x" + &t2, "credential_issuer": &v1,}); let v = json!({"code_verifier": vars.inner.name, "grant_type": "authorization_code", "redirect_uri": "a=b&c=d", "code": v3, "client_id": (vars.a.clone() + "x" + &t2), "credential_issuer": v1}); same("token", r, &v); }
        _ => {}
    }
}

fn token_3(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = token_request!({"tx_code": v1, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.a.clone() + "x" + &t1, "pre-authorized_code": String::from(v2)}); let v = json!({"tx_code": v1, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": (vars.a.clone() + "x" + &t1), "pre-authorized_code": v2}); same("token", r, &v); }
        1 => { let r = token_request!({"tx_code": v3, "credential_issuer": CONST_A, "pre-authorized_code": "\"q\"", "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": [""], "@context": [pass(v1)], "credentialSubject": {"x y": {}, "street": {"mandatory": true}},}, "format": "jwt_vc_json",}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": vars.inner.name.clone(),}); let v = json!({"tx_code": v3, "credential_issuer": CONST_A, "pre-authorized_code": "\"q\"", "authorization_details": [{"type": "openid_credential", "credential_definition": {"type": [""], "@context": [v1], "credentialSubject": {"x y": {}, "street": {"mandatory": true}}}, "format": "jwt_vc_json"}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": vars.inner.name}); same("token", r, &v); }
        2 => { let r = token_request!({"tx_code": v3.to_string(), "client_id": "#k", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": pass(v2), "credential_issuer": vars.inner.name.clone()}); let v = json!({"tx_code": v3, "client_id": "#k", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": v2, "credential_issuer": vars.inner.name}); same("token", r, &v); }
        3 => { let r = token_request!({"client_id": t3.clone(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": t3.clone(), "pre-authorized_code": CONST_A}); let v = json!({"client_id": t3, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": t3, "pre-authorized_code": CONST_A}); same("token", r, &v); }
        4 => { let r = token_request!({"authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain"}], "client_id": &v0, "credential_issuer": pass(v1), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": &v1,}); let v = json!({"authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain"}], "client_id": v0, "credential_issuer": v1, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": v1}); same("token", r, &v); }
        5 => { let r = token_request!({"pre-authorized_code": v0, "authorization_details": [{"credential_configuration_id": t2.clone(), "locations": ["\"q\"", "null"], "claims": {}, "type": "openid_credential"}], "credential_issuer": vars.inner.name.clone(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "tx_code": &v0}); let v = json!({"pre-authorized_code": v0, "authorization_details": [{"credential_configuration_id": t2, "locations": ["\"q\"", "null"], "claims": {}, "type": "openid_credential"}], "credential_issuer": vars.inner.name, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "tx_code": v0}); same("token", r, &v); }
        6 => { let r = token_request!({"code": pass(v0), "client_id": t0.clone(), "grant_type": "authorization_code", "credential_issuer": t3.clone(), "code_verifier": v2.to_string(),}); let v = json!({"code": v0, "client_id": t0, "grant_type": "authorization_code", "credential_issuer": t3, "code_verifier": v2}); same("token", r, &v); }
        7 => { let r = token_request!({"grant_type": "authorization_code", "redirect_uri": t2.clone(), "credential_issuer": &v3, "code": &v3, "client_id": CONST_A, "code_verifier": vars.inner.name.clone(),}); let v = json!({"grant_type": "authorization_code", "redirect_uri": t2, "credential_issuer": v3, "code": v3, "client_id": CONST_A, "code_verifier": vars.inner.name}); same("token", r, &v); }
        8 => { let r = token_request!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": CONST_A, "tx_code": CONST_A, "pre-authorized_code": "#k",}); let v = json!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": CONST_A, "tx_code": CONST_A, "pre-authorized_code": "#k"}); same("token", r, &v); }
        9 => { let r = token_request!({"authorization_details": [{"type": "openid_credential", "credential_definition": {"type": [pass(v3)], "@context": [t3.clone()]}, "locations": ["\"q\"", "\"q\""], "format": "jwt_vc_json",}, {"type": "openid_credential", "claims": {"email": {"mandatory": b0}, "é": {"x y": {}, "locality": {"mandatory": true,}}, "given_name": {"value_type": "image"}}, "credential_configuration_id": "#k"}, {"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": l0.clone(), "@context": ["é%20+", "{\"a\":1}"], "credentialSubject": {}}}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.inner.name.clone(), "pre-authorized_code": pass(v2),}); let v = json!({"authorization_details": [{"type": "openid_credential", "credential_definition": {"type": [v3], "@context": [t3]}, "locations": ["\"q\"", "\"q\""], "format": "jwt_vc_json"}, {"type": "openid_credential", "claims": {"email": {"mandatory": b0}, "é": {"x y": {}, "locality": {"mandatory": true}}, "given_name": {"value_type": "image"}}, "credential_configuration_id": "#k"}, {"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": l0, "@context": ["é%20+", "{\"a\":1}"], "credentialSubject": {}}}], "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "credential_issuer": vars.inner.name, "pre-authorized_code": v2}); same("token", r, &v); }
        _ => {}
    }
}

fn token_4(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = token_request!({"redirect_uri": CONST_A, "code": v2, "grant_type": "authorization_code", "credential_issuer": String::from(v3), "code_verifier": vars.inner.name.clone(),}); let v = json!({"redirect_uri": CONST_A, "code": v2, "grant_type": "authorization_code", "credential_issuer": v3, "code_verifier": vars.inner.name}); same("token", r, &v); }
        1 => { let r = token_request!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v0.to_string(), "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"street": {"value_type": "number"},}, "type": l0.clone(),}, "type": "openid_credential"}, {"type": "openid_credential", "credential_configuration_id": "é%20+", "locations": ["x.to_string()", "x.to_string()"],}, {"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"email": {}, "address": {"value_type": "number"}}, "type": l0.clone(),}, "locations": ["null"]}], "credential_issuer": vars.a.clone() + "x" + &t3, "pre-authorized_code": vars.inner.name.clone()}); let v = json!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v0, "authorization_details": [{"format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"street": {"value_type": "number"}}, "type": l0}, "type": "openid_credential"}, {"type": "openid_credential", "credential_configuration_id": "é%20+", "locations": ["x.to_string()", "x.to_string()"]}, {"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {"email": {}, "address": {"value_type": "number"}}, "type": l0}, "locations": ["null"]}], "credential_issuer": (vars.a.clone() + "x" + &t3), "pre-authorized_code": vars.inner.name}); same("token", r, &v); }
        2 => { let r = token_request!({"pre-authorized_code": "#k", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_details": [{"credential_configuration_id": pass(v0), "credential_definition": {"credentialSubject": {"locality": {"email": {"value_type": "number",}, "é": {"value_type": "number",},}, "email": {"mandatory": b0,}, "org.iso.18013.5.1": {}}, "type": [vars.a.clone(), vars.a.clone()]}, "type": "openid_credential"}], "credential_issuer": vars.inner.name.clone()}); let v = json!({"pre-authorized_code": "#k", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_details": [{"credential_configuration_id": v0, "credential_definition": {"credentialSubject": {"locality": {"email": {"value_type": "number"}, "é": {"value_type": "number"}}, "email": {"mandatory": b0}, "org.iso.18013.5.1": {}}, "type": [vars.a, vars.a]}, "type": "openid_credential"}], "credential_issuer": vars.inner.name}); same("token", r, &v); }
        3 => { let r = token_request!({"code": &v0, "authorization_details": [{"locations": [vars.a.clone(), t3.clone()], "type": "openid_credential", "credential_definition": {"credentialSubject": {"a-b": {"mandatory": false}, "locality": {"org.iso.18013.5.1": {}},}}, "credential_configuration_id": " a b ",}, {"type": "openid_credential", "credential_configuration_id": vars.a.clone(), "locations": ["null"], "credential_definition": {"credentialSubject": {"locality": {"value_type": "image"}, "x y": {"value_type": "image"}}, "type": [" a b ", t0.clone()]}}, {"credential_configuration_id": "12", "type": "openid_credential", "locations": [t2.clone()], "claims": {"é": {"value_type": "number"}, "street": {"given_name": {"family_name": {}, "address": {"mandatory": true},}, "street": {}, "address": {"email": {}, "family_name": {}, "org.iso.18013.5.1": {}},},},}], "code_verifier": &v2, "grant_type": "authorization_code", "redirect_uri": vars.a.clone() + "x" + &t1, "credential_issuer": &v2,}); let v = json!({"code": v0, "authorization_details": [{"locations": [vars.a, t3], "type": "openid_credential", "credential_definition": {"credentialSubject": {"a-b": {"mandatory": false}, "locality": {"org.iso.18013.5.1": {}}}}, "credential_configuration_id": " a b "}, {"type": "openid_credential", "credential_configuration_id": vars.a, "locations": ["null"], "credential_definition": {"credentialSubject": {"locality": {"value_type": "image"}, "x y": {"value_type": "image"}}, "type": [" a b ", t0]}}, {"credential_configuration_id": "12", "type": "openid_credential", "locations": [t2], "claims": {"é": {"value_type": "number"}, "street": {"given_name": {"family_name": {}, "address": {"mandatory": true}}, "street": {}, "address": {"email": {}, "family_name": {}, "org.iso.18013.5.1": {}}}}}], "code_verifier": v2, "grant_type": "authorization_code", "redirect_uri": (vars.a.clone() + "x" + &t1), "credential_issuer": v2}); same("token", r, &v); }
        4 => { let r = token_request!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": "{\"a\":1}", "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"@context": [t2.clone(), vars.a.clone()], "credentialSubject": {"street": {}, "é": {"value_type": "string",}, "address": {},}, "type": ["null", "plain"],}}, {"credential_configuration_id": pass(v1), "type": "openid_credential",}, {"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"given_name": {}, "street": {"value_type": "image",}, "email": {"mandatory": true,}}, "type": l0.clone(),},}], "client_id": &v0, "tx_code": v2, "credential_issuer": &v1,}); let v = json!({"grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": "{\"a\":1}", "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"@context": [t2, vars.a], "credentialSubject": {"street": {}, "é": {"value_type": "string"}, "address": {}}, "type": ["null", "plain"]}}, {"credential_configuration_id": v1, "type": "openid_credential"}, {"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"credentialSubject": {"given_name": {}, "street": {"value_type": "image"}, "email": {"mandatory": true}}, "type": l0}}], "client_id": v0, "tx_code": v2, "credential_issuer": v1}); same("token", r, &v); }
        5 => { let r = token_request!({"pre-authorized_code": v1, "tx_code": pass(v3), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": " a b "}, {"locations": [pass(v3)], "type": "openid_credential", "credential_definition": {"credentialSubject": {"é": {}, "family_name": {"value_type": "string",},},}, "credential_configuration_id": "\"q\"",}, {"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": ["x.to_string()"],}}], "credential_issuer": CONST_A, "client_id": "#k", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); let v = json!({"pre-authorized_code": v1, "tx_code": v3, "authorization_details": [{"type": "openid_credential", "credential_configuration_id": " a b "}, {"locations": [v3], "type": "openid_credential", "credential_definition": {"credentialSubject": {"é": {}, "family_name": {"value_type": "string"}}}, "credential_configuration_id": "\"q\""}, {"format": "jwt_vc_json", "type": "openid_credential", "credential_definition": {"type": ["x.to_string()"]}}], "credential_issuer": CONST_A, "client_id": "#k", "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code"}); same("token", r, &v); }
        6 => { let r = token_request!({"authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain",}], "credential_issuer": v2.to_string(), "pre-authorized_code": t2.clone(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": String::from(v2)}); let v = json!({"authorization_details": [{"type": "openid_credential", "credential_configuration_id": "plain"}], "credential_issuer": v2, "pre-authorized_code": t2, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "client_id": v2}); same("token", r, &v); }
        7 => { let r = token_request!({"code": CONST_A, "credential_issuer": " a b ", "client_id": &v0, "code_verifier": v3.to_string(), "grant_type": "authorization_code",}); let v = json!({"code": CONST_A, "credential_issuer": " a b ", "client_id": v0, "code_verifier": v3, "grant_type": "authorization_code"}); same("token", r, &v); }
        8 => { let r = token_request!({"pre-authorized_code": pass(v3), "client_id": v3.to_string(), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "tx_code": vars.inner.name.clone(), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"@context": ["plain"], "type": l0.clone()},}], "credential_issuer": "http://x.sim/?q=1#f"}); let v = json!({"pre-authorized_code": v3, "client_id": v3, "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "tx_code": vars.inner.name, "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"@context": ["plain"], "type": l0}}], "credential_issuer": "http://x.sim/?q=1#f"}); same("token", r, &v); }
        9 => { let r = token_request!({"credential_issuer": vars.a.clone() + "x" + &t1, "code_verifier": pass(v0), "grant_type": "authorization_code", "code": CONST_A, "redirect_uri": String::from(v0), "authorization_details": [{"credential_definition": {"credentialSubject": {"address": {"value_type": "image"},},}, "credential_configuration_id": "plain", "type": "openid_credential", "locations": ["12", "\"q\""]}, {"claims": {"x y": {"street": {}, "org.iso.18013.5.1": {}, "given_name": {"a-b": {}}},}, "credential_configuration_id": "x.to_string()", "type": "openid_credential",}, {"credential_definition": {"credentialSubject": {}}, "credential_configuration_id": "CONST_A", "type": "openid_credential",}], "client_id": t2.clone()}); let v = json!({"credential_issuer": (vars.a.clone() + "x" + &t1), "code_verifier": v0, "grant_type": "authorization_code", "code": CONST_A, "redirect_uri": v0, "authorization_details": [{"credential_definition": {"credentialSubject": {"address": {"value_type": "image"}}}, "credential_configuration_id": "plain", "type": "openid_credential", "locations": ["12", "\"q\""]}, {"claims": {"x y": {"street": {}, "org.iso.18013.5.1": {}, "given_name": {"a-b": {}}}}, "credential_configuration_id": "x.to_string()", "type": "openid_credential"}, {"credential_definition": {"credentialSubject": {}}, "credential_configuration_id": "CONST_A", "type": "openid_credential"}], "client_id": t2}); same("token", r, &v); }
        _ => {}
    }
}

fn credential_0(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = credential_request!({"proof": {"jwt": vars.inner.name.clone(), "proof_type": "jwt"}, "credential_definition": {"type": [t1.clone()], "credentialSubject": {"é": {"given_name": {"mandatory": true,}}, "x y": {"value_type": "image",},},}, "access_token": v0.to_string(), "credential_issuer": vars.inner.name.clone(), "format": "jwt_vc_json"}); let v = json!({"proof": {"jwt": vars.inner.name, "proof_type": "jwt"}, "credential_definition": {"type": [t1], "credentialSubject": {"é": {"given_name": {"mandatory": true}}, "x y": {"value_type": "image"}}}, "access_token": v0, "credential_issuer": vars.inner.name, "format": "jwt_vc_json"}); same("credential", r, &v); }
        1 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": t2.clone(),}, "credential_issuer": &v2, "access_token": pass(v0), "credential_identifier": CONST_A,}); let v = json!({"proof": {"proof_type": "jwt", "jwt": t2}, "credential_issuer": v2, "access_token": v0, "credential_identifier": CONST_A}); same("credential", r, &v); }
        2 => { let r = credential_request!({"credential_identifier": vars.inner.name.clone(), "access_token": "{\"a\":1}", "credential_issuer": vars.inner.name.clone(), "proof": {"jwt": v1.to_string(), "proof_type": "jwt"}}); let v = json!({"credential_identifier": vars.inner.name, "access_token": "{\"a\":1}", "credential_issuer": vars.inner.name, "proof": {"jwt": v1, "proof_type": "jwt"}}); same("credential", r, &v); }
        3 => { let r = credential_request!({"credential_issuer": "a=b&c=d", "access_token": v0.to_string(), "credential_identifier": pass(v1)}); let v = json!({"credential_issuer": "a=b&c=d", "access_token": v0, "credential_identifier": v1}); same("credential", r, &v); }
        4 => { let r = credential_request!({"credential_issuer": t3.clone(), "credential_identifier": vars.inner.name.clone(), "access_token": " a b "}); let v = json!({"credential_issuer": t3, "credential_identifier": vars.inner.name, "access_token": " a b "}); same("credential", r, &v); }
        5 => { let r = credential_request!({"credential_issuer": t2.clone(), "credential_definition": {"type": l0.clone(), "credentialSubject": {"org.iso.18013.5.1": {}, "locality": {},},}, "proof": {"jwt": &v0, "proof_type": "jwt",}, "format": "jwt_vc_json", "access_token": v3.to_string()}); let v = json!({"credential_issuer": t2, "credential_definition": {"type": l0, "credentialSubject": {"org.iso.18013.5.1": {}, "locality": {}}}, "proof": {"jwt": v0, "proof_type": "jwt"}, "format": "jwt_vc_json", "access_token": v3}); same("credential", r, &v); }
        6 => { let r = credential_request!({"credential_issuer": pass(v0), "credential_identifier": vars.a.clone() + "x" + &t2, "access_token": "{\"a\":1}", "proof": {"proof_type": "jwt", "jwt": String::from(v0),},}); let v = json!({"credential_issuer": v0, "credential_identifier": (vars.a.clone() + "x" + &t2), "access_token": "{\"a\":1}", "proof": {"proof_type": "jwt", "jwt": v0}}); same("credential", r, &v); }
        7 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": vars.a.clone() + "x" + &t3,}, "access_token": String::from(v2), "credential_identifier": t2.clone(), "credential_issuer": vars.a.clone() + "x" + &t3}); let v = json!({"proof": {"proof_type": "jwt", "jwt": (vars.a.clone() + "x" + &t3)}, "access_token": v2, "credential_identifier": t2, "credential_issuer": (vars.a.clone() + "x" + &t3)}); same("credential", r, &v); }
        8 => { let r = credential_request!({"credential_identifier": String::from(v3), "credential_issuer": String::from(v0), "access_token": &v2, "proof": {"jwt": "x.to_string()", "proof_type": "jwt"},}); let v = json!({"credential_identifier": v3, "credential_issuer": v0, "access_token": v2, "proof": {"jwt": "x.to_string()", "proof_type": "jwt"}}); same("credential", r, &v); }
        9 => { let r = credential_request!({"proof": {"jwt": v0, "proof_type": "jwt",}, "credential_definition": {"type": [t0.clone(), vars.a.clone()], "credentialSubject": {"é": {"mandatory": true,},}, "@context": [vars.a.clone()]}, "access_token": v2.to_string(), "format": "jwt_vc_json", "credential_issuer": vars.a.clone() + "x" + &t2}); let v = json!({"proof": {"jwt": v0, "proof_type": "jwt"}, "credential_definition": {"type": [t0, vars.a], "credentialSubject": {"é": {"mandatory": true}}, "@context": [vars.a]}, "access_token": v2, "format": "jwt_vc_json", "credential_issuer": (vars.a.clone() + "x" + &t2)}); same("credential", r, &v); }
        _ => {}
    }
}

fn credential_1(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = credential_request!({"credential_identifier": String::from(v1), "proof": {"proof_type": "jwt", "jwt": &v0}, "credential_issuer": "é%20+", "access_token": String::from(v0)}); let v = json!({"credential_identifier": v1, "proof": {"proof_type": "jwt", "jwt": v0}, "credential_issuer": "é%20+", "access_token": v0}); same("credential", r, &v); }
        1 => { let r = credential_request!({"credential_issuer": "a=b&c=d", "format": "jwt_vc_json", "access_token": "", "credential_definition": {"type": l0.clone(), "@context": ["x.to_string()", "plain"],},}); let v = json!({"credential_issuer": "a=b&c=d", "format": "jwt_vc_json", "access_token": "", "credential_definition": {"type": l0, "@context": ["x.to_string()", "plain"]}}); same("credential", r, &v); }
        2 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": pass(v1),}, "credential_issuer": pass(v1), "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}, "type": l0.clone(),}, "access_token": "CONST_A"}); let v = json!({"proof": {"proof_type": "jwt", "jwt": v1}, "credential_issuer": v1, "format": "jwt_vc_json", "credential_definition": {"credentialSubject": {}, "type": l0}, "access_token": "CONST_A"}); same("credential", r, &v); }
        3 => { let r = credential_request!({"credential_definition": {"credentialSubject": {"a-b": {}, "family_name": {}, "org.iso.18013.5.1": {"value_type": "string",}}, "type": l0.clone(),}, "credential_issuer": CONST_A, "proof": {"proof_type": "jwt", "jwt": &v2,}, "format": "jwt_vc_json", "access_token": String::from(v1)}); let v = json!({"credential_definition": {"credentialSubject": {"a-b": {}, "family_name": {}, "org.iso.18013.5.1": {"value_type": "string"}}, "type": l0}, "credential_issuer": CONST_A, "proof": {"proof_type": "jwt", "jwt": v2}, "format": "jwt_vc_json", "access_token": v1}); same("credential", r, &v); }
        4 => { let r = credential_request!({"format": "jwt_vc_json", "access_token": CONST_A, "credential_definition": {"type": l0.clone()}, "credential_issuer": CONST_A,}); let v = json!({"format": "jwt_vc_json", "access_token": CONST_A, "credential_definition": {"type": l0}, "credential_issuer": CONST_A}); same("credential", r, &v); }
        5 => { let r = credential_request!({"access_token": pass(v1), "credential_identifier": CONST_A, "proof": {"proof_type": "jwt", "jwt": vars.inner.name.clone()}, "credential_issuer": v3,}); let v = json!({"access_token": v1, "credential_identifier": CONST_A, "proof": {"proof_type": "jwt", "jwt": vars.inner.name}, "credential_issuer": v3}); same("credential", r, &v); }
        6 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": String::from(v1),}, "credential_identifier": CONST_A, "access_token": v1.to_string(), "credential_issuer": pass(v1)}); let v = json!({"proof": {"proof_type": "jwt", "jwt": v1}, "credential_identifier": CONST_A, "access_token": v1, "credential_issuer": v1}); same("credential", r, &v); }
        7 => { let r = credential_request!({"credential_issuer": CONST_A, "credential_identifier": String::from(v3), "access_token": pass(v0),}); let v = json!({"credential_issuer": CONST_A, "credential_identifier": v3, "access_token": v0}); same("credential", r, &v); }
        8 => { let r = credential_request!({"credential_identifier": &v2, "access_token": v1.to_string(), "credential_issuer": CONST_A}); let v = json!({"credential_identifier": v2, "access_token": v1, "credential_issuer": CONST_A}); same("credential", r, &v); }
        9 => { let r = credential_request!({"credential_issuer": String::from(v3), "credential_identifier": vars.a.clone() + "x" + &t0, "proof": {"proof_type": "jwt", "jwt": String::from(v2)}, "access_token": "CONST_A"}); let v = json!({"credential_issuer": v3, "credential_identifier": (vars.a.clone() + "x" + &t0), "proof": {"proof_type": "jwt", "jwt": v2}, "access_token": "CONST_A"}); same("credential", r, &v); }
        _ => {}
    }
}

fn credential_2(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = credential_request!({"credential_issuer": v0, "credential_identifier": vars.inner.name.clone(), "access_token": "plain", "proof": {"jwt": "\"q\"", "proof_type": "jwt",},}); let v = json!({"credential_issuer": v0, "credential_identifier": vars.inner.name, "access_token": "plain", "proof": {"jwt": "\"q\"", "proof_type": "jwt"}}); same("credential", r, &v); }
        1 => { let r = credential_request!({"credential_identifier": t2.clone(), "proof": {"proof_type": "jwt", "jwt": pass(v1),}, "credential_issuer": v3, "access_token": t3.clone(),}); let v = json!({"credential_identifier": t2, "proof": {"proof_type": "jwt", "jwt": v1}, "credential_issuer": v3, "access_token": t3}); same("credential", r, &v); }
        2 => { let r = credential_request!({"credential_issuer": vars.inner.name.clone(), "access_token": v1.to_string(), "credential_identifier": vars.a.clone() + "x" + &t1,}); let v = json!({"credential_issuer": vars.inner.name, "access_token": v1, "credential_identifier": (vars.a.clone() + "x" + &t1)}); same("credential", r, &v); }
        3 => { let r = credential_request!({"format": "jwt_vc_json", "credential_definition": {"type": l0.clone()}, "access_token": v2, "credential_issuer": vars.inner.name.clone(), "proof": {"jwt": t1.clone(), "proof_type": "jwt",},}); let v = json!({"format": "jwt_vc_json", "credential_definition": {"type": l0}, "access_token": v2, "credential_issuer": vars.inner.name, "proof": {"jwt": t1, "proof_type": "jwt"}}); same("credential", r, &v); }
        4 => { let r = credential_request!({"credential_identifier": vars.a.clone() + "x" + &t1, "access_token": "plain", "credential_issuer": &v3}); let v = json!({"credential_identifier": (vars.a.clone() + "x" + &t1), "access_token": "plain", "credential_issuer": v3}); same("credential", r, &v); }
        5 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": "#k",}, "credential_issuer": &v0, "credential_identifier": &v0, "access_token": v0.to_string()}); let v = json!({"proof": {"proof_type": "jwt", "jwt": "#k"}, "credential_issuer": v0, "credential_identifier": v0, "access_token": v0}); same("credential", r, &v); }
        6 => { let r = credential_request!({"credential_identifier": "#k", "access_token": "x.to_string()", "credential_issuer": v1.to_string(), "proof": {"proof_type": "jwt", "jwt": v0.to_string(),}}); let v = json!({"credential_identifier": "#k", "access_token": "x.to_string()", "credential_issuer": v1, "proof": {"proof_type": "jwt", "jwt": v0}}); same("credential", r, &v); }
        7 => { let r = credential_request!({"credential_identifier": vars.inner.name.clone(), "credential_issuer": pass(v3), "proof": {"proof_type": "jwt", "jwt": vars.a.clone() + "x" + &t1}, "access_token": pass(v1)}); let v = json!({"credential_identifier": vars.inner.name, "credential_issuer": v3, "proof": {"proof_type": "jwt", "jwt": (vars.a.clone() + "x" + &t1)}, "access_token": v1}); same("credential", r, &v); }
        8 => { let r = credential_request!({"credential_identifier": v1, "access_token": &v2, "credential_issuer": "null"}); let v = json!({"credential_identifier": v1, "access_token": v2, "credential_issuer": "null"}); same("credential", r, &v); }
        9 => { let r = credential_request!({"access_token": v0, "credential_issuer": String::from(v2), "credential_identifier": &v2, "proof": {"jwt": String::from(v2), "proof_type": "jwt",}}); let v = json!({"access_token": v0, "credential_issuer": v2, "credential_identifier": v2, "proof": {"jwt": v2, "proof_type": "jwt"}}); same("credential", r, &v); }
        _ => {}
    }
}

fn credential_3(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = credential_request!({"credential_issuer": vars.inner.name.clone(), "credential_identifier": v2, "access_token": String::from(v2)}); let v = json!({"credential_issuer": vars.inner.name, "credential_identifier": v2, "access_token": v2}); same("credential", r, &v); }
        1 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": "http://x.sim/?q=1#f",}, "access_token": vars.a.clone() + "x" + &t3, "credential_issuer": "http://x.sim/?q=1#f", "credential_identifier": pass(v0)}); let v = json!({"proof": {"proof_type": "jwt", "jwt": "http://x.sim/?q=1#f"}, "access_token": (vars.a.clone() + "x" + &t3), "credential_issuer": "http://x.sim/?q=1#f", "credential_identifier": v0}); same("credential", r, &v); }
        2 => { let r = credential_request!({"access_token": "CONST_A", "credential_issuer": t0.clone(), "credential_identifier": "null",}); let v = json!({"access_token": "CONST_A", "credential_issuer": t0, "credential_identifier": "null"}); same("credential", r, &v); }
        3 => { let r = credential_request!({"credential_issuer": CONST_A, "credential_identifier": CONST_A, "access_token": v1.to_string(), "proof": {"jwt": pass(v3), "proof_type": "jwt"},}); let v = json!({"credential_issuer": CONST_A, "credential_identifier": CONST_A, "access_token": v1, "proof": {"jwt": v3, "proof_type": "jwt"}}); same("credential", r, &v); }
        4 => { let r = credential_request!({"credential_issuer": pass(v2), "credential_identifier": String::from(v2), "proof": {"proof_type": "jwt", "jwt": CONST_A,}, "access_token": "#k"}); let v = json!({"credential_issuer": v2, "credential_identifier": v2, "proof": {"proof_type": "jwt", "jwt": CONST_A}, "access_token": "#k"}); same("credential", r, &v); }
        5 => { let r = credential_request!({"access_token": "plain", "format": "jwt_vc_json", "credential_issuer": &v1, "credential_definition": {"@context": [t1.clone(), vars.a.clone()], "type": l0.clone(), "credentialSubject": {},},}); let v = json!({"access_token": "plain", "format": "jwt_vc_json", "credential_issuer": v1, "credential_definition": {"@context": [t1, vars.a], "type": l0, "credentialSubject": {}}}); same("credential", r, &v); }
        6 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": v1}, "access_token": v2.to_string(), "credential_identifier": &v0, "credential_issuer": v1,}); let v = json!({"proof": {"proof_type": "jwt", "jwt": v1}, "access_token": v2, "credential_identifier": v0, "credential_issuer": v1}); same("credential", r, &v); }
        7 => { let r = credential_request!({"access_token": pass(v3), "format": "jwt_vc_json", "proof": {"proof_type": "jwt", "jwt": vars.a.clone() + "x" + &t3,}, "credential_issuer": v1.to_string(), "credential_definition": {"credentialSubject": {"address": {}, "family_name": {}, "é": {}}, "type": [pass(v2)]},}); let v = json!({"access_token": v3, "format": "jwt_vc_json", "proof": {"proof_type": "jwt", "jwt": (vars.a.clone() + "x" + &t3)}, "credential_issuer": v1, "credential_definition": {"credentialSubject": {"address": {}, "family_name": {}, "é": {}}, "type": [v2]}}); same("credential", r, &v); }
        8 => { let r = credential_request!({"credential_identifier": "a=b&c=d", "credential_issuer": vars.a.clone() + "x" + &t3, "access_token": t3.clone()}); let v = json!({"credential_identifier": "a=b&c=d", "credential_issuer": (vars.a.clone() + "x" + &t3), "access_token": t3}); same("credential", r, &v); }
        9 => { let r = credential_request!({"credential_definition": {"credentialSubject": {}, "type": l0.clone(),}, "access_token": vars.inner.name.clone(), "credential_issuer": pass(v2), "proof": {"proof_type": "jwt", "jwt": t0.clone(),}, "format": "jwt_vc_json",}); let v = json!({"credential_definition": {"credentialSubject": {}, "type": l0}, "access_token": vars.inner.name, "credential_issuer": v2, "proof": {"proof_type": "jwt", "jwt": t0}, "format": "jwt_vc_json"}); same("credential", r, &v); }
        _ => {}
    }
}

fn credential_4(k: u32) {
    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
    match k {
        0 => { let r = credential_request!({"credential_identifier": pass(v3), "proof": {"jwt": v2.to_string(), "proof_type": "jwt",}, "credential_issuer": String::from(v1), "access_token": "null",}); let v = json!({"credential_identifier": v3, "proof": {"jwt": v2, "proof_type": "jwt"}, "credential_issuer": v1, "access_token": "null"}); same("credential", r, &v); }
        1 => { let r = credential_request!({"format": "jwt_vc_json", "credential_definition": {"@context": ["é%20+"], "type": l0.clone(),}, "credential_issuer": pass(v2), "access_token": &v2,}); let v = json!({"format": "jwt_vc_json", "credential_definition": {"@context": ["é%20+"], "type": l0}, "credential_issuer": v2, "access_token": v2}); same("credential", r, &v); }
        2 => { let r = credential_request!({"credential_definition": {"credentialSubject": {}, "type": l0.clone()}, "format": "jwt_vc_json", "credential_issuer": "CONST_A", "access_token": String::from(v2)}); let v = json!({"credential_definition": {"credentialSubject": {}, "type": l0}, "format": "jwt_vc_json", "credential_issuer": "CONST_A", "access_token": v2}); same("credential", r, &v); }
        3 => { let r = credential_request!({"credential_definition": {"@context": ["#k", "\"q\""], "credentialSubject": {"locality": {"street": {}, "a-b": {}}, "address": {}}, "type": ["{\"a\":1}", pass(v1), vars.a.clone()]}, "format": "jwt_vc_json", "access_token": pass(v3), "credential_issuer": "é%20+"}); let v = json!({"credential_definition": {"@context": ["#k", "\"q\""], "credentialSubject": {"locality": {"street": {}, "a-b": {}}, "address": {}}, "type": ["{\"a\":1}", v1, vars.a]}, "format": "jwt_vc_json", "access_token": v3, "credential_issuer": "é%20+"}); same("credential", r, &v); }
        4 => { let r = credential_request!({"proof": {"proof_type": "jwt", "jwt": t2.clone(),}, "credential_definition": {"type": l0.clone()}, "access_token": "é%20+", "format": "jwt_vc_json", "credential_issuer": "a=b&c=d"}); let v = json!({"proof": {"proof_type": "jwt", "jwt": t2}, "credential_definition": {"type": l0}, "access_token": "é%20+", "format": "jwt_vc_json", "credential_issuer": "a=b&c=d"}); same("credential", r, &v); }
        5 => { let r = credential_request!({"credential_definition": {"credentialSubject": {"email": {"value_type": "number",}, "a-b": {"value_type": "image",},}, "type": [pass(v3)]}, "access_token": v3.to_string(), "credential_issuer": String::from(v3), "proof": {"proof_type": "jwt", "jwt": "null",}, "format": "jwt_vc_json",}); let v = json!({"credential_definition": {"credentialSubject": {"email": {"value_type": "number"}, "a-b": {"value_type": "image"}}, "type": [v3]}, "access_token": v3, "credential_issuer": v3, "proof": {"proof_type": "jwt", "jwt": "null"}, "format": "jwt_vc_json"}); same("credential", r, &v); }
        6 => { let r = credential_request!({"credential_issuer": pass(v3), "credential_identifier": v0.to_string(), "access_token": vars.inner.name.clone()}); let v = json!({"credential_issuer": v3, "credential_identifier": v0, "access_token": vars.inner.name}); same("credential", r, &v); }
        7 => { let r = credential_request!({"credential_definition": {"type": ["\"q\"", ""], "credentialSubject": {"é": {"value_type": "number"}, "x y": {"value_type": "string",}, "locality": {},},}, "proof": {"proof_type": "jwt", "jwt": ""}, "access_token": pass(v1), "credential_issuer": v3, "format": "jwt_vc_json"}); let v = json!({"credential_definition": {"type": ["\"q\"", ""], "credentialSubject": {"é": {"value_type": "number"}, "x y": {"value_type": "string"}, "locality": {}}}, "proof": {"proof_type": "jwt", "jwt": ""}, "access_token": v1, "credential_issuer": v3, "format": "jwt_vc_json"}); same("credential", r, &v); }
        8 => { let r = credential_request!({"access_token": v2.to_string(), "credential_issuer": String::from(v1), "proof": {"jwt": pass(v3), "proof_type": "jwt",}, "credential_identifier": v3.to_string()}); let v = json!({"access_token": v2, "credential_issuer": v1, "proof": {"jwt": v3, "proof_type": "jwt"}, "credential_identifier": v3}); same("credential", r, &v); }
        9 => { let r = credential_request!({"credential_identifier": vars.inner.name.clone(), "credential_issuer": "a=b&c=d", "proof": {"jwt": CONST_A, "proof_type": "jwt",}, "access_token": CONST_A,}); let v = json!({"credential_identifier": vars.inner.name, "credential_issuer": "a=b&c=d", "proof": {"jwt": CONST_A, "proof_type": "jwt"}, "access_token": CONST_A}); same("credential", r, &v); }
        _ => {}
    }
}

/// One written request of any kind, with values drawn by the schedule.
pub fn written() {
    match pick(21) {
        0 => offer_0(pick(10)),
        1 => offer_1(pick(10)),
        2 => offer_2(pick(10)),
        3 => offer_3(pick(10)),
        4 => authorization_0(pick(10)),
        5 => authorization_1(pick(10)),
        6 => authorization_2(pick(10)),
        7 => authorization_3(pick(10)),
        8 => authorization_4(pick(10)),
        9 => authorization_5(pick(10)),
        10 => authorization_6(pick(10)),
        11 => token_0(pick(10)),
        12 => token_1(pick(10)),
        13 => token_2(pick(10)),
        14 => token_3(pick(10)),
        15 => token_4(pick(10)),
        16 => credential_0(pick(10)),
        17 => credential_1(pick(10)),
        18 => credential_2(pick(10)),
        19 => credential_3(pick(10)),
        20 => credential_4(pick(10)),
        _ => {}
    }
}

/// The token request of a running flow, through the macro.
fn token_of(v: &Value) -> Option<Value> {
    let has = |k: &str| !v[k].is_null();
    let d = v["authorization_details"].as_array().cloned().unwrap_or_default();
    let plain = d.iter().all(|d| d.as_object().is_some_and(|o| o.len() == 2 && o.contains_key("credential_configuration_id")));
    let c = |k: usize| d.get(k).map(|d| s(d, "credential_configuration_id")).unwrap_or_default();
    let (c0, c1, c2) = (c(0), c(1), c(2));
    let fmt = d.len() == 1 && d[0]["format"] == "jwt_vc_json" && d[0].as_object().is_some_and(|o| o.len() == 3)
        && d[0]["credential_definition"].as_object().is_some_and(|o| o.len() == 1 && o.contains_key("type"));
    let types = list(&d.first().map_or(Value::Null, |d| d["credential_definition"]["type"].clone()));
    let known = |ks: &[&str]| v.as_object().is_some_and(|o| o.keys().all(|k| ks.contains(&k.as_str())));

    if !known(&["credential_issuer", "grant_type", "client_id", "authorization_details", "pre-authorized_code", "tx_code", "code", "code_verifier", "redirect_uri"]) { return None; }
    if v["grant_type"] == "urn:ietf:params:oauth:grant-type:pre-authorized_code" && has("pre-authorized_code") {
    if !has("client_id") && !has("tx_code") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code")}), v); }
    if !has("client_id") && !has("tx_code") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("client_id") && !has("tx_code") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("client_id") && !has("tx_code") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("client_id") && !has("tx_code") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("client_id") && has("tx_code") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "tx_code": s(v, "tx_code")}), v); }
    if !has("client_id") && has("tx_code") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("client_id") && has("tx_code") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("client_id") && has("tx_code") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("client_id") && has("tx_code") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("client_id") && !has("tx_code") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id")}), v); }
    if has("client_id") && !has("tx_code") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("client_id") && !has("tx_code") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("client_id") && !has("tx_code") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("client_id") && !has("tx_code") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("client_id") && has("tx_code") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "tx_code": s(v, "tx_code")}), v); }
    if has("client_id") && has("tx_code") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("client_id") && has("tx_code") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("client_id") && has("tx_code") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("client_id") && has("tx_code") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "urn:ietf:params:oauth:grant-type:pre-authorized_code", "pre-authorized_code": s(v, "pre-authorized_code"), "client_id": s(v, "client_id"), "tx_code": s(v, "tx_code"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    }
    if v["grant_type"] == "authorization_code" && has("code") && has("code_verifier") {
    if !has("client_id") && !has("redirect_uri") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier")}), v); }
    if !has("client_id") && !has("redirect_uri") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("client_id") && !has("redirect_uri") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("client_id") && !has("redirect_uri") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("client_id") && !has("redirect_uri") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("client_id") && has("redirect_uri") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "redirect_uri": s(v, "redirect_uri")}), v); }
    if !has("client_id") && has("redirect_uri") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("client_id") && has("redirect_uri") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("client_id") && has("redirect_uri") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("client_id") && has("redirect_uri") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("client_id") && !has("redirect_uri") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id")}), v); }
    if has("client_id") && !has("redirect_uri") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("client_id") && !has("redirect_uri") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("client_id") && !has("redirect_uri") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("client_id") && !has("redirect_uri") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("client_id") && has("redirect_uri") && d.len() == 0 && !has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "redirect_uri": s(v, "redirect_uri")}), v); }
    if has("client_id") && has("redirect_uri") && d.len() == 1 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("client_id") && has("redirect_uri") && d.len() == 2 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("client_id") && has("redirect_uri") && d.len() == 3 && has("authorization_details") && plain { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("client_id") && has("redirect_uri") && d.len() == 1 && has("authorization_details") && fmt { return same("token", token_request!({"credential_issuer": s(v, "credential_issuer"), "grant_type": "authorization_code", "code": s(v, "code"), "code_verifier": s(v, "code_verifier"), "client_id": s(v, "client_id"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    }
    None
}

/// The authorization request of a running flow.
fn authorization_of(v: &Value) -> Option<Value> {
    let has = |k: &str| !v[k].is_null();
    let d = v["authorization_details"].as_array().cloned().unwrap_or_default();
    let plain = d.iter().all(|d| d.as_object().is_some_and(|o| o.len() == 2 && o.contains_key("credential_configuration_id")));
    let c = |k: usize| d.get(k).map(|d| s(d, "credential_configuration_id")).unwrap_or_default();
    let (c0, c1, c2) = (c(0), c(1), c(2));
    let fmt = d.len() == 1 && d[0]["format"] == "jwt_vc_json" && d[0].as_object().is_some_and(|o| o.len() == 3)
        && d[0]["credential_definition"].as_object().is_some_and(|o| o.len() == 1 && o.contains_key("type"));
    let types = list(&d.first().map_or(Value::Null, |d| d["credential_definition"]["type"].clone()));
    let known = |ks: &[&str]| v.as_object().is_some_and(|o| o.keys().all(|k| ks.contains(&k.as_str())));

    if !known(&["credential_issuer", "response_type", "client_id", "redirect_uri", "state", "code_challenge", "code_challenge_method", "authorization_details", "scope", "subject_id", "issuer_state", "user_hint", "wallet_issuer", "resource"]) { return None; }
    if has("user_hint") != has("wallet_issuer") || has("user_hint") != has("resource") || v["response_type"] != "code" || v["code_challenge_method"] != "S256" { return None; }
    if has("user_hint") {
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource")}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope")}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state")}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope")}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri")}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope")}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state")}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope")}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "user_hint": s(v, "user_hint"), "wallet_issuer": s(v, "wallet_issuer"), "resource": s(v, "resource"), "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    } else {
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256"}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope")}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state")}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope")}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if !has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri")}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope")}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && !has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state")}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && !has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope")}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && !has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 0 && !has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state")}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 2 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 3 && has("authorization_details") && plain { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "credential_configuration_id": c0}, {"type": "openid_credential", "credential_configuration_id": c1}, {"type": "openid_credential", "credential_configuration_id": c2}]}), v); }
    if has("redirect_uri") && has("state") && has("scope") && has("issuer_state") && d.len() == 1 && has("authorization_details") && fmt { return same("authorization", authorization_request!({"credential_issuer": s(v, "credential_issuer"), "client_id": s(v, "client_id"), "code_challenge": s(v, "code_challenge"), "subject_id": s(v, "subject_id"), "response_type": "code", "code_challenge_method": "S256", "redirect_uri": s(v, "redirect_uri"), "state": s(v, "state"), "scope": s(v, "scope"), "issuer_state": s(v, "issuer_state"), "authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]}), v); }
    }
    None
}

/// The offer request of a running flow.
fn offer_of(v: &Value) -> Option<Value> {
    let has = |k: &str| !v[k].is_null();
    let ids = list(&v["credential_configuration_ids"]);
    let i = |k: usize| ids.get(k).cloned().unwrap_or_default();
    let (i0, i1, i2) = (i(0), i(1), i(2));
    let grants = list(&v["grant_types"]);
    let tx = v["tx_code_required"] == true;
    if !has("subject_id") && ids.len() == 1 && !has("grant_types") { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type")}), v); }
    if !has("subject_id") && ids.len() == 1 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if !has("subject_id") && ids.len() == 1 && grants == ["authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["authorization_code"]}), v); }
    if !has("subject_id") && ids.len() == 1 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}), v); }
    if !has("subject_id") && ids.len() == 1 && grants == ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if !has("subject_id") && ids.len() == 2 && !has("grant_types") { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type")}), v); }
    if !has("subject_id") && ids.len() == 2 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if !has("subject_id") && ids.len() == 2 && grants == ["authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["authorization_code"]}), v); }
    if !has("subject_id") && ids.len() == 2 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}), v); }
    if !has("subject_id") && ids.len() == 2 && grants == ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if !has("subject_id") && ids.len() == 3 && !has("grant_types") { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type")}), v); }
    if !has("subject_id") && ids.len() == 3 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if !has("subject_id") && ids.len() == 3 && grants == ["authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["authorization_code"]}), v); }
    if !has("subject_id") && ids.len() == 3 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}), v); }
    if !has("subject_id") && ids.len() == 3 && grants == ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if has("subject_id") && ids.len() == 1 && !has("grant_types") { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id")}), v); }
    if has("subject_id") && ids.len() == 1 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if has("subject_id") && ids.len() == 1 && grants == ["authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["authorization_code"]}), v); }
    if has("subject_id") && ids.len() == 1 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}), v); }
    if has("subject_id") && ids.len() == 1 && grants == ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if has("subject_id") && ids.len() == 2 && !has("grant_types") { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id")}), v); }
    if has("subject_id") && ids.len() == 2 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if has("subject_id") && ids.len() == 2 && grants == ["authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["authorization_code"]}), v); }
    if has("subject_id") && ids.len() == 2 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}), v); }
    if has("subject_id") && ids.len() == 2 && grants == ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if has("subject_id") && ids.len() == 3 && !has("grant_types") { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id")}), v); }
    if has("subject_id") && ids.len() == 3 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    if has("subject_id") && ids.len() == 3 && grants == ["authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["authorization_code"]}), v); }
    if has("subject_id") && ids.len() == 3 && grants == ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"]}), v); }
    if has("subject_id") && ids.len() == 3 && grants == ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"] { return same("offer", create_offer_request!({"credential_issuer": s(v, "credential_issuer"), "credential_configuration_ids": [i0, i1, i2], "tx_code_required": tx, "send_type": s(v, "send_type"), "subject_id": s(v, "subject_id"), "grant_types": ["authorization_code", "urn:ietf:params:oauth:grant-type:pre-authorized_code"]}), v); }
    None
}

/// The credential request of a running flow.
fn credential_of(v: &Value) -> Option<Value> {
    let has = |k: &str| !v[k].is_null();
    let cd = &v["credential_definition"];
    let types = list(&cd["type"]);
    let bare = cd.as_object().is_some_and(|o| o.len() == 1 && o.contains_key("type"));
    if has("proofs") || has("credential_response_encryption") || (has("proof") && (v["proof"]["proof_type"] != "jwt" || !v["proof"]["jwt"].is_string())) { return None; }
    let jwt = s(&v["proof"], "jwt");
    if has("credential_identifier") && !has("format") && !has("proof") { return same("credential", credential_request!({"credential_issuer": s(v, "credential_issuer"), "access_token": s(v, "access_token"), "credential_identifier": s(v, "credential_identifier")}), v); }
    if has("credential_identifier") && !has("format") && has("proof") { return same("credential", credential_request!({"credential_issuer": s(v, "credential_issuer"), "access_token": s(v, "access_token"), "credential_identifier": s(v, "credential_identifier"), "proof": {"proof_type": "jwt", "jwt": jwt}}), v); }
    if !has("credential_identifier") && v["format"] == "jwt_vc_json" && bare && !has("proof") { return same("credential", credential_request!({"credential_issuer": s(v, "credential_issuer"), "access_token": s(v, "access_token"), "format": "jwt_vc_json", "credential_definition": {"type": types}}), v); }
    if !has("credential_identifier") && v["format"] == "jwt_vc_json" && bare && has("proof") { return same("credential", credential_request!({"credential_issuer": s(v, "credential_issuer"), "access_token": s(v, "access_token"), "format": "jwt_vc_json", "credential_definition": {"type": types}, "proof": {"proof_type": "jwt", "jwt": jwt}}), v); }
    None
}

/// Rebuilds a request of a running flow with the macro of its endpoint, if one is written for its shape.
pub fn remake(ep: &str, v: &Value) -> Option<Value> {
    match ep {
        "create_offer" => offer_of(v),
        "token" => token_of(v),
        "authorize" => authorization_of(v),
        "credential" => credential_of(v),
        _ => None,
    }
}
