#!/usr/bin/env python3
"""Writes sim/src/macros.rs: requests written with the request macros, each beside the same JSON."""
import itertools, json, os, random
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = random.Random(20251117)
PRE, AUTH = "urn:ietf:params:oauth:grant-type:pre-authorized_code", "authorization_code"
out = []
w = out.append
w('''//! Written by tools/mkmacros.py. Requests built with the request macros, each held against the same JSON.

#![allow(clippy::all, unused_variables)]
#![cfg_attr(rustfmt, rustfmt::skip)]

use serde::de::DeserializeOwned;
use serde::Serialize;
use serde_json::{json, Value};
use vercre_macros::{authorization_request, create_offer_request, credential_request, token_request};

use crate::exec::{pick, with};

const CONST_A: &str = "http://const.sim/?a=b&c";

struct Inner { name: String, flag: bool }
struct Vars { a: String, inner: Inner }
fn pass(s: &str) -> String { s.to_string() }

/// Does the macro's request equal the one its JSON decodes to? Hands back what goes on the wire.
fn same<T: Serialize + DeserializeOwned>(name: &str, made: T, v: &Value) -> Option<Value> {
    let made = serde_json::to_value(&made).ok()?;
    match serde_json::from_value::<T>(v.clone()) {
        Ok(read) => {
            let read = serde_json::to_value(&read).ok()?;
            with(|w| {
                w.x.count("macro.compared");
                if made != read {
                    w.violate(&["C16"], format!("macro:{name}"), format!("the macro makes {made}, the JSON {v} means {read}"));
                }
            });
        }
        Err(e) => with(|w| {
            w.x.count("macro.undecodable");
            w.x.ev(|| format!("{name}: {v} is not a request: {e}"));
        }),
    }
    Some(made)
}

fn text() -> String {
    const ODD: &[&str] = &["plain", "", " a b ", "\\"q\\"", "a=b&c=d", "é%20+", "{\\"a\\":1}", "null", "12", "\\\\", "x.to_string()", "#k", "line\\nline", "http://x.sim/?q=1#f"];
    ODD[pick(ODD.len() as u32) as usize].to_string()
}

fn s(v: &Value, k: &str) -> String { v[k].as_str().unwrap_or_default().to_string() }
fn list(v: &Value) -> Vec<String> { v.as_array().into_iter().flatten().filter_map(|x| x.as_str().map(str::to_string)).collect() }
''')

def lit(s): return json.dumps(s, ensure_ascii=False)

ODD = ["plain", "", " a b ", '"q"', "a=b&c=d", "é%20+", '{"a":1}', "null", "12", "x.to_string()", "#k", "http://x.sim/?q=1#f", "CONST_A"]
def top():
    """a string value at the top level: macro text, JSON text"""
    k = R.randrange(11)
    n = R.randrange(4)
    if k <= 1:
        x = R.choice(ODD); return lit(x), lit(x)
    if k == 2: return f"v{n}", f"v{n}"
    if k == 3: return f"&v{n}", f"v{n}"
    if k == 4: return f"t{n}.clone()", f"t{n}"
    if k == 5: return f"String::from(v{n})", f"v{n}"
    if k == 6: return f"pass(v{n})", f"v{n}"
    if k == 7: return "CONST_A", "CONST_A"
    if k == 8: return "vars.inner.name.clone()", "vars.inner.name"
    if k == 9: return f'vars.a.clone() + "x" + &t{n}', f'(vars.a.clone() + "x" + &t{n})'
    return f"v{n}.to_string()", f"v{n}"
def nest():
    """one that has to be an owned string"""
    k = R.randrange(6); n = R.randrange(4)
    if k <= 2:
        x = R.choice(ODD); return lit(x), lit(x)
    if k == 3: return f"t{n}.clone()", f"t{n}"
    if k == 4: return f"pass(v{n})", f"v{n}"
    return "vars.a.clone()", "vars.a"
def arr(lo, hi):
    xs = [nest() for _ in range(R.randint(lo, hi))]
    return "[" + ", ".join(x[0] for x in xs) + "]", "[" + ", ".join(x[1] for x in xs) + "]"
def obj(fs):
    R.shuffle(fs)
    tail = R.choice(["", ","])
    return ("{" + ", ".join(f"{lit(k)}: {m}" for k, (m, j) in fs) + (tail if fs else "") + "}",
            "{" + ", ".join(f"{lit(k)}: {j}" for k, (m, j) in fs) + "}")
NAMES = ["given_name", "family_name", "email", "address", "locality", "street", "a-b", "é", "org.iso.18013.5.1", "x y"]
def claims(depth=0):
    fs = []
    for n in R.sample(NAMES, R.randint(0 if depth == 0 else 1, 3)):
        k = R.randrange(5)
        if k == 0 and depth < 2: fs.append((n, claims(depth + 1)))
        elif k == 1: fs.append((n, obj([("mandatory", R.choice([("true",) * 2, ("false",) * 2, ("b0", "b0")]))])))
        elif k == 2: fs.append((n, obj([("value_type", (lambda x: (x, x))(lit(R.choice(["string", "number", "image"]))))])))
        else: fs.append((n, obj([])))
    return obj(fs)
def definition(need_type):
    fs = []
    if need_type or R.random() < .5:
        fs.append(("type", R.choice([arr(1, 3), ("l0.clone()", "l0")])))
    if R.random() < .3: fs.append(("@context", arr(1, 2)))
    if R.random() < .7: fs.append(("credentialSubject", claims()))
    return obj(fs)
def detail():
    fs = [("type", ('"openid_credential"',) * 2)]
    if R.random() < .3: fs.append(("locations", arr(1, 2)))
    if R.random() < .6:
        fs.append(("credential_configuration_id", nest()))
        k = R.random()
        if k < .45: fs.append(("credential_definition", definition(False)))
        elif k < .6: fs.append(("claims", claims()))
    else:
        fs += [("format", ('"jwt_vc_json"',) * 2), ("credential_definition", definition(True))]
    return obj(fs)
def details():
    xs = [detail() for _ in range(R.choice([1, 1, 2, 3]))]
    return "[" + ", ".join(x[0] for x in xs) + "]", "[" + ", ".join(x[1] for x in xs) + "]"
def opt(fs, names, p=.5):
    for n in names:
        if R.random() < p: fs.append((n, top()))

def offer():
    fs = [("credential_issuer", top()), ("credential_configuration_ids", arr(1, 3))]
    opt(fs, ["subject_id"])
    js = list(fs)
    if R.random() < .7:
        g = R.choice([[PRE], [AUTH], [PRE, AUTH], [AUTH, PRE]])
        fs.append(("grant_types", (json.dumps(g),) * 2)); js.append(fs[-1])
    if R.random() < .7:
        fs.append(("tx_code_required", R.choice([("true", "true"), ("false", "false"), ("b0", "b0"), ("vars.inner.flag", "vars.inner.flag")])))
        js.append(fs[-1])
    else: js.append(("tx_code_required", ("", "false")))
    if R.random() < .7:
        fs.append(("send_type", R.choice([("vercre_issuer::SendType::ByRef", '"ByRef"'), ("vercre_issuer::SendType::ByVal", '"ByVal"'), ('"by_ref"', '"ByRef"'), ('"by_val"', '"ByVal"'), ('"ByRef"', '"ByRef"'), ('"ByVal"', '"ByVal"')])))
        js.append(fs[-1])
    else: js.append(("send_type", ("", '"ByVal"')))
    m, _ = obj(fs); _, j = obj(js)
    return m, j
def auth():
    fs = [("credential_issuer", top()), ("response_type", ('"code"',) * 2), ("client_id", top()), ("code_challenge", top()),
          ("code_challenge_method", ('"S256"',) * 2), ("subject_id", top())]
    opt(fs, ["redirect_uri", "state", "scope", "resource", "wallet_issuer", "user_hint", "issuer_state"], .4)
    if R.random() < .7: fs.append(("authorization_details", details()))
    return obj(fs)
def token():
    fs = [("credential_issuer", top())]
    opt(fs, ["client_id"])
    if R.random() < .5:
        fs += [("grant_type", (lit(PRE),) * 2), ("pre-authorized_code", top())]
        opt(fs, ["tx_code"])
    else:
        fs += [("grant_type", (lit(AUTH),) * 2), ("code", top()), ("code_verifier", top())]
        opt(fs, ["redirect_uri"])
    if R.random() < .5: fs.append(("authorization_details", details()))
    return obj(fs)
def cred():
    fs = [("credential_issuer", top()), ("access_token", top())]
    if R.random() < .5: fs.append(("credential_identifier", top()))
    else: fs += [("format", ('"jwt_vc_json"',) * 2), ("credential_definition", definition(True))]
    if R.random() < .6: fs.append(("proof", obj([("proof_type", ('"jwt"',) * 2), ("jwt", top())])))
    return obj(fs)

VARS = '''    let (t0, t1, t2, t3) = (text(), text(), text(), text());
    let (v0, v1, v2, v3) = (t0.as_str(), t1.as_str(), t2.as_str(), t3.as_str());
    let b0 = pick(2) == 1;
    let vars = Vars { a: text(), inner: Inner { name: text(), flag: pick(2) == 1 } };
    let l0: Vec<String> = (0..pick(4)).map(|_| text()).collect();
'''
GROUPS = [("offer", "create_offer_request", offer, 40), ("authorization", "authorization_request", auth, 70),
          ("token", "token_request", token, 50), ("credential", "credential_request", cred, 50)]
calls = []
for name, mac, f, n in GROUPS:
    for block in range(0, n, 10):
        fn = f"{name}_{block // 10}"
        w(f"fn {fn}(k: u32) {{\n{VARS}    match k {{")
        for k in range(10):
            m, j = f()
            body = f'let r = {mac}!({m});'
            r = "serde_json::to_value(&r)" if False else "r"
            w(f'        {k} => {{ {body} let v = json!({j}); same("{name}", r, &v); }}')
        w("        _ => {}\n    }\n}\n")
        calls.append(fn)
w("/// One written request of any kind, with values drawn by the schedule.\npub fn written() {")
w(f"    match pick({len(calls)}) {{")
for i, c in enumerate(calls): w(f"        {i} => {c}(pick(10)),")
w("        _ => {}\n    }\n}\n")

# requests of running flows, by shape
def dets(n, fmt):
    if n == 0: return ""
    if fmt: return '"authorization_details": [{"type": "openid_credential", "format": "jwt_vc_json", "credential_definition": {"type": types}}]'
    return '"authorization_details": [' + ", ".join(f'{{"type": "openid_credential", "credential_configuration_id": c[{k}].clone()}}'.replace(f"c[{k}].clone()", f"c{k}") for k in range(n)) + "]"
def shape(keys, n): return " && ".join([f'{"" if on else "!"}has("{k}")' for k, on in keys] + n)
PRO = '''    let has = |k: &str| !v[k].is_null();
    let d = v["authorization_details"].as_array().cloned().unwrap_or_default();
    let plain = d.iter().all(|d| d.as_object().is_some_and(|o| o.len() == 2 && o.contains_key("credential_configuration_id")));
    let c = |k: usize| d.get(k).map(|d| s(d, "credential_configuration_id")).unwrap_or_default();
    let (c0, c1, c2) = (c(0), c(1), c(2));
    let fmt = d.len() == 1 && d[0]["format"] == "jwt_vc_json" && d[0].as_object().is_some_and(|o| o.len() == 3)
        && d[0]["credential_definition"].as_object().is_some_and(|o| o.len() == 1 && o.contains_key("type"));
    let types = list(&d.first().map_or(Value::Null, |d| d["credential_definition"]["type"].clone()));
    let known = |ks: &[&str]| v.as_object().is_some_and(|o| o.keys().all(|k| ks.contains(&k.as_str())));
'''
def cases(name, mac, fixed, optional, conv):
    for on in itertools.product([False, True], repeat=len(optional)):
        for n, f in [(0, 0), (1, 0), (2, 0), (3, 0), (1, 1)]:
            cond = shape(list(zip(optional, on)), [f"d.len() == {n}", 'has("authorization_details")' if n else '!has("authorization_details")', "fmt" if f else "plain"])
            fs = list(fixed) + [(k, conv.get(k, f's(v, "{k}")')) for k, o in zip(optional, on) if o]
            body = ", ".join([f"{lit(k)}: {e}" for k, e in fs] + ([dets(n, f)] if n else []))
            w(f"    if {cond} {{ return same(\"{name}\", {mac}!({{{body}}}), v); }}")
w("/// The token request of a running flow, through the macro.\nfn token_of(v: &Value) -> Option<Value> {\n" + PRO)
w('    if !known(&["credential_issuer", "grant_type", "client_id", "authorization_details", "pre-authorized_code", "tx_code", "code", "code_verifier", "redirect_uri"]) { return None; }')
w(f'    if v["grant_type"] == "{PRE}" && has("pre-authorized_code") {{')
cases("token", "token_request", [("credential_issuer", 's(v, "credential_issuer")'), ("grant_type", lit(PRE)), ("pre-authorized_code", 's(v, "pre-authorized_code")')], ["client_id", "tx_code"], {})
w("    }")
w(f'    if v["grant_type"] == "{AUTH}" && has("code") && has("code_verifier") {{')
cases("token", "token_request", [("credential_issuer", 's(v, "credential_issuer")'), ("grant_type", lit(AUTH)), ("code", 's(v, "code")'), ("code_verifier", 's(v, "code_verifier")')], ["client_id", "redirect_uri"], {})
w("    }\n    None\n}\n")
w("/// The authorization request of a running flow.\nfn authorization_of(v: &Value) -> Option<Value> {\n" + PRO)
w('    if !known(&["credential_issuer", "response_type", "client_id", "redirect_uri", "state", "code_challenge", "code_challenge_method", "authorization_details", "scope", "subject_id", "issuer_state", "user_hint", "wallet_issuer", "resource"]) { return None; }')
w('    if has("user_hint") != has("wallet_issuer") || has("user_hint") != has("resource") || v["response_type"] != "code" || v["code_challenge_method"] != "S256" { return None; }')
fixed = [(k, f's(v, "{k}")') for k in ["credential_issuer", "client_id", "code_challenge", "subject_id"]] + [("response_type", '"code"'), ("code_challenge_method", '"S256"')]
w('    if has("user_hint") {')
cases("authorization", "authorization_request", fixed + [(k, f's(v, "{k}")') for k in ["user_hint", "wallet_issuer", "resource"]], ["redirect_uri", "state", "scope", "issuer_state"], {})
w("    } else {")
cases("authorization", "authorization_request", fixed, ["redirect_uri", "state", "scope", "issuer_state"], {})
w("    }\n    None\n}\n")
w("/// The offer request of a running flow.\nfn offer_of(v: &Value) -> Option<Value> {\n    let has = |k: &str| !v[k].is_null();")
w('    let ids = list(&v["credential_configuration_ids"]);\n    let i = |k: usize| ids.get(k).cloned().unwrap_or_default();\n    let (i0, i1, i2) = (i(0), i(1), i(2));\n    let grants = list(&v["grant_types"]);\n    let tx = v["tx_code_required"] == true;')
for sub in (False, True):
    for n in (1, 2, 3):
        for g in (None, [PRE], [AUTH], [PRE, AUTH], [AUTH, PRE]):
            cond = f'{"" if sub else "!"}has("subject_id") && ids.len() == {n} && ' + (f'grants == {json.dumps(g)}' if g else '!has("grant_types")')
            fs = ['"credential_issuer": s(v, "credential_issuer")', '"credential_configuration_ids": [' + ", ".join(f"i{k}" for k in range(n)) + "]", '"tx_code_required": tx', '"send_type": s(v, "send_type")']
            if sub: fs.append('"subject_id": s(v, "subject_id")')
            if g: fs.append(f'"grant_types": {json.dumps(g)}')
            w(f"    if {cond} {{ return same(\"offer\", create_offer_request!({{{', '.join(fs)}}}), v); }}")
w("    None\n}\n")
w("/// The credential request of a running flow.\nfn credential_of(v: &Value) -> Option<Value> {\n    let has = |k: &str| !v[k].is_null();")
w('    let cd = &v["credential_definition"];\n    let types = list(&cd["type"]);\n    let bare = cd.as_object().is_some_and(|o| o.len() == 1 && o.contains_key("type"));')
w('    if has("proofs") || has("credential_response_encryption") || (has("proof") && (v["proof"]["proof_type"] != "jwt" || !v["proof"]["jwt"].is_string())) { return None; }\n    let jwt = s(&v["proof"], "jwt");')
for ident in (True, False):
    for proof in (False, True):
        fs = ['"credential_issuer": s(v, "credential_issuer")', '"access_token": s(v, "access_token")']
        fs += ['"credential_identifier": s(v, "credential_identifier")'] if ident else ['"format": "jwt_vc_json"', '"credential_definition": {"type": types}']
        if proof: fs.append('"proof": {"proof_type": "jwt", "jwt": jwt}')
        cond = ('has("credential_identifier") && !has("format")' if ident else '!has("credential_identifier") && v["format"] == "jwt_vc_json" && bare') + f' && {"" if proof else "!"}has("proof")'
        w(f"    if {cond} {{ return same(\"credential\", credential_request!({{{', '.join(fs)}}}), v); }}")
w("    None\n}\n")
w('''/// Rebuilds a request of a running flow with the macro of its endpoint, if one is written for its shape.
pub fn remake(ep: &str, v: &Value) -> Option<Value> {
    match ep {
        "create_offer" => offer_of(v),
        "token" => token_of(v),
        "authorize" => authorization_of(v),
        "credential" => credential_of(v),
        _ => None,
    }
}
''')
open(f"{V}/sim/src/macros.rs", "w").write("\n".join(out))
