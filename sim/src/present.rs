//! Hand-built presentations: a verifier's application asks, a wallet written from the specification answers.

use serde_json::{json, Value};
use vercre_openid::verifier as ov;
use vercre_openid::verifier::RequestObjectType;

use crate::exec::{chance, one_of, pick, with, SEC};
use crate::issue::{any_loot, fire, mutate, pause, stuck, tried, Mode, Res, Stop};
use crate::matching;
use crate::net::{call, Fail, Target};
use crate::oracle;
use crate::world::{add_loot, Key};

fn now_secs() -> i64 {
    with(|w| w.x.now / SEC)
}

fn verifier_id(v: usize) -> String {
    with(|w| w.setup.verifiers[v].id.clone())
}

pub fn holder(n: u32) -> Key {
    if pick(2) == 0 {
        Key::did_key(&format!("holder{n}"))
    } else {
        Key::did_web(&format!("holder{n}.sim"))
    }
}

/// Signs a credential with an issuer's key, as the issuer would.
pub fn mint(vc: &Value, subject: &str, key: &Key) -> String {
    let mut c = json!({"sub": subject, "iss": "http://issuer0.sim", "iat": now_secs(), "jti": vc["id"], "vc": vc});
    if pick(2) == 1 {
        c["nbf"] = json!(now_secs());
    }
    oracle::sign_jwt("jwt", &c, key)
}

fn stamp(secs: i64) -> String {
    chrono::DateTime::from_timestamp(secs, 0).map(|t| t.format("%Y-%m-%dT%H:%M:%SZ").to_string()).unwrap_or_default()
}

/// A credential to present and its content.
#[derive(Clone)]
struct Card {
    jwt: String,
    vc: Value,
}

/// One really issued in this run, or one made up and signed with the issuer's key.
fn card(did: &str) -> Card {
    // what a client was sent may have been altered on its way, so only what was issued counts
    let issued = with(|w| w.loot.vcs.iter().filter(|c| w.model.vcs.contains(c)).cloned().collect::<Vec<_>>());
    if !issued.is_empty() && pick(2) == 0 {
        let jwt = one_of(&issued);
        let vc = with(|w| oracle::jwt(&jwt, &w.setup.dids)).map_or(Value::Null, |j| j.claims["vc"].clone());
        if vc.is_object() {
            return Card { jwt, vc };
        }
    }
    let mut vc = matching::credential(did);
    if pick(3) == 0 {
        // expires in a while
        vc["validUntil"] = json!(stamp(now_secs() + [200, 290, 310, 100_000][pick(4) as usize]));
    }
    let key = with(|w| w.setup.issuers[0].key.clone());
    let jwt = mint(&vc, did, &key);
    with(|w| w.model.vcs.push(jwt.clone()));
    Card { jwt, vc }
}

/// What a verifier's application asks for, and credentials that meet it.
fn ask() -> (Vec<Value>, Vec<Card>) {
    let did = holder(0).did;
    let n = [1, 1, 1, 2, 3][pick(5) as usize];
    let (mut descs, mut cards) = (vec![], vec![]);
    for k in 0..n {
        let c = card(&did);
        let cons = if pick(4) > 0 { matching::met_by(&c.vc) } else { None }.unwrap_or_else(|| {
            let t = match &c.vc["type"] {
                Value::Array(a) => a.last().cloned().unwrap_or_default(),
                t => t.clone(),
            };
            json!({"fields": [{"path": ["$.type"], "filter": {"type": "string", "const": t}}]})
        });
        let mut d = json!({"id": format!("desc-{k}"), "constraints": cons});
        match pick(4) {
            0 => d["format"] = json!({"jwt_vc_json": {"alg": ["EdDSA"]}}),
            1 => d["format"] = json!({"jwt_vc": {"alg": ["EdDSA"]}, "jwt_vc_json": {"alg": ["EdDSA"], "proof_type": ["x"]}}),
            _ => {}
        }
        if pick(3) == 0 {
            d["name"] = json!(one_of(crate::setup::TEXTS));
            d["purpose"] = json!(one_of(crate::setup::TEXTS));
        }
        descs.push(d);
        cards.push(c);
    }
    (descs, cards)
}

pub fn vp_claims(o: &Value, holder: &Key, cards: &[String]) -> Value {
    let now = now_secs();
    json!({
        "iss": holder.did, "jti": format!("urn:uuid:{:08x}", pick(0xffff_ffff)), "aud": o["client_id"], "nonce": o["nonce"],
        "nbf": now, "iat": now, "exp": now + 3600,
        "vp": {
            "@context": ["https://www.w3.org/2018/credentials/v1"],
            "type": ["VerifiablePresentation", "EmployeeIDPresentation"],
            "verifiableCredential": cards,
            "holder": holder.did
        }
    })
}

/// The request object, fetched the way the response says.
async fn request(v: usize, m: Mode, descs: &[Value]) -> Res<(Value, bool)> {
    let t = Target::Verifier(v);
    let id = verifier_id(v);
    let cross = pick(2) == 0;
    let mut req = json!({
        "client_id": id, "purpose": one_of(crate::setup::TEXTS), "input_descriptors": descs,
        "device_flow": if cross { "CrossDevice" } else { "SameDevice" }, "client_id_scheme": "redirect_uri"
    });
    if mutate(m) {
        match pick(4) {
            0 => req["input_descriptors"] = json!([]),
            1 => req["client_id"] = json!(one_of(&["http://elsewhere.sim", "", "http://verifier0.sim/"])),
            _ => fire(t, "create_request", &req),
        }
    }
    let resp = tried!(
        m,
        "create_request",
        call::<ov::CreateRequestResponse>(t, "create_request", "CreateRequestResponse", &req).await
    );
    let o = match (resp.request_object, resp.request_uri) {
        (Some(o), _) => {
            crate::wire::request_forms(&o);
            json!(o)
        }
        (None, Some(u)) => {
            let mut r = json!({"client_id": id, "id": u.rsplit('/').next().unwrap_or_default()});
            pause(m).await;
            if mutate(m) {
                match pick(5) {
                    0 => fire(t, "request_object", &r),
                    1 => r["id"] = json!(one_of(&with(|w| {
                        let mut s = w.loot.states.clone();
                        s.push("nonsense".into());
                        s
                    }))),
                    2 => r["client_id"] = json!(one_of(&["http://elsewhere.sim", "", "http://verifier1.sim"])),
                    3 => r["id"] = json!(any_loot()),
                    _ => r["client_id"] = json!(format!("{id}/post")),
                }
            }
            let got = tried!(
                m,
                "request_object",
                call::<ov::RequestObjectResponse>(t, "request_object", "RequestObjectResponse", &r).await
            );
            match got.request_object {
                RequestObjectType::Jwt(s) => {
                    let Some(j) = with(|w| oracle::jwt(&s, &w.setup.dids)) else {
                        return if m.honest { stuck(format!("request object {s}")) } else { Err(Stop::Given) };
                    };
                    if let Ok(o) = serde_json::from_value::<ov::RequestObject>(j.claims.clone()) {
                        crate::wire::request_forms(&o);
                    }
                    j.claims
                }
                RequestObjectType::Object(o) => json!(o),
            }
        }
        _ => return if m.honest { stuck("no request object and no link to one") } else { Err(Stop::Given) },
    };
    Ok((o, cross))
}

/// One exchange from the verifier's request to its answer.
pub async fn present(v: usize, m: Mode) -> Res<()> {
    let (descs, mut cards) = ask();
    let (o, _) = request(v, m, &descs).await?;
    let t = Target::Verifier(v);
    pause(m).await;
    if m.honest || with(|w| w.x.now) < 0 {
        // cards may run out while an honest wallet waits: it would not offer those
        let now = now_secs();
        let gone = |c: &Card| {
            c.vc["validUntil"].as_str().and_then(|u| chrono::DateTime::parse_from_rfc3339(u).ok()).is_some_and(|t| t.timestamp() < now + 100)
        };
        if cards.iter().any(gone) {
            return Ok(());
        }
    }
    let key = holder(0);
    let other = Key::did_web("evil.sim");
    let issuer = with(|w| w.setup.issuers[0].key.clone());
    let mut signer = key.clone();
    let mut maps: Vec<Value> = descs
        .iter()
        .map(|d| json!({"id": d["id"], "format": "jwt_vc_json", "path": "$", "path_nested": {"format": "jwt_vc_json"}}))
        .collect();
    // credentials may be changed before they are wrapped
    if mutate(m) {
        let k = pick(cards.len() as u32) as usize;
        match pick(7) {
            0 => {
                // another claim, under the old signature
                let p: Vec<&str> = cards[k].jwt.split('.').collect();
                if let [h, b, s] = p[..] {
                    let mut c: Value = oracle::b64d(b).and_then(|b| serde_json::from_slice(&b).ok()).unwrap_or_default();
                    match c["vc"]["credentialSubject"].as_object_mut() {
                        Some(s) => drop(s.insert("name".into(), json!("Mallory"))),
                        None => c["vc"]["credentialSubject"] = json!({"name": "Mallory"}),
                    }
                    cards[k].jwt = format!("{h}.{}.{s}", oracle::b64e(c.to_string().as_bytes()));
                }
            }
            1 => {
                // the same claims signed by someone who names the issuer's key
                let fake = Key { sk: other.sk.clone(), did: issuer.did.clone(), kid: issuer.kid.clone() };
                cards[k].jwt = mint(&cards[k].vc, &key.did, &fake);
            }
            2 => {
                let mut vc = cards[k].vc.clone();
                vc["validUntil"] = json!(stamp(now_secs() - [1, 5, 60, 86_400][pick(4) as usize]));
                cards[k].jwt = mint(&vc, &key.did, &issuer);
                let j = cards[k].jwt.clone();
                with(|w| w.model.vcs.push(j));
            }
            3 => {
                // a genuine credential that says something else
                let c = card(&key.did);
                cards[k] = c;
            }
            4 => {
                let mut vc = cards[k].vc.clone();
                vc["type"] = json!(["VerifiableCredential", "Nothing"]);
                vc["credentialSubject"] = json!({"id": key.did});
                cards[k].jwt = mint(&vc, &key.did, &issuer);
                let j = cards[k].jwt.clone();
                with(|w| w.model.vcs.push(j));
            }
            5 => cards[k].jwt = one_of(&["", "nonsense", "a.b.c", "eyJhbGciOiJFZERTQSJ9.e30.AAAA"]).to_string(),
            _ => {
                let c = oracle::sign_jwt("jwt", &json!({"sub": key.did, "iss": "x", "iat": now_secs(), "jti": "y"}), &issuer);
                cards[k].jwt = c;
            }
        }
    }
    let jwts: Vec<String> = cards.iter().map(|c| c.jwt.clone()).collect();
    // one presentation with every credential, or one each
    let split = cards.len() > 1 && pick(2) == 0;
    let mut claims: Vec<Value> = vec![];
    if split {
        for (k, j) in jwts.iter().enumerate() {
            claims.push(vp_claims(&o, &key, std::slice::from_ref(j)));
            maps[k]["path"] = json!(format!("$[{k}]"));
            maps[k]["path_nested"]["path"] = json!(format!("$[{k}].verifiableCredential[0]"));
        }
    } else {
        claims.push(vp_claims(&o, &key, &jwts));
        for (k, d) in maps.iter_mut().enumerate() {
            d["path_nested"]["path"] = json!(format!("$.verifiableCredential[{k}]"));
        }
    }
    if pick(3) == 0 {
        maps.reverse();
    }
    if pick(5) == 0 {
        maps.push(json!({"id": "unasked", "format": "jwt_vc_json", "path": "$", "path_nested": {"format": "x", "path": "$.nothing"}}));
    }
    let c = pick(claims.len() as u32) as usize;
    let mut typ = "vp+jwt";
    if mutate(m) {
        match pick(12) {
            0 => claims[c]["nonce"] = json!(one_of(&with(|w| w.loot.nonces.clone()))),
            1 => claims[c]["nonce"] = json!(one_of(&["", "nonsense"])),
            2 => {
                claims[c].as_object_mut().map(|x| x.remove(one_of(&["nonce", "vp", "aud", "iss", "exp"])));
            }
            3 => signer = Key { sk: other.sk.clone(), did: key.did.clone(), kid: key.kid.clone() },
            4 => signer = other.clone(),
            5 => typ = one_of(&["jwt", "openid4vci-proof+jwt", ""]),
            6 => claims[c]["vp"]["verifiableCredential"] = json!([]),
            7 => claims[c]["exp"] = json!(now_secs() - one_of(&[3, 30, 100, 3600, 86_400])),
            8 => {
                // made for somebody else
                let id = o["client_id"].as_str().unwrap_or_default().to_string();
                let base = id.rsplit_once('/').map_or("", |x| x.0).to_string();
                claims[c]["aud"] = json!(one_of(&[
                    String::new(), base.clone(), format!("{base}/post"), format!("{base}/callback"), format!("{id}/"),
                    id.to_uppercase(), "http://verifier9.sim/post".to_string(), format!("{id} "),
                ]));
                if pick(2) == 0 {
                    claims[c]["iss"] = json!(id);
                }
            }
            9 => claims[c]["vp"]["holder"] = json!(one_of(&[other.did.clone(), String::new(), key.kid.clone(), format!("{}x", key.did)])),
            10 => {
                claims[c]["vp"].as_object_mut().map(|x| x.remove("holder"));
            }
            _ => claims[c]["nonce"] = json!(format!("{} ", o["nonce"].as_str().unwrap_or_default())),
        }
    }
    let bad_signer = pick(claims.len() as u32) as usize;
    let mut tokens: Vec<Value> = claims
        .iter()
        .enumerate()
        .map(|(n, c)| json!(oracle::sign_jwt(typ, c, if n == bad_signer { &signer } else { &key })))
        .collect();
    for t in &tokens {
        let s = t.as_str().unwrap_or_default().to_string();
        with(|w| add_loot(&mut w.loot.vps, &s));
    }
    if mutate(m) {
        match pick(6) {
            0 => {
                let all = with(|w| w.loot.vps.clone());
                tokens[0] = json!(one_of(&all));
            }
            1 => {
                let s = tokens[0].as_str().unwrap_or_default();
                tokens[0] = json!(&s[..s.len() - 1 - pick(20) as usize]);
            }
            2 => {
                // changed after signing
                let s = tokens[0].as_str().unwrap_or_default().to_string();
                let p: Vec<&str> = s.split('.').collect();
                let mut x = claims[0].clone();
                x["vp"]["holder"] = json!("did:example:mallory");
                tokens[0] = json!(format!("{}.{}.{}", p[0], oracle::b64e(x.to_string().as_bytes()), p[2]));
            }
            3 => {
                // a second presentation nobody signed for this request
                let mut x = claims[0].clone();
                x["nonce"] = json!("other");
                tokens.push(json!(oracle::sign_jwt("vp+jwt", &x, &key)));
            }
            4 => {
                let mut vp = vp_claims(&o, &key, &jwts)["vp"].clone();
                vp["proof"] = json!({"type": "DataIntegrityProof", "proofPurpose": "authentication",
                    "verificationMethod": key.kid, "challenge": one_of(&[o["nonce"].clone(), json!("other"), json!("")]), "proofValue": "z"});
                if chance(200) {
                    vp.as_object_mut().map(|x| x.remove("proof"));
                }
                tokens[0] = vp;
            }
            _ => tokens.clear(),
        }
    }
    let mut sub = json!({"id": "submission-1", "definition_id": o["presentation_definition"]["id"].as_str().unwrap_or_default(), "descriptor_map": maps});
    if mutate(m) {
        let n = pick(maps.len() as u32) as usize;
        match pick(10) {
            0 => sub["definition_id"] = json!(one_of(&["", "other", "00000000-0000-4000-8000-000000000000"])),
            1 => {
                sub["descriptor_map"].as_array_mut().map(|a| a.remove(n));
            }
            2 => sub["descriptor_map"][n]["id"] = json!("desc-9"),
            3 => sub["descriptor_map"][n]["path_nested"]["format"] = json!(one_of(&["ldp_vc", "mso_mdoc", ""])),
            4 => {
                sub["descriptor_map"][n]["path_nested"]["path"] = json!(one_of(&[
                    "$.verifiableCredential[9]",
                    "$.verifiableCredential[*]",
                    "$.verifiableCredential",
                    "$",
                    "$..verifiableCredential",
                    "$.holder",
                    "",
                    "verifiableCredential[0]",
                    "$[",
                    "$.verifiableCredential[-1]",
                    "$[0].verifiableCredential[0]",
                ]));
            }
            5 => sub["descriptor_map"] = json!([]),
            6 => {
                // two entries for one descriptor: the first counts
                let mut d = sub["descriptor_map"][n].clone();
                d["path_nested"]["path"] = json!("$.verifiableCredential[9]");
                sub["descriptor_map"].as_array_mut().map(|a| a.insert(pick(a.len() as u32 + 1) as usize, d));
            }
            7 => {
                // everything is answered with the same credential
                for d in sub["descriptor_map"].as_array_mut().into_iter().flatten() {
                    d["path_nested"]["path"] = json!(if split { "$[0].verifiableCredential[0]" } else { "$.verifiableCredential[0]" });
                }
            }
            8 => sub["definition_id"] = o["state"].clone(),
            _ => sub["descriptor_map"][n]["path_nested"]["format"] = json!("jwt_vc"),
        }
    }
    let mut r = json!({"vp_token": tokens, "presentation_submission": sub, "state": o["state"]});
    if mutate(m) {
        match pick(8) {
            0 => r["state"] = json!(one_of(&with(|w| w.loot.states.clone()))),
            1 => {
                r.as_object_mut().map(|x| x.remove("state"));
            }
            2 => {
                r.as_object_mut().map(|x| x.remove("vp_token"));
            }
            3 => {
                r.as_object_mut().map(|x| x.remove("presentation_submission"));
            }
            4 => r["state"] = json!(any_loot()),
            _ => fire(t, "response", &r),
        }
    }
    tried!(m, "response", call::<ov::ResponseResponse>(t, "response", "ResponseResponse", &r).await);
    if mutate(m) {
        // once more, with everything as it was
        pause(m).await;
        let _ = call::<ov::ResponseResponse>(t, "response", "ResponseResponse", &r).await;
    }
    Ok(())
}

/// A wallet reads the verifier's metadata.
pub async fn metadata(m: Mode) -> Res<()> {
    let n = with(|w| w.setup.verifiers.len()) as u32;
    let v = pick(n) as usize;
    let mut r = json!({"client_id": verifier_id(v)});
    if mutate(m) {
        r["client_id"] = json!(one_of(&["", "http://elsewhere.sim", "http://verifier1.sim"]));
    }
    tried!(m, "metadata", call::<ov::MetadataResponse>(Target::Verifier(v), "metadata", "VerifierMetadata", &r).await);
    Ok(())
}
