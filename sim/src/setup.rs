//! Draws the deployment of a run: issuers with replicas, authorization servers, clients, subjects, verifiers, keys.

use std::collections::BTreeMap;

use serde_json::{json, Map, Value};
use vercre_openid::issuer::{Client, Issuer, Server};

use crate::choice::CONFIG;
use crate::exec::{Node, SEC};
use crate::world::{Faults, IssuerSetup, Key, Store, SubjData, SubjectSetup, VerifierSetup, World};

pub const PREAUTH: &str = "urn:ietf:params:oauth:grant-type:pre-authorized_code";
pub const CLIENT_OK: &str = "http://wallet.sim/client";
pub const CLIENT_OTHER: &str = "96bfb9cb-0513-7d64-5532-bed74c48f9ab";
pub const CLIENT_NO_SCOPE: &str = "no-scope-client";
pub const CLIENT_NO_GRANT: &str = "no-auth-code-client";
pub const CLIENT_BAD_SCOPE: &str = "greedy-client";
/// Registered clients that are easily taken for the first.
pub const CLIENT_LONG: &str = "http://wallet.sim/client/beta";
pub const CLIENT_UP: &str = "http://wallet.sim/CLIENT";
pub const REDIRECT: &str = "http://wallet.sim/callback";
pub const REDIRECT2: &str = "http://wallet.sim/callback2?x=1";
pub const REDIRECT_OTHER: &str = "http://other.sim/cb";

pub const EMP: &str = "EmployeeID_JWT";
pub const DEV: &str = "Developer_JWT";
pub const BADGE: &str = "Badge_JWT";
pub const GOLD: &str = "Badge_JWT_Gold";
pub const MDL: &str = "org.iso.18013.5.1.mDL";
pub const UNSUP: &str = "Legacy_LDP";
pub const MDL_NS: &str = "org.iso.18013.5.1.mDL";
pub const MDL_NS2: &str = "org.iso.18013.5.1.mDL.NZ";

fn pickc(w: &mut World, n: u32) -> u32 {
    w.x.ch.pick(CONFIG, n)
}

/// True with probability p/1000, drawn on the configuration stream.
fn chancec(w: &mut World, p: u32) -> bool {
    pickc(w, 1000) >= 1000 - p
}

fn entry(mandatory: bool, label: &str) -> Value {
    if mandatory {
        json!({"mandatory": true, "value_type": "string", "display": [{"name": label, "locale": "en-NZ"}]})
    } else {
        json!({"value_type": "string", "display": [{"name": label}]})
    }
}

fn proof_types() -> Value {
    json!({"jwt": {"proof_signing_alg_values_supported": ["ES256K", "EdDSA"]}})
}

fn issuer_meta(w: &mut World, id: &str) -> Issuer {
    let extra_locale = chancec(w, 400);
    let mut display = vec![json!({
        "name": "Employee ID", "description": "Vercre \"employee\" ID", "locale": "en-NZ",
        "logo": {"uri": "https://vercre.sim/logo.png", "alt_text": "logo"},
        "text_color": "#ffffff", "background_color": "#323ed2"
    })];
    if extra_locale {
        display.push(json!({"name": "Mitarbeiterausweis", "description": "Ausweis für Mitarbeiter", "locale": "de", "logo": {"uri": "https://vercre.sim/logo-de.png"}}));
    }
    let mut v = json!({
        "credential_issuer": id,
        "credential_endpoint": format!("{id}/credential"),
        "deferred_credential_endpoint": format!("{id}/deferred"),
        "notification_endpoint": format!("{id}/notification"),
        "display": {"name": "Sim & Co", "locale": "en-NZ"},
        "credential_configurations_supported": {
            EMP: {
                "format": "jwt_vc_json", "scope": "EmployeeIDCredential",
                "cryptographic_binding_methods_supported": ["did:key", "did:web"],
                "credential_signing_alg_values_supported": ["EdDSA"],
                "proof_types_supported": proof_types(),
                "display": display,
                "credential_definition": {
                    "type": ["VerifiableCredential", "EmployeeIDCredential"],
                    "credentialSubject": {
                        "email": entry(true, "Email"),
                        "email_verified": entry(false, "Email verified"),
                        "family_name": entry(true, "Family name"),
                        "given_name": entry(false, "Given name"),
                        "given_name_kana": entry(false, "Given name"),
                        "nickname": entry(false, "Nickname"),
                        "address": {
                            "street_address": entry(false, "Street"),
                            "locality": entry(false, "Locality"),
                            "country": entry(false, "Country")
                        }
                    }
                }
            },
            DEV: {
                "format": "jwt_vc_json", "scope": "StaffCredential",
                "cryptographic_binding_methods_supported": ["did:key"],
                "proof_types_supported": proof_types(),
                "display": [{"name": "Developer", "locale": "en-NZ"}],
                "credential_definition": {
                    "type": ["VerifiableCredential", "DeveloperCredential"],
                    "credentialSubject": {
                        "family_name": entry(false, "Family name"),
                        "proficiency": entry(false, "Proficiency"),
                        "since": entry(false, "Since"),
                        "tag": entry(false, "Tag"),
                        "tags": entry(false, "Tags")
                    }
                }
            },
            BADGE: {
                "format": "jwt_vc_json", "scope": "StaffCredential",
                "credential_definition": {
                    "type": ["VerifiableCredential", "BadgeCredential"],
                    "credentialSubject": {"badge": entry(false, "Badge"), "level": entry(false, "Level")}
                }
            },
            // a configuration whose id, type, scope and claims all start like another's
            GOLD: {
                "format": "jwt_vc_json", "scope": "StaffCredentialGold",
                "display": [{"name": "Gold"}, {"name": "Or", "description": "Un insigne", "locale": "fr", "logo": {"uri": "https://vercre.sim/or.png"}}],
                "credential_definition": {
                    "type": ["VerifiableCredential", "BadgeCredentialGold", "MemberCredential"],
                    "credentialSubject": {
                        "badge": entry(false, "Badge"), "badge_colour": entry(false, "Colour"),
                        "levels": {"level": entry(true, "Level"), "level_max": entry(false, "Most")}
                    }
                }
            },
            MDL: {
                "format": "mso_mdoc", "doctype": "org.iso.18013.5.1.mDL",
                "cryptographic_binding_methods_supported": ["cose_key"],
                "proof_types_supported": proof_types(),
                "claims": {MDL_NS: {"given_name": {}, "family_name": {"mandatory": true}, "birth_date": {}, "portrait": {}},
                           MDL_NS2: {"given_name": {}, "endorsement": {}, "endorsements": {}}}
            },
            UNSUP: {
                "format": "jwt_vc_json-ld",
                "credential_definition": {"type": ["VerifiableCredential", "LegacyCredential"]}
            }
        }
    });
    match pickc(w, 3) {
        1 => v["authorization_servers"] = json!([id]),
        2 => v["authorization_servers"] = json!([]),
        _ => {}
    }
    serde_json::from_value(v).expect("issuer metadata")
}

fn server_meta(w: &mut World, id: &str) -> Server {
    let mut v = json!({
        "issuer": id,
        "authorization_endpoint": "/auth",
        "token_endpoint": "/token",
        "scopes_supported": ["openid", "profile", "credential"],
        "response_types_supported": ["code"],
        "response_modes_supported": ["query"],
        "grant_types_supported": ["authorization_code", PREAUTH],
        "code_challenge_methods_supported": ["S256"],
        "pre-authorized_grant_anonymous_access_supported": true
    });
    if chancec(w, 300) {
        v["pre-authorized_grant_anonymous_access_supported"] = json!(false);
    }
    if chancec(w, 250) {
        v["require_pushed_authorization_requests"] = json!(true);
    }
    match pickc(w, 12) {
        10 => v["grant_types_supported"] = json!(["authorization_code"]),
        11 => v["grant_types_supported"] = json!([PREAUTH]),
        _ => {}
    }
    serde_json::from_value(v).expect("server metadata")
}

fn client(id: &str, redirects: Value, grants: Value, scope: Option<&str>) -> Client {
    let mut v = json!({
        "client_id": id, "client_name": "Wallet", "redirect_uris": redirects, "grant_types": grants,
        "response_types": ["code"], "credential_offer_endpoint": "openid-credential-offer://"
    });
    if let Some(s) = scope {
        v["scope"] = json!(s);
    }
    serde_json::from_value(v).expect("client")
}

fn obj(v: Value) -> Map<String, Value> {
    v.as_object().cloned().unwrap_or_default()
}

/// Nasty but legal text for claims, names and descriptions.
pub const TEXTS: &[&str] = &[
    "Normal", "O'Brien & Söhne", "a \"quoted\" name", "100% = all", "semi;colon,comma", "\u{65e5}\u{672c}", "x{y}[z]",
    "+64 21 000", "back\\slash/", "trailing ", "line\nbreak", "true", "12", "",
];

fn subjects(w: &mut World) -> BTreeMap<String, SubjectSetup> {
    let mut out = BTreeMap::new();
    let start = w.x.start;
    for n in 0..3u32 {
        let id = format!("subject{n}");
        let mut s = SubjectSetup::default();
        let text = |w: &mut World| TEXTS[pickc(w, TEXTS.len() as u32) as usize].to_string();
        let mut add = |w: &mut World, cfg: &str, ident: &str, claims: Value| {
            let ready_at = if chancec(w, 300) { start + i64::from(pickc(w, 1200)) * SEC } else { start };
            s.grants.entry(cfg.to_string()).or_default().push(ident.to_string());
            s.data.insert(ident.to_string(), SubjData { claims: obj(claims), ready_at });
        };
        let t = [text(w), text(w), text(w)];
        add(
            w,
            EMP,
            "PHLEmployeeID",
            json!({
                "given_name": t[0], "family_name": format!("Person{n}"), "email": format!("user{n}@sim.example"),
                "nickname": t[1], "email_verified": n == 1, "given_name_kana": format!("kana{n}"),
                "address": {"street_address": format!("{n} Fake St"), "locality": t[2], "country": "NZ"}
            }),
        );
        if n != 2 && chancec(w, 500) {
            add(
                w,
                EMP,
                &format!("Branch{n}EmployeeID"),
                json!({"given_name": t[2], "family_name": format!("Branch{n}"), "email": format!("branch{n}@sim.example"),
                       "nickname": "nick", "address": {"locality": "Auckland"}}),
            );
        }
        add(
            w,
            DEV,
            "PHLDeveloper",
            json!({"family_name": format!("Dev{n}"), "proficiency": n + 1, "since": "2020-0".to_string() + &format!("{}-11", n + 1),
                   "tag": format!("main{n}"), "tags": ["rust", format!("tag{n}")], "senior": n == 1}),
        );
        if n != 2 {
            add(w, BADGE, "Badge", json!({"badge": format!("B-{n:03}"), "level": n}));
        }
        if n != 0 {
            let levels = json!({"level": n, "level_max": 9, "secret": "hidden"});
            add(w, GOLD, "BadgeGold", json!({"badge": format!("G-{n:03}"), "badge_colour": t[2], "levels": levels}));
        }
        add(
            w,
            MDL,
            "DriverLicence",
            json!({MDL_NS: {"given_name": t[0], "family_name": format!("Driver{n}"), "birth_date": "1980-01-02",
                            "age": 40 + n, "senior": n == 1},
                   MDL_NS2: {"given_name": format!("NZ{n}"), "endorsement": "F", "endorsements": ["F", "W"]}}),
        );
        if n == 1 {
            // a credential whose format the issuer advertises but cannot issue
            add(w, UNSUP, "Legacy", json!({"legacy": "yes"}));
        }
        out.insert(id, s);
    }
    out
}

fn node(w: &mut World, name: String, kind: &'static str) -> usize {
    w.x.nodes.push(Node { name, up: true, skew: 0, crashes: 0, kind });
    w.x.nodes.len() - 1
}

pub struct Shape {
    pub issuers: u32,
    pub replicas: u32,
    pub wallets: u32,
    pub verifiers: u32,
}

/// Fault rates: a run is fault-free three times in ten; otherwise each kind is on or off on its own.
pub fn draw_faults(w: &mut World) -> Faults {
    let mut f = Faults::default();
    let on = |w: &mut World, p: u32| chancec(w, p);
    if on(w, 500) {
        f.sched_lat = [50, 200, 500][pickc(w, 3) as usize];
    }
    if on(w, 500) {
        f.evict = true;
    }
    if on(w, 600) {
        f.attack = 1;
    }
    if !on(w, 700) {
        return f;
    }
    if on(w, 500) {
        f.io_err = [5, 20, 60][pickc(w, 3) as usize];
    }
    if on(w, 400) {
        f.io_err_after = [10, 40, 100][pickc(w, 3) as usize];
    }
    if on(w, 400) {
        f.crash = [3, 10, 25][pickc(w, 3) as usize];
    }
    if on(w, 450) {
        f.drop_req = [20, 80, 200][pickc(w, 3) as usize];
    }
    if on(w, 450) {
        f.drop_resp = [20, 80, 200][pickc(w, 3) as usize];
    }
    if on(w, 500) {
        f.dup = [30, 120, 300][pickc(w, 3) as usize];
    }
    if on(w, 450) {
        f.slow = [20, 100, 300][pickc(w, 3) as usize];
    }
    if on(w, 350) {
        f.corrupt = [10, 50, 150][pickc(w, 3) as usize];
    }
    if on(w, 300) {
        f.stall = [3, 10, 20][pickc(w, 3) as usize];
    }
    if on(w, 400) {
        f.skew = 1;
    }
    f
}

pub fn build(w: &mut World, shape: &Shape) {
    let mut dids = BTreeMap::new();
    for i in 0..shape.issuers {
        let id = format!("http://issuer{i}.sim");
        let key = Key::did_web(&format!("issuer{i}.sim"));
        dids.insert(key.did.clone(), key.clone());
        let meta = issuer_meta(w, &id);
        let server = server_meta(w, &id);
        let nodes = (0..shape.replicas).map(|r| node(w, format!("issuer{i}-{r}"), "issuer")).collect();
        w.stores.push(Store::default());
        let store = w.stores.len() - 1;
        w.setup.issuers.push(IssuerSetup { id, meta, server, store, nodes, key });
    }
    for v in 0..shape.verifiers {
        let id = format!("http://verifier{v}.sim");
        let key = Key::did_web(&format!("verifier{v}.sim"));
        dids.insert(key.did.clone(), key.clone());
        let meta = serde_json::from_value(json!({
            "client_id": id, "client_name": "Verifier <&> \"1\"", "redirect_uris": ["http://localhost:3000/callback"],
            "response_types": ["vp_token", "id_token vp_token"],
            "vp_formats": {"jwt_vp_json": {"alg": ["EdDSA"], "proof_type": ["JsonWebSignature2020"]}}
        }))
        .expect("verifier metadata");
        let nodes = (0..shape.replicas).map(|r| node(w, format!("verifier{v}-{r}"), "verifier")).collect();
        w.stores.push(Store::default());
        let store = w.stores.len() - 1;
        w.setup.verifiers.push(VerifierSetup { id, store, nodes, key, meta });
    }
    let both = json!(["authorization_code", PREAUTH]);
    let cs = [
        client(CLIENT_OK, json!([REDIRECT, REDIRECT2]), both.clone(), Some("openid credential")),
        client(CLIENT_OTHER, json!([REDIRECT_OTHER]), both.clone(), Some("credential")),
        client(CLIENT_LONG, json!([REDIRECT_OTHER, REDIRECT]), both.clone(), Some("openid")),
        client(CLIENT_UP, json!([REDIRECT, REDIRECT2]), both.clone(), Some("credential openid")),
        client(CLIENT_NO_SCOPE, json!([REDIRECT]), both.clone(), None),
        client(CLIENT_NO_GRANT, json!([REDIRECT]), json!([PREAUTH]), Some("openid")),
        client(CLIENT_BAD_SCOPE, json!([REDIRECT]), both, Some("openid admin")),
    ];
    for c in cs {
        w.setup.clients.insert(c.oauth.client_id.clone(), c);
    }
    w.setup.subjects = subjects(w);
    for n in 0..shape.wallets + 2 {
        let key = Key::did_key(&format!("holder{n}"));
        dids.insert(key.did.clone(), key.clone());
        let web = Key::did_web(&format!("holder{n}.sim"));
        dids.insert(web.did.clone(), web);
    }
    let evil = Key::did_web("evil.sim");
    dids.insert(evil.did.clone(), evil);
    w.setup.dids = dids;
    for n in 0..shape.wallets {
        let nd = node(w, format!("wallet{n}"), "wallet");
        w.stores.push(Store::default());
        let store = w.stores.len() - 1;
        w.wallets.add(n as usize, nd, store);
    }
}
