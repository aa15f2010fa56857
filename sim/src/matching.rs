//! Credentials and constraints with generated content: does the library's matching agree with the reference, whatever
//! the order of the fields and whatever else the credential says?

use serde_json::{json, Map, Value};
use vercre_dif_exch::{Claims, Constraints};
use vercre_w3c_vc::model::VerifiableCredential;

use crate::exec::{chance, one_of, pick, with, yield_now};
use crate::oracle::{self, Tri};

struct Raw(Value);

impl Claims for Raw {
    fn to_json(&self) -> anyhow::Result<Value> {
        Ok(self.0.clone())
    }
}

const WORDS: &[&str] = &[
    "Alice", "alice", "Bob", "EmployeeIDCredential", "Employee", "engineering", "en", "2024-02-29", "2023-02-29",
    "1999-12-31", "2024-13-01", "2020-1-5", "2024-05-06T07:08:09Z", "2024-05-06T07:08:09+12:00", "2024-05-06T07:08:09",
    "2024-05-06T25:08:09Z", "2024-05-06 07:08:09Z", "42", "7", "true", "false", "null", "", "a.b", "x@sim.example",
    "O'Brien", "line\nbreak", "日本", "role-1", "role-2", "12ab",
    " Alice", "Alice ", "Bob\n", " 2024-02-29", "2024-02-29 ", "-3", "1.5", "ALICE", "aliceBob", "\\", "*",
];

fn word() -> Value {
    json!(one_of(WORDS))
}

fn value(depth: u32) -> Value {
    match pick(if depth == 0 { 5 } else { 9 }) {
        0..=2 => word(),
        3 => match pick(8) {
            0 => json!(-3),
            1 => json!(1.5),
            2 => Value::Null,
            _ => json!(pick(50)),
        },
        4 => json!(pick(2) == 1),
        5 => Value::Array((0..pick(4)).map(|_| word()).collect()),
        6 => Value::Array((0..1 + pick(3)).map(|_| object(depth - 1)).collect()),
        7 => Value::Array((0..1 + pick(3)).map(|_| value(0)).collect()),
        _ => object(depth - 1),
    }
}

const KEYS: &[&str] =
    &["name", "email", "address", "roles", "age", "active", "since", "degree", "Name", "a_b", "x1", "odd-key", "with space", "type"];

fn object(depth: u32) -> Value {
    let mut o = Map::new();
    for _ in 0..1 + pick(4) {
        o.insert(one_of(KEYS).to_string(), value(depth));
    }
    Value::Object(o)
}

/// A credential with free-form claims.
pub fn credential(subject: &str) -> Value {
    let mut cs = object(2);
    cs["id"] = json!(subject);
    let types = match pick(4) {
        0 => json!(["VerifiableCredential"]),
        1 => json!(["VerifiableCredential", "EmployeeIDCredential"]),
        2 => json!(["VerifiableCredential", "EmployeeIDCredential", "OtherCredential"]),
        _ => json!("VerifiableCredential"),
    };
    json!({
        "@context": ["https://www.w3.org/2018/credentials/v1"],
        "id": "http://issuer0.sim/credentials/1",
        "type": types,
        "issuer": if pick(2) == 0 { json!("http://issuer0.sim") } else { json!({"id": "http://issuer0.sim", "name": "Sim"}) },
        "credentialSubject": if pick(4) == 3 {
            let mut other = object(1);
            other["id"] = json!("did:example:other");
            json!([cs, other])
        } else { cs },
        "validFrom": "2024-01-02T03:04:05Z",
    })
}

fn step(p: &mut String, k: &str) {
    let plain = !k.is_empty() && k.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') && !k.starts_with(|c: char| c.is_ascii_digit());
    if plain && pick(3) > 0 {
        p.push('.');
        p.push_str(k);
    } else {
        p.push_str(&format!("['{k}']"));
    }
}

/// A path into the credential, most often to something that is there.
fn path(vc: &Value) -> String {
    match pick(14) {
        0 => one_of(&["$.credentialSubject.nothing", "$.nothing", "$.credentialSubject[7]", "$.type.x", "$['']", "$.credentialSubject.address.none"]).to_string(),
        1 => one_of(&["", "credentialSubject", ".name", "$.credentialSubject[", "name.$"]).to_string(),
        2 => format!("$..{}", one_of(&["name", "email", "address", "roles", "age", "type", "id"])),
        3 => "$".into(),
        _ => {
            let mut p = "$".to_string();
            let mut cur = vc;
            for _ in 0..1 + pick(5) {
                match cur {
                    Value::Object(o) if !o.is_empty() => {
                        let keys: Vec<&String> = o.keys().collect();
                        let k = if p == "$" && pick(3) > 0 && o.contains_key("credentialSubject") {
                            "credentialSubject".to_string()
                        } else {
                            keys[pick(keys.len() as u32) as usize].clone()
                        };
                        if chance(60) {
                            p.push_str(one_of(&[".*", "[*]"]));
                            cur = &o[&k];
                            continue;
                        }
                        step(&mut p, &k);
                        cur = &o[&k];
                    }
                    Value::Array(a) if !a.is_empty() => {
                        let n = pick(a.len() as u32) as usize;
                        match pick(4) {
                            0 => p.push_str("[*]"),
                            1 => p.push_str(&format!("[-{}]", a.len() - n)),
                            _ => p.push_str(&format!("[{n}]")),
                        }
                        cur = &a[n];
                    }
                    _ => break,
                }
            }
            p
        }
    }
}

fn near(s: &str) -> String {
    match pick(10) {
        0 => s.to_uppercase(),
        1 => format!("{s}x"),
        2 => format!(" {s}"),
        3 => s.chars().skip(1).collect(),
        4 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        5 => one_of(WORDS).to_string(),
        6 => s.to_lowercase(),
        7 => s.trim().to_string(),
        8 => format!("{s} "),
        _ => String::new(),
    }
}

fn escape(s: &str) -> String {
    s.chars().flat_map(|c| if c.is_ascii_alphanumeric() || " -@".contains(c) || !c.is_ascii() { vec![c] } else { vec!['\\', c] }).collect()
}

fn text_of(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Array(a) if !a.is_empty() => text_of(&a[pick(a.len() as u32) as usize]),
        Value::Object(_) | Value::Array(_) => one_of(WORDS).to_string(),
        v => v.to_string(),
    }
}

fn filter_for(node: Option<&Value>) -> Value {
    let t = node.map_or_else(|| one_of(WORDS).to_string(), text_of);
    match pick(10) {
        0..=2 => json!({"type": "string", "const": t}),
        3 => json!({"type": "string", "const": near(&t)}),
        4 => json!({"type": "string", "pattern": format!("^{}$", escape(&t))}),
        5 => json!({"type": "string", "pattern": escape(&near(&t))}),
        6 => json!({"type": "string", "pattern": format!("^{}", escape(&t.chars().take(2).collect::<String>()))}),
        7 => json!({"type": "string", "pattern": one_of(&["^[A-Z]", "[a-z]+$", "\\d+", "^\\d{4}-\\d{2}-\\d{2}$", "Employee[a-zA-Z]+", "e.g", "^$", "Alice|Bob", "^[^@]+@", "@sim.example$", "x{2}", "[0-9]{2,}"])}),
        8 => json!({"type": "string", "format": "date"}),
        _ => json!({"type": "string", "format": one_of(&["date-time", "date-time", "date-time", "email", "time"])}),
    }
}

fn first<'a>(p: &str, vc: &'a Value) -> Option<&'a Value> {
    oracle::parse_path(p).ok().and_then(|s| oracle::eval_path(&s, vc).first().copied())
}

/// Constraints about a credential, some of which it meets.
pub fn constraints(vc: &Value) -> Value {
    let mut fields = vec![];
    for n in 0..if chance(20) { 0 } else { 1 + pick(4) } {
        let mut f = json!({});
        let paths: Vec<String> = (0..[1, 1, 1, 2, 3][pick(5) as usize]).map(|_| path(vc)).collect();
        if pick(4) > 0 {
            let node = paths.iter().find_map(|p| first(p, vc));
            f["filter"] = filter_for(node);
        }
        f["path"] = json!(paths);
        match pick(6) {
            0 | 1 => f["optional"] = json!(true),
            2 => f["optional"] = json!(false),
            _ => {}
        }
        if chance(150) {
            f["id"] = json!(format!("field{n}"));
            f["purpose"] = json!(one_of(WORDS));
            f["intent_to_retain"] = json!(true);
            f["name"] = json!("a field");
        }
        fields.push(f);
    }
    let mut c = json!({"fields": fields});
    if chance(100) {
        c["limit_disclosure"] = json!(one_of(&["required", "preferred"]));
    }
    if chance(20) {
        c = json!({});
    }
    c
}

/// Constraints a credential certainly meets; `None` when none could be found.
pub fn met_by(vc: &Value) -> Option<Value> {
    for _ in 0..6 {
        let c = constraints(vc);
        if oracle::satisfied(&c, vc) == Tri::Yes && c["fields"].is_array() {
            return Some(c);
        }
    }
    None
}

fn judge(c: &Value, vc: &Value, claims: &impl Claims, how: &str) -> Option<bool> {
    let con: Constraints = match serde_json::from_value(c.clone()) {
        Ok(x) => x,
        Err(e) => {
            with(|w| w.violate(&["C10", "C11"], "decode:Constraints", format!("{c} does not decode: {e}")));
            return None;
        }
    };
    let got = con.satisfied(claims).unwrap_or(false);
    let want = oracle::satisfied(c, vc);
    with(|w| {
        w.probe(match want {
            Tri::Yes => "match.yes",
            Tri::No => "match.no",
            Tri::Open => "match.open",
        });
        if (want == Tri::Yes && !got) || (want == Tri::No && got) {
            let kinds: Vec<&str> = c["fields"]
                .as_array()
                .into_iter()
                .flatten()
                .map(|f| ["const", "pattern", "format"].into_iter().find(|k| f["filter"][*k].is_string()).unwrap_or("none"))
                .collect();
            let one = if kinds.len() == 1 { kinds[0] } else { "several" };
            w.violate(
                &["C11"],
                format!("matching:{one}:{want:?}"),
                format!("{how} {vc} satisfies {c}: {got}, by the rules {want:?}"),
            );
        }
    });
    Some(got)
}

/// Matches a series of credentials against constraints.
pub async fn run() {
    for _ in 0..8 + pick(24) {
        let vc = credential("did:example:alice");
        let c = constraints(&vc);
        let raw = judge(&c, &vc, &Raw(vc.clone()), "claims");
        match serde_json::from_value::<VerifiableCredential>(vc.clone()) {
            Ok(x) => {
                if json!(x) == vc {
                    judge(&c, &vc, &x, "credential");
                } else {
                    with(|w| w.violate(&["C10"], "roundtrip:VerifiableCredential", format!("{vc} decodes to {}", json!(x))));
                }
            }
            Err(e) => with(|w| w.violate(&["C10"], "decode:VerifiableCredential", format!("{vc} does not decode: {e}"))),
        }
        // the same fields in another order
        let mut turned = c.clone();
        if let Some(f) = turned["fields"].as_array_mut() {
            f.reverse();
        }
        let back = judge(&turned, &vc, &Raw(vc.clone()), "claims");
        if raw != back {
            with(|w| w.violate(&["C11"], "matching:order", format!("{vc} satisfies {c}: {raw:?}, in reverse order {back:?}")));
        }
        // a claim no path can reach
        let reach = c.to_string();
        if !reach.contains("..") && !reach.contains('*') && !reach.contains("\"$\"") {
            let mut more = vc.clone();
            more["zzUnrelated"] = json!({"x": [1, "Alice"]});
            let m = judge(&c, &more, &Raw(more.clone()), "claims");
            if raw != m {
                with(|w| w.violate(&["C11"], "matching:unrelated", format!("{vc} satisfies {c}: {raw:?}, with an unrelated claim {m:?}")));
            }
        }
        if pick(4) == 0 {
            yield_now().await;
        }
    }
    with(|w| w.probe("match.done"));
}
