//! Independent re-implementations used to judge what the libraries answer: JWT verification, percent and query-string
//! decoding, JSONPath subset, constraint matching, a small regular-expression matcher, dates, claim support rules.
//! Nothing here calls the code under test.

use std::collections::BTreeMap;

use base64ct::{Base64UrlUnpadded, Encoding};
use ed25519_dalek::{Signature, Verifier as _};
use serde_json::Value;
use sha2::{Digest, Sha256};

use crate::world::Key;

pub fn b64d(s: &str) -> Option<Vec<u8>> {
    Base64UrlUnpadded::decode_vec(s).ok()
}

pub fn b64e(b: &[u8]) -> String {
    Base64UrlUnpadded::encode_string(b)
}

pub fn s256(verifier: &str) -> String {
    b64e(&Sha256::digest(verifier.as_bytes()))
}

#[derive(Clone, Debug)]
pub struct Jwt {
    pub header: Value,
    pub claims: Value,
    pub did: String,
    /// The signature is by the key the header names.
    pub valid: bool,
    /// The signature is by the DID's key, but the header names the key some other way.
    pub loose: bool,
}

impl Jwt {
    pub fn typ(&self) -> &str {
        self.header["typ"].as_str().unwrap_or_default()
    }
}

/// Takes a compact JWT apart and checks its signature against the key its header names.
pub fn jwt(s: &str, dids: &BTreeMap<String, Key>) -> Option<Jwt> {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 3 {
        return None;
    }
    let header: Value = serde_json::from_slice(&b64d(p[0])?).ok()?;
    let claims: Value = serde_json::from_slice(&b64d(p[1])?).ok()?;
    let kid = header["kid"].as_str().unwrap_or_default().to_string();
    let did = kid.split('#').next().unwrap_or_default().to_string();
    let signed = (|| {
        let key = dids.get(&did)?;
        let sig = Signature::from_slice(&b64d(p[2])?).ok()?;
        key.sk.verifying_key().verify(format!("{}.{}", p[0], p[1]).as_bytes(), &sig).ok()
    })()
    .is_some();
    let exact = dids.get(&did).is_some_and(|k| k.kid == kid);
    Some(Jwt { header, claims, did, valid: signed && exact, loose: signed && !exact })
}

/// Builds a compact JWT signed by the key.
pub fn sign_jwt(typ: &str, claims: &Value, key: &Key) -> String {
    let h = serde_json::json!({"alg": "EdDSA", "typ": typ, "kid": key.kid});
    let a = b64e(h.to_string().as_bytes());
    let b = b64e(claims.to_string().as_bytes());
    let sig = key.sign(format!("{a}.{b}").as_bytes());
    format!("{a}.{b}.{}", b64e(&sig))
}

// ---------------------------------------------------------------------------------------------------------------
// query strings

pub fn pct_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            let h = std::str::from_utf8(b.get(i + 1..i + 3)?).ok()?;
            out.push(u8::from_str_radix(h, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

/// Splits a query string into decoded parameters; `None` when it is not one. A raw `+` is reported as is: callers
/// check that senders escape it, because receivers differ on what it means.
pub fn query(s: &str) -> Option<Vec<(String, String)>> {
    let mut out = vec![];
    if s.is_empty() {
        return Some(out);
    }
    for p in s.split('&') {
        let (k, v) = p.split_once('=')?;
        out.push((pct_decode(k)?, pct_decode(v)?));
    }
    Some(out)
}

/// Characters that may stand unescaped in the parameters of a URL's query.
pub fn url_safe(s: &str) -> bool {
    s.bytes().all(|b| b.is_ascii_alphanumeric() || b"-._~!$'()*,;:@/?&=%".contains(&b))
}

/// What a JSON value must look like as query parameters: one parameter per member; strings, numbers and booleans as
/// text, arrays and objects as JSON.
pub fn query_matches(params: &[(String, String)], v: &Value) -> Result<(), String> {
    let Some(o) = v.as_object() else { return Err("not an object".into()) };
    let mut want: BTreeMap<String, &Value> = BTreeMap::new();
    for (k, v) in o {
        if !v.is_null() {
            want.insert(k.clone(), v);
        }
    }
    let mut seen: BTreeMap<String, &String> = BTreeMap::new();
    for (k, val) in params {
        if seen.insert(k.clone(), val).is_some() {
            return Err(format!("parameter {k} appears twice"));
        }
    }
    for (k, val) in &seen {
        let Some(w) = want.get(k) else {
            return Err(format!("unexpected parameter {k}={val}"));
        };
        let ok = match w {
            Value::String(s) => *val == s,
            Value::Number(n) => **val == n.to_string(),
            Value::Bool(b) => **val == b.to_string(),
            other => serde_json::from_str::<Value>(val).is_ok_and(|x| x == **other),
        };
        if !ok {
            return Err(format!("parameter {k} is {val:?}, meant {w}"));
        }
    }
    for k in want.keys() {
        if !seen.contains_key(k) {
            return Err(format!("parameter {k} is missing"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------------------------
// JSONPath subset

#[derive(Clone, Debug, PartialEq)]
pub enum Seg {
    Key(String),
    Idx(i64),
    Wild,
    Desc(String),
}

/// Parses the subset `$`, `.name`, `['name']`, `[n]`, `[*]`, `.*`, `..name`. `Err(true)`: certainly not a JSONPath;
/// `Err(false)`: outside the subset.
pub fn parse_path(s: &str) -> Result<Vec<Seg>, bool> {
    let Some(mut r) = s.strip_prefix('$') else { return Err(true) };
    let mut out = vec![];
    fn name(r: &str) -> Option<(&str, &str)> {
        let end = r.find(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).unwrap_or(r.len());
        let n = &r[..end];
        if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) {
            None
        } else {
            Some((n, &r[end..]))
        }
    }
    while !r.is_empty() {
        if let Some(t) = r.strip_prefix("..") {
            let Some((n, t)) = name(t) else { return Err(false) };
            out.push(Seg::Desc(n.to_string()));
            r = t;
        } else if let Some(t) = r.strip_prefix(".*") {
            out.push(Seg::Wild);
            r = t;
        } else if let Some(t) = r.strip_prefix('.') {
            let Some((n, t)) = name(t) else { return Err(false) };
            out.push(Seg::Key(n.to_string()));
            r = t;
        } else if let Some(t) = r.strip_prefix("[*]") {
            out.push(Seg::Wild);
            r = t;
        } else if let Some(t) = r.strip_prefix("['") {
            let Some(e) = t.find('\'') else { return Err(false) };
            let n = &t[..e];
            if n.contains('\\') {
                return Err(false);
            }
            out.push(Seg::Key(n.to_string()));
            let Some(t) = t[e..].strip_prefix("']") else { return Err(false) };
            r = t;
        } else if let Some(t) = r.strip_prefix('[') {
            let Some(e) = t.find(']') else { return Err(true) };
            let Ok(n) = t[..e].parse::<i64>() else { return Err(false) };
            if t[..e] != n.to_string() {
                return Err(false);
            }
            out.push(Seg::Idx(n));
            r = &t[e + 1..];
        } else {
            return Err(false);
        }
    }
    Ok(out)
}

pub fn eval_path<'a>(segs: &[Seg], v: &'a Value) -> Vec<&'a Value> {
    let mut cur = vec![v];
    for s in segs {
        let mut next = vec![];
        for n in cur {
            match s {
                Seg::Key(k) => {
                    if let Some(o) = n.as_object() {
                        next.extend(o.get(k));
                    }
                }
                Seg::Idx(i) => {
                    if let Some(a) = n.as_array() {
                        let i = if *i < 0 { a.len() as i64 + i } else { *i };
                        if i >= 0 {
                            next.extend(a.get(i as usize));
                        }
                    }
                }
                Seg::Wild => match n {
                    Value::Array(a) => next.extend(a.iter()),
                    Value::Object(o) => next.extend(o.values()),
                    _ => {}
                },
                Seg::Desc(k) => desc(n, k, &mut next),
            }
        }
        cur = next;
    }
    cur
}

/// Is the order of the path's matches fixed? Members of an object have none.
fn ordered(segs: &[Seg], v: &Value) -> bool {
    (0..segs.len()).all(|n| match &segs[n] {
        Seg::Wild => eval_path(&segs[..n], v).iter().all(|x| !x.is_object()),
        Seg::Desc(_) => false,
        _ => true,
    })
}

fn desc<'a>(n: &'a Value, k: &str, out: &mut Vec<&'a Value>) {
    if let Some(o) = n.as_object() {
        out.extend(o.get(k));
    }
    match n {
        Value::Object(o) => o.values().for_each(|c| desc(c, k, out)),
        Value::Array(a) => a.iter().for_each(|c| desc(c, k, out)),
        _ => {}
    }
}

// ---------------------------------------------------------------------------------------------------------------
// a small regular-expression matcher: literals, `.`, classes, \d \w \s, * + ? {n} {n,m}, ^ $, top-level |

#[derive(Clone, Debug)]
enum Atom {
    Lit(char),
    Any,
    Class(Vec<(char, char)>, bool),
    Start,
    End,
}

type Item = (Atom, usize, usize);

/// `None`: outside the subset.
fn parse_re(p: &str) -> Option<Vec<Vec<Item>>> {
    let mut alts = vec![vec![]];
    let c: Vec<char> = p.chars().collect();
    let mut i = 0;
    let digits = vec![('0', '9')];
    let word = vec![('a', 'z'), ('A', 'Z'), ('0', '9'), ('_', '_')];
    while i < c.len() {
        let atom = match c[i] {
            '|' => {
                alts.push(vec![]);
                i += 1;
                continue;
            }
            '(' | ')' | '*' | '+' | '?' | '{' | '}' => return None,
            '^' => Atom::Start,
            '$' => Atom::End,
            '.' => Atom::Any,
            '\\' => {
                i += 1;
                match *c.get(i)? {
                    'd' => Atom::Class(digits.clone(), false),
                    'w' => Atom::Class(word.clone(), false),
                    x if !x.is_ascii_alphanumeric() => Atom::Lit(x),
                    _ => return None,
                }
            }
            '[' => {
                let mut rs = vec![];
                i += 1;
                let neg = c.get(i) == Some(&'^');
                if neg {
                    i += 1;
                }
                while *c.get(i)? != ']' {
                    let a = c[i];
                    if a == '\\' || a == '[' || a == '&' {
                        return None;
                    }
                    if c.get(i + 1) == Some(&'-') && c.get(i + 2).is_some_and(|x| *x != ']') {
                        rs.push((a, c[i + 2]));
                        i += 3;
                    } else {
                        rs.push((a, a));
                        i += 1;
                    }
                }
                if rs.is_empty() {
                    return None;
                }
                Atom::Class(rs, neg)
            }
            x => Atom::Lit(x),
        };
        i += 1;
        let (lo, hi) = match c.get(i) {
            Some('*') => (0, usize::MAX),
            Some('+') => (1, usize::MAX),
            Some('?') => (0, 1),
            Some('{') => {
                let e = c[i..].iter().position(|x| *x == '}')? + i;
                let body: String = c[i + 1..e].iter().collect();
                i = e;
                match body.split_once(',') {
                    Some((a, "")) => (a.parse().ok()?, usize::MAX),
                    Some((a, b)) => (a.parse().ok()?, b.parse().ok()?),
                    None => {
                        let n = body.parse().ok()?;
                        (n, n)
                    }
                }
            }
            _ => (usize::MAX, 0),
        };
        let (lo, hi) = if (lo, hi) == (usize::MAX, 0) {
            (1, 1)
        } else {
            i += 1;
            (lo, hi)
        };
        if c.get(i).is_some_and(|x| "*+?{".contains(*x)) {
            return None;
        }
        alts.last_mut()?.push((atom, lo, hi));
    }
    Some(alts)
}

fn at(items: &[Item], t: &[char], pos: usize) -> bool {
    let Some(((atom, lo, hi), rest)) = items.split_first() else { return true };
    match atom {
        Atom::Start => return pos == 0 && at(rest, t, pos),
        Atom::End => return pos == t.len() && at(rest, t, pos),
        _ => {}
    }
    let one = |p: usize| {
        p < t.len()
            && match atom {
                Atom::Lit(c) => t[p] == *c,
                Atom::Any => t[p] != '\n',
                Atom::Class(rs, neg) => rs.iter().any(|(a, b)| *a <= t[p] && t[p] <= *b) != *neg,
                Atom::Start | Atom::End => false,
            }
    };
    let mut n = 0;
    let mut ends = vec![pos];
    while n < *hi && one(pos + n) {
        n += 1;
        ends.push(pos + n);
    }
    ends.iter().rev().any(|e| e - pos >= *lo && at(rest, t, *e))
}

pub fn regex(p: &str, text: &str) -> Option<bool> {
    let alts = parse_re(p)?;
    let t: Vec<char> = text.chars().collect();
    Some(alts.iter().any(|a| (0..=t.len()).any(|s| at(a, &t, s))))
}

// ---------------------------------------------------------------------------------------------------------------
// dates

fn two(s: &str) -> Option<u32> {
    (s.len() == 2 && s.bytes().all(|b| b.is_ascii_digit())).then(|| s.parse().ok())?
}

fn ymd(s: &str) -> bool {
    let p: Vec<&str> = s.split('-').collect();
    if p.len() != 3 || p[0].len() != 4 || !p[0].bytes().all(|b| b.is_ascii_digit()) {
        return false;
    }
    let (Ok(y), Some(m), Some(d)) = (p[0].parse::<u32>(), two(p[1]), two(p[2])) else { return false };
    let leap = y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let days = [31, if leap { 29 } else { 28 }, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    (1..=12).contains(&m) && d >= 1 && d <= days[m as usize - 1]
}

/// `Some(true)`: a plain ISO date; `Some(false)`: certainly not one; `None`: lenient parsers differ.
pub fn is_date(s: &str) -> Option<bool> {
    if ymd(s) {
        return Some(true);
    }
    let shape = s.split('-').count() == 3 && s.bytes().all(|b| b.is_ascii_digit() || b == b'-' || b == b' ');
    if shape && s.len() == 10 {
        return Some(false);
    }
    if shape {
        return None;
    }
    if s.trim() != s || s.starts_with('+') || s.starts_with('-') {
        return None;
    }
    Some(false)
}

pub fn is_datetime(s: &str) -> Option<bool> {
    if s.len() >= 20 && s.is_ascii() && ymd(&s[..10]) && s.as_bytes()[10] == b'T' {
        let r = &s[11..];
        let (Some(h), Some(m), Some(sec)) =
            (r.get(..2).and_then(two), r.get(3..5).and_then(two), r.get(6..8).and_then(two))
        else {
            return Some(false);
        };
        if &r[2..3] != ":" || &r[5..6] != ":" {
            return Some(false);
        }
        let z = &r[8..];
        let zone_ok = z == "Z"
            || (z.len() == 6
                && (z.starts_with('+') || z.starts_with('-'))
                && &z[3..4] == ":"
                && two(&z[1..3]).is_some_and(|h| h < 24)
                && two(&z[4..6]).is_some_and(|m| m < 60));
        if h < 24 && m < 60 && sec < 60 && zone_ok {
            return Some(true);
        }
        return None;
    }
    if is_date(s) == Some(true) || !s.contains(':') {
        return Some(false);
    }
    None
}

// ---------------------------------------------------------------------------------------------------------------
// constraints (presentation exchange)

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tri {
    Yes,
    No,
    Open,
}

/// Does one value meet a filter (given as its JSON form)?
pub fn filter(f: &Value, n: &Value) -> Tri {
    let b = |x: bool| if x { Tri::Yes } else { Tri::No };
    if let Some(c) = f["const"].as_str() {
        return match n {
            Value::String(s) => b(s == c),
            Value::Array(a) => {
                if a.iter().any(|x| x.as_str() == Some(c)) {
                    Tri::Yes
                } else if a.iter().any(|x| !x.is_string()) {
                    Tri::Open
                } else {
                    Tri::No
                }
            }
            Value::Number(x) => b(x.to_string() == c),
            Value::Bool(x) => b(x.to_string() == c),
            Value::Null | Value::Object(_) => Tri::No,
        };
    }
    if let Some(p) = f["pattern"].as_str() {
        return match n {
            Value::String(s) => regex(p, s).map_or(Tri::Open, b),
            Value::Array(a) => {
                let r: Vec<Option<bool>> = a.iter().map(|x| x.as_str().and_then(|s| regex(p, s))).collect();
                if r.iter().any(|x| *x == Some(true)) {
                    Tri::Yes
                } else if !r.is_empty() && r.iter().all(|x| *x == Some(false)) {
                    Tri::No
                } else {
                    Tri::Open
                }
            }
            _ => Tri::Open,
        };
    }
    if let Some(p) = f["format"].as_str() {
        let check: fn(&str) -> Option<bool> = match p {
            "date" => is_date,
            "date-time" => is_datetime,
            _ => return Tri::No,
        };
        return match n {
            Value::String(s) => check(s).map_or(Tri::Open, b),
            _ => Tri::No,
        };
    }
    Tri::Open
}

/// Does the credential (as JSON) satisfy the constraints (as JSON)?
pub fn satisfied(constraints: &Value, vc: &Value) -> Tri {
    let Some(fields) = constraints["fields"].as_array() else { return Tri::Yes };
    let mut open = false;
    for f in fields {
        match field(f, vc) {
            Tri::No => return Tri::No,
            Tri::Open => open = true,
            Tri::Yes => {}
        }
    }
    if open {
        Tri::Open
    } else {
        Tri::Yes
    }
}

fn field(f: &Value, vc: &Value) -> Tri {
    let optional = f["optional"].as_bool().unwrap_or(false);
    let Some(paths) = f["path"].as_array() else { return Tri::Open };
    let has_filter = f.get("filter").is_some_and(|x| !x.is_null());
    for p in paths {
        let segs = match parse_path(p.as_str().unwrap_or_default()) {
            Ok(s) => s,
            // not a path at all: the field cannot be met through it
            Err(true) => return if optional { Tri::Yes } else { Tri::No },
            Err(false) => return Tri::Open,
        };
        let nodes = eval_path(&segs, vc);
        if nodes.is_empty() {
            continue;
        }
        if !has_filter {
            return Tri::Yes;
        }
        let unknown_format =
            f["filter"]["format"].as_str().is_some_and(|x| !["date", "date-time"].contains(&x));
        if unknown_format {
            return if optional { Tri::Open } else { Tri::No };
        }
        let first = filter(&f["filter"], nodes[0]);
        // the first match decides; where the order of matches is not defined all must agree, or it is left open
        if ordered(&segs, vc) {
            return first;
        }
        return if nodes.iter().all(|n| filter(&f["filter"], n) == first) { first } else { Tri::Open };
    }
    if optional {
        Tri::Yes
    } else {
        Tri::No
    }
}

// ---------------------------------------------------------------------------------------------------------------
// claims of authorization requests

pub fn is_entry(v: &Value) -> bool {
    let Some(o) = v.as_object() else { return true };
    o.is_empty() || o.contains_key("mandatory") || o.contains_key("value_type") || o.contains_key("display")
}

/// Requested claims must all be supported, and every mandatory claim must be among them.
pub fn claims_ok(requested: &Value, supported: &Value) -> bool {
    let (Some(r), Some(s)) = (requested.as_object(), supported.as_object()) else { return true };
    for (k, v) in r {
        let Some(sv) = s.get(k) else { return false };
        if !is_entry(v) && (is_entry(sv) || !claims_known(v, sv)) {
            return false;
        }
    }
    claims_complete(r, s)
}

fn claims_known(r: &Value, s: &Value) -> bool {
    let (Some(r), Some(s)) = (r.as_object(), s.as_object()) else { return true };
    r.iter().all(|(k, v)| s.get(k).is_some_and(|sv| is_entry(v) || (!is_entry(sv) && claims_known(v, sv))))
}

fn claims_complete(r: &serde_json::Map<String, Value>, s: &serde_json::Map<String, Value>) -> bool {
    s.iter().all(|(k, sv)| {
        if is_entry(sv) {
            sv["mandatory"].as_bool() != Some(true) || r.contains_key(k)
        } else {
            match r.get(k) {
                Some(rv) if is_entry(rv) => false,
                Some(rv) => claims_complete(rv.as_object().unwrap_or(&serde_json::Map::new()), sv.as_object().unwrap()),
                None => claims_complete(&serde_json::Map::new(), sv.as_object().unwrap()),
            }
        }
    })
}
