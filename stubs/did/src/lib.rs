//! Stand-in for the git crate `vercre-did`: did:key resolved locally, did:web through the resolver.
use std::future::Future;

use anyhow::{anyhow, bail};
use base64ct::{Base64UrlUnpadded, Encoding};
use serde::{Deserialize, Serialize};
use vercre_infosec::jose::jwk::PublicKeyJwk;
use vercre_infosec::{Curve, KeyType};

pub trait DidResolver: Send + Sync {
    fn resolve(&self, url: &str) -> impl Future<Output = anyhow::Result<Document>> + Send;
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
#[serde(rename_all = "camelCase", default)]
pub struct Document {
    #[serde(rename = "@context")]
    pub context: Vec<serde_json::Value>,
    pub id: String,
    #[serde(skip_serializing_if = "Option::is_none")]
    pub verification_method: Option<Vec<VerificationMethod>>,
}
#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
#[serde(rename_all = "camelCase")]
pub struct VerificationMethod {
    pub id: String,
    pub controller: String,
    #[serde(flatten)]
    pub method_type: MethodType,
}
#[derive(Clone, Debug, Deserialize, Serialize, PartialEq, Eq)]
#[serde(tag = "type")]
pub enum MethodType {
    Multikey { #[serde(rename = "publicKeyMultibase")] public_key_multibase: String },
    JsonWebKey { #[serde(rename = "publicKeyJwk")] public_key_jwk: PublicKeyJwk },
}
impl Default for MethodType { fn default() -> Self { Self::Multikey { public_key_multibase: String::new() } } }
impl MethodType {
    pub fn jwk(&self) -> anyhow::Result<PublicKeyJwk> {
        match self {
            Self::JsonWebKey { public_key_jwk } => Ok(public_key_jwk.clone()),
            Self::Multikey { public_key_multibase } => multikey_jwk(public_key_multibase),
        }
    }
}
#[derive(Clone, Debug, Default)]
pub struct Options;
#[derive(Clone, Debug, Default)]
pub struct Dereferenced { pub content_stream: Option<Resource> }
#[derive(Clone, Debug)]
pub enum Resource { Document(Document), VerificationMethod(VerificationMethod) }

pub async fn dereference(did_url: &str, _opts: Option<Options>, resolver: &impl DidResolver) -> anyhow::Result<Dereferenced> {
    let mut it = did_url.splitn(2, '#');
    let did = it.next().unwrap_or_default();
    let frag = it.next();
    let doc = match did.split(':').nth(1) {
        Some("key") => key_document(did)?,
        Some("web") => resolver.resolve(did).await?,
        _ => bail!("unsupported DID method: {did}"),
    };
    let Some(_) = frag else { return Ok(Dereferenced { content_stream: Some(Resource::Document(doc)) }) };
    let vm = doc.verification_method.unwrap_or_default().into_iter().find(|vm| vm.id == did_url)
        .ok_or_else(|| anyhow!("verification method missing"))?;
    Ok(Dereferenced { content_stream: Some(Resource::VerificationMethod(vm)) })
}
fn key_document(did: &str) -> anyhow::Result<Document> {
    let mb = did.strip_prefix("did:key:").ok_or_else(|| anyhow!("invalid did:key"))?;
    multikey_jwk(mb)?;
    Ok(Document {
        context: vec![], id: did.into(),
        verification_method: Some(vec![VerificationMethod {
            id: format!("{did}#{mb}"), controller: did.into(),
            method_type: MethodType::Multikey { public_key_multibase: mb.into() },
        }]),
    })
}
fn multikey_jwk(mb: &str) -> anyhow::Result<PublicKeyJwk> {
    let raw = base58(mb.strip_prefix('z').ok_or_else(|| anyhow!("not base58btc"))?)?;
    if raw.len() != 34 || raw[0] != 0xed || raw[1] != 0x01 { bail!("not an Ed25519 multikey"); }
    Ok(PublicKeyJwk { kty: KeyType::Okp, crv: Curve::Ed25519, x: Base64UrlUnpadded::encode_string(&raw[2..]), ..Default::default() })
}
const ALPHA: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
fn base58(s: &str) -> anyhow::Result<Vec<u8>> {
    let mut out: Vec<u8> = Vec::new();
    for c in s.bytes() {
        let mut carry = ALPHA.iter().position(|a| *a == c).ok_or_else(|| anyhow!("bad base58"))? as u32;
        for b in out.iter_mut() { carry += u32::from(*b) * 58; *b = carry as u8; carry >>= 8; }
        while carry > 0 { out.push(carry as u8); carry >>= 8; }
    }
    for c in s.bytes() { if c == b'1' { out.push(0) } else { break } }
    out.reverse();
    Ok(out)
}
/// Multikey text (`z...`) of an Ed25519 public key.
pub fn multikey(public: &[u8]) -> String {
    let mut raw = vec![0xed, 0x01];
    raw.extend_from_slice(public);
    let mut digits: Vec<u8> = Vec::new();
    for b in &raw {
        let mut carry = u32::from(*b);
        for d in digits.iter_mut() { carry += u32::from(*d) << 8; *d = (carry % 58) as u8; carry /= 58; }
        while carry > 0 { digits.push((carry % 58) as u8); carry /= 58; }
    }
    let mut s = String::from("z");
    for d in digits.iter().rev() { s.push(ALPHA[*d as usize] as char); }
    s
}
