use std::fmt::{self, Debug, Display};
use std::future::Future;

use anyhow::{anyhow, bail};
use base64ct::{Base64UrlUnpadded, Encoding};
use ed25519_dalek::{Signature, Verifier as _, VerifyingKey};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use super::jwk::PublicKeyJwk;
use crate::{Algorithm, Curve, Signer};

/// Encode the claims as a compact JWS signed by `signer`.
pub async fn encode<T>(typ: Type, claims: &T, signer: impl Signer) -> anyhow::Result<String>
where
    T: Serialize + Send + Sync,
{
    let header = Header { alg: signer.algorithm(), typ, key: KeyType::KeyId(signer.verification_method()) };
    let h = Base64UrlUnpadded::encode_string(&serde_json::to_vec(&header)?);
    let c = Base64UrlUnpadded::encode_string(&serde_json::to_vec(claims)?);
    let payload = format!("{h}.{c}");
    let sig = signer.try_sign(payload.as_bytes()).await?;
    Ok(format!("{payload}.{}", Base64UrlUnpadded::encode_string(&sig)))
}

/// Decode the JWS, check its signature with the key `pk_cb` resolves, and return header and claims.
pub async fn decode<F, Fut, T>(token: &str, pk_cb: F) -> anyhow::Result<Jwt<T>>
where
    T: DeserializeOwned + Send,
    F: Fn(String) -> Fut + Send + Sync,
    Fut: Future<Output = anyhow::Result<PublicKeyJwk>> + Send,
{
    let parts = token.split('.').collect::<Vec<_>>();
    if parts.len() != 3 {
        bail!("invalid Compact JWS format");
    }
    let dec = Base64UrlUnpadded::decode_vec(parts[0]).map_err(|e| anyhow!("issue decoding header: {e}"))?;
    let header: Header = serde_json::from_slice(&dec).map_err(|e| anyhow!("issue deserializing header: {e}"))?;
    let dec = Base64UrlUnpadded::decode_vec(parts[1]).map_err(|e| anyhow!("issue decoding claims: {e}"))?;
    let claims = serde_json::from_slice(&dec).map_err(|e| anyhow!("issue deserializing claims: {e}"))?;
    let sig = Base64UrlUnpadded::decode_vec(parts[2]).map_err(|e| anyhow!("issue decoding signature: {e}"))?;

    let KeyType::KeyId(kid) = header.key.clone() else {
        bail!("'kid' is not set");
    };
    if header.alg != Algorithm::EdDSA {
        bail!("'alg' is not recognised");
    }
    let jwk = pk_cb(kid).await?;
    verify(&jwk, &format!("{}.{}", parts[0], parts[1]), &sig)?;
    Ok(Jwt { header, claims })
}

pub fn verify(jwk: &PublicKeyJwk, msg: &str, sig: &[u8]) -> anyhow::Result<()> {
    if jwk.crv != Curve::Ed25519 {
        bail!("unsupported curve");
    }
    let x = Base64UrlUnpadded::decode_vec(&jwk.x).map_err(|e| anyhow!("unable to base64 decode x: {e}"))?;
    let key: [u8; 32] = x.as_slice().try_into().map_err(|_| anyhow!("invalid public key length"))?;
    let vk = VerifyingKey::from_bytes(&key).map_err(|e| anyhow!("unable to build verification key: {e}"))?;
    let sig: [u8; 64] = sig.try_into().map_err(|_| anyhow!("invalid signature length"))?;
    vk.verify(msg.as_bytes(), &Signature::from_bytes(&sig)).map_err(|e| anyhow!("unable to verify signature: {e}"))
}

#[derive(Clone, Debug, Default, PartialEq, Eq, Deserialize, Serialize)]
pub struct Jwt<T> {
    pub header: Header,
    pub claims: T,
}

#[derive(Clone, Debug, Default, Deserialize, Eq, PartialEq, Serialize)]
pub struct Header {
    pub alg: Algorithm,
    pub typ: Type,
    #[serde(flatten)]
    pub key: KeyType,
}

#[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
pub enum KeyType {
    #[serde(rename = "kid")]
    KeyId(String),
    #[serde(rename = "jwk")]
    Jwk(PublicKeyJwk),
}
impl Default for KeyType {
    fn default() -> Self { Self::KeyId(String::new()) }
}

#[derive(Clone, Debug, Default, Deserialize, Serialize, PartialEq, Eq)]
pub enum Type {
    #[default]
    #[serde(rename = "jwt")]
    Credential,
    #[serde(rename = "vp+jwt")]
    Presentation,
    #[serde(rename = "oauth-authz-req+jwt")]
    Request,
    #[serde(rename = "openid4vci-proof+jwt")]
    Proof,
}
impl Display for Type {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self {
            Self::Credential => "jwt",
            Self::Presentation => "vp+jwt",
            Self::Request => "oauth-authz-req+jwt",
            Self::Proof => "openid4vci-proof+jwt",
        })
    }
}
