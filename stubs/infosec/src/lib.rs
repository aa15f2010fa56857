//! Stand-in for the git crate `vercre-infosec` (unreachable offline), with its public API as vercre uses
//! it and *real* Ed25519 signatures: JWS compact encoding, COSE keys, CBOR helpers.
pub mod cose;
pub mod jose;

use std::fmt::{self, Display};
use std::future::Future;

pub use jose::jwk::PublicKeyJwk;
use serde::{Deserialize, Serialize};

pub trait SecOps: Send + Sync {
    fn signer(&self, identifier: &str) -> anyhow::Result<impl Signer>;
    fn encryptor(&self, identifier: &str) -> anyhow::Result<impl Encryptor>;
    fn decryptor(&self, identifier: &str) -> anyhow::Result<impl Decryptor>;
}

pub trait Signer: Send + Sync {
    fn sign(&self, msg: &[u8]) -> impl Future<Output = Vec<u8>> + Send {
        async { self.try_sign(msg).await.expect("should sign") }
    }
    fn try_sign(&self, msg: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn algorithm(&self) -> Algorithm;
    fn verification_method(&self) -> String;
}

pub trait Encryptor: Send + Sync {
    fn encrypt(&self, plaintext: &[u8], recipient_public_key: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
    fn public_key(&self) -> Vec<u8>;
}

pub trait Decryptor: Send + Sync {
    fn decrypt(&self, ciphertext: &[u8], sender_public_key: &[u8]) -> impl Future<Output = anyhow::Result<Vec<u8>>> + Send;
}

#[derive(Clone, Copy, Debug, Default, Deserialize, Eq, PartialEq, Serialize)]
pub enum Algorithm {
    #[default]
    #[serde(rename = "ES256K")]
    ES256K,
    #[serde(rename = "EdDSA")]
    EdDSA,
}
impl Display for Algorithm {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self { Self::ES256K => "ES256K", Self::EdDSA => "EdDSA" })
    }
}

#[derive(Clone, Debug, Default, Deserialize, Eq, PartialEq, Serialize)]
pub enum KeyType {
    #[default]
    #[serde(rename = "OKP")]
    Okp,
    #[serde(rename = "EC")]
    Ec,
    #[serde(rename = "oct")]
    Oct,
}
impl Display for KeyType {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self { Self::Okp => "OKP", Self::Ec => "EC", Self::Oct => "oct" })
    }
}

#[derive(Clone, Debug, Default, Deserialize, Eq, PartialEq, Serialize)]
pub enum Curve {
    #[default]
    #[serde(rename = "Ed25519")]
    Ed25519,
    #[serde(rename = "secp256k1", alias = "ES256K")]
    Es256K,
}
impl Display for Curve {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(match self { Self::Ed25519 => "Ed25519", Self::Es256K => "ES256K" })
    }
}
