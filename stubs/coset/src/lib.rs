//! Stand-in for `coset` 0.3.8, COSE_Sign1 only: `[ protected bstr, unprotected map, payload bstr / nil, signature bstr ]`.
use ciborium::Value;
use std::fmt;
#[derive(Debug)]
pub struct CoseError(pub &'static str);
impl fmt::Display for CoseError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(self.0) } }
impl std::error::Error for CoseError {}
pub type Result<T, E = CoseError> = std::result::Result<T, E>;
pub mod iana {
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    pub enum Algorithm { EdDSA, ES256K, ES256 }
    impl Algorithm { pub fn to_i64(self) -> i64 { match self { Self::EdDSA => -8, Self::ES256K => -47, Self::ES256 => -7 } } }
}
pub trait AsCborValue: Sized {
    fn from_cbor_value(value: Value) -> Result<Self>;
    fn to_cbor_value(self) -> Result<Value>;
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Header { pub alg: Option<i64>, pub key_id: Vec<u8> }
impl Header { pub fn is_empty(&self) -> bool { self.alg.is_none() && self.key_id.is_empty() } }
impl AsCborValue for Header {
    fn to_cbor_value(self) -> Result<Value> {
        let mut m = Vec::new();
        if let Some(a) = self.alg { m.push((Value::Integer(1.into()), Value::Integer(a.into()))); }
        if !self.key_id.is_empty() { m.push((Value::Integer(4.into()), Value::Bytes(self.key_id))); }
        Ok(Value::Map(m))
    }
    fn from_cbor_value(value: Value) -> Result<Self> {
        let Value::Map(m) = value else { return Err(CoseError("expected map")) };
        let mut h = Self::default();
        for (k, v) in m {
            match k.as_integer().map_or(0i128, Into::into) {
                1 => h.alg = v.as_integer().map(|i| i128::from(i) as i64),
                4 => h.key_id = v.as_bytes().cloned().unwrap_or_default(),
                _ => {}
            }
        }
        Ok(h)
    }
}
#[derive(Clone, Debug, Default)]
pub struct HeaderBuilder(Header);
impl HeaderBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn algorithm(mut self, a: iana::Algorithm) -> Self { self.0.alg = Some(a.to_i64()); self }
    pub fn key_id(mut self, k: Vec<u8>) -> Self { self.0.key_id = k; self }
    pub fn build(self) -> Header { self.0 }
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct ProtectedHeader { pub original_data: Option<Vec<u8>>, pub header: Header }
#[derive(Clone, Debug, Default, PartialEq)]
pub struct CoseSign1 { pub protected: ProtectedHeader, pub unprotected: Header, pub payload: Option<Vec<u8>>, pub signature: Vec<u8> }
fn enc(v: &Value) -> Vec<u8> { let mut b = Vec::new(); ciborium::into_writer(v, &mut b).expect("cbor"); b }
impl AsCborValue for CoseSign1 {
    fn to_cbor_value(self) -> Result<Value> {
        let p = if self.protected.header.is_empty() { Vec::new() } else { enc(&self.protected.header.to_cbor_value()?) };
        Ok(Value::Array(vec![
            Value::Bytes(p), self.unprotected.to_cbor_value()?,
            self.payload.map_or(Value::Null, Value::Bytes), Value::Bytes(self.signature),
        ]))
    }
    fn from_cbor_value(value: Value) -> Result<Self> {
        let Value::Array(a) = value else { return Err(CoseError("expected array")) };
        let [p, u, pl, s]: [Value; 4] = a.try_into().map_err(|_| CoseError("expected 4 elements"))?;
        let Value::Bytes(p) = p else { return Err(CoseError("expected bytes")) };
        let header = if p.is_empty() { Header::default() } else {
            Header::from_cbor_value(ciborium::from_reader(p.as_slice()).map_err(|_| CoseError("cbor"))?)?
        };
        let Value::Bytes(signature) = s else { return Err(CoseError("expected bytes")) };
        Ok(Self { protected: ProtectedHeader { original_data: Some(p), header }, unprotected: Header::from_cbor_value(u)?, payload: pl.as_bytes().cloned(), signature })
    }
}
impl CoseSign1 {
    pub fn tbs_data(&self, aad: &[u8]) -> Vec<u8> {
        let p = self.protected.original_data.clone().unwrap_or_else(|| enc(&self.protected.header.clone().to_cbor_value().expect("hdr")));
        enc(&Value::Array(vec![Value::Text("Signature1".into()), Value::Bytes(p), Value::Bytes(aad.to_vec()), Value::Bytes(self.payload.clone().unwrap_or_default())]))
    }
}
#[derive(Clone, Debug, Default)]
pub struct CoseSign1Builder(CoseSign1);
impl CoseSign1Builder {
    pub fn new() -> Self { Self::default() }
    pub fn protected(mut self, h: Header) -> Self { self.0.protected = ProtectedHeader { original_data: None, header: h }; self }
    pub fn unprotected(mut self, h: Header) -> Self { self.0.unprotected = h; self }
    pub fn payload(mut self, p: Vec<u8>) -> Self { self.0.payload = Some(p); self }
    pub fn signature(mut self, s: Vec<u8>) -> Self { self.0.signature = s; self }
    pub fn build(self) -> CoseSign1 { self.0 }
}
