//! CBOR/COSE helpers.
use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
use crate::{Curve, KeyType};

pub mod cbor {
    use serde::de::DeserializeOwned;
    use serde::Serialize;
    pub fn to_vec<T: Serialize>(value: &T) -> anyhow::Result<Vec<u8>> {
        let mut buf = Vec::new();
        ciborium::into_writer(value, &mut buf)?;
        Ok(buf)
    }
    pub fn from_slice<T: DeserializeOwned>(slice: &[u8]) -> anyhow::Result<T> {
        Ok(ciborium::from_reader(slice)?)
    }
}

/// `#6.24(bstr .cbor T)`
#[derive(Clone, Debug)]
pub struct Tag24<T>(pub T);
impl<T: Serialize> Tag24<T> {
    pub fn to_vec(&self) -> anyhow::Result<Vec<u8>> { cbor::to_vec(self) }
}
impl<T> std::ops::Deref for Tag24<T> { type Target = T; fn deref(&self) -> &T { &self.0 } }
impl<T: Serialize> Serialize for Tag24<T> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let inner = cbor::to_vec(&self.0).map_err(ser::Error::custom)?;
        ciborium::Value::Tag(24, Box::new(ciborium::Value::Bytes(inner))).serialize(s)
    }
}
impl<'de, T: de::DeserializeOwned> Deserialize<'de> for Tag24<T> {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let ciborium::Value::Tag(24, v) = ciborium::Value::deserialize(d)? else {
            return Err(de::Error::custom("expected tag 24"));
        };
        let ciborium::Value::Bytes(b) = *v else { return Err(de::Error::custom("expected bytes")) };
        cbor::from_slice(&b).map(Self).map_err(de::Error::custom)
    }
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct CoseKey { pub kty: KeyType, pub crv: Curve, pub x: Vec<u8>, pub y: Option<Vec<u8>> }
impl Serialize for CoseKey {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use ciborium::Value as V;
        let (kty, crv) = match self.kty { KeyType::Okp => (1, 6), KeyType::Ec => (2, 8), KeyType::Oct => (4, 0) };
        let mut m = vec![
            (V::Integer(1.into()), V::Integer(kty.into())),
            (V::Integer((-1).into()), V::Integer(crv.into())),
            (V::Integer((-2).into()), V::Bytes(self.x.clone())),
        ];
        if let Some(y) = &self.y { m.push((V::Integer((-3).into()), V::Bytes(y.clone()))); }
        V::Map(m).serialize(s)
    }
}
impl<'de> Deserialize<'de> for CoseKey {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let ciborium::Value::Map(m) = ciborium::Value::deserialize(d)? else { return Err(de::Error::custom("expected map")) };
        let mut k = Self::default();
        for (key, v) in m {
            let n: i128 = key.as_integer().map_or(0, Into::into);
            match n {
                1 => k.kty = match v.as_integer().map_or(0i128, Into::into) { 2 => KeyType::Ec, 4 => KeyType::Oct, _ => KeyType::Okp },
                -1 => k.crv = match v.as_integer().map_or(0i128, Into::into) { 8 => Curve::Es256K, _ => Curve::Ed25519 },
                -2 => k.x = v.as_bytes().cloned().unwrap_or_default(),
                -3 => k.y = v.as_bytes().cloned(),
                _ => {}
            }
        }
        Ok(k)
    }
}
