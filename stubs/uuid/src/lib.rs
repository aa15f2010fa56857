//! Stand-in for `uuid` (the cached release needs a newer compiler): random v4 UUIDs and text forms.
use std::fmt;
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Uuid([u8; 16]);
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("invalid UUID") } }
impl std::error::Error for Error {}
impl Uuid {
    pub fn new_v4() -> Self {
        let mut b = [0u8; 16];
        getrandom::getrandom(&mut b).expect("entropy");
        b[6] = (b[6] & 0x0f) | 0x40;
        b[8] = (b[8] & 0x3f) | 0x80;
        Self(b)
    }
    pub const fn nil() -> Self { Self([0; 16]) }
    pub const fn from_bytes(b: [u8; 16]) -> Self { Self(b) }
    pub const fn as_bytes(&self) -> &[u8; 16] { &self.0 }
    pub const fn into_bytes(self) -> [u8; 16] { self.0 }
    pub fn is_nil(&self) -> bool { self.0 == [0; 16] }
    pub fn as_u128(&self) -> u128 { u128::from_be_bytes(self.0) }
    pub fn parse_str(s: &str) -> Result<Self, Error> {
        let hex: String = s.trim_start_matches("urn:uuid:").chars().filter(|c| *c != '-').collect();
        if hex.len() != 32 { return Err(Error); }
        let mut b = [0u8; 16];
        for i in 0..16 { b[i] = u8::from_str_radix(hex.get(2 * i..2 * i + 2).ok_or(Error)?, 16).map_err(|_| Error)?; }
        Ok(Self(b))
    }
    pub fn simple(self) -> Simple { Simple(self) }
    pub fn hyphenated(self) -> Self { self }
}
pub struct Simple(Uuid);
impl fmt::Display for Simple {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { for x in self.0 .0 { write!(f, "{x:02x}")?; } Ok(()) }
}
impl fmt::Display for Uuid {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        for (i, x) in self.0.iter().enumerate() {
            if matches!(i, 4 | 6 | 8 | 10) { f.write_str("-")?; }
            write!(f, "{x:02x}")?;
        }
        Ok(())
    }
}
impl fmt::Debug for Uuid { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { fmt::Display::fmt(self, f) } }
impl std::str::FromStr for Uuid { type Err = Error; fn from_str(s: &str) -> Result<Self, Error> { Self::parse_str(s) } }
impl From<Uuid> for String { fn from(u: Uuid) -> String { u.to_string() } }
