pub mod jwk;
pub mod jws;
pub mod jwt {
    pub use super::jws::{Header, Jwt, KeyType, Type};
}
