//! Independent reference implementations used as oracles.  Written from the
//! specifications, without any code from the library under test or OpenSSL.
pub mod aes;
pub mod ec;
pub mod hash;
pub mod kdf;
pub mod rsa;
pub use num_bigint::BigUint;
