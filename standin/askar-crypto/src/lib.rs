//! Offline stand-in for `askar-crypto` 0.2 (hyperledger/aries-askar, rev 4f29d43d): the subset of its public API that
//! didcomm-rust uses, with real cryptography behind it, and a random source that can be seeded so that every run is a
//! pure function of the code and a seed. See /verif/DESIGN.md.
#![allow(clippy::all)]

#[doc(hidden)]
pub mod prim_aes;
#[doc(hidden)]
pub mod prim_chacha;
#[doc(hidden)]
pub mod prim_ec;
#[doc(hidden)]
pub mod prim_ed;
#[doc(hidden)]
pub mod prim_hash;

mod error;
pub use error::{Error, ErrorKind};

pub mod alg;
pub mod buffer;
pub mod encrypt;
pub mod jwk;
pub mod kdf;
pub mod random;
pub mod repr;
pub mod sign;
#[doc(hidden)]
pub mod b64;
