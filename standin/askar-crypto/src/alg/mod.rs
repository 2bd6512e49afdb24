pub mod aes;
pub mod chacha20;
pub mod ed25519;
mod ec_common;
pub mod k256;
pub mod p256;
pub mod x25519;
