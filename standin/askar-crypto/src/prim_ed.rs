//! Ed25519 (RFC 8032, strict verification) and X25519 on top of curve25519-dalek.
use crate::prim_hash::sha512;
use curve25519_dalek::{edwards::CompressedEdwardsY, montgomery::MontgomeryPoint, EdwardsPoint, Scalar};

pub fn x25519(sk: &[u8; 32], pk: &[u8; 32]) -> [u8; 32] {
    MontgomeryPoint(*pk).mul_clamped(*sk).to_bytes()
}
pub fn x25519_base(sk: &[u8; 32]) -> [u8; 32] {
    MontgomeryPoint::mul_base_clamped(*sk).to_bytes()
}
fn expand(sk: &[u8; 32]) -> (Scalar, [u8; 32]) {
    let h = sha512(&[sk]);
    let s = curve25519_dalek::scalar::clamp_integer(h[..32].try_into().unwrap());
    (Scalar::from_bytes_mod_order(s), h[32..].try_into().unwrap())
}
pub fn ed_public(sk: &[u8; 32]) -> [u8; 32] {
    EdwardsPoint::mul_base(&expand(sk).0).compress().to_bytes()
}
pub fn ed_valid_public(pk: &[u8; 32]) -> bool {
    CompressedEdwardsY(*pk).decompress().is_some()
}
pub fn ed_sign(sk: &[u8; 32], pk: &[u8; 32], msg: &[u8]) -> [u8; 64] {
    let (s, prefix) = expand(sk);
    let r = Scalar::from_bytes_mod_order_wide(&sha512(&[&prefix, msg]));
    let big_r = EdwardsPoint::mul_base(&r).compress().to_bytes();
    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&big_r, pk, msg]));
    let mut o = [0u8; 64];
    o[..32].copy_from_slice(&big_r);
    o[32..].copy_from_slice((r + k * s).as_bytes());
    o
}
pub fn ed_verify(pk: &[u8; 32], msg: &[u8], sig: &[u8]) -> bool {
    if sig.len() != 64 {
        return false;
    }
    let rb: [u8; 32] = sig[..32].try_into().unwrap();
    let sb: [u8; 32] = sig[32..].try_into().unwrap();
    let s: Option<Scalar> = Scalar::from_canonical_bytes(sb).into();
    let (Some(s), Some(a), Some(r)) = (s, CompressedEdwardsY(*pk).decompress(), CompressedEdwardsY(rb).decompress()) else {
        return false;
    };
    if a.is_small_order() || r.is_small_order() {
        return false;
    }
    let k = Scalar::from_bytes_mod_order_wide(&sha512(&[&rb, pk, msg]));
    let p = EdwardsPoint::vartime_double_scalar_mul_basepoint(&k, &-a, &s);
    p.compress().to_bytes() == rb
}
