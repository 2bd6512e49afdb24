use sha2::{Digest, Sha256, Sha512};

pub fn sha256(parts: &[&[u8]]) -> [u8; 32] {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().as_slice().try_into().unwrap()
}
pub fn sha512(parts: &[&[u8]]) -> [u8; 64] {
    let mut h = Sha512::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().as_slice().try_into().unwrap()
}
pub fn hmac256(key: &[u8], parts: &[&[u8]]) -> [u8; 32] {
    let mut k = [0u8; 64];
    if key.len() > 64 {
        k[..32].copy_from_slice(&sha256(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let ik: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let ok: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut all: Vec<&[u8]> = vec![&ik];
    all.extend_from_slice(parts);
    let inner = sha256(&all);
    sha256(&[&ok, &inner])
}
pub fn hmac512(key: &[u8], parts: &[&[u8]]) -> [u8; 64] {
    let mut k = [0u8; 128];
    if key.len() > 128 {
        k[..64].copy_from_slice(&sha512(&[key]));
    } else {
        k[..key.len()].copy_from_slice(key);
    }
    let ik: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    let ok: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    let mut all: Vec<&[u8]> = vec![&ik];
    all.extend_from_slice(parts);
    let inner = sha512(&all);
    sha512(&[&ok, &inner])
}
