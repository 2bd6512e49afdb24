//! URL-safe base64 without padding (strict).
const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
pub fn enc(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 4 / 3 + 3);
    for c in b.chunks(3) {
        let v = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..=c.len() {
            s.push(A[((v >> (18 - 6 * i)) & 63) as usize] as char);
        }
    }
    s
}
pub fn dec(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 4 == 1 {
        return None;
    }
    let mut out = Vec::with_capacity(b.len() * 3 / 4);
    for c in b.chunks(4) {
        let mut v = 0u32;
        for (i, x) in c.iter().enumerate() {
            let p = A.iter().position(|a| a == x)? as u32;
            v |= p << (18 - 6 * i);
        }
        let n = c.len() - 1;
        for i in 0..n {
            out.push((v >> (16 - 8 * i)) as u8);
        }
        if v & ((1 << (24 - 8 * n)) - 1) != 0 {
            return None;
        }
    }
    Some(out)
}
