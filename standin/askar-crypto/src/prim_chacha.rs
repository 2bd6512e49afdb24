//! ChaCha20, HChaCha20, Poly1305, XChaCha20-Poly1305 (draft-irtf-cfrg-xchacha).
fn qr(s: &mut [u32; 16], a: usize, b: usize, c: usize, d: usize) {
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(16);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(12);
    s[a] = s[a].wrapping_add(s[b]);
    s[d] = (s[d] ^ s[a]).rotate_left(8);
    s[c] = s[c].wrapping_add(s[d]);
    s[b] = (s[b] ^ s[c]).rotate_left(7);
}
fn rounds(s: &mut [u32; 16]) {
    for _ in 0..10 {
        qr(s, 0, 4, 8, 12);
        qr(s, 1, 5, 9, 13);
        qr(s, 2, 6, 10, 14);
        qr(s, 3, 7, 11, 15);
        qr(s, 0, 5, 10, 15);
        qr(s, 1, 6, 11, 12);
        qr(s, 2, 7, 8, 13);
        qr(s, 3, 4, 9, 14);
    }
}
fn init(key: &[u8]) -> [u32; 16] {
    let mut s = [0u32; 16];
    s[0] = 0x61707865;
    s[1] = 0x3320646e;
    s[2] = 0x79622d32;
    s[3] = 0x6b206574;
    for i in 0..8 {
        s[4 + i] = u32::from_le_bytes(key[4 * i..4 * i + 4].try_into().unwrap());
    }
    s
}
pub fn block(key: &[u8], ctr: u32, nonce: &[u8]) -> [u8; 64] {
    let mut s = init(key);
    s[12] = ctr;
    for i in 0..3 {
        s[13 + i] = u32::from_le_bytes(nonce[4 * i..4 * i + 4].try_into().unwrap());
    }
    let orig = s;
    rounds(&mut s);
    let mut out = [0u8; 64];
    for i in 0..16 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].wrapping_add(orig[i]).to_le_bytes());
    }
    out
}
pub fn hchacha(key: &[u8], nonce16: &[u8]) -> [u8; 32] {
    let mut s = init(key);
    for i in 0..4 {
        s[12 + i] = u32::from_le_bytes(nonce16[4 * i..4 * i + 4].try_into().unwrap());
    }
    rounds(&mut s);
    let mut out = [0u8; 32];
    for i in 0..4 {
        out[4 * i..4 * i + 4].copy_from_slice(&s[i].to_le_bytes());
        out[16 + 4 * i..20 + 4 * i].copy_from_slice(&s[12 + i].to_le_bytes());
    }
    out
}
pub fn poly1305(key: &[u8], msg: &[u8]) -> [u8; 16] {
    // 26-bit limbs
    let le = |b: &[u8]| u32::from_le_bytes(b.try_into().unwrap());
    let r0 = le(&key[0..4]) & 0x3ffffff;
    let r1 = (le(&key[3..7]) >> 2) & 0x3ffff03;
    let r2 = (le(&key[6..10]) >> 4) & 0x3ffc0ff;
    let r3 = (le(&key[9..13]) >> 6) & 0x3f03fff;
    let r4 = (le(&key[12..16]) >> 8) & 0x00fffff;
    let (s1, s2, s3, s4) = (r1 * 5, r2 * 5, r3 * 5, r4 * 5);
    let mut h = [0u32; 5];
    for c in msg.chunks(16) {
        let mut b = [0u8; 17];
        b[..c.len()].copy_from_slice(c);
        b[c.len()] = 1;
        h[0] += le(&b[0..4]) & 0x3ffffff;
        h[1] += (le(&b[3..7]) >> 2) & 0x3ffffff;
        h[2] += (le(&b[6..10]) >> 4) & 0x3ffffff;
        h[3] += (le(&b[9..13]) >> 6) & 0x3ffffff;
        h[4] += (le(&b[12..16]) >> 8) | ((b[16] as u32) << 24);
        let m = |a: u32, b: u32| a as u64 * b as u64;
        let d0 = m(h[0], r0) + m(h[1], s4) + m(h[2], s3) + m(h[3], s2) + m(h[4], s1);
        let mut d1 = m(h[0], r1) + m(h[1], r0) + m(h[2], s4) + m(h[3], s3) + m(h[4], s2);
        let mut d2 = m(h[0], r2) + m(h[1], r1) + m(h[2], r0) + m(h[3], s4) + m(h[4], s3);
        let mut d3 = m(h[0], r3) + m(h[1], r2) + m(h[2], r1) + m(h[3], r0) + m(h[4], s4);
        let mut d4 = m(h[0], r4) + m(h[1], r3) + m(h[2], r2) + m(h[3], r1) + m(h[4], r0);
        let mut cy = d0 >> 26;
        h[0] = (d0 & 0x3ffffff) as u32;
        d1 += cy;
        cy = d1 >> 26;
        h[1] = (d1 & 0x3ffffff) as u32;
        d2 += cy;
        cy = d2 >> 26;
        h[2] = (d2 & 0x3ffffff) as u32;
        d3 += cy;
        cy = d3 >> 26;
        h[3] = (d3 & 0x3ffffff) as u32;
        d4 += cy;
        cy = d4 >> 26;
        h[4] = (d4 & 0x3ffffff) as u32;
        let x = h[0] as u64 + cy * 5;
        h[0] = (x & 0x3ffffff) as u32;
        h[1] += (x >> 26) as u32;
    }
    // full carry
    let mut c = h[1] >> 26;
    h[1] &= 0x3ffffff;
    h[2] += c;
    c = h[2] >> 26;
    h[2] &= 0x3ffffff;
    h[3] += c;
    c = h[3] >> 26;
    h[3] &= 0x3ffffff;
    h[4] += c;
    c = h[4] >> 26;
    h[4] &= 0x3ffffff;
    h[0] += c * 5;
    c = h[0] >> 26;
    h[0] &= 0x3ffffff;
    h[1] += c;
    // compare with p
    let mut g = [0u32; 5];
    let mut c = 5u32;
    for i in 0..5 {
        let v = h[i] + c;
        if i < 4 {
            g[i] = v & 0x3ffffff;
            c = v >> 26;
        } else {
            g[4] = v;
        }
    }
    if g[4] >> 26 != 0 {
        g[4] &= 0x3ffffff;
        h = g;
    }
    let mut acc = 0u128;
    for i in (0..5).rev() {
        acc = (acc << 26) | 0;
        acc = acc.wrapping_add(h[i] as u128);
    }
    let pad = u128::from_le_bytes(key[16..32].try_into().unwrap());
    acc.wrapping_add(pad).to_le_bytes()
}
fn aead_tag(otk: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let mut m = aad.to_vec();
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(ct);
    m.resize((m.len() + 15) / 16 * 16, 0);
    m.extend_from_slice(&(aad.len() as u64).to_le_bytes());
    m.extend_from_slice(&(ct.len() as u64).to_le_bytes());
    poly1305(otk, &m)
}
fn xsetup(key: &[u8], nonce: &[u8]) -> ([u8; 32], [u8; 12]) {
    let k = hchacha(key, &nonce[..16]);
    let mut n = [0u8; 12];
    n[4..].copy_from_slice(&nonce[16..24]);
    (k, n)
}
fn xor(key: &[u8], nonce: &[u8], data: &mut [u8]) {
    for (i, c) in data.chunks_mut(64).enumerate() {
        let b = block(key, 1 + i as u32, nonce);
        for (x, y) in c.iter_mut().zip(b) {
            *x ^= y;
        }
    }
}
pub fn xc20p_seal(key: &[u8], nonce: &[u8], aad: &[u8], data: &mut [u8]) -> [u8; 16] {
    let (k, n) = xsetup(key, nonce);
    let otk = block(&k, 0, &n);
    xor(&k, &n, data);
    aead_tag(&otk[..32], aad, data)
}
pub fn xc20p_open(key: &[u8], nonce: &[u8], aad: &[u8], data: &mut [u8], tag: &[u8]) -> bool {
    let (k, n) = xsetup(key, nonce);
    let otk = block(&k, 0, &n);
    if aead_tag(&otk[..32], aad, data) != tag {
        return false;
    }
    xor(&k, &n, data);
    true
}
