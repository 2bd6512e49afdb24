//! Software AES-256 / AES-128 (T-table free of assumptions: S-box derived at start-up), CBC, CTR/GCM, RFC 3394.
use std::sync::OnceLock;

pub struct Tables {
    pub sbox: [u8; 256],
    pub inv: [u8; 256],
    te: [[u32; 256]; 4],
    td: [[u32; 256]; 4],
}

fn xtime(a: u8) -> u8 {
    (a << 1) ^ (if a & 0x80 != 0 { 0x1b } else { 0 })
}
fn gmul(mut a: u8, mut b: u8) -> u8 {
    let mut r = 0;
    while b != 0 {
        if b & 1 != 0 {
            r ^= a;
        }
        a = xtime(a);
        b >>= 1;
    }
    r
}

pub fn tables() -> &'static Tables {
    static T: OnceLock<Box<Tables>> = OnceLock::new();
    T.get_or_init(|| {
        let mut t = Box::new(Tables { sbox: [0; 256], inv: [0; 256], te: [[0; 256]; 4], td: [[0; 256]; 4] });
        // S-box by definition: multiplicative inverse then affine map.
        for i in 0..256usize {
            let x = i as u8;
            let mut inv = 0u8;
            if x != 0 {
                // x^254
                let mut p = 1u8;
                for _ in 0..254 {
                    p = gmul(p, x);
                }
                inv = p;
            }
            let s = inv ^ inv.rotate_left(1) ^ inv.rotate_left(2) ^ inv.rotate_left(3) ^ inv.rotate_left(4) ^ 0x63;
            t.sbox[i] = s;
            t.inv[s as usize] = x;
        }
        for i in 0..256usize {
            let s = t.sbox[i];
            let w = u32::from_be_bytes([gmul(s, 2), s, s, gmul(s, 3)]);
            let v = t.inv[i];
            let d = u32::from_be_bytes([gmul(v, 14), gmul(v, 9), gmul(v, 13), gmul(v, 11)]);
            for k in 0..4 {
                t.te[k][i] = w.rotate_right(8 * k as u32);
                t.td[k][i] = d.rotate_right(8 * k as u32);
            }
        }
        t
    })
}

#[derive(Clone)]
pub struct Aes {
    ek: Vec<u32>,
    dk: Vec<u32>,
    rounds: usize,
}

impl Aes {
    pub fn new(key: &[u8]) -> Aes {
        let t = tables();
        let nk = key.len() / 4;
        assert!(nk == 4 || nk == 6 || nk == 8);
        let rounds = nk + 6;
        let n = 4 * (rounds + 1);
        let mut w = Vec::with_capacity(n);
        for c in key.chunks(4) {
            w.push(u32::from_be_bytes([c[0], c[1], c[2], c[3]]));
        }
        let sub = |x: u32| {
            let b = x.to_be_bytes();
            u32::from_be_bytes([t.sbox[b[0] as usize], t.sbox[b[1] as usize], t.sbox[b[2] as usize], t.sbox[b[3] as usize]])
        };
        let mut rcon = 1u8;
        for i in nk..n {
            let mut x: u32 = w[i - 1];
            if i % nk == 0 {
                x = sub(x.rotate_left(8)) ^ ((rcon as u32) << 24);
                rcon = xtime(rcon);
            } else if nk > 6 && i % nk == 4 {
                x = sub(x);
            }
            w.push(w[i - nk] ^ x);
        }
        // equivalent inverse cipher key schedule
        let mut dk = vec![0u32; n];
        for r in 0..=rounds {
            for c in 0..4 {
                let x = w[4 * (rounds - r) + c];
                dk[4 * r + c] = if r == 0 || r == rounds {
                    x
                } else {
                    let b = x.to_be_bytes();
                    t.td[0][t.sbox[b[0] as usize] as usize]
                        ^ t.td[1][t.sbox[b[1] as usize] as usize]
                        ^ t.td[2][t.sbox[b[2] as usize] as usize]
                        ^ t.td[3][t.sbox[b[3] as usize] as usize]
                };
            }
        }
        Aes { ek: w, dk, rounds }
    }

    pub fn encrypt(&self, block: &mut [u8; 16]) {
        let t = tables();
        let k = &self.ek;
        let mut s = [0u32; 4];
        for i in 0..4 {
            s[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]) ^ k[i];
        }
        for r in 1..self.rounds {
            let mut n = [0u32; 4];
            for i in 0..4 {
                n[i] = t.te[0][(s[i] >> 24) as usize]
                    ^ t.te[1][((s[(i + 1) & 3] >> 16) & 255) as usize]
                    ^ t.te[2][((s[(i + 2) & 3] >> 8) & 255) as usize]
                    ^ t.te[3][(s[(i + 3) & 3] & 255) as usize]
                    ^ k[4 * r + i];
            }
            s = n;
        }
        for i in 0..4 {
            let x = u32::from_be_bytes([
                t.sbox[(s[i] >> 24) as usize],
                t.sbox[((s[(i + 1) & 3] >> 16) & 255) as usize],
                t.sbox[((s[(i + 2) & 3] >> 8) & 255) as usize],
                t.sbox[(s[(i + 3) & 3] & 255) as usize],
            ]) ^ k[4 * self.rounds + i];
            block[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
        }
    }

    pub fn decrypt(&self, block: &mut [u8; 16]) {
        let t = tables();
        let k = &self.dk;
        let mut s = [0u32; 4];
        for i in 0..4 {
            s[i] = u32::from_be_bytes([block[4 * i], block[4 * i + 1], block[4 * i + 2], block[4 * i + 3]]) ^ k[i];
        }
        for r in 1..self.rounds {
            let mut n = [0u32; 4];
            for i in 0..4 {
                n[i] = t.td[0][(s[i] >> 24) as usize]
                    ^ t.td[1][((s[(i + 3) & 3] >> 16) & 255) as usize]
                    ^ t.td[2][((s[(i + 2) & 3] >> 8) & 255) as usize]
                    ^ t.td[3][(s[(i + 1) & 3] & 255) as usize]
                    ^ k[4 * r + i];
            }
            s = n;
        }
        for i in 0..4 {
            let x = u32::from_be_bytes([
                t.inv[(s[i] >> 24) as usize],
                t.inv[((s[(i + 3) & 3] >> 16) & 255) as usize],
                t.inv[((s[(i + 2) & 3] >> 8) & 255) as usize],
                t.inv[(s[(i + 1) & 3] & 255) as usize],
            ]) ^ k[4 * self.rounds + i];
            block[4 * i..4 * i + 4].copy_from_slice(&x.to_be_bytes());
        }
    }
}

/// RFC 3394 key wrap with the default IV.
pub fn kw_wrap(key: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if data.len() % 8 != 0 || data.len() < 8 {
        return None;
    }
    let aes = Aes::new(key);
    let n = data.len() / 8;
    let mut a = [0xa6u8; 8];
    let mut r: Vec<[u8; 8]> = data.chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in 0..6u64 {
        for i in 0..n {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&a);
            b[8..].copy_from_slice(&r[i]);
            aes.encrypt(&mut b);
            let t = (n as u64) * j + (i as u64 + 1);
            a.copy_from_slice(&b[..8]);
            for (x, y) in a.iter_mut().zip(t.to_be_bytes()) {
                *x ^= y;
            }
            r[i].copy_from_slice(&b[8..]);
        }
    }
    let mut out = a.to_vec();
    for x in r {
        out.extend_from_slice(&x);
    }
    Some(out)
}

pub fn kw_unwrap(key: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if data.len() % 8 != 0 || data.len() < 16 {
        return None;
    }
    let aes = Aes::new(key);
    let n = data.len() / 8 - 1;
    let mut a: [u8; 8] = data[..8].try_into().unwrap();
    let mut r: Vec<[u8; 8]> = data[8..].chunks(8).map(|c| c.try_into().unwrap()).collect();
    for j in (0..6u64).rev() {
        for i in (0..n).rev() {
            let t = (n as u64) * j + (i as u64 + 1);
            for (x, y) in a.iter_mut().zip(t.to_be_bytes()) {
                *x ^= y;
            }
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&a);
            b[8..].copy_from_slice(&r[i]);
            aes.decrypt(&mut b);
            a.copy_from_slice(&b[..8]);
            r[i].copy_from_slice(&b[8..]);
        }
    }
    if a != [0xa6u8; 8] {
        return None;
    }
    Some(r.concat())
}

pub fn cbc_encrypt(key: &[u8], iv: &[u8], data: &[u8]) -> Vec<u8> {
    let aes = Aes::new(key);
    let pad = 16 - data.len() % 16;
    let mut buf = data.to_vec();
    buf.extend(std::iter::repeat(pad as u8).take(pad));
    let mut prev: [u8; 16] = iv.try_into().unwrap();
    for c in buf.chunks_mut(16) {
        let mut b: [u8; 16] = (&*c).try_into().unwrap();
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        aes.encrypt(&mut b);
        c.copy_from_slice(&b);
        prev = b;
    }
    buf
}

pub fn cbc_decrypt(key: &[u8], iv: &[u8], data: &[u8]) -> Option<Vec<u8>> {
    if data.is_empty() || data.len() % 16 != 0 {
        return None;
    }
    let aes = Aes::new(key);
    let mut prev: [u8; 16] = iv.try_into().unwrap();
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let cc: [u8; 16] = c.try_into().unwrap();
        let mut b = cc;
        aes.decrypt(&mut b);
        for i in 0..16 {
            b[i] ^= prev[i];
        }
        out.extend_from_slice(&b);
        prev = cc;
    }
    let pad = *out.last().unwrap() as usize;
    if pad == 0 || pad > 16 || out[out.len() - pad..].iter().any(|x| *x as usize != pad) {
        return None;
    }
    out.truncate(out.len() - pad);
    Some(out)
}

fn ghash_mul(x: u128, h: u128) -> u128 {
    let mut z = 0u128;
    let mut v = h;
    for i in 0..128 {
        if (x >> (127 - i)) & 1 == 1 {
            z ^= v;
        }
        let lsb = v & 1;
        v >>= 1;
        if lsb == 1 {
            v ^= 0xe1u128 << 120;
        }
    }
    z
}

/// AES-GCM, 96-bit nonce. Returns (ciphertext, tag) for encryption direction data.
fn gcm_tag(aes: &Aes, nonce: &[u8], aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let mut hb = [0u8; 16];
    aes.encrypt(&mut hb);
    let h = u128::from_be_bytes(hb);
    // 4-bit table
    let mut y = 0u128;
    let tab: Vec<u128> = (0..16u128).map(|n| ghash_mul(n << 124, h)).collect();
    let red: Vec<u128> = (0..16u128)
        .map(|n| {
            // reduction of n shifted out of the low end by 4 bits
            let mut v = n;
            for _ in 0..4 {
                let lsb = v & 1;
                v >>= 1;
                if lsb == 1 {
                    v ^= 0xe1u128 << 120;
                }
            }
            v
        })
        .collect();
    let mul = |x: u128| {
        let mut z = 0u128;
        for i in 0..32 {
            let nib = ((x >> (4 * i)) & 15) as usize;
            if i > 0 {
                let low = (z & 15) as usize;
                z = (z >> 4) ^ red[low];
            }
            z ^= tab[nib];
        }
        z
    };
    for part in [aad, ct] {
        for c in part.chunks(16) {
            let mut b = [0u8; 16];
            b[..c.len()].copy_from_slice(c);
            y = mul(y ^ u128::from_be_bytes(b));
        }
    }
    let lens = ((aad.len() as u128 * 8) << 64) | (ct.len() as u128 * 8);
    y = mul(y ^ lens);
    let mut j0 = [0u8; 16];
    j0[..12].copy_from_slice(nonce);
    j0[15] = 1;
    aes.encrypt(&mut j0);
    let mut tag = y.to_be_bytes();
    for i in 0..16 {
        tag[i] ^= j0[i];
    }
    tag
}

fn gcm_ctr(aes: &Aes, nonce: &[u8], data: &mut [u8]) {
    let mut ctr = 2u32;
    for c in data.chunks_mut(16) {
        let mut b = [0u8; 16];
        b[..12].copy_from_slice(nonce);
        b[12..].copy_from_slice(&ctr.to_be_bytes());
        aes.encrypt(&mut b);
        for (x, y) in c.iter_mut().zip(b) {
            *x ^= y;
        }
        ctr = ctr.wrapping_add(1);
    }
}

pub fn gcm_seal(key: &[u8], nonce: &[u8], aad: &[u8], data: &mut [u8]) -> [u8; 16] {
    let aes = Aes::new(key);
    gcm_ctr(&aes, nonce, data);
    gcm_tag(&aes, nonce, aad, data)
}

pub fn gcm_open(key: &[u8], nonce: &[u8], aad: &[u8], data: &mut [u8], tag: &[u8]) -> bool {
    let aes = Aes::new(key);
    if gcm_tag(&aes, nonce, aad, data) != tag {
        return false;
    }
    gcm_ctr(&aes, nonce, data);
    true
}
