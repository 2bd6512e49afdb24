//! Short Weierstrass curves over 256-bit primes (P-256, secp256k1): Montgomery arithmetic, Jacobian points, ECDSA, ECDH.
use crate::prim_hash::{hmac256, sha256};
use std::sync::OnceLock;

pub type U = [u64; 4];

pub fn from_be(b: &[u8]) -> U {
    let mut r = [0u64; 4];
    for i in 0..4 {
        r[3 - i] = u64::from_be_bytes(b[8 * i..8 * i + 8].try_into().unwrap());
    }
    r
}
pub fn to_be(u: &U) -> [u8; 32] {
    let mut o = [0u8; 32];
    for i in 0..4 {
        o[8 * i..8 * i + 8].copy_from_slice(&u[3 - i].to_be_bytes());
    }
    o
}
fn hex(s: &str) -> U {
    let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    from_be(&b)
}
pub fn cmp(a: &U, b: &U) -> std::cmp::Ordering {
    for i in (0..4).rev() {
        if a[i] != b[i] {
            return a[i].cmp(&b[i]);
        }
    }
    std::cmp::Ordering::Equal
}
pub fn is_zero(a: &U) -> bool {
    a.iter().all(|x| *x == 0)
}
fn add_c(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
pub fn sub_b(a: &U, b: &U) -> (U, bool) {
    let mut r = [0u64; 4];
    let mut borrow = 0u64;
    for i in 0..4 {
        let (x, b1) = a[i].overflowing_sub(b[i]);
        let (y, b2) = x.overflowing_sub(borrow);
        r[i] = y;
        borrow = (b1 | b2) as u64;
    }
    (r, borrow != 0)
}

/// A prime field in Montgomery form.
pub struct Field {
    pub m: U,
    n0: u64,
    r2: U,
    one: U,
}
impl Field {
    fn new(m: U) -> Field {
        let mut inv = 1u64;
        for _ in 0..6 {
            inv = inv.wrapping_mul(2u64.wrapping_sub(m[0].wrapping_mul(inv)));
        }
        let mut f = Field { m, n0: inv.wrapping_neg(), r2: [0; 4], one: [0; 4] };
        // 2^256 mod m, then 2^512 mod m by doubling
        let mut x: U = [1, 0, 0, 0];
        for i in 0..512 {
            x = f.add(&x, &x);
            if i == 255 {
                f.one = x;
            }
        }
        f.r2 = x;
        f
    }
    pub fn add(&self, a: &U, b: &U) -> U {
        let (r, c) = add_c(a, b);
        let (s, bo) = sub_b(&r, &self.m);
        if c || !bo {
            s
        } else {
            r
        }
    }
    pub fn sub(&self, a: &U, b: &U) -> U {
        let (r, bo) = sub_b(a, b);
        if bo {
            add_c(&r, &self.m).0
        } else {
            r
        }
    }
    pub fn mul(&self, a: &U, b: &U) -> U {
        let mut t = [0u64; 6];
        for i in 0..4 {
            let mut c = 0u128;
            for j in 0..4 {
                c += t[j] as u128 + a[j] as u128 * b[i] as u128;
                t[j] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[4] = c as u64;
            t[5] = (c >> 64) as u64;
            let m = t[0].wrapping_mul(self.n0);
            let mut c = (t[0] as u128 + m as u128 * self.m[0] as u128) >> 64;
            for j in 1..4 {
                c += t[j] as u128 + m as u128 * self.m[j] as u128;
                t[j - 1] = c as u64;
                c >>= 64;
            }
            c += t[4] as u128;
            t[3] = c as u64;
            t[4] = t[5] + (c >> 64) as u64;
        }
        let r = [t[0], t[1], t[2], t[3]];
        let (s, bo) = sub_b(&r, &self.m);
        if t[4] != 0 || !bo {
            s
        } else {
            r
        }
    }
    pub fn enter(&self, a: &U) -> U {
        self.mul(a, &self.r2)
    }
    pub fn leave(&self, a: &U) -> U {
        self.mul(a, &[1, 0, 0, 0])
    }
    pub fn inv(&self, a: &U) -> U {
        let (e, _) = sub_b(&self.m, &[2, 0, 0, 0]);
        let mut r = self.one;
        for i in (0..256).rev() {
            r = self.mul(&r, &r);
            if (e[i / 64] >> (i % 64)) & 1 == 1 {
                r = self.mul(&r, a);
            }
        }
        r
    }
    /// Reduce an arbitrary 256-bit value (m > 2^255 for both curves).
    pub fn reduce(&self, a: &U) -> U {
        let (s, bo) = sub_b(a, &self.m);
        if bo {
            *a
        } else {
            s
        }
    }
}

pub struct Curve {
    pub fp: Field,
    pub fn_: Field,
    a: U,
    b: U,
    g: (U, U),
    low_s: bool,
    /// multiples of the base point: [i][j] = j * 16^i * G
    tab: OnceLock<Vec<[Jac; 16]>>,
}

#[derive(Clone, Copy)]
struct Jac {
    x: U,
    y: U,
    z: U,
}

/// Affine point in plain (non-Montgomery) coordinates.
pub type Aff = (U, U);

impl Curve {
    fn make(p: &str, n: &str, a: &str, b: &str, gx: &str, gy: &str, low_s: bool) -> Curve {
        let fp = Field::new(hex(p));
        let fn_ = Field::new(hex(n));
        let a = fp.enter(&hex(a));
        let b = fp.enter(&hex(b));
        Curve { a, b, g: (hex(gx), hex(gy)), fp, fn_, low_s, tab: OnceLock::new() }
    }
    pub fn p256() -> &'static Curve {
        static C: OnceLock<Curve> = OnceLock::new();
        C.get_or_init(|| {
            Curve::make(
                "ffffffff00000001000000000000000000000000ffffffffffffffffffffffff",
                "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551",
                "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
                "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b",
                "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
                "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5",
                false,
            )
        })
    }
    pub fn k256() -> &'static Curve {
        static C: OnceLock<Curve> = OnceLock::new();
        C.get_or_init(|| {
            Curve::make(
                "fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f",
                "fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141",
                "0000000000000000000000000000000000000000000000000000000000000000",
                "0000000000000000000000000000000000000000000000000000000000000007",
                "79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798",
                "483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8",
                true,
            )
        })
    }

    pub fn on_curve(&self, x: &U, y: &U) -> bool {
        let f = &self.fp;
        if cmp(x, &f.m).is_ge() || cmp(y, &f.m).is_ge() {
            return false;
        }
        let (x, y) = (f.enter(x), f.enter(y));
        let lhs = f.mul(&y, &y);
        let rhs = f.add(&f.mul(&f.add(&f.mul(&x, &x), &self.a), &x), &self.b);
        lhs == rhs
    }

    fn dbl(&self, p: &Jac) -> Jac {
        let f = &self.fp;
        if is_zero(&p.z) || is_zero(&p.y) {
            return Jac { x: f.one, y: f.one, z: [0; 4] };
        }
        let y2 = f.mul(&p.y, &p.y);
        let s = f.mul(&p.x, &y2);
        let s = f.add(&s, &s);
        let s = f.add(&s, &s);
        let x2 = f.mul(&p.x, &p.x);
        let z2 = f.mul(&p.z, &p.z);
        let m = f.add(&f.add(&x2, &f.add(&x2, &x2)), &f.mul(&self.a, &f.mul(&z2, &z2)));
        let x3 = f.sub(&f.mul(&m, &m), &f.add(&s, &s));
        let y4 = f.mul(&y2, &y2);
        let mut y8 = f.add(&y4, &y4);
        y8 = f.add(&y8, &y8);
        y8 = f.add(&y8, &y8);
        let y3 = f.sub(&f.mul(&m, &f.sub(&s, &x3)), &y8);
        let yz = f.mul(&p.y, &p.z);
        Jac { x: x3, y: y3, z: f.add(&yz, &yz) }
    }

    fn addj(&self, p: &Jac, q: &Jac) -> Jac {
        let f = &self.fp;
        if is_zero(&p.z) {
            return *q;
        }
        if is_zero(&q.z) {
            return *p;
        }
        let z1 = f.mul(&p.z, &p.z);
        let z2 = f.mul(&q.z, &q.z);
        let u1 = f.mul(&p.x, &z2);
        let u2 = f.mul(&q.x, &z1);
        let s1 = f.mul(&p.y, &f.mul(&z2, &q.z));
        let s2 = f.mul(&q.y, &f.mul(&z1, &p.z));
        if u1 == u2 {
            if s1 == s2 {
                return self.dbl(p);
            }
            return Jac { x: f.one, y: f.one, z: [0; 4] };
        }
        let h = f.sub(&u2, &u1);
        let r = f.sub(&s2, &s1);
        let h2 = f.mul(&h, &h);
        let h3 = f.mul(&h2, &h);
        let u1h2 = f.mul(&u1, &h2);
        let x3 = f.sub(&f.sub(&f.mul(&r, &r), &h3), &f.add(&u1h2, &u1h2));
        let y3 = f.sub(&f.mul(&r, &f.sub(&u1h2, &x3)), &f.mul(&s1, &h3));
        Jac { x: x3, y: y3, z: f.mul(&h, &f.mul(&p.z, &q.z)) }
    }

    fn to_jac(&self, p: &Aff) -> Jac {
        Jac { x: self.fp.enter(&p.0), y: self.fp.enter(&p.1), z: self.fp.one }
    }

    fn to_aff(&self, p: &Jac) -> Option<Aff> {
        if is_zero(&p.z) {
            return None;
        }
        let f = &self.fp;
        let zi = f.inv(&p.z);
        let zi2 = f.mul(&zi, &zi);
        Some((f.leave(&f.mul(&p.x, &zi2)), f.leave(&f.mul(&p.y, &f.mul(&zi2, &zi)))))
    }

    fn mulj(&self, k: &U, p: &Aff) -> Jac {
        let inf = Jac { x: self.fp.one, y: self.fp.one, z: [0; 4] };
        let mut tab = vec![inf, self.to_jac(p)];
        for i in 2..16 {
            let t = if i % 2 == 0 { self.dbl(&tab[i / 2]) } else { self.addj(&tab[i - 1], &tab[1]) };
            tab.push(t);
        }
        let mut r = inf;
        for i in (0..64).rev() {
            if i != 63 {
                for _ in 0..4 {
                    r = self.dbl(&r);
                }
            }
            let nib = ((k[i / 16] >> (4 * (i % 16))) & 15) as usize;
            if nib != 0 {
                r = self.addj(&r, &tab[nib]);
            }
        }
        r
    }
    pub fn mul(&self, k: &U, p: &Aff) -> Option<Aff> {
        self.to_aff(&self.mulj(k, p))
    }
    fn basej(&self, k: &U) -> Jac {
        let inf = Jac { x: self.fp.one, y: self.fp.one, z: [0; 4] };
        let tab = self.tab.get_or_init(|| {
            let mut g = self.to_jac(&self.g);
            (0..64)
                .map(|_| {
                    let mut row = [inf; 16];
                    for j in 1..16 {
                        row[j] = self.addj(&row[j - 1], &g);
                    }
                    g = self.addj(&row[15], &g);
                    row
                })
                .collect()
        });
        let mut r = inf;
        for (i, row) in tab.iter().enumerate() {
            let nib = ((k[i / 16] >> (4 * (i % 16))) & 15) as usize;
            if nib != 0 {
                r = self.addj(&r, &row[nib]);
            }
        }
        r
    }
    pub fn base(&self, k: &U) -> Option<Aff> {
        self.to_aff(&self.basej(k))
    }
    pub fn valid_scalar(&self, k: &U) -> bool {
        !is_zero(k) && cmp(k, &self.fn_.m).is_lt()
    }

    /// ECDSA over SHA-256 with RFC 6979 nonces.
    pub fn sign(&self, sk: &U, msg: &[u8]) -> [u8; 64] {
        let h = sha256(&[msg]);
        let f = &self.fn_;
        let z = f.reduce(&from_be(&h));
        let zb = to_be(&z);
        let skb = to_be(sk);
        let mut v = [1u8; 32];
        let mut k = [0u8; 32];
        k = hmac256(&k, &[&v, &[0], &skb, &zb]);
        v = hmac256(&k, &[&v]);
        k = hmac256(&k, &[&v, &[1], &skb, &zb]);
        v = hmac256(&k, &[&v]);
        loop {
            v = hmac256(&k, &[&v]);
            let kk = from_be(&v);
            if self.valid_scalar(&kk) {
                let (x, _) = self.base(&kk).unwrap();
                let r = f.reduce(&x);
                let ki = f.inv(&f.enter(&kk));
                let rd = f.mul(&f.enter(&r), &f.enter(sk));
                let s = f.leave(&f.mul(&ki, &f.add(&f.enter(&z), &rd)));
                if !is_zero(&r) && !is_zero(&s) {
                    let mut s = s;
                    let (neg, _) = sub_b(&f.m, &s);
                    if self.low_s && cmp(&s, &neg).is_gt() {
                        s = neg;
                    }
                    let mut o = [0u8; 64];
                    o[..32].copy_from_slice(&to_be(&r));
                    o[32..].copy_from_slice(&to_be(&s));
                    return o;
                }
            }
            k = hmac256(&k, &[&v, &[0]]);
            v = hmac256(&k, &[&v]);
        }
    }

    pub fn verify(&self, pk: &Aff, msg: &[u8], sig: &[u8]) -> bool {
        if sig.len() != 64 {
            return false;
        }
        let f = &self.fn_;
        let (r, s) = (from_be(&sig[..32]), from_be(&sig[32..]));
        if !self.valid_scalar(&r) || !self.valid_scalar(&s) {
            return false;
        }
        if self.low_s && cmp(&s, &sub_b(&f.m, &s).0).is_gt() {
            return false;
        }
        let z = f.reduce(&from_be(&sha256(&[msg])));
        let w = f.inv(&f.enter(&s));
        let u1 = f.leave(&f.mul(&f.enter(&z), &w));
        let u2 = f.leave(&f.mul(&f.enter(&r), &w));
        let p = self.addj(&self.basej(&u1), &self.mulj(&u2, pk));
        match self.to_aff(&p) {
            Some((x, _)) => f.reduce(&x) == r,
            None => false,
        }
    }
}
