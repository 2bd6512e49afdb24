//! Independent reading and writing of DIDComm v2 envelopes (JWE with ECDH-ES / ECDH-1PU, JWS, compact JWT), straight from
//! RFC 7515/7516/7518, draft-madden-jose-ecdh-1pu-04 and the DIDComm Messaging 2.0 text, on raw primitives.
use crate::world::Kt;
use askar_crypto::{prim_aes, prim_chacha, prim_ec as ec, prim_ed, prim_hash};
use serde_json::{json, Map, Value};

pub fn b64(b: &[u8]) -> String {
    base64::encode_config(b, base64::URL_SAFE_NO_PAD)
}
/// Strict: no padding, no non-zero trailing bits.
pub fn unb64(s: &str) -> Option<Vec<u8>> {
    if s.contains('=') {
        return None;
    }
    base64::decode_config(s, base64::URL_SAFE_NO_PAD).ok()
}

fn curve(kt: Kt) -> &'static ec::Curve {
    match kt {
        Kt::P256 => ec::Curve::p256(),
        _ => ec::Curve::k256(),
    }
}
/// Raw public key: 32 bytes, or x || y.
pub fn public(kt: Kt, sk: &[u8; 32]) -> Vec<u8> {
    match kt {
        Kt::X25519 => prim_ed::x25519_base(sk).to_vec(),
        Kt::Ed25519 => prim_ed::ed_public(sk).to_vec(),
        _ => {
            let (x, y) = curve(kt).base(&ec::from_be(sk)).expect("scalar");
            [ec::to_be(&x), ec::to_be(&y)].concat()
        }
    }
}
pub fn pub_jwk(kt: Kt, pk: &[u8]) -> Value {
    match kt {
        Kt::X25519 | Kt::Ed25519 => json!({"kty": "OKP", "crv": kt.crv(), "x": b64(pk)}),
        _ => json!({"kty": "EC", "crv": kt.crv(), "x": b64(&pk[..32]), "y": b64(&pk[32..])}),
    }
}
/// Reads a public JWK strictly (kty, crv, coordinate sizes, point on the curve).
pub fn read_jwk(j: &Value) -> Option<(Kt, Vec<u8>)> {
    let kt = match (j["kty"].as_str()?, j["crv"].as_str()?) {
        ("OKP", "X25519") => Kt::X25519,
        ("OKP", "Ed25519") => Kt::Ed25519,
        ("EC", "P-256") => Kt::P256,
        ("EC", "secp256k1") => Kt::K256,
        _ => return None,
    };
    let mut v = unb64(j["x"].as_str()?)?;
    if v.len() != 32 {
        return None;
    }
    if matches!(kt, Kt::P256 | Kt::K256) {
        let y = unb64(j["y"].as_str()?)?;
        if y.len() != 32 || !curve(kt).on_curve(&ec::from_be(&v), &ec::from_be(&y)) {
            return None;
        }
        v.extend(y);
    }
    Some((kt, v))
}
pub fn dh(kt: Kt, sk: &[u8; 32], pk: &[u8]) -> Option<[u8; 32]> {
    match kt {
        Kt::X25519 => Some(prim_ed::x25519(sk, pk.try_into().ok()?)),
        Kt::P256 => {
            let p = (ec::from_be(&pk[..32]), ec::from_be(&pk[32..]));
            Some(ec::to_be(&curve(kt).mul(&ec::from_be(sk), &p)?.0))
        }
        _ => None,
    }
}
pub fn sign_raw(kt: Kt, sk: &[u8; 32], msg: &[u8]) -> Vec<u8> {
    match kt {
        Kt::Ed25519 => prim_ed::ed_sign(sk, &prim_ed::ed_public(sk), msg).to_vec(),
        _ => curve(kt).sign(&ec::from_be(sk), msg).to_vec(),
    }
}
pub fn verify_raw(kt: Kt, pk: &[u8], msg: &[u8], sig: &[u8]) -> bool {
    match kt {
        Kt::Ed25519 => pk.len() == 32 && prim_ed::ed_verify(pk.try_into().unwrap(), msg, sig),
        Kt::P256 | Kt::K256 => curve(kt).verify(&(ec::from_be(&pk[..32]), ec::from_be(&pk[32..])), msg, sig),
        Kt::X25519 => false,
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub enum Enc {
    Cbc,
    Xc20p,
    Gcm,
}
impl Enc {
    pub fn name(self) -> &'static str {
        match self {
            Enc::Cbc => "A256CBC-HS512",
            Enc::Xc20p => "XC20P",
            Enc::Gcm => "A256GCM",
        }
    }
    pub fn parse(s: &str) -> Option<Enc> {
        [Enc::Cbc, Enc::Xc20p, Enc::Gcm].into_iter().find(|e| e.name() == s)
    }
    pub fn key_len(self) -> usize {
        if self == Enc::Cbc {
            64
        } else {
            32
        }
    }
    pub fn iv_len(self) -> usize {
        match self {
            Enc::Cbc => 16,
            Enc::Xc20p => 24,
            Enc::Gcm => 12,
        }
    }
    pub fn tag_len(self) -> usize {
        if self == Enc::Cbc {
            32
        } else {
            16
        }
    }
    fn cbc_tag(key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8]) -> Vec<u8> {
        let al = (aad.len() as u64 * 8).to_be_bytes();
        prim_hash::hmac512(&key[..32], &[aad, iv, ct, &al])[..32].to_vec()
    }
    pub fn seal(self, key: &[u8], iv: &[u8], aad: &[u8], pt: &[u8]) -> (Vec<u8>, Vec<u8>) {
        match self {
            Enc::Cbc => {
                let ct = prim_aes::cbc_encrypt(&key[32..], iv, pt);
                let t = Self::cbc_tag(key, iv, aad, &ct);
                (ct, t)
            }
            Enc::Xc20p => {
                let mut d = pt.to_vec();
                let t = prim_chacha::xc20p_seal(key, iv, aad, &mut d);
                (d, t.to_vec())
            }
            Enc::Gcm => {
                let mut d = pt.to_vec();
                let t = prim_aes::gcm_seal(key, iv, aad, &mut d);
                (d, t.to_vec())
            }
        }
    }
    pub fn open(self, key: &[u8], iv: &[u8], aad: &[u8], ct: &[u8], tag: &[u8]) -> Option<Vec<u8>> {
        if key.len() != self.key_len() || iv.len() != self.iv_len() || tag.len() != self.tag_len() {
            return None;
        }
        match self {
            Enc::Cbc => {
                if Self::cbc_tag(key, iv, aad, ct) != tag {
                    return None;
                }
                prim_aes::cbc_decrypt(&key[32..], iv, ct)
            }
            Enc::Xc20p => {
                let mut d = ct.to_vec();
                prim_chacha::xc20p_open(key, iv, aad, &mut d, tag).then_some(d)
            }
            Enc::Gcm => {
                let mut d = ct.to_vec();
                prim_aes::gcm_open(key, iv, aad, &mut d, tag).then_some(d)
            }
        }
    }
}

fn lp(b: &[u8]) -> Vec<u8> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend_from_slice(b);
    v
}
/// Concat KDF, one round of SHA-256, 256-bit output.
fn kdf(z: &[u8], alg: &str, apu: &[u8], apv: &[u8], tag: Option<&[u8]>) -> [u8; 32] {
    let mut m = vec![0, 0, 0, 1];
    m.extend_from_slice(z);
    m.extend(lp(alg.as_bytes()));
    m.extend(lp(apu));
    m.extend(lp(apv));
    m.extend_from_slice(&256u32.to_be_bytes());
    if let Some(t) = tag {
        m.extend(lp(t));
    }
    prim_hash::sha256(&[&m])
}

pub const ES: &str = "ECDH-ES+A256KW";
pub const PU: &str = "ECDH-1PU+A256KW";
pub const TYP_ENC: &str = "application/didcomm-encrypted+json";
pub const TYP_SIG: &str = "application/didcomm-signed+json";
pub const TYP_PLAIN: &str = "application/didcomm-plain+json";

pub fn apv_of(kids: &[&str]) -> [u8; 32] {
    let mut k: Vec<&str> = kids.to_vec();
    k.sort_unstable_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
    prim_hash::sha256(&[k.join(".").as_bytes()])
}

#[derive(Clone, Debug)]
pub struct Jwe {
    pub protected_raw: String,
    pub protected: Value,
    /// (kid, encrypted key)
    pub recipients: Vec<(String, Vec<u8>)>,
    pub iv: Vec<u8>,
    pub ct: Vec<u8>,
    pub tag: Vec<u8>,
}

fn keys_of(v: &Value) -> Vec<&str> {
    let mut k: Vec<&str> = v.as_object().map(|o| o.keys().map(|s| s.as_str()).collect()).unwrap_or_default();
    k.sort();
    k
}

/// Strict parse of a JWE in general JSON serialization, as DIDComm produces it.
pub fn parse_jwe(s: &str) -> Result<Jwe, String> {
    let v: Value = serde_json::from_str(s).map_err(|e| format!("not JSON: {e}"))?;
    if keys_of(&v) != ["ciphertext", "iv", "protected", "recipients", "tag"] {
        return Err(format!("JWE members are {:?}", keys_of(&v)));
    }
    let st = |k: &str| v[k].as_str().map(|s| s.to_string()).ok_or(format!("{k} is not a string"));
    let by = |k: &str| unb64(&st(k)?).ok_or(format!("{k} is not unpadded base64url"));
    let protected_raw = st("protected")?;
    let protected: Value =
        serde_json::from_slice(&by("protected")?).map_err(|e| format!("protected header not JSON: {e}"))?;
    let mut recipients = vec![];
    for r in v["recipients"].as_array().ok_or("recipients is not an array")? {
        if keys_of(r) != ["encrypted_key", "header"] || keys_of(&r["header"]) != ["kid"] {
            return Err(format!("recipient members are {r}"));
        }
        let kid = r["header"]["kid"].as_str().ok_or("kid is not a string")?.to_string();
        let ek = unb64(r["encrypted_key"].as_str().ok_or("encrypted_key")?).ok_or("encrypted_key is not base64url")?;
        recipients.push((kid, ek));
    }
    Ok(Jwe { protected_raw, protected, recipients, iv: by("iv")?, ct: by("ciphertext")?, tag: by("tag")? })
}

impl Jwe {
    pub fn alg(&self) -> &str {
        self.protected["alg"].as_str().unwrap_or("")
    }
    pub fn kids(&self) -> Vec<&str> {
        self.recipients.iter().map(|r| r.0.as_str()).collect()
    }
    /// Everything DIDComm v2 fixes about the envelope around the ciphertext.
    pub fn check_header(&self, skid: Option<&str>) -> Result<(Enc, Kt), String> {
        let p = &self.protected;
        if p["typ"] != TYP_ENC {
            return Err(format!("typ is {}", p["typ"]));
        }
        let enc = p["enc"].as_str().and_then(Enc::parse).ok_or(format!("enc is {}", p["enc"]))?;
        let (kt, _) = read_jwk(&p["epk"]).ok_or(format!("epk is not a valid public key: {}", p["epk"]))?;
        if p["epk"].get("d").is_some() {
            return Err("epk discloses its private part".into());
        }
        if p["apv"] != Value::String(b64(&apv_of(&self.kids()))) {
            return Err(format!("apv is {} for recipients {:?}", p["apv"], self.kids()));
        }
        let want: Vec<&str> = match skid {
            Some(k) => {
                if self.alg() != PU {
                    return Err(format!("alg is {}", self.alg()));
                }
                if enc != Enc::Cbc {
                    return Err("authcrypt must use A256CBC-HS512".into());
                }
                if p["skid"] != k {
                    return Err(format!("skid is {}, sender key is {k}", p["skid"]));
                }
                if p["apu"] != Value::String(b64(k.as_bytes())) {
                    return Err(format!("apu is {} for skid {k}", p["apu"]));
                }
                vec!["alg", "apu", "apv", "enc", "epk", "skid", "typ"]
            }
            None => {
                if self.alg() != ES {
                    return Err(format!("alg is {}", self.alg()));
                }
                vec!["alg", "apv", "enc", "epk", "typ"]
            }
        };
        if keys_of(p) != want {
            return Err(format!("protected header members are {:?}", keys_of(p)));
        }
        if self.iv.len() != enc.iv_len() || self.tag.len() != enc.tag_len() {
            return Err("iv or tag has the wrong size".into());
        }
        Ok((enc, kt))
    }
    /// The content encryption key, as recipient `i` obtains it.
    pub fn cek(&self, i: usize, kt: Kt, sk: &[u8; 32], sender: Option<&[u8]>) -> Result<Vec<u8>, String> {
        let p = &self.protected;
        let (ekt, epk) = read_jwk(&p["epk"]).ok_or("epk")?;
        if ekt != kt {
            return Err("epk is on another curve than the recipient's key".into());
        }
        let apv = unb64(p["apv"].as_str().ok_or("apv")?).ok_or("apv")?;
        let apu = match p["apu"].as_str() {
            Some(a) => unb64(a).ok_or("apu")?,
            None => vec![],
        };
        let mut z = dh(kt, sk, &epk).ok_or("dh")?.to_vec();
        let kek = match sender {
            Some(pk) => {
                z.extend(dh(kt, sk, pk).ok_or("dh")?);
                kdf(&z, PU, &apu, &apv, Some(&self.tag))
            }
            None => kdf(&z, ES, &apu, &apv, None),
        };
        prim_aes::kw_unwrap(&kek, &self.recipients[i].1).ok_or("key unwrap fails".into())
    }
    /// Decrypts for recipient `i` with its private key (and the sender's public key for ECDH-1PU).
    pub fn open(&self, i: usize, kt: Kt, sk: &[u8; 32], sender: Option<&[u8]>) -> Result<Vec<u8>, String> {
        let enc = self.protected["enc"].as_str().and_then(Enc::parse).ok_or("enc")?;
        let cek = self.cek(i, kt, sk, sender)?;
        enc.open(&cek, &self.iv, self.protected_raw.as_bytes(), &self.ct, &self.tag)
            .ok_or("content decryption fails".into())
    }
}

/// Deterministic bytes for the reference sender.
pub fn det(seed: u64, label: &str, n: usize) -> Vec<u8> {
    let mut v = vec![];
    let mut c = 0u32;
    while v.len() < n {
        v.extend(prim_hash::sha256(&[&seed.to_le_bytes(), label.as_bytes(), &c.to_le_bytes()]));
        c += 1;
    }
    v.truncate(n);
    v
}
pub fn det_sk(seed: u64, label: &str) -> [u8; 32] {
    let mut s: [u8; 32] = det(seed, label, 32).try_into().unwrap();
    s[0] &= 0x7f;
    s[31] |= 1;
    s
}

/// How a conforming sender may lay an envelope out.
#[derive(Clone, Debug, Default, serde::Serialize, serde::Deserialize)]
pub struct Layout {
    pub rotate: u8,
    pub pretty: bool,
    pub extra: bool,
    pub omit_typ: bool,
    pub omit_skid: bool,
    pub short_typ: bool,
}

/// Serializes an object with its members in an order of our choosing (serde_json's own map is sorted).
pub fn ser(members: &[(&str, String)], l: &Layout, top: bool) -> String {
    let mut m: Vec<(String, String)> = members.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    if l.extra {
        m.insert(m.len() / 2, (if top { "x-unknown" } else { "crit2" }.to_string(), r#"{"a":[1,null,"q"]}"#.to_string()));
    }
    let n = m.len();
    if n > 0 {
        m.rotate_left(l.rotate as usize % n);
        if l.rotate & 1 == 1 {
            m.reverse();
        }
    }
    let (nl, sp) = if l.pretty { ("\n  ", " ") } else { ("", "") };
    let body: Vec<String> = m.iter().map(|(k, v)| format!("{nl}{}:{sp}{v}", Value::String(k.clone()))).collect();
    let s = format!("{{{}{}}}", body.join(","), if l.pretty { "\n" } else { "" });
    WRITER.with(|w| match &*w.borrow() {
        Some(f) => f(s),
        None => s,
    })
}
thread_local! {
    static WRITER: std::cell::RefCell<Option<Box<dyn Fn(String) -> String>>> = const { std::cell::RefCell::new(None) };
}
/// Passes every object serialized during `g` through `f`.
pub fn with_writer<T>(f: Box<dyn Fn(String) -> String>, g: impl FnOnce() -> T) -> T {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            WRITER.with(|w| *w.borrow_mut() = None);
        }
    }
    let _r = Reset;
    WRITER.with(|w| *w.borrow_mut() = Some(f));
    g()
}
fn q(s: &str) -> String {
    Value::String(s.to_string()).to_string()
}

pub struct Rcpt {
    pub kid: String,
    pub pk: Vec<u8>,
}
/// Overrides for building envelopes that differ from a conforming one in stated ways.
#[derive(Clone, Debug, Default)]
pub struct Tweak {
    pub apv: Option<String>,
    pub apu: Option<Option<String>>,
    pub skid: Option<Option<String>>,
    pub alg: Option<String>,
    pub enc: Option<String>,
    pub epk: Option<Value>,
    pub typ: Option<Value>,
    pub drop: Vec<String>,
}

pub fn seal_jwe(
    pt: &[u8],
    enc: Enc,
    kt: Kt,
    rcpts: &[Rcpt],
    sender: Option<(&str, &[u8; 32])>,
    seed: u64,
    l: &Layout,
    t: &Tweak,
) -> String {
    let esk = det_sk(seed, "epk");
    let epk = public(kt, &esk);
    let kids: Vec<&str> = rcpts.iter().map(|r| r.kid.as_str()).collect();
    let alg = if sender.is_some() { PU } else { ES };
    let apv_s = t.apv.clone().unwrap_or_else(|| b64(&apv_of(&kids)));
    let apu_s = t.apu.clone().unwrap_or_else(|| sender.map(|s| b64(s.0.as_bytes())));
    let skid_s = t.skid.clone().unwrap_or_else(|| if l.omit_skid { None } else { sender.map(|s| s.0.to_string()) });
    let typ = t.typ.clone().unwrap_or_else(|| json!(if l.short_typ { "didcomm-encrypted+json" } else { TYP_ENC }));
    let mut h: Vec<(&str, String)> = vec![];
    if !l.omit_typ {
        h.push(("typ", typ.to_string()));
    }
    h.push(("alg", q(t.alg.as_deref().unwrap_or(alg))));
    h.push(("enc", q(t.enc.as_deref().unwrap_or(enc.name()))));
    if let Some(s) = &skid_s {
        h.push(("skid", q(s)));
    }
    if let Some(s) = &apu_s {
        h.push(("apu", q(s)));
    }
    h.push(("apv", q(&apv_s)));
    h.push(("epk", t.epk.clone().unwrap_or_else(|| pub_jwk(kt, &epk)).to_string()));
    h.retain(|(k, _)| !t.drop.iter().any(|d| d == k));
    let protected = b64(ser(&h, l, false).as_bytes());
    let cek = det(seed, "cek", enc.key_len());
    let iv = det(seed, "iv", enc.iv_len());
    let (ct, tag) = enc.seal(&cek, &iv, protected.as_bytes(), pt);
    let apv = unb64(&apv_s).unwrap_or_default();
    let apu = apu_s.and_then(|a| unb64(&a)).unwrap_or_default();
    let mut rs = vec![];
    for r in rcpts {
        let mut z = dh(kt, &esk, &r.pk).expect("dh").to_vec();
        let kek = match sender {
            Some((_, ssk)) => {
                z.extend(dh(kt, ssk, &r.pk).expect("dh"));
                kdf(&z, PU, &apu, &apv, Some(&tag))
            }
            None => kdf(&z, ES, &apu, &apv, None),
        };
        let ek = b64(&prim_aes::kw_wrap(&kek, &cek).expect("wrap"));
        let hdr = ser(&[("kid", q(&r.kid))], l, false);
        rs.push(ser(&[("header", hdr), ("encrypted_key", q(&ek))], l, false));
    }
    let m = [
        ("protected", q(&protected)),
        ("recipients", format!("[{}]", rs.join(","))),
        ("iv", q(&b64(&iv))),
        ("ciphertext", q(&b64(&ct))),
        ("tag", q(&b64(&tag))),
    ];
    let m: Vec<(&str, String)> = m.into_iter().filter(|(k, _)| !t.drop.iter().any(|d| d == k)).collect();
    ser(&m, l, true)
}

#[derive(Clone, Debug)]
pub struct Jws {
    pub protected_raw: String,
    pub protected: Value,
    pub kid: String,
    pub payload_raw: String,
    pub payload: Vec<u8>,
    pub sig: Vec<u8>,
}
/// Strict parse of a JWS in general JSON serialization with one signature, as DIDComm produces it.
pub fn parse_jws(s: &str) -> Result<Jws, String> {
    let v: Value = serde_json::from_str(s).map_err(|e| format!("not JSON: {e}"))?;
    if keys_of(&v) != ["payload", "signatures"] {
        return Err(format!("JWS members are {:?}", keys_of(&v)));
    }
    let a = v["signatures"].as_array().ok_or("signatures is not an array")?;
    if a.len() != 1 {
        return Err(format!("{} signatures", a.len()));
    }
    let g = &a[0];
    if keys_of(g) != ["header", "protected", "signature"] || keys_of(&g["header"]) != ["kid"] {
        return Err(format!("signature members: {g}"));
    }
    let protected_raw = g["protected"].as_str().ok_or("protected")?.to_string();
    let payload_raw = v["payload"].as_str().ok_or("payload")?.to_string();
    Ok(Jws {
        protected: serde_json::from_slice(&unb64(&protected_raw).ok_or("protected is not base64url")?)
            .map_err(|e| format!("protected header not JSON: {e}"))?,
        protected_raw,
        kid: g["header"]["kid"].as_str().ok_or("kid")?.to_string(),
        payload: unb64(&payload_raw).ok_or("payload is not base64url")?,
        payload_raw,
        sig: unb64(g["signature"].as_str().ok_or("signature")?).ok_or("signature is not base64url")?,
    })
}
impl Jws {
    pub fn verify(&self, kt: Kt, pk: &[u8]) -> bool {
        verify_raw(kt, pk, format!("{}.{}", self.protected_raw, self.payload_raw).as_bytes(), &self.sig)
    }
}
pub fn seal_jws(payload: &[u8], kid: &str, kt: Kt, sk: &[u8; 32], alg: Option<&str>, l: &Layout) -> String {
    let mut h = vec![];
    h.push(("typ", q(if l.short_typ { "didcomm-signed+json" } else { TYP_SIG })));
    h.push(("alg", q(alg.unwrap_or(kt.sign_alg()))));
    let protected = b64(ser(&h, l, false).as_bytes());
    let payload = b64(payload);
    let sig = b64(&sign_raw(kt, sk, format!("{protected}.{payload}").as_bytes()));
    let hdr = ser(&[("kid", q(kid))], l, false);
    let g = ser(&[("header", hdr), ("protected", q(&protected)), ("signature", q(&sig))], l, false);
    ser(&[("payload", q(&payload)), ("signatures", format!("[{g}]"))], l, true)
}

pub fn seal_jwt(claims: &str, header: &Map<String, Value>, kt: Kt, sk: &[u8; 32]) -> String {
    let h = b64(Value::Object(header.clone()).to_string().as_bytes());
    let p = b64(claims.as_bytes());
    let s = b64(&sign_raw(kt, sk, format!("{h}.{p}").as_bytes()));
    format!("{h}.{p}.{s}")
}
pub fn jwt_header(kid: &str, kt: Kt) -> Map<String, Value> {
    json!({"typ": "JWT", "alg": kt.sign_alg(), "kid": kid}).as_object().unwrap().clone()
}
/// (header, claims, signature valid under the given key)
pub fn open_jwt(jwt: &str, kt: Kt, pk: &[u8]) -> Result<(Value, Value, bool), String> {
    let s: Vec<&str> = jwt.split('.').collect();
    if s.len() != 3 {
        return Err("not three segments".into());
    }
    let h = serde_json::from_slice(&unb64(s[0]).ok_or("header b64")?).map_err(|e| e.to_string())?;
    let c = serde_json::from_slice(&unb64(s[1]).ok_or("claims b64")?).map_err(|e| e.to_string())?;
    let sig = unb64(s[2]).ok_or("sig b64")?;
    Ok((h, c, verify_raw(kt, pk, format!("{}.{}", s[0], s[1]).as_bytes(), &sig)))
}
