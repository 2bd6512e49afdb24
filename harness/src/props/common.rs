//! The common "one sender, one recipient, one message" case and what it is expected to produce.
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use didcomm::error::Error;
use didcomm::{Message, PackEncryptedMetadata, UnpackMetadata, UnpackOptions};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// How a party is named in a call: by DID, or by the i-th key.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum By {
    Did,
    Kid,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PackCase {
    pub s: Party,
    pub r: Party,
    pub msg: Msg,
    /// indices of the keys used when naming by key
    pub si: u16,
    pub ri: u16,
    pub ai: u16,
    pub from: Option<By>,
    pub to: By,
    pub sign: Option<By>,
    pub opts: Opts,
    pub set_from: bool,
    pub set_to: Option<u8>, // None: absent; otherwise how much audience there is besides the recipient
    /// which of the recipient's keys the unpacker holds (bit mask; the addressed key is always held)
    pub held: u8,
    pub all_keys: bool,
    pub unwrap: bool,
    pub sec_order: Order,
}
pub fn by() -> impl Strategy<Value = By> {
    prop_oneof![Just(By::Did), Just(By::Kid)]
}
pub fn order() -> impl Strategy<Value = Order> {
    prop_oneof![3 => Just(Order::Asked), 1 => Just(Order::Reversed), 1 => Just(Order::Store)]
}
/// Two parties, or now and then one that writes to itself.
pub fn pack_case_any(msgs: fn() -> BoxedStrategy<Msg>) -> BoxedStrategy<PackCase> {
    pack_case_with(msgs, 0.03)
}
pub fn pack_case(msgs: fn() -> BoxedStrategy<Msg>) -> BoxedStrategy<PackCase> {
    pack_case_with(msgs, 0.0)
}
fn pack_case_with(msgs: fn() -> BoxedStrategy<Msg>, alone: f64) -> BoxedStrategy<PackCase> {
    (
        parties(2),
        msgs(),
        (idx(), idx(), idx()),
        (prop_oneof![1 => Just(None), 2 => by().prop_map(Some)], by(), prop_oneof![1 => Just(None), 1 => by().prop_map(Some)]),
        opts(),
        (any::<bool>(), prop_oneof![3 => Just(None), 3 => (0u8..6).prop_map(Some)], proptest::bool::weighted(alone)),
        (any::<u8>(), any::<bool>(), any::<bool>(), order()),
    )
        .prop_map(|(ps, msg, (si, ri, ai), (from, to, sign), opts, (set_from, set_to, alone), (held, all_keys, unwrap, sec_order))| {
            let (mut s, mut r) = (ps[0].clone(), ps[1].clone());
            if alone {
                // a message to oneself
                r = s.clone();
            }
            // the named sender key fits the named recipient key
            let (n, m) = (s.ka.len(), r.ka.len());
            let rk = &r.ka[ri as usize % m];
            let k = &mut s.ka[si as usize % n];
            k.kt = rk.kt;
            if k.kt == Kt::P256 {
                k.fmt = Fmt::Jwk;
                k.sfmt = Fmt::Jwk;
            }
            if alone {
                r = s.clone();
            }
            PackCase { s, r, msg, si, ri, ai, from, to, sign, opts, set_from, set_to, held, all_keys, unwrap, sec_order }
        })
        .boxed()
}

impl PackCase {
    pub fn skey(&self) -> &Key {
        pick(&self.s.ka, self.si)
    }
    pub fn rkey(&self) -> &Key {
        pick(&self.r.ka, self.ri)
    }
    pub fn akey(&self) -> &Key {
        pick(&self.s.auth, self.ai)
    }
    pub fn to_s(&self) -> String {
        match self.to {
            By::Did => self.r.did.clone(),
            By::Kid => self.r.kid(self.rkey()),
        }
    }
    pub fn from_s(&self) -> Option<String> {
        self.from.map(|b| match b {
            By::Did => self.s.did.clone(),
            By::Kid => self.s.kid(self.skey()),
        })
    }
    pub fn sign_s(&self) -> Option<String> {
        self.sign.map(|b| match b {
            By::Did => self.s.did.clone(),
            By::Kid => self.s.kid(self.akey()),
        })
    }
    pub fn header_from(&self) -> Option<&str> {
        self.set_from.then_some(self.s.did.as_str())
    }
    pub fn header_to(&self) -> Option<Vec<String>> {
        let (r, x) = (self.r.did.clone(), |i: u8| format!("did:example:someone{i}"));
        self.set_to.map(|k| match k {
            0 => vec![r],
            1 => vec![x(0), r],
            2 => vec![r, x(0)],
            3 => vec![r.clone(), x(1), r],
            4 => (0..9).map(|i| if i == 5 { r.clone() } else { x(i) }).collect(),
            _ => vec![self.s.did.clone(), r],
        })
    }
    pub fn message(&self) -> Message {
        self.msg.build(self.header_from(), self.header_to())
    }
    pub fn model(&self) -> serde_json::Value {
        self.msg.model(self.header_from(), self.header_to().as_deref(), None)
    }
    pub fn dids(&self) -> Dids<'static> {
        Dids::of(&[&self.s, &self.r])
    }
    pub fn pack(&self) -> Result<(String, PackEncryptedMetadata), Error> {
        let (d, s) = (self.dids(), Secs::of(&[&self.s]).order(self.sec_order));
        block_on(self.message().pack_encrypted(
            &self.to_s(),
            self.from_s().as_deref(),
            self.sign_s().as_deref(),
            &d,
            &s,
            &self.opts.build(),
        ))
    }
    pub fn packed(&self) -> Res<(String, PackEncryptedMetadata)> {
        match self.pack() {
            Ok(x) => Ok(x),
            Err(e) => fail("pack-fails", format!("packing a packable message failed: {e}")),
        }
    }
    /// The secrets the unpacker holds: by mask, always at least one that can decrypt.
    pub fn holder(&self, to_kids: &[String]) -> Secs<'static> {
        let mut v: Vec<_> =
            self.r.ka.iter().enumerate().filter(|(i, _)| self.held >> (i % 8) & 1 == 1).map(|(_, k)| self.r.secret(k)).collect();
        if !v.iter().any(|s| to_kids.contains(&s.id)) {
            let n = to_kids.len().max(1);
            if let Some(k) = to_kids.get(self.ri as usize % n) {
                if let Some(k) = self.r.ka.iter().find(|x| self.r.kid(x) == *k) {
                    v.push(self.r.secret(k));
                }
            }
        }
        Secs::new(v).order(self.sec_order)
    }
    pub fn unpack_opts(&self) -> UnpackOptions {
        UnpackOptions { expect_decrypt_by_all_keys: self.all_keys, unwrap_re_wrapping_forward: self.unwrap }
    }
    pub fn label(&self, o: &mut Obs) {
        o.label(format!(
            "{}{}{}",
            match self.from {
                None => "anon",
                Some(_) if self.opts.protect_sender => "auth+anon",
                _ => "auth",
            },
            if self.sign.is_some() { "+sign" } else { "" },
            if self.to == By::Kid { "/kid" } else { "" }
        ));
        o.label(format!("curve={}", self.rkey().kt.crv()));
        if self.from.is_none() || self.opts.protect_sender {
            o.label(format!("anon={}", self.opts.anon.name()));
        }
        if self.sign.is_some() {
            o.label(format!("sign={}", self.akey().kt.sign_alg()));
        }
        o.label(format!("rkeys={}", self.r.ka.len()));
    }
}
pub fn unpack(m: &str, d: &Dids, s: &Secs, o: &UnpackOptions) -> Result<(Message, UnpackMetadata), Error> {
    block_on(Message::unpack(m, d, s, o))
}
pub fn key_by_kid<'a>(ps: &'a [&'a Party], kid: &str) -> Option<(&'a Party, &'a Key)> {
    ps.iter().find_map(|p| p.all_keys().find(|k| p.kid(k) == kid).map(|k| (*p, k)))
}
pub fn val(s: &str) -> Res<serde_json::Value> {
    serde_json::from_str(s).map_err(|e| Fail { sig: "not-json".into(), msg: format!("{e}: {}", clip(s, 500)) })
}
pub fn empty_meta() -> UnpackMetadata {
    UnpackMetadata {
        encrypted: false,
        authenticated: false,
        non_repudiation: false,
        anonymous_sender: false,
        re_wrapped_in_forward: false,
        encrypted_from_kid: None,
        encrypted_to_kids: None,
        sign_from: None,
        from_prior_issuer_kid: None,
        enc_alg_auth: None,
        enc_alg_anon: None,
        sign_alg: None,
        signed_message: None,
        from_prior: None,
    }
}
pub fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}
pub fn msg_json(m: &Message) -> Res<serde_json::Value> {
    serde_json::to_value(m).map_err(|e| Fail { sig: "serialize".into(), msg: e.to_string() })
}
pub fn err_of<T>(r: Result<T, Error>) -> Option<didcomm::error::ErrorKind> {
    r.err().map(|e| e.kind())
}

/// A decrypted tower of envelopes, as the reference implementation sees it.
#[derive(Debug, Default)]
pub struct Tower {
    pub anon: Option<(rf::Enc, Kt, Vec<String>)>,
    pub auth: Option<(String, Kt, Vec<String>)>,
    pub sign: Option<(String, Kt, String)>,
    pub plain: String,
}
/// Reads a message the way any conforming recipient would, holding every secret of `ps`. Each recipient entry whose key is
/// known must decrypt to the same content.
pub fn read_tower(msg: &str, ps: &[&Party]) -> Result<Tower, String> {
    let mut t = Tower::default();
    let mut cur = msg.to_string();
    if cur_is(&cur, "ciphertext") {
        let j = rf::parse_jwe(&cur)?;
        if j.alg() == rf::ES {
            let (enc, kt) = j.check_header(None)?;
            cur = open_all(&j, kt, None, ps)?;
            t.anon = Some((enc, kt, j.kids().iter().map(|s| s.to_string()).collect()));
        }
    }
    if cur_is(&cur, "ciphertext") {
        let j = rf::parse_jwe(&cur)?;
        let skid = j.protected["skid"].as_str().ok_or("no skid")?.to_string();
        let (_, kt) = j.check_header(Some(&skid))?;
        let (sp, sk) = key_by_kid(ps, &skid).ok_or(format!("unknown skid {skid}"))?;
        if !sp.ka.contains(sk) || sk.kt != kt {
            return Err(format!("{skid} is not a key agreement key of the epk's kind"));
        }
        cur = open_all(&j, kt, Some(&sp.pk(sk)), ps)?;
        t.auth = Some((skid, kt, j.kids().iter().map(|s| s.to_string()).collect()));
    }
    if cur_is(&cur, "signatures") {
        let g = rf::parse_jws(&cur)?;
        let (sp, sk) = key_by_kid(ps, &g.kid).ok_or(format!("unknown signer {}", g.kid))?;
        if !sp.auth.contains(sk) {
            return Err(format!("{} is not an authentication key", g.kid));
        }
        if g.protected != serde_json::json!({"typ": rf::TYP_SIG, "alg": sk.kt.sign_alg()}) {
            return Err(format!("JWS protected header is {}", g.protected));
        }
        if !g.verify(sk.kt, &sp.pk(sk)) {
            return Err("signature does not verify".into());
        }
        t.sign = Some((g.kid.clone(), sk.kt, cur.clone()));
        cur = String::from_utf8(g.payload).map_err(|e| e.to_string())?;
    }
    t.plain = cur;
    Ok(t)
}
fn cur_is(s: &str, member: &str) -> bool {
    serde_json::from_str::<serde_json::Value>(s).map_or(false, |v| v.get(member).is_some() && v.get("id").is_none())
}
pub fn open_all(j: &rf::Jwe, kt: Kt, sender: Option<&[u8]>, ps: &[&Party]) -> Result<String, String> {
    let mut out: Option<Vec<u8>> = None;
    for (i, (kid, _)) in j.recipients.iter().enumerate() {
        let (p, k) = key_by_kid(ps, kid).ok_or(format!("unknown recipient {kid}"))?;
        if !p.ka.contains(k) || k.kt != kt {
            return Err(format!("recipient {kid} is not a key agreement key of kind {}", kt.crv()));
        }
        let pt = j.open(i, kt, &p.sk(k), sender).map_err(|e| format!("recipient {kid}: {e}"))?;
        if out.as_ref().map_or(false, |o| *o != pt) {
            return Err("recipients decrypt to different contents".into());
        }
        out = Some(pt);
    }
    String::from_utf8(out.ok_or("no recipients")?).map_err(|e| e.to_string())
}
