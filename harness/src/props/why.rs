//! C36: a message that cannot be read is refused for the reason it cannot be read.
use super::common::*;
use super::prior::{claims, Claims};
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::did::{DIDDoc, VerificationMaterial, VerificationMethod, VerificationMethodType};
use didcomm::error::ErrorKind::{self, *};
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use didcomm::FromPrior;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C36",
        "A genuine message (plain, signed or encrypted in any mode, with or without a rotation token, by the library or the reference implementation) and one thing wrong in the recipient's world: a DID nobody knows, a key not listed for its purpose or not described, described as something unknown, as another key or as damaged material, missing, unusable, damaged or wrong secrets, an algorithm the library does not have. Read before and after; the refusal compared with a model. Non-trivial: the fault concerns a key the message needs; the others are controls, which must still be read.",
        vec![part!("why", 90000, 1200000, |_| why_case(), check_why)],
    )]
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Who {
    Author,
    Signer,
    Issuer,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Wrong {
    /// the DID is not known, but one much like it may be
    NoDid(Who, Option<(u8, u16)>),
    /// the key is not listed for its purpose; listed for the other, perhaps, and one much like it, perhaps
    NotListed(Who, bool, Option<(u8, u16)>),
    /// the key is listed but not described; one much like it, perhaps
    NoMethod(Who, Option<(u8, u16)>),
    /// described with a type the library does not know, or a curve it does not know, or as two things at once
    Unknown(Who, u8),
    /// described as another key of the same kind
    OtherKey(Who, u16),
    /// described as a key of another kind
    OtherKind(Who, u16),
    /// described with damaged material
    Damaged(Who, u8),
    NoSecrets,
    /// all secrets held for the message are of another kind than the library knows
    UnknownSecret(u8),
    OtherSecret(u16),
    OtherKindSecret(u16),
    DamagedSecret(u8),
    /// the signature (or the token's) is said to be of another algorithm
    Alg(bool, String),
    /// an authenticated envelope with a content encryption that is only for anonymous ones
    AuthEnc(rf::Enc),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WhyCase {
    p: PackCase,
    prior: Party,
    ti: u16,
    /// whether there is a rotation token, and its claims
    token: Option<Claims>,
    /// 0 plain, 1 signed, 2 encrypted
    form: u8,
    /// by the reference implementation
    own: bool,
    w: Wrong,
}
fn why_case() -> BoxedStrategy<WhyCase> {
    let who = || select(vec![Who::Author, Who::Author, Who::Signer, Who::Signer, Who::Issuer]);
    let like = || proptest::option::weighted(0.5, any::<(u8, u16)>());
    let alg = prop_oneof![
        2 => select(vec!["none", "ES384", "ES512", "PS256", "RS256", "HS256", "Ed448", "", "EdDSA2", "eddsa", "ES-256", "ES256k", "ES256K-R"]).prop_map(String::from),
        1 => (select(vec!["EdDSA", "ES256", "ES256K"]), any::<u8>(), any::<u16>()).prop_map(|(s, h, a)| near(s, h, a)),
    ];
    let w = prop_oneof![
        (who(), like()).prop_map(|(w, l)| Wrong::NoDid(w, l)),
        (who(), any::<bool>(), like()).prop_map(|(w, b, l)| Wrong::NotListed(w, b, l)),
        (who(), like()).prop_map(|(w, l)| Wrong::NoMethod(w, l)),
        (who(), 0u8..4).prop_map(|(w, h)| Wrong::Unknown(w, h)),
        (who(), any::<u16>()).prop_map(|(w, h)| Wrong::OtherKey(w, h)),
        (who(), any::<u16>()).prop_map(|(w, h)| Wrong::OtherKind(w, h)),
        (who(), 0u8..6).prop_map(|(w, h)| Wrong::Damaged(w, h)),
        Just(Wrong::NoSecrets),
        (0u8..4).prop_map(Wrong::UnknownSecret),
        any::<u16>().prop_map(Wrong::OtherSecret),
        any::<u16>().prop_map(Wrong::OtherKindSecret),
        (0u8..6).prop_map(Wrong::DamagedSecret),
        (any::<bool>(), alg).prop_map(|(b, a)| Wrong::Alg(b, a)),
        select(vec![rf::Enc::Gcm, rf::Enc::Xc20p]).prop_map(Wrong::AuthEnc),
    ];
    (
        pack_case(small_message),
        party("did:example:old-name".into()),
        idx(),
        proptest::option::weighted(0.4, claims()),
        prop_oneof![1 => Just(0u8), 2 => Just(1u8), 4 => Just(2u8)],
        any::<bool>(),
        w,
    )
        .prop_map(|(mut p, prior, ti, mut token, mut form, mut own, w)| {
            p.set_from = true;
            // give the fault something to hit, mostly
            let hit = p.ri % 8 != 0;
            match &w {
                Wrong::NoDid(x, _) | Wrong::NotListed(x, ..) | Wrong::NoMethod(x, _) | Wrong::Unknown(x, _) | Wrong::OtherKey(x, _) | Wrong::OtherKind(x, _) | Wrong::Damaged(x, _) if hit => match x {
                    Who::Author => {
                        form = 2;
                        p.from = p.from.or(Some(By::Did));
                    }
                    Who::Signer => {
                        form = form.max(1);
                        p.sign = p.sign.or(Some(By::Did));
                    }
                    Who::Issuer => token = token.or(Some(Claims::default())),
                },
                Wrong::NoSecrets | Wrong::UnknownSecret(_) | Wrong::OtherSecret(_) | Wrong::OtherKindSecret(_) | Wrong::DamagedSecret(_) if hit => form = 2,
                Wrong::Alg(tok, _) => {
                    own = true;
                    if *tok {
                        token = token.or(Some(Claims::default()));
                    } else {
                        form = form.max(1);
                        p.sign = p.sign.or(Some(By::Did));
                    }
                }
                Wrong::AuthEnc(_) => {
                    own = true;
                    form = 2;
                    p.from = p.from.or(Some(By::Did));
                }
                _ => {}
            }
            if form == 1 {
                p.sign = p.sign.or(Some(By::Did));
            }
            WhyCase { p, prior, ti, token, form, own, w }
        })
        .boxed()
}

/// A message the reference implementation makes: what it is, and the keys it needs.
struct Wire {
    text: String,
    author: Option<String>,
    signer: Option<String>,
    to: Vec<String>,
}
impl WhyCase {
    fn tkey(&self) -> &Key {
        pick(&self.prior.auth, self.ti)
    }
    fn tkid(&self) -> String {
        self.prior.kid(self.tkey())
    }
    fn jwt(&self, alg: Option<&str>) -> Option<String> {
        let k = self.tkey();
        self.token.as_ref().map(|c| {
            let mut h = rf::jwt_header(&self.tkid(), k.kt);
            if let Some(a) = alg {
                h.insert("alg".into(), json!(a));
            }
            rf::seal_jwt(&Value::Object(c.model(&self.prior.did, &self.p.s.did)).to_string(), &h, k.kt, &self.prior.sk(k))
        })
    }
    fn by_library(&self, d: &Dids) -> Res<Wire> {
        let p = &self.p;
        let mut msg = p.message();
        msg.from_prior = self.jwt(None);
        let s = Secs::of(&[&p.s]).order(p.sec_order);
        let r = match self.form {
            0 => block_on(msg.pack_plaintext(d)).map(|text| Wire { text, author: None, signer: None, to: vec![] }),
            1 => block_on(msg.pack_signed(&p.sign_s().unwrap(), d, &s)).map(|(text, m)| Wire { text, author: None, signer: Some(m.sign_by_kid), to: vec![] }),
            _ => block_on(msg.pack_encrypted(&p.to_s(), p.from_s().as_deref(), p.sign_s().as_deref(), d, &s, &p.opts.build()))
                .map(|(text, m)| Wire { text, author: m.from_kid, signer: m.sign_by_kid, to: m.to_kids }),
        };
        r.or_else(|e| fail("pack-fails", format!("packing a packable message failed: {e}")))
    }
    /// `alg`: what the signature (or the token, if so) claims to be; `enc`: content encryption of the authenticated envelope
    fn by_reference(&self, alg: Option<(bool, &str)>, enc: rf::Enc) -> Wire {
        let p = &self.p;
        let talg = alg.filter(|a| a.0).map(|a| a.1);
        let salg = alg.filter(|a| !a.0).map(|a| a.1);
        let l = rf::Layout::default();
        let mut w = Wire { text: p.msg.model(p.header_from(), p.header_to().as_deref(), self.jwt(talg).as_deref()).to_string(), author: None, signer: None, to: vec![] };
        let k = p.akey();
        if self.form > 0 && p.sign.is_some() {
            w.signer = Some(p.s.kid(k));
            w.text = rf::seal_jws(w.text.as_bytes(), &p.s.kid(k), k.kt, &p.s.sk(k), salg, &l);
        }
        if self.form < 2 {
            return w;
        }
        let kt = p.rkey().kt;
        let rc: Vec<rf::Rcpt> = match p.to {
            By::Did => p.r.ka.iter().filter(|k| k.kt == kt).map(|k| rf::Rcpt { kid: p.r.kid(k), pk: p.r.pk(k) }).collect(),
            By::Kid => vec![rf::Rcpt { kid: p.r.kid(p.rkey()), pk: p.r.pk(p.rkey()) }],
        };
        w.to = rc.iter().map(|r| r.kid.clone()).collect();
        if p.from.is_some() {
            let kid = p.s.kid(p.skey());
            w.text = rf::seal_jwe(w.text.as_bytes(), enc, kt, &rc, Some((&kid, &p.s.sk(p.skey()))), 11, &l, &Default::default());
            w.author = Some(kid);
        }
        if p.from.is_none() || p.opts.protect_sender {
            w.text = rf::seal_jwe(w.text.as_bytes(), p.opts.anon, kt, &rc, None, 12, &l, &Default::default());
        }
        w
    }
}

fn other_of(kt: Kt, i: u16) -> Kt {
    let v: Vec<Kt> = [Kt::X25519, Kt::P256, Kt::Ed25519, Kt::K256].into_iter().filter(|x| *x != kt).collect();
    *pick(&v, i)
}
fn check_why(c: &WhyCase, o: &mut Obs) -> Res {
    let p = &c.p;
    let docs = || vec![p.s.doc(), p.r.doc(), c.prior.doc()];
    let genuine = Dids::new(docs());
    let wire = if c.own { c.by_reference(None, rf::Enc::Cbc) } else { c.by_library(&genuine)? };
    let held: Vec<Secret> = p.holder(&wire.to).secrets;
    let model = p.msg.model(p.header_from(), p.header_to().as_deref(), c.jwt(None).as_deref());
    let read = |what: &str, text: &str, d: &Dids, s: Vec<Secret>| -> Res {
        match unpack(text, d, &Secs::new(s).order(p.sec_order), &p.unpack_opts()) {
            Ok((m, md)) => {
                ensure_eq!(msg_json(&m)?, model, "message", "message, {what}");
                ensure_eq!((md.encrypted_from_kid, md.sign_from, md.from_prior_issuer_kid), (wire.author.clone(), wire.signer.clone(), c.token.as_ref().map(|_| c.tkid())), "metadata", "keys, {what}");
                ensure_eq!(md.from_prior, c.token.as_ref().map(|t| t.build(&c.prior.did, &p.s.did)), "metadata", "rotation, {what}");
                Ok(())
            }
            Err(e) => fail("unpack-fails", format!("{what}: {e}")),
        }
    };
    read("with nothing wrong", &wire.text, &genuine, held.clone())?;

    // what is wrong, and whom that concerns
    let mut docs = docs();
    let mut secs = held.clone();
    let mut text = wire.text.clone();
    let role = |w: Who| match w {
        Who::Author => (&p.s, pick(&p.s.ka, p.si), wire.author.clone()),
        Who::Signer => (&p.s, p.akey(), wire.signer.clone()),
        Who::Issuer => (&c.prior, c.tkey(), c.token.as_ref().map(|_| c.tkid())),
    };
    // the key as the message uses it, or one that could have been used
    let target = |w: Who| -> (&Party, &Key, String, bool) {
        let (q, k, used) = role(w);
        let kid = used.clone().unwrap_or_else(|| q.kid(k));
        let list = if w == Who::Author { &q.ka } else { &q.auth };
        let k = list.iter().find(|x| q.kid(x) == kid).unwrap_or(k);
        (q, k, kid, used.is_some())
    };
    let doc = |w: Who| if w == Who::Issuer { 2 } else { 0 };
    let list = |d: &mut DIDDoc, w: Who| if w == Who::Author { std::mem::take(&mut d.key_agreement) } else { std::mem::take(&mut d.authentication) };
    let mut want: Option<&[ErrorKind]> = None; // None: it is read nevertheless
    // how exactly this fails is not documented, but nothing is missing
    const ANY: &[ErrorKind] = &[Malformed, InvalidState, IllegalArgument, Unsupported];
    let mut name = "";
    let shared = |kid: &str| p.s.ka.iter().any(|k| p.s.kid(k) == kid) && p.s.auth.iter().any(|k| p.s.kid(k) == kid);
    match &c.w {
        Wrong::NoDid(w, like) => {
            name = "DID";
            let (q, _, _, mut used) = target(*w);
            if *w != Who::Issuer {
                used = wire.author.is_some() || wire.signer.is_some();
            }
            docs[doc(*w)].id = match like {
                Some((h, a)) => near(&q.did, *h, *a),
                None => "did:example:nobody".into(),
            };
            if docs[doc(*w)].id == q.did || docs.iter().filter(|d| d.id == docs[doc(*w)].id).count() > 1 {
                docs[doc(*w)].id = "did:example:nobody".into();
            }
            want = used.then_some(&[DIDNotResolved]);
        }
        Wrong::NotListed(w, swap, like) => {
            name = "listed";
            let (q, k, kid, used) = target(*w);
            let d = &mut docs[doc(*w)];
            let mut l = list(d, *w);
            let at = l.iter().position(|x| *x == kid).unwrap_or(0);
            l.retain(|x| *x != kid);
            if let Some((h, a)) = like {
                let x = format!("{}#{}", q.did, near(&k.frag, *h, *a));
                if x != kid {
                    l.insert(at, x);
                }
            }
            let to = if *w == Who::Author { (l, { let mut o = d.authentication.clone(); if *swap { o.push(kid) } o }) } else { ({ let mut o = d.key_agreement.clone(); if *swap { o.push(kid) } o }, l) };
            (d.key_agreement, d.authentication) = to;
            want = used.then_some(&[DIDUrlNotFound]);
        }
        Wrong::NoMethod(w, like) => {
            name = "described";
            let (q, k, kid, used) = target(*w);
            let used = used || (shared(&kid) && (wire.author.as_deref() == Some(&kid) || wire.signer.as_deref() == Some(&kid)));
            let vms = &mut docs[doc(*w)].verification_method;
            let at = vms.iter().position(|v| v.id == kid).unwrap_or(0);
            vms.retain(|v| v.id != kid);
            if let Some((h, a)) = like {
                let mut vm = q.vm(k);
                vm.id = format!("{}#{}", q.did, near(&k.frag, *h, *a));
                if vm.id != kid {
                    vms.insert(at, vm);
                }
            }
            want = used.then_some(&[DIDUrlNotFound]);
        }
        Wrong::Unknown(w, _) | Wrong::OtherKey(w, _) | Wrong::OtherKind(w, _) | Wrong::Damaged(w, _) => {
            let (q, k, kid, mut used) = target(*w);
            let mut both = false;
            if shared(&kid) {
                both = true;
                used = wire.author.as_deref() == Some(&kid) || wire.signer.as_deref() == Some(&kid);
            }
            let (vm, kinds): (_, &[ErrorKind]) = match &c.w {
                Wrong::Unknown(_, h) => {
                    name = "type";
                    (unknown(q, k, *h), if *w == Who::Author { &[Unsupported] } else { ANY })
                }
                Wrong::OtherKey(_, i) => {
                    name = "key";
                    let q2 = Party { salt: q.salt.wrapping_add(1 + *i % 7), ..q.clone() };
                    (q2.vm(k), &[Malformed])
                }
                Wrong::OtherKind(_, i) => {
                    name = "kind";
                    let kt = other_of(k.kt, *i);
                    let k2 = Key { kt, fmt: Fmt::Jwk, ..k.clone() };
                    let kinds: &[ErrorKind] = match (*w, kt) {
                        (Who::Author, Kt::X25519 | Kt::P256) => &[Malformed],
                        (Who::Author, _) => &[Unsupported],
                        _ => ANY,
                    };
                    (q.vm(&k2), kinds)
                }
                Wrong::Damaged(_, h) => {
                    name = "material";
                    (damaged(q, k, *h), ANY)
                }
                _ => unreachable!(),
            };
            for v in docs[doc(*w)].verification_method.iter_mut().filter(|v| v.id == kid) {
                *v = VerificationMethod { id: kid.clone(), ..vm.clone() };
            }
            want = used.then_some(if both { ANY } else { kinds });
        }
        Wrong::NoSecrets => {
            name = "no secret";
            secs.retain(|s| !wire.to.contains(&s.id));
            want = (!wire.to.is_empty()).then_some(&[SecretNotFound]);
        }
        Wrong::UnknownSecret(_) | Wrong::OtherSecret(_) | Wrong::OtherKindSecret(_) | Wrong::DamagedSecret(_) => {
            let mut kinds = ANY;
            for s in secs.iter_mut() {
                let Some(k) = p.r.ka.iter().find(|k| p.r.kid(k) == s.id) else { continue };
                let id = s.id.clone();
                (*s, kinds) = match &c.w {
                    Wrong::UnknownSecret(h) => {
                        name = "secret type";
                        (unknown_secret(&p.r, k, *h), &[Unsupported] as &[ErrorKind])
                    }
                    Wrong::OtherSecret(i) => {
                        name = "secret";
                        let r2 = Party { salt: p.r.salt.wrapping_add(1 + *i % 7), ..p.r.clone() };
                        (r2.secret(k), &[Malformed] as &[ErrorKind])
                    }
                    Wrong::OtherKindSecret(i) => {
                        name = "secret kind";
                        let kt = other_of(k.kt, *i);
                        (p.r.secret(&Key { kt, sfmt: Fmt::Jwk, ..k.clone() }), if matches!(kt, Kt::X25519 | Kt::P256) { &[Malformed] as &[ErrorKind] } else { &[Unsupported] })
                    }
                    Wrong::DamagedSecret(h) => {
                        name = "secret material";
                        (damaged_secret(&p.r, k, *h), ANY)
                    }
                    _ => unreachable!(),
                };
                s.id = id;
            }
            want = (!wire.to.is_empty()).then_some(kinds);
        }
        Wrong::Alg(tok, alg) => {
            name = "alg";
            let real = if *tok { c.tkey().kt.sign_alg() } else { p.akey().kt.sign_alg() };
            // what is under an unknown name is not verified; under another known name it fails, one way or another
            if alg != real {
                text = c.by_reference(Some((*tok, alg)), rf::Enc::Cbc).text;
                want = Some(if ["EdDSA", "ES256", "ES256K"].contains(&&alg[..]) { ANY } else { &[Unsupported] });
            }
        }
        Wrong::AuthEnc(e) => {
            name = "enc";
            text = c.by_reference(None, *e).text;
            want = Some(&[Unsupported, Malformed]);
        }
    }
    o.label(format!("{name}:{}", if want.is_some() { ["plain", "signed", "encrypted"][c.form as usize] } else { "control" }));
    let d = Dids::new(docs);
    let Some(want) = want else { return read("although what is wrong is of no concern", &text, &d, secs) };
    o.nt();
    match unpack(&text, &d, &Secs::new(secs).order(p.sec_order), &p.unpack_opts()) {
        Ok((_, md)) => fail("read-anyway", format!("{:?}: the message is read as {md:?}", c.w)),
        Err(e) => {
            ensure!(want.contains(&e.kind()), "kind", "{:?}: refused with {e}, where {want:?} is documented", c.w);
            Ok(())
        }
    }?;
    // the token by itself is refused for the same reason
    let concerns_token = matches!(&c.w, Wrong::NoDid(Who::Issuer, _) | Wrong::NotListed(Who::Issuer, ..) | Wrong::NoMethod(Who::Issuer, _) | Wrong::Unknown(Who::Issuer, _)
        | Wrong::OtherKey(Who::Issuer, _) | Wrong::OtherKind(Who::Issuer, _) | Wrong::Damaged(Who::Issuer, _) | Wrong::Alg(true, _));
    if concerns_token {
        let alg = if let Wrong::Alg(_, a) = &c.w { Some(&a[..]) } else { None };
        if let Some(t) = c.jwt(alg) {
            match block_on(FromPrior::unpack(&t, &d)) {
                Ok((f, kid)) => return fail("read-anyway", format!("{:?}: the token is read as {f:?} by {kid}", c.w)),
                Err(e) => ensure!(want.contains(&e.kind()), "kind", "{:?}: token refused with {e}, where {want:?} is documented", c.w),
            }
            // and a message that carries it is not packed
            if p.set_from {
                let mut msg = p.message();
                msg.from_prior = Some(t);
                match block_on(msg.pack_plaintext(&d)) {
                    Ok(_) => return fail("packed-anyway", format!("{:?}: a message with the token is packed", c.w)),
                    Err(e) => ensure!(want.contains(&e.kind()), "kind", "{:?}: packing refused with {e}, where {want:?} is documented", c.w),
                }
            }
        }
    }
    Ok(())
}
fn unknown(q: &Party, k: &Key, how: u8) -> VerificationMethod {
    let mut v = q.vm(k);
    let jwk = rf::pub_jwk(k.kt, &q.pk(k));
    (v.type_, v.verification_material) = match how {
        0 => (VerificationMethodType::Other, v.verification_material.clone()),
        1 => {
            let mut j = jwk;
            j["crv"] = json!(if k.kt.kty() == "EC" { "P-384" } else { "X448" });
            (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: j })
        }
        2 => (VerificationMethodType::X25519KeyAgreementKey2019, VerificationMaterial::JWK { public_key_jwk: jwk }),
        _ => (VerificationMethodType::JsonWebKey2020, VerificationMaterial::Base58 { public_key_base58: bs58::encode(q.pk(k)).into_string() }),
    };
    v
}
fn unknown_secret(q: &Party, k: &Key, how: u8) -> Secret {
    let mut s = q.secret(k);
    let mut jwk = rf::pub_jwk(k.kt, &q.pk(k));
    jwk["d"] = json!(rf::b64(&q.sk(k)));
    (s.type_, s.secret_material) = match how {
        0 => (SecretType::Other, s.secret_material.clone()),
        1 => {
            jwk["crv"] = json!(if k.kt.kty() == "EC" { "P-384" } else { "X448" });
            (SecretType::JsonWebKey2020, SecretMaterial::JWK { private_key_jwk: jwk })
        }
        2 => (SecretType::X25519KeyAgreementKey2019, SecretMaterial::JWK { private_key_jwk: jwk }),
        _ => (SecretType::JsonWebKey2020, SecretMaterial::Base58 { private_key_base58: bs58::encode(q.sk(k)).into_string() }),
    };
    s
}
/// what is no encoding, or the encoding of nothing, of too little or of too much
fn spoil(s: &str, how: u8) -> String {
    match how {
        0 => String::new(),
        1 => s[..s.len() / 2].to_string(),
        2 => format!("{s}{s}"),
        3 => format!("{}!", &s[..s.len() - 1]),
        4 => format!("{}\u{e9}", &s[..s.len() - 1]),
        _ => format!(" {s}"),
    }
}
fn damaged(q: &Party, k: &Key, how: u8) -> VerificationMethod {
    let mut v = q.vm(k);
    match &mut v.verification_material {
        VerificationMaterial::JWK { public_key_jwk } => {
            let x = public_key_jwk["x"].as_str().unwrap_or("").to_string();
            public_key_jwk["x"] = json!(spoil(&x, how));
        }
        VerificationMaterial::Base58 { public_key_base58: x } => *x = spoil(x, how),
        VerificationMaterial::Multibase { public_key_multibase: x } => *x = format!("z{}", spoil(&x[1..], how)),
    }
    v
}
fn damaged_secret(q: &Party, k: &Key, how: u8) -> Secret {
    let mut s = q.secret(k);
    match &mut s.secret_material {
        SecretMaterial::JWK { private_key_jwk } => {
            let x = private_key_jwk["d"].as_str().unwrap_or("").to_string();
            private_key_jwk["d"] = json!(spoil(&x, how));
        }
        SecretMaterial::Base58 { private_key_base58: x } => *x = spoil(x, how),
        SecretMaterial::Multibase { private_key_multibase: x } => *x = format!("z{}", spoil(&x[1..], how)),
    }
    s
}
