//! C09, C10, C11: who can be believed, who can read, what is given away.
use super::common::*;
use super::envelope::*;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::error::ErrorKind;
use didcomm::secrets::SecretsResolver;
use didcomm::{Message, UnpackOptions};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C09",
            "Messages an attacker with keys of its own makes against a recipient and an honest party whose public keys it knows: sender key id and key mixed up, key used outside its purpose, algorithm confusion, somebody else's key, unlisted or unresolvable signers, layers in the wrong order, sender named only in the plaintext; plus genuine controls that must be accepted and attributed to the keys really used. Non-trivial: always; labels give the scenarios.",
            vec![part!("forge", 80000, 1500000, |_| forge_case(), check_forge)],
        ),
        prop(
            "C10",
            "The same message packed three times in every mode, each packed text searched (raw, and inside every base64url member, recursively) for content, signer and hidden sender; ephemeral keys, content keys, initialization vectors, wrapped keys, ciphertexts and tags of all layers compared. Non-trivial: always.",
            vec![part!("leak", 15000, 300000, |_| leak_case(), check_leak)],
        ),
        prop(
            "C11",
            "Messages to 1-4 keys of a recipient (X25519, P-256), opened with every subset of the recipient's secrets, with strangers' secrets, with wrong secrets under right ids, with one recipient entry spoilt, and with recipient lists over several DIDs or naming no key. Non-trivial: always; labels give the scenarios.",
            vec![part!("target", 40000, 800000, |_| target_case(), check_target)],
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Forge {
    Control,
    SkidOther,
    Mixed(bool),
    ApuOnly,
    ApuOnlyForged,
    SkidOnly,
    NoSender,
    EsWithSkid,
    EsWithSkidOnly,
    NotKeyAgreement,
    NotAuthentication,
    Unlisted(bool),
    SignOther,
    SignWithRecipientKey,
    SignAlg(String),
    SignAlgOwn(String),
    UnknownDid(bool),
    DidOnly(bool),
    KidSuffix(bool, String),
    Resign,
    PlainFrom,
    Nesting(u8),
    /// a recipient of a genuine message puts other content under the same content key
    Insider(bool),
    /// the attacker's own document lists the victim's key id, with the attacker's key
    Squat(bool),
    /// genuine signature of the victim, over something else
    SignSpliced(u8),
    /// the victim's document lists the key but does not describe it; other methods, the attacker's too, are there
    Hollow(bool, u8, (u8, u16)),
    /// the victim's document describes the key under the named id as one of another curve
    OtherCurve(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ForgeCase {
    p: PackCase,
    /// the attacker
    m: Party,
    f: Forge,
    seed: u64,
    /// what the forgery travels in: 0 nothing, 1 an anonymous envelope, 2 the attacker's own authenticated envelope,
    /// 3 an authenticated envelope made with the victim's stolen agreement key, 4 the same inside an anonymous one
    wrap: u8,
}
fn forge_case() -> BoxedStrategy<ForgeCase> {
    let f = prop_oneof![
        Just(Forge::Control),
        Just(Forge::SkidOther),
        any::<bool>().prop_map(Forge::Mixed),
        Just(Forge::ApuOnly),
        Just(Forge::ApuOnlyForged),
        Just(Forge::SkidOnly),
        Just(Forge::NoSender),
        Just(Forge::EsWithSkid),
        Just(Forge::EsWithSkidOnly),
        Just(Forge::NotKeyAgreement),
        Just(Forge::NotAuthentication),
        any::<bool>().prop_map(Forge::Unlisted),
        Just(Forge::SignOther),
        Just(Forge::SignWithRecipientKey),
        select(vec!["EdDSA", "ES256", "ES256K", "none", "HS256"]).prop_map(|s| Forge::SignAlg(s.into())),
        select(vec!["EdDSA", "ES256", "ES256K", "none", "HS256"]).prop_map(|s| Forge::SignAlgOwn(s.into())),
        any::<bool>().prop_map(Forge::UnknownDid),
        any::<bool>().prop_map(Forge::DidOnly),
        (any::<bool>(), select(vec!["x", " ", "#", "/", "?", "0", "-", "\u{301}", "CASE", "TRIM"])).prop_map(|(a, s)| Forge::KidSuffix(a, s.into())),
        Just(Forge::Resign),
        Just(Forge::PlainFrom),
        (0u8..6).prop_map(Forge::Nesting),
        any::<bool>().prop_map(Forge::Insider),
        any::<bool>().prop_map(Forge::Squat),
        (0u8..3).prop_map(Forge::SignSpliced),
        (any::<bool>(), 0u8..5, any::<(u8, u16)>()).prop_map(|(s, k, n)| Forge::Hollow(s, k, n)),
        any::<bool>().prop_map(Forge::OtherCurve),
    ];
    (pack_case(small_message), party_with("did:example:mallory".into(), KA_KTS, 1..3, AUTH_KTS, 1..3, 1.0), f, any::<u64>(), 0u8..5)
        .prop_map(|(mut p, m, f, seed, wrap)| {
            p.set_from = true;
            p.set_to = Some(0);
            // two scenarios need a key type that serves both purposes
            if matches!(f, Forge::NotKeyAgreement | Forge::NotAuthentication) {
                for k in [&mut p.s.ka[0], &mut p.s.auth[0], &mut p.r.ka[0]] {
                    k.kt = Kt::P256;
                    k.fmt = Fmt::Jwk;
                    k.sfmt = Fmt::Jwk;
                }
                p.si = 0;
                p.ri = 0;
                p.ai = 0;
            }
            ForgeCase { p, m, f, seed, wrap }
        })
        .boxed()
}
enum Want {
    Reject,
    /// (from key, signer)
    Accept(Option<String>, Option<String>),
    /// reject, or accept without attributing anything
    NoTrust,
}
fn check_forge(c: &ForgeCase, o: &mut Obs) -> Res {
    let p = &c.p;
    let (a, b, m) = (&p.s, &p.r, &c.m);
    let (ak, bk) = (p.skey(), p.rkey());
    let kt = bk.kt;
    let auth = p.akey();
    let akid = a.kid(ak);
    let asig = a.kid(auth);
    // the attacker's key agreement key, on the right curve
    let mut mk = m.ka[0].clone();
    mk.kt = kt;
    let mut m2 = m.clone();
    m2.ka = vec![mk.clone()];
    if kt == Kt::P256 {
        m2.ka[0].fmt = Fmt::Jwk;
        m2.ka[0].sfmt = Fmt::Jwk;
        mk = m2.ka[0].clone();
    }
    // and its signing key, of the victim's type
    m2.auth = vec![Key { kt: auth.kt, fmt: Fmt::Jwk, sfmt: Fmt::Jwk, frag: m.auth[0].frag.clone(), secret: true }];
    let (msk, mkid, msig) = (m2.sk(&mk), m2.kid(&mk), m2.kid(&m2.auth[0]));
    let rc = || vec![rf::Rcpt { kid: b.kid(bk), pk: b.pk(bk) }];
    let plain = p.model().to_string();
    let l = rf::Layout::default();
    let pu = |pt: &str, kid: &str, sk: &[u8; 32], t: rf::Tweak| rf::seal_jwe(pt.as_bytes(), rf::Enc::Cbc, kt, &rc(), Some((kid, sk)), c.seed, &l, &t);
    let es = |pt: &str, t: rf::Tweak| rf::seal_jwe(pt.as_bytes(), p.opts.anon, kt, &rc(), None, c.seed ^ 9, &l, &t);
    let b64s = |s: &str| rf::b64(s.as_bytes());
    let (mut a_doc, mut m_doc) = (a.doc(), m2.doc());
    let t0 = rf::Tweak::default;
    use Want::*;
    let (msg, want) = match &c.f {
        Forge::Control => {
            let j = rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &a.sk(auth), None, &l);
            (pu(&j, &akid, &a.sk(ak), t0()), Accept(Some(akid.clone()), Some(asig.clone())))
        }
        Forge::SkidOther => (pu(&plain, &akid, &msk, t0()), Reject),
        Forge::Mixed(x) => {
            let (s, u) = if *x { (&akid, &mkid) } else { (&mkid, &akid) };
            (pu(&plain, &mkid, &msk, rf::Tweak { skid: Some(Some(s.clone())), apu: Some(Some(b64s(u))), ..t0() }), Reject)
        }
        Forge::ApuOnly => (pu(&plain, &akid, &a.sk(ak), rf::Tweak { skid: Some(None), ..t0() }), Accept(Some(akid.clone()), None)),
        Forge::ApuOnlyForged => (pu(&plain, &akid, &msk, rf::Tweak { skid: Some(None), ..t0() }), Reject),
        Forge::SkidOnly => (pu(&plain, &akid, &msk, rf::Tweak { apu: Some(None), ..t0() }), Reject),
        Forge::NoSender => (pu(&plain, &akid, &msk, rf::Tweak { apu: Some(None), skid: Some(None), ..t0() }), Reject),
        Forge::EsWithSkid => (es(&plain, rf::Tweak { skid: Some(Some(akid.clone())), apu: Some(Some(b64s(&akid))), ..t0() }), NoTrust),
        Forge::EsWithSkidOnly => (es(&plain, rf::Tweak { skid: Some(Some(akid.clone())), ..t0() }), NoTrust),
        Forge::NotKeyAgreement => {
            if kt != Kt::P256 || auth.kt != Kt::P256 {
                return Ok(());
            }
            (pu(&plain, &asig, &a.sk(auth), t0()), Reject)
        }
        Forge::NotAuthentication => {
            let k = &a.ka[0];
            (rf::seal_jws(plain.as_bytes(), &a.kid(k), k.kt, &a.sk(k), None, &l), Reject)
        }
        Forge::Unlisted(sign) => {
            // the document describes the key but assigns it no purpose
            if *sign {
                a_doc.authentication.retain(|k| *k != asig);
                (rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &a.sk(auth), None, &l), Reject)
            } else {
                a_doc.key_agreement.retain(|k| *k != akid);
                (pu(&plain, &akid, &a.sk(ak), t0()), Reject)
            }
        }
        Forge::SignOther => (rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &m2.sk(&m2.auth[0]), None, &l), Reject),
        Forge::SignWithRecipientKey => {
            // signed by the recipient's own key, in the victim's name
            let k = &b.auth[0];
            (rf::seal_jws(plain.as_bytes(), &asig, k.kt, &b.sk(k), None, &l), Reject)
        }
        Forge::SignAlg(alg) => {
            // by the attacker's key, under an algorithm of its choice
            let w = rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &m2.sk(&m2.auth[0]), Some(alg), &l);
            (w, Reject)
        }
        Forge::SignAlgOwn(alg) => {
            // genuinely signed, but announced as another algorithm than the key's
            if alg == auth.kt.sign_alg() {
                (rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &a.sk(auth), Some(alg), &l), Accept(None, Some(asig.clone())))
            } else {
                (rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &a.sk(auth), Some(alg), &l), Reject)
            }
        }
        Forge::UnknownDid(sign) => {
            if *sign {
                let j = rf::seal_jws(plain.as_bytes(), "did:example:nobody#k", auth.kt, &a.sk(auth), None, &l);
                (j, Reject)
            } else {
                (pu(&plain, "did:example:nobody#k", &a.sk(ak), t0()), Reject)
            }
        }
        Forge::DidOnly(sign) => {
            if *sign {
                (rf::seal_jws(plain.as_bytes(), &a.did, auth.kt, &a.sk(auth), None, &l), Reject)
            } else {
                (pu(&plain, &a.did, &a.sk(ak), t0()), Reject)
            }
        }
        Forge::KidSuffix(sign, s) => {
            let alter = |k: &str| match s.as_str() {
                "CASE" => k.to_uppercase(),
                "TRIM" => k[..k.len() - k.chars().last().unwrap().len_utf8()].to_string(),
                s => format!("{k}{s}"),
            };
            let k = alter(if *sign { &asig } else { &akid });
            if a.all_keys().any(|x| a.kid(x) == k) {
                return Ok(());
            }
            if *sign {
                (rf::seal_jws(plain.as_bytes(), &k, auth.kt, &a.sk(auth), None, &l), Reject)
            } else {
                (pu(&plain, &k, &a.sk(ak), t0()), Reject)
            }
        }
        Forge::Resign => {
            // a genuine signed message of the victim's, passed on by the attacker
            let j = rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &a.sk(auth), None, &l);
            (pu(&j, &mkid, &msk, t0()), Accept(Some(mkid.clone()), Some(asig.clone())))
        }
        Forge::PlainFrom => (plain.clone(), Accept(None, None)),
        Forge::Insider(keep_tag) => {
            let mut to = rc();
            to.push(rf::Rcpt { kid: mkid.clone(), pk: m2.pk(&mk) });
            let w = rf::seal_jwe(plain.as_bytes(), rf::Enc::Cbc, kt, &to, Some((&akid, &a.sk(ak))), c.seed, &l, &t0());
            let j = rf::parse_jwe(&w).expect("own message");
            let i = j.kids().iter().position(|k| *k == mkid).expect("addressed");
            let cek = j.cek(i, kt, &msk, Some(&a.pk(ak))).expect("own key");
            let mut other = p.model();
            other["id"] = "forged".into();
            let (ct, tag) = rf::Enc::Cbc.seal(&cek, &j.iv, j.protected_raw.as_bytes(), other.to_string().as_bytes());
            let mut v = val(&w)?;
            v["ciphertext"] = rf::b64(&ct).into();
            if !keep_tag {
                v["tag"] = rf::b64(&tag).into();
            }
            (v.to_string(), Reject)
        }
        Forge::Squat(sign) => {
            let k = if *sign { &m2.auth[0] } else { &mk };
            let mut vm = m2.vm(k);
            vm.id = if *sign { asig.clone() } else { akid.clone() };
            m_doc.authentication.push(vm.id.clone());
            m_doc.key_agreement.push(vm.id.clone());
            m_doc.verification_method.push(vm);
            let mut from_attacker = p.model();
            from_attacker["from"] = m2.did.clone().into();
            let pt = from_attacker.to_string();
            if *sign {
                (rf::seal_jws(pt.as_bytes(), &asig, k.kt, &m2.sk(k), None, &l), Reject)
            } else {
                (pu(&pt, &akid, &msk, t0()), Reject)
            }
        }
        Forge::SignSpliced(part) => {
            let mut other = p.model();
            other["id"] = "forged".into();
            let g = val(&rf::seal_jws(plain.as_bytes(), &asig, auth.kt, &a.sk(auth), None, &l))?;
            let mut v = val(&rf::seal_jws(other.to_string().as_bytes(), &msig, auth.kt, &m2.sk(&m2.auth[0]), None, &l))?;
            match part {
                0 => v["signatures"] = g["signatures"].clone(),
                1 => v["signatures"][0]["header"] = g["signatures"][0]["header"].clone(),
                _ => {
                    v["signatures"][0]["header"] = g["signatures"][0]["header"].clone();
                    v["signatures"][0]["signature"] = g["signatures"][0]["signature"].clone();
                }
            }
            (v.to_string(), Reject)
        }
        Forge::Hollow(sign, kind, near) => {
            let (id, own, mine) = if *sign { (&asig, auth, &m2.auth[0]) } else { (&akid, ak, &mk) };
            a_doc.verification_method.retain(|v| v.id != *id);
            let mut vm = m2.vm(mine);
            vm.id = match kind {
                // with the attacker's key: under the attacker's id, the victim's fragment under the attacker's DID, a like one of the victim
                1 => vm.id,
                2 => format!("{}#{}", m2.did, own.frag),
                3 => format!("{}#{}", a.did, crate::gen::near(&own.frag, near.0, near.1)),
                _ => id.clone(),
            };
            if vm.id != *id {
                let at = near.1 as usize % (a_doc.verification_method.len() + 1);
                a_doc.verification_method.insert(at, vm);
            }
            // with another key of the victim
            let other = if *sign { a.auth.iter().find(|k| k.kt == own.kt && k.frag != own.frag) } else { a.ka.iter().find(|k| k.kt == own.kt && k.frag != own.frag) };
            let sk = match (kind, other) {
                (1..=3, _) => m2.sk(mine),
                (4, Some(k)) => a.sk(k),
                _ => a.sk(own),
            };
            (if *sign { rf::seal_jws(plain.as_bytes(), id, own.kt, &sk, None, &l) } else { pu(&plain, id, &sk, t0()) }, Reject)
        }
        Forge::OtherCurve(sign) => {
            let (id, own) = if *sign { (&asig, auth) } else { (&akid, ak) };
            let kts = if *sign { AUTH_KTS } else { KA_KTS };
            let kt2 = *kts.iter().find(|k| **k != own.kt).unwrap();
            let vm = a.vm(&Key { kt: kt2, fmt: Fmt::Jwk, ..own.clone() });
            for v in a_doc.verification_method.iter_mut().filter(|v| v.id == *id) {
                *v = vm.clone();
            }
            (if *sign { rf::seal_jws(plain.as_bytes(), id, own.kt, &a.sk(own), None, &l) } else { pu(&plain, id, &a.sk(own), t0()) }, Reject)
        }
        Forge::Nesting(k) => {
            let jws = |pt: &str| rf::seal_jws(pt.as_bytes(), &msig, auth.kt, &m2.sk(&m2.auth[0]), None, &l);
            let au = |pt: &str| pu(pt, &mkid, &msk, t0());
            let an = |pt: &str| es(pt, t0());
            let s = match k {
                0 => jws(&an(&plain)),
                1 => jws(&au(&plain)),
                2 => jws(&jws(&plain)),
                3 => au(&an(&plain)),
                4 => au(&au(&plain)),
                _ => an(&an(&plain)),
            };
            (s, Reject)
        }
    };
    let inner_nest = matches!(c.f, Forge::Nesting(_));
    // optionally inside an anonymous envelope, as a protected sender would send it
    // (a signature proves no more for travelling in somebody's authenticated envelope, its alleged author's included)
    let wrap = if matches!(c.f, Forge::EsWithSkid | Forge::EsWithSkidOnly) || inner_nest { 0 } else { c.wrap };
    let signed = val(&msg)?.get("signatures").is_some();
    let wrap = if !signed { wrap % 2 } else { wrap };
    let (msg, want) = if wrap < 2 {
        (msg, want)
    } else {
        let (kid, sk) = if wrap == 2 { (&mkid, msk) } else { (&akid, a.sk(ak)) };
        let want = match want {
            Accept(None, g) => Accept(Some(kid.clone()), g),
            w => w,
        };
        (rf::seal_jwe(msg.as_bytes(), rf::Enc::Cbc, kt, &rc(), Some((kid, &sk)), c.seed ^ 78, &l, &t0()), want)
    };
    let msg = if wrap == 1 || wrap == 4 { rf::seal_jwe(msg.as_bytes(), p.opts.anon, kt, &rc(), None, c.seed ^ 77, &l, &t0()) } else { msg };
    o.nt();
    let n = format!("{:?}", c.f);
    o.label(n.split('(').next().unwrap_or("").to_string());
    o.label(format!("in={}", ["nothing", "anon", "own auth", "victim's auth", "victim's auth in anon"][wrap as usize]));
    let d = Dids::new(vec![a_doc, b.doc(), m_doc]);
    let s = Secs::new(b.all_secrets()).order(p.sec_order);
    match (unpack(&msg, &d, &s, &p.unpack_opts()), want) {
        (Ok(x), Reject) => fail("forgery-accepted", format!("{:?} accepted with {:?}", c.f, x.1)),
        (Err(e), Accept(..)) => fail("genuine-rejected", format!("{:?} rejected: {e}", c.f)),
        (Err(_), _) => Ok(()),
        (Ok((got, md)), w) => {
            let (f, g) = match w {
                Accept(f, g) => (f, g),
                _ => (None, None),
            };
            ensure_eq!(msg_json(&got)?, p.model(), "message", "message");
            ensure_eq!(md.encrypted_from_kid, f, "attribution", "{:?}: sender key", c.f);
            ensure_eq!(md.sign_from, g, "attribution", "{:?}: signer", c.f);
            ensure_eq!(md.authenticated, f.is_some() || g.is_some(), "attribution", "{:?}: authenticated", c.f);
            ensure_eq!(md.non_repudiation, g.is_some(), "attribution", "{:?}: non_repudiation", c.f);
            ensure_eq!(md.signed_message.is_some(), g.is_some(), "attribution", "{:?}: signed_message", c.f);
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C10
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LeakCase {
    p: PackCase,
    med: Party,
    /// how many mediator keys are on the way
    via: u8,
    tag: u64,
}
/// Layers of an onion show nothing of what is inside, and share no randomness.
pub fn check_onion_leak(c: &super::routing::OnionCase, o: &mut Obs) -> Res {
    let (msg, _) = c.p.packed()?;
    let ps: Vec<&Party> = c.ms.iter().collect();
    let keys: Vec<String> = c.vias.iter().map(|v| v.name(&c.ms)).collect();
    if keys.len() > 1 {
        o.nt();
    }
    o.label(format!("layers={}", keys.len()));
    let d = Dids::of(&ps);
    let hs = c.hs.clone().map(|h| h.into_iter().collect());
    let mut seen: HashSet<(&'static str, Vec<u8>)> = HashSet::new();
    for _ in 0..2 {
        o.inner += 1;
        let mut cur = match block_on(didcomm::protocols::routing::wrap_in_forward(&msg, hs.as_ref(), &c.p.to_s(), &keys, &anon_alg(c.enc), &d)) {
            Ok(w) => w,
            Err(e) => return fail("wrap-fails", format!("{e}")),
        };
        for i in 0..keys.len() {
            let j = rf::parse_jwe(&cur).map_err(|e| Fail { sig: "wire".into(), msg: e })?;
            let Some((kt, epk)) = rf::read_jwk(&j.protected["epk"]) else { return fail("wire", "epk") };
            let mut put = |what: &'static str, v: Vec<u8>| -> Res {
                ensure!(seen.insert((what, v)), "reuse", "{what} used twice, in layer {i}");
                Ok(())
            };
            put("ephemeral key", epk)?;
            put("iv", j.iv.clone())?;
            put("ciphertext", j.ct.clone())?;
            put("tag", j.tag.clone())?;
            let (p, k) = key_by_kid(&ps, &j.recipients[0].0).ok_or(Fail { sig: "wire".into(), msg: "recipient".into() })?;
            put("content key", j.cek(0, kt, &p.sk(k), None).map_err(|e| Fail { sig: "wire".into(), msg: e })?)?;
            for (_, ek) in &j.recipients {
                put("wrapped key", ek.clone())?;
            }
            let plain = val(&open_all(&j, kt, None, &ps).map_err(|e| Fail { sig: "wire".into(), msg: e })?)?;
            let inner = plain["attachments"][0]["data"]["json"].clone();
            let mut hidden: Vec<&str> = vec![];
            hidden.extend(plain["id"].as_str());
            hidden.extend(inner["ciphertext"].as_str());
            hidden.extend(inner["payload"].as_str());
            hidden.extend(plain["body"]["next"].as_str().filter(|n| n.len() > 8 && !j.kids().iter().any(|k| k.contains(n))));
            let mut vis = vec![];
            visible(&cur, &mut vis, 0);
            for s in hidden {
                ensure!(!vis.iter().any(|v| contains(v, s.as_bytes())), "leak", "layer {i} shows {s:?}\n{}", clip(&cur, 2500));
            }
            cur = inner.to_string();
        }
    }
    Ok(())
}
fn leak_case() -> BoxedStrategy<LeakCase> {
    (pack_case(message), party_with("did:example:mediator".into(), KA_KTS, 1..3, AUTH_KTS, 1..2, 1.0), prop_oneof![2 => Just(0u8), 2 => 1u8..4], any::<u64>())
        .prop_map(|(mut p, med, via, tag)| {
            // names that cannot turn up by accident
            p.s.did = format!("did:example:sender-{tag:016x}");
            for (i, k) in p.s.auth.iter_mut().enumerate() {
                k.frag = format!("signing-{i}-{tag:016x}");
            }
            p.set_from = true;
            LeakCase { p, med, via, tag }
        })
        .boxed()
}
/// Every byte string reachable from the text by reading JSON and base64url.
fn visible(s: &str, out: &mut Vec<Vec<u8>>, depth: u8) {
    out.push(s.as_bytes().to_vec());
    if depth > 6 {
        return;
    }
    if let Ok(v) = serde_json::from_str::<Value>(s) {
        walk(&v, out, depth);
    }
}
fn walk(v: &Value, out: &mut Vec<Vec<u8>>, depth: u8) {
    match v {
        Value::String(s) => {
            out.push(s.as_bytes().to_vec());
            if let Some(b) = rf::unb64(s) {
                if let Ok(t) = std::str::from_utf8(&b) {
                    visible(t, out, depth + 1);
                }
                out.push(b);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| walk(x, out, depth)),
        Value::Object(o) => o.iter().for_each(|(k, x)| {
            out.push(k.as_bytes().to_vec());
            walk(x, out, depth)
        }),
        _ => {}
    }
}
fn contains(h: &[u8], n: &[u8]) -> bool {
    !n.is_empty() && h.windows(n.len()).any(|w| w == n)
}
fn check_leak(c: &LeakCase, o: &mut Obs) -> Res {
    let p = &c.p;
    o.nt();
    p.label(o);
    let mark = |s: &str| format!("{s}-{:016x}-mark", c.tag);
    let mut pm = p.clone();
    pm.msg.id = mark("id");
    pm.msg.type_ = mark("type");
    pm.msg.body = json!({"secret": mark("body")});
    pm.msg.thid = Some(mark("thid"));
    pm.msg.extra.insert("note".into(), json!(mark("header")));
    let protect = p.from.is_none() || p.opts.protect_sender;
    let mut via = vec![];
    if c.via > 0 {
        via = (0..c.via as usize).map(|i| c.med.kid(pick(&c.med.ka, p.ri.wrapping_add(i as u16)))).collect::<Vec<_>>();
        pm.r.services.push(Svc { frag: "svc".into(), didcomm: Some(SvcBody { uri: "http://relay.example".into(), accept: None, routing_keys: via.clone() }) });
        if !pm.opts.forward {
            via.clear();
        }
        o.label(format!("mediator layers={}", via.len()));
    }
    let d = Dids::of(&[&pm.s, &pm.r, &c.med]);
    let ps = [&pm.s, &pm.r, &c.med];
    let mut seen: HashSet<(&'static str, Vec<u8>)> = HashSet::new();
    let mut put = |what: &'static str, v: Vec<u8>| -> Res {
        ensure!(seen.insert((what, v)), "reuse", "{what} used twice");
        Ok(())
    };
    for _ in 0..3 {
        o.inner += 1;
        let (s, opts) = (Secs::of(&[&pm.s]).order(pm.sec_order), pm.opts.build());
        let packed = match block_on(pm.message().pack_encrypted(&pm.to_s(), pm.from_s().as_deref(), pm.sign_s().as_deref(), &d, &s, &opts)) {
            Ok(x) => x.0,
            Err(e) => return fail("pack-fails", format!("packing a packable message failed: {e}")),
        };
        let mut vis = vec![];
        visible(&packed, &mut vis, 0);
        // and what the mediators get to see, opening what is addressed to them
        let mut core = packed.clone();
        for _ in 0..via.len() {
            let t = read_tower(&core, &[&c.med]).map_err(|e| Fail { sig: "wire".into(), msg: e })?;
            visible(&t.plain, &mut vis, 0);
            core = val(&t.plain)?["attachments"][0]["data"]["json"].to_string();
        }
        let mut secrets: Vec<Vec<u8>> = ["id", "type", "body", "thid", "header"].iter().map(|s| mark(s).into_bytes()).collect();
        if p.sign.is_some() {
            secrets.extend(pm.s.auth.iter().map(|k| pm.s.kid(k).into_bytes()));
        }
        if protect {
            // nothing about the sender at all
            secrets.push(pm.s.did.clone().into_bytes());
            for k in pm.s.all_keys() {
                secrets.push(pm.s.pk(k)[..32].to_vec());
            }
        }
        for k in pm.s.all_keys() {
            secrets.push(pm.s.sk(k).to_vec());
        }
        for s in &secrets {
            ensure!(!vis.iter().any(|v| contains(v, s)), "leak", "the packed message shows {:?}\n{}", String::from_utf8_lossy(s), clip(&packed, 2500));
        }
        // randomness of each layer
        let mut cur = packed.clone();
        loop {
            let Ok(j) = rf::parse_jwe(&cur) else { break };
            let auth = j.alg() == rf::PU;
            let Some((kt, epk)) = rf::read_jwk(&j.protected["epk"]) else { return fail("wire", "epk") };
            let skid = j.protected["skid"].as_str().unwrap_or("").to_string();
            let spk = if auth { key_by_kid(&ps, &skid).map(|(p, k)| p.pk(k)) } else { None };
            for q in ps {
                ensure!(q.all_keys().all(|k| q.pk(k) != epk), "static-epk", "the ephemeral key is a long-term key");
            }
            put("ephemeral key", epk)?;
            put("iv", j.iv.clone())?;
            put("ciphertext", j.ct.clone())?;
            put("tag", j.tag.clone())?;
            let mut cek = None;
            for (i, (kid, ek)) in j.recipients.iter().enumerate() {
                put("wrapped key", ek.clone())?;
                if let Some((q, k)) = key_by_kid(&ps, kid) {
                    match j.cek(i, kt, &q.sk(k), spk.as_deref()) {
                        Ok(x) => {
                            ensure!(cek.is_none() || cek.as_ref() == Some(&x), "cek", "recipients get different content keys");
                            cek = Some(x);
                        }
                        Err(e) => return fail("wire", e),
                    }
                }
            }
            if let Some(x) = cek {
                ensure!(x.iter().any(|b| *b != x[0]), "weak-key", "content key of one repeated byte");
                put("content key", x)?;
            }
            ensure!(j.iv.iter().any(|b| *b != j.iv[0]), "weak-iv", "iv of one repeated byte");
            cur = match open_all(&j, kt, spk.as_deref(), &ps) {
                Ok(x) => x,
                Err(e) => return fail("wire", e),
            };
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C11
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Target {
    Subset,
    Stranger,
    WrongSecret,
    SpoilOne(u8),
    TwoDids(bool),
    NoFragment,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TargetCase {
    inn: InCase,
    x: Party,
    t: Target,
    lib: bool,
    mask: u8,
    all: bool,
}
fn target_case() -> BoxedStrategy<TargetCase> {
    let t = prop_oneof![
        4 => Just(Target::Subset),
        1 => Just(Target::Stranger),
        1 => Just(Target::WrongSecret),
        3 => (0u8..4).prop_map(Target::SpoilOne),
        2 => any::<bool>().prop_map(Target::TwoDids),
        1 => Just(Target::NoFragment),
    ];
    (in_case_of(small_message), party_with("did:example:stranger".into(), KA_KTS, 1..4, AUTH_KTS, 1..2, 1.0), t, any::<bool>(), any::<u8>(), any::<bool>())
        .prop_map(|(inn, x, t, lib, mask, all)| TargetCase { inn, x, t, lib, mask, all })
        .boxed()
}
fn check_target(c: &TargetCase, o: &mut Obs) -> Res {
    o.nt();
    let p = &c.inn.p;
    let n = format!("{:?}", c.t);
    o.label(n.split('(').next().unwrap_or("").to_string());
    p.label(o);
    let (msg, kids) = if c.lib {
        let (m, md) = p.packed()?;
        (m, md.to_kids)
    } else {
        let (m, t) = c.inn.build();
        (m, t.anon.or(t.auth.map(|a| (rf::Enc::Cbc, a.1, a.2))).unwrap().2)
    };
    let d = Dids::of(&[&p.s, &p.r, &c.x]);
    let uo = UnpackOptions { expect_decrypt_by_all_keys: c.all, unwrap_re_wrapping_forward: p.unwrap };
    let read = |m: &str, s: Vec<didcomm::secrets::Secret>| unpack(m, &d, &Secs::new(s).order(p.sec_order), &uo);
    let ok = |r: Result<(Message, didcomm::UnpackMetadata), didcomm::error::Error>, why: &str| -> Res {
        match r {
            Ok((m, _)) => {
                ensure_eq!(msg_json(&m)?, p.model(), "message", "{why}");
                Ok(())
            }
            Err(e) => fail("unpack-fails", format!("{why}: {e}")),
        }
    };
    let rk: Vec<&Key> = p.r.ka.iter().collect();
    let addressed = |k: &Key| kids.contains(&p.r.kid(k));
    match &c.t {
        Target::Subset => {
            // every subset of the key agreement keys; of many keys none, all, each one, all but one, and some
            let n = rk.len() as u32;
            let all = (1u32 << n) - 1;
            let masks: Vec<u32> = if n <= 5 {
                (0..=all).collect()
            } else {
                let one = (0..n).flat_map(|i| [1 << i, all & !(1 << i)]);
                let some = (1..9u32).map(|i| (c.mask as u32 * 257 + i).wrapping_mul(0x9e37_79b1) >> 7 & all);
                [0, all].into_iter().chain(one).chain(some).collect()
            };
            for mask in masks {
                o.inner += 1;
                let held: Vec<&&Key> = rk.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, k)| k).collect();
                let mut s: Vec<_> = held.iter().map(|k| p.r.secret(k)).collect();
                s.extend(p.r.auth.iter().map(|k| p.r.secret(k)));
                let r = read(&msg, s);
                if held.iter().any(|k| addressed(k)) {
                    ok(r, "holder of an addressed key")?;
                } else {
                    match r {
                        Ok(_) => return fail("read-without-key", "read without any addressed key"),
                        Err(e) => ensure_eq!(e.kind(), ErrorKind::SecretNotFound, "kind", "error for a party without the key ({e})"),
                    }
                }
            }
        }
        Target::Stranger => {
            let mut s = c.x.all_secrets();
            // the sender is no recipient either, unless it writes to itself
            if p.s.did != p.r.did {
                s.extend(p.s.all_secrets());
            }
            match read(&msg, s) {
                Ok(_) => return fail("read-without-key", "a stranger reads the message"),
                Err(e) => ensure_eq!(e.kind(), ErrorKind::SecretNotFound, "kind", "error for a stranger ({e})"),
            }
        }
        Target::WrongSecret => {
            // the right ids with other keys of the right type
            let s: Vec<_> = rk
                .iter()
                .map(|k| {
                    let mut q = p.r.clone();
                    q.salt ^= 1;
                    q.secret(k)
                })
                .collect();
            match read(&msg, s) {
                Ok(_) => return fail("read-without-key", "read with the wrong secret"),
                Err(e) => ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error for a wrong secret ({e})"),
            }
        }
        Target::SpoilOne(i) => {
            // entry i of the outermost envelope is spoilt
            let mut v = val(&msg)?;
            let i = *i as usize % kids.len();
            let spoilt = v["recipients"][i]["header"]["kid"].as_str().unwrap_or("").to_string();
            let mut ek = rf::unb64(v["recipients"][i]["encrypted_key"].as_str().unwrap_or("")).unwrap_or_default();
            if ek.is_empty() {
                return fail("wire", "no encrypted key");
            }
            let at = c.mask as usize % ek.len();
            ek[at] ^= 0x10;
            v["recipients"][i]["encrypted_key"] = json!(rf::b64(&ek));
            let bad = v.to_string();
            let held: Vec<&&Key> = rk.iter().enumerate().filter(|(i, k)| c.mask >> (i % 8) & 1 == 1 || (c.all && addressed(k) && c.mask & 0x80 != 0)).map(|(_, k)| k).collect();
            let good_held = held.iter().any(|k| addressed(k) && p.r.kid(k) != spoilt);
            let spoilt_held = held.iter().any(|k| p.r.kid(k) == spoilt);
            let r = read(&bad, held.iter().map(|k| p.r.secret(k)).collect());
            o.label(format!("spoil all={} good={good_held} spoilt={spoilt_held}", c.all));
            match (good_held, spoilt_held) {
                (false, false) => ensure!(r.is_err(), "read-without-key", "read without any addressed key"),
                (true, false) => ok(r, "an entry for a key the recipient does not hold is spoilt")?,
                (false, true) => ensure!(r.is_err(), "spoilt-accepted", "read through the spoilt entry"),
                (true, true) => {
                    // one key is enough; which one is tried is the library's choice, but not a spoilt one if another was found before
                    let asked: Vec<String> = v["recipients"].as_array().unwrap().iter().map(|r| r["header"]["kid"].as_str().unwrap_or("").to_string()).collect();
                    let asked: Vec<&str> = asked.iter().map(|s| &s[..]).collect();
                    let store = Secs::new(held.iter().map(|k| p.r.secret(k)).collect()).order(p.sec_order);
                    let first = block_on(store.find_secrets(&asked)).ok().and_then(|v| v.first().map(|s| s.to_string()));
                    if c.all {
                        ensure!(r.is_err(), "spoilt-accepted", "all held keys must decrypt, one cannot, and the message is accepted");
                    } else if first.as_ref() != Some(&spoilt) {
                        ok(r, "the first of the held keys can decrypt, and no more is demanded")?;
                    } else if r.is_ok() {
                        ok(r, "one of the held keys can decrypt")?;
                    }
                }
            }
        }
        Target::TwoDids(first) => {
            let kt = p.rkey().kt;
            let xk = Key { kt, fmt: Fmt::Jwk, sfmt: Fmt::Jwk, frag: "two".into(), secret: true };
            let mut rc = vec![rf::Rcpt { kid: p.r.kid(p.rkey()), pk: p.r.pk(p.rkey()) }];
            let at = if *first { 0 } else { 1 };
            rc.insert(at, rf::Rcpt { kid: c.x.kid(&xk), pk: c.x.pk(&xk) });
            let plain = p.model().to_string();
            let sk = p.s.sk(p.skey());
            let kid = p.s.kid(p.skey());
            let sender = p.from.map(|_| (&kid[..], &sk));
            let enc = if sender.is_some() { rf::Enc::Cbc } else { p.opts.anon };
            let m = rf::seal_jwe(plain.as_bytes(), enc, kt, &rc, sender, c.inn.seed, &Default::default(), &Default::default());
            match read(&m, p.r.all_secrets()) {
                Ok(_) => return fail("two-dids", "a message to keys of two DIDs is accepted"),
                Err(e) => ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error for recipients in two DIDs ({e})"),
            }
        }
        Target::NoFragment => {
            let k = p.rkey();
            let rc = vec![rf::Rcpt { kid: p.r.did.clone(), pk: p.r.pk(k) }];
            let plain = p.model().to_string();
            let m = rf::seal_jwe(plain.as_bytes(), p.opts.anon, k.kt, &rc, None, c.inn.seed, &Default::default(), &Default::default());
            let mut s = p.r.secret(k);
            s.id = p.r.did.clone();
            match read(&m, vec![s]) {
                Ok(_) => return fail("no-fragment", "a recipient that names no key is accepted"),
                Err(e) => ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error for a recipient that names no key ({e})"),
            }
        }
    }
    Ok(())
}
