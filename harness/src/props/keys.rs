//! C27: what a key is does not depend on how it is written down; what is no key is an error.
use super::common::*;
use super::fuzz::{SECRET_TYPES, VM_TYPES};
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::did::{DIDDoc, VerificationMaterial, VerificationMethod, VerificationMethodType};
use didcomm::error::{Error, ErrorKind};
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use didcomm::{FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C27",
        "equiv: a message between random parties packed and unpacked with the keys written in each of the nine combinations of forms in document and secrets, the two sides in different combinations, compared with each other and with the reference implementation; then the same with another key under the same id. material: one key of each type and form, right or with one defect (type label, codec, prefix, encoding, length, member, curve, point), on each side of encryption, authentication, signing and rotation, against an independent decoder. Non-trivial: equiv - the forms of the two sides differ; material - always.",
        vec![
            part!("equiv", 4000, 100000, |_| equiv_case(), check_equiv),
            part!("material", 80000, 1500000, |_| mat_case(), check_mat),
        ],
    )]
}

// ---------------------------------------------------------------- equiv
#[derive(Clone, Debug, Serialize, Deserialize)]
struct EquivCase {
    p: PackCase,
    shift: u8,
}
fn equiv_case() -> BoxedStrategy<EquivCase> {
    (pack_case(small_message), 1u8..9).prop_map(|(p, shift)| EquivCase { p, shift }).boxed()
}
const FMTS: [Fmt; 3] = [Fmt::Jwk, Fmt::B58, Fmt::Mb];
fn written(p: &Party, v: usize) -> Party {
    let mut p = p.clone();
    for (i, k) in p.ka.iter_mut().chain(p.auth.iter_mut()).enumerate() {
        if matches!(k.kt, Kt::X25519 | Kt::Ed25519) {
            k.fmt = FMTS[(v + i) % 3];
            k.sfmt = FMTS[(v / 3 + i) % 3];
        }
    }
    p
}
fn check_equiv(c: &EquivCase, o: &mut Obs) -> Res {
    if c.p.s.all_keys().chain(c.p.r.all_keys()).any(|k| matches!(k.kt, Kt::X25519 | Kt::Ed25519)) {
        o.nt();
    }
    c.p.label(o);
    let mut first: Option<(Value, Value)> = None;
    for v in 0..9 {
        let mut a = c.p.clone();
        a.s = written(&c.p.s, v);
        a.r = written(&c.p.r, (v + c.shift as usize * 2) % 9);
        let (msg, md) = match a.pack() {
            Ok(x) => x,
            Err(e) => return fail("pack-fails", format!("keys written in combination {v}: {e}")),
        };
        let t = read_tower(&msg, &[&c.p.s, &c.p.r]).map_err(|e| Fail { sig: "reference".into(), msg: format!("combination {v}: {e}") })?;
        ensure_eq!(val(&t.plain)?, c.p.model(), "reference", "content as the reference implementation reads it, combination {v}");
        let w = (v + c.shift as usize) % 9;
        let (s2, r2) = (written(&c.p.s, w), written(&c.p.r, w));
        let d = Dids::of(&[&s2, &r2]);
        o.inner += 2;
        match unpack(&msg, &d, &Secs::new(r2.all_secrets()), &c.p.unpack_opts()) {
            Ok((m, mut meta)) => {
                ensure_eq!(msg_json(&m)?, c.p.model(), "message", "packed with combination {v}, unpacked with {w}");
                meta.signed_message = None;
                let now = (serde_json::to_value(&meta).unwrap_or_default(), serde_json::to_value(&md).unwrap_or_default());
                if let Some(f) = &first {
                    ensure_eq!(now, *f, "metadata", "metadata of combination {v}/{w} differs from the first");
                }
                first = Some(now);
            }
            Err(e) => return fail("unpack-fails", format!("packed with combination {v}, unpacked with {w}: {e}")),
        }
        // another key under the same name opens nothing, however it is written
        let mut r3 = r2.clone();
        r3.salt = r3.salt.wrapping_add(1);
        if let Ok(x) = unpack(&msg, &d, &Secs::new(r3.all_secrets()), &c.p.unpack_opts()) {
            return fail("other-key", format!("opened with another key in combination {w}: {x:?}"));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- material
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Side {
    /// the recipient's key, as the sender sees it / as the recipient holds it
    ToPublic,
    ToSecret,
    /// the sender's key in authenticated encryption
    FromSecret,
    FromPublic,
    SignSecret,
    SignPublic,
    TokenSecret,
    TokenPublic,
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Bad {
    None,
    /// members a JWK may also have
    Extra(u8),
    Type(u8),
    Shorter(u8),
    Longer(u8),
    Codec(u8),
    Prefix(u8),
    Char(u8, u16),
    Drop(u8),
    Retype(u8, u8),
    Kty(u8),
    Crv(u8),
    OffCurve(u8),
    /// public material where a secret belongs and the other way round
    Crossed,
    Empty,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatCase {
    kt: Kt,
    fmt: Fmt,
    salt: u16,
    side: Side,
    bad: Bad,
    enc: rf::Enc,
}
fn mat_case() -> BoxedStrategy<MatCase> {
    let side = select(vec![Side::ToPublic, Side::ToSecret, Side::FromSecret, Side::FromPublic, Side::SignSecret, Side::SignPublic, Side::TokenSecret, Side::TokenPublic]);
    let bad = prop_oneof![
        3 => Just(Bad::None),
        1 => (0u8..5).prop_map(Bad::Extra),
        2 => (0u8..6).prop_map(Bad::Type),
        3 => (1u8..64).prop_map(Bad::Shorter),
        3 => (1u8..40).prop_map(Bad::Longer),
        2 => (0u8..12).prop_map(Bad::Codec),
        1 => (0u8..8).prop_map(Bad::Prefix),
        2 => (0u8..10, any::<u16>()).prop_map(|(a, b)| Bad::Char(a, b)),
        2 => (0u8..5).prop_map(Bad::Drop),
        2 => (0u8..5, 0u8..6).prop_map(|(a, b)| Bad::Retype(a, b)),
        1 => (0u8..4).prop_map(Bad::Kty),
        2 => (0u8..8).prop_map(Bad::Crv),
        1 => (0u8..4).prop_map(Bad::OffCurve),
        1 => Just(Bad::Crossed),
        1 => Just(Bad::Empty),
    ];
    (any::<u8>(), 0u16..500, side, bad, enc())
        .prop_flat_map(|(k, salt, side, bad, enc)| {
            let kts: &[Kt] = if matches!(side, Side::SignSecret | Side::SignPublic | Side::TokenSecret | Side::TokenPublic) { AUTH_KTS } else { KA_KTS };
            let kt = kts[k as usize % kts.len()];
            fmt_for(kt).prop_map(move |fmt| MatCase { kt, fmt, salt, side, bad: bad.clone(), enc })
        })
        .boxed()
}
/// The material as text or JWK.
enum M {
    Jwk(Value),
    B58(String),
    Mb(String),
}
/// (type index, material, whether it is still the right key) or None where the defect does not apply to this form
fn build(c: &MatCase, secret: bool, sk: &[u8; 32], pk: &[u8]) -> Option<(usize, M, bool)> {
    let crossed = c.bad == Bad::Crossed;
    if crossed && c.fmt == Fmt::Jwk && !secret {
        return None; // a JWK with d is still the public key it contains
    }
    if crossed && c.kt == Kt::X25519 && c.fmt == Fmt::B58 {
        return None; // 32 bytes either way
    }
    let as_secret = secret != crossed;
    let mut raw: Vec<u8> = match (as_secret, c.kt) {
        (true, Kt::Ed25519) => [&sk[..], pk].concat(),
        (true, _) => sk.to_vec(),
        (false, _) => pk.to_vec(),
    };
    let good = matches!(c.bad, Bad::None | Bad::Extra(_));
    let mut ty = match (c.fmt, c.kt) {
        (Fmt::Jwk, _) => 0,
        (Fmt::B58, Kt::X25519) => 1,
        (Fmt::B58, _) => 2,
        (Fmt::Mb, Kt::X25519) => 4,
        (Fmt::Mb, _) => 5,
    };
    if let Bad::Type(n) = c.bad {
        ty = (ty + 1 + n as usize) % 7;
    }
    if c.fmt == Fmt::Jwk {
        let mut j = rf::pub_jwk(c.kt, pk);
        if as_secret {
            j["d"] = json!(rf::b64(sk));
        }
        let mut names = vec!["kty", "crv", "x"];
        if j.get("y").is_some() {
            names.push("y");
        }
        if secret && !crossed {
            names.push("d");
        }
        let val_names: Vec<&str> = names[2..].to_vec();
        let at = |n: u8| names[n as usize % names.len()];
        let vat = |n: u8| val_names[n as usize % val_names.len()];
        let bytes = |j: &Value, k: &str| rf::unb64(j[k].as_str().unwrap_or("")).unwrap_or_default();
        match &c.bad {
            Bad::None | Bad::Type(_) | Bad::Crossed => {}
            Bad::Extra(n) => match n {
                0 => j["kid"] = json!("did:example:x#y"),
                1 => j["alg"] = json!("ECDH-ES+A256KW"),
                2 => j["ext"] = json!(true),
                3 => j["x5c"] = json!(["a", "b"]),
                _ => j["zz"] = json!({"a": [1, {"b": null}]}),
            },
            Bad::Shorter(n) => {
                let k = vat(*n);
                let mut b = bytes(&j, k);
                b.truncate(b.len().saturating_sub(1 + *n as usize / 4));
                j[k] = json!(rf::b64(&b));
            }
            Bad::Longer(n) => {
                let k = vat(*n);
                let mut b = bytes(&j, k);
                // in front as well as behind
                let more = vec![if n & 4 == 0 { 0 } else { 7 }; 1 + *n as usize / 8];
                b = if n & 2 == 0 { [more, b].concat() } else { [b, more].concat() };
                j[k] = json!(rf::b64(&b));
            }
            Bad::Char(n, i) => {
                let k = vat(*n);
                let mut s: Vec<char> = j[k].as_str()?.chars().collect();
                let i = *i as usize % s.len();
                let x = ['*', '+', '/', ' ', '.', 'é', '\n', '!', '%', ':'][*n as usize % 10];
                s[i] = x;
                j[k] = json!(s.into_iter().collect::<String>());
            }
            Bad::Drop(n) => {
                j.as_object_mut()?.remove(at(*n));
            }
            Bad::Retype(n, m) => {
                let k = at(*n);
                let old = j[k].clone();
                j[k] = match m {
                    0 => Value::Null,
                    1 => json!(1),
                    2 => json!(true),
                    3 => json!([old]),
                    4 => json!({"v": old}),
                    _ => json!([]),
                };
            }
            Bad::Kty(n) => j["kty"] = json!([if c.kt.kty() == "OKP" { "EC" } else { "OKP" }, "RSA", "oct", "okp"][*n as usize]),
            Bad::Crv(n) => {
                let o: Vec<&str> = ["X25519", "Ed25519", "P-256", "secp256k1", "P-384", "X448", "p-256", ""].into_iter().filter(|x| *x != c.kt.crv()).collect();
                j["crv"] = json!(o[*n as usize % o.len()]);
            }
            Bad::OffCurve(n) => {
                if c.kt.kty() == "OKP" {
                    return None;
                }
                let mut y = bytes(&j, "y");
                match n {
                    0 => y[31] ^= 1,
                    1 => y = bytes(&j, "x"),
                    2 => y = vec![0; 32],
                    _ => {
                        // (0, 0)
                        j["x"] = json!(rf::b64(&[0; 32]));
                        y = vec![0; 32]
                    }
                }
                j["y"] = json!(rf::b64(&y));
                rf::read_jwk(&j).is_none().then_some(())?;
            }
            Bad::Empty => j[vat(c.salt as u8)] = json!(""),
            Bad::Codec(_) | Bad::Prefix(_) => return None,
        }
        return Some((ty, M::Jwk(j), good));
    }
    match &c.bad {
        Bad::Shorter(n) => {
            let l = raw.len();
            raw.truncate(l - 1 - *n as usize % l)
        }
        Bad::Longer(n) => raw.extend(vec![if n & 1 == 0 { 0 } else { 9 }; *n as usize]),
        Bad::Empty => raw.clear(),
        Bad::Drop(_) | Bad::Retype(..) | Bad::Kty(_) | Bad::Crv(_) | Bad::OffCurve(_) | Bad::Extra(_) => return None,
        _ => {}
    }
    let spoil = |s: String| match c.bad {
        Bad::Char(n, i) => {
            let mut s: Vec<char> = s.chars().collect();
            let i = 1 + i as usize % (s.len() - 1).max(1);
            let x = ['0', 'O', 'I', 'l', ' ', '+', '/', 'é', '\n', '-'][n as usize % 10];
            if i < s.len() {
                s[i] = x
            }
            s.into_iter().collect()
        }
        _ => s,
    };
    if c.fmt == Fmt::B58 {
        if matches!(c.bad, Bad::Codec(_) | Bad::Prefix(_)) {
            return None;
        }
        return Some((ty, M::B58(spoil(bs58::encode(raw).into_string())), good));
    }
    let codecs: [&[u8]; 4] = [&[0xec, 0x01], &[0xed, 0x01], &[0x82, 0x26], &[0x80, 0x26]];
    let right = (if c.kt == Kt::X25519 { 0 } else { 1 }) + if as_secret { 2 } else { 0 };
    let codec: &[u8] = match c.bad {
        Bad::Codec(n) if n < 3 => codecs[(right + 1 + n as usize) % 4],
        Bad::Codec(n) => [&[][..], &[0xe7, 0x01], &[0x12], &[0x00], &[0xec], &[0xed, 0x81], &[0x80], &[0xff, 0xff, 0xff, 0xff, 0xff, 0x01], &[0x81, 0x26]][n as usize - 3],
        _ => codecs[right],
    };
    let mut s = spoil(multibase(codec, &raw));
    if let Bad::Prefix(n) = c.bad {
        let rest = s[1..].to_string();
        s = match n {
            0 => rest,
            1 => format!("Z{rest}"),
            2 => format!("m{rest}"),
            3 => format!("u{rest}"),
            4 => format!("f{rest}"),
            5 => format!(" z{rest}"),
            6 => String::new(),
            _ => format!("é{rest}"),
        };
        if s.starts_with('z') {
            return None;
        }
    }
    Some((ty, M::Mb(s), good))
}
fn msg() -> Message {
    Message::build("id".into(), "type".into(), json!({"k": 1})).finalize()
}
fn check_mat(c: &MatCase, o: &mut Obs) -> Res {
    // the key under test, and a good one of the other party
    let key = |fmt: Fmt| Key { kt: c.kt, fmt, sfmt: fmt, frag: "k".into(), secret: true };
    let party = |did: &str, fmt: Fmt| {
        let auth = matches!(c.side, Side::SignSecret | Side::SignPublic | Side::TokenSecret | Side::TokenPublic);
        let k = vec![key(fmt)];
        Party { did: did.into(), salt: c.salt, ka: if auth { vec![] } else { k.clone() }, auth: if auth { k } else { vec![] }, services: vec![], rot: 0, noise: vec![] }
    };
    let (s, r) = (party("did:example:s", Fmt::Jwk), party("did:example:r", Fmt::Jwk));
    let tested = if matches!(c.side, Side::ToPublic | Side::ToSecret) { &r } else { &s };
    let (sk, pk) = (tested.sk(&key(c.fmt)), tested.pk(&key(c.fmt)));
    let secret = matches!(c.side, Side::ToSecret | Side::FromSecret | Side::SignSecret | Side::TokenSecret);
    let Some((ty, m, good)) = build(c, secret, &sk, &pk) else { return Ok(()) };
    o.nt();
    o.label(format!("{:?}/{}/{:?}", c.side, c.kt.crv(), c.fmt));
    o.label(format!("{:?}", c.bad).split('(').next().unwrap_or("").to_string());
    let kid = tested.kid(&key(c.fmt));
    let mut docs: Vec<DIDDoc> = vec![s.doc(), r.doc()];
    let mut secrets: Vec<Secret> = s.all_secrets().into_iter().chain(r.all_secrets()).collect();
    let shown = match &m {
        M::Jwk(v) => v.to_string(),
        M::B58(v) | M::Mb(v) => v.clone(),
    };
    if secret {
        let x = secrets.iter_mut().find(|x| x.id == kid).unwrap();
        x.type_ = SECRET_TYPES[ty].clone();
        x.secret_material = match m {
            M::Jwk(v) => SecretMaterial::JWK { private_key_jwk: v },
            M::B58(v) => SecretMaterial::Base58 { private_key_base58: v },
            M::Mb(v) => SecretMaterial::Multibase { private_key_multibase: v },
        };
    } else {
        let x = docs.iter_mut().flat_map(|d| d.verification_method.iter_mut()).find(|x| x.id == kid).unwrap();
        x.type_ = VM_TYPES[ty].clone();
        x.verification_material = match m {
            M::Jwk(v) => VerificationMaterial::JWK { public_key_jwk: v },
            M::B58(v) => VerificationMaterial::Base58 { public_key_base58: v },
            M::Mb(v) => VerificationMaterial::Multibase { public_key_multibase: v },
        };
    }
    let (d, x) = (Dids::new(docs), Secs::new(secrets));
    let k = key(Fmt::Jwk);
    let (skid, rkid) = (s.kid(&k), r.kid(&k));
    let opts = PackEncryptedOptions { enc_alg_anon: anon_alg(c.enc), forward: false, ..PackEncryptedOptions::default() };
    let plain = json!({"id": "id", "typ": rf::TYP_PLAIN, "type": "type", "body": {"k": 1}}).to_string();
    let rc = || [rf::Rcpt { kid: rkid.clone(), pk: r.pk(&k) }];
    let no = Default::default();
    let no_t = Default::default();
    // the kind of the error, if it is the library's
    let kind = std::cell::Cell::new(None);
    let note = |e: Error| {
        kind.set(Some(e.kind()));
        e.to_string()
    };
    let opened = |t: Result<String, Error>| -> Result<String, String> {
        let t = t.map_err(note)?;
        read_tower(&t, &[&s, &r]).map(|t| t.plain).map_err(|e| format!("PACKED BUT UNREADABLE: {e}: {}", clip(&t, 1200)))
    };
    let got: Result<String, String> = match c.side {
        Side::ToPublic => opened(block_on(msg().pack_encrypted(&rkid, None, None, &d, &x, &opts)).map(|t| t.0)),
        Side::FromSecret => opened(block_on(msg().pack_encrypted(&rkid, Some(&skid), None, &d, &x, &opts)).map(|t| t.0)),
        Side::SignSecret => opened(block_on(msg().pack_signed(&skid, &d, &x)).map(|t| t.0)),
        Side::ToSecret | Side::FromPublic | Side::SignPublic => {
            let t = match c.side {
                Side::ToSecret => rf::seal_jwe(plain.as_bytes(), c.enc, c.kt, &rc(), None, c.salt as u64, &no, &no_t),
                Side::FromPublic => rf::seal_jwe(plain.as_bytes(), rf::Enc::Cbc, c.kt, &rc(), Some((&skid, &s.sk(&k))), c.salt as u64, &no, &no_t),
                _ => rf::seal_jws(plain.as_bytes(), &skid, c.kt, &s.sk(&k), None, &no),
            };
            unpack(&t, &d, &x, &UnpackOptions::default()).map_err(note).map(|m| serde_json::to_string(&m.0).unwrap_or_default())
        }
        Side::TokenSecret => block_on(FromPrior::build(s.did.clone(), r.did.clone()).finalize().pack(Some(&skid), &d, &x)).map_err(note).and_then(|(t, _)| {
            let (_, claims, ok) = rf::open_jwt(&t, c.kt, &s.pk(&k)).map_err(|e| format!("PACKED BUT UNREADABLE: {e}"))?;
            if ok && claims["iss"] == json!(s.did) { Ok(plain.clone()) } else { Err("PACKED BUT UNREADABLE: bad signature".into()) }
        }),
        Side::TokenPublic => {
            let t = rf::seal_jwt(&json!({"iss": s.did, "sub": r.did}).to_string(), &rf::jwt_header(&skid, c.kt), c.kt, &s.sk(&k));
            block_on(FromPrior::unpack(&t, &d)).map_err(note).map(|_| plain.clone())
        }
    };
    o.inner += 1;
    let ctx = format!("{:?} of a {} key, type {:?}, {:?}: {shown}", c.side, c.kt.crv(), if secret { format!("{:?}", SECRET_TYPES[ty]) } else { format!("{:?}", VM_TYPES[ty]) }, c.bad);
    match (good, got) {
        (true, Ok(t)) => ensure_eq!(val(&t)?, val(&plain)?, "content", "{ctx}"),
        (true, Err(e)) => return fail("good-refused", format!("{ctx}: {e}")),
        (false, Err(e)) => {
            ensure!(!e.starts_with("PACKED BUT"), "bad-used", "{ctx}: {e}");
            let blames = [ErrorKind::IoError, ErrorKind::DIDNotResolved, ErrorKind::DIDUrlNotFound, ErrorKind::SecretNotFound];
            ensure!(!kind.get().is_some_and(|k| blames.contains(&k)), "kind", "bad material is reported as {:?}: {ctx}: {e}", kind.get());
        }
        (false, Ok(_)) => return fail("bad-accepted", format!("material that is no such key is used: {ctx}")),
    }
    Ok(())
}
