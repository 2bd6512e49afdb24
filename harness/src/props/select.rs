//! C12, C13: which keys are used, and which calls are refused.
use super::common::*;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::did::{DIDDoc, VerificationMaterial, VerificationMethodType};
use didcomm::error::ErrorKind;
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C12",
            "Senders and recipients with 0-4 keys of any of four types for each purpose, any of whose secrets may be missing, unresolvable DIDs, and key ids that exist, exist for another purpose or do not exist; the outcome of packing is compared with a model of key selection. Non-trivial: the model predicts an error, or more than one key could have been chosen.",
            vec![part!("select", 140000, 1500000, |_| sel_case(), check_select)],
        ),
        prop(
            "C13",
            "Packable calls with one or more arguments made inconsistent: recipient, sender or signer not a DID, message audience without the recipient, message author other than the sender. Non-trivial: at least one argument spoilt; the rest are controls.",
            vec![part!("args", 100000, 1200000, |_| arg_case(), check_args)],
        ),
    ]
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Name {
    Did,
    /// one of the keys for the purpose
    Kid(u16),
    /// a key for the other purpose
    Wrong(u16),
    /// like one of the keys for the purpose
    Near(u16, u8, u16),
    Unknown,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SelCase {
    s: Party,
    r: Party,
    msg: Msg,
    to: Name,
    from: Option<Name>,
    sign: Option<Name>,
    s_known: bool,
    r_known: bool,
    opts: Opts,
    order: Order,
    /// key agreement keys (the recipient's?, which, how) that are described in a way the library knows nothing about (0-3),
    /// or not described at all (4)
    #[serde(default)]
    odd: Vec<(bool, u16, u8)>,
}
const ALL_KTS: &[Kt] = &[Kt::X25519, Kt::P256, Kt::X25519, Kt::P256, Kt::X25519, Kt::P256, Kt::K256, Kt::Ed25519];
const SIGN_KTS: &[Kt] = &[Kt::Ed25519, Kt::P256, Kt::K256, Kt::Ed25519, Kt::P256, Kt::K256, Kt::X25519];
fn name() -> impl Strategy<Value = Name> {
    prop_oneof![
        6 => Just(Name::Did),
        4 => any::<u16>().prop_map(Name::Kid),
        1 => any::<u16>().prop_map(Name::Wrong),
        1 => (any::<u16>(), any::<u8>(), any::<u16>()).prop_map(|(k, how, at)| Name::Near(k, how, at)),
        1 => Just(Name::Unknown),
    ]
}
fn sel_case() -> BoxedStrategy<SelCase> {
    (
        dids(2).prop_flat_map(|d| {
            (party_with(d[0].clone(), ALL_KTS, 0..5, SIGN_KTS, 0..4, 0.65), party_with(d[1].clone(), ALL_KTS, 0..5, AUTH_KTS, 0..2, 1.0))
        }),
        small_message(),
        name(),
        proptest::option::weighted(0.75, name()),
        proptest::option::weighted(0.4, name()),
        (proptest::bool::weighted(0.95), proptest::bool::weighted(0.95)),
        opts(),
        order(),
        prop_oneof![3 => Just(vec![]), 1 => vec((any::<bool>(), any::<u16>(), 0u8..4), 1..4), 1 => vec((any::<bool>(), any::<u16>(), 0u8..5), 1..3)],
    )
        .prop_map(|((s, r), msg, to, from, sign, (s_known, r_known), opts, order, odd)| SelCase { s, r, msg, to, from, sign, s_known, r_known, opts, order, odd })
        .boxed()
}
fn named(p: &Party, n: Name, own: &[Key], other: &[Key]) -> String {
    match n {
        Name::Did => p.did.clone(),
        Name::Kid(i) if !own.is_empty() => p.kid(pick(own, i)),
        Name::Near(i, how, at) if !own.is_empty() => format!("{}#{}", p.did, near(&pick(own, i).frag, how, at)),
        Name::Wrong(i) if !other.is_empty() => p.kid(pick(other, i)),
        _ => format!("{}#no-such-key", p.did),
    }
}
#[derive(Debug, Default)]
pub struct Model {
    pub errs: BTreeSet<String>,
    any_err: bool,
    /// several outcomes are acceptable
    open: bool,
    pub from: Option<String>,
    pub to: Vec<String>,
    pub sign: Option<String>,
    choices: usize,
}
impl SelCase {
    pub fn of(s: Party, r: Party, s_known: bool, r_known: bool, opts: Opts, order: Order) -> SelCase {
        let msg = Msg::bare();
        SelCase { s, r, msg, to: Name::Did, from: None, sign: None, s_known, r_known, opts, order, odd: vec![] }
    }
    /// how a key agreement key is described, if it is so in some special way
    fn odd(&self, recipient: bool, x: &Key) -> Option<u8> {
        let p = if recipient { &self.r } else { &self.s };
        self.odd.iter().filter(|o| o.0 == recipient && !p.ka.is_empty() && pick(&p.ka, o.1).frag == x.frag).map(|o| o.2).last()
    }
    fn doc(&self, recipient: bool) -> DIDDoc {
        let p = if recipient { &self.r } else { &self.s };
        let mut d = p.doc();
        for x in &p.ka {
            let Some(how) = self.odd(recipient, x) else { continue };
            let id = p.kid(x);
            if how == 4 {
                d.verification_method.retain(|v| v.id != id);
            }
            for v in d.verification_method.iter_mut().filter(|v| v.id == id) {
                let jwk = rf::pub_jwk(x.kt, &p.pk(x));
                let b58 = VerificationMaterial::Base58 { public_key_base58: bs58::encode(p.pk(x)).into_string() };
                (v.type_, v.verification_material) = match how {
                    0 => (VerificationMethodType::Other, v.verification_material.clone()),
                    1 => {
                        let mut j = jwk;
                        j["crv"] = serde_json::json!(if x.kt.kty() == "EC" { "P-384" } else { "X448" });
                        (VerificationMethodType::JsonWebKey2020, VerificationMaterial::JWK { public_key_jwk: j })
                    }
                    2 => (VerificationMethodType::X25519KeyAgreementKey2019, VerificationMaterial::JWK { public_key_jwk: jwk }),
                    _ => (VerificationMethodType::JsonWebKey2020, b58),
                };
            }
        }
        d
    }
    /// makes the recipient one about whom there is nothing to object
    pub fn forget_recipient(&mut self) {
        self.r_known = true;
        self.r.ka = vec![Key { kt: Kt::X25519, fmt: Fmt::Jwk, sfmt: Fmt::Jwk, frag: "k".into(), secret: true }];
    }
}
fn k(e: ErrorKind) -> String {
    format!("{e:?}")
}
fn ordered<'a>(p: &'a Party, keys: Vec<&'a Key>, o: Order) -> Vec<&'a Key> {
    let mut v: Vec<&Key> = keys.into_iter().filter(|x| x.secret).collect();
    match o {
        Order::Asked => {}
        Order::Reversed => v.reverse(),
        Order::Store => {
            let all: Vec<&Key> = p.all_keys().collect();
            v.sort_by_key(|x| all.iter().position(|y| y == x));
        }
    }
    v
}
pub fn model(c: &SelCase, to: &str, from: Option<&str>, sign: Option<&str>) -> Model {
    let mut m = Model::default();
    let enc = |kt: Kt| matches!(kt, Kt::X25519 | Kt::P256);
    // what the library can tell about a key
    let known = |x: &Key, y: &Key| x.kt == y.kt && c.odd(false, x).is_none() && c.odd(true, y).is_none();
    let bare = |r: bool, v: &[Key]| v.iter().any(|x| c.odd(r, x) == Some(4));
    // by key id: that key; by DID: every key for the purpose
    let of = |p: &Party, keys: &[Key], n: &str| -> Vec<Key> { keys.iter().filter(|x| n == p.did || p.kid(x) == n).cloned().collect() };
    if let Some(n) = sign {
        if !c.s_known {
            m.errs.insert(k(ErrorKind::DIDNotResolved));
        } else {
            let keys = of(&c.s, &c.s.auth, n);
            if keys.is_empty() && n != c.s.did {
                m.errs.insert(k(ErrorKind::DIDUrlNotFound));
            } else {
                let held = ordered(&c.s, keys.iter().collect(), c.order);
                match held.first() {
                    None => {
                        m.errs.insert(k(ErrorKind::SecretNotFound));
                    }
                    Some(x) if x.kt == Kt::X25519 => {
                        m.errs.insert(k(ErrorKind::Unsupported));
                        m.open |= held.iter().any(|y| y.kt != Kt::X25519);
                    }
                    Some(x) => m.sign = Some(c.s.kid(x)),
                }
                m.choices += held.len();
            }
        }
    }
    let rkeys = of(&c.r, &c.r.ka, to);
    if !c.r_known {
        m.errs.insert(k(ErrorKind::DIDNotResolved));
    } else if rkeys.is_empty() {
        m.errs.insert(k(ErrorKind::DIDUrlNotFound));
    }
    if let Some(n) = from {
        if !c.s_known {
            m.errs.insert(k(ErrorKind::DIDNotResolved));
        } else {
            let keys = of(&c.s, &c.s.ka, n);
            let held = ordered(&c.s, keys.iter().collect(), c.order);
            if keys.is_empty() {
                m.errs.insert(k(ErrorKind::DIDUrlNotFound));
            } else if held.is_empty() {
                m.errs.insert(k(ErrorKind::SecretNotFound));
            } else if bare(false, &keys) || bare(true, &rkeys) {
                // refused, or done without the keys that are not described
                m.any_err = true;
                m.open = true;
            } else if c.r_known && !rkeys.is_empty() {
                m.choices += held.len();
                // the first key held for which the recipient has one of the same type
                match held.iter().find(|x| rkeys.iter().any(|y| known(x, y))) {
                    None => {
                        m.errs.insert(k(ErrorKind::NoCompatibleCrypto));
                    }
                    Some(x) if enc(x.kt) => {
                        m.from = Some(c.s.kid(x));
                        m.to = rkeys.iter().filter(|y| known(x, y)).map(|y| c.r.kid(y)).collect();
                    }
                    Some(_) => {
                        // types that are of no use for key agreement
                        m.any_err = true;
                        m.open |= held.iter().any(|x| enc(x.kt) && rkeys.iter().any(|y| known(x, y)));
                    }
                }
            }
        }
    } else if c.r_known && bare(true, &rkeys) {
        m.any_err = true;
        m.open = true;
    } else if c.r_known && !rkeys.is_empty() {
        m.choices += rkeys.len();
        let rkeys: Vec<&Key> = rkeys.iter().filter(|y| c.odd(true, y).is_none()).collect();
        match rkeys.first() {
            Some(x) if enc(x.kt) => m.to = rkeys.iter().filter(|y| y.kt == x.kt).map(|y| c.r.kid(y)).collect(),
            _ => {
                m.any_err = true;
                m.open |= rkeys.iter().any(|y| enc(y.kt));
            }
        }
    }
    m
}
fn check_select(c: &SelCase, o: &mut Obs) -> Res {
    let to = named(&c.r, c.to, &c.r.ka, &c.r.auth);
    let from = c.from.map(|n| named(&c.s, n, &c.s.ka, &c.s.auth));
    let sign = c.sign.map(|n| named(&c.s, n, &c.s.auth, &c.s.ka));
    let m = model(c, &to, from.as_deref(), sign.as_deref());
    let mut docs = vec![];
    if c.s_known {
        docs.push(c.doc(false));
    }
    if c.r_known {
        docs.push(c.doc(true));
    }
    let d = Dids::new(docs);
    let s = Secs::of(&[&c.s]).order(c.order);
    let msg = c.msg.build(Some(&c.s.did), Some(vec![c.r.did.clone()]));
    let r = block_on(msg.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &s, &c.opts.build()));
    let must_fail = m.any_err || !m.errs.is_empty();
    if must_fail || m.choices > 1 {
        o.nt();
    }
    match &r {
        Ok((packed, md)) => {
            o.label("packed");
            for (recipient, p, kids) in [(false, &c.s, md.from_kid.iter().collect::<Vec<_>>()), (true, &c.r, md.to_kids.iter().collect())] {
                let x = p.ka.iter().find(|x| kids.contains(&&p.kid(x)) && c.odd(recipient, x).is_some());
                ensure!(x.is_none(), "undescribed-key", "the key {x:?} is used although its document does not describe it in a known way");
            }
            ensure!(!must_fail || m.open, "packed-anyway", "packing succeeded ({md:?}) where the model says {m:?}");
            if !must_fail {
                ensure_eq!(md.from_kid, m.from, "sender-key", "sender key");
                ensure_eq!(sorted(&md.to_kids), sorted(&m.to), "recipient-keys", "recipient keys");
                ensure_eq!(md.sign_by_kid, m.sign, "signing-key", "signing key");
            }
            match read_tower(packed, &[&c.s, &c.r]) {
                Ok(t) => {
                    ensure_eq!(t.auth.as_ref().map(|a| a.0.clone()), md.from_kid, "sender-key", "sender key on the wire");
                    ensure_eq!(t.sign.as_ref().map(|a| a.0.clone()), md.sign_by_kid, "signing-key", "signing key on the wire");
                    for kids in t.anon.iter().map(|a| &a.2).chain(t.auth.iter().map(|a| &a.2)) {
                        ensure_eq!(sorted(kids), sorted(&md.to_kids), "recipient-keys", "recipients on the wire");
                    }
                }
                Err(e) => return fail("wire", e),
            }
        }
        Err(e) => {
            o.label(format!("error {:?}", e.kind()));
            ensure!(must_fail || m.open, "refused", "packing failed with {e} where the model says {m:?}");
            if !m.any_err && !m.open {
                ensure!(m.errs.contains(&k(e.kind())), "kind", "error {e}, the model allows {:?}", m.errs);
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C13
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArgCase {
    p: PackCase,
    to: Option<String>,
    from: Option<String>,
    sign: Option<String>,
    head_to: Option<Vec<String>>,
    head_from: Option<String>,
}
const NOT_DIDS: &[&str] = &[
    "", " ", "did", "did:", "did:x", "not-a-did", "DID:example:x", "example:alice:did", "#key-1", "https://x:1:2", " did:example:bob",
    "Did:example:bob", "urn:did:example:bob", "bob", ":did:example:bob", "did example bob", "did;example;bob", "xdid:example:bob", "did2:example:bob",
];
fn arg_case() -> BoxedStrategy<ArgCase> {
    let bad = || proptest::option::weighted(0.2, prop_oneof![3 => select(NOT_DIDS.to_vec()).prop_map(String::from), 1 => "[a-z ]{0,9}"]);
    let near = || prop_oneof![select(DIDS.to_vec()).prop_map(String::from), Just("did:example:bobby".to_string()), Just("".to_string()), Just("CASE".into()), Just("TRIM".into()), Just("KID".into()), (0u8..10).prop_map(|i| format!("OWN {i}")), (any::<u8>(), 0u8..64).prop_map(|(h, a)| format!("NEAR {h} {a}"))];
    (pack_case(small_message), bad(), bad(), bad(), proptest::option::weighted(0.25, vec(near(), 0..3)), proptest::option::weighted(0.2, near()))
        .prop_map(|(p, to, from, sign, head_to, head_from)| ArgCase { p, to, from, sign, head_to, head_from })
        .boxed()
}
fn check_args(c: &ArgCase, o: &mut Obs) -> Res {
    let p = &c.p;
    let near = |s: &str, p: &Party| {
        let did = p.did.as_str();
        let n: Vec<usize> = s.split(' ').skip(1).filter_map(|x| x.parse().ok()).collect();
        match s.split(' ').next().unwrap_or("") {
        // one of the party's own keys
        "OWN" => p.all_keys().nth(n[0] % p.all_keys().count().max(1)).map_or(format!("{did}#k"), |k| p.kid(k)),
        "NEAR" => crate::gen::near(did, n[0] as u8, n[1] as u16),
        "CASE" => did.to_uppercase(),
        "TRIM" => did[..did.len() - did.chars().last().unwrap().len_utf8()].to_string(),
        "KID" => format!("{did}x"),
        _ => s.to_string(),
    }};
    let mut bad = 0;
    let mut msg = p.message();
    if let Some(t) = &c.head_to {
        let t: Vec<String> = t.iter().map(|x| near(x, &p.r)).filter(|x| *x != p.r.did).collect();
        msg.to = Some(t);
        bad += 1;
        o.label("audience");
    }
    if let Some(f) = &c.head_from {
        let f = near(f, &p.s);
        if p.from.is_some() && c.from.is_none() && f != p.s.did {
            msg.from = Some(f);
            bad += 1;
            o.label("author");
        }
    }
    let to = match &c.to {
        Some(t) => {
            bad += 1;
            o.label("to");
            t.clone()
        }
        None => p.to_s(),
    };
    let from = match &c.from {
        Some(t) => {
            bad += 1;
            o.label("from");
            Some(t.clone())
        }
        None => p.from_s(),
    };
    let sign = match &c.sign {
        Some(t) => {
            bad += 1;
            o.label("sign_by");
            Some(t.clone())
        }
        None => p.sign_s(),
    };
    let (d, s) = (p.dids(), Secs::of(&[&p.s]));
    if let Some(t) = &c.sign {
        match block_on(p.message().pack_signed(t, &d, &s)) {
            Ok(_) => return fail("accepted", format!("pack_signed by {t:?} succeeded")),
            Err(e) => ensure_eq!(e.kind(), ErrorKind::IllegalArgument, "kind", "pack_signed by {t:?} ({e})"),
        }
    }
    let r = block_on(msg.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &s, &p.opts.build()));
    if bad > 0 {
        o.nt();
        match r {
            Ok(_) => fail("accepted", format!("pack_encrypted(to {to:?}, from {from:?}, sign_by {sign:?}) with message.to {:?}, message.from {:?} succeeded", msg.to, msg.from)),
            Err(e) => {
                ensure_eq!(e.kind(), ErrorKind::IllegalArgument, "kind", "pack_encrypted(to {to:?}, from {from:?}, sign_by {sign:?}) with message.to {:?}, message.from {:?} ({e})", msg.to, msg.from);
                Ok(())
            }
        }
    } else {
        o.label("control");
        if let Err(e) = r {
            return fail("refused", format!("consistent arguments refused: {e}"));
        }
        Ok(())
    }
}
