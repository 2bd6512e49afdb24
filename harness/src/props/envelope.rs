//! C01-C06: what is packed is what is unpacked, by this library and by any other conforming implementation.
use super::common::*;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::algorithms::{AuthCryptAlg, SignAlg};
use didcomm::error::ErrorKind;
use didcomm::{Message, UnpackMetadata, UnpackOptions};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C01",
            "Plaintext messages over all headers, JSON bodies, attachments and custom headers, packed, compared member by member with the specification's JSON, and unpacked under every option and with resolvers that know nothing; plus the same JSON with the typ member left out or altered. Non-trivial: the message has custom headers, attachments, or a non-empty body (typ part: typ altered or omitted).",
            vec![
                part!("roundtrip", 60000, 1500000, |_| plain_case(), check_plain),
                part!("typ", 30000, 400000, |_| typ_case(), check_typ),
            ],
        ),
        prop(
            "C02",
            "A signer with 1-3 authentication keys (Ed25519, P-256, secp256k1; JWK, Base58, Multibase), signing by DID or by key id, any message; unpacked by a party holding no secrets. Non-trivial: always (every case signs and verifies).",
            vec![part!("roundtrip", 50000, 1000000, |_| sign_case(), check_sign)],
        ),
        prop(
            "C03",
            "Sender and recipient with 1-4 key agreement keys (X25519, P-256; JWK, Base58, Multibase) and 1-3 authentication keys; every combination of anoncrypt/authcrypt, DID/key id addressing, signing, sender protection, content encryption; unpacked with any subset of the recipient's secrets that contains an addressed key, under every unpack option. Non-trivial: always (every case encrypts and decrypts); labels give the mode distribution.",
            vec![part!("roundtrip", 45000, 900000, |_| pack_case_any(message), check_enc_roundtrip)],
        ),
        prop(
            "C04",
            "The cases of C03, with the metadata of packing and of unpacking compared with what the reference implementation reads from the packed bytes; plus signed-only messages. Non-trivial: always; labels give the mode distribution.",
            vec![
                part!("encrypted", 25000, 500000, |_| pack_case_any(small_message), check_metadata),
                part!("signed", 20000, 300000, |_| sign_case(), check_metadata_signed),
            ],
        ),
        prop(
            "C05",
            "Messages packed by the library in every mode are read by the independent reference implementation, which checks every member of every envelope, decrypts for every recipient and verifies the signature. Non-trivial: always.",
            vec![
                part!("encrypted", 30000, 600000, |_| pack_case_any(message), check_out),
                part!("signed", 20000, 300000, |_| sign_case(), check_out_signed),
            ],
        ),
        prop(
            "C06",
            "Messages packed by the independent reference implementation in every mode and layout (member order, whitespace, unknown members, optional members left out) are unpacked by the library. Non-trivial: always; labels give modes and layouts.",
            vec![part!("inbound", 40000, 900000, |_| in_case(), check_in)],
        ),
    ]
}

// ---------------------------------------------------------------- C01
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PlainCase {
    msg: Msg,
    from: Option<String>,
    to: Option<Vec<String>>,
}
pub fn plain_case() -> BoxedStrategy<PlainCase> {
    let did = || prop_oneof![3 => proptest::sample::select(DIDS.to_vec()).prop_map(String::from), 1 => text()];
    (message(), proptest::option::of(did()), proptest::option::of(proptest::collection::vec(did(), 0..4)))
        .prop_map(|(msg, from, to)| PlainCase { msg, from, to })
        .boxed()
}
fn all_unpack_opts() -> Vec<UnpackOptions> {
    let mut v = vec![];
    for a in [false, true] {
        for b in [false, true] {
            v.push(UnpackOptions { expect_decrypt_by_all_keys: a, unwrap_re_wrapping_forward: b });
        }
    }
    v
}
pub fn check_plain(c: &PlainCase, o: &mut Obs) -> Res {
    if c.msg.rich() {
        o.nt();
    }
    if c.msg.atts.as_ref().map_or(false, |a| !a.is_empty()) {
        o.label("attachments");
    }
    if !c.msg.extra.is_empty() {
        o.label("custom-headers");
    }
    let m = c.msg.build(c.from.as_deref(), c.to.clone());
    let plan = Plan::default();
    let (d, s) = (Dids::new(vec![]).with(&plan), Secs::new(vec![]).with(&plan));
    let p = match block_on(m.pack_plaintext(&d)) {
        Ok(p) => p,
        Err(e) => return fail("pack-fails", format!("pack_plaintext failed: {e}")),
    };
    ensure_eq!(val(&p)?, c.msg.model(c.from.as_deref(), c.to.as_deref(), None), "wire", "packed plaintext differs from the message");
    for uo in all_unpack_opts() {
        o.inner += 1;
        match unpack(&p, &d, &s, &uo) {
            Ok((got, meta)) => {
                ensure_eq!(got, m, "message", "unpacked message differs");
                ensure_eq!(meta, empty_meta(), "metadata", "plaintext metadata claims protection");
            }
            Err(e) => return fail("unpack-fails", format!("unpack of {} failed: {e}", clip(&p, 1500))),
        }
    }
    ensure!(plan.calls().is_empty(), "resolver-used", "plaintext consulted a resolver: {:?}", plan.calls());
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TypCase {
    msg: Msg,
    typ: Option<Value>,
}
fn typ_case() -> BoxedStrategy<TypCase> {
    let t = prop_oneof![
        2 => Just(None),
        1 => Just(Some(json!(rf::TYP_PLAIN))),
        4 => proptest::sample::select(vec!["", "application/didcomm-plain+json ", "Application/didcomm-plain+json", "didcomm-plain+json", "application/didcomm-plain", "application/didcomm-signed+json", "application/didcomm-encrypted+json", "application/json", "JWT", "application/didcomm-plain+json;charset=utf-8"]).prop_map(|s| Some(json!(s))),
        1 => text().prop_map(|s| Some(json!(s))),
        1 => json_value().prop_map(Some),
    ];
    (small_message(), t).prop_map(|(msg, typ)| TypCase { msg, typ }).boxed()
}
fn check_typ(c: &TypCase, o: &mut Obs) -> Res {
    let mut j = c.msg.model(None, None, None);
    match &c.typ {
        None => {
            j.as_object_mut().unwrap().remove("typ");
        }
        Some(t) => j["typ"] = t.clone(),
    }
    let good = c.typ.as_ref().map_or(true, |t| t == rf::TYP_PLAIN);
    o.label(if good { "accepted" } else { "rejected" });
    if c.typ.as_ref().map_or(true, |t| t != rf::TYP_PLAIN) {
        o.nt();
    }
    let r = unpack(&j.to_string(), &Dids::new(vec![]), &Secs::new(vec![]), &UnpackOptions::default());
    match r {
        Ok((m, _)) => {
            ensure!(good, "typ-accepted", "a message with typ {:?} was accepted as plaintext", c.typ);
            ensure_eq!(m, c.msg.build(None, None), "message", "unpacked message differs");
        }
        Err(e) => {
            ensure!(!good, "unpack-fails", "typ {:?} was rejected: {e}", c.typ);
            ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "wrong error kind for typ {:?}", c.typ);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C02
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SignCase {
    pub s: Party,
    pub msg: Msg,
    pub ai: u16,
    pub sign: By,
    pub set_from: bool,
    pub to: Option<Vec<String>>,
    pub order: Order,
}
pub fn sign_case() -> BoxedStrategy<SignCase> {
    (
        parties(1),
        message(),
        idx(),
        by(),
        any::<bool>(),
        proptest::option::of(proptest::collection::vec(proptest::sample::select(DIDS.to_vec()).prop_map(String::from), 0..3)),
        order(),
    )
        .prop_map(|(mut p, msg, ai, sign, set_from, to, order)| SignCase { s: p.remove(0), msg, ai, sign, set_from, to, order })
        .boxed()
}
impl SignCase {
    pub fn akey(&self) -> &Key {
        pick(&self.s.auth, self.ai)
    }
    pub fn message(&self) -> Message {
        self.msg.build(self.set_from.then_some(&self.s.did[..]), self.to.clone())
    }
    pub fn model(&self) -> Value {
        self.msg.model(self.set_from.then_some(&self.s.did[..]), self.to.as_deref(), None)
    }
    pub fn pack(&self) -> Res<(String, String)> {
        let by = match self.sign {
            By::Did => self.s.did.clone(),
            By::Kid => self.s.kid(self.akey()),
        };
        let r = block_on(self.message().pack_signed(&by, &Dids::of(&[&self.s]), &Secs::of(&[&self.s]).order(self.order)));
        match r {
            Ok((m, md)) => Ok((m, md.sign_by_kid)),
            Err(e) => fail("pack-fails", format!("pack_signed failed: {e}")),
        }
    }
}
fn check_sign(c: &SignCase, o: &mut Obs) -> Res {
    o.nt();
    o.label(c.akey().kt.sign_alg());
    o.label(format!("{:?}/{:?}", c.akey().fmt, c.akey().sfmt));
    let (p, kid) = c.pack()?;
    for uo in all_unpack_opts() {
        o.inner += 1;
        match unpack(&p, &Dids::of(&[&c.s]), &Secs::new(vec![]), &uo) {
            Ok((got, meta)) => {
                ensure_eq!(got, c.message(), "message", "unpacked message differs");
                ensure_eq!(msg_json(&got)?, c.model(), "message-json", "unpacked message differs from the model");
                ensure!(meta.non_repudiation && meta.authenticated && !meta.encrypted, "metadata", "signed message reported as {meta:?}");
                ensure_eq!(meta.sign_from.as_deref(), Some(&kid[..]), "signer", "signer");
            }
            Err(e) => return fail("unpack-fails", format!("unpack of a signed message failed: {e}")),
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C03
fn check_enc_roundtrip(c: &PackCase, o: &mut Obs) -> Res {
    o.nt();
    c.label(o);
    let (p, md) = c.packed()?;
    match unpack(&p, &c.dids(), &c.holder(&md.to_kids), &c.unpack_opts()) {
        Ok((got, _)) => {
            ensure_eq!(got, c.message(), "message", "unpacked message differs");
            ensure_eq!(msg_json(&got)?, c.model(), "message-json", "unpacked message differs from the model");
        }
        Err(e) => return fail("unpack-fails", format!("the recipient cannot unpack: {e}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- C04
pub fn sign_alg(kt: Kt) -> SignAlg {
    match kt {
        Kt::Ed25519 => SignAlg::EdDSA,
        Kt::P256 => SignAlg::ES256,
        _ => SignAlg::ES256K,
    }
}
/// The metadata a tower of envelopes must be reported with.
pub fn meta_of(t: &Tower) -> UnpackMetadata {
    let mut m = empty_meta();
    if let Some((enc, _, kids)) = &t.anon {
        m.encrypted = true;
        m.anonymous_sender = true;
        m.enc_alg_anon = Some(anon_alg(*enc));
        m.encrypted_to_kids = Some(kids.clone());
    }
    if let Some((skid, _, kids)) = &t.auth {
        m.encrypted = true;
        m.authenticated = true;
        m.encrypted_from_kid = Some(skid.clone());
        m.enc_alg_auth = Some(AuthCryptAlg::A256cbcHs512Ecdh1puA256kw);
        m.encrypted_to_kids = Some(kids.clone());
    }
    if let Some((kid, kt, jws)) = &t.sign {
        m.authenticated = true;
        m.non_repudiation = true;
        m.sign_from = Some(kid.clone());
        m.sign_alg = Some(sign_alg(*kt));
        m.signed_message = Some(jws.clone());
    }
    m
}
fn check_metadata(c: &PackCase, o: &mut Obs) -> Res {
    o.nt();
    c.label(o);
    let (p, md) = c.packed()?;
    let t = match read_tower(&p, &[&c.s, &c.r]) {
        Ok(t) => t,
        Err(e) => return fail("wire", format!("reference implementation cannot read the packed message: {e}")),
    };
    // what packing says it did
    let kids = t.auth.as_ref().map(|a| &a.2).or(t.anon.as_ref().map(|a| &a.2)).cloned().unwrap_or_default();
    ensure_eq!(sorted(&md.to_kids), sorted(&kids), "pack-to-kids", "to_kids");
    ensure_eq!(md.from_kid, t.auth.as_ref().map(|a| a.0.clone()), "pack-from-kid", "from_kid");
    ensure_eq!(md.sign_by_kid, t.sign.as_ref().map(|a| a.0.clone()), "pack-sign-kid", "sign_by_kid");
    ensure!(md.messaging_service.is_none(), "pack-service", "no service is declared, but {:?} is reported", md.messaging_service);
    // the layers are the ones asked for
    ensure_eq!(t.auth.is_some(), c.from.is_some(), "layers", "authcrypt layer");
    ensure_eq!(t.anon.is_some(), c.from.is_none() || c.opts.protect_sender, "layers", "anoncrypt layer");
    ensure_eq!(t.sign.is_some(), c.sign.is_some(), "layers", "signature layer");
    if let Some((enc, _, _)) = &t.anon {
        ensure_eq!(*enc, c.opts.anon, "anon-alg", "content encryption");
    }
    // what unpacking says
    let (got, meta) = match unpack(&p, &c.dids(), &c.holder(&md.to_kids), &c.unpack_opts()) {
        Ok(x) => x,
        Err(e) => return fail("unpack-fails", format!("the recipient cannot unpack: {e}")),
    };
    let (mut meta, mut want) = (meta, meta_of(&t));
    for m in [&mut meta, &mut want] {
        if let Some(k) = &mut m.encrypted_to_kids {
            k.sort();
        }
    }
    ensure_eq!(meta, want, "metadata", "unpack metadata");
    if let Some(j) = &meta.signed_message {
        // the returned evidence stands alone
        match unpack(j, &Dids::of(&[&c.s]), &Secs::new(vec![]), &UnpackOptions::default()) {
            Ok((m2, md2)) => {
                ensure_eq!(m2, got, "evidence", "signed_message carries another message");
                ensure_eq!(md2.sign_from, meta.sign_from, "evidence", "signed_message signer");
            }
            Err(e) => return fail("evidence", format!("signed_message does not verify by itself: {e}")),
        }
    }
    Ok(())
}
fn check_metadata_signed(c: &SignCase, o: &mut Obs) -> Res {
    o.nt();
    o.label(c.akey().kt.sign_alg());
    let (p, kid) = c.pack()?;
    let (_, meta) = match unpack(&p, &Dids::of(&[&c.s]), &Secs::new(vec![]), &UnpackOptions::default()) {
        Ok(x) => x,
        Err(e) => return fail("unpack-fails", format!("unpack of a signed message failed: {e}")),
    };
    let t = match read_tower(&p, &[&c.s]) {
        Ok(t) => t,
        Err(e) => return fail("wire", format!("reference implementation cannot read the packed message: {e}")),
    };
    ensure_eq!(meta, meta_of(&t), "metadata", "unpack metadata");
    ensure_eq!(Some(kid), meta.sign_from, "pack-sign-kid", "sign_by_kid");
    Ok(())
}

// ---------------------------------------------------------------- C05
fn check_out(c: &PackCase, o: &mut Obs) -> Res {
    o.nt();
    c.label(o);
    let (p, _) = c.packed()?;
    let t = match read_tower(&p, &[&c.s, &c.r]) {
        Ok(t) => t,
        Err(e) => return fail("wire", format!("reference implementation rejects the packed message: {e}\n{}", clip(&p, 3000))),
    };
    ensure_eq!(val(&t.plain)?, c.model(), "plaintext", "decrypted plaintext");
    ensure_eq!(
        (t.anon.is_some(), t.auth.is_some(), t.sign.is_some()),
        (c.from.is_none() || c.opts.protect_sender, c.from.is_some(), c.sign.is_some()),
        "layers",
        "anoncrypt / authcrypt / signature layers"
    );
    // recipients are exactly the addressed keys: the key itself, or every key of one kind of the recipient's
    for (kt, kids) in t.anon.iter().map(|a| (a.1, &a.2)).chain(t.auth.iter().map(|a| (a.1, &a.2))) {
        let want: Vec<String> = match c.to {
            By::Kid => vec![c.to_s()],
            By::Did => c.r.ka.iter().filter(|k| k.kt == kt).map(|k| c.r.kid(k)).collect(),
        };
        ensure_eq!(sorted(kids), sorted(&want), "recipients", "recipient list");
    }
    if let Some((skid, _, _)) = &t.auth {
        if c.from == Some(By::Kid) {
            ensure_eq!(*skid, c.s.kid(c.skey()), "skid", "sender key");
        } else {
            ensure!(c.s.ka.iter().any(|k| c.s.kid(k) == *skid), "skid", "{skid} is not the sender's");
        }
    }
    if let Some((kid, _, _)) = &t.sign {
        if c.sign == Some(By::Kid) {
            ensure_eq!(*kid, c.s.kid(c.akey()), "signer", "signing key");
        }
    }
    if let Some((enc, _, _)) = &t.anon {
        ensure_eq!(*enc, c.opts.anon, "enc", "content encryption asked for");
    }
    Ok(())
}
fn check_out_signed(c: &SignCase, o: &mut Obs) -> Res {
    o.nt();
    o.label(c.akey().kt.sign_alg());
    let (p, _) = c.pack()?;
    let t = match read_tower(&p, &[&c.s]) {
        Ok(t) => t,
        Err(e) => return fail("wire", format!("reference implementation rejects the signed message: {e}\n{}", clip(&p, 3000))),
    };
    let Some((kid, _, _)) = &t.sign else { return fail("layers", "not a signed message") };
    ensure!(t.anon.is_none() && t.auth.is_none(), "layers", "a signed message is encrypted");
    if c.sign == By::Kid {
        ensure_eq!(*kid, c.s.kid(c.akey()), "signer", "signing key");
    }
    ensure_eq!(val(&t.plain)?, c.model(), "plaintext", "signed payload");
    Ok(())
}

// ---------------------------------------------------------------- C06
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InCase {
    pub p: PackCase,
    pub layouts: [rf::Layout; 3],
    pub seed: u64,
    /// address every key of the kind, in an order of the sender's choosing
    pub shuffle: u8,
    pub plain_rot: u8,
}
pub fn in_case() -> BoxedStrategy<InCase> {
    in_case_of(message)
}
pub fn in_case_of(msgs: fn() -> BoxedStrategy<Msg>) -> BoxedStrategy<InCase> {
    (pack_case_any(msgs), [layout(), layout(), layout()], any::<u64>(), 0u8..4, 0u8..4)
        .prop_map(|(p, layouts, seed, shuffle, plain_rot)| InCase { p, layouts, seed, shuffle, plain_rot })
        .boxed()
}
impl InCase {
    /// Packs with the reference implementation.
    pub fn build(&self) -> (String, Tower) {
        self.build_with(&|_, s| s)
    }
    /// Packs with the reference implementation, passing the output of each layer ("sign", "auth", "anon") through `f`.
    pub fn build_with(&self, f: &dyn Fn(&str, String) -> String) -> (String, Tower) {
        let c = &self.p;
        let kt = c.rkey().kt;
        let mut keys: Vec<&Key> = match c.to {
            By::Kid => vec![c.rkey()],
            By::Did => c.r.ka.iter().filter(|k| k.kt == kt).collect(),
        };
        let n = keys.len();
        keys.rotate_left(self.shuffle as usize % n);
        if self.shuffle & 1 == 1 {
            keys.reverse();
        }
        let rc: Vec<rf::Rcpt> = keys.iter().map(|k| rf::Rcpt { kid: c.r.kid(k), pk: c.r.pk(k) }).collect();
        let kids: Vec<String> = rc.iter().map(|r| r.kid.clone()).collect();
        let model = c.model();
        let members: Vec<(&str, String)> = model.as_object().unwrap().iter().map(|(k, v)| (k.as_str(), v.to_string())).collect();
        let pl = rf::Layout { rotate: self.plain_rot, pretty: self.layouts[2].pretty, ..Default::default() };
        let mut cur = f("plain", rf::ser(&members, &pl, true));
        let mut t = Tower { plain: cur.clone(), ..Default::default() };
        if c.sign.is_some() {
            let k = c.akey();
            let mut l = self.layouts[0].clone();
            l.omit_typ = false; // a JWS without typ is not accepted by this library; the specification recommends it
            cur = rf::seal_jws(cur.as_bytes(), &c.s.kid(k), k.kt, &c.s.sk(k), None, &l);
            cur = f("sign", cur);
            t.sign = Some((c.s.kid(k), k.kt, cur.clone()));
        }
        if c.from.is_some() {
            let k = c.skey();
            cur = rf::seal_jwe(cur.as_bytes(), rf::Enc::Cbc, kt, &rc, Some((&c.s.kid(k), &c.s.sk(k))), self.seed, &self.layouts[1], &rf::Tweak::default());
            cur = f("auth", cur);
            t.auth = Some((c.s.kid(k), kt, kids.clone()));
        }
        if c.from.is_none() || c.opts.protect_sender {
            cur = rf::seal_jwe(cur.as_bytes(), c.opts.anon, kt, &rc, None, self.seed ^ 1, &self.layouts[2], &rf::Tweak::default());
            cur = f("anon", cur);
            t.anon = Some((c.opts.anon, kt, kids));
        }
        (cur, t)
    }
}
pub fn check_in(ic: &InCase, o: &mut Obs) -> Res {
    o.nt();
    let c = &ic.p;
    c.label(o);
    if ic.layouts.iter().any(|l| l.extra) {
        o.label("unknown-members");
    }
    let (msg, t) = ic.build();
    let kids = t.anon.as_ref().map(|a| a.2.clone()).or(t.auth.as_ref().map(|a| a.2.clone())).unwrap();
    match unpack(&msg, &c.dids(), &c.holder(&kids), &c.unpack_opts()) {
        Ok((got, meta)) => {
            ensure_eq!(msg_json(&got)?, c.model(), "message", "unpacked message");
            ensure_eq!(got, c.message(), "message", "unpacked message");
            ensure_eq!(meta, meta_of(&t), "metadata", "unpack metadata");
        }
        Err(e) => return fail("unpack-fails", format!("a conforming message is rejected: {e}\n{}", clip(&msg, 3000))),
    }
    Ok(())
}
