//! C14, C15: DID rotation tokens.
use super::common::*;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::error::ErrorKind;
use didcomm::{FromPrior, Message, UnpackOptions};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C14",
            "Rotation tokens over all claims, issued by key id or by DID with 1-3 authentication keys of three types; read back by the library and by the reference implementation; tokens of the reference implementation in any member order with unknown claims; 1-5 alterations each; issuer claims contradicting the signing key; invalid issuers, subjects and keys. Non-trivial: always; labels give the scenarios.",
            vec![
                part!("roundtrip", 32000, 600000, |_| prior_case(), check_prior),
                part!("alter", 20000, 400000, |_| alter_case(), check_alter),
                part!("refuse", 60000, 900000, |_| refuse_case(), check_refuse),
            ],
        ),
        prop(
            "C15",
            "Messages carrying a rotation token (genuine, altered, for another subject, forged by a third party) or none, in plaintext, signed and encrypted form, packed and unpacked. Non-trivial: always; labels give the scenarios.",
            vec![part!("carry", 40000, 600000, |_| carry_case(), check_carry)],
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Claims {
    pub aud: Option<String>,
    pub exp: Option<u64>,
    pub nbf: Option<u64>,
    pub iat: Option<u64>,
    pub jti: Option<String>,
}
pub fn claims() -> impl Strategy<Value = Claims> {
    (proptest::option::of(text()), proptest::option::of(num()), proptest::option::of(num()), proptest::option::of(num()), proptest::option::of(text()))
        .prop_map(|(aud, exp, nbf, iat, jti)| Claims { aud, exp, nbf, iat, jti })
}
impl Claims {
    pub fn build(&self, iss: &str, sub: &str) -> FromPrior {
        let mut b = FromPrior::build(iss.into(), sub.into());
        if let Some(x) = &self.aud { b = b.aud(x.clone()); }
        if let Some(x) = self.exp { b = b.exp(x); }
        if let Some(x) = self.nbf { b = b.nbf(x); }
        if let Some(x) = self.iat { b = b.iat(x); }
        if let Some(x) = &self.jti { b = b.jti(x.clone()); }
        b.finalize()
    }
    pub fn model(&self, iss: &str, sub: &str) -> Map<String, Value> {
        let mut m = Map::new();
        m.insert("iss".into(), json!(iss));
        m.insert("sub".into(), json!(sub));
        put(&mut m, "aud", &self.aud);
        put(&mut m, "exp", &self.exp);
        put(&mut m, "nbf", &self.nbf);
        put(&mut m, "iat", &self.iat);
        put(&mut m, "jti", &self.jti);
        m
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PriorCase {
    pub i: Party,
    sub: String,
    ai: u16,
    by_kid: bool,
    c: Claims,
    order: Order,
    pub l: rf::Layout,
}
pub fn prior_case() -> BoxedStrategy<PriorCase> {
    (
        dids(2).prop_flat_map(|d| (party(d[0].clone()), Just(d[1].clone()))),
        idx(),
        any::<bool>(),
        claims(),
        order(),
        layout(),
    )
        .prop_map(|((i, sub), ai, by_kid, c, order, l)| PriorCase { i, sub, ai, by_kid, c, order, l })
        .boxed()
}
impl PriorCase {
    fn key(&self) -> &Key {
        pick(&self.i.auth, self.ai)
    }
    pub fn kid(&self) -> String {
        self.i.kid(self.key())
    }
    pub fn prior(&self) -> FromPrior {
        self.c.build(&self.i.did, &self.sub)
    }
    /// Issued by the reference implementation.
    pub fn jwt(&self, l: &rf::Layout) -> String {
        let k = self.key();
        let q = |v: &Value| v.to_string();
        let h = rf::jwt_header(&self.kid(), k.kt);
        let h: Vec<(&str, String)> = h.iter().map(|(a, b)| (a.as_str(), q(b))).collect();
        let m = self.c.model(&self.i.did, &self.sub);
        let m: Vec<(&str, String)> = m.iter().map(|(a, b)| (a.as_str(), q(b))).collect();
        let (h, p) = (rf::b64(rf::ser(&h, l, false).as_bytes()), rf::b64(rf::ser(&m, l, true).as_bytes()));
        let s = rf::b64(&rf::sign_raw(k.kt, &self.i.sk(k), format!("{h}.{p}").as_bytes()));
        format!("{h}.{p}.{s}")
    }
}
pub fn check_prior(c: &PriorCase, o: &mut Obs) -> Res {
    o.nt();
    o.label(c.key().kt.sign_alg());
    o.label(if c.by_kid { "by key" } else { "by DID" });
    let d = Dids::of(&[&c.i]);
    let s = Secs::of(&[&c.i]).order(c.order);
    let want = c.prior();
    let kid = c.kid();
    let (jwt, used) = match block_on(want.pack(c.by_kid.then_some(&kid[..]), &d, &s)) {
        Ok(x) => x,
        Err(e) => return fail("pack-fails", format!("{e}")),
    };
    if c.by_kid {
        ensure_eq!(used, kid, "issuer-kid", "issuer key used");
    }
    // on the wire
    let ps = [&c.i];
    let Some((p, k)) = key_by_kid(&ps, &used) else { return fail("issuer-kid", format!("unknown issuer key {used}")) };
    ensure!(p.auth.contains(k), "issuer-kid", "{used} is not an authentication key");
    match rf::open_jwt(&jwt, k.kt, &p.pk(k)) {
        Ok((h, m, valid)) => {
            ensure!(valid, "wire", "the token's signature does not verify");
            ensure_eq!(h, Value::Object(rf::jwt_header(&used, k.kt)), "wire", "token header");
            ensure_eq!(m, Value::Object(c.c.model(&c.i.did, &c.sub)), "wire", "token claims");
        }
        Err(e) => return fail("wire", e),
    }
    for (j, kid) in [(jwt, used), (c.jwt(&c.l), c.kid())] {
        match block_on(FromPrior::unpack(&j, &d)) {
            Ok((got, k)) => {
                ensure_eq!(got, want, "claims", "claims read back");
                ensure_eq!(k, kid, "issuer-kid", "issuer key reported");
            }
            Err(e) => return fail("unpack-fails", format!("{e}: {j}")),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Alter {
    Flip(u8, u16, u8),
    Cut(u8, u8),
    /// the text of a segment, not its bytes
    Text(u8, u8, u16),
    Segments(u8),
    Alg(String),
    Typ(Option<String>),
    Kid(u8),
    Claim(String),
    /// another party's claims, properly signed by this one
    Issuer,
    OtherSigner,
    SigFill(u8),
    DropHeader(u8),
    /// the token stays, the issuer's document no longer lists the key (for this purpose)
    Document(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct AlterCase {
    p: PriorCase,
    m: Party,
    a: Vec<Alter>,
}
fn alter_case() -> BoxedStrategy<AlterCase> {
    let a = prop_oneof![
        4 => (0u8..3, any::<u16>(), 0u8..8).prop_map(|(a, b, c)| Alter::Flip(a, b, c)),
        1 => (0u8..3, 1u8..10).prop_map(|(a, b)| Alter::Cut(a, b)),
        2 => (0u8..5, 0u8..6, any::<u16>()).prop_map(|(a, b, c)| Alter::Text(a, b, c)),
        1 => (0u8..5).prop_map(Alter::Segments),
        2 => select(vec!["EdDSA", "ES256", "ES256K", "none", "HS256", ""]).prop_map(|s| Alter::Alg(s.into())),
        1 => proptest::option::of(select(vec!["jwt", "JWM", "", "JWT "]).prop_map(String::from)).prop_map(Alter::Typ),
        2 => (0u8..6).prop_map(Alter::Kid),
        2 => select(vec!["iss", "sub", "exp", "nbf", "aud", "x"]).prop_map(|s| Alter::Claim(s.into())),
        2 => Just(Alter::Issuer),
        1 => Just(Alter::OtherSigner),
        1 => any::<u8>().prop_map(Alter::SigFill),
        1 => (0u8..3).prop_map(Alter::DropHeader),
        2 => (0u8..5).prop_map(Alter::Document),
    ];
    (prior_case(), party("did:example:mallory".into()), vec(a, 1..6)).prop_map(|(p, m, a)| AlterCase { p, m, a }).boxed()
}
fn alter(c: &AlterCase, a: &Alter) -> Option<String> {
    let p = &c.p;
    let good = p.jwt(&rf::Layout::default());
    let mut seg: Vec<String> = good.split('.').map(String::from).collect();
    let header = |seg: &mut Vec<String>, f: &dyn Fn(&mut Value)| {
        let mut h: Value = serde_json::from_slice(&rf::unb64(&seg[0]).unwrap()).unwrap();
        f(&mut h);
        seg[0] = rf::b64(h.to_string().as_bytes());
    };
    match a {
        Alter::Document(_) => return Some(good),
        Alter::Flip(s, at, bit) => {
            let s = *s as usize % 3;
            let mut b = rf::unb64(&seg[s])?;
            let n = b.len();
            b[*at as usize % n] ^= 1 << bit;
            seg[s] = rf::b64(&b);
        }
        Alter::Cut(s, n) => {
            let s = *s as usize % 3;
            let mut b = rf::unb64(&seg[s])?;
            b.truncate(b.len().saturating_sub(*n as usize));
            seg[s] = rf::b64(&b);
        }
        Alter::Text(s, how, at) => {
            let s = (*s as usize).min(2);
            seg[s] = super::tamper::edit_text(&seg[s], *how, *at)?;
        }
        Alter::Segments(k) => match k {
            0 => {
                seg.pop();
            }
            1 => seg.push(seg[2].clone()),
            2 => seg = vec![seg.concat()],
            3 => seg.swap(1, 2),
            _ => seg.insert(0, "".into()),
        },
        Alter::Alg(a) => header(&mut seg, &|h| h["alg"] = json!(a)),
        Alter::Typ(t) => header(&mut seg, &|h| match t {
            Some(t) => h["typ"] = json!(t),
            None => {
                h.as_object_mut().unwrap().remove("typ");
            }
        }),
        Alter::DropHeader(k) => header(&mut seg, &|h| {
            h.as_object_mut().unwrap().remove(["alg", "kid", "typ"][*k as usize % 3]);
        }),
        Alter::Kid(k) => {
            let kid = match k {
                0 => p.i.kid(p.i.auth.iter().find(|x| *x != p.key())?),
                1 => p.i.kid(p.i.ka.first()?),
                2 => p.i.did.clone(),
                3 => c.m.kid(&c.m.auth[0]),
                4 => "did:example:nobody#k".into(),
                _ => format!("{}x", p.kid()),
            };
            if p.i.auth.iter().any(|x| x == p.key() && p.i.kid(x) == kid) {
                return None;
            }
            header(&mut seg, &|h| h["kid"] = json!(kid))
        }
        Alter::Claim(k) => {
            let mut m: Value = serde_json::from_slice(&rf::unb64(&seg[1])?).ok()?;
            m[k] = match k.as_str() {
                "exp" | "nbf" => json!(1),
                _ => json!("did:example:mallory"),
            };
            seg[1] = rf::b64(m.to_string().as_bytes());
        }
        Alter::Issuer => {
            // Mallory signs, with its own key under its own name, that the victim has become Mallory
            let k = &c.m.auth[0];
            let claims = Value::Object(p.c.model(&p.i.did, &c.m.did)).to_string();
            return Some(rf::seal_jwt(&claims, &rf::jwt_header(&c.m.kid(k), k.kt), k.kt, &c.m.sk(k)));
        }
        Alter::OtherSigner => {
            let mut k = c.m.auth[0].clone();
            k.kt = p.key().kt;
            let claims = Value::Object(p.c.model(&p.i.did, &p.sub)).to_string();
            return Some(rf::seal_jwt(&claims, &rf::jwt_header(&p.kid(), k.kt), k.kt, &c.m.sk(&k)));
        }
        Alter::SigFill(x) => {
            let n = rf::unb64(&seg[2])?.len();
            seg[2] = rf::b64(&vec![*x; n]);
        }
    }
    let r = seg.join(".");
    (r != good).then_some(r)
}
fn check_alter(c: &AlterCase, o: &mut Obs) -> Res {
    let docs = Dids::of(&[&c.p.i, &c.m]);
    for a in &c.a {
        let Some(j) = alter(c, a) else { continue };
        let mut d = docs.clone();
        if let Alter::Document(n) = a {
            let kid = c.p.kid();
            let mut doc = c.p.i.doc();
            match n {
                0 | 1 => {
                    doc.authentication.retain(|k| *k != kid);
                    if *n == 1 {
                        doc.key_agreement.insert(0, kid)
                    }
                }
                2 => doc.verification_method.retain(|v| v.id != kid),
                3 => {
                    // the same id now names another key of the same type
                    let mut k = c.m.auth[0].clone();
                    (k.kt, k.fmt) = (c.p.key().kt, c.p.key().fmt);
                    let m = Party { auth: vec![k.clone()], ..c.m.clone() };
                    let new = m.doc().verification_method.into_iter().find(|v| v.id == m.kid(&k)).unwrap();
                    let v = doc.verification_method.iter_mut().find(|v| v.id == kid).unwrap();
                    v.verification_material = new.verification_material;
                }
                _ => doc.authentication = vec![format!("{kid}x")],
            }
            d = Dids::new(vec![doc, c.m.doc()]);
        }
        let d = &d;
        o.nt();
        o.inner += 1;
        let n = format!("{a:?}");
        o.label(n.split('(').next().unwrap_or("").to_string());
        match block_on(FromPrior::unpack(&j, d)) {
            Ok(x) => {
                let sig = if matches!(a, Alter::Issuer) { "issuer-not-signer" } else { "altered-accepted" };
                return fail(sig, format!("altered token accepted ({a:?}) as {x:?}: {j}"));
            }
            Err(e) => {
                if matches!(a, Alter::Segments(_) | Alter::Text(..) | Alter::Typ(_) | Alter::SigFill(_) | Alter::Claim(_) | Alter::Issuer | Alter::OtherSigner | Alter::DropHeader(_)) {
                    ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error kind for {a:?} ({e})");
                }
            }
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Refuse {
    No,
    Iss(String),
    Sub(String),
    Same,
    Fragment(bool),
    KidNoFragment,
    KidOtherDid,
    KidNotAuth,
    KidUnknown,
    NotResolved,
    NoSecret,
}
fn refuse_case() -> BoxedStrategy<(PriorCase, Refuse)> {
    let bad = || select(vec!["", "did", "did:x", "alice", "http://a:b:c", " did:example:x", "DID:example:x"]).prop_map(String::from);
    let r = prop_oneof![
        Just(Refuse::No),
        bad().prop_map(Refuse::Iss),
        bad().prop_map(Refuse::Sub),
        Just(Refuse::Same),
        any::<bool>().prop_map(Refuse::Fragment),
        Just(Refuse::KidNoFragment),
        Just(Refuse::KidOtherDid),
        Just(Refuse::KidNotAuth),
        Just(Refuse::KidUnknown),
        Just(Refuse::NotResolved),
        Just(Refuse::NoSecret),
    ];
    (prior_case(), r).boxed()
}
fn check_refuse((c, r): &(PriorCase, Refuse), o: &mut Obs) -> Res {
    let n = format!("{r:?}");
    o.label(n.split('(').next().unwrap_or("").to_string());
    o.nt();
    let mut p = c.prior();
    let mut kid = c.by_kid.then(|| c.kid());
    let mut d = Dids::of(&[&c.i]);
    let mut s = Secs::of(&[&c.i]);
    use ErrorKind::*;
    let want = match r {
        Refuse::No => None,
        Refuse::Iss(x) => {
            p.iss = x.clone();
            // a contradicting key id may be reported first
            kid = None;
            Some(Malformed)
        }
        Refuse::Sub(x) => {
            p.sub = x.clone();
            Some(Malformed)
        }
        Refuse::Same => {
            p.sub = p.iss.clone();
            Some(Malformed)
        }
        Refuse::Fragment(iss) => {
            if *iss {
                p.iss = c.kid();
                kid = None;
            } else {
                p.sub = format!("{}#key", c.sub);
            }
            Some(Malformed)
        }
        Refuse::KidNoFragment => {
            kid = Some(c.i.did.clone());
            Some(IllegalArgument)
        }
        Refuse::KidOtherDid => {
            kid = Some(format!("{}#{}", c.sub, c.key().frag));
            Some(IllegalArgument)
        }
        Refuse::KidNotAuth => {
            kid = Some(c.i.kid(&c.i.ka[0]));
            Some(DIDUrlNotFound)
        }
        Refuse::KidUnknown => {
            kid = Some(format!("{}#nope", c.i.did));
            Some(DIDUrlNotFound)
        }
        Refuse::NotResolved => {
            d = Dids::new(vec![]);
            Some(DIDNotResolved)
        }
        Refuse::NoSecret => {
            s = Secs::new(c.i.ka.iter().map(|k| c.i.secret(k)).collect());
            Some(SecretNotFound)
        }
    };
    match (block_on(p.pack(kid.as_deref(), &d, &s)), want) {
        (Ok(_), None) => Ok(()),
        (Ok(x), Some(w)) => fail("packed-anyway", format!("{r:?}: expected {w:?}, packed {x:?}")),
        (Err(e), None) => fail("pack-fails", format!("{e}")),
        (Err(e), Some(w)) => {
            ensure_eq!(e.kind(), w, "kind", "{r:?} ({e})");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C15
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Tok {
    None,
    Genuine,
    WrongSubject,
    /// for a subject much like the author; or the other way round, the author is written much like the subject
    NearSubject(u8, u16, bool),
    Altered(u16),
    Garbage(String),
    Forged,
    Unresolvable,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CarryCase {
    p: PackCase,
    prior: Party,
    ai: u16,
    c: Claims,
    tok: Tok,
    /// 0 plain, 1 signed, 2 encrypted
    form: u8,
}
pub fn carry_case() -> BoxedStrategy<CarryCase> {
    let tok = prop_oneof![
        1 => Just(Tok::None),
        4 => Just(Tok::Genuine),
        2 => Just(Tok::WrongSubject),
        2 => (any::<u8>(), any::<u16>(), any::<bool>()).prop_map(|(h, a, x)| Tok::NearSubject(h, a, x)),
        2 => any::<u16>().prop_map(Tok::Altered),
        1 => select(vec!["", "a.b.c", "..", "invalid", "e30.e30.e30"]).prop_map(|s| Tok::Garbage(s.into())),
        1 => Just(Tok::Forged),
        1 => Just(Tok::Unresolvable),
    ];
    (pack_case(small_message), party("did:example:old-name".into()), idx(), claims(), tok, 0u8..3)
        .prop_map(|(mut p, prior, ai, c, tok, form)| {
            if form == 1 {
                p.sign = p.sign.or(Some(By::Did));
            }
            if matches!(tok, Tok::NearSubject(..)) {
                p.set_from = true;
            }
            CarryCase { p, prior, ai, c, tok, form }
        })
        .boxed()
}
pub fn check_carry(c: &CarryCase, o: &mut Obs) -> Res {
    o.nt();
    let p = &c.p;
    let n = format!("{:?}", c.tok);
    o.label(format!("{}:{}", ["plain", "signed", "encrypted"][c.form as usize], n.split('(').next().unwrap_or("")));
    let k = pick(&c.prior.auth, c.ai);
    let kid = c.prior.kid(k);
    let issue = |sub: &str| rf::seal_jwt(&Value::Object(c.c.model(&c.prior.did, sub)).to_string(), &rf::jwt_header(&kid, k.kt), k.kt, &c.prior.sk(k));
    let mut docs = vec![p.s.doc(), p.r.doc(), c.prior.doc()];
    let tok = match &c.tok {
        Tok::None => None,
        Tok::Genuine => Some(issue(&p.s.did)),
        Tok::WrongSubject => Some(issue("did:example:somebody")),
        Tok::NearSubject(h, at, author) => Some(issue(&if *author { p.s.did.clone() } else { near(&p.s.did, *h, *at) })),
        Tok::Altered(i) => {
            let j = issue(&p.s.did);
            let seg: Vec<&str> = j.split('.').collect();
            let s = *i as usize % 3;
            let mut b = rf::unb64(seg[s]).unwrap_or_default();
            let at = *i as usize / 3 % b.len();
            b[at] ^= 1;
            let mut seg: Vec<String> = seg.iter().map(|s| s.to_string()).collect();
            seg[s] = rf::b64(&b);
            Some(seg.join("."))
        }
        Tok::Garbage(s) => Some(s.clone()),
        Tok::Forged => {
            // the sender itself claims to have been somebody else
            let a = &p.s.auth[0];
            Some(rf::seal_jwt(&Value::Object(c.c.model(&c.prior.did, &p.s.did)).to_string(), &rf::jwt_header(&p.s.kid(a), a.kt), a.kt, &p.s.sk(a)))
        }
        Tok::Unresolvable => {
            docs.pop();
            Some(issue(&p.s.did))
        }
    };
    let d = Dids::new(docs);
    let mut msg = p.message();
    if let Some(t) = &tok {
        msg.from_prior = Some(t.clone());
    }
    let from = match &c.tok {
        Tok::NearSubject(h, at, true) => Some(near(&p.s.did, *h, *at)),
        _ => p.header_from().map(String::from),
    };
    msg.from = from.clone();
    let model = p.msg.model(from.as_deref(), p.header_to().as_deref(), tok.as_deref());
    // packing
    let s = Secs::of(&[&p.s]).order(p.sec_order);
    let packed = match c.form {
        0 => block_on(msg.pack_plaintext(&d)).map(|m| (m, vec![])),
        1 => block_on(msg.pack_signed(&p.sign_s().unwrap(), &d, &s)).map(|m| (m.0, vec![])),
        _ => block_on(msg.pack_encrypted(&p.to_s(), p.from_s().as_deref(), p.sign_s().as_deref(), &d, &s, &p.opts.build())).map(|m| (m.0, m.1.to_kids)),
    };
    let good = matches!(c.tok, Tok::None | Tok::Genuine);
    // without an author in the message there is no subject to compare with
    let fine = good || (c.tok == Tok::WrongSubject && !p.set_from);
    match (&packed, fine) {
        (Ok(_), false) => return fail(if c.tok == Tok::Forged { "issuer-not-signer" } else { "packed-anyway" }, format!("a message with a {:?} token was packed", c.tok)),
        (Err(e), true) => return fail("pack-fails", format!("{:?}: {e}", c.tok)),
        (Err(e), false) => match c.tok {
            Tok::Unresolvable => ensure_eq!(e.kind(), ErrorKind::DIDNotResolved, "kind", "{:?} ({e})", c.tok),
            Tok::WrongSubject | Tok::Garbage(_) => ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "{:?} ({e})", c.tok),
            // that the author is not the sender may be noticed first
            Tok::NearSubject(..) => ensure!(matches!(e.kind(), ErrorKind::Malformed | ErrorKind::IllegalArgument), "kind", "{:?} ({e})", c.tok),
            _ => {}
        },
        _ => {}
    }
    // unpacking, of the same message from a sender that does not check
    let plain = model.to_string();
    let kt = p.rkey().kt;
    let wire = match (packed, c.form) {
        (Ok((m, _)), _) => m,
        (_, 0) => plain,
        (_, 1) => rf::seal_jws(plain.as_bytes(), &p.s.kid(p.akey()), p.akey().kt, &p.s.sk(p.akey()), None, &Default::default()),
        _ => {
            let rc = [rf::Rcpt { kid: p.r.kid(p.rkey()), pk: p.r.pk(p.rkey()) }];
            rf::seal_jwe(plain.as_bytes(), p.opts.anon, kt, &rc, None, 5, &Default::default(), &Default::default())
        }
    };
    match unpack(&wire, &d, &Secs::new(p.r.all_secrets()).order(p.sec_order), &p.unpack_opts()) {
        Ok((got, md)) => {
            match c.tok {
                Tok::None | Tok::Genuine => {}
                Tok::WrongSubject if fine => {}
                Tok::WrongSubject | Tok::NearSubject(..) => return fail("foreign-subject-accepted", format!("a token for another subject is accepted: {:?}", md.from_prior)),
                Tok::Forged => return fail("issuer-not-signer", format!("a forged token is accepted: {:?}", md.from_prior)),
                _ => return fail("altered-accepted", format!("a {:?} token is accepted: {:?}", c.tok, md.from_prior)),
            }
            ensure_eq!(msg_json(&got)?, model, "message", "message");
            match c.tok {
                Tok::None => {
                    ensure!(md.from_prior.is_none() && md.from_prior_issuer_kid.is_none(), "metadata", "a rotation is reported: {md:?}");
                }
                _ => {
                    let sub = if c.tok == Tok::Genuine { &p.s.did[..] } else { "did:example:somebody" };
                    ensure_eq!(md.from_prior, Some(c.c.build(&c.prior.did, sub)), "metadata", "from_prior");
                    ensure_eq!(md.from_prior_issuer_kid, Some(kid), "metadata", "from_prior_issuer_kid");
                }
            }
        }
        Err(e) => {
            ensure!(!fine, "unpack-fails", "{:?}: {e}", c.tok);
            if matches!(c.tok, Tok::WrongSubject | Tok::NearSubject(..)) {
                ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "{:?} ({e})", c.tok)
            }
        }
    }
    Ok(())
}
