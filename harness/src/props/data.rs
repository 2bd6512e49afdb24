//! C23-C26, C28-C30: the library's data types: JSON forms, builders, example resolvers, errors.
use super::common::*;
use super::prior::{claims, Claims};
use super::{prop, Prop};
use crate::gen::*;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::algorithms::*;
use didcomm::did::resolvers::ExampleDIDResolver;
use didcomm::did::*;
use didcomm::error::{err_msg, Error, ErrorKind, ResultContext, ResultExt, ResultExtNoContext, ToResult};
use didcomm::secrets::resolvers::ExampleSecretsResolver;
use didcomm::secrets::*;
use didcomm::{Attachment, FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::HashSet;
use std::collections::HashMap;
use std::fmt::Debug;

/// Reads `s` in every way the JSON library offers; they must agree on whether it parses.
fn read_all<T: DeserializeOwned>(s: &str) -> Res<Result<Vec<T>, String>> {
    let mut v = vec![];
    let mut bad = vec![];
    let mut add = |n: &str, r: Result<T, serde_json::Error>| match r {
        Ok(x) => v.push(x),
        Err(e) => bad.push(format!("{n}: {e}")),
    };
    add("from_str", serde_json::from_str(s));
    add("from_slice", serde_json::from_slice(s.as_bytes()));
    add("from_reader", serde_json::from_reader(s.as_bytes()));
    add("from_value", serde_json::from_str::<Value>(s).and_then(serde_json::from_value));
    ensure!(v.is_empty() || bad.is_empty(), "read-disagree", "readers disagree: {bad:?}: {}", clip(s, 1500));
    Ok(if bad.is_empty() { Ok(v) } else { Err(bad.join("; ")) })
}
fn json_of<T: Serialize>(t: &T) -> Res<Value> {
    let v = serde_json::to_value(t).map_err(|e| Fail { sig: "serialize".into(), msg: e.to_string() })?;
    let s = serde_json::to_string(t).map_err(|e| Fail { sig: "serialize".into(), msg: e.to_string() })?;
    let w: Value = val(&s)?;
    ensure_eq!(w, v, "serialize", "text and value forms of the same data");
    Ok(v)
}

// ---------------------------------------------------------------- C23
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MsgCase {
    m: Msg,
    from: Option<String>,
    to: Option<Vec<String>>,
    prior: Option<String>,
    st: Style,
    typ: bool,
}
fn msg_case() -> BoxedStrategy<MsgCase> {
    (message(), option::of(text()), option::of(vec(text(), 0..3)), option::of(text()), style(), any::<bool>())
        .prop_map(|(m, from, to, prior, st, typ)| MsgCase { m, from, to, prior, st, typ })
        .boxed()
}
impl MsgCase {
    fn build(&self) -> Message {
        let mut b = self.m.build(self.from.as_deref(), self.to.clone());
        b.from_prior = self.prior.clone();
        b
    }
    fn model(&self) -> Value {
        self.m.model(self.from.as_deref(), self.to.as_deref(), self.prior.as_deref())
    }
}
fn check_msg(c: &MsgCase, o: &mut Obs) -> Res {
    if c.m.rich() || c.from.is_some() || c.to.is_some() {
        o.nt();
    }
    o.label(format!("attachments={}", c.m.atts.as_ref().map_or(0, |a| a.len())));
    o.label(format!("headers={}", c.m.extra.len().min(2)));
    let want = c.build();
    ensure_eq!(json_of(&want)?, c.model(), "encode", "JSON form of the message");
    let mut m = c.model();
    if !c.typ {
        m.as_object_mut().unwrap().remove("typ");
        o.label("no typ");
    }
    let s = c.st.write(&m);
    match read_all::<Message>(&s)? {
        Ok(v) => {
            for got in v {
                ensure_eq!(got, want, "decode", "message read from {}", clip(&s, 1500));
                ensure_eq!(json_of(&got)?, c.model(), "reencode", "JSON form of the message read");
                ensure_eq!(got.clone(), got, "clone", "clone");
            }
        }
        Err(e) => return fail("decode", format!("{e}: {}", clip(&s, 1500))),
    }
    Ok(())
}

/// one member replaced by something of another type, or left out
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadCase {
    c: MsgCase,
    at: u16,
    v: u8,
}
const STRINGS: &[&str] = &["id", "type", "from", "thid", "pthid", "from_prior", "typ"];
const NUMBERS: &[&str] = &["created_time", "expires_time"];
const REQUIRED: &[&str] = &["id", "type", "body"];
fn bad_case() -> BoxedStrategy<BadCase> {
    (msg_case(), idx(), any::<u8>()).prop_map(|(c, at, v)| BadCase { c, at, v }).boxed()
}
fn non_strings(v: u8) -> Value {
    let all = [
        json!("x"), json!([1]), json!({}), json!(["a", null]), json!("a,b"), json!(7), json!(true), json!({"0": "a"}), json!([["a"]]), json!(["a", {}]), json!(""),
    ];
    all[v as usize % all.len()].clone()
}
fn wrong(kind: char, v: u8) -> Value {
    let mut all: Vec<(char, Value)> = vec![
        ('s', json!("text")),
        ('s', json!("")),
        ('n', json!(7)),
        ('-', json!(-1)),
        ('f', json!(1.5)),
        ('f', json!(1e30)),
        ('b', json!(true)),
        ('o', json!({})),
        ('o', json!({"id": "x"})),
        ('a', json!([])),
        ('a', json!([null])),
        ('A', json!(["x", 1])),
        // what a lenient reader might convert
        ('-', json!(["text"])),
        ('-', json!([7])),
        ('-', json!([true])),
        ('b', json!(false)),
        ('n', json!(0)),
        ('n', json!(1)),
        ('f', json!(7.0)),
        ('f', json!(18446744073709551616.0)),
        ('s', json!("7")),
        ('s', json!("1.5")),
        ('s', json!("true")),
        ('s', json!("false")),
        ('s', json!("null")),
        ('s', json!("{}")),
        ('s', json!("2023-01-01T00:00:00Z")),
    ];
    all.retain(|(k, _)| *k != kind);
    all.remove(v as usize % all.len()).1
}
fn check_bad(c: &BadCase, o: &mut Obs) -> Res {
    o.nt();
    let mut m = c.c.model();
    let ob = m.as_object_mut().unwrap();
    let n = STRINGS.len() + NUMBERS.len() + REQUIRED.len() + 2 + 1;
    let i = c.at as usize % n;
    let what = if i < 7 {
        ob.insert(STRINGS[i].into(), wrong('s', c.v));
        format!("{} not a string", STRINGS[i])
    } else if i < 9 {
        ob.insert(NUMBERS[i - 7].into(), wrong('n', c.v));
        format!("{} not a time", NUMBERS[i - 7])
    } else if i < 12 {
        ob.remove(REQUIRED[i - 9]);
        format!("{} missing", REQUIRED[i - 9])
    } else if i == 12 {
        ob.insert("to".into(), [json!("did:example:x"), json!({}), json!([1]), json!(["a", null]), json!(5)][c.v as usize % 5].clone());
        "to not an array of strings".into()
    } else if i == 13 {
        ob.insert("attachments".into(), [json!("x"), json!({}), json!([1]), json!([{}]), json!(5), json!([{"data": {"json": 1}}, {"id": "x"}])][c.v as usize % 6].clone());
        "attachments not an array of attachments".into()
    } else {
        m = [json!(null), json!(1), json!("{}"), json!([]), json!({}), json!([m.clone()])][c.v as usize % 6].clone();
        "not a message object".into()
    };
    o.label(what.clone());
    let s = c.c.st.write(&m);
    match read_all::<Message>(&s)? {
        // JSON arrays are taken for the members in order by the JSON library
        Ok(_) if m.is_array() => {}
        Ok(v) => return fail("bad-accepted", format!("{what}: read as {:?}", v[0])),
        Err(_) => {}
    }
    match unpack(&s, &Dids::new(vec![]), &Secs::new(vec![]), &UnpackOptions::default()) {
        Ok((m, _)) => fail("bad-accepted", format!("{what}: unpacked as {m:?}")),
        Err(e) => {
            ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "{what} ({e})");
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EqCase {
    a: MsgCase,
    b: MsgCase,
    take: u16,
}
fn check_eq(c: &EqCase, o: &mut Obs) -> Res {
    // the second message is the first with some members taken from another
    let mut b = c.a.clone();
    let x = &c.b;
    let t = |i: u16| c.take >> i & 1 == 1;
    if t(0) { b.m.id = x.m.id.clone() }
    if t(1) { b.m.type_ = x.m.type_.clone() }
    if t(2) { b.m.body = x.m.body.clone() }
    if t(3) { b.m.thid = x.m.thid.clone() }
    if t(4) { b.m.pthid = x.m.pthid.clone() }
    if t(5) { b.m.created = x.m.created }
    if t(6) { b.m.expires = x.m.expires }
    if t(7) { b.m.extra = x.m.extra.clone() }
    if t(8) { b.m.atts = x.m.atts.clone() }
    if t(9) { b.from = x.from.clone() }
    if t(10) { b.to = x.to.clone() }
    if t(11) { b.prior = x.prior.clone() }
    let (ma, mb) = (c.a.build(), b.build());
    let same = c.a.model() == b.model();
    o.label(if same { "same" } else { "different" });
    o.nt();
    ensure_eq!(ma == mb, same, "equality", "equality of\n  {ma:?}\n  {mb:?}");
    ensure_eq!(json_of(&ma)? == json_of(&mb)?, same, "equality", "equality of the JSON forms of\n  {ma:?}\n  {mb:?}");
    Ok(())
}

// ---------------------------------------------------------------- C24
#[derive(Clone, Debug, Serialize, Deserialize)]
enum B {
    To(String),
    ToMany(Vec<String>),
    From(String),
    Thid(String),
    Pthid(String),
    Header(String, Value),
    Created(u64),
    Expires(u64),
    Prior(String),
    Att(Att),
    Atts(Vec<Att>),
}
fn b_ops() -> BoxedStrategy<(String, String, Value, Vec<B>)> {
    let op = prop_oneof![
        3 => text().prop_map(B::To),
        2 => vec(text(), 0..4).prop_map(B::ToMany),
        1 => text().prop_map(B::From),
        1 => text().prop_map(B::Thid),
        1 => text().prop_map(B::Pthid),
        3 => (prop_oneof![select(vec!["a", "b"]).prop_map(String::from), header_name()], json_value()).prop_map(|(k, v)| B::Header(k, v)),
        1 => num().prop_map(B::Created),
        1 => num().prop_map(B::Expires),
        1 => text().prop_map(B::Prior),
        2 => attachment().prop_map(B::Att),
        2 => vec(attachment(), 0..3).prop_map(B::Atts),
    ];
    (text(), text(), json_value(), vec(op, 0..12)).boxed()
}
fn check_builder((id, ty, body, ops): &(String, String, Value, Vec<B>), o: &mut Obs) -> Res {
    if ops.len() > 1 {
        o.nt();
    }
    o.label(format!("ops={}", ops.len() / 4 * 4));
    let mut b = Message::build(id.clone(), ty.clone(), body.clone());
    let mut m = Map::new();
    m.insert("id".into(), json!(id));
    m.insert("typ".into(), json!(crate::refimpl::TYP_PLAIN));
    m.insert("type".into(), json!(ty));
    m.insert("body".into(), body.clone());
    let mut extra: HashMap<String, Value> = HashMap::new();
    let push = |m: &mut Map<String, Value>, k: &str, v: Vec<Value>| m.entry(k).or_insert(json!([])).as_array_mut().unwrap().extend(v);
    for op in ops {
        b = match op.clone() {
            B::To(x) => {
                push(&mut m, "to", vec![json!(x)]);
                b.to(x)
            }
            B::ToMany(x) => {
                push(&mut m, "to", x.iter().map(|x| json!(x)).collect());
                b.to_many(x)
            }
            B::From(x) => {
                m.insert("from".into(), json!(x));
                b.from(x)
            }
            B::Thid(x) => {
                m.insert("thid".into(), json!(x));
                b.thid(x)
            }
            B::Pthid(x) => {
                m.insert("pthid".into(), json!(x));
                b.pthid(x)
            }
            B::Header(k, v) => {
                m.insert(k.clone(), v.clone());
                extra.insert(k.clone(), v.clone());
                b.header(k, v)
            }
            B::Created(x) => {
                m.insert("created_time".into(), json!(x));
                b.created_time(x)
            }
            B::Expires(x) => {
                m.insert("expires_time".into(), json!(x));
                b.expires_time(x)
            }
            B::Prior(x) => {
                m.insert("from_prior".into(), json!(x));
                b.from_prior(x)
            }
            B::Att(a) => {
                push(&mut m, "attachments", vec![a.model()]);
                b.attachment(a.build())
            }
            B::Atts(a) => {
                push(&mut m, "attachments", a.iter().map(|a| a.model()).collect());
                b.attachments(a.iter().map(|a| a.build()).collect())
            }
        };
    }
    let got = b.finalize();
    ensure_eq!(got.extra_headers, extra, "builder", "custom headers");
    ensure_eq!(json_of(&got)?, Value::Object(m), "builder", "message built by {ops:?}");
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum AB {
    Id(String),
    Description(String),
    Filename(String),
    MediaType(String),
    Format(String),
    Lastmod(u64),
    Count(u64),
    Jws(String),
}
fn ab_ops() -> BoxedStrategy<(Att, Vec<AB>)> {
    let op = prop_oneof![
        text().prop_map(AB::Id),
        text().prop_map(AB::Description),
        text().prop_map(AB::Filename),
        text().prop_map(AB::MediaType),
        text().prop_map(AB::Format),
        num().prop_map(AB::Lastmod),
        num().prop_map(AB::Count),
        text().prop_map(AB::Jws),
    ];
    (attachment(), vec(op, 0..10)).boxed()
}
fn check_att_builder((a, ops): &(Att, Vec<AB>), o: &mut Obs) -> Res {
    if !ops.is_empty() {
        o.nt();
    }
    let mut b = match a.body.clone() {
        AttBody::Base64(x) => Attachment::base64(x),
        AttBody::Json(x) => Attachment::json(x),
        AttBody::Links(l, h) => Attachment::links(l, h),
    };
    let mut w = Att { body: a.body.clone(), jws: None, id: None, description: None, filename: None, media_type: None, format: None, lastmod_time: None, byte_count: None };
    for op in ops {
        b = match op.clone() {
            AB::Id(x) => {
                w.id = Some(x.clone());
                b.id(x)
            }
            AB::Description(x) => {
                w.description = Some(x.clone());
                b.description(x)
            }
            AB::Filename(x) => {
                w.filename = Some(x.clone());
                b.filename(x)
            }
            AB::MediaType(x) => {
                w.media_type = Some(x.clone());
                b.media_type(x)
            }
            AB::Format(x) => {
                w.format = Some(x.clone());
                b.format(x)
            }
            AB::Lastmod(x) => {
                w.lastmod_time = Some(x);
                b.lastmod_time(x)
            }
            AB::Count(x) => {
                w.byte_count = Some(x);
                b.byte_count(x)
            }
            AB::Jws(x) => {
                w.jws = Some(x.clone());
                b.jws(x)
            }
        };
    }
    let got = b.finalize();
    ensure_eq!(got, w.build(), "builder", "attachment built by {ops:?}");
    ensure_eq!(json_of(&got)?, w.model(), "builder", "JSON form of the attachment built by {ops:?}");
    Ok(())
}
fn check_prior_builder((c, d): &(Claims, Claims), o: &mut Obs) -> Res {
    o.nt();
    // setting a claim again replaces it
    let (iss, sub) = ("did:example:1", "did:example:2");
    let mut b = FromPrior::build(iss.into(), sub.into());
    let mut want = c.build(iss, sub);
    for x in [c, d] {
        let f = x.build(iss, sub);
        if let Some(x) = f.aud { b = b.aud(x.clone()); want.aud = Some(x); }
        if let Some(x) = f.exp { b = b.exp(x); want.exp = Some(x); }
        if let Some(x) = f.nbf { b = b.nbf(x); want.nbf = Some(x); }
        if let Some(x) = f.iat { b = b.iat(x); want.iat = Some(x); }
        if let Some(x) = f.jti { b = b.jti(x.clone()); want.jti = Some(x); }
    }
    ensure_eq!(b.finalize(), want, "builder", "from_prior built");
    Ok(())
}

// ---------------------------------------------------------------- C25
fn att_case() -> BoxedStrategy<(Att, Style, Option<(String, Value)>, Option<(String, Value)>)> {
    let more = |known| option::weighted(0.3, (unknown_name(known), json_value()));
    (
        attachment(),
        style(),
        more(&["data", "id", "description", "filename", "media_type", "format", "lastmod_time", "byte_count"]),
        more(&["base64", "json", "links", "hash", "jws"]),
    )
        .boxed()
}
fn check_att((a, st, top, inner): &(Att, Style, Option<(String, Value)>, Option<(String, Value)>), o: &mut Obs) -> Res {
    o.nt();
    o.label(match a.body {
        AttBody::Base64(_) => "base64",
        AttBody::Json(_) => "json",
        AttBody::Links(..) => "links",
    });
    let want = a.build();
    ensure_eq!(json_of(&want)?, a.model(), "encode", "JSON form of the attachment");
    let mut m = a.model();
    // members the library does not know are ignored
    if let Some((k, v)) = top {
        m[k] = v.clone();
    }
    if let Some((k, v)) = inner {
        m["data"][k] = v.clone();
    }
    let s = st.write(&m);
    match read_all::<Attachment>(&s)? {
        Ok(v) => {
            for got in v {
                ensure_eq!(got, want, "decode", "attachment read from {s}");
            }
        }
        Err(e) => return fail("decode", format!("{e}: {s}")),
    }
    // the data may be given on its own as well
    let s = st.write(&m["data"]);
    match read_all::<didcomm::AttachmentData>(&s)? {
        Ok(v) => {
            for got in v {
                ensure_eq!(got, want.data, "decode", "attachment data read from {s}");
            }
        }
        Err(e) => return fail("decode", format!("{e}: {s}")),
    }
    Ok(())
}
fn bad_att() -> BoxedStrategy<(Att, Style, u8, u8)> {
    (attachment(), style(), 0u8..13, any::<u8>()).boxed()
}
fn check_bad_att((a, st, how, v): &(Att, Style, u8, u8), o: &mut Obs) -> Res {
    o.nt();
    let mut m = a.model();
    let ob = m.as_object_mut().unwrap();
    let what = match how {
        0 => {
            ob.remove("data");
            "no data".to_string()
        }
        1 => {
            ob.insert("data".into(), wrong('o', *v));
            "data not an object".into()
        }
        2 => {
            let d = ob["data"].as_object_mut().unwrap();
            for k in ["base64", "json", "links"] {
                d.remove(k);
            }
            "no content".into()
        }
        3 => {
            ob.insert("data".into(), json!({"links": ["http://x"], "hashh": "x"}));
            "links without hash".into()
        }
        4 => {
            ob.insert("data".into(), json!({"hash": "x"}));
            "hash without links".into()
        }
        5 => {
            ob.insert("data".into(), json!({"base64": wrong('s', *v)}));
            "base64 not a string".into()
        }
        6 => {
            ob.insert("data".into(), json!({"links": non_strings(*v), "hash": "x"}));
            "links not an array of strings".into()
        }
        7 => {
            ob.insert("data".into(), json!({"links": ["x"], "hash": wrong('s', *v)}));
            "hash not a string".into()
        }
        8 => {
            ob["data"]["jws"] = wrong('s', *v);
            "jws not a string".into()
        }
        9 | 10 => {
            let k = ["lastmod_time", "byte_count"][*how as usize - 9];
            ob.insert(k.into(), wrong('n', *v));
            format!("{k} not a number")
        }
        _ => {
            let k = ["id", "description", "filename", "media_type", "format"][*v as usize % 5];
            ob.insert(k.into(), wrong('s', *v));
            format!("{k} not a string")
        }
    };
    o.label(what.clone());
    let s = st.write(&m);
    if m["data"].is_array() {
        return Ok(()); // the JSON library may take an array for the members in order
    }
    if let Ok(v) = read_all::<Attachment>(&s)? {
        return fail("bad-accepted", format!("{what}: {s} read as {:?}", v[0]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C26
const VM_TYPES: &[&str] = &[
    "JsonWebKey2020", "X25519KeyAgreementKey2019", "Ed25519VerificationKey2018", "EcdsaSecp256k1VerificationKey2019",
    "X25519KeyAgreementKey2020", "Ed25519VerificationKey2020", "Other",
];
fn vm_type(i: u8) -> VerificationMethodType {
    use VerificationMethodType::*;
    match i % 7 {
        0 => JsonWebKey2020,
        1 => X25519KeyAgreementKey2019,
        2 => Ed25519VerificationKey2018,
        3 => EcdsaSecp256k1VerificationKey2019,
        4 => X25519KeyAgreementKey2020,
        5 => Ed25519VerificationKey2020,
        _ => Other,
    }
}
fn secret_type(i: u8) -> SecretType {
    use SecretType::*;
    match i % 7 {
        0 => JsonWebKey2020,
        1 => X25519KeyAgreementKey2019,
        2 => Ed25519VerificationKey2018,
        3 => EcdsaSecp256k1VerificationKey2019,
        4 => X25519KeyAgreementKey2020,
        5 => Ed25519VerificationKey2020,
        _ => Other,
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Mat {
    Jwk(Value),
    Mb(String),
    B58(String),
}
fn mat() -> BoxedStrategy<Mat> {
    prop_oneof![
        json_value().prop_map(Mat::Jwk),
        Just(Mat::Jwk(json!({"kty": "OKP", "crv": "X25519", "x": "avH0O2Y4tqLAq8y9zpianr8ajii5m4F_mICrzNlatXs"}))),
        text().prop_map(Mat::Mb),
        text().prop_map(Mat::B58)
    ]
    .boxed()
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VmCase {
    id: String,
    ty: u8,
    controller: String,
    m: Mat,
}
impl VmCase {
    fn vm(&self) -> VerificationMethod {
        VerificationMethod {
            id: self.id.clone(),
            type_: vm_type(self.ty),
            controller: self.controller.clone(),
            verification_material: match self.m.clone() {
                Mat::Jwk(public_key_jwk) => VerificationMaterial::JWK { public_key_jwk },
                Mat::Mb(public_key_multibase) => VerificationMaterial::Multibase { public_key_multibase },
                Mat::B58(public_key_base58) => VerificationMaterial::Base58 { public_key_base58 },
            },
        }
    }
    fn model(&self) -> Value {
        let mut v = json!({"id": self.id, "type": VM_TYPES[self.ty as usize % 7], "controller": self.controller});
        match &self.m {
            Mat::Jwk(x) => v["publicKeyJwk"] = x.clone(),
            Mat::Mb(x) => v["publicKeyMultibase"] = json!(x),
            Mat::B58(x) => v["publicKeyBase58"] = json!(x),
        }
        v
    }
    fn secret(&self) -> Secret {
        Secret {
            id: self.id.clone(),
            type_: secret_type(self.ty),
            secret_material: match self.m.clone() {
                Mat::Jwk(private_key_jwk) => SecretMaterial::JWK { private_key_jwk },
                Mat::Mb(private_key_multibase) => SecretMaterial::Multibase { private_key_multibase },
                Mat::B58(private_key_base58) => SecretMaterial::Base58 { private_key_base58 },
            },
        }
    }
    fn secret_model(&self) -> Value {
        let mut v = json!({"id": self.id, "type": VM_TYPES[self.ty as usize % 7]});
        match &self.m {
            Mat::Jwk(x) => v["privateKeyJwk"] = x.clone(),
            Mat::Mb(x) => v["privateKeyMultibase"] = json!(x),
            Mat::B58(x) => v["privateKeyBase58"] = json!(x),
        }
        v
    }
}
fn vm_case() -> impl Strategy<Value = VmCase> {
    (text(), 0u8..7, text(), mat()).prop_map(|(id, ty, controller, m)| VmCase { id, ty, controller, m })
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum SvcCase {
    Didcomm { id: String, uri: String, accept: Option<Vec<String>>, keys: Option<Vec<String>> },
    Other { id: String, v: Map<String, Value> },
}
fn svc_case() -> impl Strategy<Value = SvcCase> {
    prop_oneof![
        3 => (text(), text(), option::of(vec(text(), 0..3)), option::of(vec(text(), 0..3))).prop_map(|(id, uri, accept, keys)| SvcCase::Didcomm { id, uri, accept, keys }),
        1 => (text(), proptest::collection::btree_map("[a-z]{1,6}", json_value(), 0..4)).prop_map(|(id, v)| SvcCase::Other { id, v: v.into_iter().collect() }),
    ]
}
impl SvcCase {
    fn svc(&self) -> Service {
        match self.clone() {
            SvcCase::Didcomm { id, uri, accept, keys } => Service {
                id,
                service_endpoint: ServiceKind::DIDCommMessaging { value: DIDCommMessagingService { uri, accept, routing_keys: keys.unwrap_or_default() } },
            },
            SvcCase::Other { id, v } => Service { id, service_endpoint: ServiceKind::Other { value: Value::Object(v) } },
        }
    }
    /// with_keys: whether an empty list of routing keys is written out
    fn model(&self, with_keys: bool) -> Value {
        match self {
            SvcCase::Didcomm { id, uri, accept, keys } => {
                let mut e = Map::new();
                e.insert("uri".into(), json!(uri));
                put(&mut e, "accept", accept);
                if with_keys || keys.is_some() {
                    e.insert("routingKeys".into(), json!(keys.clone().unwrap_or_default()));
                }
                json!({"id": id, "type": "DIDCommMessaging", "serviceEndpoint": e})
            }
            SvcCase::Other { id, v } => json!({"id": id, "type": "Other", "serviceEndpoint": v}),
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DocCase {
    id: String,
    ka: Vec<String>,
    auth: Vec<String>,
    vms: Vec<VmCase>,
    svcs: Vec<SvcCase>,
    st: Style,
    /// members the library does not know: of the document, a method, a service, its endpoint
    more: [Option<(String, Value)>; 4],
}
fn doc_case() -> BoxedStrategy<DocCase> {
    let m = |known| option::weighted(0.25, (unknown_name(known), json_value()));
    let more = [
        m(&["id", "keyAgreement", "authentication", "verificationMethod", "service"]),
        m(&["id", "type", "controller", "publicKeyJwk", "publicKeyMultibase", "publicKeyBase58"]),
        m(&["id", "type", "serviceEndpoint"]),
        m(&["uri", "accept", "routingKeys"]),
    ];
    (text(), vec(text(), 0..3), vec(text(), 0..3), vec(vm_case(), 0..4), vec(svc_case(), 0..3), style(), more)
        .prop_map(|(id, ka, auth, vms, svcs, st, more)| DocCase { id, ka, auth, vms, svcs, st, more })
        .boxed()
}
impl DocCase {
    fn doc(&self) -> DIDDoc {
        DIDDoc {
            id: self.id.clone(),
            key_agreement: self.ka.clone(),
            authentication: self.auth.clone(),
            verification_method: self.vms.iter().map(|v| v.vm()).collect(),
            service: self.svcs.iter().map(|s| s.svc()).collect(),
        }
    }
    fn model(&self, with_keys: bool) -> Value {
        json!({
            "id": self.id, "keyAgreement": self.ka, "authentication": self.auth,
            "verificationMethod": self.vms.iter().map(|v| v.model()).collect::<Vec<_>>(),
            "service": self.svcs.iter().map(|s| s.model(with_keys)).collect::<Vec<_>>(),
        })
    }
}
fn same<T: Debug>(got: &T, want: &T, what: &str) -> Res {
    ensure_eq!(format!("{got:?}"), format!("{want:?}"), "decode", "{what}");
    Ok(())
}
fn check_doc(c: &DocCase, o: &mut Obs) -> Res {
    if c.vms.len() + c.svcs.len() > 0 {
        o.nt();
    }
    o.label(format!("methods={} services={}", c.vms.len(), c.svcs.len()));
    let want = c.doc();
    ensure_eq!(json_of(&want)?, c.model(true), "encode", "JSON form of the DID document");
    let mut m = c.model(false);
    let [top, vm, svc, end] = &c.more;
    let put = |m: &mut Value, x: &Option<(String, Value)>| {
        if let (Some((k, v)), Some(m)) = (x, m.as_object_mut()) {
            m.insert(k.clone(), v.clone());
        }
    };
    put(&mut m, top);
    m["verificationMethod"].as_array_mut().unwrap().iter_mut().for_each(|x| put(x, vm));
    for x in m["service"].as_array_mut().unwrap() {
        put(x, svc);
        if x["type"] == "DIDCommMessaging" {
            put(&mut x["serviceEndpoint"], end);
        }
    }
    let s = c.st.write(&m);
    match read_all::<DIDDoc>(&s)? {
        Ok(v) => v.iter().try_for_each(|g| same(g, &want, &s)),
        Err(e) => fail("decode", format!("{e}: {s}")),
    }
}
fn check_secret((c, st, more): &(VmCase, Style, Option<(String, Value)>), o: &mut Obs) -> Res {
    o.nt();
    o.label(VM_TYPES[c.ty as usize % 7]);
    let want = c.secret();
    ensure_eq!(json_of(&want)?, c.secret_model(), "encode", "JSON form of the secret");
    let mut m = c.secret_model();
    if let Some((k, v)) = more {
        m[k] = v.clone();
    }
    let s = st.write(&m);
    match read_all::<Secret>(&s)? {
        Ok(v) => v.iter().try_for_each(|g| same(g, &want, &s)),
        Err(e) => fail("decode", format!("{e}: {s}")),
    }
}
/// what is removed or replaced in a document or secret must not go unnoticed
fn check_bad_doc((c, vm, svc, how, v): &(DocCase, VmCase, SvcCase, u8, u8), o: &mut Obs) -> Res {
    o.nt();
    let mut c = c.clone();
    c.vms.push(vm.clone());
    c.svcs.push(svc.clone());
    let mut m = c.model(true);
    let mut sm = vm.secret_model();
    let (iv, is) = (c.vms.len() - 1, c.svcs.len() - 1);
    let what = match how % 12 {
        0 => {
            let k = ["id", "keyAgreement", "authentication", "verificationMethod", "service"][*v as usize % 5];
            m.as_object_mut().unwrap().remove(k);
            sm.as_object_mut().unwrap().remove(["id", "type"][*v as usize % 2]);
            format!("no {k}")
        }
        1 => {
            m["id"] = wrong('s', *v);
            sm["id"] = wrong('s', *v);
            "id not a string".into()
        }
        2 => {
            let k = ["keyAgreement", "authentication", "verificationMethod", "service"][*v as usize % 4];
            m[k] = json!("x");
            sm["type"] = json!(1);
            format!("{k} not an array")
        }
        3 => {
            let k = ["id", "type", "controller"][*v as usize % 3];
            m["verificationMethod"][iv].as_object_mut().unwrap().remove(k);
            sm.as_object_mut().unwrap().remove("type");
            format!("method without {k}")
        }
        4 => {
            let t = match v {
                0..=60 => ["", "jsonWebKey2020", "JSONWebKey2020", "RsaVerificationKey2018", "X25519KeyAgreementKey2021", "Ed25519VerificationKey2019"][*v as usize % 6].into(),
                _ => near(VM_TYPES[iv * 7 % 5 + vm.ty as usize % 3], *v, vm.id.len() as u16 * 7 + *v as u16),
            };
            m["verificationMethod"][iv]["type"] = json!(t);
            sm["type"] = json!(t);
            format!("unknown type {t}")
        }
        5 => {
            for (x, p) in [(&mut m["verificationMethod"][iv], "public"), (&mut sm, "private")] {
                let x = x.as_object_mut().unwrap();
                for k in ["KeyJwk", "KeyMultibase", "KeyBase58"] {
                    x.remove(&format!("{p}{k}"));
                }
            }
            "no key material".into()
        }
        6 => {
            for (x, p) in [(&mut m["verificationMethod"][iv], "public"), (&mut sm, "private")] {
                let x = x.as_object_mut().unwrap();
                x.remove(&format!("{p}KeyJwk"));
                for k in ["KeyMultibase", "KeyBase58"] {
                    x.insert(format!("{p}{k}"), wrong('s', *v));
                }
            }
            "key material not a string".into()
        }
        7 => {
            // material under the other half's name is not material
            for (x, p, q) in [(&mut m["verificationMethod"][iv], "public", "private"), (&mut sm, "private", "public")] {
                let x = x.as_object_mut().unwrap();
                for k in ["KeyJwk", "KeyMultibase", "KeyBase58"] {
                    if let Some(y) = x.remove(&format!("{p}{k}")) {
                        x.insert(format!("{q}{k}"), y);
                    }
                }
            }
            "material of the wrong half".into()
        }
        8 => {
            let k = ["id", "type", "serviceEndpoint"][*v as usize % 3];
            m["service"][is].as_object_mut().unwrap().remove(k);
            sm = Value::Null;
            format!("service without {k}")
        }
        9 => {
            m["service"][is] = json!({"id": "x", "type": "DIDCommMessaging", "serviceEndpoint": {"accept": []}});
            sm = json!(1);
            "service without uri".into()
        }
        10 => {
            m["service"][is] = json!({"id": "x", "type": "DIDCommMessaging", "serviceEndpoint": {"uri": "x", "routingKeys": non_strings(*v)}});
            sm = json!("x");
            "routingKeys not an array of strings".into()
        }
        _ => {
            m["service"][is] = json!({"id": "x", "type": "DIDCommMessaging", "serviceEndpoint": {"uri": "x", "accept": non_strings(*v)}});
            sm = json!({});
            "accept not an array of strings".into()
        }
    };
    o.label(what.clone());
    let s = c.st.write(&m);
    if let Ok(v) = read_all::<DIDDoc>(&s)? {
        return fail("bad-accepted", format!("{what}: {s} read as {:?}", v[0]));
    }
    let s = c.st.write(&sm);
    if let Ok(v) = read_all::<Secret>(&s)? {
        return fail("bad-accepted", format!("{what}: {s} read as {:?}", v[0]));
    }
    Ok(())
}

// ---------------------------------------------------------------- C28
/// (document ids, asked ids): ids that are prefixes, suffixes and case variants of each other
type Ask = (u8, Option<(u8, u16)>);
fn ids_case() -> BoxedStrategy<(Vec<u8>, Vec<Vec<Ask>>)> {
    (vec(0u8..16, 0..6), vec(vec((0u8..16, option::weighted(0.3, (any::<u8>(), any::<u16>()))), 0..6), 1..4)).boxed()
}
const NAMES: &[&str] = &[
    "did:example:a", "did:example:ab", "did:example:A", "did:example:a#1", "did:example:a#10", "did:example:a#", "did:example:", "", "a", "did:example:b",
    "did:example:a ", " did:example:a", "did:example:b#1", "did:example:a#1#1", "did:example:alice?versionId=1", "did:web:example.com:alice#key-x25519-1",
];
fn check_resolvers((have, asks): &(Vec<u8>, Vec<Vec<Ask>>), o: &mut Obs) -> Res {
    let name = |i: &u8| NAMES[*i as usize % NAMES.len()];
    // the same id may occur twice: each entry is told apart by its content
    let docs: Vec<DIDDoc> = have
        .iter()
        .enumerate()
        .map(|(n, i)| DIDDoc { id: name(i).into(), key_agreement: vec![format!("{n}")], authentication: vec![], verification_method: vec![], service: vec![] })
        .collect();
    let secrets: Vec<Secret> = have
        .iter()
        .enumerate()
        .map(|(n, i)| Secret { id: name(i).into(), type_: SecretType::Other, secret_material: SecretMaterial::Base58 { private_key_base58: format!("{n}") } })
        .collect();
    let d = ExampleDIDResolver::new(docs.clone());
    let s = ExampleSecretsResolver::new(secrets.clone());
    let dup = (1..have.len()).any(|i| have[..i].contains(&have[i]));
    if dup {
        o.label("duplicate ids");
    }
    let asked: Vec<Vec<String>> =
        asks.iter().map(|a| a.iter().map(|(i, n)| n.map_or(name(i).to_string(), |(how, at)| near(name(i), how, at))).collect()).collect();
    for n in NAMES.iter().copied().chain(asked.iter().flatten().map(|s| s.as_str())) {
        let i = have.iter().any(|h| name(h) == n);
        let got = block_on(d.resolve(n)).map_err(|e| Fail { sig: "resolver".into(), msg: e.to_string() })?;
        ensure_eq!(got.is_some(), i, "resolver", "whether {n} resolves");
        if let Some(g) = got {
            let want: Vec<_> = docs.iter().filter(|x| x.id == n).map(|x| format!("{x:?}")).collect();
            ensure!(want.contains(&format!("{g:?}")), "resolver", "{n} resolves to {g:?}");
        }
        let got = block_on(s.get_secret(n)).map_err(|e| Fail { sig: "resolver".into(), msg: e.to_string() })?;
        ensure_eq!(got.is_some(), i, "resolver", "whether {n} is a secret");
        if let Some(g) = got {
            let want: Vec<_> = secrets.iter().filter(|x| x.id == n).map(|x| format!("{x:?}")).collect();
            ensure!(want.contains(&format!("{g:?}")), "resolver", "{n} is the secret {g:?}");
        }
    }
    for a in &asked {
        let q: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let mut got = block_on(s.find_secrets(&q)).map_err(|e| Fail { sig: "resolver".into(), msg: e.to_string() })?;
        let mut want: Vec<&str> = q.iter().copied().filter(|x| have.iter().any(|h| name(h) == *x)).collect();
        // an id asked twice may be told once or twice
        let once = |v: &mut Vec<&str>| {
            let mut seen = HashSet::new();
            v.retain(|x| seen.insert(x.to_string()))
        };
        once(&mut got);
        once(&mut want);
        if !want.is_empty() && want.len() < q.len() {
            o.nt();
        }
        ensure_eq!(got, want, "resolver", "secrets found among {q:?}");
    }
    Ok(())
}

// ---------------------------------------------------------------- C29
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OptCase {
    protect: Option<bool>,
    forward: Option<bool>,
    headers: Option<std::collections::BTreeMap<String, Value>>,
    service: Option<String>,
    auth: bool,
    anon: Option<u8>,
    all: Option<bool>,
    unwrap: Option<bool>,
    st: Style,
}
fn opt_case() -> BoxedStrategy<OptCase> {
    (
        option::of(any::<bool>()),
        option::of(any::<bool>()),
        option::of(proptest::collection::btree_map(text(), json_value(), 0..3)),
        option::of(text()),
        any::<bool>(),
        option::of(0u8..3),
        option::of(any::<bool>()),
        option::of(any::<bool>()),
        style(),
    )
        .prop_map(|(protect, forward, headers, service, auth, anon, all, unwrap, st)| OptCase { protect, forward, headers, service, auth, anon, all, unwrap, st })
        .boxed()
}
const ANON_NAMES: [&str; 3] = ["A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw"];
fn anon_of(i: u8) -> AnonCryptAlg {
    match i {
        0 => AnonCryptAlg::A256cbcHs512EcdhEsA256kw,
        1 => AnonCryptAlg::Xc20pEcdhEsA256kw,
        _ => AnonCryptAlg::A256gcmEcdhEsA256kw,
    }
}
fn check_opts(c: &OptCase, o: &mut Obs) -> Res {
    o.nt();
    let mut m = Map::new();
    put(&mut m, "protect_sender", &c.protect);
    put(&mut m, "forward", &c.forward);
    put(&mut m, "forward_headers", &c.headers);
    put(&mut m, "messaging_service", &c.service);
    if c.auth {
        m.insert("enc_alg_auth".into(), json!("A256cbcHs512Ecdh1puA256kw"));
    }
    put(&mut m, "enc_alg_anon", &c.anon.map(|i| ANON_NAMES[i as usize]));
    o.label(format!("members={}", m.len()));
    let d = PackEncryptedOptions::default();
    ensure_eq!((d.protect_sender, d.forward, &d.forward_headers, &d.messaging_service, &d.enc_alg_anon), (false, true, &None, &None, &AnonCryptAlg::Xc20pEcdhEsA256kw), "defaults", "default options");
    let want = PackEncryptedOptions {
        protect_sender: c.protect.unwrap_or(false),
        forward: c.forward.unwrap_or(true),
        forward_headers: c.headers.clone().map(|h| h.into_iter().collect()),
        messaging_service: c.service.clone(),
        enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
        enc_alg_anon: c.anon.map_or(AnonCryptAlg::Xc20pEcdhEsA256kw, anon_of),
    };
    let s = c.st.write(&Value::Object(m));
    match read_all::<PackEncryptedOptions>(&s)? {
        Ok(v) => {
            for g in v {
                ensure_eq!(g, want, "options", "packing options read from {s}");
            }
        }
        Err(e) => return fail("options", format!("{e}: {s}")),
    }
    let mut m = Map::new();
    put(&mut m, "expect_decrypt_by_all_keys", &c.all);
    put(&mut m, "unwrap_re_wrapping_forward", &c.unwrap);
    let want = UnpackOptions { expect_decrypt_by_all_keys: c.all.unwrap_or(false), unwrap_re_wrapping_forward: c.unwrap.unwrap_or(false) };
    let s = c.st.write(&Value::Object(m));
    match read_all::<UnpackOptions>(&s)? {
        Ok(v) => {
            for g in v {
                ensure_eq!(g, want, "options", "unpacking options read from {s}");
            }
        }
        Err(e) => return fail("options", format!("{e}: {s}")),
    }
    let d = UnpackOptions::default();
    ensure!(!d.expect_decrypt_by_all_keys, "defaults", "default unpacking options: {d:?}");
    for i in 0..3u8 {
        ensure_eq!(json_of(&anon_of(i))?, json!(ANON_NAMES[i as usize]), "algorithm-name", "name of {:?}", anon_of(i));
    }
    ensure_eq!(json_of(&AuthCryptAlg::A256cbcHs512Ecdh1puA256kw)?, json!("A256cbcHs512Ecdh1puA256kw"), "algorithm-name", "name");
    for (a, n) in [(SignAlg::EdDSA, "EdDSA"), (SignAlg::ES256, "ES256"), (SignAlg::ES256K, "ES256K")] {
        ensure_eq!(json_of(&a)?, json!(n), "algorithm-name", "name of {a:?}");
        ensure_eq!(serde_json::from_value::<SignAlg>(json!(n)).ok(), Some(a), "algorithm-name", "algorithm named {n}");
    }
    Ok(())
}
fn bad_opts() -> BoxedStrategy<(u8, u8, u16, Style, bool)> {
    (0u8..10, any::<u8>(), any::<u16>(), style(), proptest::bool::weighted(0.15)).boxed()
}
fn check_bad_opts((how, v, at, st, null): &(u8, u8, u16, Style, bool), o: &mut Obs) -> Res {
    o.nt();
    let mut p = Map::new();
    let mut u = Map::new();
    let known = ["A256cbcHs512EcdhEsA256kw", "Xc20pEcdhEsA256kw", "A256gcmEcdhEsA256kw", "A256cbcHs512Ecdh1puA256kw"];
    let name = match v {
        0..=40 => ["", "XC20P", "xc20pEcdhEsA256kw", "A256cbcHs512EcdhEsA256kw ", "none", "ECDH-ES+A256KW", "A256CBC-HS512"][*v as usize % 7].into(),
        _ => near(known[*at as usize % 4], *v, *at / 4),
    };
    let name = json!(name);
    match how {
        0 => {
            p.insert("protect_sender".into(), wrong('b', *v));
            u.insert("expect_decrypt_by_all_keys".into(), wrong('b', *v));
        }
        1 => {
            p.insert("forward".into(), wrong('b', *v));
            u.insert("unwrap_re_wrapping_forward".into(), wrong('b', *v));
        }
        2 => {
            p.insert("forward_headers".into(), wrong('o', *v));
        }
        3 => {
            p.insert("messaging_service".into(), wrong('s', *v));
        }
        4 => {
            p.insert("enc_alg_auth".into(), name);
        }
        5 => {
            p.insert("enc_alg_anon".into(), name);
        }
        6 => {
            p.insert("enc_alg_auth".into(), json!("Xc20pEcdhEsA256kw"));
        }
        7 => {
            p.insert("enc_alg_anon".into(), json!("A256cbcHs512Ecdh1puA256kw"));
        }
        8 => {
            p.insert("enc_alg_anon".into(), wrong('s', *v));
            if p["enc_alg_anon"].is_object() {
                p["enc_alg_anon"] = json!(1);
            }
        }
        _ => {
            p.insert("enc_alg_auth".into(), json!(true));
        }
    }
    // nothing is not a flag, nor an algorithm
    if *null && !matches!(how, 2 | 3) {
        for x in p.values_mut().chain(u.values_mut()) {
            *x = Value::Null;
        }
        o.label("null");
    }
    let s = st.write(&Value::Object(p));
    if let Ok(v) = read_all::<PackEncryptedOptions>(&s)? {
        return fail("bad-accepted", format!("{s} read as {:?}", v[0]));
    }
    if !u.is_empty() {
        let s = st.write(&Value::Object(u));
        if let Ok(v) = read_all::<UnpackOptions>(&s)? {
            return fail("bad-accepted", format!("{s} read as {:?}", v[0]));
        }
    }
    Ok(())
}
/// the JSON form of what packing and unpacking report
fn check_meta(c: &PackCase, o: &mut Obs) -> Res {
    o.nt();
    c.label(o);
    let (m, md) = c.packed()?;
    ensure_eq!(
        json_of(&md)?,
        json!({"messaging_service": md.messaging_service.as_ref().map(|s| json!({"id": s.id, "service_endpoint": s.service_endpoint})),
               "from_kid": md.from_kid, "sign_by_kid": md.sign_by_kid, "to_kids": md.to_kids}),
        "metadata",
        "JSON form of the packing metadata"
    );
    let (_, u) = unpack(&m, &c.dids(), &c.holder(&md.to_kids), &UnpackOptions { expect_decrypt_by_all_keys: false, unwrap_re_wrapping_forward: c.unwrap })
        .map_err(|e| Fail { sig: "unpack-fails".into(), msg: e.to_string() })?;
    let mut want = Map::new();
    want.insert("encrypted".into(), json!(u.encrypted));
    want.insert("authenticated".into(), json!(u.authenticated));
    want.insert("non_repudiation".into(), json!(u.non_repudiation));
    want.insert("anonymous_sender".into(), json!(u.anonymous_sender));
    want.insert("re_wrapped_in_forward".into(), json!(u.re_wrapped_in_forward));
    want.insert("encrypted_from_kid".into(), json!(u.encrypted_from_kid));
    want.insert("encrypted_to_kids".into(), json!(u.encrypted_to_kids));
    want.insert("sign_from".into(), json!(u.sign_from));
    want.insert("from_prior_issuer_kid".into(), json!(u.from_prior_issuer_kid));
    want.insert("enc_alg_auth".into(), json!(u.enc_alg_auth.as_ref().map(|_| "A256cbcHs512Ecdh1puA256kw")));
    want.insert("enc_alg_anon".into(), json!(u.enc_alg_anon.as_ref().map(|a| (0..3).find(|i| anon_of(*i) == *a).map(|i| ANON_NAMES[i as usize]))));
    want.insert("sign_alg".into(), json!(u.sign_alg.as_ref().map(|a| match a {
        SignAlg::EdDSA => "EdDSA",
        SignAlg::ES256 => "ES256",
        SignAlg::ES256K => "ES256K",
    })));
    want.insert("signed_message".into(), json!(u.signed_message));
    want.insert("from_prior".into(), Value::Null);
    ensure_eq!(json_of(&u)?, Value::Object(want), "metadata", "JSON form of the unpacking metadata");
    Ok(())
}

// ---------------------------------------------------------------- C30
const KINDS: &[(ErrorKind, &str, &str)] = &[
    (ErrorKind::DIDNotResolved, "DID not resolved", "DIDNotResolved"),
    (ErrorKind::DIDUrlNotFound, "DID URL not found", "DIDUrlNotFound"),
    (ErrorKind::SecretNotFound, "Secret not found", "SecretNotFound"),
    (ErrorKind::Malformed, "Malformed", "Malformed"),
    (ErrorKind::IoError, "IO error", "IoError"),
    (ErrorKind::InvalidState, "Invalid state", "InvalidState"),
    (ErrorKind::NoCompatibleCrypto, "No compatible crypto", "NoCompatibleCrypto"),
    (ErrorKind::Unsupported, "Unsupported crypto or method", "Unsupported"),
    (ErrorKind::IllegalArgument, "Illegal argument", "IllegalArgument"),
];
#[derive(Debug)]
struct Cause(String, Option<Box<Cause>>);
impl std::fmt::Display for Cause {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Cause {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.1.as_ref().map(|c| &**c as _)
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ErrCase {
    kind: u8,
    how: u8,
    /// messages, outermost last
    msgs: Vec<String>,
    causes: Vec<String>,
}
fn err_case() -> BoxedStrategy<ErrCase> {
    let t = || prop_oneof!["[a-z ]{1,8}", text()];
    (0u8..9, 0u8..6, prop_oneof![20 => vec(t(), 1..6), 1 => vec(t(), 6..40)], prop_oneof![20 => vec(t(), 1..4), 1 => vec(t(), 4..20)]).prop_map(|(kind, how, msgs, causes)| ErrCase { kind, how, msgs, causes }).boxed()
}
fn check_err(c: &ErrCase, o: &mut Obs) -> Res {
    if c.msgs.len() > 1 {
        o.nt();
    }
    let (kind, name, json_name) = KINDS[c.kind as usize % KINDS.len()];
    o.label(json_name);
    ensure_eq!(kind.to_string(), name, "kind-name", "display of {kind:?}");
    ensure_eq!(json_of(&kind)?, json!(json_name), "kind-name", "JSON form of {kind:?}");
    for (k, n, _) in KINDS {
        ensure_eq!(*k == kind, *n == name, "kind-name", "equality of {k:?} and {kind:?}");
    }
    let cause = || {
        let mut it = c.causes.iter().rev();
        let mut x = Cause(it.next().unwrap().clone(), None);
        for m in it {
            x = Cause(m.clone(), Some(Box::new(x)));
        }
        x
    };
    // what the display shows: the messages from the outermost on, then the chain of causes
    let (e, mut chain): (Result<(), Error>, Vec<String>) = match c.how {
        0 => (Err(Error::msg(kind, c.msgs[0].clone())), vec![c.msgs[0].clone()]),
        1 => (Err(err_msg(kind, c.msgs[0].clone())), vec![c.msgs[0].clone()]),
        2 => (Err(Error::new(kind, cause())), c.causes.clone()),
        3 => {
            let mut ch = vec![c.msgs[0].clone()];
            ch.extend(c.causes.clone());
            (ResultExt::kind(Err::<(), _>(cause()), kind, c.msgs[0].clone()), ch)
        }
        4 => (ResultExtNoContext::kind_no_context(Err::<(), _>(cause()), kind, c.msgs[0].clone()), vec![c.msgs[0].clone()]),
        _ => {
            let k = ResultExtNoContext::<(), _>::to_error_kind(Err(cause()), kind).unwrap_err();
            (Err(Error::msg(k, c.msgs[0].clone())), vec![c.msgs[0].clone()])
        }
    };
    let mut e = e;
    for m in &c.msgs[1..] {
        e = ResultContext::context(e, m.clone());
        chain.insert(0, m.clone());
    }
    let e = e.unwrap_err();
    ensure_eq!(e.kind(), kind, "kind", "kind of the error");
    ensure_eq!(e.to_string(), format!("{name}: {}", chain.join(": ")), "display", "display of the error");
    let dy: &dyn std::error::Error = &e;
    ensure_eq!(dy.to_string(), e.to_string(), "display", "display");
    let src = dy.source().map(|s| s.to_string());
    ensure_eq!(src.as_deref(), Some(&chain[0][..]), "source", "what the error stems from");
    let walk: Vec<String> = std::iter::successors(dy.source(), |e| e.source()).map(|e| e.to_string()).collect();
    ensure_eq!(walk, chain, "source", "chain of causes of the error");
    ensure!(matches!(ResultExt::kind(Ok::<u8, Cause>(7), kind, "x"), Ok(7)), "ok", "success is not passed on");
    ensure!(matches!(ResultContext::context(Ok::<u8, Error>(7), "x"), Ok(7)), "ok", "success is not passed on");
    ensure!(matches!(ResultExtNoContext::kind_no_context(Ok::<u8, Cause>(7), kind, "x"), Ok(7)), "ok", "success is not passed on");
    Ok(())
}
/// errors of the JSON and base58 libraries
fn check_conv((s, cut, b58): &(Value, u16, String), o: &mut Obs) -> Res {
    o.nt();
    let t = s.to_string();
    let mut n = *cut as usize % (t.len() + 1);
    while !t.is_char_boundary(n) {
        n -= 1;
    }
    for u in [&t[..n], b58] {
        if let Err(e) = serde_json::from_str::<Value>(u) {
            let m = e.to_string();
            let r: Result<(), Error> = ToResult::to_didcomm(Err(e), "while reading");
            let e = r.unwrap_err();
            ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "kind of a JSON error for {u:?}");
            ensure_eq!(e.to_string(), format!("Malformed: while reading: {m}"), "display", "display of a JSON error");
        }
        if let Err(e) = serde_json::from_str::<Vec<Vec<u8>>>(u) {
            ensure_eq!(Error::from(e).kind(), ErrorKind::Malformed, "kind", "kind of a JSON error for {u:?}");
        }
    }
    match bs58::decode(b58).into_vec() {
        Ok(v) => {
            o.label("base58");
            let mut small = vec![0u8; v.len().saturating_sub(1)];
            if let Err(e) = bs58::decode(b58).into(&mut small[..]) {
                ensure_eq!(Error::from(e).kind(), ErrorKind::InvalidState, "kind", "kind of a too small buffer");
            }
        }
        Err(e) => {
            o.label("not base58");
            ensure_eq!(Error::from(e).kind(), ErrorKind::Malformed, "kind", "kind of a base58 error for {b58:?}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C23",
            "messages with every member generated (optional members, custom headers, attachments, arbitrary JSON bodies), written with random member order, white space and escapes, read in four ways and compared with the value built in memory, and written back and compared with the model; one member dropped or of a wrong type must be refused; pairs of messages sharing a random subset of members compare equal exactly if all are equal. Non-trivial: a message with content beyond the required members; distinct by the generated case",
            vec![
                part!("roundtrip", 4 * 20_000, 400_000, |_| msg_case(), check_msg),
                part!("reject", 4 * 20_000, 300_000, |_| bad_case(), check_bad),
                part!("equal", 4 * 10_000, 200_000, |_| (msg_case(), msg_case(), any::<u16>()).prop_map(|(a, b, take)| EqCase { a, b, take }).boxed(), check_eq),
            ],
        ),
        prop(
            "C24",
            "random sequences of builder calls (repeats, interleavings, empty lists) interpreted by a model that appends recipients and attachments and overwrites everything else. Non-trivial: at least two calls (one for attachments); distinct by the generated case",
            vec![
                part!("message", 300_000, 3_000_000, |_| b_ops(), check_builder),
                part!("attachment", 300_000, 3_000_000, |_| ab_ops(), check_att_builder),
                part!("from-prior", 4 * 10_000, 100_000, |_| (claims(), claims()).boxed(), check_prior_builder),
            ],
        ),
        prop(
            "C25",
            "attachments of each of the three kinds with every optional member generated, unknown members added, random writing style; encode and decode compared with the model; incomplete or wrongly typed ones must be refused. Non-trivial: all; distinct by the generated case",
            vec![
                part!("roundtrip", 400_000, 4_000_000, |_| att_case(), check_att),
                part!("reject", 400_000, 4_000_000, |_| bad_att(), check_bad_att),
            ],
        ),
        prop(
            "C26",
            "DID documents and secrets with every verification method type, key material form and service kind, unknown members added, random writing style; encode and decode compared with the model; incomplete, unknown-typed or wrongly typed ones must be refused. Non-trivial: a document with at least a method or service; distinct by the generated case",
            vec![
                part!("document", 4 * 20_000, 300_000, |_| doc_case(), check_doc),
                part!("secret", 4 * 20_000, 300_000, |_| (vm_case(), style(), option::weighted(0.3, (unknown_name(&["id", "type", "privateKeyJwk", "privateKeyMultibase", "privateKeyBase58"]), json_value()))).boxed(), check_secret),
                part!("reject", 4 * 20_000, 300_000, |_| (doc_case(), vm_case(), svc_case(), 0u8..12, any::<u8>()).boxed(), check_bad_doc),
            ],
        ),
        prop(
            "C28",
            "stores of up to 5 documents and secrets under ids that are prefixes, suffixes and case variants of each other (repeated ids included), asked for every id and for random lists of ids; compared with exact lookup. Non-trivial: a query answered in part; distinct by the generated case",
            vec![part!("lookup", 1_000_000, 10_000_000, |_| ids_case(), check_resolvers)],
        ),
        prop(
            "C29",
            "options written with any subset of their members in random style and read back against the model of defaults; wrong types and unknown algorithm names must be refused; the JSON forms of the metadata of generated pack/unpack runs compared member by member. Non-trivial: all; distinct by the generated case",
            vec![
                part!("options", 600_000, 4_000_000, |_| opt_case(), check_opts),
                part!("reject", 400_000, 3_000_000, |_| bad_opts(), check_bad_opts),
                part!("metadata", 20_000, 200_000, |_| pack_case(small_message), check_meta),
            ],
        ),
        prop(
            "C30",
            "errors of every kind made in every public way, with chains of causes and contexts added on top, compared with the model of kind, display and source; JSON and base58 library errors from truncated and arbitrary text. Non-trivial: at least one context added (chains), all (conversions); distinct by the generated case",
            vec![
                part!("chain", 4 * 60_000, 600_000, |_| err_case(), check_err),
                part!("convert", 4 * 30_000, 300_000, |_| (json_value(), any::<u16>(), prop_oneof!["[1-9A-HJ-NP-Za-km-z]{0,20}", text()]).boxed(), check_conv),
            ],
        ),
    ]
}
