//! Strategies shared by the properties.
use crate::refimpl::Enc;
use crate::world::*;
use didcomm::algorithms::{AnonCryptAlg, AuthCryptAlg};
use didcomm::{Attachment, AttachmentData, Base64AttachmentData, JsonAttachmentData, LinksAttachmentData};
use didcomm::{Message, PackEncryptedOptions};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::{select, subsequence};
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::BTreeMap;

pub fn text() -> impl Strategy<Value = String> {
    prop_oneof![
        4 => "[a-zA-Z0-9 _.:/#-]{0,12}",
        2 => vec(any::<char>(), 0..8).prop_map(|v| v.into_iter().collect::<String>()),
        1 => select(vec!["", "\"", "\\", "\u{0}", "\n\t", "é", "日本", "\u{10ffff}", "null", "{}", "\u{2028}", "a\"b\\c"]).prop_map(String::from),
        1 => select(vec![
            "did:example:alice", "did:example:bob#key-1", "did:example:Alice", "DID:EXAMPLE:ALICE", "application/didcomm-plain+json", "application/json",
            "application/didcomm-encrypted+json", "https://didcomm.org/routing/2.0/forward", "https://didcomm.org/routing/2.0/forward/", "true", "false", "0",
            "-1", "1e5", "00", " a", "a ", "\ta\n", "a b", "%41", "a%20b", "&amp;", "<b>", "SGVsbG8", "SGVsbG8=", "_-8", "+/8=", "e\u{301}", "\u{e9}",
            "\u{feff}a", "\u{200b}", "\u{7f}", "\u{fffd}", "\r\n", "'", "`", "${a}", "\\u0041", "[]", "\"\"",
        ]).prop_map(String::from),
    ]
}
pub fn num() -> impl Strategy<Value = u64> {
    prop_oneof![
        Just(0u64), Just(1), Just(u64::MAX), Just(1 << 53), Just((1 << 53) + 1), Just(i64::MAX as u64), Just(i64::MAX as u64 + 1),
        0u64..5_000_000_000, any::<u64>()
    ]
}
/// Any JSON value. Floats are dyadic with few digits, so that decimal printing and parsing is exact.
pub fn json_value() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        1 => Just(Value::Null),
        1 => any::<bool>().prop_map(Value::from),
        2 => num().prop_map(Value::from),
        2 => any::<i64>().prop_map(Value::from),
        1 => (-1_000_000i32..1_000_000).prop_map(|i| Value::from(i as f64 / 16.0)),
        4 => text().prop_map(Value::from),
    ];
    leaf.prop_recursive(3, 16, 4, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..4).prop_map(Value::from),
            vec((key(), inner), 0..4).prop_map(|v| Value::Object(v.into_iter().collect::<Map<_, _>>())),
        ]
    })
    .boxed()
}
fn key() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-z_]{1,6}", 1 => text()]
}
/// A custom header name: any string that is not one of the plaintext message's own members.
pub const RESERVED: &[&str] = &[
    "id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments",
];
pub fn header_name() -> impl Strategy<Value = String> {
    prop_oneof![
        1 => unknown_name(RESERVED),
        6 => "[a-z][a-z_-]{0,8}",
        2 => text(),
        1 => select(vec!["Id", "from_", "created", "sender", "ciphertext", "payload", "protected", "kid", "iss", "data", "json", "extra_headers", "type_", "please_ack", "lang"]).prop_map(String::from),
    ]
    .prop_map(|s| if RESERVED.contains(&s.as_str()) { format!("x-{s}") } else { s })
}

/// The name of a member a reader of the `known` ones does not know; often one that resembles them.
pub fn unknown_name(known: &'static [&'static str]) -> impl Strategy<Value = String> {
    prop_oneof![
        2 => (select(known), any::<u8>(), any::<u16>()).prop_map(|(k, how, at)| near(k, how, at)),
        1 => select(vec![
            "x", "mime-type", "mime_type", "mimeType", "extra", "comment", "@id", "@type", "~thread", "@context", "alsoKnownAs", "assertionMethod", "created", "name", "value",
            "url", "uri", "keys", "key", "publicKey", "publicKeyPem", "privateKey", "publicKeyHex", "service_endpoint", "serviceEndpoint", "sender", "sender_did", "recipient",
            "sha256", "size", "length", "time", "timestamp", "lastmod", "version", "kid", "alg", "enc", "typ", "next", "priority", "recipientKeys", "routing_keys",
        ]).prop_map(String::from),
    ]
    .prop_map(move |s| if known.contains(&s.as_str()) { format!("x-{s}") } else { s })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum AttBody {
    Base64(String),
    Json(Value),
    Links(Vec<String>, String),
}
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Att {
    pub body: AttBody,
    pub jws: Option<String>,
    pub id: Option<String>,
    pub description: Option<String>,
    pub filename: Option<String>,
    pub media_type: Option<String>,
    pub format: Option<String>,
    pub lastmod_time: Option<u64>,
    pub byte_count: Option<u64>,
}
impl Att {
    pub fn build(&self) -> Attachment {
        let data = match self.body.clone() {
            AttBody::Base64(base64) => AttachmentData::Base64 { value: Base64AttachmentData { base64, jws: self.jws.clone() } },
            AttBody::Json(json) => AttachmentData::Json { value: JsonAttachmentData { json, jws: self.jws.clone() } },
            AttBody::Links(links, hash) => AttachmentData::Links { value: LinksAttachmentData { links, hash, jws: self.jws.clone() } },
        };
        Attachment {
            data,
            id: self.id.clone(),
            description: self.description.clone(),
            filename: self.filename.clone(),
            media_type: self.media_type.clone(),
            format: self.format.clone(),
            lastmod_time: self.lastmod_time,
            byte_count: self.byte_count,
        }
    }
    /// The JSON the DIDComm specification gives this attachment.
    pub fn model(&self) -> Value {
        let mut d = Map::new();
        match &self.body {
            AttBody::Base64(b) => { d.insert("base64".into(), json!(b)); }
            AttBody::Json(j) => { d.insert("json".into(), j.clone()); }
            AttBody::Links(l, h) => { d.insert("links".into(), json!(l)); d.insert("hash".into(), json!(h)); }
        }
        put(&mut d, "jws", &self.jws);
        let mut m = Map::new();
        m.insert("data".into(), Value::Object(d));
        put(&mut m, "id", &self.id);
        put(&mut m, "description", &self.description);
        put(&mut m, "filename", &self.filename);
        put(&mut m, "media_type", &self.media_type);
        put(&mut m, "format", &self.format);
        put(&mut m, "lastmod_time", &self.lastmod_time);
        put(&mut m, "byte_count", &self.byte_count);
        Value::Object(m)
    }
}
pub fn put<T: Serialize>(m: &mut Map<String, Value>, k: &str, v: &Option<T>) {
    if let Some(v) = v {
        m.insert(k.into(), serde_json::to_value(v).unwrap());
    }
}
pub fn attachment() -> impl Strategy<Value = Att> {
    (
        prop_oneof![
            text().prop_map(AttBody::Base64),
            json_value().prop_map(AttBody::Json),
            (vec(text(), 0..3), text()).prop_map(|(l, h)| AttBody::Links(l, h)),
        ],
        option::of(text()),
        (option::of(text()), option::of(text()), option::of(text()), option::of(text()), option::of(text())),
        option::of(num()),
        option::of(num()),
    )
        .prop_map(|(body, jws, (id, description, filename, media_type, format), lastmod_time, byte_count)| Att {
            body, jws, id, description, filename, media_type, format, lastmod_time, byte_count,
        })
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Msg {
    pub id: String,
    pub type_: String,
    pub body: Value,
    pub thid: Option<String>,
    pub pthid: Option<String>,
    pub created: Option<u64>,
    pub expires: Option<u64>,
    pub extra: BTreeMap<String, Value>,
    pub atts: Option<Vec<Att>>,
    /// length of a filler string put into an object body
    pub fill: u32,
}
impl Msg {
    /// a message with nothing in it
    pub fn bare() -> Self {
        Msg { id: "i".into(), type_: "t/1".into(), body: json!({}), thid: None, pthid: None, created: None, expires: None, extra: BTreeMap::new(), atts: None, fill: 0 }
    }
    pub fn body_value(&self) -> Value {
        let mut b = self.body.clone();
        if self.fill > 0 {
            let s: String = (0..self.fill).map(|i| (b'a' + (i % 23) as u8) as char).collect();
            match &mut b {
                Value::Object(o) => { o.insert("filler".into(), json!(s)); }
                _ => b = json!([b, s]),
            }
        }
        b
    }
    pub fn build(&self, from: Option<&str>, to: Option<Vec<String>>) -> Message {
        let mut m = Message::build(self.id.clone(), self.type_.clone(), self.body_value());
        if let Some(f) = from { m = m.from(f.into()); }
        if let Some(t) = to { m = m.to_many(t); }
        if let Some(t) = &self.thid { m = m.thid(t.clone()); }
        if let Some(t) = &self.pthid { m = m.pthid(t.clone()); }
        if let Some(t) = self.created { m = m.created_time(t); }
        if let Some(t) = self.expires { m = m.expires_time(t); }
        for (k, v) in &self.extra { m = m.header(k.clone(), v.clone()); }
        if let Some(a) = &self.atts { m = m.attachments(a.iter().map(|a| a.build()).collect()); }
        m.finalize()
    }
    /// The plaintext JSON the DIDComm specification gives this message.
    pub fn model(&self, from: Option<&str>, to: Option<&[String]>, from_prior: Option<&str>) -> Value {
        let mut m = Map::new();
        m.insert("id".into(), json!(self.id));
        m.insert("typ".into(), json!(crate::refimpl::TYP_PLAIN));
        m.insert("type".into(), json!(self.type_));
        m.insert("body".into(), self.body_value());
        put(&mut m, "from", &from);
        put(&mut m, "to", &to);
        put(&mut m, "thid", &self.thid);
        put(&mut m, "pthid", &self.pthid);
        put(&mut m, "created_time", &self.created);
        put(&mut m, "expires_time", &self.expires);
        put(&mut m, "from_prior", &from_prior);
        for (k, v) in &self.extra { m.insert(k.clone(), v.clone()); }
        if let Some(a) = &self.atts { m.insert("attachments".into(), Value::Array(a.iter().map(|a| a.model()).collect())); }
        Value::Object(m)
    }
    /// Makes members agree that have nothing to do with each other.
    fn twist(&mut self, t: u8) {
        let (a, b, c) = (Some(self.id.clone()), self.thid.clone().or(self.pthid.clone()), self.created.or(self.expires));
        match t % 12 {
            0 => {}
            1 => self.thid = a,
            2 => self.pthid = a,
            3 => (self.thid, self.pthid) = (a.clone(), a),
            4 => (self.thid, self.pthid) = (b.clone(), b),
            5 => (self.created, self.expires) = (c, c),
            6 => (self.created, self.expires) = (c.map(|x| x.max(1)), c.map(|x| x.max(1) - 1)),
            7 => (self.created, self.expires) = (Some(0), Some(0)),
            8 => self.type_ = self.id.clone(),
            9 => {
                if let Some(x) = self.atts.as_mut().and_then(|v| v.last().cloned()) {
                    self.atts.as_mut().unwrap().insert(0, x);
                }
            }
            10 => {
                for x in self.atts.iter_mut().flatten() {
                    x.id = Some(self.id.clone());
                    x.byte_count = x.lastmod_time;
                }
            }
            _ => {
                if let Some(v) = self.extra.values().next().cloned() {
                    for x in self.extra.values_mut() {
                        *x = v.clone();
                    }
                    self.body = v;
                }
            }
        }
    }
    pub fn rich(&self) -> bool {
        !self.extra.is_empty() || self.atts.as_ref().map_or(false, |a| !a.is_empty()) || self.body.as_object().map_or(true, |o| !o.is_empty())
    }
}
pub fn msg_id() -> impl Strategy<Value = String> {
    prop_oneof![3 => "[a-z0-9-]{1,12}", 1 => text()]
}
pub fn message() -> BoxedStrategy<Msg> {
    (
        msg_id(),
        prop_oneof![3 => Just("http://example.com/protocols/lets_do_lunch/1.0/proposal".to_string()), 1 => text()],
        json_value(),
        (option::of(text()), option::of(text()), option::of(num()), option::of(num())),
        prop_oneof![
            20 => Just(BTreeMap::new()),
            20 => proptest::collection::btree_map(header_name(), json_value(), 0..4),
            1 => proptest::collection::btree_map(header_name(), json_value(), 4..14),
        ],
        prop_oneof![20 => Just(None), 20 => vec(attachment(), 0..3).prop_map(Some), 1 => vec(attachment(), 3..9).prop_map(Some)],
        prop_oneof![120 => Just(0u32), 20 => 1u32..70, 20 => 1u32..4000, 2 => 4000u32..65_000, 1 => 65_000u32..66_000, 1 => 66_000u32..300_000],
        (prop_oneof![6 => Just(0u8), 1 => any::<u8>()], prop_oneof![24 => Just(0u8), 1 => 1u8..60]),
    )
        .prop_map(|(id, type_, body, (thid, pthid, created, expires), extra, atts, fill, (twist, deep))| {
            // the routing protocol's type has a meaning of its own; C21/C22 generate it on purpose
            let mut m = Msg { id, type_, body, thid, pthid, created, expires, extra, atts, fill };
            m.twist(twist);
            for i in 0..deep {
                m.body = if i % 2 == 0 { json!([m.body]) } else { json!({ "d": m.body }) };
            }
            m
        })
        .boxed()
}
/// A small message, for properties about envelopes rather than content.
pub fn small_message() -> BoxedStrategy<Msg> {
    ("[a-z0-9]{1,6}", "[ -~]{0,20}", option::of(num()), prop_oneof![40 => Just(0u32), 10 => 1u32..200, 1 => 200u32..2000])
        .prop_map(|(id, b, created, fill)| Msg {
            id, type_: "t/1".into(), body: json!({"b": b}), thid: None, pthid: None, created, expires: None,
            extra: BTreeMap::new(), atts: None, fill,
        })
        .boxed()
}

pub const FRAGS: &[&str] = &["key-1", "key-10", "key-2", "1", "k", "key", "Key-1", "a.b", "ключ", "z.key-1", "0", "key-1.0", "_", "keys/1?x", "key-1#2",
    "a-fragment-that-is-quite-a-bit-longer-than-the-others-and-than-the-block-size-of-any-hash-function-0123456789abcdef0123456789abcdef0123456789abcdef"];
/// For parties with more keys than that.
pub const MORE_FRAGS: &[&str] = &["k03", "k04", "k05", "k06", "k07", "k08", "k09", "k11", "k12", "k13", "k14", "k15", "z6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc"];
pub const DIDS: &[&str] = &[
    "did:example:alice", "did:example:bob", "did:example:alice2", "did:web:example.com:user:1", "did:key:z6Mk", "did:example:ali",
    "did:peer:2.Ez6LS.Vz6Mk.SeyJ0", "did:example:Bob", "did:x:1;a=b", "did:sov:1/path?q=1",
    // as long as the did:peer:2 of a party with a few keys and services
    "did:peer:2.Ez6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc.Vz6MkqRYqQiSgvZQdnBytw86Qbs2ZWUkGv22od935YF4s8M7V.Vz6MkgoLTnTypo3tDRCvkRXSTPhTzWKTzY4UvTKHxHPi8hHJ3.SeyJ0IjoiZG0iLCJzIjoiaHR0cHM6Ly9leGFtcGxlLmNvbS9lbmRwb2ludDEiLCJyIjpbImRpZDpleGFtcGxlOnNvbWVtZWRpYXRvciNzb21la2V5MSJdLCJhIjpbImRpZGNvbW0vdjIiXX0",
    "did:ethr:0x5f3ab1c4:with-a-rather-long-method-specific-identifier:0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef",
];
/// `n` different DIDs.
pub fn dids(n: usize) -> impl Strategy<Value = Vec<String>> {
    (Just(DIDS.to_vec()).prop_shuffle(), any::<bool>()).prop_map(move |(v, plain)| {
        let v: Vec<String> = if plain {
            ["alice", "bob", "carol", "dave", "erin", "frank", "gina", "henk"].iter().map(|s| format!("did:example:{s}")).collect()
        } else {
            v.into_iter().map(String::from).collect()
        };
        v[..n].to_vec()
    })
}
pub fn fmt_for(kt: Kt) -> BoxedStrategy<Fmt> {
    match kt {
        Kt::P256 | Kt::K256 => Just(Fmt::Jwk).boxed(),
        _ => select(vec![Fmt::Jwk, Fmt::B58, Fmt::Mb]).boxed(),
    }
}
fn key_of(kts: &'static [Kt], secret_p: f64) -> impl Strategy<Value = (Kt, Fmt, Fmt, bool)> {
    select(kts.to_vec()).prop_flat_map(move |kt| (Just(kt), fmt_for(kt), fmt_for(kt), if secret_p >= 1.0 { Just(true).boxed() } else { proptest::bool::weighted(secret_p).boxed() }))
}
pub const KA_KTS: &[Kt] = &[Kt::X25519, Kt::P256];
pub const AUTH_KTS: &[Kt] = &[Kt::Ed25519, Kt::P256, Kt::K256];
/// A party with key agreement keys of the kinds in `ka` (count in range) and authentication keys of the kinds in `auth`.
pub fn party_with(
    did: String,
    ka: &'static [Kt],
    nka: std::ops::Range<usize>,
    auth: &'static [Kt],
    nauth: std::ops::Range<usize>,
    secret_p: f64,
) -> BoxedStrategy<Party> {
    (
        vec(key_of(ka, secret_p), nka),
        vec(key_of(auth, secret_p), nauth),
        Just(FRAGS.to_vec()).prop_shuffle().prop_map(|v| [v, MORE_FRAGS.to_vec()].concat()),
        0u16..1000,
        0u8..4,
        prop_oneof![2 => Just(vec![]), 1 => vec(noise(), 1..4)],
    )
        .prop_map(move |(ka, auth, frags, salt, rot, noise)| {
            let mut it = frags.iter();
            let mut mk = |(kt, fmt, sfmt, secret): (Kt, Fmt, Fmt, bool)| Key { kt, fmt, sfmt, frag: it.next().unwrap().to_string(), secret };
            let ka: Vec<Key> = ka.into_iter().map(&mut mk).collect();
            let auth: Vec<Key> = auth.into_iter().map(&mut mk).collect();
            Party { did: did.clone(), salt, ka, auth, services: vec![], rot, noise }
        })
        .boxed()
}
fn noise() -> impl Strategy<Value = Noise> {
    (any::<u16>(), any::<u8>(), any::<(u8, u16)>(), any::<u16>()).prop_map(|(of, kind, near, at)| Noise { of, kind, near, at })
}
/// The usual party: 1-4 key agreement keys, 1-3 authentication keys, all secrets held.
pub fn party(did: String) -> BoxedStrategy<Party> {
    prop_oneof![
        48 => party_with(did.clone(), KA_KTS, 1..5, AUTH_KTS, 1..4, 1.0),
        2 => party_with(did.clone(), KA_KTS, 5..9, AUTH_KTS, 4..7, 1.0),
        1 => prop_oneof![
            1 => party_with(did.clone(), KA_KTS, 9..25, AUTH_KTS, 1..4, 1.0),
            2 => party_with(did.clone(), &[Kt::X25519], 9..25, AUTH_KTS, 1..4, 1.0),
            1 => party_with(did.clone(), &[Kt::P256], 9..25, AUTH_KTS, 1..4, 1.0),
            1 => party_with(did, KA_KTS, 1..4, AUTH_KTS, 9..20, 1.0),
        ],
    ]
    .boxed()
}
pub fn parties(n: usize) -> BoxedStrategy<Vec<Party>> {
    dids(n).prop_flat_map(|d| d.into_iter().map(party).collect::<Vec<_>>()).boxed()
}
/// Makes the pair able to talk: gives `b` a key of the kind of `a`'s first key agreement key if they share none.
pub fn make_compatible(a: &Party, b: &mut Party) {
    if !b.ka.iter().any(|k| a.ka.iter().any(|x| x.kt == k.kt)) {
        let kt = a.ka[0].kt;
        if kt == Kt::P256 {
            b.ka[0].fmt = Fmt::Jwk;
            b.ka[0].sfmt = Fmt::Jwk;
        }
        b.ka[0].kt = kt;
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub struct Opts {
    pub protect_sender: bool,
    pub anon: Enc,
    pub forward: bool,
}
pub fn anon_alg(e: Enc) -> AnonCryptAlg {
    match e {
        Enc::Cbc => AnonCryptAlg::A256cbcHs512EcdhEsA256kw,
        Enc::Xc20p => AnonCryptAlg::Xc20pEcdhEsA256kw,
        Enc::Gcm => AnonCryptAlg::A256gcmEcdhEsA256kw,
    }
}
impl Opts {
    pub fn build(&self) -> PackEncryptedOptions {
        PackEncryptedOptions {
            protect_sender: self.protect_sender,
            forward: self.forward,
            forward_headers: None,
            messaging_service: None,
            enc_alg_auth: AuthCryptAlg::A256cbcHs512Ecdh1puA256kw,
            enc_alg_anon: anon_alg(self.anon),
        }
    }
}
pub fn enc() -> impl Strategy<Value = Enc> + Clone {
    select(vec![Enc::Xc20p, Enc::Cbc, Enc::Gcm])
}
pub fn opts() -> impl Strategy<Value = Opts> {
    (any::<bool>(), enc(), any::<bool>()).prop_map(|(protect_sender, anon, forward)| Opts { protect_sender, anon, forward })
}
pub fn layout() -> impl Strategy<Value = crate::refimpl::Layout> {
    (0u8..8, any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(
        |(rotate, pretty, extra, omit_typ, omit_skid, short_typ)| crate::refimpl::Layout { rotate, pretty, extra, omit_typ, omit_skid, short_typ },
    )
}
pub fn sub<T: Clone + std::fmt::Debug + 'static>(v: Vec<T>, n: std::ops::RangeInclusive<usize>) -> impl Strategy<Value = Vec<T>> {
    subsequence(v, n)
}
pub fn idx() -> impl Strategy<Value = u16> {
    any::<u16>()
}
/// Picks by index, shrinking towards the first.
pub fn pick<T>(v: &[T], i: u16) -> &T {
    &v[i as usize % v.len()]
}
pub fn kind(e: &didcomm::error::Error) -> didcomm::error::ErrorKind {
    e.kind()
}

/// How to write a JSON value down: member order, white space and string escapes are all free choices of a sender.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq, Default)]
pub struct Style {
    pub seed: u32,
    pub space: bool,
    pub shuffle: bool,
    pub escape: bool,
}
/// How a string may be written: as the style has it, without needless escapes, or with exactly one.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Esc {
    Free,
    Never,
    Once,
}
pub fn style() -> impl Strategy<Value = Style> {
    (any::<u32>(), any::<bool>(), any::<bool>(), any::<bool>()).prop_map(|(seed, space, shuffle, escape)| Style { seed, space, shuffle, escape })
}
impl Style {
    pub fn write(&self, v: &Value) -> String {
        self.write_with(v, &|_, _| Esc::Free)
    }
    /// `esc` says, for the path of a string value (member names; arrays add nothing), how it may be written.
    pub fn write_with(&self, v: &Value, esc: &dyn Fn(&[String], &str) -> Esc) -> String {
        let mut s = String::new();
        let mut n = (self.seed as u64) << 8 | 1;
        self.ws(&mut s, &mut n);
        self.put(v, &mut s, &mut n, &mut vec![], esc);
        self.ws(&mut s, &mut n);
        s
    }
    fn next(n: &mut u64) -> u64 {
        *n = n.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = *n;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn ws(&self, s: &mut String, n: &mut u64) {
        if self.space {
            s.push_str(["", " ", "\n", "\t", "\r\n  ", ""][(Self::next(n) % 6) as usize]);
        }
    }
    fn string(&self, t: &str, s: &mut String, n: &mut u64, esc: Esc) {
        if esc == Esc::Never || esc == Esc::Free && !self.escape {
            s.push_str(&Value::from(t).to_string());
            return;
        }
        s.push('"');
        let forced = if esc == Esc::Once { Self::next(n) as usize % t.chars().count().max(1) } else { 0 };
        for (i, c) in t.chars().enumerate() {
            let must = c == '"' || c == '\\' || (c as u32) < 0x20;
            let r = match esc {
                Esc::Once => (i == forced) as u64,
                _ => Self::next(n) % 3,
            };
            if c == '/' && r == 0 {
                s.push_str("\\/");
            } else if must || r == 1 {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    s.push_str(&if Self::next(n) % 2 == 0 { format!("\\u{u:04x}") } else { format!("\\u{u:04X}") });
                }
            } else {
                s.push(c);
            }
        }
        s.push('"');
    }
    fn put(&self, v: &Value, s: &mut String, n: &mut u64, path: &mut Vec<String>, esc: &dyn Fn(&[String], &str) -> Esc) {
        match v {
            Value::String(t) => self.string(t, s, n, esc(path, t)),
            Value::Array(a) => {
                s.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    self.ws(s, n);
                    self.put(x, s, n, path, esc);
                    self.ws(s, n);
                }
                s.push(']');
            }
            Value::Object(o) => {
                let mut m: Vec<_> = o.iter().collect();
                if self.shuffle {
                    for i in (1..m.len()).rev() {
                        m.swap(i, (Self::next(n) % (i as u64 + 1)) as usize);
                    }
                }
                s.push('{');
                for (i, (k, x)) in m.into_iter().enumerate() {
                    if i > 0 {
                        s.push(',');
                    }
                    self.ws(s, n);
                    self.string(k, s, n, Esc::Free);
                    self.ws(s, n);
                    s.push(':');
                    self.ws(s, n);
                    path.push(k.clone());
                    self.put(x, s, n, path, esc);
                    path.pop();
                    self.ws(s, n);
                }
                s.push('}');
            }
            _ => s.push_str(&v.to_string()),
        }
    }
}

/// Another string that resembles `s`: an identifier or a name somebody might take for it.
pub fn near(s: &str, how: u8, at: u16) -> String {
    let cs: Vec<char> = s.chars().collect();
    let i = at as usize % cs.len().max(1);
    let with = |f: &dyn Fn(&mut Vec<char>)| {
        let mut v = cs.clone();
        f(&mut v);
        v.into_iter().collect::<String>()
    };
    let flip = |c: char| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
    let r = match how % 41 {
        0 => match (0..cs.len()).map(|k| (k + i) % cs.len()).find(|k| cs[*k].is_ascii_alphabetic()) {
            Some(k) => with(&|v| v[k] = flip(v[k])),
            None => format!("{s}A"),
        },
        1 => s.to_uppercase(),
        2 => s.to_lowercase(),
        3 if !cs.is_empty() => with(&|v| {
            v.remove(i);
        }),
        4 => with(&|v| v.insert(i, ['a', '0', '-', '/', '.', ':', '#', '?', '_', 'é'][at as usize / 64 % 10])),
        5 => format!("{s} "),
        6 => format!(" {s}"),
        7 if !cs.is_empty() => cs[..i].iter().collect(),
        8 => cs[i.min(cs.len())..].iter().collect(),
        9 => format!("{s}#{}", ["", "x", "key-1"][at as usize % 3]),
        10 => format!("{s}?{}", ["", "versionId=1", "service=files"][at as usize % 3]),
        11 => format!("{s}{}", ["/", "/x", ";x=y", "\n", "\0", "0", "1", "s", "x", ".", ".1", "+"][at as usize % 12]),
        12 => format!("{s}{s}"),
        // a number one up or down
        13 | 14 => match (0..cs.len()).map(|k| (k + i) % cs.len()).find(|k| cs[*k].is_ascii_digit()) {
            Some(k) => with(&|v| v[k] = char::from_digit((v[k].to_digit(10).unwrap() + if how % 2 == 0 { 1 } else { 9 }) % 10, 10).unwrap()),
            None => format!("{s}1"),
        },
        15 => s.replace('-', "_"),
        16 => s.replace(['-', '_', '/', ':'], ""),
        17 => s.replace("https://", "http://").replace("did:", "DID:"),
        18 => s.replace('.', "x"),
        19 => cs.iter().rev().collect(),
        20 => match cs.get(i) {
            Some(c) if c.is_ascii() => format!("{}%{:02X}{}", cs[..i].iter().collect::<String>(), *c as u32, cs[i + 1..].iter().collect::<String>()),
            _ => format!("{s}%20"),
        },
        // the parts before and after the fragment, and another fragment
        21 => s.split('#').next().unwrap_or("").into(),
        22 => s.split_once('#').map_or(format!("#{s}"), |(_, f)| format!("#{f}")),
        23 => s.split_once('#').map_or(s.to_string(), |(_, f)| f.into()),
        24 => s.split_once('#').map_or(format!("{s}#"), |(d, f)| format!("{d}x#{f}")),
        25 => s.split_once('#').map_or(format!("x{s}"), |(d, f)| format!("{d}?a=b#{f}")),
        26 => s.split_once('#').map_or(s.replacen("s://", "s:/", 1), |(d, f)| format!("{d}/#{f}")),
        27 => s.rsplit_once('/').map_or(format!("/{s}"), |(a, b)| format!("{a}//{b}")),
        28 => s.replacen(['a', 'e', 'o'], "\u{430}", 1),
        // snake and camel case
        30 | 31 => {
            let mut up = false;
            let mut r = String::new();
            for c in &cs {
                match c {
                    '_' => up = true,
                    c if up => {
                        r.push(c.to_ascii_uppercase());
                        up = false;
                    }
                    c => r.push(*c),
                }
            }
            r
        }
        32 | 33 => cs.iter().flat_map(|c| if c.is_ascii_uppercase() { vec!['_', c.to_ascii_lowercase()] } else { vec![*c] }).collect(),
        34 => s.replace('_', "-"),
        35 => format!("@{s}"),
        36 => s.split(['_', '-']).next_back().unwrap_or("").into(),
        37 => s.split(['_', '-']).next().unwrap_or("").into(),
        38 => format!("_{s}"),
        39 => format!("{s}_"),
        _ => String::new(),
    };
    if r == s {
        format!("{s}\u{200b}")
    } else {
        r
    }
}
