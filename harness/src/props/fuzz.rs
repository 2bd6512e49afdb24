//! C17: nothing that comes from outside makes the library panic, overflow the stack, or go on for ever.
use super::common::*;
use super::envelope::{in_case_of, InCase};
use super::ops::{opname, usable, world_case, Op, World};
use super::routing::FORWARD;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::part;
use didcomm::did::{DIDDoc, VerificationMaterial, VerificationMethodType};
use didcomm::error::Error;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::secrets::{Secret, SecretMaterial, SecretType};
use didcomm::{Attachment, FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::cell::Cell;

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C17",
        "Structure-aware fuzzing: text made of DIDComm member names; real envelopes mutated in the JSON tree, also inside their base64url members, at every layer (the mutated layer is encrypted or signed again where it is inside another) and in the plaintext, with forwards and rotation tokens among them; key material of every type, form, length and codec in documents and secrets; documents with odd services, ids and references; arbitrary strings for every argument; deeply nested and very large inputs on a 2 MB stack. A panic, an abort or a case that does not end is the violation. Non-trivial: the input got past parsing as JSON, or an operation really used the odd value.",
        vec![
            part!("text", 40000, 2000000, |_| text_case(), check_text),
            part!("args", 6000, 400000, |_| arg_case(), check_args),
            part!("layers", 16000, 800000, |_| layer_case(), check_layers),
            part!("consistent", 16000, 800000, |_| consistent_case(), check_consistent),
            part!("keys", 9000, 500000, |_| key_case(), check_keys),
            part!("docs", 7000, 400000, |_| doc_case(), check_docs),
            part!("deep", 150, 3000, |_| deep_case(), check_deep),
        ],
    )]
}

// ---------------------------------------------------------------- choices and mutation
/// A finite source of choices; zeros once it is used up, so that shrinking it shrinks what is made of it.
pub struct Tape<'a> {
    v: &'a [u32],
    i: Cell<usize>,
}
impl<'a> Tape<'a> {
    pub fn new(v: &'a [u32]) -> Tape<'a> {
        Tape { v, i: Cell::new(0) }
    }
    pub fn next(&self) -> u32 {
        let i = self.i.get();
        self.i.set(i + 1);
        self.v.get(i).copied().unwrap_or(0)
    }
    pub fn below(&self, n: usize) -> usize {
        self.next() as usize % n.max(1)
    }
    pub fn bytes(&self, n: usize) -> Vec<u8> {
        let s = self.next();
        match s % 4 {
            0 => vec![(s >> 8) as u8; n],
            _ => rf::det(s as u64, "tape", n),
        }
    }
}
pub const WORDS: &[&str] = &[
    "", "z", "did", "did:", "did::", "did:a:b", "did:a:b#", "#", "did:example:alice#", "did:example:bob", "a#b#c", "\u{0}", "é", "日", "=", "==", "AA", "A", "AAAA", "-_", "*", ".", "..", "a.b.c",
    "e30", "W10", "bnVsbA", "null", "{}", "[]", "http://x", "P-256", "X25519", "Ed25519", "secp256k1", "OKP", "EC", "RSA", "none", "ECDH-ES+A256KW", "ECDH-1PU+A256KW", "A256GCM", "XC20P", "A256CBC-HS512", "EdDSA", "ES256", "ES256K",
    "JWT", "application/didcomm-plain+json", "application/didcomm-encrypted+json", "application/didcomm-signed+json", "https://didcomm.org/routing/2.0/forward", "0", "-1", "\u{10ffff}", "\u{202e}x", "%00", "z11111", "zz",
];
pub const MEMBERS: &[&str] = &[
    "id", "typ", "type", "body", "from", "to", "thid", "pthid", "created_time", "expires_time", "from_prior", "attachments", "data", "json", "base64", "links", "hash", "jws", "next", "protected", "recipients", "header", "kid", "encrypted_key", "iv", "ciphertext",
    "tag", "payload", "signatures", "signature", "alg", "enc", "skid", "apu", "apv", "epk", "kty", "crv", "x", "y", "d", "crit", "zip", "iss", "sub", "aud", "exp", "nbf", "iat", "jti", "filename", "media_type", "format", "lastmod_time", "byte_count", "description",
];
fn odd(t: &Tape, old: &Value) -> Value {
    match t.below(18) {
        0 => Value::Null,
        1 => json!(true),
        2 => json!([0i64, -1, 1, i64::MAX, i64::MIN][t.below(5)]),
        3 => json!(u64::MAX),
        4 => json!(1e308),
        5 => json!(WORDS[t.below(WORDS.len())]),
        6 => json!([]),
        7 => json!({}),
        8 => json!([old]),
        9 => json!({MEMBERS[t.below(MEMBERS.len())]: old}),
        10 => json!(WORDS[t.below(WORDS.len())].repeat(1 + t.below(400))),
        11 => {
            let n = t.below(100);
            json!(rf::b64(&t.bytes(n)))
        }
        12 => json!(vec![old.clone(); 1 + t.below(5)]),
        13 => json!(old.to_string()),
        14 => json!(rf::b64(old.to_string().as_bytes())),
        15 => (0..t.below(60)).fold(json!(1), |v, _| json!([v])),
        16 => json!(0.1),
        _ => json!(t.next()),
    }
}
fn mutate_str(t: &Tape, s: &str) -> Value {
    let dec = rf::unb64(s);
    if let Some(b) = &dec {
        if let Ok(mut v) = serde_json::from_slice::<Value>(b) {
            if v.is_object() && t.below(6) != 0 {
                mutate(t, &mut v);
                return json!(rf::b64(v.to_string().as_bytes()));
            }
        }
        if b.len() >= 4 && t.below(3) != 0 {
            let mut b = b.clone();
            match t.below(6) {
                0 => b.truncate(t.below(b.len())),
                1 => {
                    let n = t.below(40);
                    b.extend(t.bytes(n))
                }
                2 => {
                    let i = t.below(b.len());
                    b[i] ^= 1 << t.below(8)
                }
                3 => {
                    let n = b.len();
                    b = t.bytes(n)
                }
                4 => b.rotate_left(1),
                _ => {
                    b.remove(0);
                }
            }
            return json!(rf::b64(&b));
        }
    }
    let mut c: Vec<char> = s.chars().collect();
    let i = t.below(c.len() + 1);
    match t.below(4) {
        0 => c.truncate(i),
        1 => c.insert(i, ['#', ':', '.', '=', 'é', '\0', '"', '日', ' ', '+'][t.below(10)]),
        2 => {
            c.drain(..i);
        }
        _ => c = c.iter().chain(c.iter()).copied().collect(),
    }
    json!(c.into_iter().collect::<String>())
}
/// One change somewhere in the tree.
pub fn mutate(t: &Tape, v: &mut Value) {
    let down = t.below(5) != 0;
    match v {
        Value::Object(o) if !o.is_empty() => {
            let k = o.keys().nth(t.below(o.len())).unwrap().clone();
            if down {
                return mutate(t, o.get_mut(&k).unwrap());
            }
            match t.below(5) {
                0 => {
                    o.remove(&k);
                }
                1 => {
                    let old = o[&k].clone();
                    o.insert(MEMBERS[t.below(MEMBERS.len())].into(), odd(t, &old));
                }
                2 => {
                    let x = o.remove(&k).unwrap();
                    o.insert(MEMBERS[t.below(MEMBERS.len())].into(), x);
                }
                3 => {
                    let k2 = o.keys().nth(t.below(o.len())).unwrap().clone();
                    let x = o[&k2].clone();
                    o.insert(k, x);
                }
                _ => {
                    let x = odd(t, &o[&k]);
                    o.insert(k, x);
                }
            }
        }
        Value::Array(a) if !a.is_empty() => {
            let i = t.below(a.len());
            if down {
                return mutate(t, &mut a[i]);
            }
            match t.below(4) {
                0 => {
                    a.remove(i);
                }
                1 => {
                    let x = a[i].clone();
                    a.insert(i, x)
                }
                2 => a.reverse(),
                _ => {
                    let x = odd(t, &a[i]);
                    a[i] = x
                }
            }
        }
        Value::String(s) if t.below(3) != 0 => *v = mutate_str(t, s),
        x => *x = odd(t, x),
    }
}
pub fn tape(n: std::ops::Range<usize>) -> impl Strategy<Value = Vec<u32>> {
    vec(any::<u32>(), n)
}
pub fn mutate_text(t: &Tape, s: &str) -> String {
    match serde_json::from_str::<Value>(s) {
        Ok(mut v) => {
            for _ in 0..1 + t.below(3) {
                mutate(t, &mut v);
            }
            v.to_string()
        }
        Err(_) => s.to_string(),
    }
}
fn kind_of<T>(r: &Result<T, Error>) -> String {
    match r {
        Ok(_) => "ok".into(),
        Err(e) => format!("{:?}", e.kind()),
    }
}
/// Everything that reads text handed in from outside.
fn read_all(s: &str, d: &Dids, x: &Secs, o: &mut Obs) {
    for (a, b) in [(false, true), (true, true), (false, false)] {
        let r = unpack(s, d, x, &UnpackOptions { expect_decrypt_by_all_keys: a, unwrap_re_wrapping_forward: b });
        o.inner += 1;
        if b && !a {
            o.label(format!("unpack:{}", kind_of(&r)));
        }
        if let Ok((m, md)) = r {
            let _ = try_parse_forward(&m).map(|f| (f.next.len(), f.forwarded_msg.to_string()));
            let _ = (serde_json::to_string(&m), serde_json::to_string(&md), format!("{m:?}{md:?}"));
            let _ = block_on(m.pack_plaintext(d));
        }
    }
    let _ = block_on(FromPrior::unpack(s, d));
    let _ = serde_json::from_str::<Message>(s);
    let _ = serde_json::from_str::<DIDDoc>(s);
    let _ = serde_json::from_str::<Secret>(s);
    let _ = serde_json::from_str::<Attachment>(s);
    let _ = serde_json::from_str::<PackEncryptedOptions>(s);
    let _ = serde_json::from_str::<UnpackOptions>(s);
}

// ---------------------------------------------------------------- text
#[derive(Clone, Debug, Serialize, Deserialize)]
struct TextCase {
    raw: String,
}
fn soup() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        6 => select(WORDS).prop_map(|s| json!(s)),
        2 => num().prop_map(Value::from),
        1 => Just(Value::Null),
        2 => vec(any::<u8>(), 0..40).prop_map(|b| json!(rf::b64(&b))),
        1 => text().prop_map(Value::from),
    ];
    leaf.prop_recursive(4, 24, 6, |inner| {
        prop_oneof![
            1 => vec(inner.clone(), 0..4).prop_map(Value::from),
            4 => vec((select(MEMBERS), inner.clone()), 0..7).prop_map(|v| Value::Object(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect::<Map<_, _>>())),
            2 => inner.prop_map(|v| json!(rf::b64(v.to_string().as_bytes()))),
        ]
    })
    .boxed()
}
/// Objects with the members an envelope needs, filled with soup.
fn shaped() -> BoxedStrategy<Value> {
    let b = || prop_oneof![3 => soup().prop_map(|v| json!(rf::b64(v.to_string().as_bytes()))), 1 => soup()];
    let hdr = || {
        (select(WORDS), select(WORDS), select(WORDS), soup(), option::of(b()), option::of(b()), option::of(soup())).prop_map(|(typ, alg, enc, epk, apu, apv, skid)| {
            let mut m = json!({"typ": typ, "alg": alg, "enc": enc, "epk": epk});
            for (k, v) in [("apu", apu), ("apv", apv), ("skid", skid)] {
                if let Some(v) = v {
                    m[k] = v;
                }
            }
            json!(rf::b64(m.to_string().as_bytes()))
        })
    };
    prop_oneof![
        (hdr(), vec((soup(), b()), 0..3), b(), b(), b()).prop_map(|(p, rs, iv, ct, tag)| json!({
            "protected": p, "recipients": rs.into_iter().map(|(k, e)| json!({"header": {"kid": k}, "encrypted_key": e})).collect::<Vec<_>>(), "iv": iv, "ciphertext": ct, "tag": tag})),
        (b(), vec((soup(), hdr(), b()), 0..3)).prop_map(|(p, ss)| json!({"payload": p, "signatures": ss.into_iter().map(|(k, h, s)| json!({"header": {"kid": k}, "protected": h, "signature": s})).collect::<Vec<_>>()})),
        (soup(), select(WORDS), soup(), option::of(soup())).prop_map(|(id, ty, body, att)| {
            let mut m = json!({"id": id, "typ": "application/didcomm-plain+json", "type": ty, "body": body});
            if let Some(a) = att {
                m["attachments"] = a;
            }
            m
        }),
    ]
    .boxed()
}
fn text_case() -> BoxedStrategy<TextCase> {
    prop_oneof![
        2 => vec(prop_oneof![4 => any::<u8>().prop_map(|b| b as char), 1 => any::<char>()], 0..60).prop_map(|v| v.into_iter().collect::<String>()),
        4 => soup().prop_map(|v| v.to_string()),
        8 => shaped().prop_map(|v| v.to_string()),
        2 => (soup(), soup(), vec(any::<u8>(), 0..70)).prop_map(|(h, p, s)| format!("{}.{}.{}", rf::b64(h.to_string().as_bytes()), rf::b64(p.to_string().as_bytes()), rf::b64(&s))),
        1 => vec(select(vec!["{", "}", "[", "]", "\"", ":", ",", "\\", "\\u", "d800", "null", "1e", "-", "id", "\"body\":", "\"type\":\"x\""]), 0..40).prop_map(|v| v.concat()),
    ]
    .prop_map(|raw| TextCase { raw })
    .boxed()
}
fn check_text(c: &TextCase, o: &mut Obs) -> Res {
    if serde_json::from_str::<Value>(&c.raw).map_or(false, |v| v.is_object()) {
        o.nt();
    }
    read_all(&c.raw, &Dids::new(vec![]), &Secs::new(vec![]), o);
    Ok(())
}

// ---------------------------------------------------------------- layers
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LayerCase {
    inn: InCase,
    layer: u8,
    fwd: bool,
    token: bool,
    choices: Vec<u32>,
}
fn layer_case() -> BoxedStrategy<LayerCase> {
    (in_case_of(small_message), 0u8..5, prop::bool::weighted(0.3), prop::bool::weighted(0.3), tape(1..24))
        .prop_map(|(inn, layer, fwd, token, choices)| LayerCase { inn, layer, fwd, token, choices })
        .boxed()
}
fn check_layers(c: &LayerCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    let t = Tape::new(&c.choices);
    let want = ["plain", "sign", "auth", "anon", "forward"][c.layer as usize];
    let changed = Cell::new(false);
    let ch = |s: String| {
        let n = mutate_text(&t, &s);
        changed.set(changed.get() || n != s);
        n
    };
    let (mut msg, _) = c.inn.build_with(&|l, s| {
        let s = if l == "plain" && c.token {
            // a rotation token, its claims and header as odd as the rest, rightly signed
            let mut v: Value = serde_json::from_str(&s).unwrap_or_default();
            let k = pc.akey();
            let mut claims = json!({"iss": pc.s.did, "sub": pc.s.did, "exp": 1});
            let mut h = Value::Object(rf::jwt_header(&pc.s.kid(k), k.kt));
            if want == "plain" {
                if t.below(2) == 0 {
                    mutate(&t, &mut claims)
                } else {
                    mutate(&t, &mut h)
                }
            }
            let h = h.as_object().cloned().unwrap_or_default();
            v["from_prior"] = json!(rf::seal_jwt(&claims.to_string(), &h, k.kt, &pc.s.sk(k)));
            v.to_string()
        } else {
            s
        };
        if l == want {
            ch(s)
        } else {
            s
        }
    });
    let k = pc.rkey();
    if c.fwd || want == "forward" {
        let mut f = json!({"id": "f", "typ": rf::TYP_PLAIN, "type": FORWARD, "body": {"next": pc.to_s()}, "attachments": [{"data": {"json": serde_json::from_str::<Value>(&msg).unwrap_or_default()}}]}).to_string();
        if want == "forward" {
            f = ch(f);
        }
        let rc = [rf::Rcpt { kid: pc.r.kid(k), pk: pc.r.pk(k) }];
        msg = rf::seal_jwe(f.as_bytes(), pc.opts.anon, k.kt, &rc, None, c.inn.seed ^ 5, &Default::default(), &Default::default());
    }
    if changed.get() {
        o.nt();
    }
    o.label(format!("layer={want}"));
    read_all(&msg, &pc.dids(), &Secs::new(pc.r.all_secrets()).order(pc.sec_order), o);
    Ok(())
}

// ---------------------------------------------------------------- consistent
/// Envelopes whose digests, signatures and tags all fit, over lists, names and lengths no sender would choose.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConsistentCase {
    inn: InCase,
    /// 0 anoncrypt, 1 authcrypt, 2 signed, 3 token
    kind: u8,
    kids: Vec<(u8, String)>,
    sender: (u8, String),
    skid: u8,
    /// lengths of encrypted keys or signatures, iv, tag, ciphertext (None: as it should be)
    lens: [Option<u8>; 4],
    epk: u8,
    other_kt: bool,
    content: Option<Vec<u8>>,
}
fn consistent_case() -> BoxedStrategy<ConsistentCase> {
    let l = || option::weighted(0.15, prop_oneof![3 => select(vec![0u8, 1, 7, 8, 11, 12, 15, 16, 17, 24, 31, 32, 33, 40, 63, 64, 65, 72]), 1 => any::<u8>()]);
    let kids = prop_oneof![1 => vec((Just(9u8), Just(String::new())), 0..1), 8 => vec((0u8..12, arg()), 1..4), 1 => vec((0u8..12, arg()), 4..40)];
    (in_case_of(small_message), 0u8..4, kids, (0u8..10, arg()), 0u8..5, [l(), l(), l(), l()], prop_oneof![6 => Just(0u8), 1 => 1u8..8], prop::bool::weighted(0.1), option::weighted(0.3, vec(any::<u8>(), 0..20)))
        .prop_map(|(inn, kind, kids, sender, skid, lens, epk, other_kt, content)| ConsistentCase { inn, kind, kids, sender, skid, lens, epk, other_kt, content })
        .boxed()
}
fn check_consistent(c: &ConsistentCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    let (s, r) = (&pc.s, &pc.r);
    let (rk, sk, ak) = (pc.rkey(), pc.skey(), pc.akey());
    let content = c.content.clone().unwrap_or_else(|| pc.msg.model(Some(&s.did), None, None).to_string().into_bytes());
    let l = rf::Layout::default();
    let name = |p: &Party, k: &Key, (how, odd): &(u8, String)| match how {
        0 => odd.clone(),
        1 => p.did.clone(),
        2 => format!("{}#", p.did),
        3 => format!("{}#{odd}", p.did),
        4 => String::new(),
        5 => format!("{}x#k", p.did),
        6 => p.kid(&p.auth[0]),
        _ => p.kid(k),
    };
    let mut sender = name(s, sk, &c.sender);
    let cut = |v: &mut Value, n: Option<u8>| {
        if let (Some(n), Some(t)) = (n, v.as_str().and_then(rf::unb64)) {
            let mut t = t;
            t.resize(n as usize, 0x5a);
            *v = json!(rf::b64(&t));
        }
    };
    let mut kinds = vec![];
    let wire = match c.kind {
        0 | 1 => {
            let rc: Vec<rf::Rcpt> = c.kids.iter().map(|x| rf::Rcpt { kid: name(r, pick(&r.ka, x.0 as u16), x), pk: r.pk(rk) }).collect();
            let mut t = rf::Tweak::default();
            if c.kind == 1 && c.sender.0 == 8 {
                t.apu = Some(Some(rf::b64(&[s.did.as_bytes(), &[0xc3]].concat())));
                sender = String::new();
            }
            t.skid = match c.skid {
                0 => Some(None),
                1 => Some(Some(String::new())),
                _ => None,
            };
            let m = |b: &[u8]| json!(rf::b64(b));
            t.epk = match c.epk {
                0 => None,
                1 => Some(json!({"kty": "OKP", "crv": "X25519", "x": m(&[0; 32])})),
                2 => Some(json!({"kty": "OKP", "crv": "X25519", "x": m(&[1])})),
                3 => Some(json!({"kty": "EC", "crv": "P-256", "x": m(&[0; 32]), "y": m(&[0; 32])})),
                4 => Some(json!({"kty": "EC", "crv": "P-256", "x": m(&[0xff; 32]), "y": m(&[0xff; 32])})),
                5 => Some(json!({"kty": "EC", "crv": "P-256", "x": m(&rf::public(Kt::P256, &rf::det_sk(1, "x"))[1..])})),
                6 => Some(json!({"kty": "OKP", "crv": "Ed25519", "x": m(&rf::det(1, "x", 32))})),
                _ => Some(json!({})),
            };
            let (kt, pk2) = match (c.other_kt, rk.kt) {
                (true, Kt::X25519) => (Kt::P256, Some(rf::public(Kt::P256, &rf::det_sk(2, "x")))),
                (true, _) => (Kt::X25519, Some(rf::public(Kt::X25519, &rf::det_sk(2, "x")))),
                _ => (rk.kt, None),
            };
            let rc: Vec<rf::Rcpt> = rc.into_iter().map(|x| rf::Rcpt { pk: pk2.clone().unwrap_or(x.pk), ..x }).collect();
            let enc = if c.kind == 1 { rf::Enc::Cbc } else { pc.opts.anon };
            let ssk = s.sk(sk);
            let snd = (c.kind == 1 && sk.kt == kt).then(|| (sender.as_str(), &ssk));
            if c.kind == 1 && snd.is_none() {
                t.alg = Some("ECDH-1PU+A256KW".into());
                t.apu = Some(Some(rf::b64(sender.as_bytes())));
            }
            let mut v: Value = serde_json::from_str(&rf::seal_jwe(&content, enc, kt, &rc, snd, c.inn.seed, &l, &t)).map_err(|e| Fail { sig: "harness".into(), msg: e.to_string() })?;
            for x in v["recipients"].as_array_mut().unwrap() {
                cut(&mut x["encrypted_key"], c.lens[0]);
            }
            for (i, k) in ["iv", "tag", "ciphertext"].iter().enumerate() {
                cut(&mut v[*k], c.lens[i + 1]);
            }
            kinds.push(format!("recipients:{}", c.kids.len().min(3)));
            v.to_string()
        }
        2 => {
            let mut w: Value = serde_json::from_str(&rf::seal_jws(&content, "k", ak.kt, &s.sk(ak), None, &l)).unwrap();
            let g: Vec<Value> = c
                .kids
                .iter()
                .map(|x| {
                    let kid = name(s, ak, x);
                    let mut g: Value = serde_json::from_str::<Value>(&rf::seal_jws(&content, &kid, ak.kt, &s.sk(ak), None, &l)).unwrap()["signatures"][0].clone();
                    cut(&mut g["signature"], c.lens[0]);
                    g
                })
                .collect();
            w["signatures"] = json!(g);
            kinds.push(format!("signatures:{}", g.len().min(3)));
            w.to_string()
        }
        _ => {
            let kid = c.kids.get(0).map_or(String::new(), |x| name(s, ak, x));
            let claims = if c.content.is_some() { content.clone() } else { json!({"iss": name(s, ak, &c.sender), "sub": s.did}).to_string().into_bytes() };
            let tok = rf::seal_jwt(&String::from_utf8_lossy(&claims), &rf::jwt_header(&kid, ak.kt), ak.kt, &s.sk(ak));
            let mut seg: Vec<Value> = tok.split('.').map(|x| json!(x)).collect();
            cut(&mut seg[2], c.lens[0]);
            cut(&mut seg[1], c.lens[3]);
            let tok = seg.iter().map(|x| x.as_str().unwrap()).collect::<Vec<_>>().join(".");
            let _ = block_on(FromPrior::unpack(&tok, &pc.dids()));
            let mut m = pc.msg.model(Some(&s.did), None, None);
            m["from_prior"] = json!(tok);
            m.to_string()
        }
    };
    o.nt();
    o.label(["anoncrypt", "authcrypt", "signed", "token"][c.kind as usize]);
    for k in kinds {
        o.label(k);
    }
    // a keeper of secrets that has one for whatever it is asked about, and one that has its own
    let mut all = r.all_secrets();
    all.extend(s.all_secrets());
    for x in &c.kids {
        let kid = name(r, pick(&r.ka, x.0 as u16), x);
        if !all.iter().any(|y| y.id == kid) {
            let mut y = r.secret(rk);
            y.id = kid;
            all.push(y);
        }
    }
    read_all(&wire, &pc.dids(), &Secs::new(all).order(pc.sec_order), o);
    read_all(&wire, &pc.dids(), &Secs::new(r.all_secrets()).order(pc.sec_order), o);
    Ok(())
}

// ---------------------------------------------------------------- keys
/// Key material of any type and form.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Mat {
    Jwk(Value),
    B58(String),
    Mb(String),
}
fn raw_key(len: impl Strategy<Value = usize> + 'static) -> BoxedStrategy<Vec<u8>> {
    (len, any::<u64>(), 0u8..4)
        .prop_map(|(n, s, k)| match k {
            0 => vec![0; n],
            1 => vec![0xff; n],
            _ => rf::det(s, "rawkey", n),
        })
        .boxed()
}
fn len() -> BoxedStrategy<usize> {
    prop_oneof![4 => select(vec![0usize, 1, 2, 16, 31, 32, 33, 48, 63, 64, 65, 96]), 1 => 0usize..200].boxed()
}
pub fn mat() -> BoxedStrategy<Mat> {
    let codec = prop_oneof![
        6 => select(vec![vec![0xecu8, 0x01], vec![0xed, 0x01], vec![0x82, 0x26], vec![0x80, 0x26]]),
        2 => select(vec![vec![], vec![0xec], vec![0x80], vec![0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80], vec![0xff; 12], vec![0xec, 0x81, 0x00], vec![0xed, 0x81, 0x80, 0x00], vec![0x80, 0xa6, 0x00], vec![0xff, 0xff, 0xff, 0xff, 0x0f], vec![0xff, 0xff, 0xff, 0xff, 0x7f], vec![0x00], vec![0xe7, 0x01]]),
        1 => vec(any::<u8>(), 0..6),
    ];
    let m = || option::weighted(0.85, prop_oneof![5 => raw_key(len()).prop_map(|b| json!(rf::b64(&b))), 1 => select(WORDS).prop_map(|w| json!(w)), 1 => json_value()]);
    prop_oneof![
        3 => (select(vec!["OKP", "EC", "RSA", "oct", ""]), select(vec!["X25519", "Ed25519", "P-256", "secp256k1", "P-384", "Ed448", ""]), m(), m(), m()).prop_map(|(kty, crv, x, y, d)| {
            let kty = if kty.is_empty() { if crv.starts_with('P') || crv.starts_with('s') { "EC" } else { "OKP" } } else { kty };
            let mut v = json!({"kty": kty, "crv": crv});
            for (k, m) in [("x", x), ("y", y), ("d", d)] {
                if let Some(m) = m {
                    v[k] = m;
                }
            }
            Mat::Jwk(v)
        }),
        1 => json_value().prop_map(Mat::Jwk),
        4 => raw_key(len()).prop_map(|b| Mat::B58(bs58::encode(b).into_string())),
        1 => text().prop_map(Mat::B58),
        6 => (codec, raw_key(len())).prop_map(|(c, b)| Mat::Mb(multibase(&c, &b))),
        1 => text().prop_map(Mat::Mb),
        1 => select(vec!["z", "", "m", "é", "Z6LS", "zé", "z0OIl"]).prop_map(|s| Mat::Mb(s.into())),
    ]
    .boxed()
}
pub const VM_TYPES: [VerificationMethodType; 7] = [
    VerificationMethodType::JsonWebKey2020,
    VerificationMethodType::X25519KeyAgreementKey2019,
    VerificationMethodType::Ed25519VerificationKey2018,
    VerificationMethodType::EcdsaSecp256k1VerificationKey2019,
    VerificationMethodType::X25519KeyAgreementKey2020,
    VerificationMethodType::Ed25519VerificationKey2020,
    VerificationMethodType::Other,
];
pub const SECRET_TYPES: [SecretType; 7] = [
    SecretType::JsonWebKey2020,
    SecretType::X25519KeyAgreementKey2019,
    SecretType::Ed25519VerificationKey2018,
    SecretType::EcdsaSecp256k1VerificationKey2019,
    SecretType::X25519KeyAgreementKey2020,
    SecretType::Ed25519VerificationKey2020,
    SecretType::Other,
];
impl Mat {
    /// a type this material could belong to, or any
    fn ty(&self, t: u8) -> usize {
        if t & 4 == 0 {
            match self {
                Mat::Jwk(_) => 0,
                Mat::B58(_) => 1 + (t as usize & 1),
                Mat::Mb(_) => 4 + (t as usize & 1),
            }
        } else {
            (t >> 3) as usize % 7
        }
    }
    fn public(&self) -> VerificationMaterial {
        match self.clone() {
            Mat::Jwk(v) => VerificationMaterial::JWK { public_key_jwk: v },
            Mat::B58(s) => VerificationMaterial::Base58 { public_key_base58: s },
            Mat::Mb(s) => VerificationMaterial::Multibase { public_key_multibase: s },
        }
    }
    fn private(&self) -> SecretMaterial {
        match self.clone() {
            Mat::Jwk(v) => SecretMaterial::JWK { private_key_jwk: v },
            Mat::B58(s) => SecretMaterial::Base58 { private_key_base58: s },
            Mat::Mb(s) => SecretMaterial::Multibase { private_key_multibase: s },
        }
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct KeyCase {
    w: World,
    /// which key of which party, on which side, becomes what
    edits: Vec<(u16, bool, u8, Mat)>,
}
fn key_case() -> BoxedStrategy<KeyCase> {
    (world_case(2..3), vec((any::<u16>(), any::<bool>(), any::<u8>(), mat()), 1..6)).prop_map(|(w, edits)| KeyCase { w, edits }).boxed()
}
/// Runs every operation of the world over these documents and secrets.
fn run_world(w: &World, docs: Vec<DIDDoc>, secrets: Vec<Secret>, o: &mut Obs) -> Res {
    for op in &w.ops {
        if !usable(w, op) {
            continue;
        }
        let r = w.ready(op)?;
        let (d, s) = (Dids::new(docs.clone()), Secs::new(secrets.clone()));
        let x = block_on(w.run(op, &r, &d, &s));
        o.inner += 1;
        o.label(format!("{}:{}", opname(op).split(' ').next().unwrap_or(""), kind_of(&x)));
    }
    Ok(())
}
fn check_keys(c: &KeyCase, o: &mut Obs) -> Res {
    let mut docs: Vec<DIDDoc> = c.w.all().iter().map(|p| p.doc()).collect();
    let mut secrets: Vec<Secret> = c.w.all().iter().flat_map(|p| p.all_secrets()).collect();
    for (at, public, ty, m) in &c.edits {
        if *public {
            let n: usize = docs.iter().map(|d| d.verification_method.len()).sum();
            let vm = docs.iter_mut().flat_map(|d| d.verification_method.iter_mut()).nth(*at as usize * 7 % n.max(1));
            if let Some(vm) = vm {
                vm.type_ = VM_TYPES[m.ty(*ty)].clone();
                vm.verification_material = m.public();
                o.nt();
            }
        } else if !secrets.is_empty() {
            let n = secrets.len();
            let s = &mut secrets[*at as usize * 7 % n];
            s.type_ = SECRET_TYPES[m.ty(*ty)].clone();
            s.secret_material = m.private();
            o.nt();
        }
    }
    // each odd key used alone, so that it is surely reached
    for (_, public, ty, m) in &c.edits {
        let p = &c.w.s;
        let (k, a) = (p.kid(&p.ka[0]), p.kid(&p.auth[0]));
        let mut doc = p.doc();
        let mut sec: Vec<Secret> = p.all_secrets();
        for vm in doc.verification_method.iter_mut().filter(|_| *public) {
            vm.type_ = VM_TYPES[m.ty(*ty)].clone();
            vm.verification_material = m.public();
        }
        for s in sec.iter_mut().filter(|_| !*public) {
            s.type_ = SECRET_TYPES[m.ty(*ty)].clone();
            s.secret_material = m.private();
        }
        let (d, s) = (Dids::new(vec![doc]), Secs::new(sec));
        let msg = Message::build("i".into(), "t".into(), json!({})).finalize();
        let r = block_on(msg.pack_encrypted(&k, Some(&k), None, &d, &s, &PackEncryptedOptions::default()));
        o.label(format!("alone:{}", kind_of(&r)));
        if let Ok((t, _)) = r {
            let _ = unpack(&t, &d, &s, &UnpackOptions::default());
        }
        if let Ok((t, _)) = block_on(msg.pack_signed(&a, &d, &s)) {
            let _ = unpack(&t, &d, &s, &UnpackOptions::default());
        }
        if let Ok((t, _)) = block_on(FromPrior::build(p.did.clone(), "did:example:new".into()).finalize().pack(Some(&a), &d, &s)) {
            let _ = block_on(FromPrior::unpack(&t, &d));
        }
        o.inner += 3;
    }
    run_world(&c.w, docs, secrets, o)
}

// ---------------------------------------------------------------- docs
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DocCase {
    w: World,
    choices: Vec<Vec<u32>>,
    uris: Vec<(u16, String)>,
}
fn doc_case() -> BoxedStrategy<DocCase> {
    let uri = prop_oneof![
        4 => select(vec!["did:example:alice", "did:example:bob", "did:example:mediator", "did:a:b", "did:x", "did:example:alice#k", ""]).prop_map(String::from),
        1 => text(),
    ];
    (world_case(2..4), vec(tape(1..12), 0..5), vec((any::<u16>(), uri), 0..5)).prop_map(|(w, choices, uris)| DocCase { w, choices, uris }).boxed()
}
fn check_docs(c: &DocCase, o: &mut Obs) -> Res {
    let mut docs: Vec<DIDDoc> = c.w.all().iter().map(|p| p.doc()).collect();
    let mut secrets: Vec<Secret> = c.w.all().iter().flat_map(|p| p.all_secrets()).collect();
    let names: Vec<String> = docs.iter().map(|d| d.id.clone()).collect();
    for ch in &c.choices {
        let t = Tape::new(ch);
        if t.below(4) == 0 && !secrets.is_empty() {
            let i = t.below(secrets.len());
            let mut v = serde_json::to_value(&secrets[i]).unwrap_or_default();
            mutate(&t, &mut v);
            if let Ok(s) = serde_json::from_value(v) {
                secrets[i] = s;
                o.nt();
            }
        } else {
            let i = t.below(docs.len());
            let mut v = serde_json::to_value(&docs[i]).unwrap_or_default();
            mutate(&t, &mut v);
            if let Ok(d) = serde_json::from_value(v) {
                docs[i] = d;
                o.nt();
            }
        }
    }
    for (at, uri) in &c.uris {
        let i = *at as usize % docs.len();
        // also one of the parties of this world, to make circles
        let uri = if *at & 256 != 0 { names[(*at >> 9) as usize % names.len()].clone() } else { uri.clone() };
        let d = &mut docs[i];
        d.service.insert(
            0,
            didcomm::did::Service {
                id: format!("{}#s", d.id),
                service_endpoint: didcomm::did::ServiceKind::DIDCommMessaging {
                    value: didcomm::did::DIDCommMessagingService { uri: uri.clone(), accept: None, routing_keys: if *at & 128 != 0 { vec![uri] } else { vec![] } },
                },
            },
        );
        o.nt();
    }
    run_world(&c.w, docs, secrets, o)
}

// ---------------------------------------------------------------- args
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ArgCase {
    w: World,
    s: Vec<String>,
    which: u16,
}
fn arg() -> BoxedStrategy<String> {
    prop_oneof![
        3 => select(WORDS).prop_map(String::from),
        1 => text(),
        3 => (select(vec!["did:example:alice", "did:example:bob", "did:example:x"]), select(vec!["", "#", "#k", "#key-1", "##", "?x#y", "/p"])).prop_map(|(a, b)| format!("{a}{b}")),
        3 => (
            select(vec!["did:example:alice", "did:example:alice#key-1", "did:example:bob", "did:example:bob#key-1", "did:", "a:b:c", "https://relay.example/x", "z6LSbysY2xFMRpGMhb7tFTLMpeuPRaqaWM1yECx2AtzE3KCc", "eyJ0eXAiOiJKV1QifQ.e30.AAAA", "aaaaaaaaaaaaaaaaaaaaaaaa"]),
            prop_oneof![3 => 0usize..12, 1 => 0usize..50],
            select(vec!["é", "日", "\u{10ffff}", "\u{301}", "#", ":", ".", "\0", ""]),
            0u8..4,
        )
            .prop_map(|(s, at, c, how)| {
                let at = at.min(s.len());
                match how {
                    0 => format!("{}{c}{}", &s[..at], &s[at..]),
                    1 => format!("{}{c}", &s[..at]),
                    2 => format!("{c}{}", &s[at..]),
                    _ => format!("{}{c}{}", &s[..at], &s[(at + 1).min(s.len())..]),
                }
            }),
    ]
    .boxed()
}
fn arg_case() -> BoxedStrategy<ArgCase> {
    (world_case(1..2), vec(arg(), 12), any::<u16>()).prop_map(|(w, s, which)| ArgCase { w, s, which }).boxed()
}
fn check_args(c: &ArgCase, o: &mut Obs) -> Res {
    o.nt();
    let w = &c.w;
    let (d, x) = (Dids::of(&w.all()), Secs::new(w.all().iter().flat_map(|p| p.all_secrets()).collect()));
    // each argument either proper or odd, by mask
    let odd = |i: usize, good: &str| if c.which >> i & 1 == 1 { c.s[i % c.s.len()].clone() } else { good.to_string() };
    let r = w.ready(&Op::Pack(super::ops::Form::Plain))?;
    let mut m = r.msg.clone();
    if c.which >> 8 & 1 == 1 {
        m.from = Some(c.s[8].clone());
    }
    if c.which >> 9 & 1 == 1 {
        m.to = Some(vec![c.s[9].clone(), c.s[0].clone()]);
    }
    if c.which >> 10 & 1 == 1 {
        m.from_prior = Some(c.s[10].clone());
    }
    let (to, from, sign) = (odd(0, &w.r.did), odd(1, &w.s.did), odd(2, &w.s.did));
    let op = PackEncryptedOptions {
        messaging_service: (c.which >> 3 & 1 == 1).then(|| c.s[3].clone()),
        forward: c.which >> 11 & 1 == 0,
        ..PackEncryptedOptions::default()
    };
    let a = block_on(m.pack_encrypted(&to, Some(&from), Some(&sign), &d, &x, &op));
    let b = block_on(m.pack_encrypted(&to, None, None, &d, &x, &op));
    let e = block_on(m.pack_signed(&sign, &d, &x));
    let f = block_on(m.pack_plaintext(&d));
    o.label(format!("auth:{} anon:{} sign:{} plain:{}", kind_of(&a).len() < 3, kind_of(&b).len() < 3, kind_of(&e).len() < 3, kind_of(&f).len() < 3));
    let (iss, sub, kid) = (odd(4, &w.o.did), odd(5, &w.s.did), odd(6, &w.o.kid(&w.o.auth[0])));
    let p = FromPrior::build(iss, sub).aud(c.s[7].clone()).finalize();
    for k in [Some(kid.as_str()), None] {
        let t = block_on(p.pack(k, &d, &x));
        if let Ok((t, _)) = t {
            let _ = block_on(FromPrior::unpack(&t, &d));
        }
    }
    let _ = block_on(FromPrior::unpack(&c.s[11], &d));
    for i in 0..c.s.len() {
        let keys: Vec<String> = (0..i % 4).map(|k| odd(i + k, &w.m.did)).collect();
        let msg = b.as_ref().map(|b| b.0.clone()).unwrap_or_else(|_| c.s[i].clone());
        let _ = block_on(wrap_in_forward(if c.which >> 12 & 1 == 1 { &c.s[i] } else { &msg }, None, &odd(i, &w.r.did), &keys, &anon_alg(rf::Enc::Cbc), &d));
        o.inner += 1;
    }
    Ok(())
}

// ---------------------------------------------------------------- deep
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DeepCase {
    inn: InCase,
    shape: u8,
    n: u32,
}
fn deep_case() -> BoxedStrategy<DeepCase> {
    (in_case_of(small_message), 0u8..10, prop_oneof![2 => 1u32..200, 2 => 200u32..20_000, 1 => 20_000u32..200_000])
        .prop_map(|(inn, shape, n)| DeepCase { inn, shape, n })
        .boxed()
}
fn check_deep(c: &DeepCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    let n = c.n as usize;
    o.nt();
    o.label(format!("shape={}", c.shape));
    let k = pc.rkey();
    let rc = || [rf::Rcpt { kid: pc.r.kid(k), pk: pc.r.pk(k) }];
    let anon = |s: &str| rf::seal_jwe(s.as_bytes(), pc.opts.anon, k.kt, &rc(), None, c.inn.seed, &Default::default(), &Default::default());
    let a = pc.akey();
    let jws = |s: &str| rf::seal_jws(s.as_bytes(), &pc.s.kid(a), a.kt, &pc.s.sk(a), None, &Default::default());
    let nest = |x: &str, y: &str| format!("{}1{}", x.repeat(n), y.repeat(n));
    let plain = |body: String| format!(r#"{{"id":"i","typ":"{}","type":"t","body":{body}}}"#, rf::TYP_PLAIN);
    let msg = match c.shape {
        0 => plain(nest("[", "]")),
        1 => plain(nest("{\"a\":", "}")),
        2 => jws(&plain(nest("[", "]"))),
        3 => anon(&plain(nest("{\"a\":", "}"))),
        // an attachment or header nested deeply
        4 => format!(r#"{{"id":"i","type":"t","body":{{}},"attachments":[{{"data":{{"json":{}}}}}]}}"#, nest("[", "]")),
        5 => format!(r#"{{"id":"i","type":"t","body":{{}},"x":{}}}"#, nest("[", "]")),
        // envelopes in envelopes
        6 => (0..n % 18).fold(c.inn.build().0, |m, _| {
            anon(&json!({"id": "f", "typ": rf::TYP_PLAIN, "type": FORWARD, "body": {"next": pc.r.did}, "attachments": [{"data": {"json": serde_json::from_str::<Value>(&m).unwrap_or_default()}}]}).to_string())
        }),
        7 => (0..n % 12).fold(plain("{}".into()), |m, i| if i & 1 == 0 { jws(&m) } else { anon(&m) }),
        // very many recipients
        8 => {
            let m = c.inn.build().0;
            let mut v: Value = val(&m)?;
            let r = v["recipients"][0].clone();
            v["recipients"] = Value::Array(vec![r; n % 5000]);
            v.to_string()
        }
        _ => {
            let mut v: Value = val(&jws(&plain("{}".into())))?;
            let r = v["signatures"][0].clone();
            v["signatures"] = Value::Array(vec![r; n % 3000]);
            v.to_string()
        }
    };
    let secrets = pc.r.all_secrets();
    let docs: Vec<DIDDoc> = pc.dids().docs;
    let (labels, inner) = running::on_stack(2 << 20, move || {
        let mut o = Obs::default();
        read_all(&msg, &Dids::new(docs), &Secs::new(secrets), &mut o);
        (o.labels, o.inner)
    });
    o.labels.extend(labels);
    o.inner += inner;
    Ok(())
}
