//! C07, C08, C18: envelopes changed after they were made.
use super::common::*;
use super::envelope::*;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::error::ErrorKind;
use didcomm::{Message, UnpackOptions};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C07",
            "Conforming encrypted messages (anoncrypt, authcrypt, authcrypt inside anoncrypt; X25519 and P-256; three content encryptions; 1-4 recipients) with 1-6 alterations each tried by itself on the outer or the inner layer: bit flips, truncation, extension, emptying and splicing (from another message to the same recipients) of iv, ciphertext, tag, encrypted keys and protected header; protected header members changed; recipients renamed, swapped, dropped, repeated, added. Non-trivial: at least one alteration applied that does not only touch an entry the recipient never looks at.",
            vec![part!("alter", 20000, 500000, |_| jwe_case(), check_jwe)],
        ),
        prop(
            "C08",
            "Conforming signed messages (three algorithms), bare or inside authcrypt/anoncrypt, with 1-6 alterations each tried by itself: bit flips, truncation, extension, emptying and splicing of payload, protected header and signature; header members and the algorithm changed; signer replaced by another of the signer's keys or by somebody else's; signatures removed, repeated, combined; degenerate signature values. Non-trivial: at least one alteration applied.",
            vec![part!("alter", 24000, 500000, |_| jws_case(), check_jws)],
        ),
        prop(
            "C18",
            "Conforming messages of every kind with one structural defect each: a required member removed, replaced by a value of another JSON type, or not base64url; an unknown algorithm or content encryption; the text cut short; a non-object document; bytes that are not UTF-8 as payload; well-made envelopes and rotation tokens that name their keys as nobody may (no fragment, keys of several DIDs, no recipients, several or no signatures, a sender that is not UTF-8, another typ). Non-trivial: the defect applied.",
            vec![part!("defect", 80000, 1600000, |_| defect_case(), check_defect), part!("payload", 12000, 200000, |_| payload_case(), check_payload), part!("names", 12000, 200000, |_| names_case(), check_names)],
        ),
    ]
}

// ---------------------------------------------------------------- C07
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Field {
    Iv,
    Ct,
    Tag,
    Ek(u8),
    Prot,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Edit {
    Flip(u16, u8),
    Cut(u16),
    Add(u8),
    Empty,
    /// from another message to the same recipients
    Splice,
    Zero,
    /// the text, not the bytes: bits that decoding would drop, the other base64 alphabet, white space, a foreign character
    Text(u8, u16),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum HeaderEdit {
    Pretty,
    Typ(Option<String>),
    Alg(String),
    Enc(String),
    Skid(Option<String>),
    Apu(Option<String>),
    /// apv of another list of recipients
    Apv(String),
    Epk(Kt, u64),
    EpkMember(u8, u8),
    Extra,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
enum JweMut {
    Bytes(Field, Edit),
    Header(HeaderEdit),
    SwapEk(u8, u8),
    SwapKid(u8, u8),
    Drop(u8),
    Dup(u8),
    Rename(u8, String),
    AddRcpt(String),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct JweCase {
    inn: InCase,
    /// every key held and required to decrypt
    strict: bool,
    muts: Vec<(bool, JweMut)>,
}
fn edit() -> impl Strategy<Value = Edit> {
    prop_oneof![
        5 => (any::<u16>(), 0u8..8).prop_map(|(a, b)| Edit::Flip(a, b)),
        2 => (1u16..40).prop_map(Edit::Cut),
        1 => any::<u8>().prop_map(Edit::Add),
        1 => Just(Edit::Empty),
        2 => Just(Edit::Splice),
        1 => Just(Edit::Zero),
        2 => (0u8..6, any::<u16>()).prop_map(|(a, b)| Edit::Text(a, b)),
    ]
}
fn some_kid() -> impl Strategy<Value = String> {
    prop_oneof![
        (select(DIDS.to_vec()), select(FRAGS.to_vec())).prop_map(|(d, f)| format!("{d}#{f}")),
        select(vec!["did:example:bob#nokey", "did:example:bob", "#key-1", "", "x"]).prop_map(String::from),
    ]
}
fn header_edit() -> impl Strategy<Value = HeaderEdit> {
    prop_oneof![
        1 => Just(HeaderEdit::Pretty),
        1 => proptest::option::of(select(vec!["JWM", "", "application/didcomm-signed+json", "didcomm-encrypted+json"]).prop_map(String::from)).prop_map(HeaderEdit::Typ),
        3 => select(vec![rf::ES, rf::PU, "ECDH-ES", "ECDH-ES+A128KW", "dir", "none", "ecdh-es+a256kw"]).prop_map(|s| HeaderEdit::Alg(s.into())),
        3 => select(vec!["A256CBC-HS512", "XC20P", "A256GCM", "A128GCM", "none"]).prop_map(|s| HeaderEdit::Enc(s.into())),
        2 => proptest::option::of(some_kid()).prop_map(HeaderEdit::Skid),
        2 => proptest::option::of(some_kid()).prop_map(HeaderEdit::Apu),
        1 => some_kid().prop_map(HeaderEdit::Apv),
        2 => (select(vec![Kt::X25519, Kt::P256, Kt::K256, Kt::Ed25519]), any::<u64>()).prop_map(|(k, s)| HeaderEdit::Epk(k, s)),
        2 => (0u8..4, any::<u8>()).prop_map(|(m, x)| HeaderEdit::EpkMember(m, x)),
        1 => Just(HeaderEdit::Extra),
    ]
}
fn jwe_mut() -> impl Strategy<Value = JweMut> {
    prop_oneof![
        8 => (prop_oneof![Just(Field::Iv), Just(Field::Ct), Just(Field::Tag), (0u8..4).prop_map(Field::Ek), Just(Field::Prot)], edit()).prop_map(|(f, e)| JweMut::Bytes(f, e)),
        5 => header_edit().prop_map(JweMut::Header),
        1 => (0u8..4, 0u8..4).prop_map(|(a, b)| JweMut::SwapEk(a, b)),
        1 => (0u8..4, 0u8..4).prop_map(|(a, b)| JweMut::SwapKid(a, b)),
        1 => (0u8..4).prop_map(JweMut::Drop),
        1 => (0u8..4).prop_map(JweMut::Dup),
        1 => (0u8..4, some_kid()).prop_map(|(a, b)| JweMut::Rename(a, b)),
        1 => some_kid().prop_map(JweMut::AddRcpt),
    ]
}
fn jwe_case() -> BoxedStrategy<JweCase> {
    (in_case_of(small_message), any::<bool>(), vec((any::<bool>(), jwe_mut()), 1..7))
        .prop_map(|(mut inn, strict, muts)| {
            for l in &mut inn.layouts {
                l.extra = false;
            }
            JweCase { inn, strict, muts }
        })
        .boxed()
}
fn edit_bytes(b: &mut Vec<u8>, e: &Edit, other: &[u8]) -> bool {
    let before = b.clone();
    match e {
        Edit::Flip(p, bit) => {
            if b.is_empty() {
                return false;
            }
            let n = b.len();
            b[*p as usize % n] ^= 1 << bit;
        }
        Edit::Cut(n) => {
            let l = b.len().saturating_sub(*n as usize);
            b.truncate(l);
        }
        Edit::Add(x) => b.push(*x),
        Edit::Empty => b.clear(),
        Edit::Splice => *b = other.to_vec(),
        Edit::Zero => b.iter_mut().for_each(|x| *x = 0),
        Edit::Text(..) => (),
    }
    *b != before
}
/// The text of some base64url with a change that a lenient decoder would overlook.
pub fn edit_text(t: &str, how: u8, at: u16) -> Option<String> {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let n = t.len();
    let p = at as usize % (n + 1);
    match how {
        0 | 1 => {
            let free = [0, 0, 4, 2][n % 4];
            if free == 0 {
                return None;
            }
            let i = A.iter().position(|c| *c == t.as_bytes()[n - 1])?;
            let x = 1 + at as usize % ((1 << free) - 1);
            Some(format!("{}{}", &t[..n - 1], A[i ^ x] as char))
        }
        2 => {
            let s = t.replacen('-', "+", 1);
            Some(if s != t { s } else { t.replacen('_', "/", 1) }).filter(|s| s != t)
        }
        3 => Some(format!("{}{}{}", &t[..p], ["\n", " ", "\r\n", "\t"][at as usize / 7 % 4], &t[p..])),
        4 => Some(format!("{}{}{}", &t[..p], ["\0", "é", ".", "%"][at as usize / 7 % 4], &t[p..])),
        // one character cannot hold a byte
        _ => (n % 4 == 0).then(|| format!("{t}A")),
    }
}
fn edit_str(v: &mut Value, e: &Edit, other: &Value) -> Option<()> {
    if let Edit::Text(how, at) = e {
        *v = json!(edit_text(v.as_str()?, *how, *at)?);
        return Some(());
    }
    let mut b = rf::unb64(v.as_str()?)?;
    let o = rf::unb64(other.as_str()?)?;
    edit_bytes(&mut b, e, &o).then(|| *v = Value::String(rf::b64(&b)))
}
/// The altered envelope; None when the alteration changes nothing.
fn mutate_jwe(s: &str, other: &str, m: &JweMut) -> Option<String> {
    let mut v: Value = serde_json::from_str(s).ok()?;
    let o: Value = serde_json::from_str(other).ok()?;
    let n = v["recipients"].as_array()?.len();
    let at = |i: &u8| *i as usize % n;
    let before = v.clone();
    match m {
        JweMut::Bytes(Field::Iv, e) => edit_str(&mut v["iv"], e, &o["iv"])?,
        JweMut::Bytes(Field::Ct, e) => edit_str(&mut v["ciphertext"], e, &o["ciphertext"])?,
        JweMut::Bytes(Field::Tag, e) => edit_str(&mut v["tag"], e, &o["tag"])?,
        JweMut::Bytes(Field::Ek(i), e) => {
            let i = at(i);
            edit_str(&mut v["recipients"][i]["encrypted_key"], e, &o["recipients"][i]["encrypted_key"])?
        }
        JweMut::Bytes(Field::Prot, e) => edit_str(&mut v["protected"], e, &o["protected"])?,
        JweMut::Header(h) => {
            let raw = rf::unb64(v["protected"].as_str()?)?;
            let mut p: Value = serde_json::from_slice(&raw).ok()?;
            match h {
                HeaderEdit::Pretty => {
                    v["protected"] = json!(rf::b64(serde_json::to_string_pretty(&p).ok()?.as_bytes()));
                    return (v != before).then(|| v.to_string());
                }
                HeaderEdit::Typ(t) => set(&mut p, "typ", t.clone()),
                HeaderEdit::Alg(a) => set(&mut p, "alg", Some(a.clone())),
                HeaderEdit::Enc(a) => set(&mut p, "enc", Some(a.clone())),
                HeaderEdit::Skid(a) => set(&mut p, "skid", a.clone()),
                HeaderEdit::Apu(a) => set(&mut p, "apu", a.as_ref().map(|a| rf::b64(a.as_bytes()))),
                HeaderEdit::Apv(a) => set(&mut p, "apv", Some(rf::b64(&rf::apv_of(&[a])))),
                HeaderEdit::Epk(kt, seed) => p["epk"] = rf::pub_jwk(*kt, &rf::public(*kt, &rf::det_sk(*seed, "other epk"))),
                HeaderEdit::EpkMember(m, x) => {
                    let k = ["x", "y", "crv", "kty"][*m as usize % 4];
                    p["epk"].get(k)?;
                    match (k, x % 3) {
                        ("x" | "y", 0) => {
                            let mut b = rf::unb64(p["epk"][k].as_str()?)?;
                            b[*x as usize % 32] ^= 1 << (x % 8);
                            p["epk"][k] = json!(rf::b64(&b));
                        }
                        (_, 1) => {
                            p["epk"].as_object_mut()?.remove(k);
                        }
                        _ => p["epk"][k] = json!("P-384"),
                    }
                }
                HeaderEdit::Extra => set(&mut p, "crit", Some("x".into())),
            }
            let old: Value = serde_json::from_slice(&raw).ok()?;
            if p == old {
                return None;
            }
            v["protected"] = json!(rf::b64(p.to_string().as_bytes()));
        }
        JweMut::SwapEk(i, j) => {
            let (a, b) = (v["recipients"][at(i)]["encrypted_key"].clone(), v["recipients"][at(j)]["encrypted_key"].clone());
            v["recipients"][at(i)]["encrypted_key"] = b;
            v["recipients"][at(j)]["encrypted_key"] = a;
        }
        JweMut::SwapKid(i, j) => {
            let (a, b) = (v["recipients"][at(i)]["header"].clone(), v["recipients"][at(j)]["header"].clone());
            v["recipients"][at(i)]["header"] = b;
            v["recipients"][at(j)]["header"] = a;
        }
        JweMut::Drop(i) => {
            let i = at(i);
            v["recipients"].as_array_mut()?.remove(i);
        }
        JweMut::Dup(i) => {
            let r = v["recipients"][at(i)].clone();
            v["recipients"].as_array_mut()?.push(r);
        }
        JweMut::Rename(i, k) => v["recipients"][at(i)]["header"]["kid"] = json!(k),
        JweMut::AddRcpt(k) => {
            let mut r = v["recipients"][0].clone();
            r["header"]["kid"] = json!(k);
            v["recipients"].as_array_mut()?.push(r);
        }
    }
    (v != before).then(|| v.to_string())
}
fn set(p: &mut Value, k: &str, v: Option<String>) {
    match v {
        Some(v) => p[k] = json!(v),
        None => {
            p.as_object_mut().map(|o| o.remove(k));
        }
    }
}
fn check_jwe(c: &JweCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    pc.label(o);
    let (good, t) = c.inn.build();
    // another message to the same recipients, by the same sender, with other content
    let other = {
        let mut d = c.inn.clone();
        d.seed ^= 0x5555_0000;
        d.p.msg.id.push_str("-other");
        d
    };
    let layers: Vec<&str> = [("auth", t.auth.is_some()), ("anon", t.anon.is_some())].iter().filter(|x| x.1).map(|x| x.0).collect();
    let kids = t.anon.as_ref().map(|a| &a.2).or(t.auth.as_ref().map(|a| &a.2)).cloned().unwrap();
    let secs = || if c.strict { Secs::new(pc.r.all_secrets()).order(pc.sec_order) } else { pc.holder(&kids) };
    let uo = UnpackOptions { expect_decrypt_by_all_keys: c.strict || pc.all_keys, unwrap_re_wrapping_forward: pc.unwrap };
    let d = pc.dids();
    let want = match unpack(&good, &d, &secs(), &uo) {
        Ok(x) => x,
        Err(e) => return fail("control", format!("the unaltered message is rejected: {e}")),
    };
    for (inner, m) in &c.muts {
        let layer = if *inner { layers[0] } else { layers[layers.len() - 1] };
        let mut applied = false;
        let cell = std::cell::Cell::new(false);
        let f = |l: &str, s: String| {
            if l != layer {
                return s;
            }
            // the same layer of the other message
            let grab = std::cell::RefCell::new(String::new());
            other.build_with(&|l2, s2| {
                if l2 == layer {
                    *grab.borrow_mut() = s2.clone();
                }
                s2
            });
            let r = mutate_jwe(&s, &grab.borrow(), m);
            match r {
                Some(x) => {
                    cell.set(true);
                    x
                }
                None => s,
            }
        };
        let (bad, _) = c.inn.build_with(&f);
        applied |= cell.get();
        if !applied {
            continue;
        }
        o.inner += 1;
        // an entry for a key that the recipient does not use may be anything
        let entry_only = matches!(m, JweMut::Bytes(Field::Ek(_), _) | JweMut::SwapEk(..) | JweMut::SwapKid(..));
        let must = !entry_only || c.strict || kids.len() == 1;
        if must {
            o.nt();
        }
        o.label(format!("{layer}:{}", mut_name(m)));
        match unpack(&bad, &d, &secs(), &uo) {
            Err(e) => {
                if matches!(m, JweMut::Bytes(f, _) if *f != Field::Prot) {
                    ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error kind for {m:?} ({e})");
                }
            }
            Ok(got) => {
                ensure!(!must, "altered-accepted", "altered message accepted: {layer} {m:?}\n{}", clip(&bad, 2500));
                ensure_eq!(got.0, want.0, "altered-content", "an alteration ({m:?}) changed what is read");
                ensure_eq!(got.1.authenticated, want.1.authenticated, "altered-content", "an alteration ({m:?}) changed the trust");
            }
        }
    }
    Ok(())
}
fn mut_name(m: &JweMut) -> String {
    let s = format!("{m:?}");
    let mut p = s.split(|c: char| !c.is_alphanumeric());
    let a = p.next().unwrap_or("").to_string();
    match a.as_str() {
        "Bytes" if s.contains("Text(") => "Text".into(),
        "Bytes" | "Header" => format!("{a}.{}", p.next().unwrap_or("")),
        _ => a,
    }
}

// ---------------------------------------------------------------- C08
#[derive(Clone, Debug, Serialize, Deserialize)]
enum JwsMut {
    Payload(Edit),
    Prot(Edit),
    Sig(Edit),
    /// payload re-encoded from the same JSON with other whitespace
    Repack,
    PayloadMember(String),
    Typ(Option<String>),
    Alg(String),
    Extra,
    OwnKid(u8),
    Kid(String),
    NoSig,
    TwoSigs,
    /// another valid signature beside it: by the signer's other key or by somebody else
    WithOther(bool),
    SigFill(u8),
    SwapHalves,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct JwsCase {
    inn: InCase,
    bare: bool,
    muts: Vec<JwsMut>,
}
fn jws_mut() -> impl Strategy<Value = JwsMut> {
    prop_oneof![
        4 => edit().prop_map(JwsMut::Payload),
        3 => edit().prop_map(JwsMut::Prot),
        5 => edit().prop_map(JwsMut::Sig),
        1 => Just(JwsMut::Repack),
        2 => select(vec!["id", "type", "body", "from", "to", "created_time", "x"]).prop_map(|s| JwsMut::PayloadMember(s.into())),
        1 => proptest::option::of(select(vec!["JWM", "didcomm-signed+json", ""]).prop_map(String::from)).prop_map(JwsMut::Typ),
        3 => select(vec!["EdDSA", "ES256", "ES256K", "none", "HS256", "", "eddsa"]).prop_map(|s| JwsMut::Alg(s.into())),
        1 => Just(JwsMut::Extra),
        2 => (0u8..4).prop_map(JwsMut::OwnKid),
        2 => some_kid().prop_map(JwsMut::Kid),
        1 => Just(JwsMut::NoSig),
        1 => Just(JwsMut::TwoSigs),
        1 => any::<bool>().prop_map(JwsMut::WithOther),
        1 => any::<u8>().prop_map(JwsMut::SigFill),
        1 => Just(JwsMut::SwapHalves),
    ]
}
fn jws_case() -> BoxedStrategy<JwsCase> {
    (in_case_of(small_message), any::<bool>(), vec(jws_mut(), 1..7))
        .prop_map(|(mut inn, bare, muts)| {
            inn.p.sign = inn.p.sign.or(Some(By::Did));
            for l in &mut inn.layouts {
                l.extra = false;
            }
            JwsCase { inn, bare, muts }
        })
        .boxed()
}
fn mutate_jws(c: &PackCase, s: &str, other: &str, m: &JwsMut) -> Option<String> {
    let mut v: Value = serde_json::from_str(s).ok()?;
    let o: Value = serde_json::from_str(other).ok()?;
    let before = v.clone();
    let prot = |v: &mut Value, f: &dyn Fn(&mut Value)| -> Option<()> {
        let mut p: Value = serde_json::from_slice(&rf::unb64(v["signatures"][0]["protected"].as_str()?)?).ok()?;
        let q = p.clone();
        f(&mut p);
        (p != q).then(|| v["signatures"][0]["protected"] = json!(rf::b64(p.to_string().as_bytes())))
    };
    match m {
        JwsMut::Payload(e) => edit_str(&mut v["payload"], e, &o["payload"])?,
        JwsMut::Prot(e) => edit_str(&mut v["signatures"][0]["protected"], e, &o["signatures"][0]["protected"])?,
        JwsMut::Sig(e) => edit_str(&mut v["signatures"][0]["signature"], e, &o["signatures"][0]["signature"])?,
        JwsMut::Repack => {
            let p: Value = serde_json::from_slice(&rf::unb64(v["payload"].as_str()?)?).ok()?;
            v["payload"] = json!(rf::b64(serde_json::to_string_pretty(&p).ok()?.as_bytes()));
        }
        JwsMut::PayloadMember(k) => {
            let mut p: Value = serde_json::from_slice(&rf::unb64(v["payload"].as_str()?)?).ok()?;
            p[k] = match k.as_str() {
                "body" => json!({"evil": 1}),
                "to" => json!(["did:example:evil"]),
                "created_time" => json!(77),
                _ => json!("did:example:evil"),
            };
            v["payload"] = json!(rf::b64(p.to_string().as_bytes()));
        }
        JwsMut::Typ(t) => prot(&mut v, &|p| set(p, "typ", t.clone()))?,
        JwsMut::Alg(a) => prot(&mut v, &|p| set(p, "alg", Some(a.clone())))?,
        JwsMut::Extra => prot(&mut v, &|p| set(p, "x", Some("y".into())))?,
        JwsMut::OwnKid(i) => {
            let k = &c.s.auth[*i as usize % c.s.auth.len()];
            v["signatures"][0]["header"]["kid"] = json!(c.s.kid(k));
        }
        JwsMut::Kid(k) => v["signatures"][0]["header"]["kid"] = json!(k),
        JwsMut::NoSig => v["signatures"] = json!([]),
        JwsMut::TwoSigs => {
            let g = v["signatures"][0].clone();
            v["signatures"].as_array_mut()?.push(g);
        }
        JwsMut::WithOther(first) => {
            // the recipient signs the same payload
            let k = &c.r.auth[0];
            let payload = rf::unb64(v["payload"].as_str()?)?;
            let w = rf::seal_jws(&payload, &c.r.kid(k), k.kt, &c.r.sk(k), None, &Default::default());
            let g: Value = serde_json::from_str(&w).ok()?;
            let at = if *first { 0 } else { 1 };
            v["signatures"].as_array_mut()?.insert(at, g["signatures"][0].clone());
        }
        JwsMut::SigFill(x) => {
            let n = rf::unb64(v["signatures"][0]["signature"].as_str()?)?.len();
            v["signatures"][0]["signature"] = json!(rf::b64(&vec![*x; n]));
        }
        JwsMut::SwapHalves => {
            let mut b = rf::unb64(v["signatures"][0]["signature"].as_str()?)?;
            let n = b.len() / 2;
            b.rotate_left(n);
            v["signatures"][0]["signature"] = json!(rf::b64(&b));
        }
    }
    (v != before).then(|| v.to_string())
}
fn check_jws(c: &JwsCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    o.label(pc.akey().kt.sign_alg());
    o.label(if c.bare { "bare" } else { "encrypted" });
    let other = {
        let mut d = c.inn.clone();
        d.p.msg.id.push_str("-other");
        d.layouts[0].pretty ^= true;
        d
    };
    let (good, t) = c.inn.build();
    let (_, to) = other.build();
    let (jws, other_jws) = (&t.sign.as_ref().unwrap().2, &to.sign.as_ref().unwrap().2);
    let d = pc.dids();
    let secs = || Secs::new(pc.r.all_secrets()).order(pc.sec_order);
    if let Err(e) = unpack(if c.bare { jws } else { &good }, &d, &secs(), &pc.unpack_opts()) {
        return fail("control", format!("the unaltered message is rejected: {e}"));
    }
    for m in &c.muts {
        let Some(bad_jws) = mutate_jws(pc, jws, other_jws, m) else { continue };
        o.nt();
        o.inner += 1;
        let s = format!("{m:?}");
        o.label(s.split('(').next().unwrap_or("").to_string());
        let bad = if c.bare { bad_jws.clone() } else { c.inn.build_with(&|l, s| if l == "sign" { bad_jws.clone() } else { s }).0 };
        match unpack(&bad, &d, &secs(), &pc.unpack_opts()) {
            Ok(got) => return fail("altered-accepted", format!("altered signed message accepted: {m:?} as {got:?}\n{}", clip(&bad_jws, 2500))),
            Err(e) => {
                if matches!(m, JwsMut::Payload(_) | JwsMut::Sig(_) | JwsMut::PayloadMember(_) | JwsMut::Repack | JwsMut::NoSig | JwsMut::TwoSigs | JwsMut::WithOther(_)) {
                    ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error kind for {m:?} ({e})");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C18
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Defect {
    Remove,
    Retype(u8),
    /// for base64 members
    Base64(u8),
    BadAlg(u8),
    Cut(u16),
    NotObject(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DefectCase {
    inn: InCase,
    /// 0 plain, 1 signed, 2 encrypted
    kind: u8,
    at: u16,
    d: Defect,
    escape: bool,
}
fn defect_case() -> BoxedStrategy<DefectCase> {
    (
        in_case_of(small_message),
        0u8..3,
        any::<u16>(),
        prop_oneof![
            3 => Just(Defect::Remove),
            4 => (0u8..6).prop_map(Defect::Retype),
            3 => (0u8..7).prop_map(Defect::Base64),
            2 => (0u8..6).prop_map(Defect::BadAlg),
            3 => any::<u16>().prop_map(Defect::Cut),
            1 => (0u8..8).prop_map(Defect::NotObject),
        ],
        any::<bool>(),
    )
        .prop_map(|(mut inn, kind, at, d, escape)| {
            inn.p.sign = inn.p.sign.or(Some(By::Did));
            for l in &mut inn.layouts {
                l.extra = false;
                l.omit_typ = false;
                l.omit_skid = false;
            }
            DefectCase { inn, kind, at, d, escape }
        })
        .boxed()
}
/// Members a document of this kind must have, and whether they hold base64url.
fn required(kind: u8, auth: bool) -> Vec<(&'static [&'static str], bool, bool)> {
    // path, base64url, inside the protected header
    match kind {
        0 => vec![(&["id"], false, false), (&["type"], false, false), (&["body"], false, false)],
        1 => vec![
            (&["payload"], true, false),
            (&["signatures"], false, false),
            (&["signatures", "0", "protected"], true, false),
            (&["signatures", "0", "signature"], true, false),
            (&["signatures", "0", "header"], false, false),
            (&["signatures", "0", "header", "kid"], false, false),
            (&["alg"], false, true),
        ],
        _ => {
            let mut v: Vec<(&'static [&'static str], bool, bool)> = vec![
                (&["protected"], true, false),
                (&["recipients"], false, false),
                (&["iv"], true, false),
                (&["ciphertext"], true, false),
                (&["tag"], true, false),
                (&["recipients", "0", "header"], false, false),
                (&["recipients", "0", "header", "kid"], false, false),
                (&["recipients", "0", "encrypted_key"], true, false),
                (&["alg"], false, true),
                (&["enc"], false, true),
                (&["apv"], true, true),
                (&["epk"], false, true),
                (&["epk", "x"], true, true),
                (&["epk", "crv"], false, true),
                (&["epk", "kty"], false, true),
            ];
            if auth {
                v.push((&["apu"], true, true));
            }
            v
        }
    }
}
fn apply(v: &mut Value, path: &[&str], d: &Defect) -> Option<()> {
    let (last, init) = path.split_last()?;
    let mut cur = v;
    for p in init {
        cur = match p.parse::<usize>() {
            Ok(i) => cur.get_mut(i)?,
            Err(_) => cur.get_mut(*p)?,
        };
    }
    let o = cur.as_object_mut()?;
    let old = o.get(*last)?.clone();
    match d {
        Defect::Remove => {
            o.remove(*last);
        }
        Defect::Retype(k) => {
            let n = match k {
                0 => Value::Null,
                1 => json!(1),
                2 => json!(true),
                3 => json!([old]),
                4 => json!({"a": old}),
                _ => {
                    if old.is_string() {
                        json!([1])
                    } else {
                        json!("str")
                    }
                }
            };
            o.insert(last.to_string(), n);
        }
        Defect::Base64(k) => {
            let s = old.as_str()?;
            let n = match k {
                0 => format!("{s}*"),
                1 => format!("{s}A A"),
                2 => format!("+{s}"),
                3 => format!("{s}/"),
                4 => format!("{s}\u{e9}"),
                5 => format!("{s}."),
                _ => {
                    // a length no base64 text has
                    let mut t = s.to_string();
                    while t.len() % 4 != 1 {
                        t.push('A');
                    }
                    t
                }
            };
            o.insert(last.to_string(), json!(n));
        }
        _ => return None,
    }
    Some(())
}
fn check_defect(c: &DefectCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    let (enc, t) = c.inn.build();
    let kind = c.kind;
    let doc = match kind {
        0 => t.plain.clone(),
        1 => t.sign.as_ref().unwrap().2.clone(),
        _ => enc,
    };
    let auth = kind == 2 && t.anon.is_none();
    let bad = match &c.d {
        Defect::Cut(n) => {
            let mut e = *n as usize % doc.len();
            while !doc.is_char_boundary(e) {
                e -= 1;
            }
            doc[..e].to_string()
        }
        Defect::NotObject(k) => match k {
            0 => "null".into(),
            1 => "[]".into(),
            2 => format!("[{doc}]"),
            3 => json!(doc).to_string(),
            4 => "1".into(),
            5 => format!("{doc}{doc}"),
            6 => format!("{doc}x"),
            _ => "{}".into(),
        },
        d => {
            let mut v: Value = val(&doc)?;
            let req = required(kind, auth);
            let (path, is64, inprot) = match d {
                Defect::Base64(_) => {
                    let r: Vec<_> = req.iter().filter(|r| r.1).collect();
                    if r.is_empty() {
                        return Ok(());
                    }
                    **pick(&r, c.at)
                }
                Defect::BadAlg(_) => {
                    if kind == 0 {
                        return Ok(());
                    }
                    if kind == 2 && c.at & 1 == 1 {
                        (&["enc"][..], false, true)
                    } else {
                        (&["alg"][..], false, true)
                    }
                }
                _ => *pick(&req, c.at),
            };
            let _ = is64;
            let slot: Vec<&str> = if kind == 1 { vec!["signatures", "0", "protected"] } else { vec!["protected"] };
            if inprot {
                let mut pv = &mut v;
                for p in &slot {
                    pv = match p.parse::<usize>() {
                        Ok(i) => &mut pv[i],
                        Err(_) => &mut pv[*p],
                    };
                }
                let mut p: Value = serde_json::from_slice(&rf::unb64(pv.as_str().unwrap_or("")).unwrap_or_default()).unwrap_or(Value::Null);
                match d {
                    Defect::BadAlg(k) => {
                        p[path[0]] = json!(["none", "", "RSA-OAEP", "HS256", "A128CBC-HS256", "ECDH-ES+A128KW"][*k as usize % 6]);
                    }
                    _ => {
                        // body may be any value; every other member has one JSON type
                        if apply(&mut p, path, d).is_none() {
                            return Ok(());
                        }
                    }
                }
                *pv = json!(rf::b64(p.to_string().as_bytes()));
            } else {
                if path == ["body"] && !matches!(d, Defect::Remove) {
                    return Ok(()); // any JSON value is a body
                }
                if apply(&mut v, path, d).is_none() {
                    return Ok(());
                }
            }
            v.to_string()
        }
    };
    o.nt();
    let dn = format!("{:?}", c.d);
    o.label(format!("{}:{}", ["plain", "signed", if auth { "authcrypt" } else { "anoncrypt" }][kind as usize], dn.split('(').next().unwrap_or("")));
    match unpack(&bad, &pc.dids(), &Secs::new(pc.r.all_secrets()), &pc.unpack_opts()) {
        Ok(_) => fail("defect-accepted", format!("accepted: {:?}\n{}", c.d, clip(&bad, 2000))),
        Err(e) => {
            let ok = matches!(e.kind(), ErrorKind::Malformed) || (e.kind() == ErrorKind::Unsupported && matches!(c.d, Defect::BadAlg(_) | Defect::Retype(_) | Defect::Remove));
            ensure!(ok, "kind", "a malformed message ({:?}) is reported as {:?}: {e}\n{}", c.d, e.kind(), clip(&bad, 1500));
            Ok(())
        }
    }
}

/// Well-made envelopes around content that is no message.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PayloadCase {
    inn: InCase,
    kind: u8,
    content: Vec<u8>,
}
fn payload_case() -> BoxedStrategy<PayloadCase> {
    let content = prop_oneof![
        2 => vec(any::<u8>(), 0..40),
        1 => select(vec!["", "null", "{}", "[]", "\"x\"", "{\"id\":1}", "{\"id\":\"1\",\"type\":\"t\"}", "not json", "{\"typ\":\"application/didcomm-plain+json\"}"]).prop_map(|s| s.as_bytes().to_vec()),
        1 => Just(b"{\"id\":\"\xff\xfe\",\"type\":\"t\",\"body\":{}}".to_vec()),
    ];
    (in_case_of(small_message), 0u8..3, content).prop_map(|(inn, kind, content)| PayloadCase { inn, kind, content }).boxed()
}
fn check_payload(c: &PayloadCase, o: &mut Obs) -> Res {
    let pc = &c.inn.p;
    o.nt();
    o.label(["signed", "authcrypt", "anoncrypt"][c.kind as usize]);
    let k = pc.rkey();
    let rc = [rf::Rcpt { kid: pc.r.kid(k), pk: pc.r.pk(k) }];
    let sk = pc.skey();
    let l = Default::default();
    let msg = match c.kind {
        0 => rf::seal_jws(&c.content, &pc.s.kid(pc.akey()), pc.akey().kt, &pc.s.sk(pc.akey()), None, &l),
        1 => rf::seal_jwe(&c.content, rf::Enc::Cbc, k.kt, &rc, Some((&pc.s.kid(sk), &pc.s.sk(sk))), c.inn.seed, &l, &Default::default()),
        _ => rf::seal_jwe(&c.content, pc.opts.anon, k.kt, &rc, None, c.inn.seed, &l, &Default::default()),
    };
    match unpack(&msg, &pc.dids(), &Secs::new(pc.r.all_secrets()), &pc.unpack_opts()) {
        Ok(m) => fail("defect-accepted", format!("content {:?} was read as a message: {m:?}", String::from_utf8_lossy(&c.content))),
        Err(e) => {
            ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error kind for content {:?} ({e})", String::from_utf8_lossy(&c.content));
            Ok(())
        }
    }
}

/// Well-made envelopes that name keys as no message may.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Naming {
    RcptNoFrag(bool),
    RcptOtherDid,
    NoRcpt,
    SenderNoFrag,
    SenderEmpty,
    SenderNotUtf8(bool),
    NoSender,
    SkidAlone,
    SkidOther,
    SignerNoFrag,
    Signatures(u8),
    PlainTyp(u8),
    TokenKid,
    TokenTyp(u8),
    TokenText(u8),
    TokenClaims(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NamesCase {
    inn: InCase,
    anon: bool,
    n: Naming,
}
fn names_case() -> BoxedStrategy<NamesCase> {
    let n = prop_oneof![
        any::<bool>().prop_map(Naming::RcptNoFrag),
        Just(Naming::RcptOtherDid),
        Just(Naming::NoRcpt),
        Just(Naming::SenderNoFrag),
        Just(Naming::SenderEmpty),
        any::<bool>().prop_map(Naming::SenderNotUtf8),
        Just(Naming::NoSender),
        Just(Naming::SkidAlone),
        Just(Naming::SkidOther),
        Just(Naming::SignerNoFrag),
        (0u8..3).prop_map(Naming::Signatures),
        (0u8..5).prop_map(Naming::PlainTyp),
        Just(Naming::TokenKid),
        (0u8..3).prop_map(Naming::TokenTyp),
        (0u8..6).prop_map(Naming::TokenText),
        (0u8..5).prop_map(Naming::TokenClaims),
    ];
    (in_case_of(small_message), any::<bool>(), n).prop_map(|(inn, anon, n)| NamesCase { inn, anon, n }).boxed()
}
fn check_names(c: &NamesCase, o: &mut Obs) -> Res {
    o.nt();
    let n = format!("{:?}", c.n);
    o.label(n.split('(').next().unwrap_or("").to_string());
    let pc = &c.inn.p;
    let (s, r) = (&pc.s, &pc.r);
    let (rk, sk, ak) = (pc.rkey(), pc.skey(), pc.akey());
    let (skid, akid) = (s.kid(sk), s.kid(ak));
    let mut rc = vec![rf::Rcpt { kid: r.kid(rk), pk: r.pk(rk) }];
    let mut t = rf::Tweak::default();
    let l = rf::Layout::default();
    let mut model = pc.msg.model(pc.header_from(), pc.header_to().as_deref(), None);
    let mut sender: String = skid.clone();
    // 0 anoncrypt, 1 authcrypt, 2 signed, 3 plain
    let mut kind = if c.anon { 0 } else { 1 };
    match &c.n {
        Naming::RcptNoFrag(first) => {
            let x = rf::Rcpt { kid: r.did.clone(), pk: r.pk(rk) };
            rc.insert(if *first { 0 } else { 1 }, x)
        }
        Naming::RcptOtherDid => rc.push(rf::Rcpt { kid: format!("{}x#k", r.did), pk: r.pk(rk) }),
        Naming::NoRcpt => rc.clear(),
        Naming::SenderNoFrag => (kind, sender) = (1, s.did.clone()),
        Naming::SenderEmpty => (kind, sender) = (1, String::new()),
        Naming::SenderNotUtf8(b) => {
            kind = 1;
            t.apu = Some(Some(rf::b64(&[skid.as_bytes(), &[0xff]].concat())));
            if *b {
                t.skid = Some(None)
            }
        }
        Naming::NoSender => {
            kind = 1;
            t.apu = Some(None);
            t.skid = Some(None)
        }
        Naming::SkidAlone => {
            kind = 1;
            t.apu = Some(None)
        }
        Naming::SkidOther => {
            kind = 1;
            t.skid = Some(Some(format!("{skid}x")))
        }
        Naming::SignerNoFrag | Naming::Signatures(_) => kind = 2,
        Naming::PlainTyp(k) => {
            kind = 3;
            model["typ"] = json!(["application/didcomm-signed+json", "", "didcomm-plain+json", "application/didcomm-plain+jsonx", "JWT"][*k as usize]);
        }
        Naming::TokenKid | Naming::TokenTyp(_) | Naming::TokenText(_) | Naming::TokenClaims(_) => {
            kind = 3;
            let iss = &s.did;
            let sub = model["from"].as_str().unwrap_or("did:example:new").to_string();
            let mut claims = json!({"iss": iss, "sub": sub});
            let mut h = rf::jwt_header(&akid, ak.kt);
            match &c.n {
                Naming::TokenKid => {
                    h.insert("kid".into(), json!(s.did));
                }
                Naming::TokenTyp(k) => {
                    h.insert("typ".into(), json!(["jwt", "", "application/didcomm-signed+json"][*k as usize]));
                }
                Naming::TokenClaims(k) => match k {
                    0 => claims = json!({"iss": iss}),
                    1 => claims = json!({"sub": sub}),
                    2 => claims = json!({"iss": iss, "sub": [sub]}),
                    3 => claims["exp"] = json!("soon"),
                    _ => claims["iat"] = json!(-1),
                },
                _ => {}
            }
            let mut tok = rf::seal_jwt(&claims.to_string(), &h, ak.kt, &s.sk(ak));
            if let Naming::TokenText(k) = c.n {
                let seg: Vec<&str> = tok.split('.').collect();
                tok = match k {
                    0 => format!("{}.{}", seg[0], seg[1]),
                    1 => format!("{tok}.{}", seg[2]),
                    2 => format!("*{tok}"),
                    3 => format!("{}.{}*.{}", seg[0], seg[1], seg[2]),
                    4 => format!("{tok}*"),
                    _ => String::new(),
                };
            }
            model["from_prior"] = json!(tok);
        }
    }
    let plain = model.to_string();
    let wire = match kind {
        0 => rf::seal_jwe(plain.as_bytes(), pc.opts.anon, rk.kt, &rc, None, c.inn.seed, &l, &t),
        1 => rf::seal_jwe(plain.as_bytes(), rf::Enc::Cbc, rk.kt, &rc, Some((&sender, &s.sk(sk))), c.inn.seed, &l, &t),
        2 => {
            let kid = if c.n == Naming::SignerNoFrag { s.did.clone() } else { akid };
            let mut w = val(&rf::seal_jws(plain.as_bytes(), &kid, ak.kt, &s.sk(ak), None, &l))?;
            if let Naming::Signatures(k) = c.n {
                let g = w["signatures"][0].clone();
                w["signatures"] = Value::Array(vec![g; [0, 2, 3][k as usize]]);
            }
            w.to_string()
        }
        _ => plain,
    };
    match unpack(&wire, &pc.dids(), &Secs::new(r.all_secrets()), &pc.unpack_opts()) {
        Ok(m) => fail("defect-accepted", format!("{:?} was accepted: {m:?}\n{}", c.n, clip(&wire, 1500))),
        Err(e) => {
            ensure_eq!(e.kind(), ErrorKind::Malformed, "kind", "error kind for {:?} ({e})\n{}", c.n, clip(&wire, 1500));
            Ok(())
        }
    }
}
