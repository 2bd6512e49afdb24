//! C33: the writing style of JSON text makes no difference.
use super::common::*;
use super::envelope::{in_case_of, meta_of, InCase};
use super::prior::{prior_case, PriorCase};
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::error::ErrorKind;
use didcomm::{FromPrior, UnpackOptions};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C33",
        "Conforming messages of the reference implementation (plain, signed, encrypted, nested), rotation tokens, and spoilt messages, whose JSON objects at every layer (also inside protected headers, tokens and under encryption) are rewritten: member order, white space, string escapes in values and member names; in half of the cases one string of an envelope that didcomm borrows from the text has one escape. Non-trivial: the rewriting changed the text of at least one layer.",
        vec![
            part!("layers", 25000, 600000, |_| layers_case(), check_layers),
            part!("token", 15000, 300000, |_| (prior_case(), style(), borrowed()).boxed(), check_token),
            part!("spoilt", 30000, 600000, |_| spoilt_case(), check_spoilt),
        ],
    )]
}

/// String members didcomm reads as `&str` into the text: (layer, path)
const BORROWED: &[(&str, &str)] = &[
    ("jwe", "protected"),
    ("jwe", "iv"),
    ("jwe", "ciphertext"),
    ("jwe", "tag"),
    ("jwe", "recipients/encrypted_key"),
    ("jwe", "recipients/header/kid"),
    ("jwe-header", "skid"),
    ("jwe-header", "apu"),
    ("jwe-header", "apv"),
    ("jws", "payload"),
    ("jws", "signatures/protected"),
    ("jws", "signatures/signature"),
    ("jws", "signatures/header/kid"),
    ("jwt-header", "typ"),
    ("jwt-header", "kid"),
];
pub fn borrowed() -> impl Strategy<Value = Option<u8>> {
    proptest::option::of(0..BORROWED.len() as u8)
}
fn layer_of(v: &Value) -> &'static str {
    let has = |k: &str| v.get(k).is_some();
    if has("recipients") || has("ciphertext") {
        "jwe"
    } else if has("signatures") {
        "jws"
    } else if has("enc") || has("epk") {
        "jwe-header"
    } else if has("alg") && has("kid") {
        "jwt-header"
    } else {
        "other"
    }
}
/// Rewrites an object; tells whether a borrowed string came to be written with an escape, and which.
fn rewrite(st: &Style, v: &Value, escaped: Option<u8>) -> (String, bool) {
    let layer = layer_of(v);
    let hit = RefCell::new(false);
    let want = escaped.map(|i| BORROWED[i as usize]);
    let s = st.write_with(v, &|path, t| {
        let p = path.join("/");
        if !BORROWED.contains(&(layer, &p)) {
            // of a signed message: protected, typ and alg are owned
            return Esc::Free;
        }
        if want == Some((layer, &p)) && !t.is_empty() {
            *hit.borrow_mut() = true;
            return Esc::Once;
        }
        Esc::Never
    });
    let hit = *hit.borrow();
    (s, hit)
}
/// A writer for every object of a message in the making.
fn writer(st: Style, escaped: Option<u8>, hit: Rc<RefCell<bool>>, changed: Rc<RefCell<bool>>) -> Box<dyn Fn(String) -> String> {
    let n = RefCell::new(0u32);
    Box::new(move |s| {
        let Ok(v) = serde_json::from_str::<Value>(&s) else { return s };
        *n.borrow_mut() += 1;
        let st = Style { seed: st.seed.wrapping_add(n.borrow().wrapping_mul(0x9e37_79b1)), ..st };
        let (t, h) = rewrite(&st, &v, escaped);
        *hit.borrow_mut() |= h;
        *changed.borrow_mut() |= t != s;
        t
    })
}
/// The refusal of a borrowed string with an escape has a signature of its own.
fn refusal(e: &didcomm::error::Error, hit: bool, escaped: Option<u8>, text: &str) -> Res {
    if hit && e.kind() == ErrorKind::Malformed {
        let (l, p) = BORROWED[escaped.unwrap() as usize];
        return fail(&format!("escape-refused:{l}:{p}"), format!("an escape in {p} of the {l} makes the message unreadable: {e}\n{}", clip(text, 1500)));
    }
    fail("unpack-fails", format!("a conforming message is rejected: {e}\n{}", clip(text, 3000)))
}

// ---------------------------------------------------------------- conforming messages
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LayersCase {
    c: InCase,
    /// only the plaintext, or only signed
    bare: Option<bool>,
    st: Style,
    escaped: Option<u8>,
}
pub fn layers_case() -> BoxedStrategy<LayersCase> {
    (in_case_of(small_message), proptest::option::weighted(0.3, any::<bool>()), style(), borrowed())
        .prop_map(|(c, bare, st, escaped)| LayersCase { c, bare, st, escaped })
        .boxed()
}
impl LayersCase {
    fn make(&self) -> (String, Tower) {
        let (m, mut t) = self.c.build();
        match (self.bare, &t.sign) {
            (Some(true), Some((_, _, s))) => {
                let s = s.clone();
                t.anon = None;
                t.auth = None;
                (s, t)
            }
            (Some(false), _) => {
                t = Tower { plain: t.plain, ..Default::default() };
                (t.plain.clone(), t)
            }
            _ => (m, t),
        }
    }
}
pub fn check_layers(l: &LayersCase, o: &mut Obs) -> Res {
    let c = &l.c.p;
    let (hit, changed) = (Rc::new(RefCell::new(false)), Rc::new(RefCell::new(false)));
    let (msg, t) = rf::with_writer(writer(l.st, l.escaped, hit.clone(), changed.clone()), || l.make());
    // layers taken off again were written for nothing
    let reaches = |layer: &str| match layer {
        "jwe" | "jwe-header" => t.anon.is_some() || t.auth.is_some(),
        "jws" => t.sign.is_some(),
        _ => true,
    };
    let hit = *hit.borrow() && l.escaped.map_or(false, |i| reaches(BORROWED[i as usize].0));
    if *changed.borrow() {
        o.nt();
    }
    o.label(format!("layers {}{}{}", t.anon.is_some() as u8, t.auth.is_some() as u8, t.sign.is_some() as u8));
    if hit {
        o.label("escape in a borrowed string");
    }
    let kids = t.anon.as_ref().map(|a| a.2.clone()).or(t.auth.as_ref().map(|a| a.2.clone())).unwrap_or_default();
    let secs = if kids.is_empty() { Secs::new(vec![]) } else { c.holder(&kids) };
    match unpack(&msg, &c.dids(), &secs, &c.unpack_opts()) {
        Ok((got, meta)) => {
            ensure_eq!(msg_json(&got)?, c.model(), "message", "unpacked message");
            ensure_eq!(meta, meta_of(&t), "metadata", "unpack metadata");
        }
        Err(e) => return refusal(&e, hit, l.escaped, &msg),
    }
    Ok(())
}

// ---------------------------------------------------------------- tokens
pub fn check_token(c: &(PriorCase, Style, Option<u8>), o: &mut Obs) -> Res {
    let (p, st, escaped) = c;
    let (hit, changed) = (Rc::new(RefCell::new(false)), Rc::new(RefCell::new(false)));
    let jwt = rf::with_writer(writer(*st, *escaped, hit.clone(), changed.clone()), || p.jwt(&p.l));
    if *changed.borrow() {
        o.nt();
    }
    let d = Dids::of(&[&p.i]);
    match block_on(FromPrior::unpack(&jwt, &d)) {
        Ok((got, kid)) => {
            ensure_eq!(got, p.prior(), "token", "claims");
            ensure_eq!(kid, p.kid(), "token", "key");
        }
        Err(e) => return refusal(&e, *hit.borrow(), *escaped, &jwt),
    }
    // in a message
    let m = json!({"id": "1", "typ": "application/didcomm-plain+json", "type": "t", "body": {}, "from_prior": jwt});
    match unpack(&st.write(&m), &d, &Secs::new(vec![]), &UnpackOptions::default()) {
        Ok((got, meta)) => {
            ensure_eq!(got.from_prior.as_deref(), Some(&jwt[..]), "token-carried", "from_prior of the message");
            ensure_eq!(meta.from_prior, Some(p.prior()), "token-carried", "from_prior of the metadata");
            ensure_eq!(meta.from_prior_issuer_kid, Some(p.kid()), "token-carried", "issuer key");
        }
        Err(e) => return fail("token-carried", format!("{e}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- spoilt messages
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SpoiltCase {
    l: LayersCase,
    /// which member (in order of the text), and what becomes of it
    at: u16,
    by: u8,
    secrets: bool,
    styles: [Style; 3],
}
fn spoilt_case() -> BoxedStrategy<SpoiltCase> {
    (layers_case(), idx(), 0u8..9, prop::bool::weighted(0.85), [style(), style(), style()])
        .prop_map(|(l, at, by, secrets, styles)| SpoiltCase { l, at, by, secrets, styles })
        .boxed()
}
fn members(v: &Value, at: &str, out: &mut Vec<String>) {
    match v {
        Value::Object(m) => {
            for (k, x) in m {
                let p = format!("{at}/{}", k.replace('~', "~0").replace('/', "~1"));
                out.push(p.clone());
                members(x, &p, out);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let p = format!("{at}/{i}");
                out.push(p.clone());
                members(x, &p, out);
            }
        }
        _ => {}
    }
}
fn check_spoilt(s: &SpoiltCase, o: &mut Obs) -> Res {
    let c = &s.l.c.p;
    let (msg, t) = s.l.make();
    let mut v = val(&msg)?;
    let mut all = vec![];
    members(&v, "", &mut all);
    let p = pick(&all, s.at).clone();
    if s.by == 0 {
        let (parent, key) = p.rsplit_once('/').unwrap();
        match v.pointer_mut(parent) {
            Some(Value::Object(m)) => {
                m.remove(&key.replace("~1", "/").replace("~0", "~"));
            }
            Some(Value::Array(a)) => {
                a.remove(key.parse().unwrap());
            }
            _ => {}
        }
    } else {
        let x = v.pointer_mut(&p).unwrap();
        *x = match (s.by, &*x) {
            (1, _) => Value::Null,
            (2, _) => json!([]),
            (3, _) => json!({}),
            (4, _) => json!(7),
            (5, _) => json!(""),
            (6, Value::String(t)) => json!(format!("{t}A")),
            (7, Value::String(t)) => json!(t.chars().rev().collect::<String>()),
            (8, Value::String(t)) if t.len() > 1 => json!(t[..t.char_indices().last().unwrap().0].to_string()),
            (_, Value::Array(a)) => json!([a.clone(), a.clone()].concat()),
            _ => json!(true),
        };
    }
    let kids = t.anon.as_ref().map(|a| a.2.clone()).or(t.auth.as_ref().map(|a| a.2.clone())).unwrap_or_default();
    let secs = || if kids.is_empty() || !s.secrets { Secs::new(vec![]) } else { c.holder(&kids) };
    let run = |text: &str| {
        unpack(text, &c.dids(), &secs(), &c.unpack_opts()).map(|(m, mut md)| {
            md.signed_message = md.signed_message.and_then(|x| serde_json::from_str::<Value>(&x).ok()).map(|x| x.to_string());
            (msg_json(&m).ok(), md)
        })
    };
    let base = run(&v.to_string());
    o.label(match &base {
        Ok(_) => "still readable".to_string(),
        Err(e) => format!("{:?}", e.kind()),
    });
    for st in &s.styles {
        let (text, _) = rewrite(st, &v, None);
        if text != v.to_string() {
            o.nt();
        }
        o.inner += 1;
        let got = run(&text);
        match (&base, &got) {
            (Ok(a), Ok(b)) => ensure_eq!(a, b, "spoilt-content", "{p} spoilt by {}: content depends on the writing", s.by),
            (Err(a), Err(b)) => ensure_eq!(a.kind(), b.kind(), "spoilt-kind", "{p} spoilt by {}: {a} / {b}\n{}", s.by, clip(&text, 2000)),
            (a, b) => {
                ensure!(false, "spoilt-outcome", "{p} spoilt by {}: {:?} or {:?}\n{}", s.by, a.as_ref().map(|_| "readable"), b.as_ref().map(|_| "readable"), clip(&text, 2000))
            }
        }
    }
    Ok(())
}
