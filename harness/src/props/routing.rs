//! C19-C22: the Forward protocol.
use super::common::*;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::{MessagingServiceMetadata, UnpackOptions};
use proptest::collection::{btree_map, vec};
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet};

pub const FORWARD: &str = "https://didcomm.org/routing/2.0/forward";
pub const MEDIATORS: [&str; 3] = ["did:example:mediator", "did:web:relay.example:m", "did:example:mediator2"];
type Headers = Option<BTreeMap<String, Value>>;

pub fn mediators() -> BoxedStrategy<Vec<Party>> {
    MEDIATORS.iter().map(|d| party_with(d.to_string(), KA_KTS, 1..4, AUTH_KTS, 1..2, 1.0)).collect::<Vec<_>>().boxed()
}
fn headers() -> BoxedStrategy<Headers> {
    option::of(btree_map(header_name(), json_value(), 0..3)).boxed()
}
/// A mediator's key or DID.
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub struct Via {
    pub m: u8,
    pub by: By,
    pub k: u16,
}
pub fn via() -> impl Strategy<Value = Via> {
    (0u8..3, by(), idx()).prop_map(|(m, by, k)| Via { m, by, k })
}
impl Via {
    pub fn name(&self, ms: &[Party]) -> String {
        let p = &ms[self.m as usize % ms.len()];
        match self.by {
            By::Did => p.did.clone(),
            By::Kid => p.kid(pick(&p.ka, self.k)),
        }
    }
}
/// The key ids an anonymous encryption to `name` is expected to address, with their kind.
pub fn anon_kids(ps: &[&Party], name: &str) -> Option<(Kt, Vec<String>)> {
    let p = ps.iter().find(|p| name == p.did || name.starts_with(&format!("{}#", p.did)))?;
    let ks: Vec<&Key> = p.ka.iter().filter(|k| name == p.did || p.kid(k) == name).collect();
    let kt = ks.first()?.kt;
    Some((kt, ks.iter().filter(|k| k.kt == kt).map(|k| p.kid(k)).collect()))
}

/// Opens an onion layer by layer, the way the named mediators would, checking each layer.
fn peel(msg: &str, keys: &[String], to: &str, hs: &Headers, enc: rf::Enc, ps: &[&Party]) -> Res<String> {
    let mut cur = msg.to_string();
    let mut ids = HashSet::new();
    for (i, k) in keys.iter().enumerate() {
        let t = read_tower(&cur, ps).map_err(|e| Fail { sig: "onion".into(), msg: format!("layer {i} for {k}: {e}") })?;
        ensure!(t.auth.is_none() && t.sign.is_none(), "onion", "layer {i} is not only anonymously encrypted: {t:?}");
        let Some(a) = t.anon else { return fail("onion", format!("layer {i} for {k} is not encrypted: {}", clip(&cur, 400))) };
        let Some((kt, want)) = anon_kids(ps, k) else { return fail("harness", format!("no such routing key {k}")) };
        ensure_eq!((a.0, a.1, sorted(&a.2)), (enc, kt, sorted(&want)), "onion", "encryption of layer {i} for {k}");
        let v = val(&t.plain)?;
        let next = keys.get(i + 1).map_or(to, |s| s);
        let id = v["id"].as_str().unwrap_or("").to_string();
        ensure!(!id.is_empty() && ids.insert(id.clone()), "onion-id", "id {id:?} of layer {i} is empty or used before");
        let inner = v["attachments"][0]["data"]["json"].clone();
        let mut want = Map::new();
        want.insert("id".into(), json!(id));
        want.insert("typ".into(), json!(rf::TYP_PLAIN));
        want.insert("type".into(), json!(FORWARD));
        want.insert("body".into(), json!({"next": next}));
        for (k, v) in hs.iter().flatten() {
            want.insert(k.clone(), v.clone());
        }
        want.insert("attachments".into(), json!([{"data": {"json": inner}}]));
        ensure_eq!(v, Value::Object(want), "onion", "plaintext of layer {i}");
        ensure!(inner.is_object(), "onion", "layer {i} forwards {inner}");
        cur = inner.to_string();
    }
    Ok(cur)
}

// ---------------------------------------------------------------- C19
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OnionCase {
    pub p: PackCase,
    pub ms: Vec<Party>,
    pub vias: Vec<Via>,
    pub hs: Headers,
    pub enc: rf::Enc,
}
pub fn onion_case() -> BoxedStrategy<OnionCase> {
    (pack_case(small_message), mediators(), prop_oneof![40 => vec(via(), 0..5), 1 => vec(via(), 5..16)], headers(), enc()).prop_map(|(p, ms, vias, hs, enc)| OnionCase { p, ms, vias, hs, enc }).boxed()
}
pub fn check_onion(c: &OnionCase, o: &mut Obs) -> Res {
    if c.vias.len() > 1 {
        o.nt();
    }
    o.label(format!("layers={}", c.vias.len()));
    if c.hs.as_ref().map_or(false, |h| !h.is_empty()) {
        o.label("headers");
    }
    let (msg, md) = c.p.packed()?;
    let keys: Vec<String> = c.vias.iter().map(|v| v.name(&c.ms)).collect();
    let ps: Vec<&Party> = c.ms.iter().collect();
    let d = Dids::of(&ps);
    let to = c.p.to_s();
    let hs = c.hs.clone().map(|h| h.into_iter().collect());
    let wrapped = match block_on(wrap_in_forward(&msg, hs.as_ref(), &to, &keys, &anon_alg(c.enc), &d)) {
        Ok(w) => w,
        Err(e) => return fail("wrap-fails", format!("{e}")),
    };
    let inner = peel(&wrapped, &keys, &to, &c.hs, c.enc, &ps)?;
    ensure_eq!(val(&inner)?, val(&msg)?, "content", "message at the core of the onion");
    // and by the library, each mediator with its own secrets
    let mut cur = wrapped;
    for (i, v) in c.vias.iter().enumerate() {
        let m = &c.ms[v.m as usize % 3];
        let (got, _) = match unpack(&cur, &d, &Secs::new(m.all_secrets()), &UnpackOptions { expect_decrypt_by_all_keys: c.p.all_keys, unwrap_re_wrapping_forward: false }) {
            Ok(x) => x,
            Err(e) => return fail("mediator-fails", format!("mediator {i}: {e}")),
        };
        let Some(f) = try_parse_forward(&got) else { return fail("mediator-fails", format!("layer {i} is no Forward: {got:?}")) };
        ensure_eq!(f.next, *keys.get(i + 1).unwrap_or(&to), "next", "where mediator {i} forwards to");
        cur = f.forwarded_msg.to_string();
    }
    let (got, _) = match unpack(&cur, &c.p.dids(), &c.p.holder(&md.to_kids), &c.p.unpack_opts()) {
        Ok(x) => x,
        Err(e) => return fail("recipient-fails", format!("{e}")),
    };
    ensure_eq!(msg_json(&got)?, c.p.model(), "content", "message delivered");
    Ok(())
}
/// what is no JSON cannot be forwarded; what cannot be addressed is an error
fn check_unwrappable((c, how, bad): &(OnionCase, u8, u16), o: &mut Obs) -> Res {
    o.nt();
    let (msg, _) = c.p.packed()?;
    let mut keys: Vec<String> = c.vias.iter().map(|v| v.name(&c.ms)).collect();
    if keys.is_empty() {
        keys.push(MEDIATORS[0].into());
    }
    let ps: Vec<&Party> = c.ms.iter().collect();
    let d = Dids::of(&ps);
    let at = *bad as usize % keys.len();
    let m = &c.ms[*bad as usize % 3];
    let mut text = msg.clone();
    let want = match how {
        0 => {
            keys[at] = "did:example:nobody".into();
            ErrorKind::DIDNotResolved
        }
        1 => {
            keys[at] = "did:example:nobody#1".into();
            ErrorKind::DIDNotResolved
        }
        2 => {
            keys[at] = format!("{}#nokey", m.did);
            ErrorKind::DIDUrlNotFound
        }
        3 => {
            keys[at] = m.kid(&m.auth[0]);
            ErrorKind::DIDUrlNotFound
        }
        _ => {
            text.pop();
            ErrorKind::Malformed
        }
    };
    o.label(format!("{want:?}"));
    let hs = c.hs.clone().map(|h| h.into_iter().collect());
    match block_on(wrap_in_forward(&text, hs.as_ref(), &c.p.to_s(), &keys, &anon_alg(c.enc), &d)) {
        Ok(w) => fail("wrapped-anyway", format!("with routing keys {keys:?} of which {at} cannot be used: {}", clip(&w, 300))),
        Err(e) => {
            ensure_eq!(e.kind(), want, "kind", "{e}");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- C20
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Uri {
    Http(u8),
    Mediator(u8),
    Own,
    Nobody,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SvcGen {
    other: bool,
    uri: Uri,
    accept: u8,
    near: (u8, u16),
    keys: Vec<Via>,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RouteCase {
    p: PackCase,
    ms: Vec<Party>,
    /// the recipient's services, then each mediator's
    svcs: Vec<Vec<SvcGen>>,
    /// None: unspecified; by index among the recipient's, or another id
    service: Option<(u8, (u8, u16))>,
    hs: Headers,
}
fn svc_gen() -> impl Strategy<Value = SvcGen> {
    (
        proptest::bool::weighted(0.15),
        prop_oneof![20 => (0u8..9).prop_map(Uri::Http), 12 => (0u8..3).prop_map(Uri::Mediator), 1 => Just(Uri::Own), 4 => Just(Uri::Nobody)],
        (0u8..15, (any::<u8>(), any::<u16>())),
        prop_oneof![20 => Just(vec![]), 60 => vec(via(), 1..3), 1 => vec(via(), 3..10)],
    )
        .prop_map(|(other, uri, (accept, near), keys)| SvcGen { other, uri, accept, near, keys })
}
fn mediator_svc() -> impl Strategy<Value = SvcGen> {
    (
        proptest::bool::weighted(0.15),
        prop_oneof![12 => (0u8..9).prop_map(Uri::Http), 1 => (0u8..3).prop_map(Uri::Mediator)],
        (0u8..15, (any::<u8>(), any::<u16>())),
        vec(via(), 0..2),
    )
        .prop_map(|(other, uri, (accept, near), keys)| SvcGen { other, uri, accept, near, keys })
}
pub fn route_case() -> BoxedStrategy<RouteCase> {
    let svcs = (prop_oneof![40 => vec(svc_gen(), 0..4), 1 => vec(svc_gen(), 4..12)], vec(mediator_svc(), 0..3), vec(mediator_svc(), 0..3), vec(mediator_svc(), 0..3)).prop_map(|(a, b, c, d)| vec![a, b, c, d]);
    (pack_case(small_message), mediators(), svcs, option::weighted(0.4, (0u8..7, (any::<u8>(), any::<u16>()))), headers())
        .prop_map(|(mut p, ms, svcs, service, hs)| {
            p.opts.forward = p.opts.forward || p.si % 3 != 0;
            RouteCase { p, ms, svcs, service, hs }
        })
        .boxed()
}
const HTTP: [&str; 9] = [
    "http://example.com/path", "https://relay.example", "didcomm:transport/queue", "", "wss://x/did:example:mediator", "did:x", "DID:example:m", "xdid:example:m", "did/example/m",
];
fn svc_of(g: &SvcGen, i: usize, ms: &[Party], own: &str) -> Svc {
    let acc = |v: &[&str]| Some(v.iter().map(|s| s.to_string()).collect());
    Svc {
        frag: format!("didcomm-{}", i + 1),
        didcomm: (!g.other).then(|| SvcBody {
            uri: match &g.uri {
                Uri::Http(i) => HTTP[*i as usize % 9].into(),
                Uri::Mediator(i) => ms[*i as usize % 3].did.clone(),
                Uri::Own => own.into(),
                Uri::Nobody => "did:example:nobody".into(),
            },
            accept: match g.accept {
                0 | 1 => None,
                2 | 3 => Some(vec![]),
                4 | 5 => acc(&["didcomm/v2"]),
                6 | 7 => acc(&["didcomm/aip2;env=rfc587", "didcomm/v2"]),
                8 => acc(&["didcomm/v2", "x"]),
                9 => acc(&["didcomm/aip1"]),
                10 => acc(&["didcomm/v2;q=1"]),
                11 => acc(&["didcomm/v", "DIDComm/v2"]),
                12 => acc(&[&near("didcomm/v2", g.near.0, g.near.1), &near("didcomm/v2", g.near.0 ^ 5, g.near.1 / 3)]),
                _ => acc(&[&near("didcomm/v2", g.near.0, g.near.1)]),
            },
            routing_keys: g.keys.iter().map(|v| v.name(ms)).collect(),
        }),
    }
}
fn accepts(b: &SvcBody) -> bool {
    b.accept.as_ref().map_or(true, |a| a.is_empty() || a.iter().any(|x| x == "didcomm/v2"))
}
#[derive(Debug)]
struct Route {
    id: String,
    endpoint: String,
    keys: Vec<String>,
}
fn route_model(r: &Party, ms: &[Party], service: Option<&str>) -> Result<Option<Route>, ErrorKind> {
    let first = |p: &Party| p.services.iter().find_map(|s| s.didcomm.clone().filter(accepts).map(|b| (p.svc_id(s), b)));
    let chosen = match service {
        None => first(r),
        Some(id) => {
            let s = r.services.iter().find(|s| r.svc_id(s) == id).ok_or(ErrorKind::IllegalArgument)?;
            let b = s.didcomm.clone().filter(accepts).ok_or(ErrorKind::IllegalArgument)?;
            Some((id.to_string(), b))
        }
    };
    let Some((id, b)) = chosen else { return Ok(None) };
    let is_did = |u: &str| u.starts_with("did:") && u.split(':').count() >= 3;
    let mut keys = vec![];
    let mut endpoint = b.uri.clone();
    if is_did(&endpoint) {
        let m = ms.iter().chain([r]).find(|m| m.did == endpoint).ok_or(ErrorKind::DIDNotResolved)?;
        keys.push(endpoint.clone());
        endpoint = first(m).ok_or(ErrorKind::InvalidState)?.1.uri;
        if is_did(&endpoint) {
            return Err(ErrorKind::InvalidState);
        }
    }
    keys.extend(b.routing_keys.clone());
    Ok((!keys.is_empty()).then_some(Route { id, endpoint, keys }))
}
pub fn check_route(c: &RouteCase, o: &mut Obs) -> Res {
    let mut r = c.p.r.clone();
    r.services = c.svcs[0].iter().enumerate().map(|(i, g)| svc_of(g, i, &c.ms, &c.p.r.did)).collect();
    let mut ms = c.ms.clone();
    for (i, m) in ms.iter_mut().enumerate() {
        m.services = c.svcs[i + 1].iter().enumerate().map(|(i, g)| svc_of(g, i, &c.ms, &c.p.r.did)).collect();
    }
    let service = c.service.map(|(i, (how, at))| match i {
        6 => near(&format!("{}#didcomm-1", r.did), how, at),
        0 => format!("{}#unknown", r.did),
        1 => format!("{}#didcomm-1", c.p.s.did),
        i => format!("{}#didcomm-{}", r.did, i - 1),
    });
    let want = if c.p.opts.forward { route_model(&r, &ms, service.as_deref()) } else { Ok(None) };
    let mut opts = c.p.opts.build();
    opts.messaging_service = service.clone();
    opts.forward_headers = c.hs.clone().map(|h| h.into_iter().collect());
    let mut ps: Vec<&Party> = vec![&c.p.s, &r];
    ps.extend(&ms);
    let d = Dids::of(&ps);
    let s = Secs::of(&[&c.p.s]).order(c.p.sec_order);
    let got = block_on(c.p.message().pack_encrypted(&c.p.to_s(), c.p.from_s().as_deref(), c.p.sign_s().as_deref(), &d, &s, &opts));
    o.label(match &want {
        Ok(None) if !c.p.opts.forward => "off".to_string(),
        Ok(None) => "direct".into(),
        Ok(Some(r)) => format!("routed over {}", r.keys.len()),
        Err(e) => format!("{e:?}"),
    });
    if c.p.opts.forward && !r.services.is_empty() {
        o.nt();
    }
    let (msg, md) = match (got, &want) {
        (Ok(x), Ok(_)) => x,
        (Err(e), Err(k)) => {
            ensure_eq!(e.kind(), *k, "kind", "{e}");
            return Ok(());
        }
        (Ok(_), Err(k)) => return fail("routed-anyway", format!("expected {k:?}: services {:?}", r.services)),
        (Err(e), Ok(w)) => return fail("pack-fails", format!("{e}; expected {w:?}")),
    };
    let w = want.ok().flatten();
    ensure_eq!(
        md.messaging_service,
        w.as_ref().map(|w| MessagingServiceMetadata { id: w.id.clone(), service_endpoint: w.endpoint.clone() }),
        "metadata",
        "messaging service reported"
    );
    let keys = w.map(|w| w.keys).unwrap_or_default();
    let mps: Vec<&Party> = ms.iter().chain([&r]).collect();
    let inner = peel(&msg, &keys, &c.p.to_s(), &c.hs, c.p.opts.anon, &mps)?;
    let t = read_tower(&inner, &[&c.p.s, &r]).map_err(|e| Fail { sig: "core".into(), msg: e })?;
    ensure_eq!(val(&t.plain)?, c.p.model(), "content", "message at the core");
    let kids = t.anon.as_ref().map(|a| &a.2).or(t.auth.as_ref().map(|a| &a.2));
    ensure_eq!(kids.map(|k| sorted(k)), Some(sorted(&md.to_kids)), "to-kids", "keys of the recipient reported");
    ensure_eq!(t.auth.as_ref().map(|a| a.0.clone()), md.from_kid, "from-kid", "key of the sender reported");
    ensure_eq!(t.sign.as_ref().map(|a| a.0.clone()), md.sign_by_kid, "sign-kid", "key of the signer reported");
    match unpack(&inner, &d, &c.p.holder(&md.to_kids), &c.p.unpack_opts()) {
        Ok((m, _)) => ensure_eq!(msg_json(&m)?, c.p.model(), "content", "message delivered"),
        Err(e) => return fail("recipient-fails", format!("{e}")),
    }
    Ok(())
}

// ---------------------------------------------------------------- C21
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ParseCase {
    m: Msg,
    ty: u8,
    near: (u8, u16),
    next: Option<Value>,
    body: Option<Value>,
    atts: Option<Vec<Att>>,
}
fn parse_case() -> BoxedStrategy<ParseCase> {
    (
        message(),
        0u8..14,
        (any::<u8>(), any::<u16>()),
        option::weighted(0.9, prop_oneof![5 => text().prop_map(Value::from), 1 => json_value()]),
        option::weighted(0.15, json_value()),
        prop_oneof![1 => Just(None), 8 => vec(attachment(), 0..4).prop_map(Some)],
    )
        .prop_map(|(m, ty, near, next, body, atts)| ParseCase { m, ty, near, next, body, atts })
        .boxed()
}
fn check_parse(c: &ParseCase, o: &mut Obs) -> Res {
    let mut g = c.m.clone();
    g.type_ = match c.ty {
        0 => "https://didcomm.org/routing/2.0/forwards".into(),
        1 => "https://didcomm.org/routing/2.0/Forward".into(),
        2 => "https://didcomm.org/routing/1.0/forward".into(),
        3 => format!("{FORWARD}#x"),
        4 => c.m.type_.clone(),
        5 | 6 => near(FORWARD, c.near.0, c.near.1),
        _ => FORWARD.into(),
    };
    let mut body = c.body.clone().unwrap_or(json!({"x": 1}));
    if let (Some(n), Some(b)) = (&c.next, body.as_object_mut()) {
        b.insert("next".into(), n.clone());
    }
    g.body = body.clone();
    g.fill = 0;
    g.atts = c.atts.clone();
    let m = g.build(None, None);
    let next = body.get("next").and_then(|n| n.as_str());
    let fwd = c.atts.as_ref().and_then(|a| a.first()).and_then(|a| match &a.body {
        AttBody::Json(j) => Some(j.clone()),
        _ => None,
    });
    let want = match (g.type_ == FORWARD, next, fwd) {
        (true, Some(n), Some(f)) => Some((n.to_string(), f)),
        _ => None,
    };
    o.label(if want.is_some() { "forward" } else { "not" });
    if g.type_ == FORWARD || matches!(c.ty, 5 | 6) {
        o.nt();
    }
    let got = try_parse_forward(&m);
    ensure_eq!(got.as_ref().map(|f| (f.next.clone(), f.forwarded_msg.clone())), want, "parse", "Forward parsed from {}", clip(&format!("{m:?}"), 1500));
    if let Some(f) = got {
        ensure!(f.msg == &m, "parse", "the message referred to is another one");
        let v = serde_json::to_value(&f).map_err(|e| Fail { sig: "serialize".into(), msg: e.to_string() })?;
        ensure_eq!(v, json!({"msg": msg_json(&m)?, "next": f.next, "forwarded_msg": f.forwarded_msg}), "serialize", "JSON form of the parsed Forward");
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Layer {
    /// addressed to the recipient (true) or a mediator
    to_r: bool,
    to_by: By,
    to_k: u16,
    next_r: bool,
    next_by: By,
    next_k: u16,
    id: String,
    body_more: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RewrapCase {
    p: PackCase,
    ms: Vec<Party>,
    layers: Vec<Layer>,
    /// 0,1: encrypted, 2 signed, 3 plain
    form: u8,
    /// whose secrets the unpacker holds: 1 recipient, 2 mediator, 3 both
    who: u8,
    /// which of each party's keys these are
    mask: u8,
    enc: rf::Enc,
    l: rf::Layout,
    unwrap: bool,
    hs: Headers,
}
pub fn rewrap_case() -> BoxedStrategy<RewrapCase> {
    let layer = |p: f64| {
        (proptest::bool::weighted(p), by(), idx(), proptest::bool::weighted(p), by(), idx(), "[a-z]{1,5}", any::<bool>())
            .prop_map(|(to_r, to_by, to_k, next_r, next_by, next_k, id, body_more)| Layer { to_r, to_by, to_k, next_r, next_by, next_k, id, body_more })
    };
    (
        pack_case(small_message),
        mediators(),
        // mostly a few layers, now and then many
        prop_oneof![24 => vec(layer(0.8), 1..4), 1 => vec(layer(0.97), 4..13)],
        0u8..4,
        (prop_oneof![5 => Just(1u8), 1 => Just(2u8), 1 => Just(3u8)], prop_oneof![2 => Just(255u8), 1 => any::<u8>()]),
        enc(),
        layout(),
        proptest::bool::weighted(0.8),
        headers(),
    )
        .prop_map(|(mut p, ms, layers, form, (who, mask), enc, l, unwrap, hs)| {
            if form == 2 {
                p.sign = p.sign.or(Some(By::Did));
            }
            RewrapCase { p, ms, layers, form, who, mask, enc, l, unwrap, hs }
        })
        .boxed()
}
pub fn check_rewrap(c: &RewrapCase, o: &mut Obs) -> Res {
    let (r, m) = (&c.p.r, &c.ms[0]);
    let party = |is_r: bool| if is_r { r } else { m };
    let named = |is_r: bool, by: By, k: u16| match by {
        By::Did => party(is_r).did.clone(),
        By::Kid => party(is_r).kid(pick(&party(is_r).ka, k)),
    };
    let d = Dids::of(&[&c.p.s, r, m]);
    let s = Secs::of(&[&c.p.s]).order(c.p.sec_order);
    // the message itself
    let (core, core_kids) = match c.form {
        0 | 1 => {
            let (m, md) = c.p.packed()?;
            (m, Some(md.to_kids))
        }
        2 => (block_on(c.p.message().pack_signed(&c.p.sign_s().unwrap(), &d, &s)).map_err(|e| Fail { sig: "pack-fails".into(), msg: e.to_string() })?.0, None),
        _ => (block_on(c.p.message().pack_plaintext(&d)).map_err(|e| Fail { sig: "pack-fails".into(), msg: e.to_string() })?, None),
    };
    // wrapped from the inside out
    let mut cur = core.clone();
    let mut plains = vec![];
    for (i, y) in c.layers.iter().enumerate().rev() {
        let mut b = json!({"next": named(y.next_r, y.next_by, y.next_k)});
        if y.body_more {
            b["note"] = json!("x");
        }
        let mut v = json!({"id": format!("{}{i}", y.id), "typ": rf::TYP_PLAIN, "type": FORWARD, "body": b, "attachments": [{"data": {"json": val(&cur)?}}]});
        for (k, h) in c.hs.iter().flatten() {
            v[k] = h.clone();
        }
        let name = named(y.to_r, y.to_by, y.to_k);
        let (kt, kids) = anon_kids(&[r, m], &name).unwrap();
        let rc: Vec<rf::Rcpt> = kids
            .iter()
            .map(|k| {
                let (p, key) = (party(y.to_r), party(y.to_r).ka.iter().find(|x| party(y.to_r).kid(x) == *k).unwrap());
                rf::Rcpt { kid: k.clone(), pk: p.pk(key) }
            })
            .collect();
        cur = rf::seal_jwe(v.to_string().as_bytes(), c.enc, kt, &rc, None, i as u64, &c.l, &Default::default());
        plains.insert(0, (v, kids));
    }
    let keys: Vec<(&Party, &Key)> =
        [(1, r), (2, m)].into_iter().filter(|(b, _)| c.who & b != 0).flat_map(|(_, p)| p.ka.iter().enumerate().filter(|(i, _)| c.mask >> (i % 8) & 1 == 1).map(move |(_, k)| (p, k))).collect();
    let held: Vec<String> = keys.iter().map(|(p, k)| p.kid(k)).collect();
    let secs = Secs::new(keys.iter().map(|(p, k)| p.secret(k)).collect()).order(c.p.sec_order);
    // what is to come out
    enum Out<'a> {
        NoSecret,
        Layer(usize, &'a Value, &'a Vec<String>),
        Core,
    }
    let mut want = Out::Core;
    let mut unwrapped = 0;
    for (i, (v, kids)) in plains.iter().enumerate() {
        if !kids.iter().any(|k| held.contains(k)) {
            want = Out::NoSecret;
            break;
        }
        let n = v["body"]["next"].as_str().unwrap();
        let mine = held.iter().any(|k| k == n || k.split('#').next() == Some(n));
        if !(c.unwrap && mine) {
            want = Out::Layer(i, v, kids);
            break;
        }
        unwrapped += 1;
    }
    if matches!(want, Out::Core) && core_kids.as_ref().map_or(false, |k| !k.iter().any(|k| held.contains(k))) {
        want = Out::NoSecret;
    }
    if unwrapped > 0 {
        o.nt();
    }
    o.label(format!(
        "{}, {unwrapped} unwrapped{}",
        match want {
            Out::NoSecret => "no secret",
            Out::Layer(..) => "forward",
            Out::Core => "message",
        },
        if c.unwrap { "" } else { " (off)" }
    ));
    let got = unpack(&cur, &d, &secs, &UnpackOptions { expect_decrypt_by_all_keys: c.p.all_keys, unwrap_re_wrapping_forward: c.unwrap });
    match (got, want) {
        (Err(e), Out::NoSecret) => ensure_eq!(e.kind(), ErrorKind::SecretNotFound, "kind", "{e}"),
        (Ok((m, _)), Out::NoSecret) => return fail("unpacked-anyway", format!("{m:?}")),
        (Err(e), _) => return fail("unpack-fails", format!("{e}")),
        (Ok((g, md)), Out::Layer(i, v, kids)) => {
            ensure_eq!(msg_json(&g)?, *v, "forward", "Forward of layer {i}");
            ensure_eq!(md.re_wrapped_in_forward, unwrapped > 0, "re-wrapped", "whether an envelope was unwrapped");
            ensure!(md.encrypted && !md.authenticated && !md.non_repudiation && md.anonymous_sender, "metadata", "metadata of a Forward: {md:?}");
            ensure_eq!(md.encrypted_to_kids.as_deref().map(sorted), Some(sorted(kids)), "metadata", "keys of the Forward");
            ensure!(md.encrypted_from_kid.is_none() && md.sign_from.is_none() && md.signed_message.is_none(), "metadata", "metadata of a Forward: {md:?}");
        }
        (Ok((g, md)), Out::Core) => {
            ensure_eq!(msg_json(&g)?, c.p.model(), "message", "message inside");
            ensure_eq!(md.re_wrapped_in_forward, unwrapped > 0, "re-wrapped", "whether an envelope was unwrapped");
            // whoever wrapped it vouches for nothing: what is said of the author is what the message itself proves
            let t = read_tower(&core, &[&c.p.s, r]).map_err(|e| Fail { sig: "core".into(), msg: e })?;
            ensure_eq!(md.authenticated, t.auth.is_some() || t.sign.is_some(), "metadata", "authenticated");
            ensure_eq!(md.non_repudiation, t.sign.is_some(), "metadata", "non_repudiation");
            ensure_eq!(md.encrypted_from_kid, t.auth.map(|a| a.0), "metadata", "sender key");
            ensure_eq!(md.enc_alg_auth.is_some(), md.encrypted_from_kid.is_some(), "metadata", "algorithm of the authenticated encryption");
            ensure_eq!(md.sign_from, t.sign.as_ref().map(|a| a.0.clone()), "metadata", "signer key");
            ensure_eq!(md.sign_alg, t.sign.as_ref().map(|a| super::envelope::sign_alg(a.1)), "metadata", "signature algorithm");
            match (&md.signed_message, &t.sign) {
                (None, None) => {}
                (Some(j), Some(a)) => ensure_eq!(val(j)?, val(&a.2)?, "metadata", "signed text"),
                (j, _) => return fail("metadata", format!("signed text {j:?}")),
            }
            ensure!(md.encrypted, "metadata", "not encrypted: {md:?}");
        }
    }
    Ok(())
}

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C19",
            "messages packed between generated parties, wrapped for 0-4 mediators named by DID or key (repeats included) with generated headers and algorithms; each layer opened by an independent implementation with every addressed key and compared with the model, then by the library with each mediator's secrets in turn, down to the recipient; routing keys that cannot be used. Non-trivial: two layers or more (onion), all (unusable); distinct by the generated case",
            vec![part!("onion", 16_000, 300_000, |_| onion_case(), check_onion), part!("unusable", 10_000, 200_000, |_| (onion_case(), 0u8..5, any::<u16>()).boxed(), check_unwrappable)],
        ),
        prop(
            "C20",
            "recipients with 0-3 services of either type (endpoint: URL, a mediator's DID, an unresolvable DID; accepted profiles absent, empty, fitting and not; routing keys by DID or key), mediators with 0-2 services, a service named or not; error kind, metadata and every layer of the result compared with a model of service selection. Non-trivial: forwarding on and at least one service; distinct by the generated case",
            vec![part!("route", 30_000, 500_000, |_| route_case(), check_route)],
        ),
        prop(
            "C21",
            "messages of the Forward type and near misses of it, with next absent, a string or not, and 0-3 attachments of each kind; compared with the model. Non-trivial: of the Forward type or one that resembles it; distinct by the generated case",
            vec![part!("parse", 400_000, 4_000_000, |_| parse_case(), check_parse)],
        ),
        prop(
            "C22",
            "messages in each packed form wrapped 1-3 times by the reference implementation, each layer to the recipient or a mediator and naming either as next, unpacked with the secrets of either or both, with unwrapping on or off; what comes out, whether it is reported as unwrapped, and what is said of its author compared with a model. Non-trivial: at least one layer unwrapped; distinct by the generated case",
            vec![part!("unwrap", 35_000, 500_000, |_| rewrap_case(), check_rewrap)],
        ),
    ]
}
