//! C35: the JavaScript interface (/repo/wasm, over a model of JavaScript's values), against the native operations.
use super::common::*;
use super::ops::{opname, usable, world_case, Done, Form, Op, Ready, World};
use super::prior::Claims;
use super::{prop, Prop};
use crate::gen::*;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::{try_parse_forward, wrap_in_forward};
use didcomm::secrets::Secret;
use didcomm::{FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use didcomm_js as js;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use wasm_bindgen::{new_promise, settle, JsValue, Settle};
use wasm_bindgen_futures::{reset, run};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C35",
        "Every operation, one to three at once and each twice, run natively and through the JavaScript interface with resolvers whose promises are settled at once or rounds later, with unasked, repeated and odd ids; then with one call throwing or rejecting with each kind of error, a string, or something else, answering null or undefined, or something that is no document; options with members left out or spoilt; messages, tokens and forwards as objects in and out. Non-trivial: at least two resolver calls, at least one not settled at once.",
        vec![
            part!("same", 6000, 150000, |_| js_case(1..4), check_same),
            part!("faults", 6000, 150000, |_| js_case(1..2), check_faults),
            part!("values", 40000, 600000, |_| value_case(), check_values),
            part!("wrap", 6000, 100000, |_| wrap_case(), check_wrap),
        ],
    )]
}
/// What JSON.stringify makes of what JSON.parse makes of it: numbers are doubles.
fn jsnum(v: &Value) -> Value {
    serde_json::from_str(&JsValue::parse(v).stringify().unwrap_or_default()).unwrap_or_default()
}
fn from_js(v: &JsValue) -> Value {
    serde_json::from_str(&v.stringify().unwrap_or_else(|| "null".into())).unwrap_or_default()
}
const SAFE: u64 = (1 << 53) - 1;
fn tame(m: &mut Msg) {
    m.body = jsnum(&m.body);
    for v in m.extra.values_mut() {
        *v = jsnum(v);
    }
    for t in [&mut m.created, &mut m.expires].into_iter().flatten() {
        *t &= SAFE;
    }
    for a in m.atts.iter_mut().flatten() {
        if let AttBody::Json(j) = &mut a.body {
            *j = jsnum(j);
        }
        for t in [&mut a.lastmod_time, &mut a.byte_count].into_iter().flatten() {
            *t &= SAFE;
        }
    }
}
fn tame_claims(c: &mut Claims) {
    for t in [&mut c.exp, &mut c.nbf, &mut c.iat].into_iter().flatten() {
        *t &= SAFE;
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    Now,
    /// settled this many rounds later
    Late(u8),
    /// find_secrets: more, repeated and reordered ids, and what are no ids
    Mess,
}
fn how() -> impl Strategy<Value = How> {
    prop_oneof![3 => Just(How::Now), 3 => (1u8..6).prop_map(How::Late), 2 => Just(How::Mess)]
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Bad {
    Kind(Fault),
    /// a string is thrown
    Text,
    /// an Error of another name, a number, an object, undefined
    Odd(u8),
    /// no document, no secret, no array
    Garbage(u8),
}
#[derive(Default)]
struct Later {
    round: u64,
    due: Vec<(u64, Rc<RefCell<Settle>>, Result<JsValue, JsValue>)>,
}
struct Foreign {
    docs: Vec<DIDDoc>,
    secrets: Vec<Secret>,
    how: Vec<How>,
    bad: Option<(usize, Bad)>,
    /// throw where a rejection is meant; undefined where null is
    sync: bool,
    calls: RefCell<Vec<String>>,
    later: Rc<RefCell<Later>>,
}
pub fn kind_name(k: ErrorKind) -> String {
    format!("DIDComm{k:?}")
}
fn obj<T: Serialize>(x: &T) -> JsValue {
    JsValue::parse(&serde_json::to_value(x).unwrap_or_default())
}
impl Foreign {
    fn answer(&self, call: String, truth: JsValue, mess: impl Fn() -> JsValue) -> Result<JsValue, JsValue> {
        let n = {
            let mut c = self.calls.borrow_mut();
            c.push(call);
            c.len() - 1
        };
        let finds = matches!(truth, JsValue::Array(_));
        let how = if self.how.is_empty() { How::Now } else { self.how[n % self.how.len()] };
        let ans = match self.bad.filter(|b| b.0 == n).map(|b| b.1) {
            None if how == How::Mess => Ok(mess()),
            None if truth.is_null() && self.sync => Ok(JsValue::Undefined),
            None => Ok(truth),
            Some(Bad::Kind(f)) => match f.kind() {
                Some(k) => Err(JsValue::error(&kind_name(k), "foreign trouble")),
                None if finds => Ok(JsValue::array(vec![])),
                None => Ok(if self.sync { JsValue::Undefined } else { JsValue::Null }),
            },
            Some(Bad::Text) => Err("foreign trouble".into()),
            Some(Bad::Odd(n)) => Err(match n % 4 {
                0 => JsValue::error(["Error", "TypeError", "DIDComm", "didcommIoError"][n as usize / 4 % 4], "foreign trouble"),
                1 => JsValue::object(vec![("name".into(), "DIDCommIoError".into())]),
                2 => 7.into(),
                _ => JsValue::Undefined,
            }),
            Some(Bad::Garbage(n)) => Ok(match n % 4 {
                0 => 7.into(),
                1 => "text".into(),
                2 => JsValue::object(vec![("id".into(), 5.into())]),
                _ => true.into(),
            }),
        };
        if self.sync {
            if let Err(e) = ans {
                return Err(e);
            }
        }
        let (p, s) = new_promise();
        match how {
            How::Late(k) => {
                let mut l = self.later.borrow_mut();
                let at = l.round + k as u64;
                l.due.push((at, s, ans));
            }
            _ => settle(&s, ans),
        }
        Ok(p)
    }
    fn dids(self: &Rc<Self>) -> js::DIDResolver {
        let f = self.clone();
        JsValue::object(vec![(
            "resolve".into(),
            JsValue::function(move |a| {
                let did = arg(&a, 0).as_string().unwrap_or("not a string".into());
                let doc = f.docs.iter().find(|d| d.id == did).map(obj).unwrap_or(JsValue::Null);
                f.answer(format!("resolve {did}"), doc.clone(), || doc.clone())
            }),
        )])
        .into()
    }
    fn secs(self: &Rc<Self>) -> js::SecretsResolver {
        let (f, g) = (self.clone(), self.clone());
        JsValue::object(vec![
            (
                "get_secret".into(),
                JsValue::function(move |a| {
                    let id = arg(&a, 0).as_string().unwrap_or("not a string".into());
                    let s = f.secrets.iter().find(|s| s.id == id).map(obj).unwrap_or(JsValue::Null);
                    f.answer(format!("get_secret {id}"), s.clone(), || s.clone())
                }),
            ),
            (
                "find_secrets".into(),
                JsValue::function(move |a| {
                    let ids: Vec<String> = match arg(&a, 0) {
                        JsValue::Array(x) => x.borrow().iter().map(|v| v.as_string().unwrap_or("not a string".into())).collect(),
                        _ => vec!["not an array".into()],
                    };
                    let known: Vec<JsValue> = ids.iter().filter(|i| g.secrets.iter().any(|s| s.id == **i)).map(JsValue::from).collect();
                    let others: Vec<JsValue> = g.secrets.iter().map(|s| &s.id).filter(|i| !ids.contains(i)).map(JsValue::from).collect();
                    g.answer(format!("find_secrets {}", ids.join(" ")), JsValue::array(known.clone()), || {
                        // what is known, the other way round, and twice, and other secrets nobody asked about
                        let mut x = known.clone();
                        x.reverse();
                        x.extend(x.clone());
                        x.extend(others.clone());
                        x.extend([JsValue::Null, 5.into(), "did:nobody:asked#1".into()]);
                        JsValue::array(x)
                    })
                }),
            ),
        ])
        .into()
    }
}
fn arg(a: &[JsValue], i: usize) -> JsValue {
    a.get(i).cloned().unwrap_or_default()
}

type Thrown = (String, String);
type Outcome = Result<Done, Thrown>;
fn thrown(e: JsValue) -> Thrown {
    match &e {
        JsValue::Error(x) => x.borrow().clone(),
        _ => ("not an Error".into(), format!("{e:?}")),
    }
}
fn options(r: &Ready, omit: u8) -> JsValue {
    let d = |i: u8, is_default: bool| is_default && omit & (1 << i) != 0;
    let mut o = vec![];
    let p = &r.opts;
    if !d(0, !p.protect_sender) {
        o.push(("protect_sender".to_string(), JsValue::from(p.protect_sender)));
    }
    if !d(1, p.forward) {
        o.push(("forward".into(), p.forward.into()));
    }
    if let Some(h) = &p.forward_headers {
        o.push(("forward_headers".into(), obj(h)));
    } else if !d(2, true) {
        o.push(("forward_headers".into(), JsValue::Undefined));
    }
    if let Some(s) = &p.messaging_service {
        o.push(("messaging_service".into(), s.into()));
    } else if !d(3, true) {
        o.push(("messaging_service".into(), JsValue::Null));
    }
    if !d(4, true) {
        o.push(("enc_alg_auth".into(), "A256cbcHs512Ecdh1puA256kw".into()));
    }
    let anon = anon_name(&p.enc_alg_anon);
    if !d(5, anon == "Xc20pEcdhEsA256kw") {
        o.push(("enc_alg_anon".into(), anon.into()));
    }
    JsValue::object(o)
}
fn anon_name(a: &didcomm::algorithms::AnonCryptAlg) -> &'static str {
    use didcomm::algorithms::AnonCryptAlg::*;
    match a {
        A256cbcHs512EcdhEsA256kw => "A256cbcHs512EcdhEsA256kw",
        Xc20pEcdhEsA256kw => "Xc20pEcdhEsA256kw",
        A256gcmEcdhEsA256kw => "A256gcmEcdhEsA256kw",
    }
}
fn unpack_options(all: bool, unwrap: bool, omit: u8) -> JsValue {
    let mut o = vec![];
    if all || omit & 64 == 0 {
        o.push(("expect_decrypt_by_all_keys".to_string(), JsValue::from(all)));
    }
    if unwrap || omit & 128 == 0 {
        o.push(("unwrap_re_wrapping_forward".into(), unwrap.into()));
    }
    JsValue::object(o)
}
/// Starts the operation: the promise of its outcome.
fn start(c: &JsCase, op: &Op, r: &Ready, f: &Rc<Foreign>) -> Result<JsValue, JsValue> {
    let w = &c.w;
    let (d, s) = (f.dids(), f.secs());
    let msg = || js::Message::new(obj(&r.msg).into());
    Ok(match op {
        Op::Pack(Form::Plain) => msg()?.pack_plaintext(d),
        Op::Pack(Form::Signed(_)) => msg()?.pack_signed(r.sign.clone().unwrap_or_default(), d, s),
        Op::Pack(Form::Encrypted { .. }) => msg()?.pack_encrypted(r.to.clone(), r.from.clone(), r.sign.clone(), d, s, options(r, c.omit)),
        Op::Unpack { all_keys, unwrap, .. } => js::Message::unpack(r.input.clone(), d, s, unpack_options(*all_keys, *unwrap, c.omit)),
        Op::Mediate { .. } => js::Message::unpack(r.input.clone(), d, s, unpack_options(false, true, c.omit)),
        Op::PriorPack(b) => {
            let k = w.prior.clone().unwrap_or(Claims { aud: None, exp: None, nbf: None, iat: None, jti: None });
            let kid = (*b == By::Kid).then(|| w.signer(*b, &w.o));
            js::FromPrior::new(obj(&k.build(&w.o.did, &w.s.did)).into())?.pack(kid, d, s)
        }
        Op::PriorUnpack => js::FromPrior::unpack(r.input.clone(), d),
        Op::Wrap { n, by, .. } => {
            let to = if *by == By::Did { w.m.did.clone() } else { w.m.kid(&w.m.ka[0]) };
            js::Message::wrap_in_forward(r.input.clone(), JsValue::object(vec![]), r.to.clone(), obj(&vec![to; *n as usize]), anon_name(&r.opts.enc_alg_anon).into(), d)
        }
    }
    .into())
}
/// What the promise was settled with, as a native outcome.
fn outcome(op: &Op, v: Result<JsValue, JsValue>) -> Res<Outcome> {
    let v = match v {
        Ok(v) => v,
        Err(e) => return Ok(Err(thrown(e))),
    };
    let two = || -> Res<(JsValue, JsValue)> {
        match &v {
            JsValue::Array(a) if a.borrow().len() == 2 => Ok((a.borrow()[0].clone(), a.borrow()[1].clone())),
            _ => fail("shape", format!("not a tuple: {v:?}")),
        }
    };
    let text = |v: &JsValue| -> Res<String> {
        match v.as_string() {
            Some(x) => Ok(x),
            None => fail("shape", format!("not a string: {v:?}")),
        }
    };
    Ok(Ok(match op {
        Op::Pack(Form::Plain) | Op::Wrap { .. } => Done::Text(text(&v)?, Value::Null),
        Op::Pack(_) | Op::PriorPack(_) => {
            let (a, b) = two()?;
            Done::Text(text(&a)?, from_js(&b))
        }
        Op::Unpack { .. } | Op::Mediate { .. } => {
            let (a, b) = two()?;
            let Some(m) = a.exported::<js::Message>() else { return fail("shape", format!("not a Message: {a:?}")) };
            let m = from_js(&m.as_value().map_err(|e| Fail { sig: "shape".into(), msg: format!("as_value: {e:?}") })?);
            let m: Message = serde_json::from_value(m).map_err(|e| Fail { sig: "shape".into(), msg: e.to_string() })?;
            Done::Msg(m, from_js(&b))
        }
        Op::PriorUnpack => {
            let (a, b) = two()?;
            let Some(p) = a.exported::<js::FromPrior>() else { return fail("shape", format!("not a FromPrior: {a:?}")) };
            let p = from_js(&p.as_value().map_err(|e| Fail { sig: "shape".into(), msg: format!("as_value: {e:?}") })?);
            Done::Text(String::new(), json!([p, from_js(&b)]))
        }
    }))
}
/// Runs everything started until it is settled.
fn drive(later: &Rc<RefCell<Later>>, ps: &[JsValue]) -> Res {
    loop {
        let ran = run();
        let waiting = ps.iter().any(|p| matches!(p, JsValue::Promise(s) if s.borrow().value.is_none()));
        if !waiting {
            return Ok(());
        }
        let due: Vec<_> = {
            let mut l = later.borrow_mut();
            l.round += 1;
            let now = l.round;
            let (a, b) = std::mem::take(&mut l.due).into_iter().partition(|x| x.0 <= now);
            l.due = b;
            a
        };
        ensure!(ran || !due.is_empty() || !later.borrow().due.is_empty(), "never-settled", "a promise is never settled");
        for (_, s, x) in due {
            settle(&s, x);
        }
    }
}
fn value_of(p: &JsValue) -> Res<Result<JsValue, JsValue>> {
    match p {
        JsValue::Promise(s) => match s.borrow().value.clone() {
            Some(x) => Ok(x),
            None => fail("never-settled", "not settled"),
        },
        x => fail("shape", format!("not a promise: {x:?}")),
    }
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct JsCase {
    w: World,
    how: Vec<How>,
    omit: u8,
    sync: bool,
    at: u16,
    bad: u8,
    headers: Option<BTreeMap<String, Value>>,
    service: bool,
}
fn headers() -> impl Strategy<Value = BTreeMap<String, Value>> {
    btree_map("x-[a-z]{1,6}", json_value().prop_map(|v| jsnum(&v)), 0..4)
}
fn js_case(n: std::ops::Range<usize>) -> BoxedStrategy<JsCase> {
    (world_case(n), vec(how(), 1..6), any::<u8>(), any::<bool>(), idx(), any::<u8>(), proptest::option::of(headers()), any::<bool>())
        .prop_map(|(mut w, how, omit, sync, at, bad, headers, service)| {
            tame(&mut w.msg);
            if let Some(c) = &mut w.prior {
                tame_claims(c);
            }
            JsCase { w, how, omit, sync, at, bad, headers, service }
        })
        .boxed()
}
impl JsCase {
    fn ready(&self, op: &Op) -> Res<Ready> {
        let mut r = self.w.ready(op)?;
        r.opts.forward_headers = self.headers.clone().map(|h| h.into_iter().collect());
        if self.service {
            r.opts.messaging_service = self.w.r.services.first().map(|s| self.w.r.svc_id(s));
        }
        Ok(r)
    }
    fn foreign(&self, op: &Op, bad: Option<(usize, Bad)>, later: &Rc<RefCell<Later>>) -> Rc<Foreign> {
        Rc::new(Foreign {
            docs: self.w.all().iter().map(|p| p.doc()).collect(),
            secrets: self.w.holder(op).iter().flat_map(|p| p.secrets()).collect(),
            how: self.how.clone(),
            bad,
            sync: self.sync,
            calls: RefCell::default(),
            later: later.clone(),
        })
    }
    fn native(&self, op: &Op, r: &Ready, fault: Option<(usize, Fault)>) -> (Outcome, Vec<String>) {
        let plan = Plan { fault, ..Plan::default() };
        let docs = self.w.all();
        let holder = self.w.holder(op);
        let (d, s) = (Dids::of(&docs).with(&plan), Secs::of(&holder).with(&plan));
        let x = block_on(self.w.run(op, r, &d, &s));
        (x.map_err(|e| (kind_name(e.kind()), e.to_string())), plan.calls())
    }
}
fn meaning(w: &World, op: &Op, x: Outcome) -> Res<Value> {
    match x {
        Ok(x) => Ok(jsnum(&w.meaning(op, &Ok(x))?)),
        Err((k, t)) => Ok(json!({"err": k, "text": t})),
    }
}
fn check_same(c: &JsCase, o: &mut Obs) -> Res {
    reset();
    let w = &c.w;
    struct Run<'a> {
        op: &'a Op,
        want: Value,
        calls: Vec<String>,
        f: Rc<Foreign>,
        p: JsValue,
    }
    let later = Rc::new(RefCell::new(Later::default()));
    let mut running = vec![];
    let mut most = 0;
    for op in w.ops.iter().filter(|x| usable(w, x)) {
        let r = c.ready(op)?;
        let (x, calls) = c.native(op, &r, None);
        let want = meaning(w, op, x)?;
        most = most.max(calls.len());
        for _ in 0..2 {
            let f = c.foreign(op, None, &later);
            let p = match start(c, op, &r, &f) {
                Ok(p) => p,
                Err(e) => return fail("thrown", format!("{}: {e:?}", opname(op))),
            };
            running.push(Run { op, want: want.clone(), calls: calls.clone(), f, p });
        }
    }
    let ps: Vec<JsValue> = running.iter().map(|r| r.p.clone()).collect();
    drive(&later, &ps)?;
    for r in running {
        let what = opname(r.op);
        o.inner += 1;
        let got = outcome(r.op, value_of(&r.p)?)?;
        ensure_eq!(meaning(w, r.op, got)?, r.want, "outcome", "{what} through the interface");
        ensure_eq!(*r.f.calls.borrow(), r.calls, "requests", "{what}: what the resolvers were asked");
        o.label(what);
    }
    if most >= 2 && c.how.iter().any(|h| *h != How::Now) {
        o.nt();
    }
    Ok(())
}
fn check_faults(c: &JsCase, o: &mut Obs) -> Res {
    reset();
    let w = &c.w;
    let op = &w.ops[0];
    if !usable(w, op) {
        return Ok(());
    }
    let r = c.ready(op)?;
    let (_, calls) = c.native(op, &r, None);
    if calls.is_empty() {
        return Ok(());
    }
    let at = c.at as usize % calls.len();
    let kinds: Vec<Fault> = Fault::ERRORS.into_iter().chain([Fault::NotFound]).collect();
    let mut bads: Vec<Bad> = vec![Bad::Kind(kinds[c.bad as usize % 10]), Bad::Kind(kinds[(c.bad as usize / 10) % 10])];
    bads.push(match c.bad % 3 {
        0 => Bad::Text,
        1 => Bad::Odd(c.bad / 3),
        _ => Bad::Garbage(c.bad / 3),
    });
    for bad in bads {
        let later = Rc::new(RefCell::new(Later::default()));
        let f = c.foreign(op, Some((at, bad)), &later);
        let what = format!("{}: call {at} ({}) answered by {bad:?}{}", opname(op), calls[at], if c.sync { ", thrown" } else { "" });
        let p = match start(c, op, &r, &f) {
            Ok(p) => p,
            Err(e) => return fail("thrown", format!("{what}: {e:?}")),
        };
        drive(&later, &[p.clone()])?;
        o.inner += 1;
        let got = outcome(op, value_of(&p)?)?;
        // natively: the same fault, and InvalidState for what JavaScript alone can do
        let as_fault = match bad {
            Bad::Kind(k) => k,
            _ => Fault::of(ErrorKind::InvalidState),
        };
        let (x, calls) = c.native(op, &r, Some((at, as_fault)));
        ensure_eq!(*f.calls.borrow(), calls, "requests", "{what}: what the resolvers were asked");
        match (x, got) {
            (Err((ak, a)), Err((bk, b))) => {
                let sig = if as_fault.kind().is_some() { "error-kind" } else { "outcome" };
                ensure_eq!(bk, ak, sig, "{what}: {b}, natively {a}");
                let told = matches!(bad, Bad::Kind(k) if k.kind().is_some()) || matches!(bad, Bad::Text) || matches!(bad, Bad::Odd(n) if n % 4 == 0);
                ensure!(!told || b.contains("foreign trouble"), "error-text", "{what}: the text of the failure is lost: {b}");
            }
            (a, b) => ensure_eq!(meaning(w, op, b)?, meaning(w, op, a)?, "outcome", "{what}"),
        }
        o.label(format!("{bad:?}"));
    }
    if calls.len() >= 2 {
        o.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- values
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ValueCase {
    msg: Msg,
    claims: Claims,
    dids: Vec<String>,
    /// which of the object's members is replaced, and by what; or left out
    spoil: Option<(u16, Option<Value>)>,
    /// the value itself is something else
    whole: Option<Value>,
    what: u8,
}
fn odd() -> BoxedStrategy<Value> {
    prop_oneof![Just(Value::Null), Just(json!({})), Just(json!([])), Just(json!("")), Just(json!(true)), Just(json!("{}")), json_value()].boxed()
}
fn value_case() -> BoxedStrategy<ValueCase> {
    (message(), super::prior::claims(), dids(2), proptest::option::of((idx(), proptest::option::of(json_value()))), proptest::option::weighted(0.1, odd()), any::<u8>())
        .prop_map(|(mut msg, mut claims, dids, spoil, whole, what)| {
            tame(&mut msg);
            tame_claims(&mut claims);
            ValueCase { msg, claims, dids, spoil, whole, what }
        })
        .boxed()
}
fn check_values(c: &ValueCase, o: &mut Obs) -> Res {
    reset();
    let build = || c.msg.build(Some(&c.dids[0]), Some(vec![c.dids[1].clone()]));
    let mut v = match c.what % 5 {
        0 | 1 => msg_json(&build())?,
        2 => serde_json::to_value(c.claims.build(&c.dids[0], &c.dids[1])).unwrap_or_default(),
        3 => json!({"expect_decrypt_by_all_keys": true, "unwrap_re_wrapping_forward": false}),
        _ => json!({"forward": true, "protect_sender": false, "forward_headers": {}, "messaging_service": "s", "enc_alg_auth": "A256cbcHs512Ecdh1puA256kw", "enc_alg_anon": "A256gcmEcdhEsA256kw"}),
    };
    if let (Some((i, w)), Some(m)) = (&c.spoil, v.as_object_mut()) {
        let k = m.keys().nth(*i as usize % m.len().max(1)).cloned().unwrap_or_default();
        match w {
            Some(w) => m.insert(k, w.clone()),
            None => m.remove(&k),
        };
    }
    if let Some(w) = &c.whole {
        v = w.clone();
    }
    let v = jsnum(&v);
    let text = v.to_string();
    // what the same JSON means natively, as an object again
    let (got, want) = match c.what % 5 {
        0 | 1 => (
            js::Message::new(JsValue::parse(&v).into()).and_then(|m| m.as_value()),
            serde_json::from_str::<Message>(&text).ok().and_then(|m| serde_json::to_value(&m).ok()),
        ),
        2 => (
            js::FromPrior::new(JsValue::parse(&v).into()).and_then(|m| m.as_value()),
            serde_json::from_str::<FromPrior>(&text).ok().and_then(|m| serde_json::to_value(&m).ok()),
        ),
        _ => {
            // options: spoilt ones are refused before anything else is looked at
            let unpacking = c.what % 5 == 3;
            let m = js::Message::new(obj(&build()).into()).map_err(|e| Fail { sig: "value-in".into(), msg: format!("{e:?}") })?;
            let none = Rc::new(Foreign { docs: vec![], secrets: vec![], how: vec![], bad: None, sync: false, calls: RefCell::default(), later: Default::default() });
            let p = if unpacking {
                let j = json!({"payload": "e30", "signatures": [{"protected": crate::refimpl::b64(br#"{"typ":"application/didcomm-signed+json","alg":"EdDSA"}"#), "header": {"kid": format!("{}#1", c.dids[0])}, "signature": "AAAA"}]});
                js::Message::unpack(j.to_string(), none.dids(), none.secs(), JsValue::parse(&v)).into()
            } else {
                m.pack_encrypted(c.dids[1].clone(), None, None, none.dids(), none.secs(), JsValue::parse(&v)).into()
            };
            drive(&none.later, &[JsValue::clone(&p)])?;
            let ok = if unpacking { serde_json::from_str::<UnpackOptions>(&text).is_ok() } else { serde_json::from_str::<PackEncryptedOptions>(&text).is_ok() };
            let e = match value_of(&p)? {
                Err(e) => thrown(e),
                Ok(x) => return fail("value-bad", format!("done for nobody: {x:?}")),
            };
            ensure_eq!(e.0, if ok { "DIDCommDIDNotResolved" } else { "DIDCommMalformed" }, "options", "{text}: {}", e.1);
            ensure_eq!(none.calls.borrow().len(), ok as usize, "options", "{text}: {:?}", none.calls.borrow());
            o.label(if ok { "options" } else { "options refused" });
            o.nt();
            return Ok(());
        }
    };
    match (got, want) {
        (Ok(a), Some(b)) => {
            ensure_eq!(from_js(&a), jsnum(&b), "value", "{text}");
            o.label("value");
        }
        (Err(e), None) => {
            ensure_eq!(thrown(e).0, "DIDCommMalformed", "value-bad", "{text}");
            o.label("refused");
        }
        (Ok(a), None) => return fail("value-bad", format!("{text} is read as {a:?}, natively refused")),
        (Err(e), Some(_)) => return fail("value-in", format!("{text}: {e:?}, natively accepted")),
    }
    if c.msg.rich() || c.spoil.is_some() || c.whole.is_some() {
        o.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- forwards
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrapCase {
    m: Vec<Party>,
    to: String,
    headers: BTreeMap<String, Value>,
    n: u8,
    enc: crate::refimpl::Enc,
    body: Value,
    how: Vec<How>,
    msg: Msg,
    spoil: u8,
}
fn wrap_case() -> BoxedStrategy<WrapCase> {
    (parties(2), "did:[a-z]{1,8}:[a-z0-9]{1,8}", headers(), 0u8..4, enc(), json_value(), vec(how(), 1..4), message(), any::<u8>())
        .prop_map(|(m, to, headers, n, enc, body, how, mut msg, spoil)| {
            tame(&mut msg);
            WrapCase { m, to, headers, n, enc, body: json!({"ciphertext": jsnum(&body)}), how, msg, spoil }
        })
        .boxed()
}
fn check_wrap(c: &WrapCase, o: &mut Obs) -> Res {
    reset();
    let keys: Vec<String> = (0..c.n).map(|i| c.m[i as usize % 2].did.clone()).collect();
    let headers: HashMap<String, Value> = c.headers.clone().into_iter().collect();
    let docs: Vec<DIDDoc> = c.m.iter().map(|p| p.doc()).collect();
    let native = block_on(wrap_in_forward(&c.body.to_string(), Some(&headers), &c.to, &keys, &anon_alg(c.enc), &Dids::new(docs.clone())));
    let later = Rc::new(RefCell::new(Later::default()));
    let f = Rc::new(Foreign { docs, secrets: vec![], how: c.how.clone(), bad: None, sync: false, calls: RefCell::default(), later: later.clone() });
    let args = || (obj(&headers), obj(&keys), JsValue::from(anon_name(&anon_alg(c.enc))));
    let go = |(h, k, e): (JsValue, JsValue, JsValue)| -> Res<Result<JsValue, JsValue>> {
        let p: JsValue = js::Message::wrap_in_forward(c.body.to_string(), h, c.to.clone(), k, e, f.dids()).into();
        drive(&later, &[p.clone()])?;
        value_of(&p)
    };
    let got = go(args())?;
    if c.n > 0 && !headers.is_empty() {
        o.nt();
    }
    let read = |t: &str| -> Res<Value> {
        let mut cur = t.to_string();
        let mut layers = vec![];
        let ps: Vec<&Party> = c.m.iter().collect();
        for _ in 0..c.n {
            let t = read_tower(&cur, &ps).map_err(|e| Fail { sig: "unreadable".into(), msg: e })?;
            let mut plain = val(&t.plain)?;
            plain["id"] = json!("");
            cur = plain["attachments"][0]["data"]["json"].take().to_string();
            layers.push(json!([format!("{:?}", t.anon), plain]));
        }
        layers.push(val(&cur)?);
        Ok(jsnum(&json!(layers)))
    };
    match (native, got) {
        (Ok(a), Ok(b)) => ensure_eq!(read(&b.as_string().unwrap_or_default())?, read(&a)?, "outcome", "wrapped"),
        (Err(a), Err(b)) => ensure_eq!(thrown(b).0, kind_name(a.kind()), "outcome", "natively {a}"),
        (a, b) => return fail("outcome", format!("{b:?}, natively {a:?}")),
    }
    // one argument of the wrong shape
    let (mut h, mut k, mut e) = args();
    match c.spoil % 3 {
        0 => h = 5.into(),
        1 => k = JsValue::array(vec![5.into()]),
        _ => e = "A256cbcHs512Ecdh1puA256kw".into(),
    }
    match go((h, k, e))? {
        Err(x) => ensure_eq!(thrown(x).0, "DIDCommMalformed", "argument", "argument {}", c.spoil % 3),
        Ok(x) => return fail("argument", format!("argument {}: {x:?}", c.spoil % 3)),
    }
    // a forward, and a near miss, seen through the interface
    let mut m = c.msg.build(Some(&c.to), Some(vec![c.to.clone()]));
    if c.spoil & 4 == 0 {
        m.type_ = "https://didcomm.org/routing/2.0/forward".into();
    }
    if c.spoil & 8 == 0 {
        m.body = json!({"next": c.to});
    }
    if c.spoil & 48 != 0 {
        m.attachments = Some(vec![didcomm::Attachment::json(c.body.clone()).finalize()]);
    }
    let want = try_parse_forward(&m).map(|p| json!({"msg": p.msg, "next": p.next, "forwarded_msg": p.forwarded_msg})).unwrap_or(Value::Null);
    let jm = js::Message::new(obj(&m).into()).map_err(|e| Fail { sig: "value-in".into(), msg: format!("{e:?}") })?;
    match jm.try_parse_forward() {
        Ok(x) => {
            ensure_eq!(from_js(&x), jsnum(&want), "parsed", "try_parse_forward");
            o.label(if want.is_null() { "no forward" } else { "forward" });
        }
        Err(e) => return fail("parsed", format!("{e:?}")),
    }
    Ok(())
}
