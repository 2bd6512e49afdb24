//! C16, C31: every operation of the library over one small world, with faults injected at resolver calls, with resolvers that
//! answer late, interleaved and abandoned.
use super::common::*;
use super::prior::{claims, Claims};
use super::routing::FORWARD;
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::error::{Error, ErrorKind};
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::{FromPrior, Message, PackEncryptedOptions, UnpackOptions};
use proptest::collection::vec;
use proptest::option;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;

pub fn props() -> Vec<Prop> {
    vec![
        prop(
            "C16",
            "Every operation (packing in the three forms with and without rotation token, signature, sender protection and forwarding over a mediator found by DID; unpacking each of these, also re-wrapped; packing and unpacking tokens; wrapping) run once to number its resolver calls, then once more for each call and each of the nine error kinds and the not-found answer. Non-trivial: at least two resolver calls; inner executions counts the faulted runs.",
            vec![part!("faults", 10000, 300000, |_| world_case(1..2), check_faults)],
        ),
        prop(
            "C31",
            "2-4 operations over one world, each run undisturbed, then with resolvers answering after generated numbers of polls, then all polled in a generated interleaving with some abandoned half way, then once more; results compared by what they contain (forwards opened by the reference implementation). Non-trivial: at least one operation really waited and at least two ran interleaved.",
            vec![part!("schedules", 10000, 300000, |_| sched_case(), check_sched)],
        ),
    ]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Form {
    Plain,
    Signed(By),
    Encrypted { from: Option<By>, sign: Option<By>, protect: bool, enc: rf::Enc, to: By, forward: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Pack(Form),
    /// the message packed beforehand, re-wrapped this many times for its recipient
    Unpack { form: Form, wraps: u8, by: By, all_keys: bool, unwrap: bool },
    /// the same with what the mediator receives
    Mediate { form: Form },
    PriorPack(By),
    PriorUnpack,
    Wrap { form: Form, n: u8, by: By },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct World {
    pub s: Party,
    pub r: Party,
    pub m: Party,
    pub o: Party,
    pub msg: Msg,
    pub prior: Option<Claims>,
    pub ids: (u16, u16, u16),
    pub ops: Vec<Op>,
    /// how the recipient's mediator is named in its service: no service, its DID as endpoint, a routing key, both
    pub route: u8,
}
fn form() -> impl Strategy<Value = Form> {
    prop_oneof![
        1 => Just(Form::Plain),
        2 => by().prop_map(Form::Signed),
        6 => (option::of(by()), option::of(by()), any::<bool>(), enc(), by(), any::<bool>())
            .prop_map(|(from, sign, protect, enc, to, forward)| Form::Encrypted { from, sign, protect, enc, to, forward }),
    ]
}
fn op() -> impl Strategy<Value = Op> {
    prop_oneof![
        4 => form().prop_map(Op::Pack),
        5 => (form(), 0u8..3, by(), any::<bool>(), any::<bool>()).prop_map(|(form, wraps, by, all_keys, unwrap)| Op::Unpack { form, wraps, by, all_keys, unwrap }),
        1 => form().prop_map(|form| Op::Mediate { form }),
        1 => by().prop_map(Op::PriorPack),
        1 => Just(Op::PriorUnpack),
        2 => (form(), 1u8..3, by()).prop_map(|(form, n, by)| Op::Wrap { form, n, by }),
    ]
}
pub fn world_case(n: std::ops::Range<usize>) -> BoxedStrategy<World> {
    (parties(4), small_message(), option::of(claims()), (idx(), idx(), idx()), vec(op(), n), 0u8..4)
        .prop_map(|(mut ps, msg, prior, ids, ops, route)| {
            let mut r = ps[1].clone();
            make_compatible(&ps[0], &mut r);
            // an addressed key and a used key must fit: name the compatible ones
            let m = ps[2].clone();
            let svc = |uri: &str, rk: Vec<String>| Svc { frag: "svc".into(), didcomm: Some(SvcBody { uri: uri.into(), accept: None, routing_keys: rk }) };
            r.services = match route {
                0 => vec![],
                1 => vec![svc(&m.did, vec![])],
                2 => vec![svc("http://r", vec![m.kid(&m.ka[0])])],
                _ => vec![svc(&m.did, vec![m.did.clone()])],
            };
            ps[2].services = vec![svc("http://m", vec![])];
            World { s: ps[0].clone(), r, m: ps[2].clone(), o: ps[3].clone(), msg, prior, ids, ops, route }
        })
        .boxed()
}

#[derive(Debug)]
pub enum Done {
    Text(String, Value),
    Msg(Message, Value),
}
/// What an operation needs besides the resolvers, made beforehand without disturbance.
pub struct Ready {
    pub msg: Message,
    pub input: String,
    pub from: Option<String>,
    pub to: String,
    pub sign: Option<String>,
    pub opts: PackEncryptedOptions,
}
impl World {
    pub fn all(&self) -> [&Party; 4] {
        [&self.s, &self.r, &self.m, &self.o]
    }
    /// a key of the sender and one of the recipient of the same kind
    fn pair(&self) -> (String, String) {
        let (n, m) = (self.s.ka.len(), self.r.ka.len());
        for i in 0..n * m {
            let (a, b) = (&self.s.ka[(i / m + self.ids.0 as usize) % n], &self.r.ka[(i % m + self.ids.1 as usize) % m]);
            if a.kt == b.kt {
                return (self.s.kid(a), self.r.kid(b));
            }
        }
        (self.s.did.clone(), self.r.did.clone())
    }
    pub fn signer(&self, by: By, p: &Party) -> String {
        match by {
            By::Did => p.did.clone(),
            By::Kid => p.kid(pick(&p.auth, self.ids.2)),
        }
    }
    fn token(&self) -> Res<Option<String>> {
        let Some(c) = &self.prior else { return Ok(None) };
        let (d, s) = (Dids::of(&self.all()), Secs::of(&[&self.o]));
        match block_on(c.build(&self.o.did, &self.s.did).pack(None, &d, &s)) {
            Ok((t, _)) => Ok(Some(t)),
            Err(e) => fail("undisturbed", format!("packing the token failed: {e}")),
        }
    }
    pub fn ready(&self, op: &Op) -> Res<Ready> {
        let mut msg = self.msg.build(Some(&self.s.did), Some(vec![self.r.did.clone()]));
        msg.from_prior = self.token()?;
        let (form, plain) = match op {
            Op::Pack(f) | Op::Unpack { form: f, .. } | Op::Mediate { form: f } | Op::Wrap { form: f, .. } => (f.clone(), false),
            _ => (Form::Plain, true),
        };
        let (sk, rk) = self.pair();
        let mut w = Ready { msg, input: String::new(), from: None, to: self.r.did.clone(), sign: None, opts: PackEncryptedOptions::default() };
        match &form {
            Form::Plain => {}
            Form::Signed(b) => w.sign = Some(self.signer(*b, &self.s)),
            Form::Encrypted { from, sign, protect, enc, to, forward } => {
                w.from = from.map(|b| if b == By::Did { self.s.did.clone() } else { sk.clone() });
                w.to = if *to == By::Did { self.r.did.clone() } else { rk };
                w.sign = sign.map(|b| self.signer(b, &self.s));
                w.opts.protect_sender = *protect;
                w.opts.forward = *forward && !matches!(op, Op::Unpack { .. } | Op::Wrap { .. }) || matches!(op, Op::Mediate { .. });
                w.opts.enc_alg_anon = anon_alg(*enc);
            }
        }
        if matches!(op, Op::Pack(_) | Op::PriorPack(_)) || (plain && self.prior.is_none()) {
            return Ok(w);
        }
        if let Op::PriorUnpack = op {
            w.input = w.msg.from_prior.clone().unwrap_or_default();
            return Ok(w);
        }
        // the input: packed without disturbance
        let (d, s) = (Dids::of(&self.all()), Secs::of(&[&self.s]));
        let packed = block_on(pack(&w, &form, &d, &s));
        let Done::Text(mut t, _) = (match packed {
            Ok(x) => x,
            Err(e) => return fail("undisturbed", format!("packing failed: {e}")),
        }) else {
            return fail("harness", "not text");
        };
        if let Op::Unpack { wraps, by, .. } = op {
            for _ in 0..*wraps {
                let to = if *by == By::Did { self.r.did.clone() } else { self.r.kid(pick(&self.r.ka, self.ids.1)) };
                t = match block_on(wrap_in_forward(&t, None, &to, &vec![to.clone()], &w.opts.enc_alg_anon, &d)) {
                    Ok(t) => t,
                    Err(e) => return fail("undisturbed", format!("wrapping failed: {e}")),
                };
            }
        }
        w.input = t;
        Ok(w)
    }
    pub async fn run(&self, op: &Op, w: &Ready, d: &Dids<'_>, s: &Secs<'_>) -> Result<Done, Error> {
        match op {
            Op::Pack(f) => pack(w, f, d, s).await,
            Op::Unpack { all_keys, unwrap, .. } => {
                let o = UnpackOptions { expect_decrypt_by_all_keys: *all_keys, unwrap_re_wrapping_forward: *unwrap };
                let (m, md) = Message::unpack(&w.input, d, s, &o).await?;
                Ok(Done::Msg(m, serde_json::to_value(&md).unwrap_or_default()))
            }
            Op::Mediate { .. } => {
                let (m, md) = Message::unpack(&w.input, d, s, &UnpackOptions::default()).await?;
                Ok(Done::Msg(m, serde_json::to_value(&md).unwrap_or_default()))
            }
            Op::PriorPack(b) => {
                let c = self.prior.clone().unwrap_or(Claims { aud: None, exp: None, nbf: None, iat: None, jti: None });
                let kid = (*b == By::Kid).then(|| self.signer(*b, &self.o));
                let (t, k) = c.build(&self.o.did, &self.s.did).pack(kid.as_deref(), d, s).await?;
                Ok(Done::Text(t, json!(k)))
            }
            Op::PriorUnpack => {
                let (p, k) = FromPrior::unpack(&w.input, d).await?;
                Ok(Done::Text(String::new(), json!([p, k])))
            }
            Op::Wrap { n, by, .. } => {
                let to = if *by == By::Did { self.m.did.clone() } else { self.m.kid(&self.m.ka[0]) };
                let keys = vec![to; *n as usize];
                let t = wrap_in_forward(&w.input, None, &w.to, &keys, &w.opts.enc_alg_anon, d).await?;
                Ok(Done::Text(t, Value::Null))
            }
        }
    }
    /// whose secrets the operation uses
    pub fn holder(&self, op: &Op) -> Vec<&Party> {
        match op {
            Op::Pack(_) | Op::Wrap { .. } => vec![&self.s],
            Op::Unpack { .. } => vec![&self.r],
            Op::Mediate { .. } => vec![&self.m, &self.r],
            Op::PriorPack(_) | Op::PriorUnpack => vec![&self.o],
        }
    }
    /// What a result says, apart from what is random by design.
    pub fn meaning(&self, op: &Op, r: &Result<Done, Error>) -> Res<Value> {
        Ok(match r {
            Err(e) => json!({"err": format!("{:?}", e.kind()), "text": e.to_string()}),
            Ok(Done::Msg(m, md)) => {
                let mut v = msg_json(m)?;
                blank_ids(&mut v);
                json!({"msg": v, "meta": md})
            }
            Ok(Done::Text(t, md)) => {
                let inner = match op {
                    Op::PriorUnpack => json!(null),
                    Op::PriorPack(_) => {
                        let (h, p) = rf_jwt(t).map_err(|e| Fail { sig: "token".into(), msg: e })?;
                        json!([h, p])
                    }
                    _ => self.read(t)?,
                };
                json!({"text": inner, "meta": md})
            }
        })
    }
    fn read(&self, t: &str) -> Res<Value> {
        let mut cur = t.to_string();
        let mut layers = vec![];
        loop {
            let t = read_tower(&cur, &self.all()).map_err(|e| Fail { sig: "unreadable".into(), msg: format!("{e}: {}", clip(&cur, 300)) })?;
            let mut plain = val(&t.plain)?;
            let tags = json!([format!("{:?}", t.anon), format!("{:?}", t.auth), t.sign.map(|s| (s.0, s.1))]);
            if plain["type"] == FORWARD {
                plain["id"] = json!("");
                cur = plain["attachments"][0]["data"]["json"].take().to_string();
                layers.push(json!([tags, plain]));
                continue;
            }
            layers.push(json!([tags, plain]));
            return Ok(json!(layers));
        }
    }
}
/// the parts of forwards that are random by design, and envelopes inside them
fn blank_ids(v: &mut Value) {
    if v["type"] == FORWARD {
        v["id"] = json!("");
    }
}
fn rf_jwt(t: &str) -> Result<(Value, Value), String> {
    let mut it = t.split('.');
    let mut part = || -> Result<Value, String> {
        let b = base64::decode_config(it.next().ok_or("no part")?, base64::URL_SAFE_NO_PAD).map_err(|e| e.to_string())?;
        serde_json::from_slice(&b).map_err(|e| e.to_string())
    };
    Ok((part()?, part()?))
}
async fn pack(w: &Ready, f: &Form, d: &Dids<'_>, s: &Secs<'_>) -> Result<Done, Error> {
    let v = |x: Result<Value, serde_json::Error>| x.unwrap_or_default();
    match f {
        Form::Plain => Ok(Done::Text(w.msg.pack_plaintext(d).await?, Value::Null)),
        Form::Signed(_) => {
            let (t, m) = w.msg.pack_signed(w.sign.as_deref().unwrap_or(""), d, s).await?;
            Ok(Done::Text(t, v(serde_json::to_value(&m))))
        }
        Form::Encrypted { .. } => {
            let (t, m) = w.msg.pack_encrypted(&w.to, w.from.as_deref(), w.sign.as_deref(), d, s, &w.opts).await?;
            Ok(Done::Text(t, v(serde_json::to_value(&m))))
        }
    }
}
pub fn opname(op: &Op) -> String {
    let f = |f: &Form| match f {
        Form::Plain => "plain".to_string(),
        Form::Signed(_) => "signed".into(),
        Form::Encrypted { from, sign, forward, .. } => format!("{}{}{}", if from.is_some() { "auth" } else { "anon" }, if sign.is_some() { "+sign" } else { "" }, if *forward { "+fwd" } else { "" }),
    };
    match op {
        Op::Pack(x) => format!("pack {}", f(x)),
        Op::Unpack { form, wraps, .. } => format!("unpack {} wraps={wraps}", f(form)),
        Op::Mediate { .. } => "mediate".into(),
        Op::PriorPack(_) => "prior pack".into(),
        Op::PriorUnpack => "prior unpack".into(),
        Op::Wrap { .. } => "wrap".into(),
    }
}
pub fn usable(w: &World, op: &Op) -> bool {
    match op {
        Op::PriorUnpack => w.prior.is_some(),
        // only what is encrypted can be forwarded
        Op::Unpack { form, wraps, .. } => *wraps == 0 || matches!(form, Form::Encrypted { .. }),
        Op::Wrap { form, .. } => matches!(form, Form::Encrypted { .. }),
        _ => true,
    }
}

// ---------------------------------------------------------------- C16
fn check_faults(c: &World, o: &mut Obs) -> Res {
    let op = &c.ops[0];
    if !usable(c, op) {
        return Ok(());
    }
    o.label(opname(op));
    let w = c.ready(op)?;
    let plan = Plan::default();
    let docs = c.all();
    let holder = c.holder(op);
    {
        let (d, s) = (Dids::of(&docs).with(&plan), Secs::of(&holder).with(&plan));
        if let Err(e) = block_on(c.run(op, &w, &d, &s)) {
            return fail("undisturbed", format!("{} fails without any fault: {e}", opname(op)));
        }
    }
    let calls = plan.calls();
    if calls.len() >= 2 {
        o.nt();
    }
    o.label(format!("calls={}", calls.len()));
    for (i, call) in calls.iter().enumerate() {
        for f in Fault::ERRORS.into_iter().chain([Fault::NotFound]) {
            let plan = Plan { fault: Some((i, f)), ..Plan::default() };
            let (d, s) = (Dids::of(&docs).with(&plan), Secs::of(&holder).with(&plan));
            let r = block_on(c.run(op, &w, &d, &s));
            o.inner += 1;
            if !plan.injected() {
                continue;
            }
            let what = format!("{}: call {i} ({call}) answers {f:?}", opname(op));
            match (f.kind(), r) {
                (Some(k), Err(e)) => {
                    ensure_eq!(e.kind(), k, "kind", "{what}: {e}");
                    ensure!(e.to_string().contains("injected fault"), "cause", "{what}: the resolver's own message is lost: {e}");
                }
                (Some(_), Ok(x)) => return fail("swallowed", format!("{what}, and the operation succeeds: {}", clip(&format!("{x:?}"), 800))),
                (None, Ok(x)) => {
                    // only looking whether a forward is for oneself may go on without an answer
                    let fine = (call.starts_with("find_secrets") || call.starts_with("resolve")) && matches!((&x, op), (Done::Msg(m, _), Op::Unpack { .. } | Op::Mediate { .. }) if m.type_ == FORWARD);
                    ensure!(fine, "swallowed", "{what}, and the operation succeeds: {}", clip(&format!("{x:?}"), 800));
                }
                (None, Err(e)) => {
                    if call.starts_with("resolve") {
                        ensure_eq!(e.kind(), ErrorKind::DIDNotResolved, "kind", "{what}: {e}");
                    } else if call.starts_with("find_secrets") {
                        ensure_eq!(e.kind(), ErrorKind::SecretNotFound, "kind", "{what}: {e}");
                    } else {
                        // a store that contradicts itself
                        ensure!(matches!(e.kind(), ErrorKind::SecretNotFound | ErrorKind::InvalidState), "kind", "{what}: {e}");
                    }
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C31
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SchedCase {
    w: World,
    delays: Vec<Vec<u8>>,
    turns: Vec<u8>,
    /// per operation: abandoned after this many polls
    drops: Vec<Option<u8>>,
}
fn sched_case() -> BoxedStrategy<SchedCase> {
    (
        world_case(2..5),
        vec(vec(prop_oneof![2 => Just(0u8), 3 => 1u8..4], 1..8), 4),
        vec(0u8..4, 0..40),
        vec(option::weighted(0.25, 0u8..8), 4),
    )
        .prop_map(|(w, delays, turns, drops)| SchedCase { w, delays, turns, drops })
        .boxed()
}
fn check_sched(c: &SchedCase, o: &mut Obs) -> Res {
    let w = &c.w;
    let ops: Vec<&Op> = w.ops.iter().filter(|x| usable(w, x)).collect();
    let docs = w.all();
    let mut ready = vec![];
    let mut want = vec![];
    for op in &ops {
        let r = w.ready(op)?;
        let (d, s) = (Dids::of(&docs), Secs::of(&w.holder(op)));
        let x = block_on(w.run(op, &r, &d, &s));
        want.push(w.meaning(op, &x)?);
        ready.push(r);
    }
    // late answers
    let mut waited = false;
    for (i, op) in ops.iter().enumerate() {
        let plan = Plan { sched: c.delays[i % c.delays.len()].clone(), ..Plan::default() };
        let (d, s) = (Dids::of(&docs).with(&plan), Secs::of(&w.holder(op)).with(&plan));
        let x = block_on(w.run(op, &ready[i], &d, &s));
        waited |= plan.calls().iter().enumerate().any(|(k, _)| plan.sched[k % plan.sched.len()] > 0);
        ensure_eq!(w.meaning(op, &x)?, want[i], "late", "{} with resolvers answering after {:?} polls", opname(op), plan.sched);
        o.inner += 1;
    }
    // interleaved, some abandoned
    let plans: Vec<Plan> = (0..ops.len()).map(|i| Plan { sched: c.delays[i % c.delays.len()].clone(), ..Plan::default() }).collect();
    let res: Vec<(Dids, Secs)> =
        ops.iter().enumerate().map(|(i, op)| (Dids::of(&docs).with(&plans[i]), Secs::of(&w.holder(op)).with(&plans[i]))).collect();
    let mut futs: Vec<Option<Pin<Box<dyn Future<Output = Result<Done, Error>> + '_>>>> = vec![];
    for (i, op) in ops.iter().enumerate() {
        futs.push(Some(Box::pin(w.run(op, &ready[i], &res[i].0, &res[i].1))));
    }
    let waker = futures_noop();
    let mut cx = std::task::Context::from_waker(&waker);
    let mut polls = vec![0u8; ops.len()];
    let mut got: Vec<Option<Result<Done, Error>>> = ops.iter().map(|_| None).collect();
    let mut dropped = 0;
    let mut turn = 0usize;
    let mut guard = 0;
    while futs.iter().any(|f| f.is_some()) {
        guard += 1;
        ensure!(guard < 100_000, "no-end", "interleaved operations never end");
        let live: Vec<usize> = (0..futs.len()).filter(|i| futs[*i].is_some()).collect();
        let i = live[c.turns.get(turn).copied().unwrap_or(turn as u8) as usize % live.len()];
        turn += 1;
        if c.drops.get(i).copied().flatten() == Some(polls[i]) {
            futs[i] = None;
            dropped += 1;
            continue;
        }
        polls[i] = polls[i].saturating_add(1);
        if let std::task::Poll::Ready(x) = futs[i].as_mut().unwrap().as_mut().poll(&mut cx) {
            got[i] = Some(x);
            futs[i] = None;
        }
    }
    drop(futs);
    o.label(format!("ops={} dropped={dropped}", ops.len()));
    for (i, x) in got.iter().enumerate() {
        if let Some(x) = x {
            ensure_eq!(w.meaning(ops[i], x)?, want[i], "interleaved", "{} interleaved with {} others", opname(ops[i]), ops.len() - 1);
            o.inner += 1;
        }
    }
    // and nothing of it lingers
    for (i, op) in ops.iter().enumerate() {
        let (d, s) = (Dids::of(&docs), Secs::of(&w.holder(op)));
        let x = block_on(w.run(op, &ready[i], &d, &s));
        ensure_eq!(w.meaning(op, &x)?, want[i], "afterwards", "{} after the others ran or were abandoned", opname(op));
        o.inner += 1;
    }
    if waited && ops.len() >= 2 {
        o.nt();
    }
    Ok(())
}
