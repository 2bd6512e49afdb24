//! C32: histories over several parties whose documents and secrets change; a model predicts every step.
use super::common::*;
use super::envelope::meta_of;
use super::routing::{anon_kids, FORWARD};
use super::select::{model, Model, SelCase};
use super::{prop, Prop};
use crate::gen::*;
use crate::refimpl as rf;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::did::DIDDoc;
use didcomm::error::ErrorKind;
use didcomm::protocols::routing::try_parse_forward;
use didcomm::secrets::Secret;
use didcomm::{FromPrior, UnpackOptions};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C32",
        "Histories of 4-30 steps over three parties and a mediator: sending (all forms, by DID or key id, with or without forwarding), mediating, receiving earlier messages again, issuing and checking rotation tokens, and between them rotating key material under the same ids (document and secrets together or one before the other), publishing and withdrawing keys, gaining and losing secrets, rewriting keys in another form, reordering, switching services, documents becoming unresolvable; also the same message or token used, the very key it depends on withdrawn or replaced, and used again. A model (key selection of C12, reference implementation, key material compared bit by bit) predicts the outcome of every step. Non-trivial: at least one change lies between two uses of a party, and a message was sent and received.",
        vec![part!("history", 15000, 500000, |_| case(), check)],
    )]
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Step {
    Send { a: u8, b: u8, msg: Msg, to: By, from: Option<By>, sign: Option<By>, opts: Opts, i: (u16, u16, u16) },
    /// an earlier message, mostly by whom it is for
    Receive { i: u16, who: Option<u8>, all: bool, unwrap: bool, abs: bool },
    Rotate { a: u8, doc: bool, held: bool },
    DocKey { a: u8, auth: bool, i: u16, present: bool },
    HeldKey { a: u8, auth: bool, i: u16, present: bool },
    Known { a: u8, yes: bool },
    Rewrite { a: u8, v: u8 },
    Reorder { a: u8, n: u8 },
    Service { a: u8, on: bool },
    Token { a: u8, b: u8, by: By, i: u16 },
    CheckToken { i: u16, abs: bool },
    /// an earlier message (or token) used, something it depends on changed, the same used again, the change undone, used again
    Focus { token: bool, i: u16, change: u8, j: u16 },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    /// all keys the parties may ever have
    pool: Vec<Party>,
    /// whose documents keep the methods of the keys they no longer list
    keep: u8,
    order: Order,
    steps: Vec<Step>,
}
fn step() -> impl Strategy<Value = Step> {
    let a = || 0u8..3;
    let ob = || prop_oneof![1 => Just(None), 2 => by().prop_map(Some)];
    prop_oneof![
        8 => (a(), a(), small_message(), by(), ob(), ob(), opts(), (idx(), idx(), idx())).prop_map(|(a, b, msg, to, from, sign, opts, i)| Step::Send { a, b, msg, to, from, sign, opts, i }),
        10 => (idx(), proptest::option::weighted(0.15, 0u8..4), any::<bool>(), any::<bool>()).prop_map(|(i, who, all, unwrap)| Step::Receive { i, who, all, unwrap, abs: false }),
        3 => (0u8..4, prop_oneof![3 => Just((true, true)), 1 => Just((true, false)), 1 => Just((false, true))]).prop_map(|(a, (doc, held))| Step::Rotate { a, doc, held }),
        2 => (0u8..4, any::<bool>(), idx(), any::<bool>()).prop_map(|(a, auth, i, present)| Step::DocKey { a, auth, i, present }),
        2 => (0u8..4, any::<bool>(), idx(), any::<bool>()).prop_map(|(a, auth, i, present)| Step::HeldKey { a, auth, i, present }),
        1 => (0u8..4, prop::bool::weighted(0.7)).prop_map(|(a, yes)| Step::Known { a, yes }),
        1 => (0u8..4, any::<u8>()).prop_map(|(a, v)| Step::Rewrite { a, v }),
        1 => (0u8..4, 1u8..4).prop_map(|(a, n)| Step::Reorder { a, n }),
        1 => (a(), any::<bool>()).prop_map(|(a, on)| Step::Service { a, on }),
        2 => (a(), a(), by(), idx()).prop_map(|(a, b, by, i)| Step::Token { a, b, by, i }),
        2 => idx().prop_map(|i| Step::CheckToken { i, abs: false }),
        3 => (any::<bool>(), idx(), 0u8..10, idx()).prop_map(|(token, i, change, j)| Step::Focus { token, i, change, j }),
    ]
}
fn case() -> BoxedStrategy<Case> {
    let pool = dids(4).prop_flat_map(|d| d.into_iter().map(|d| party_with(d, KA_KTS, 1..5, AUTH_KTS, 1..4, 1.0)).collect::<Vec<_>>());
    (pool, 0u8..16, prop_oneof![Just(Order::Asked), Just(Order::Reversed)], prop_oneof![40 => vec(step(), 4..30), 1 => vec(step(), 60..150)]).prop_map(|(pool, keep, order, steps)| Case { pool, keep, order, steps }).boxed()
}
/// What the world knows of a party, and what the party itself holds.
struct Actor {
    doc: Party,
    held: Party,
    known: bool,
    changed: bool,
}
impl Actor {
    /// the party as packing sees it: the keys of its document, the material and availability of its secrets
    fn own(&self) -> Party {
        let mut p = self.doc.clone();
        p.salt = self.held.salt;
        for k in p.ka.iter_mut().chain(p.auth.iter_mut()) {
            k.secret = self.held.all_keys().any(|h| h.frag == k.frag);
        }
        p
    }
    fn secrets(&self) -> Vec<Secret> {
        self.held.all_secrets()
    }
    fn holds(&self, kid: &str) -> bool {
        self.held.all_keys().any(|k| self.held.kid(k) == kid)
    }
}
struct Mail {
    text: String,
    to: usize,
    by: usize,
    tower: Tower,
    plain: Value,
    /// material the message was made with
    rsalt: u16,
    ssalt: u16,
    /// a forward holds the mail it forwards
    inner: Option<Box<Mail>>,
}
struct TokenMail {
    text: String,
    by: usize,
    kid: String,
    salt: u16,
}
fn check(c: &Case, o: &mut Obs) -> Res {
    let mut w: Vec<Actor> = c.pool.iter().map(|p| Actor { doc: p.clone(), held: p.clone(), known: true, changed: false }).collect();
    w[3].doc.services = vec![Svc { frag: "s".into(), didcomm: Some(SvcBody { uri: "http://m".into(), accept: None, routing_keys: vec![] }) }];
    let mut mail: Vec<Mail> = vec![];
    let mut tokens: Vec<TokenMail> = vec![];
    let (mut received, mut after) = (0, 0);
    let mut todo: std::collections::VecDeque<Step> = c.steps.iter().cloned().collect();
    let mut n = 0;
    while let Some(st) = todo.pop_front() {
        n += 1;
        let st = &st;
        let doc = |a: usize| {
            let x = &w[a].doc;
            let mut d = x.doc();
            if c.keep >> a & 1 == 1 {
                for k in c.pool[a].all_keys() {
                    let id = x.kid(k);
                    if !d.verification_method.iter().any(|v| v.id == id) {
                        d.verification_method.push(x.vm(k));
                    }
                }
            }
            d
        };
        let d = || Dids::new((0..w.len()).filter(|a| w[*a].known).map(doc).collect::<Vec<DIDDoc>>());
        match st {
            Step::Send { a, b, msg, to, from, sign, opts, i } => {
                let (a, b) = (*a as usize, if a == b { (*b as usize + 1) % 3 } else { *b as usize });
                let (s, r) = (w[a].own(), w[b].doc.clone());
                let name = |by: By, p: &Party, keys: &[Key], i: u16| if by == By::Did || keys.is_empty() { p.did.clone() } else { p.kid(pick(keys, i)) };
                // key ids of the pool: of keys that are, were or will be published
                let to = name(*to, &r, &c.pool[b].ka, i.0);
                let from = from.map(|f| name(f, &s, &c.pool[a].ka, i.1));
                let sign = sign.map(|f| name(f, &s, &c.pool[a].auth, i.2));
                let sel = SelCase::of(s.clone(), r.clone(), w[a].known, w[b].known, *opts, c.order);
                let mut m: Model = model(&sel, &to, from.as_deref(), sign.as_deref());
                let via = opts.forward && !w[b].doc.services.is_empty();
                if via {
                    if !w[3].known {
                        m.errs.insert(format!("{:?}", ErrorKind::DIDNotResolved));
                    } else if w[3].doc.ka.is_empty() {
                        m.errs.insert(format!("{:?}", ErrorKind::DIDUrlNotFound));
                    }
                }
                let message = msg.build(Some(&s.did), Some(vec![r.did.clone()]));
                let d = d();
                let got = block_on(message.pack_encrypted(&to, from.as_deref(), sign.as_deref(), &d, &Secs::new(w[a].secrets()).order(c.order), &opts.build()));
                o.inner += 1;
                let what = format!("step {n}: sending to {to} from {from:?} signed by {sign:?}");
                match got {
                    Err(e) => {
                        ensure!(!m.errs.is_empty(), "send-refused", "{what}: {e}");
                        ensure!(m.errs.contains(&format!("{:?}", e.kind())), "send-kind", "{what}: {e}; the model allows {:?}", m.errs);
                        o.label(format!("send {:?}", e.kind()));
                    }
                    Ok((text, md)) => {
                        ensure!(m.errs.is_empty(), "send-accepted", "{what}: succeeded, the model says {:?}", m.errs);
                        o.label("sent");
                        ensure_eq!((&md.from_kid, sorted(&md.to_kids), &md.sign_by_kid), (&m.from, sorted(&m.to), &m.sign), "send-keys", "{what}: keys used");
                        ensure_eq!(md.messaging_service.is_some(), via, "send-forward", "{what}: forwarding");
                        let mut core = text.clone();
                        let mut outer = None;
                        if via {
                            let med = &w[3].doc;
                            let t = read_tower(&text, &[med]).map_err(|e| Fail { sig: "send-forward".into(), msg: format!("{what}: the mediator cannot open it: {e}") })?;
                            let want = anon_kids(&[med], &med.did).map(|x| sorted(&x.1));
                            ensure_eq!(t.anon.as_ref().map(|x| sorted(&x.2)), want, "send-forward", "{what}: mediator keys");
                            let f = val(&t.plain)?;
                            ensure_eq!(f["body"], json!({"next": to}), "send-forward", "{what}: next");
                            core = f["attachments"][0]["data"]["json"].to_string();
                            outer = Some((t, f));
                        }
                        let t = read_tower(&core, &[&s, &r]).map_err(|e| Fail { sig: "send-wire".into(), msg: format!("{what}: {e}") })?;
                        let plain = msg.model(Some(&s.did), Some(&[r.did.clone()]), None);
                        ensure_eq!(val(&t.plain)?, plain, "send-wire", "{what}: content");
                        let m = Mail { text: core, to: b, by: a, tower: t, plain, rsalt: w[b].doc.salt, ssalt: w[a].held.salt, inner: None };
                        mail.push(match outer {
                            Some((t, f)) => Mail { text, to: 3, by: a, tower: t, plain: f, rsalt: w[3].doc.salt, ssalt: 0, inner: Some(Box::new(m)) },
                            None => m,
                        });
                        after += w.iter().any(|x| x.changed) as usize;
                    }
                }
            }
            Step::Focus { token, i, change, j } => {
                let (uses, by, to, kid, auth) = if *token {
                    if tokens.is_empty() {
                        continue;
                    }
                    let at = tokens.len() - 1 - *i as usize % tokens.len();
                    (Step::CheckToken { i: at as u16, abs: true }, tokens[at].by, tokens[at].by, Some(tokens[at].kid.clone()), true)
                } else {
                    if mail.is_empty() {
                        continue;
                    }
                    let at = mail.len() - 1 - *i as usize % mail.len();
                    let m = &mail[at];
                    let (kid, auth) = match (&m.tower.sign, &m.tower.auth) {
                        (Some(x), Some(_)) if j % 2 == 0 => (Some(x.0.clone()), true),
                        (_, Some(x)) => (Some(x.0.clone()), false),
                        (Some(x), None) => (Some(x.0.clone()), true),
                        _ => (None, false),
                    };
                    (Step::Receive { i: at as u16, who: None, all: j % 3 == 0, unwrap: j % 5 == 0, abs: true }, m.by, m.to, kid, auth)
                };
                let pool = &c.pool[by];
                let key = kid.and_then(|k| if auth { &pool.auth } else { &pool.ka }.iter().position(|x| pool.kid(x) == k)).unwrap_or(0) as u16;
                let (b, t) = (by as u8, to as u8);
                let (change, undo) = match change {
                    0..=3 => (Step::DocKey { a: b, auth, i: key, present: false }, Step::DocKey { a: b, auth, i: key, present: true }),
                    4 => (Step::Rotate { a: b, doc: true, held: true }, Step::Rewrite { a: b, v: *j as u8 }),
                    5 => (Step::Rotate { a: b, doc: true, held: false }, Step::Rotate { a: b, doc: false, held: true }),
                    6 => (Step::Known { a: b, yes: false }, Step::Known { a: b, yes: true }),
                    7 => (Step::HeldKey { a: t, auth: false, i: *j, present: false }, Step::HeldKey { a: t, auth: false, i: *j, present: true }),
                    8 => (Step::Rotate { a: t, doc: false, held: true }, Step::Rotate { a: t, doc: true, held: false }),
                    _ => (Step::Reorder { a: b, n: *j as u8 % 4 }, Step::Rewrite { a: b, v: *j as u8 }),
                };
                o.label("focus");
                for s in [uses.clone(), undo, uses.clone(), change, uses].into_iter() {
                    todo.push_front(s);
                }
                continue;
            }
            Step::Receive { i, who, all, unwrap, abs } => {
                if mail.is_empty() {
                    continue;
                }
                let at = if *abs { *i as usize } else { mail.len() - 1 - *i as usize % mail.len() };
                let m = &mail[at];
                let who = who.map_or(m.to, |x| x as usize % 4);
                let me = &w[who];
                let opens = |kids: &[String]| who == m.to && me.held.salt == m.rsalt && kids.iter().any(|k| me.holds(k));
                let mut want = Ok(());
                for kids in m.tower.anon.iter().map(|x| &x.2).chain(m.tower.auth.iter().map(|x| &x.2)) {
                    if !opens(kids) {
                        want = Err("no usable secret");
                    }
                }
                let s = &w[m.by];
                let listed = |kid: &str, keys: &[Key]| s.known && s.doc.salt == m.ssalt && keys.iter().any(|k| s.doc.kid(k) == kid);
                if let Some((skid, ..)) = &m.tower.auth {
                    if !listed(skid, &s.doc.ka) {
                        want = Err("the sender's key is not the one in its document");
                    }
                }
                if let Some((kid, ..)) = &m.tower.sign {
                    if !listed(kid, &s.doc.auth) {
                        want = Err("the signer's key is not the one in its document");
                    }
                }
                let opts = UnpackOptions { expect_decrypt_by_all_keys: *all, unwrap_re_wrapping_forward: *unwrap && m.inner.is_none() };
                let d = d();
                let got = unpack(&m.text, &d, &Secs::new(me.secrets()).order(c.order), &opts);
                o.inner += 1;
                let what = format!("step {n}: party {who} receives message {at} of party {} for party {}", m.by, m.to);
                match (want, got) {
                    (Ok(()), Ok((x, meta))) => {
                        ensure_eq!(msg_json(&x)?, m.plain, "receive-content", "{what}");
                        ensure_eq!(meta, meta_of(&m.tower), "receive-metadata", "{what}");
                        o.label("received");
                        received += 1;
                        after += w.iter().any(|x| x.changed) as usize;
                        if m.inner.is_some() {
                            ensure_eq!(x.type_, FORWARD, "receive-forward", "{what}");
                            let f = try_parse_forward(&x);
                            ensure!(f.is_some(), "receive-forward", "{what}: not parsed as a forward");
                            let inner = f.unwrap().forwarded_msg.to_string();
                            let mut boxed = mail[at].inner.take().unwrap();
                            boxed.text = inner;
                            // delivered once; the mediator's copy stays
                            let copy = Mail { text: boxed.text.clone(), to: boxed.to, by: boxed.by, tower: clone_tower(&boxed.tower), plain: boxed.plain.clone(), rsalt: boxed.rsalt, ssalt: boxed.ssalt, inner: None };
                            mail[at].inner = Some(boxed);
                            mail.push(copy);
                        }
                    }
                    (Err(why), Err(_)) => o.label(format!("refused: {why}")),
                    (Ok(()), Err(e)) => return fail("receive-refused", format!("{what}: {e}")),
                    (Err(why), Ok(x)) => return fail("receive-accepted", format!("{what}: accepted although {why}: {x:?}")),
                }
            }
            Step::Token { a, b, by, i } => {
                let (a, b) = (*a as usize, if a == b { (*b as usize + 1) % 3 } else { *b as usize });
                let s = w[a].own();
                let kid = (*by == By::Kid).then(|| s.kid(pick(&c.pool[a].auth, *i)));
                let d = d();
                let got = block_on(FromPrior::build(s.did.clone(), w[b].doc.did.clone()).finalize().pack(kid.as_deref(), &d, &Secs::new(w[a].secrets()).order(c.order)));
                o.inner += 1;
                let mut sel = SelCase::of(s.clone(), w[b].doc.clone(), w[a].known, true, Opts { protect_sender: false, anon: rf::Enc::Cbc, forward: false }, c.order);
                // only the signer matters here
                sel.forget_recipient();
                let m = model(&sel, &w[b].doc.did, None, Some(kid.as_deref().unwrap_or(&s.did)));
                let what = format!("step {n}: a token of party {a} with {kid:?}");
                match (got, m.sign) {
                    (Ok((t, k)), Some(want)) => {
                        ensure_eq!(k, want, "token-key", "{what}");
                        let key = s.auth.iter().find(|x| s.kid(x) == k).unwrap();
                        let (_, claims, ok) = rf::open_jwt(&t, key.kt, &s.pk(key)).map_err(|e| Fail { sig: "token".into(), msg: e })?;
                        ensure!(ok && claims["iss"] == json!(s.did), "token-key", "{what}: not signed with the key held now");
                        tokens.push(TokenMail { text: t, by: a, kid: k, salt: w[a].held.salt });
                        o.label("token");
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => return fail("token-accepted", what),
                    (Err(e), Some(_)) => return fail("token-refused", format!("{what}: {e}")),
                }
            }
            Step::CheckToken { i, abs } => {
                if tokens.is_empty() {
                    continue;
                }
                let t = &tokens[if *abs { *i as usize } else { tokens.len() - 1 - *i as usize % tokens.len() }];
                let s = &w[t.by];
                let ok = s.known && s.doc.salt == t.salt && s.doc.auth.iter().any(|k| s.doc.kid(k) == t.kid);
                let d = d();
                let got = block_on(FromPrior::unpack(&t.text, &d));
                o.inner += 1;
                ensure_eq!(got.is_ok(), ok, "token-check", "step {n}: the token of {} is {:?}", t.kid, got.as_ref().err().map(|e| e.to_string()));
                if ok {
                    o.label("token ok");
                    after += s.changed as usize;
                }
            }
            Step::Rotate { a, doc, held } => {
                let x = &mut w[*a as usize];
                let new = x.doc.salt.max(x.held.salt) + 1;
                match (doc, held) {
                    (true, true) => {
                        x.doc.salt = new;
                        x.held.salt = new;
                    }
                    // one side lags; rotating the other side catches up
                    (true, false) => x.doc.salt = if x.held.salt > x.doc.salt { x.held.salt } else { new },
                    _ => x.held.salt = if x.doc.salt > x.held.salt { x.doc.salt } else { new },
                }
                x.changed = true;
            }
            Step::DocKey { a, auth, i, present } => {
                let x = &mut w[*a as usize];
                let pool = &c.pool[*a as usize];
                put_key(if *auth { &mut x.doc.auth } else { &mut x.doc.ka }, pick(if *auth { &pool.auth } else { &pool.ka }, *i), *present);
                x.changed = true;
            }
            Step::HeldKey { a, auth, i, present } => {
                let x = &mut w[*a as usize];
                let pool = &c.pool[*a as usize];
                put_key(if *auth { &mut x.held.auth } else { &mut x.held.ka }, pick(if *auth { &pool.auth } else { &pool.ka }, *i), *present);
                x.changed = true;
            }
            Step::Known { a, yes } => {
                w[*a as usize].known = *yes;
                w[*a as usize].changed = true;
            }
            Step::Rewrite { a, v } => {
                let x = &mut w[*a as usize];
                for (i, k) in x.doc.ka.iter_mut().chain(x.doc.auth.iter_mut()).chain(x.held.ka.iter_mut()).chain(x.held.auth.iter_mut()).enumerate() {
                    if matches!(k.kt, Kt::X25519 | Kt::Ed25519) {
                        k.fmt = [Fmt::Jwk, Fmt::B58, Fmt::Mb][(*v as usize + i) % 3];
                        k.sfmt = [Fmt::Jwk, Fmt::B58, Fmt::Mb][(*v as usize / 3 + i) % 3];
                    }
                }
            }
            Step::Reorder { a, n } => {
                let x = &mut w[*a as usize];
                for v in [&mut x.doc.ka, &mut x.doc.auth] {
                    let l = v.len().max(1);
                    v.rotate_left(*n as usize % l);
                }
                x.doc.rot = *n;
                x.changed = true;
            }
            Step::Service { a, on } => {
                let med = w[3].doc.did.clone();
                w[*a as usize].doc.services =
                    if *on { vec![Svc { frag: "s".into(), didcomm: Some(SvcBody { uri: med, accept: None, routing_keys: vec![] }) }] } else { vec![] };
            }
        }
    }
    if received > 0 && after > 0 {
        o.nt();
    }
    Ok(())
}
fn put_key(v: &mut Vec<Key>, k: &Key, present: bool) {
    let at = v.iter().position(|x| x.frag == k.frag);
    match (at, present) {
        (Some(i), false) => {
            v.remove(i);
        }
        (None, true) => v.push(k.clone()),
        _ => {}
    }
}
fn clone_tower(t: &Tower) -> Tower {
    Tower { anon: t.anon.clone(), auth: t.auth.clone(), sign: t.sign.clone(), plain: t.plain.clone() }
}
