//! C34: the callback interface (/repo/uniffi, without the generated C layer), against the native operations.
use super::common::*;
use super::ops::{opname, usable, world_case, Done, Form, Op, Ready, World};
use super::prior::Claims;
use super::{prop, Prop};
use crate::gen::*;
use crate::rt::*;
use crate::world::*;
use crate::{ensure, ensure_eq, part};
use didcomm::did::DIDDoc;
use didcomm::error::{Error, ErrorKind};
use didcomm::protocols::routing::wrap_in_forward;
use didcomm::secrets::Secret;
use didcomm::{FromPrior, Message, PackEncryptedMetadata, PackSignedMetadata, UnpackMetadata, UnpackOptions};
use didcomm_uniffi as ffi;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::mpsc::{channel, Receiver, RecvTimeoutError, Sender};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub fn props() -> Vec<Prop> {
    vec![prop(
        "C34",
        "Every operation, one to three at once and each twice, run natively and through the callback interface with foreign resolvers that answer at once, from another thread, late, twice, with unasked and repeated ids, and with the resolvers that come with the interface; then with one call failing with each kind of error, answering that there is nothing, or dropping its callback. Non-trivial: at least two resolver calls, at least one not answered at once.",
        vec![
            part!("same", 6000, 150000, |_| ffi_case(1..4), check_same),
            part!("faults", 5000, 150000, |_| ffi_case(1..2), check_faults),
            part!("values", 60000, 600000, |_| (json_value(), any::<u16>(), style()).boxed(), check_values),
            part!("wrap", 5000, 100000, |_| wrap_case(), check_wrap),
        ],
    )]
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum How {
    Now,
    Thread,
    /// from another thread, after the call has long returned
    Late(u8),
    /// at once, then another answer, and a failure
    Twice,
    /// find_secrets: more, repeated and reordered ids
    Mess,
}
fn how() -> impl Strategy<Value = How> {
    prop_oneof![3 => Just(How::Now), 2 => Just(How::Thread), 1 => (1u8..5).prop_map(How::Late), 1 => Just(How::Twice), 2 => Just(How::Mess)]
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Bad {
    Error(Fault),
    Dropped,
}
struct Foreign {
    docs: Vec<DIDDoc>,
    secrets: Vec<Secret>,
    how: Vec<How>,
    bad: Option<(usize, Bad)>,
    calls: Mutex<Vec<String>>,
    wrong: Arc<Mutex<Vec<String>>>,
}
type Tell<T> = Box<dyn Fn(Result<T, (ErrorKind, String)>) -> Result<(), ErrorKind> + Send>;
impl Foreign {
    fn answer<T: Clone + Send + 'static>(&self, call: String, tell: Tell<T>, truth: T, nothing: T, mess: impl Fn(T) -> T) -> ffi::ErrorCode {
        let n = {
            let mut c = self.calls.lock().unwrap();
            c.push(call);
            c.len() - 1
        };
        let how = if self.how.is_empty() { How::Now } else { self.how[n % self.how.len()] };
        let bad = self.bad.filter(|b| b.0 == n).map(|b| b.1);
        let wrong = self.wrong.clone();
        let ans = match bad {
            Some(Bad::Dropped) => {
                if matches!(how, How::Late(_) | How::Thread) {
                    std::thread::spawn(move || drop(tell));
                }
                return ffi::ErrorCode::Error;
            }
            Some(Bad::Error(f)) => match f.kind() {
                Some(k) => Err((k, "foreign trouble".to_string())),
                None => Ok(nothing.clone()),
            },
            None if how == How::Mess => Ok(mess(truth)),
            None => Ok(truth),
        };
        let w2 = wrong.clone();
        let go = move |tell: &Tell<T>| {
            if tell(ans).is_err() {
                w2.lock().unwrap().push("an answer was refused".into());
            }
        };
        match how {
            How::Now | How::Mess => go(&tell),
            How::Thread => {
                std::thread::spawn(move || go(&tell));
            }
            How::Late(n) => {
                std::thread::spawn(move || {
                    std::thread::sleep(Duration::from_micros(200 * n as u64));
                    go(&tell)
                });
            }
            How::Twice => {
                go(&tell);
                if tell(Ok(nothing)) != Err(ErrorKind::InvalidState) {
                    wrong.lock().unwrap().push("a second answer was not refused as InvalidState".into());
                }
                if tell(Err((ErrorKind::IoError, "again".into()))) != Err(ErrorKind::InvalidState) {
                    wrong.lock().unwrap().push("a failure after the answer was not refused as InvalidState".into());
                }
            }
        }
        ffi::ErrorCode::Success
    }
}
macro_rules! tell {
    ($cb:ident) => {
        Box::new(move |r| match r {
            Ok(x) => $cb.success(x),
            Err((k, m)) => $cb.error(k, m),
        })
    };
}
struct FDids(Arc<Foreign>);
impl ffi::DIDResolver for FDids {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ffi::ErrorCode {
        let doc = self.0.docs.iter().find(|d| d.id == did).cloned();
        self.0.answer(format!("resolve {did}"), tell!(cb), doc, None, |x| x)
    }
}
struct FSecs(Arc<Foreign>);
impl ffi::SecretsResolver for FSecs {
    fn get_secret(&self, id: String, cb: Arc<ffi::OnGetSecretResult>) -> ffi::ErrorCode {
        let s = self.0.secrets.iter().find(|s| s.id == id).cloned();
        self.0.answer(format!("get_secret {id}"), tell!(cb), s, None, |x| x)
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ffi::ErrorCode {
        let known: Vec<String> = ids.iter().filter(|i| self.0.secrets.iter().any(|s| s.id == **i)).cloned().collect();
        let all: Vec<String> = self.0.secrets.iter().map(|s| s.id.clone()).collect();
        self.0.answer(format!("find_secrets {}", ids.join(" ")), tell!(cb), known, vec![], move |mut x| {
            // what is known, the other way round, and twice, and other secrets nobody asked about
            x.reverse();
            x.extend(x.clone());
            x.extend(all.iter().filter(|a| !ids.contains(a)).cloned());
            x.push("did:nobody:asked#1".into());
            x
        })
    }
}

type Outcome = Result<Done, (ErrorKind, String)>;
/// What a foreign caller is told, and that it is told no more.
struct Told(Mutex<Sender<Outcome>>);
impl Told {
    fn pair() -> (Box<Told>, Receiver<Outcome>) {
        let (s, r) = channel();
        (Box::new(Told(Mutex::new(s))), r)
    }
    fn tell(&self, x: Outcome) {
        let _ = self.0.lock().unwrap().send(x);
    }
}
macro_rules! told {
    ($($t:ident ( $($a:ident : $ty:ty),* ) => $e:expr;)*) => { $(
        impl ffi::$t for Told {
            fn success(&self, $($a: $ty),*) { self.tell(Ok($e)) }
            fn error(&self, k: ErrorKind, m: String) { self.tell(Err((k, m))) }
        }
    )* };
}
fn j<T: Serialize>(x: T) -> Value {
    serde_json::to_value(x).unwrap_or_default()
}
told! {
    OnPackPlaintextResult(t: String) => Done::Text(t, Value::Null);
    OnPackSignedResult(t: String, m: PackSignedMetadata) => Done::Text(t, j(m));
    OnPackEncryptedResult(t: String, m: PackEncryptedMetadata) => Done::Text(t, j(m));
    OnUnpackResult(x: Message, m: UnpackMetadata) => Done::Msg(x, j(m));
    OnFromPriorPackResult(t: String, k: String) => Done::Text(t, json!(k));
    OnFromPriorUnpackResult(p: FromPrior, k: String) => Done::Text(String::new(), json!([p, k]));
    OnWrapInForwardResult(t: String) => Done::Text(t, Value::Null);
}
/// Starts the operation; its outcome comes through the channel.
fn start(w: &World, op: &Op, r: &Ready, c: &ffi::DIDComm) -> (ffi::ErrorCode, Receiver<Outcome>) {
    let (cb, rx) = Told::pair();
    let code = match op {
        Op::Pack(Form::Plain) => c.pack_plaintext(&r.msg, cb),
        Op::Pack(Form::Signed(_)) => c.pack_signed(&r.msg, r.sign.clone().unwrap_or_default(), cb),
        Op::Pack(Form::Encrypted { .. }) => c.pack_encrypted(&r.msg, r.to.clone(), r.from.clone(), r.sign.clone(), &r.opts, cb),
        Op::Unpack { all_keys, unwrap, .. } => {
            c.unpack(r.input.clone(), &UnpackOptions { expect_decrypt_by_all_keys: *all_keys, unwrap_re_wrapping_forward: *unwrap }, cb)
        }
        Op::Mediate { .. } => c.unpack(r.input.clone(), &UnpackOptions::default(), cb),
        Op::PriorPack(b) => {
            let k = w.prior.clone().unwrap_or(Claims { aud: None, exp: None, nbf: None, iat: None, jti: None });
            let kid = (*b == By::Kid).then(|| w.signer(*b, &w.o));
            c.pack_from_prior(&k.build(&w.o.did, &w.s.did), kid, cb)
        }
        Op::PriorUnpack => c.unpack_from_prior(r.input.clone(), cb),
        Op::Wrap { n, by, .. } => {
            let to = if *by == By::Did { w.m.did.clone() } else { w.m.kid(&w.m.ka[0]) };
            c.wrap_in_forward(r.input.clone(), &HashMap::new(), r.to.clone(), &vec![to; *n as usize], &r.opts.enc_alg_anon, cb)
        }
    };
    (code, rx)
}
fn finish(what: &str, rx: Receiver<Outcome>) -> Res<Outcome> {
    let wait = Duration::from_secs(100);
    let got = match rx.recv_timeout(wait) {
        Ok(x) => x,
        Err(RecvTimeoutError::Timeout) => return fail("no-callback", format!("{what}: neither success nor error was called for {wait:?}")),
        Err(RecvTimeoutError::Disconnected) => return fail("no-callback", format!("{what}: the callback was dropped without a call")),
    };
    match rx.recv_timeout(wait) {
        Err(RecvTimeoutError::Disconnected) => {}
        Err(RecvTimeoutError::Timeout) => return fail("callback-kept", format!("{what}: the callback is never let go")),
        Ok(x) => return fail("two-callbacks", format!("{what}: told {got:?}, and then {x:?}")),
    }
    Ok(got)
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct FfiCase {
    w: World,
    how: Vec<How>,
    /// the resolvers that come with the interface
    example: bool,
    at: u16,
    bad: u8,
}
fn ffi_case(n: std::ops::Range<usize>) -> BoxedStrategy<FfiCase> {
    (world_case(n), vec(how(), 1..6), prop::bool::weighted(0.2), idx(), any::<u8>())
        .prop_map(|(w, how, example, at, bad)| FfiCase { w, how, example, at, bad })
        .boxed()
}
fn foreign(c: &FfiCase, op: &Op, bad: Option<(usize, Bad)>) -> Arc<Foreign> {
    Arc::new(Foreign {
        docs: c.w.all().iter().map(|p| p.doc()).collect(),
        secrets: c.w.holder(op).iter().flat_map(|p| p.secrets()).collect(),
        how: c.how.clone(),
        bad,
        calls: Mutex::new(vec![]),
        wrong: Default::default(),
    })
}
fn interface(c: &FfiCase, f: &Arc<Foreign>) -> ffi::DIDComm {
    if c.example {
        ffi::DIDComm::new(Box::new(ffi::ExampleDIDResolver::new(f.docs.clone())), Box::new(ffi::ExampleSecretsResolver::new(f.secrets.clone())))
    } else {
        ffi::DIDComm::new(Box::new(FDids(f.clone())), Box::new(FSecs(f.clone())))
    }
}
/// The native outcome, and the resolver calls.
fn native(c: &FfiCase, op: &Op, r: &Ready, fault: Option<(usize, Fault)>) -> (Outcome, Vec<String>) {
    let plan = Plan { fault, ..Plan::default() };
    let docs = c.w.all();
    let holder = c.w.holder(op);
    let (d, s) = (Dids::of(&docs).with(&plan), Secs::of(&holder).with(&plan));
    let x = block_on(c.w.run(op, r, &d, &s));
    (x.map_err(|e| (e.kind(), e.to_string())), plan.calls())
}
fn meaning(w: &World, op: &Op, x: Outcome) -> Res<Value> {
    match x {
        Ok(x) => w.meaning(op, &Ok(x)),
        Err((k, t)) => Ok(json!({"err": format!("{k:?}"), "text": t})),
    }
}
fn check_same(c: &FfiCase, o: &mut Obs) -> Res {
    let w = &c.w;
    struct Run<'a> {
        op: &'a Op,
        want: Value,
        /// what is asked, if this is the only use of the resolvers
        calls: Option<Vec<String>>,
        f: Arc<Foreign>,
        rx: Receiver<Outcome>,
    }
    let mut running = vec![];
    let mut most = 0;
    for op in w.ops.iter().filter(|x| usable(w, x)) {
        let r = w.ready(op)?;
        let (x, calls) = native(c, op, &r, None);
        let want = meaning(w, op, x)?;
        most = most.max(calls.len());
        // twice through one interface, and once through one of its own
        let (f, own) = (foreign(c, op, None), foreign(c, op, None));
        let (i, j) = (interface(c, &f), interface(c, &own));
        for (i, f, calls) in [(&i, &f, None), (&i, &f, None), (&j, &own, Some(calls))] {
            let (code, rx) = start(w, op, &r, i);
            ensure!(code as u8 == ffi::ErrorCode::Success as u8, "code", "{}: started with a failure code", opname(op));
            running.push(Run { op, want: want.clone(), calls, f: f.clone(), rx });
        }
    }
    for r in running {
        let what = opname(r.op);
        let got = finish(&what, r.rx)?;
        o.inner += 1;
        ensure_eq!(meaning(w, r.op, got)?, r.want, "outcome", "{what} through the interface");
        if let (Some(calls), false) = (r.calls, c.example) {
            ensure_eq!(*r.f.calls.lock().unwrap(), calls, "requests", "{what}: what the resolvers were asked");
        }
        let wrong = r.f.wrong.lock().unwrap();
        ensure!(wrong.is_empty(), "answer", "{what}: {wrong:?}");
        o.label(what);
    }
    if most >= 2 && (c.example || c.how.iter().any(|h| *h != How::Now)) {
        o.nt();
    }
    Ok(())
}
fn check_faults(c: &FfiCase, o: &mut Obs) -> Res {
    let w = &c.w;
    let op = &w.ops[0];
    if !usable(w, op) {
        return Ok(());
    }
    let c = &FfiCase { example: false, ..c.clone() };
    let r = w.ready(op)?;
    let (_, calls) = native(c, op, &r, None);
    if calls.is_empty() {
        return Ok(());
    }
    let at = c.at as usize % calls.len();
    let kinds: Vec<Fault> = Fault::ERRORS.into_iter().chain([Fault::NotFound]).collect();
    let bads: Vec<Bad> = if c.bad % 4 == 0 { vec![Bad::Dropped] } else { vec![Bad::Error(kinds[c.bad as usize % 10]), Bad::Error(kinds[(c.bad as usize / 10) % 10])] };
    for bad in bads {
        let f = foreign(c, op, Some((at, bad)));
        let i = interface(c, &f);
        let (_, rx) = start(w, op, &r, &i);
        let what = format!("{}: call {at} ({}) answered by {bad:?}", opname(op), calls[at]);
        let got = finish(&what, rx)?;
        o.inner += 1;
        let wrong = f.wrong.lock().unwrap().clone();
        ensure!(wrong.is_empty(), "answer", "{what}: {wrong:?}");
        match bad {
            Bad::Dropped => match got {
                Err((k, e)) => ensure_eq!(k, ErrorKind::InvalidState, "dropped", "{what}: {e}"),
                Ok(x) => return fail("dropped", format!("{what}, and the operation succeeds: {x:?}")),
            },
            Bad::Error(k) => {
                let (x, calls) = native(c, op, &r, Some((at, k)));
                ensure_eq!(*f.calls.lock().unwrap(), calls, "requests", "{what}: what the resolvers were asked");
                match (x, got) {
                    (Err((ak, a)), Err((bk, b))) => {
                        let sig = if k.kind().is_some() { "error-kind" } else { "outcome" };
                        ensure_eq!(bk, ak, sig, "{what}: {b}, natively {a}");
                        ensure!(k.kind().is_none() || b.contains("foreign trouble"), "error-text", "{what}: the text of the failure is lost: {b}");
                    }
                    (a, b) => ensure_eq!(meaning(w, op, b)?, meaning(w, op, a)?, "outcome", "{what}"),
                }
            }
        }
        o.label(format!("{bad:?}"));
    }
    if calls.len() >= 2 {
        o.nt();
    }
    Ok(())
}

// ---------------------------------------------------------------- values
fn check_values(c: &(Value, u16, Style), o: &mut Obs) -> Res {
    use ffi::UniffiCustomTypeConverter as C;
    let (v, at, st) = c;
    o.nt();
    let text = <ffi::JsonValue as C>::from_custom(v.clone());
    ensure_eq!(val(&text)?, *v, "value-out", "as text");
    match <ffi::JsonValue as C>::into_custom(st.write(v)) {
        Ok(x) => ensure_eq!(x, *v, "value-in", "read back"),
        Err(e) => return fail("value-in", format!("{e:#}")),
    }
    // cut short, or followed by something
    let mut cut = text.clone();
    if at % 2 == 0 {
        cut.push_str("]");
    } else if matches!(v, Value::Number(_)) {
        return Ok(());
    } else {
        cut.pop();
    }
    match <ffi::JsonValue as C>::into_custom(cut.clone()) {
        Ok(x) => return fail("value-bad", format!("{cut} is read as {x}")),
        Err(e) => match e.downcast_ref::<Error>() {
            Some(e) => ensure_eq!(e.kind(), ErrorKind::Malformed, "value-bad", "{e}"),
            None => return fail("value-bad", format!("not the library's error: {e:#}")),
        },
    }
    Ok(())
}

// ---------------------------------------------------------------- wrapping with headers
#[derive(Clone, Debug, Serialize, Deserialize)]
struct WrapCase {
    m: Vec<Party>,
    to: String,
    headers: std::collections::BTreeMap<String, Value>,
    n: u8,
    enc: crate::refimpl::Enc,
    body: Value,
    how: Vec<How>,
}
fn wrap_case() -> BoxedStrategy<WrapCase> {
    (parties(2), "did:[a-z]{1,8}:[a-z0-9]{1,8}", proptest::collection::btree_map("x-[a-z]{1,6}", json_value(), 0..4), 0u8..4, enc(), json_value(), vec(how(), 1..4))
        .prop_map(|(m, to, headers, n, enc, body, how)| WrapCase { m, to, headers, n, enc, body: json!({"ciphertext": body}), how })
        .boxed()
}
fn check_wrap(c: &WrapCase, o: &mut Obs) -> Res {
    let keys: Vec<String> = (0..c.n).map(|i| c.m[i as usize % 2].did.clone()).collect();
    let headers: HashMap<String, Value> = c.headers.clone().into_iter().collect();
    let docs: Vec<DIDDoc> = c.m.iter().map(|p| p.doc()).collect();
    let native = block_on(wrap_in_forward(&c.body.to_string(), Some(&headers), &c.to, &keys, &anon_alg(c.enc), &Dids::new(docs.clone())));
    let f = Arc::new(Foreign { docs, secrets: vec![], how: c.how.clone(), bad: None, calls: Mutex::new(vec![]), wrong: Default::default() });
    let i = ffi::DIDComm::new(Box::new(FDids(f.clone())), Box::new(FSecs(f.clone())));
    let (cb, rx) = Told::pair();
    i.wrap_in_forward(c.body.to_string(), &headers, c.to.clone(), &keys, &anon_alg(c.enc), cb);
    let got = finish("wrap", rx)?;
    if c.n > 0 && !headers.is_empty() {
        o.nt();
    }
    let read = |t: &str| -> Res<Value> {
        let mut cur = t.to_string();
        let mut layers = vec![];
        let ps: Vec<&Party> = c.m.iter().collect();
        for _ in 0..c.n {
            let t = read_tower(&cur, &ps).map_err(|e| Fail { sig: "unreadable".into(), msg: e })?;
            let mut plain = val(&t.plain)?;
            plain["id"] = json!("");
            cur = plain["attachments"][0]["data"]["json"].take().to_string();
            layers.push(json!([format!("{:?}", t.anon), plain]));
        }
        layers.push(val(&cur)?);
        Ok(json!(layers))
    };
    match (native, got) {
        (Ok(a), Ok(Done::Text(b, _))) => ensure_eq!(read(&b)?, read(&a)?, "outcome", "wrapped"),
        (Err(a), Err((k, b))) => ensure_eq!(k, a.kind(), "outcome", "{b}, natively {a}"),
        (a, b) => return fail("outcome", format!("{b:?}, natively {a:?}")),
    }
    Ok(())
}
