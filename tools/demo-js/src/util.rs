#![allow(dead_code)]
pub use didcomm::did::resolvers::ExampleDIDResolver;
pub use didcomm::secrets::resolvers::ExampleSecretsResolver;
pub use didcomm::test_vectors::*;
pub use didcomm::*;
pub use serde_json::{json, Value};

/// Runs a future that never waits.
pub fn run<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}

// ---- the JavaScript interface
pub use didcomm::error::ErrorKind;
pub use didcomm_js as js;
pub use std::rc::Rc;
pub use wasm_bindgen::JsValue;
use didcomm::did::{DIDDoc, DIDResolver};
use didcomm::secrets::{Secret, SecretsResolver};
use wasm_bindgen::{new_promise, settle};

pub fn obj<T: serde::Serialize>(x: &T) -> JsValue {
    JsValue::parse(&serde_json::to_value(x).unwrap())
}
pub type Answer = Result<JsValue, JsValue>;
fn promise(x: Answer) -> Answer {
    let (p, s) = new_promise();
    settle(&s, x);
    Ok(p)
}
fn arg(a: &[JsValue], i: usize) -> JsValue {
    a.get(i).cloned().unwrap_or_default()
}
/// A resolver that answers what `f` makes of the true answer.
pub fn dids(docs: Vec<DIDDoc>, f: impl Fn(&str, JsValue) -> Answer + 'static) -> js::DIDResolver {
    JsValue::object(vec![(
        "resolve".into(),
        JsValue::function(move |a| {
            let did = arg(&a, 0).as_string().unwrap();
            let x = run(ExampleDIDResolver::new(docs.clone()).resolve(&did)).unwrap();
            promise(f(&did, x.map_or(JsValue::Null, |x| obj(&x))))
        }),
    )])
    .into()
}
pub fn secs(s: Vec<Secret>, f: impl Fn(&str, JsValue) -> Answer + 'static, g: impl Fn(Vec<JsValue>) -> Answer + 'static) -> js::SecretsResolver {
    let s2 = s.clone();
    JsValue::object(vec![
        (
            "get_secret".into(),
            JsValue::function(move |a| {
                let id = arg(&a, 0).as_string().unwrap();
                let x = run(ExampleSecretsResolver::new(s.clone()).get_secret(&id)).unwrap();
                promise(f(&id, x.map_or(JsValue::Null, |x| obj(&x))))
            }),
        ),
        (
            "find_secrets".into(),
            JsValue::function(move |a| {
                let JsValue::Array(ids) = arg(&a, 0) else { panic!("no array") };
                let x = ids.borrow().iter().filter(|i| s2.iter().any(|s| Some(&s.id) == i.as_string().as_ref())).cloned().collect();
                promise(g(x))
            }),
        ),
    ])
    .into()
}
pub fn plain_dids(docs: Vec<DIDDoc>) -> js::DIDResolver {
    dids(docs, |_, x| Ok(x))
}
pub fn plain_secs(s: Vec<Secret>) -> js::SecretsResolver {
    secs(s, |_, x| Ok(x), |x| Ok(JsValue::array(x)))
}
/// What the promise is settled with; errors as (name, message).
pub fn settled(p: impl Into<JsValue>) -> Result<JsValue, (String, String)> {
    while wasm_bindgen_futures::run() {}
    match p.into() {
        JsValue::Promise(s) => match s.borrow().value.clone().expect("never settled") {
            Ok(x) => Ok(x),
            Err(JsValue::Error(e)) => Err(e.borrow().clone()),
            Err(x) => Err(("not an Error".into(), format!("{x:?}"))),
        },
        x => panic!("not a promise: {x:?}"),
    }
}
pub fn from_js(v: &JsValue) -> Value {
    serde_json::from_str(&v.stringify().unwrap_or_else(|| "null".into())).unwrap_or_default()
}
pub fn nth(v: &JsValue, i: usize) -> JsValue {
    match v {
        JsValue::Array(a) => a.borrow()[i].clone(),
        _ => panic!("not a tuple: {v:?}"),
    }
}
