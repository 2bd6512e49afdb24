#![allow(dead_code)]
pub use didcomm::did::resolvers::ExampleDIDResolver;
pub use didcomm::secrets::resolvers::ExampleSecretsResolver;
pub use didcomm::test_vectors::*;
pub use didcomm::*;
pub use serde_json::{json, Value};

/// Runs a future that never waits.
pub fn run<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}

// ---- the callback interface
pub use didcomm::error::ErrorKind;
pub use didcomm_uniffi as ffi;
pub use std::sync::mpsc::{channel, Receiver, Sender};
pub use std::sync::{Arc, Mutex};
use didcomm::did::{DIDDoc, DIDResolver};
use didcomm::secrets::{Secret, SecretsResolver};

type OnDoc = dyn Fn(&str, Arc<ffi::OnDIDResolverResult>, Option<DIDDoc>) + Send + Sync;
type OnSecret = dyn Fn(&str, Arc<ffi::OnGetSecretResult>, Option<Secret>) + Send + Sync;
type OnFind = dyn Fn(Vec<String>, Arc<ffi::OnFindSecretsResult>, Vec<String>) + Send + Sync;
/// A foreign DID resolver: what it does with the callback and the true answer.
pub struct FDids(pub Vec<DIDDoc>, pub Box<OnDoc>);
impl ffi::DIDResolver for FDids {
    fn resolve(&self, did: String, cb: Arc<ffi::OnDIDResolverResult>) -> ffi::ErrorCode {
        let x = run(ExampleDIDResolver::new(self.0.clone()).resolve(&did)).unwrap();
        (self.1)(&did, cb, x);
        ffi::ErrorCode::Success
    }
}
pub struct FSecs(pub Vec<Secret>, pub Box<OnSecret>, pub Box<OnFind>);
impl ffi::SecretsResolver for FSecs {
    fn get_secret(&self, id: String, cb: Arc<ffi::OnGetSecretResult>) -> ffi::ErrorCode {
        let x = run(ExampleSecretsResolver::new(self.0.clone()).get_secret(&id)).unwrap();
        (self.1)(&id, cb, x);
        ffi::ErrorCode::Success
    }
    fn find_secrets(&self, ids: Vec<String>, cb: Arc<ffi::OnFindSecretsResult>) -> ffi::ErrorCode {
        let q: Vec<&str> = ids.iter().map(|s| &s[..]).collect();
        let x = run(ExampleSecretsResolver::new(self.0.clone()).find_secrets(&q)).unwrap();
        let x = x.into_iter().map(String::from).collect();
        (self.2)(ids, cb, x);
        ffi::ErrorCode::Success
    }
}
pub fn dids(docs: Vec<DIDDoc>) -> FDids {
    FDids(docs, Box::new(|_, cb, x| cb.success(x).unwrap()))
}
pub fn secs(s: Vec<Secret>) -> FSecs {
    FSecs(s, Box::new(|_, cb, x| cb.success(x).unwrap()), Box::new(|_, cb, x| cb.success(x).unwrap()))
}
pub struct Told<T>(Mutex<Sender<Result<T, (ErrorKind, String)>>>);
pub fn told<T>() -> (Box<Told<T>>, Receiver<Result<T, (ErrorKind, String)>>) {
    let (s, r) = channel();
    (Box::new(Told(Mutex::new(s))), r)
}
macro_rules! on {
    ($t:ident $b:ty { $($a:ident : $ty:ty),* } $e:expr) => {
        impl ffi::$t for Told<$b> {
            fn success(&self, $($a: $ty),*) { let _ = self.0.lock().unwrap().send(Ok($e)); }
            fn error(&self, k: ErrorKind, m: String) { let _ = self.0.lock().unwrap().send(Err((k, m))); }
        }
    };
}
on!(OnPackPlaintextResult String { t: String } t);
on!(OnWrapInForwardResult String { t: String } t);
on!(OnPackEncryptedResult (String, PackEncryptedMetadata) { t: String, m: PackEncryptedMetadata } (t, m));
on!(OnPackSignedResult (String, PackSignedMetadata) { t: String, m: PackSignedMetadata } (t, m));
on!(OnUnpackResult (Message, UnpackMetadata) { t: Message, m: UnpackMetadata } (t, m));
on!(OnFromPriorPackResult (String, String) { t: String, m: String } (t, m));
pub fn wait<T>(r: Receiver<Result<T, (ErrorKind, String)>>) -> Result<T, (ErrorKind, String)> {
    r.recv_timeout(std::time::Duration::from_secs(60)).expect("no answer")
}
