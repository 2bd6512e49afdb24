#![allow(dead_code)]
pub use didcomm::did::resolvers::ExampleDIDResolver;
pub use didcomm::secrets::resolvers::ExampleSecretsResolver;
pub use didcomm::test_vectors::*;
pub use didcomm::*;
pub use serde_json::{json, Value};

/// Runs a future that never waits.
pub fn run<F: std::future::Future>(f: F) -> F::Output {
    let mut f = Box::pin(f);
    let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
    loop {
        if let std::task::Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}
