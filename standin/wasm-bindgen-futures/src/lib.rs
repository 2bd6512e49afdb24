//! Futures as promises, run by a queue of tasks per thread: a task is polled when it was woken, in the order of waking.
use js_sys::Promise;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Wake, Waker};
use wasm_bindgen::{JsCast, JsValue};

type Task = Pin<Box<dyn Future<Output = ()>>>;
thread_local! {
    static TASKS: RefCell<Vec<Option<Task>>> = const { RefCell::new(vec![]) };
    static READY: Arc<Mutex<VecDeque<usize>>> = Default::default();
}
struct Woken(usize, Arc<Mutex<VecDeque<usize>>>);
impl Wake for Woken {
    fn wake(self: Arc<Self>) {
        let mut q = self.1.lock().unwrap();
        if !q.contains(&self.0) {
            q.push_back(self.0);
        }
    }
}
pub fn spawn_local(f: impl Future<Output = ()> + 'static) {
    let id = TASKS.with(|t| {
        let mut t = t.borrow_mut();
        t.push(Some(Box::pin(f)));
        t.len() - 1
    });
    READY.with(|q| q.lock().unwrap().push_back(id));
}
pub fn future_to_promise<F>(f: F) -> Promise
where
    F: Future<Output = Result<JsValue, JsValue>> + 'static,
{
    let (p, s) = wasm_bindgen::new_promise();
    spawn_local(async move {
        let x = f.await;
        wasm_bindgen::settle(&s, x);
    });
    Promise::unchecked_from_js(p)
}
/// Polls the tasks that were woken until none is; true if anything ran.
pub fn run() -> bool {
    let mut ran = false;
    let q = READY.with(|q| q.clone());
    loop {
        let Some(i) = q.lock().unwrap().pop_front() else { return ran };
        let Some(mut t) = TASKS.with(|t| t.borrow_mut().get_mut(i).and_then(|x| x.take())) else { continue };
        ran = true;
        let w = Waker::from(Arc::new(Woken(i, q.clone())));
        if t.as_mut().poll(&mut Context::from_waker(&w)) == Poll::Pending {
            TASKS.with(|x| x.borrow_mut()[i] = Some(t));
        }
    }
}
/// Forgets every task, also those left waiting.
pub fn reset() {
    let old = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    READY.with(|q| q.lock().unwrap().clear());
    drop(old);
}
pub struct JsFuture(wasm_bindgen::Settled);
impl From<Promise> for JsFuture {
    fn from(p: Promise) -> Self {
        JsFuture(wasm_bindgen::settled(p.into()))
    }
}
impl Future for JsFuture {
    type Output = Result<JsValue, JsValue>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut self.0).poll(cx)
    }
}
