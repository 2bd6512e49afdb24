//! What didcomm's JavaScript layer needs of wasm-bindgen, over a model of JavaScript's values: everything a number can be is a
//! double, objects are ordered maps, JSON is what JSON.parse and JSON.stringify make of it, promises are settled once and wake
//! who waits for them.
use serde::{de::DeserializeOwned, Serialize};
use std::any::Any;
use std::cell::RefCell;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll, Waker};
pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsValue};
}
pub type Function = Rc<dyn Fn(Vec<JsValue>) -> Result<JsValue, JsValue>>;
#[derive(Default)]
pub struct Settle {
    pub value: Option<Result<JsValue, JsValue>>,
    wakers: Vec<Waker>,
}
#[derive(Clone)]
#[non_exhaustive]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(Rc<str>),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
    Function(Function),
    Error(Rc<RefCell<(String, String)>>),
    Promise(Rc<RefCell<Settle>>),
    Instance(&'static str, Rc<dyn Any>),
}
use JsValue::*;
impl JsValue {
    pub const UNDEFINED: JsValue = Undefined;
    pub const NULL: JsValue = Null;
    pub const TRUE: JsValue = Bool(true);
    pub const FALSE: JsValue = Bool(false);
    pub fn undefined() -> Self {
        Undefined
    }
    pub fn null() -> Self {
        Null
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> Self {
        Str(s.into())
    }
    pub fn from_f64(x: f64) -> Self {
        Num(x)
    }
    pub fn from_bool(x: bool) -> Self {
        Bool(x)
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Null)
    }
    pub fn is_string(&self) -> bool {
        matches!(self, Str(_))
    }
    pub fn is_object(&self) -> bool {
        !matches!(self, Undefined | Null | Bool(_) | Num(_) | Str(_) | Function(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self, Array(_))
    }
    pub fn is_function(&self) -> bool {
        matches!(self, Function(_))
    }
    pub fn is_falsy(&self) -> bool {
        match self {
            Undefined | Null | Bool(false) => true,
            Num(x) => *x == 0.0 || x.is_nan(),
            Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn is_truthy(&self) -> bool {
        !self.is_falsy()
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            Str(s) => Some(s.to_string()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            Num(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            Bool(x) => Some(*x),
            _ => None,
        }
    }
    /// JSON.parse of what serde writes
    pub fn from_serde<T: Serialize + ?Sized>(t: &T) -> serde_json::Result<JsValue> {
        // the text, not the value, as the real one: what cannot be written as text is an error
        let text = serde_json::to_string(t)?;
        Ok(Self::parse(&serde_json::from_str(&text)?))
    }
    /// serde reads what JSON.stringify writes
    pub fn into_serde<T: DeserializeOwned>(&self) -> serde_json::Result<T> {
        serde_json::from_str(&self.stringify().unwrap_or_else(|| "null".into()))
    }
    /// JSON.parse
    pub fn parse(v: &serde_json::Value) -> JsValue {
        use serde_json::Value as V;
        match v {
            V::Null => Null,
            V::Bool(b) => Bool(*b),
            V::Number(n) => Num(n.as_f64().unwrap_or(f64::NAN)),
            V::String(s) => Self::from_str(s),
            V::Array(a) => Self::array(a.iter().map(Self::parse).collect()),
            V::Object(o) => Self::object(o.iter().map(|(k, v)| (k.clone(), Self::parse(v))).collect()),
        }
    }
    /// JSON.stringify; None is undefined
    pub fn stringify(&self) -> Option<String> {
        Some(match self {
            Undefined | Function(_) => return None,
            Null => "null".into(),
            Bool(b) => b.to_string(),
            Num(x) if !x.is_finite() => "null".into(),
            Num(x) if x.fract() == 0.0 && x.abs() < 1e21 => format!("{}", x + 0.0),
            Num(x) => serde_json::to_string(x).ok()?,
            Str(s) => serde_json::to_string(&**s).ok()?,
            Array(a) => {
                let parts: Vec<String> = a.borrow().iter().map(|x| x.stringify().unwrap_or_else(|| "null".into())).collect();
                format!("[{}]", parts.join(","))
            }
            Object(o) => {
                let mut parts = vec![];
                for (k, v) in o.borrow().iter() {
                    if let Some(t) = v.stringify() {
                        parts.push(format!("{}:{t}", serde_json::to_string(k).ok()?));
                    }
                }
                format!("{{{}}}", parts.join(","))
            }
            Error(_) | Promise(_) => "{}".into(),
            Instance(..) => "{\"ptr\":1}".into(),
        })
    }
    pub fn array(x: Vec<JsValue>) -> JsValue {
        Array(Rc::new(RefCell::new(x)))
    }
    pub fn object(x: Vec<(String, JsValue)>) -> JsValue {
        Object(Rc::new(RefCell::new(x)))
    }
    pub fn function(f: impl Fn(Vec<JsValue>) -> Result<JsValue, JsValue> + 'static) -> JsValue {
        Function(Rc::new(f))
    }
    pub fn error(name: &str, message: &str) -> JsValue {
        Error(Rc::new(RefCell::new((name.into(), message.into()))))
    }
    pub fn instance<T: 'static>(name: &'static str, x: T) -> JsValue {
        Instance(name, Rc::new(x))
    }
    /// the exported value this is an instance of
    pub fn exported<T: 'static>(&self) -> Option<Rc<T>> {
        match self {
            Instance(_, x) => x.clone().downcast().ok(),
            _ => None,
        }
    }
    pub fn get(&self, key: &str) -> JsValue {
        match self {
            Object(o) => o.borrow().iter().find(|x| x.0 == key).map(|x| x.1.clone()).unwrap_or(Undefined),
            Array(a) => key.parse::<usize>().ok().and_then(|i| a.borrow().get(i).cloned()).unwrap_or(Undefined),
            Error(e) if key == "name" => Self::from_str(&e.borrow().0),
            Error(e) if key == "message" => Self::from_str(&e.borrow().1),
            _ => Undefined,
        }
    }
}
impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        match self {
            Undefined => write!(f, "JsValue(undefined)"),
            Error(e) => write!(f, "JsValue({}: {})", e.borrow().0, e.borrow().1),
            Function(_) => write!(f, "JsValue(Function)"),
            Promise(_) => write!(f, "JsValue(Promise)"),
            Instance(n, _) => write!(f, "JsValue({n})"),
            Object(_) => write!(f, "JsValue(Object({}))", self.stringify().unwrap_or_default()),
            x => write!(f, "JsValue({})", x.stringify().unwrap_or_default()),
        }
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Undefined
    }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Undefined, Undefined) | (Null, Null) => true,
            (Bool(a), Bool(b)) => a == b,
            (Num(a), Num(b)) => a == b,
            (Str(a), Str(b)) => a == b,
            (Array(a), Array(b)) => Rc::ptr_eq(a, b),
            (Object(a), Object(b)) => Rc::ptr_eq(a, b),
            (Error(a), Error(b)) => Rc::ptr_eq(a, b),
            (Promise(a), Promise(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::from_str(&s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(s: bool) -> Self {
        Bool(s)
    }
}
macro_rules! nums {
    ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(x: $t) -> Self { Num(x as f64) } })* };
}
nums!(i8 u8 i16 u16 i32 u32 f32 f64);
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(x: Option<T>) -> Self {
        x.map(JsValue::from).unwrap_or(Undefined)
    }
}
impl From<&JsValue> for JsValue {
    fn from(x: &JsValue) -> Self {
        x.clone()
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
/// # Safety
/// Only for types that are repr(transparent) over JsValue.
pub unsafe trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn unchecked_from_js(v: JsValue) -> Self {
        // SAFETY: by the contract of the trait
        let x = unsafe { std::mem::transmute_copy::<JsValue, Self>(&v) };
        std::mem::forget(v);
        x
    }
    fn unchecked_from_js_ref(v: &JsValue) -> &Self {
        // SAFETY: by the contract of the trait
        unsafe { &*(v as *const JsValue as *const Self) }
    }
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        self.has_type::<T>().then(|| T::unchecked_from_js_ref(self.as_ref()))
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if self.has_type::<T>() {
            Ok(T::unchecked_from_js(self.into()))
        } else {
            Err(self)
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
// SAFETY: the same type
unsafe impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
}
/// calls a method
pub fn call(this: &JsValue, name: &str, args: Vec<JsValue>) -> Result<JsValue, JsValue> {
    match this.get(name) {
        Function(f) => f(args),
        _ => Err(JsValue::error("TypeError", &format!("{name} is not a function"))),
    }
}
pub fn new_promise() -> (JsValue, Rc<RefCell<Settle>>) {
    let s = Rc::new(RefCell::new(Settle::default()));
    (Promise(s.clone()), s)
}
pub fn settle(s: &Rc<RefCell<Settle>>, v: Result<JsValue, JsValue>) {
    let mut x = s.borrow_mut();
    if x.value.is_none() {
        x.value = Some(v);
        for w in std::mem::take(&mut x.wakers) {
            w.wake();
        }
    }
}
/// `await`: a value that is not a promise is itself
pub fn settled(v: JsValue) -> Settled {
    Settled(v)
}
pub struct Settled(JsValue);
impl Future for Settled {
    type Output = Result<JsValue, JsValue>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match &self.0 {
            Promise(s) => {
                let mut s = s.borrow_mut();
                match &s.value {
                    Some(x) => Poll::Ready(x.clone()),
                    None => {
                        s.wakers.push(cx.waker().clone());
                        Poll::Pending
                    }
                }
            }
            x => Poll::Ready(Ok(x.clone())),
        }
    }
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
