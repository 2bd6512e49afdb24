//! Typed views of the stand-in JavaScript values.
use wasm_bindgen::{JsCast, JsValue};

macro_rules! class {
    ($n:ident, $v:ident => $is:expr) => {
        #[derive(Clone, Debug)]
        #[repr(transparent)]
        pub struct $n {
            obj: JsValue,
        }
        impl std::ops::Deref for $n {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.obj
            }
        }
        impl AsRef<JsValue> for $n {
            fn as_ref(&self) -> &JsValue {
                &self.obj
            }
        }
        impl From<$n> for JsValue {
            fn from(x: $n) -> JsValue {
                x.obj
            }
        }
        impl From<&$n> for JsValue {
            fn from(x: &$n) -> JsValue {
                x.obj.clone()
            }
        }
        impl From<JsValue> for $n {
            fn from(obj: JsValue) -> $n {
                $n { obj }
            }
        }
        // SAFETY: repr(transparent) over JsValue
        unsafe impl JsCast for $n {
            fn instanceof($v: &JsValue) -> bool {
                $is
            }
        }
    };
}
class!(Object, v => v.is_object() || v.is_function());
class!(JsString, v => v.is_string());
class!(Array, v => v.is_array());
class!(Error, v => matches!(v, JsValue::Error(_)));
class!(Promise, v => matches!(v, JsValue::Promise(_)));
class!(Function, v => v.is_function());

impl From<&str> for JsString {
    fn from(s: &str) -> Self {
        JsString { obj: s.into() }
    }
}
impl From<String> for JsString {
    fn from(s: String) -> Self {
        JsString { obj: s.into() }
    }
}
impl From<JsString> for String {
    fn from(s: JsString) -> Self {
        s.obj.as_string().unwrap_or_default()
    }
}
impl std::fmt::Display for JsString {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str(&self.obj.as_string().unwrap_or_default())
    }
}
impl PartialEq<str> for JsString {
    fn eq(&self, o: &str) -> bool {
        self.obj.as_string().as_deref() == Some(o)
    }
}
impl Error {
    pub fn new(message: &str) -> Error {
        Error { obj: JsValue::error("Error", message) }
    }
    pub fn name(&self) -> JsString {
        self.obj.get("name").into()
    }
    pub fn message(&self) -> JsString {
        self.obj.get("message").into()
    }
    pub fn set_name(&self, n: &str) {
        if let JsValue::Error(e) = &self.obj {
            e.borrow_mut().0 = n.into();
        }
    }
    pub fn set_message(&self, n: &str) {
        if let JsValue::Error(e) = &self.obj {
            e.borrow_mut().1 = n.into();
        }
    }
    pub fn to_string(&self) -> JsString {
        JsString::from(format!("{}: {}", self.name(), self.message()))
    }
}
impl Default for Array {
    fn default() -> Self {
        Self::new()
    }
}
impl Array {
    pub fn new() -> Array {
        Array { obj: JsValue::array(vec![]) }
    }
    pub fn new_with_length(n: u32) -> Array {
        Array { obj: JsValue::array(vec![JsValue::Undefined; n as usize]) }
    }
    pub fn of1(a: &JsValue) -> Array {
        Array { obj: JsValue::array(vec![a.clone()]) }
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        Array { obj: JsValue::array(vec![a.clone(), b.clone()]) }
    }
    pub fn of3(a: &JsValue, b: &JsValue, c: &JsValue) -> Array {
        Array { obj: JsValue::array(vec![a.clone(), b.clone(), c.clone()]) }
    }
    fn with<T>(&self, f: impl FnOnce(&mut Vec<JsValue>) -> T) -> T {
        match &self.obj {
            JsValue::Array(a) => f(&mut a.borrow_mut()),
            _ => f(&mut vec![]),
        }
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
    pub fn length(&self) -> u32 {
        self.with(|a| a.len() as u32)
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.with(|a| a.get(i as usize).cloned().unwrap_or_default())
    }
    pub fn set(&self, i: u32, v: JsValue) {
        self.with(|a| {
            while a.len() <= i as usize {
                a.push(JsValue::Undefined);
            }
            a[i as usize] = v;
        })
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        self.with(|a| {
            a.push(v.clone());
            a.len() as u32
        })
    }
    pub fn includes(&self, v: &JsValue, from: i32) -> bool {
        self.with(|a| a.iter().skip(from.max(0) as usize).any(|x| x == v))
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.to_vec().into_iter()
    }
    pub fn values(&self) -> std::vec::IntoIter<Result<JsValue, JsValue>> {
        self.to_vec().into_iter().map(Ok).collect::<Vec<_>>().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.with(|a| a.clone())
    }
    pub fn from(v: &JsValue) -> Array {
        match v {
            JsValue::Array(a) => Array { obj: JsValue::array(a.borrow().clone()) },
            _ => Array::new(),
        }
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.iter()
    }
}
impl<A: AsRef<JsValue>> FromIterator<A> for Array {
    fn from_iter<T: IntoIterator<Item = A>>(i: T) -> Array {
        Array { obj: JsValue::array(i.into_iter().map(|x| x.as_ref().clone()).collect()) }
    }
}
impl<A: AsRef<JsValue>> Extend<A> for Array {
    fn extend<T: IntoIterator<Item = A>>(&mut self, i: T) {
        for x in i {
            self.push(x.as_ref());
        }
    }
}
impl Default for Object {
    fn default() -> Self {
        Self::new()
    }
}
impl Object {
    pub fn new() -> Object {
        Object { obj: JsValue::object(vec![]) }
    }
}
impl Promise {
    pub fn resolve(v: &JsValue) -> Promise {
        if let JsValue::Promise(_) = v {
            return Promise { obj: v.clone() };
        }
        let (p, s) = wasm_bindgen::new_promise();
        wasm_bindgen::settle(&s, Ok(v.clone()));
        Promise { obj: p }
    }
    pub fn reject(v: &JsValue) -> Promise {
        let (p, s) = wasm_bindgen::new_promise();
        wasm_bindgen::settle(&s, Err(v.clone()));
        Promise { obj: p }
    }
}
#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(t: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        Ok(t.get(&k.as_string().unwrap_or_default()))
    }
    pub fn has(t: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        Ok(!t.get(&k.as_string().unwrap_or_default()).is_undefined())
    }
    pub fn set(t: &JsValue, k: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        let k = k.as_string().unwrap_or_default();
        if let JsValue::Object(o) = t {
            let mut o = o.borrow_mut();
            o.retain(|x| x.0 != k);
            o.push((k, v.clone()));
        }
        Ok(true)
    }
}
#[allow(non_snake_case)]
pub mod JSON {
    use super::*;
    pub fn parse(t: &str) -> Result<JsValue, JsValue> {
        serde_json::from_str(t).map(|v| JsValue::parse(&v)).map_err(|e| JsValue::error("SyntaxError", &e.to_string()))
    }
    pub fn stringify(v: &JsValue) -> Result<JsString, JsValue> {
        Ok(JsString::from(JsValue::from(v.stringify())))
    }
}
