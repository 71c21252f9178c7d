//! JavaScript values as Rust values: the conversions the bindings use, with the semantics of the real crate.
use std::rc::Rc;
pub use wasm_bindgen_macro::wasm_bindgen;

#[derive(Clone, Debug, PartialEq)]
pub enum Js { Undefined, Null, Bool(bool), Number(f64), Text(Rc<str>), Object(Rc<Vec<(String, JsValue)>>), Array(Rc<Vec<JsValue>>), Function }
#[derive(Clone, Debug, PartialEq)]
#[repr(transparent)]
pub struct JsValue(pub Js);
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Js::Undefined);
    pub const NULL: JsValue = JsValue(Js::Null);
    pub const TRUE: JsValue = JsValue(Js::Bool(true));
    pub const FALSE: JsValue = JsValue(Js::Bool(false));
    pub const fn undefined() -> JsValue { JsValue(Js::Undefined) }
    pub const fn null() -> JsValue { JsValue(Js::Null) }
    pub fn from_bool(b: bool) -> JsValue { JsValue(Js::Bool(b)) }
    pub fn from_f64(n: f64) -> JsValue { JsValue(Js::Number(n)) }
    pub fn from_str(s: &str) -> JsValue { JsValue(Js::Text(s.into())) }
    pub fn is_undefined(&self) -> bool { matches!(self.0, Js::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self.0, Js::Null) }
    pub fn is_null_or_undefined(&self) -> bool { self.is_undefined() || self.is_null() }
    pub fn is_string(&self) -> bool { matches!(self.0, Js::Text(_)) }
    pub fn is_function(&self) -> bool { matches!(self.0, Js::Function) }
    pub fn is_array(&self) -> bool { matches!(self.0, Js::Array(_)) }
    /// `typeof x === "object" && x !== null`
    pub fn is_object(&self) -> bool { matches!(self.0, Js::Object(_) | Js::Array(_)) }
    pub fn is_truthy(&self) -> bool { !self.is_falsy() }
    pub fn is_falsy(&self) -> bool {
        match &self.0 { Js::Undefined | Js::Null | Js::Bool(false) => true, Js::Number(n) => *n == 0.0 || n.is_nan(), Js::Text(s) => s.is_empty(), _ => false }
    }
    pub fn as_bool(&self) -> Option<bool> { if let Js::Bool(b) = self.0 { Some(b) } else { None } }
    pub fn as_f64(&self) -> Option<f64> { if let Js::Number(n) = self.0 { Some(n) } else { None } }
    pub fn as_string(&self) -> Option<String> { if let Js::Text(s) = &self.0 { Some(s.to_string()) } else { None } }
}
impl From<&str> for JsValue { fn from(s: &str) -> JsValue { JsValue::from_str(s) } }
impl From<String> for JsValue { fn from(s: String) -> JsValue { JsValue::from_str(&s) } }
impl From<&String> for JsValue { fn from(s: &String) -> JsValue { JsValue::from_str(s) } }
impl From<bool> for JsValue { fn from(b: bool) -> JsValue { JsValue::from_bool(b) } }
impl From<f64> for JsValue { fn from(n: f64) -> JsValue { JsValue::from_f64(n) } }
impl From<u32> for JsValue { fn from(n: u32) -> JsValue { JsValue::from_f64(n.into()) } }
impl From<i32> for JsValue { fn from(n: i32) -> JsValue { JsValue::from_f64(n.into()) } }
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

#[derive(Clone, Debug)]
pub struct JsError(String);
impl JsError {
    pub fn new(s: &str) -> JsError { JsError(s.to_string()) }
    /// not in the real crate: the message of the exception
    pub fn text(&self) -> &str { &self.0 }
}
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> JsError { JsError(e.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> JsValue { JsValue(Js::Object(Rc::new(vec![("message".into(), JsValue::from_str(&e.0))]))) } }

/// casts between views of one value (both are transparent over it)
pub trait JsCast: AsRef<JsValue> + Sized {
    fn instanceof(v: &JsValue) -> bool;
    fn view(v: &JsValue) -> &Self;
    fn wrap(v: JsValue) -> Self;
}
impl JsCast for JsValue { fn instanceof(_: &JsValue) -> bool { true } fn view(v: &JsValue) -> &JsValue { v } fn wrap(v: JsValue) -> JsValue { v } }
impl JsValue {
    pub fn has_type<T: JsCast>(&self) -> bool { T::instanceof(self) }
    pub fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self) }
    pub fn dyn_ref<T: JsCast>(&self) -> Option<&T> { if T::instanceof(self) { Some(T::view(self)) } else { None } }
    pub fn dyn_into<T: JsCast>(self) -> Result<T, JsValue> { if T::instanceof(&self) { Ok(T::wrap(self)) } else { Err(self) } }
    pub fn unchecked_ref<T: JsCast>(&self) -> &T { T::view(self) }
    pub fn unchecked_into<T: JsCast>(self) -> T { T::wrap(self) }
}
pub mod prelude {
    pub use crate::{wasm_bindgen, JsCast, JsError, JsValue};
}
pub trait UnwrapThrowExt<T> { fn unwrap_throw(self) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } }
