use std::ops::Deref;
use wasm_bindgen::{Js, JsCast, JsValue};

macro_rules! view { ($t:ident, $v:ident, $c:expr) => {
    #[derive(Clone, Debug, PartialEq)]
    #[repr(transparent)]
    pub struct $t(JsValue);
    impl AsRef<JsValue> for $t { fn as_ref(&self) -> &JsValue { &self.0 } }
    impl Deref for $t { type Target = JsValue; fn deref(&self) -> &JsValue { &self.0 } }
    impl From<$t> for JsValue { fn from(x: $t) -> JsValue { x.0 } }
    impl JsCast for $t {
        fn instanceof($v: &JsValue) -> bool { $c }
        fn view(v: &JsValue) -> &$t { unsafe { &*(v as *const JsValue as *const $t) } }
        fn wrap(v: JsValue) -> $t { $t(v) }
    }
} }
view!(Object, v, matches!(v.0, Js::Object(_) | Js::Array(_) | Js::Function));
view!(Array, v, v.is_array());
view!(JsString, v, v.is_string());
impl Object { pub fn try_from(v: &JsValue) -> Option<&Object> { v.dyn_ref() } }
impl Array { pub fn is_array(v: &JsValue) -> bool { v.is_array() } }
/// Reflect: throws on values that are not objects
pub struct Reflect;
impl Reflect {
    pub fn get(t: &JsValue, k: &JsValue) -> Result<JsValue, JsValue> {
        match &t.0 {
            Js::Object(o) => Ok(o.iter().find(|e| Some(&e.0) == k.as_string().as_ref()).map_or(JsValue::UNDEFINED, |e| e.1.clone())),
            Js::Array(_) | Js::Function => Ok(JsValue::UNDEFINED),
            _ => Err(JsValue::from_str("Reflect.get called on non-object")),
        }
    }
    pub fn has(t: &JsValue, k: &JsValue) -> Result<bool, JsValue> {
        match &t.0 {
            Js::Object(o) => Ok(o.iter().any(|e| Some(&e.0) == k.as_string().as_ref())),
            Js::Array(_) | Js::Function => Ok(false),
            _ => Err(JsValue::from_str("Reflect.has called on non-object")),
        }
    }
}
