//! Stand-in for wasm-bindgen: exported functions stay plain Rust functions.
pub use wasm_bindgen_macro::wasm_bindgen;
#[derive(Clone, Debug, PartialEq)]
pub enum JsValue { Undefined, Null, Bool(bool), Num(f64), Str(String) }
#[allow(non_upper_case_globals)]
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn from_str(s: &str) -> JsValue { JsValue::Str(s.to_string()) }
    pub fn from_f64(n: f64) -> JsValue { JsValue::Num(n) }
    pub fn from_bool(b: bool) -> JsValue { JsValue::Bool(b) }
    pub fn as_string(&self) -> Option<String> { if let JsValue::Str(s) = self { Some(s.clone()) } else { None } }
    pub fn as_f64(&self) -> Option<f64> { if let JsValue::Num(n) = self { Some(*n) } else { None } }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
}
impl From<&str> for JsValue { fn from(s: &str) -> Self { JsValue::Str(s.to_string()) } }
impl From<String> for JsValue { fn from(s: String) -> Self { JsValue::Str(s) } }
impl<'a> From<&'a String> for JsValue { fn from(s: &'a String) -> Self { JsValue::Str(s.clone()) } }
impl From<bool> for JsValue { fn from(b: bool) -> Self { JsValue::Bool(b) } }
impl From<u32> for JsValue { fn from(b: u32) -> Self { JsValue::Num(b as f64) } }
impl From<f64> for JsValue { fn from(b: f64) -> Self { JsValue::Num(b) } }
#[derive(Clone, Debug)]
pub struct JsError(pub String);
impl JsError { pub fn new(s: &str) -> Self { JsError(s.to_string()) } }
impl<E: std::error::Error> From<E> for JsError { fn from(e: E) -> Self { JsError(e.to_string()) } }
impl From<JsError> for JsValue { fn from(e: JsError) -> Self { JsValue::Str(e.0) } }
pub trait UnwrapThrowExt<T>: Sized { fn unwrap_throw(self) -> T; fn expect_throw(self, m: &str) -> T; }
impl<T> UnwrapThrowExt<T> for Option<T> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> { fn unwrap_throw(self) -> T { self.unwrap() } fn expect_throw(self, m: &str) -> T { self.expect(m) } }
pub mod prelude { pub use crate::{wasm_bindgen, JsError, JsValue, UnwrapThrowExt}; }
