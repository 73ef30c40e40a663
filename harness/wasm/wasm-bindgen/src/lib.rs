//! Stands in for wasm-bindgen: a JavaScript value is a JSON value here, and
//! what is exported is called from Rust.
pub use prelude::*;

#[derive(Debug, Clone, PartialEq)]
pub struct JsValue(pub serde_json::Value);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(serde_json::Value::Null);
    pub const NULL: JsValue = JsValue(serde_json::Value::Null);
    pub fn from_str(s: &str) -> JsValue {
        JsValue(serde_json::Value::String(s.to_string()))
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue::from_str(&s)
    }
}

pub mod prelude {
    pub use super::JsValue;
    pub use wasm_bindgen_macro::wasm_bindgen;
}
