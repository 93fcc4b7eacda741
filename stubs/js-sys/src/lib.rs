//! Native stand-in for `js-sys`, see the stand-in for `wasm-bindgen`.
use wasm_bindgen::{JsCast, JsValue};

macro_rules! object {
    ($($name:ident)*) => {$(
        #[repr(transparent)]
        #[derive(Clone, Debug, Default)]
        pub struct $name(JsValue);
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl JsCast for $name {}
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> Self {
                $name(v)
            }
        }
    )*};
}

object!(Object Function Date);

pub fn global() -> Object {
    Object(JsValue::undefined())
}

impl Date {
    pub fn now() -> f64 {
        wasm_bindgen::host::date_now()
    }
}
