//! Objects and reflection for the stand-in host.

use std::ops::Deref;
use wasm_bindgen::{JsCast, JsValue};

#[derive(Clone, Debug)]
#[repr(transparent)]
pub struct Object {
    obj: JsValue,
}

impl Object {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Self {
        Self { obj: JsValue::object(vec![]) }
    }
    pub fn try_from(val: &JsValue) -> Option<&Self> {
        val.is_object().then(|| Self::unchecked_from_js_ref(val))
    }
}
impl Deref for Object {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.obj
    }
}
impl AsRef<JsValue> for Object {
    fn as_ref(&self) -> &JsValue {
        &self.obj
    }
}
impl AsRef<Object> for Object {
    fn as_ref(&self) -> &Object {
        self
    }
}
impl From<Object> for JsValue {
    fn from(o: Object) -> Self {
        o.obj
    }
}
impl JsCast for Object {
    fn instanceof(val: &JsValue) -> bool {
        val.is_object()
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        Self { obj: val }
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        // SAFETY: Object is a transparent wrapper of JsValue
        unsafe { &*std::ptr::from_ref(val).cast::<Self>() }
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::JsValue;

    fn name(key: &JsValue) -> String {
        key.as_string().unwrap_or_else(|| format!("{key:?}"))
    }
    /// Throws for a target that is not an object, as Reflect.get does.
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match target {
            JsValue::Obj(o) => {
                let k = name(key);
                Ok(o.borrow().iter().find(|(n, _)| *n == k).map_or(JsValue::Undefined, |(_, v)| v.clone()))
            }
            _ => Err(JsValue::from("Reflect.get called on non-object")),
        }
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        match target {
            JsValue::Obj(o) => {
                let k = name(key);
                Ok(o.borrow().iter().any(|(n, _)| *n == k))
            }
            _ => Err(JsValue::from("Reflect.has called on non-object")),
        }
    }
    pub fn set(target: &JsValue, key: &JsValue, value: &JsValue) -> Result<bool, JsValue> {
        match target {
            JsValue::Obj(o) => {
                let k = name(key);
                let mut o = o.borrow_mut();
                if let Some(e) = o.iter_mut().find(|(n, _)| *n == k) {
                    e.1 = value.clone();
                } else {
                    o.push((k, value.clone()));
                }
                Ok(true)
            }
            _ => Err(JsValue::from("Reflect.set called on non-object")),
        }
    }
}
