//! A stand-in for the JavaScript side of wasm-bindgen: values are Rust data,
//! so the bindings of the crate under test run without a JavaScript engine.
//! Only what option objects, strings and errors need.

use std::cell::RefCell;
use std::fmt;
use std::rc::Rc;

pub use jshost_macro::wasm_bindgen;

#[derive(Clone)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    Str(String),
    Obj(Rc<RefCell<Vec<(String, JsValue)>>>),
}

impl JsValue {
    pub const UNDEFINED: Self = Self::Undefined;
    pub const NULL: Self = Self::Null;
    pub const TRUE: Self = Self::Bool(true);
    pub const FALSE: Self = Self::Bool(false);

    pub fn undefined() -> Self {
        Self::Undefined
    }
    pub fn null() -> Self {
        Self::Null
    }
    pub fn from_str(s: &str) -> Self {
        Self::Str(s.to_string())
    }
    pub fn from_f64(x: f64) -> Self {
        Self::Num(x)
    }
    pub fn from_bool(b: bool) -> Self {
        Self::Bool(b)
    }
    pub fn object(fields: Vec<(String, JsValue)>) -> Self {
        Self::Obj(Rc::new(RefCell::new(fields)))
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self, Self::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Self::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_object(&self) -> bool {
        matches!(self, Self::Obj(_))
    }
    pub fn is_string(&self) -> bool {
        matches!(self, Self::Str(_))
    }
    pub fn is_array(&self) -> bool {
        false
    }
    pub fn is_function(&self) -> bool {
        false
    }
    pub fn is_symbol(&self) -> bool {
        false
    }
    pub fn is_bigint(&self) -> bool {
        false
    }
    pub fn is_truthy(&self) -> bool {
        match self {
            Self::Undefined | Self::Null => false,
            Self::Bool(b) => *b,
            Self::Num(x) => *x != 0.0 && !x.is_nan(),
            Self::Str(s) => !s.is_empty(),
            Self::Obj(_) => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    pub fn as_f64(&self) -> Option<f64> {
        match self {
            Self::Num(x) => Some(*x),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match self {
            Self::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match self {
            Self::Bool(b) => Some(*b),
            _ => None,
        }
    }
}

impl fmt::Debug for JsValue {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Self::Undefined => f.write_str("undefined"),
            Self::Null => f.write_str("null"),
            Self::Bool(b) => write!(f, "{b}"),
            Self::Num(x) => write!(f, "{x}"),
            Self::Str(s) => write!(f, "{s:?}"),
            Self::Obj(o) => f.debug_map().entries(o.borrow().iter().map(|(k, v)| (k, v))).finish(),
        }
    }
}

impl PartialEq for JsValue {
    fn eq(&self, o: &Self) -> bool {
        match (self, o) {
            (Self::Undefined, Self::Undefined) | (Self::Null, Self::Null) => true,
            (Self::Bool(a), Self::Bool(b)) => a == b,
            (Self::Num(a), Self::Num(b)) => a == b,
            (Self::Str(a), Self::Str(b)) => a == b,
            (Self::Obj(a), Self::Obj(b)) => Rc::ptr_eq(a, b),
            _ => false,
        }
    }
}

impl Default for JsValue {
    fn default() -> Self {
        Self::Undefined
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> Self {
        Self::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> Self {
        Self::Str(s)
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> Self {
        Self::Str(s.clone())
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> Self {
        Self::Bool(b)
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(x: $t) -> Self {
                Self::Num(x as f64)
            }
        }
    )*};
}
numbers!(f32 f64 i8 i16 i32 u8 u16 u32 usize isize);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> Self {
        o.map_or(Self::Undefined, Into::into)
    }
}

/// A thrown JavaScript error.
#[derive(Clone, Debug)]
pub struct JsError {
    message: String,
}
impl JsError {
    pub fn new(message: &str) -> Self {
        Self { message: message.to_string() }
    }
    pub fn message(&self) -> &str {
        &self.message
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> Self {
        Self::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> Self {
        Self::Str(e.message)
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self>
    where
        Self: Sized,
    {
        if self.has_type::<T>() { Ok(self.unchecked_into()) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() { Some(self.unchecked_ref()) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T
    where
        Self: Sized,
    {
        T::unchecked_from_js(self.into())
    }
    fn unchecked_ref<T: JsCast>(&self) -> &T {
        T::unchecked_from_js_ref(self.as_ref())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> Self {
        val
    }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self {
        val
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{s}")
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T {
        self.expect_throw("unwrap_throw")
    }
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}
impl<T, E: fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn expect_throw(self, message: &str) -> T {
        self.expect(message)
    }
}

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt, wasm_bindgen};
}
