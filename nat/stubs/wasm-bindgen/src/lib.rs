//! A native stand-in for wasm-bindgen: values the library hands to its host, as a plain tree, and
//! the seam (`host`) through which the simulator sees, fails, interleaves and re-enters every step
//! in which a value is handed over.

pub mod host {
    //! The host seam.
    use std::sync::atomic::{AtomicPtr, Ordering};
    pub enum Act {
        Go,
        Fail,
    }
    static HOOK: AtomicPtr<()> = AtomicPtr::new(std::ptr::null_mut());
    pub fn set(h: fn(&'static str, usize) -> Act) {
        HOOK.store(h as *mut (), Ordering::Relaxed);
    }
    #[inline]
    pub fn op(name: &'static str, size: usize) -> Act {
        let p = HOOK.load(Ordering::Relaxed);
        if p.is_null() {
            return Act::Go;
        }
        let f: fn(&'static str, usize) -> Act = unsafe { std::mem::transmute(p) };
        f(name, size)
    }

    /// A host function the library imported is called. What it gives back is up to the environment.
    static WEATHER: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
    pub fn set_weather(n: u64) {
        WEATHER.store(n, Ordering::Relaxed);
    }
    pub fn import<T: FromHost>() -> T {
        op("import", 0);
        let n = WEATHER.load(Ordering::Relaxed);
        WEATHER.store(n.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407), Ordering::Relaxed);
        T::from_host(n >> 20)
    }
    pub trait FromHost {
        fn from_host(n: u64) -> Self;
    }
    impl FromHost for () {
        fn from_host(_: u64) {}
    }
    impl FromHost for bool {
        fn from_host(n: u64) -> bool {
            n & 1 == 1
        }
    }
    impl FromHost for String {
        fn from_host(n: u64) -> String {
            n.to_string()
        }
    }
    impl FromHost for crate::JsValue {
        fn from_host(n: u64) -> crate::JsValue {
            crate::JsValue::from_f64(n as f64)
        }
    }
    impl<T: FromHost> FromHost for Option<T> {
        fn from_host(n: u64) -> Option<T> {
            Some(T::from_host(n))
        }
    }
    impl<T: FromHost, E> FromHost for Result<T, E> {
        fn from_host(n: u64) -> Result<T, E> {
            Ok(T::from_host(n))
        }
    }
    macro_rules! fh { ($($t:ty)*) => { $(impl FromHost for $t { fn from_host(n: u64) -> $t { n as $t } })* } }
    fh!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize i64 u64);
}

#[derive(Clone, Debug, PartialEq)]
pub enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Num(f64),
    BigInt(i128),
    Str(String),
    Array(Vec<JsValue>),
    Object(Vec<(String, JsValue)>),
    Error(String),
}

#[derive(Clone, Debug, PartialEq)]
pub struct JsValue {
    pub repr: Repr,
}

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue { repr: Repr::Undefined };
    pub const NULL: JsValue = JsValue { repr: Repr::Null };
    pub const TRUE: JsValue = JsValue { repr: Repr::Bool(true) };
    pub const FALSE: JsValue = JsValue { repr: Repr::Bool(false) };
    pub fn undefined() -> JsValue {
        Self::UNDEFINED
    }
    pub fn null() -> JsValue {
        Self::NULL
    }
    #[allow(clippy::should_implement_trait)]
    pub fn from_str(s: &str) -> JsValue {
        JsValue { repr: Repr::Str(s.to_string()) }
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue { repr: Repr::Num(n) }
    }
    pub fn from_bool(b: bool) -> JsValue {
        JsValue { repr: Repr::Bool(b) }
    }
    pub fn is_null(&self) -> bool {
        self.repr == Repr::Null
    }
    pub fn is_undefined(&self) -> bool {
        self.repr == Repr::Undefined
    }
    pub fn is_string(&self) -> bool {
        matches!(self.repr, Repr::Str(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.repr, Repr::Object(_) | Repr::Array(_) | Repr::Error(_) | Repr::Null)
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.repr {
            Repr::Str(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.repr {
            Repr::Num(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.repr {
            Repr::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_truthy(&self) -> bool {
        match &self.repr {
            Repr::Undefined | Repr::Null | Repr::Bool(false) => false,
            Repr::Num(n) => *n != 0.0,
            Repr::Str(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
}
impl Default for JsValue {
    fn default() -> Self {
        Self::UNDEFINED
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue { repr: Repr::Str(s) }
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue::from_bool(b)
    }
}
macro_rules! nums { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> JsValue { JsValue::from_f64(n as f64) } })* } }
nums!(i8 u8 i16 u16 i32 u32 f32 f64 usize isize i64 u64);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> JsValue {
        o.map_or(JsValue::UNDEFINED, Into::into)
    }
}

pub struct JsError {
    value: JsValue,
}
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError { value: JsValue { repr: Repr::Error(s.to_string()) } }
    }
}
impl<E: std::error::Error> From<E> for JsError {
    fn from(e: E) -> JsError {
        JsError::new(&e.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        e.value
    }
}

pub fn throw_str(s: &str) -> ! {
    panic!("{}", s)
}
pub fn throw_val(v: JsValue) -> ! {
    panic!("{:?}", v)
}
pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
pub fn intern(s: &str) -> &str {
    s
}

pub mod prelude {
    pub use crate::{JsError, JsValue, UnwrapThrowExt};
    pub use wbmacro_stub::wasm_bindgen;
}
