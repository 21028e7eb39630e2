//! Native stand-in for serde-wasm-bindgen's serializer. Same mapping as version 0.6.5; every step
//! in which a value reaches the host passes through `wasm_bindgen::host`, where it can fail.
use serde::ser::{self, Serialize};
use wasm_bindgen::host::{op, Act};
use wasm_bindgen::{JsValue, Repr};

#[derive(Debug, Clone)]
pub struct Error(JsValue);
impl Error {
    pub fn new<T: std::fmt::Display>(m: T) -> Self {
        Error(JsValue { repr: Repr::Error(m.to_string()) })
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}", self.0)
    }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: std::fmt::Display>(m: T) -> Self {
        Error::new(m)
    }
}
impl From<Error> for JsValue {
    fn from(e: Error) -> JsValue {
        e.0
    }
}
impl From<JsValue> for Error {
    fn from(v: JsValue) -> Error {
        Error(v)
    }
}
pub type Result<T = JsValue> = std::result::Result<T, Error>;

fn host(name: &'static str) -> Result<()> {
    hosts(name, 0)
}
fn hosts(name: &'static str, size: usize) -> Result<()> {
    match op(name, size) {
        Act::Go => Ok(()),
        Act::Fail => Err(Error::new("the host refused this value")),
    }
}

#[derive(Default, Clone, Debug)]
pub struct Serializer {
    missing_as_null: bool,
    maps_as_objects: bool,
    bigints: bool,
}
impl Serializer {
    pub const fn new() -> Self {
        Self { missing_as_null: false, maps_as_objects: false, bigints: false }
    }
    pub const fn json_compatible() -> Self {
        Self { missing_as_null: true, maps_as_objects: true, bigints: false }
    }
    pub const fn serialize_missing_as_null(mut self, v: bool) -> Self {
        self.missing_as_null = v;
        self
    }
    pub const fn serialize_maps_as_objects(mut self, v: bool) -> Self {
        self.maps_as_objects = v;
        self
    }
    pub const fn serialize_large_number_types_as_bigints(mut self, v: bool) -> Self {
        self.bigints = v;
        self
    }
    pub const fn serialize_bytes_as_arrays(self, _v: bool) -> Self {
        self
    }
    fn num(&self, v: f64) -> Result {
        host("number")?;
        Ok(JsValue { repr: Repr::Num(v) })
    }
    fn str(&self, v: &str) -> Result {
        hosts("string", v.len())?;
        Ok(JsValue { repr: Repr::Str(v.to_string()) })
    }
}

pub fn to_value<T: Serialize + ?Sized>(v: &T) -> Result {
    v.serialize(&Serializer::new())
}

const MAX_SAFE: u64 = (1 << 53) - 1;

impl<'s> ser::Serializer for &'s Serializer {
    type Ok = JsValue;
    type Error = Error;
    type SerializeSeq = Seq<'s>;
    type SerializeTuple = Seq<'s>;
    type SerializeTupleStruct = Seq<'s>;
    type SerializeTupleVariant = Variant<Seq<'s>>;
    type SerializeMap = Map<'s>;
    type SerializeStruct = Obj<'s>;
    type SerializeStructVariant = Variant<Obj<'s>>;

    fn serialize_bool(self, v: bool) -> Result {
        Ok(JsValue::from_bool(v))
    }
    fn serialize_i8(self, v: i8) -> Result {
        self.num(v as f64)
    }
    fn serialize_i16(self, v: i16) -> Result {
        self.num(v as f64)
    }
    fn serialize_i32(self, v: i32) -> Result {
        self.num(v as f64)
    }
    fn serialize_u8(self, v: u8) -> Result {
        self.num(v as f64)
    }
    fn serialize_u16(self, v: u16) -> Result {
        self.num(v as f64)
    }
    fn serialize_u32(self, v: u32) -> Result {
        self.num(v as f64)
    }
    fn serialize_f32(self, v: f32) -> Result {
        self.num(v as f64)
    }
    fn serialize_f64(self, v: f64) -> Result {
        self.num(v)
    }
    fn serialize_i64(self, v: i64) -> Result {
        if self.bigints {
            host("bigint")?;
            return Ok(JsValue { repr: Repr::BigInt(v as i128) });
        }
        if v.unsigned_abs() <= MAX_SAFE {
            self.num(v as f64)
        } else {
            Err(Error::new(format!("{} can't be represented as a JavaScript number", v)))
        }
    }
    fn serialize_u64(self, v: u64) -> Result {
        // On wasm32 the largest usize is 2^32-1; natively it is 2^64-1. Both are shown to the
        // simulator as the 32-bit one, which is what the shipped module hands out.
        let v = if v == u64::MAX { u32::MAX as u64 } else { v };
        if self.bigints {
            host("bigint")?;
            return Ok(JsValue { repr: Repr::BigInt(v as i128) });
        }
        if v <= MAX_SAFE {
            self.num(v as f64)
        } else {
            Err(Error::new(format!("{} can't be represented as a JavaScript number", v)))
        }
    }
    fn serialize_i128(self, v: i128) -> Result {
        Ok(JsValue { repr: Repr::BigInt(v) })
    }
    fn serialize_u128(self, v: u128) -> Result {
        Ok(JsValue { repr: Repr::BigInt(v as i128) })
    }
    fn serialize_char(self, v: char) -> Result {
        self.str(v.encode_utf8(&mut [0; 4]))
    }
    fn serialize_str(self, v: &str) -> Result {
        self.str(v)
    }
    fn serialize_bytes(self, v: &[u8]) -> Result {
        host("array")?;
        Ok(JsValue { repr: Repr::Array(v.iter().map(|b| JsValue::from_f64(*b as f64)).collect()) })
    }
    fn serialize_none(self) -> Result {
        self.serialize_unit()
    }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result {
        v.serialize(self)
    }
    fn serialize_unit(self) -> Result {
        Ok(if self.missing_as_null { JsValue::NULL } else { JsValue::UNDEFINED })
    }
    fn serialize_unit_struct(self, _n: &'static str) -> Result {
        self.serialize_unit()
    }
    fn serialize_unit_variant(self, _n: &'static str, _i: u32, variant: &'static str) -> Result {
        self.str(variant)
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _n: &'static str, v: &T) -> Result {
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(
        self,
        _n: &'static str,
        _i: u32,
        variant: &'static str,
        v: &T,
    ) -> Result {
        let inner = v.serialize(self)?;
        host("object")?;
        host("set")?;
        Ok(JsValue { repr: Repr::Object(vec![(variant.to_string(), inner)]) })
    }
    fn serialize_seq(self, _len: Option<usize>) -> Result<Seq<'s>> {
        host("array")?;
        Ok(Seq { s: self, v: Vec::new() })
    }
    fn serialize_tuple(self, len: usize) -> Result<Seq<'s>> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_struct(self, _n: &'static str, len: usize) -> Result<Seq<'s>> {
        self.serialize_seq(Some(len))
    }
    fn serialize_tuple_variant(
        self,
        _n: &'static str,
        _i: u32,
        variant: &'static str,
        len: usize,
    ) -> Result<Variant<Seq<'s>>> {
        Ok(Variant { name: variant, inner: self.serialize_seq(Some(len))? })
    }
    fn serialize_map(self, _len: Option<usize>) -> Result<Map<'s>> {
        host("object")?;
        Ok(Map { s: self, v: Vec::new(), key: None })
    }
    fn serialize_struct(self, _n: &'static str, _len: usize) -> Result<Obj<'s>> {
        host("object")?;
        Ok(Obj { s: self, v: Vec::new() })
    }
    fn serialize_struct_variant(
        self,
        n: &'static str,
        _i: u32,
        variant: &'static str,
        len: usize,
    ) -> Result<Variant<Obj<'s>>> {
        Ok(Variant { name: variant, inner: self.serialize_struct(n, len)? })
    }
}

pub struct Seq<'s> {
    s: &'s Serializer,
    v: Vec<JsValue>,
}
impl Seq<'_> {
    fn push<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        let x = v.serialize(self.s)?;
        host("set")?;
        self.v.push(x);
        Ok(())
    }
    fn done(self) -> Result {
        Ok(JsValue { repr: Repr::Array(self.v) })
    }
}
impl ser::SerializeSeq for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
impl ser::SerializeTuple for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
impl ser::SerializeTupleStruct for Seq<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.push(v)
    }
    fn end(self) -> Result {
        self.done()
    }
}
pub struct Variant<I> {
    name: &'static str,
    inner: I,
}
impl<I> Variant<I> {
    fn wrap(name: &'static str, v: JsValue) -> Result {
        host("object")?;
        host("set")?;
        Ok(JsValue { repr: Repr::Object(vec![(name.to_string(), v)]) })
    }
}
impl<'s> ser::SerializeTupleVariant for Variant<Seq<'s>> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        self.inner.push(v)
    }
    fn end(self) -> Result {
        let v = self.inner.done()?;
        Self::wrap(self.name, v)
    }
}
impl<'s> ser::SerializeStructVariant for Variant<Obj<'s>> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> {
        ser::SerializeStruct::serialize_field(&mut self.inner, k, v)
    }
    fn end(self) -> Result {
        let v = ser::SerializeStruct::end(self.inner)?;
        Self::wrap(self.name, v)
    }
}
pub struct Map<'s> {
    s: &'s Serializer,
    v: Vec<(String, JsValue)>,
    key: Option<JsValue>,
}
fn put(v: &mut Vec<(String, JsValue)>, k: String, x: JsValue) {
    if let Some(e) = v.iter_mut().find(|e| e.0 == k) {
        e.1 = x;
    } else {
        v.push((k, x));
    }
}
impl ser::SerializeMap for Map<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<()> {
        self.key = Some(k.serialize(self.s)?);
        Ok(())
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<()> {
        let x = v.serialize(self.s)?;
        let k = match self.key.take().map(|k| k.repr) {
            Some(Repr::Str(s)) => s,
            Some(other) if !self.s.maps_as_objects => format!("{:?}", other),
            _ => return Err(Error::new("Map key is not a string and cannot be an object key")),
        };
        host("set")?;
        put(&mut self.v, k, x);
        Ok(())
    }
    fn end(self) -> Result {
        Ok(JsValue { repr: Repr::Object(self.v) })
    }
}
pub struct Obj<'s> {
    s: &'s Serializer,
    v: Vec<(String, JsValue)>,
}
impl ser::SerializeStruct for Obj<'_> {
    type Ok = JsValue;
    type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> Result<()> {
        let x = v.serialize(self.s)?;
        host("string")?;
        host("set")?;
        put(&mut self.v, k.to_string(), x);
        Ok(())
    }
    fn end(self) -> Result {
        Ok(JsValue { repr: Repr::Object(self.v) })
    }
}
