//! Writes an AST as bytes, leaving out the source positions.
use serde::ser::*;
use std::fmt;

#[derive(Debug)]
pub struct Never;
impl fmt::Display for Never {
    fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Never {}
impl Error for Never {
    fn custom<T: fmt::Display>(_: T) -> Self {
        Never
    }
}

pub struct D {
    pub v: Vec<u8>,
}
type R = Result<(), Never>;

pub fn shape<T: Serialize>(t: &T) -> Vec<u8> {
    let mut d = D { v: Vec::with_capacity(512) };
    if t.serialize(&mut d).is_err() {
        d.v.clear();
    }
    d.v
}
impl D {
    fn s(&mut self, s: &str) -> R {
        self.v.extend_from_slice(s.as_bytes());
        self.v.push(0);
        Ok(())
    }
}
impl<'a> Serializer for &'a mut D {
    type Ok = ();
    type Error = Never;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn serialize_bool(self, b: bool) -> R {
        self.v.push(b as u8);
        Ok(())
    }
    fn serialize_i8(self, x: i8) -> R { self.v.push(x as u8); Ok(()) }
    fn serialize_i16(self, x: i16) -> R { self.v.extend_from_slice(&x.to_le_bytes()); Ok(()) }
    fn serialize_i32(self, x: i32) -> R { self.v.extend_from_slice(&x.to_le_bytes()); Ok(()) }
    fn serialize_i64(self, x: i64) -> R { self.v.extend_from_slice(&x.to_le_bytes()); Ok(()) }
    fn serialize_u8(self, x: u8) -> R { self.v.push(x); Ok(()) }
    fn serialize_u16(self, x: u16) -> R { self.v.extend_from_slice(&x.to_le_bytes()); Ok(()) }
    fn serialize_u32(self, x: u32) -> R { self.v.extend_from_slice(&x.to_le_bytes()); Ok(()) }
    fn serialize_u64(self, x: u64) -> R { self.v.extend_from_slice(&x.to_le_bytes()); Ok(()) }
    fn serialize_f32(self, _: f32) -> R { Ok(()) }
    fn serialize_f64(self, _: f64) -> R { Ok(()) }
    fn serialize_char(self, x: char) -> R { self.v.extend_from_slice(&(x as u32).to_le_bytes()); Ok(()) }
    fn serialize_str(self, s: &str) -> R { self.s(s) }
    fn serialize_bytes(self, s: &[u8]) -> R { self.v.extend_from_slice(s); Ok(()) }
    fn serialize_none(self) -> R { self.v.push(1); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, t: &T) -> R { self.v.push(2); t.serialize(self) }
    fn serialize_unit(self) -> R { Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> R { Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, n: &'static str) -> R { self.s(n) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, t: &T) -> R { t.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, n: &'static str, t: &T) -> R { self.s(n)?; t.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Never> { self.v.push(b'['); self.v.push(n.unwrap_or(255) as u8); Ok(self) }
    fn serialize_tuple(self, _: usize) -> Result<Self, Never> { Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> Result<Self, Never> { Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, Never> { self.s(n)?; Ok(self) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, Never> { Ok(self) }
    fn serialize_struct(self, n: &'static str, _: usize) -> Result<Self, Never> { self.s(n)?; Ok(self) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, n: &'static str, _: usize) -> Result<Self, Never> { self.s(n)?; Ok(self) }
}
macro_rules! elems {
    ($($tr:ident $f:ident;)*) => { $(impl<'a> $tr for &'a mut D {
        type Ok = ();
        type Error = Never;
        fn $f<T: ?Sized + Serialize>(&mut self, t: &T) -> R { t.serialize(&mut **self) }
        fn end(self) -> R { Ok(()) }
    })* };
}
elems! { SerializeSeq serialize_element; SerializeTuple serialize_element; SerializeTupleStruct serialize_field; SerializeTupleVariant serialize_field; }
impl<'a> SerializeMap for &'a mut D {
    type Ok = ();
    type Error = Never;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, t: &T) -> R { t.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, t: &T) -> R { t.serialize(&mut **self) }
    fn end(self) -> R { Ok(()) }
}
fn field<T: ?Sized + Serialize>(d: &mut D, k: &'static str, t: &T) -> R {
    if k == "span" || k == "arguments_span" {
        return Ok(());
    }
    t.serialize(&mut *d)
}
impl<'a> SerializeStruct for &'a mut D {
    type Ok = ();
    type Error = Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> R { field(self, k, t) }
    fn end(self) -> R { Ok(()) }
}
impl<'a> SerializeStructVariant for &'a mut D {
    type Ok = ();
    type Error = Never;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, t: &T) -> R { field(self, k, t) }
    fn end(self) -> R { Ok(()) }
}
