// A serializer that records what it is given and a deserializer that serves a given sequence.
use serde::{de, ser, Deserialize, Serialize};

#[derive(Debug)]
pub struct E;
impl std::fmt::Display for E {
    fn fmt(&self, _f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) }
}
impl std::error::Error for E {}
impl ser::Error for E {
    fn custom<T: std::fmt::Display>(_m: T) -> Self { E }
}
impl de::Error for E {
    fn custom<T: std::fmt::Display>(_m: T) -> Self { E }
}

/// what was written: declared length, number of elements, the bytes, and whether the sequence was ended
pub struct Rec { declared: u64, n: usize, bytes: [u8; 64], ended: bool }
pub struct RecSer<'a>(&'a mut Rec);
pub struct RecSeq<'a>(&'a mut Rec);
pub struct RecElem<'a>(&'a mut Rec);

macro_rules! reject {
    ($($m:ident($($a:ident : $t:ty),*) -> $r:ty;)*) => { $(fn $m(self $(, $a: $t)*) -> Result<$r, E> { Err(E) })* };
}
macro_rules! reject_common { () => {
    type Ok = (); type Error = E;
    type SerializeTuple = ser::Impossible<(), E>; type SerializeTupleStruct = ser::Impossible<(), E>;
    type SerializeTupleVariant = ser::Impossible<(), E>; type SerializeMap = ser::Impossible<(), E>;
    type SerializeStruct = ser::Impossible<(), E>; type SerializeStructVariant = ser::Impossible<(), E>;
    reject! {
        serialize_bool(_v: bool) -> (); serialize_i8(_v: i8) -> (); serialize_i16(_v: i16) -> (); serialize_i32(_v: i32) -> ();
        serialize_i64(_v: i64) -> (); serialize_u16(_v: u16) -> (); serialize_u32(_v: u32) -> (); serialize_u64(_v: u64) -> ();
        serialize_f32(_v: f32) -> (); serialize_f64(_v: f64) -> (); serialize_char(_v: char) -> (); serialize_str(_v: &str) -> ();
        serialize_bytes(_v: &[u8]) -> (); serialize_none() -> (); serialize_unit() -> (); serialize_unit_struct(_n: &'static str) -> ();
        serialize_unit_variant(_n: &'static str, _i: u32, _v: &'static str) -> ();
        serialize_tuple(_l: usize) -> Self::SerializeTuple;
        serialize_tuple_struct(_n: &'static str, _l: usize) -> Self::SerializeTupleStruct;
        serialize_tuple_variant(_n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Self::SerializeTupleVariant;
        serialize_map(_l: Option<usize>) -> Self::SerializeMap;
        serialize_struct(_n: &'static str, _l: usize) -> Self::SerializeStruct;
        serialize_struct_variant(_n: &'static str, _i: u32, _v: &'static str, _l: usize) -> Self::SerializeStructVariant;
    }
    fn serialize_some<T: Serialize + ?Sized>(self, _v: &T) -> Result<(), E> { Err(E) }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _n: &'static str, v: &T) -> Result<(), E> { v.serialize(self) }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _n: &'static str, _i: u32, _v: &'static str, _x: &T) -> Result<(), E> { Err(E) }
} }
impl<'a> ser::Serializer for RecSer<'a> {
    type SerializeSeq = RecSeq<'a>;
    reject_common!();
    fn serialize_u8(self, _v: u8) -> Result<(), E> { Err(E) }
    fn serialize_seq(self, l: Option<usize>) -> Result<RecSeq<'a>, E> {
        self.0.declared = match l { Some(x) => x as u64, None => u64::MAX };
        Ok(RecSeq(self.0))
    }
}
impl<'a> ser::Serializer for RecElem<'a> {
    type SerializeSeq = ser::Impossible<(), E>;
    reject_common!();
    fn serialize_u8(self, v: u8) -> Result<(), E> {
        if self.0.n < 64 { self.0.bytes[self.0.n] = v; }
        self.0.n += 1;
        Ok(())
    }
    fn serialize_seq(self, _l: Option<usize>) -> Result<Self::SerializeSeq, E> { Err(E) }
}
impl<'a> ser::SerializeSeq for RecSeq<'a> {
    type Ok = (); type Error = E;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> Result<(), E> { v.serialize(RecElem(&mut *self.0)) }
    fn end(self) -> Result<(), E> { self.0.ended = true; Ok(()) }
}
/// out: ok, declared, n, ended, 8 words of bytes
unsafe fn ser(i: *const u64, o: *mut u64) {
    let mut r = Rec { declared: 0, n: 0, bytes: [0; 64], ended: false };
    let ok = get(i, 0).serialize(RecSer(&mut r)).is_ok();
    *o = ok as u64;
    *o.add(1) = r.declared;
    *o.add(2) = r.n as u64;
    *o.add(3) = r.ended as u64;
    put_bytes(o.add(4), &r.bytes);
}

/// serves `len` bytes; asking for element number `fail` returns an error
pub struct Src { data: [u8; 48], len: usize, pos: usize, fail: usize }
pub struct De<'a>(&'a mut Src);
pub struct DeSeq<'a>(&'a mut Src);
pub struct DeElem(u8);
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_seq(DeSeq(self.0)) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
impl<'de, 'a> de::SeqAccess<'de> for DeSeq<'a> {
    type Error = E;
    fn next_element_seed<T: de::DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, E> {
        let p = self.0.pos;
        if p == self.0.fail { return Err(E); }
        if p >= self.0.len { return Ok(None); }
        self.0.pos += 1;
        seed.deserialize(DeElem(self.0.data[p])).map(Some)
    }
}
impl<'de> de::Deserializer<'de> for DeElem {
    type Error = E;
    fn deserialize_any<V: de::Visitor<'de>>(self, v: V) -> Result<V::Value, E> { v.visit_u8(self.0) }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf
        option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
/// in: 6 words of data, len, fail.  out: ok, element
unsafe fn de(i: *const u64, o: *mut u64) {
    let mut s = Src { data: get_bytes::<48>(i), len: *i.add(6) as usize, pos: 0, fail: *i.add(7) as usize };
    match Scalar::deserialize(De(&mut s)) {
        Ok(x) => { *o = 1; put(o.add(1), 0, x) }
        Err(_) => { *o = 0; put(o.add(1), 0, Scalar::zero()) }
    }
}
