//! Serializer that keeps the order and kind of everything it is given.
use schemars::Schema;
use serde::ser::*;
pub enum Doc { Null, Bool(bool), I(i64), U(u64), I128(i128), U128(u128), F(f64), Str(String), Bytes, None, Seq(Option<usize>, Vec<Doc>), Map(Option<usize>, Vec<(Doc, Doc)>), Raw(u8), Other(&'static str) }
#[derive(Debug)]
pub struct DocErr;
impl std::fmt::Display for DocErr { fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { Ok(()) } }
impl std::error::Error for DocErr {}
impl serde::ser::Error for DocErr { fn custom<T: std::fmt::Display>(_: T) -> Self { DocErr } }
pub struct DocSer;
pub struct SeqSer(Option<usize>, Vec<Doc>);
pub struct MapSer(Option<usize>, Vec<(Doc, Doc)>, Option<Doc>);
impl Serializer for DocSer {
    type Ok = Doc; type Error = DocErr;
    type SerializeSeq = SeqSer; type SerializeTuple = SeqSer; type SerializeTupleStruct = SeqSer; type SerializeTupleVariant = Impossible<Doc, DocErr>;
    type SerializeMap = MapSer; type SerializeStruct = Impossible<Doc, DocErr>; type SerializeStructVariant = Impossible<Doc, DocErr>;
    fn serialize_bool(self, v: bool) -> Result<Doc, DocErr> { Ok(Doc::Bool(v)) }
    fn serialize_i8(self, v: i8) -> Result<Doc, DocErr> { Ok(Doc::I(v.into())) }
    fn serialize_i16(self, v: i16) -> Result<Doc, DocErr> { Ok(Doc::I(v.into())) }
    fn serialize_i32(self, v: i32) -> Result<Doc, DocErr> { Ok(Doc::I(v.into())) }
    fn serialize_i64(self, v: i64) -> Result<Doc, DocErr> { Ok(Doc::I(v)) }
    fn serialize_u8(self, v: u8) -> Result<Doc, DocErr> { Ok(Doc::U(v.into())) }
    fn serialize_u16(self, v: u16) -> Result<Doc, DocErr> { Ok(Doc::U(v.into())) }
    fn serialize_u32(self, v: u32) -> Result<Doc, DocErr> { Ok(Doc::U(v.into())) }
    fn serialize_u64(self, v: u64) -> Result<Doc, DocErr> { Ok(Doc::U(v)) }
    fn serialize_f32(self, v: f32) -> Result<Doc, DocErr> { Ok(Doc::F(v.into())) }
    fn serialize_f64(self, v: f64) -> Result<Doc, DocErr> { Ok(Doc::F(v)) }
    fn serialize_char(self, v: char) -> Result<Doc, DocErr> { let mut s = String::new(); s.push(v); Ok(Doc::Str(s)) }
    fn serialize_str(self, v: &str) -> Result<Doc, DocErr> { Ok(Doc::Str(v.to_owned())) }
    fn serialize_bytes(self, _: &[u8]) -> Result<Doc, DocErr> { Ok(Doc::Bytes) }
    fn serialize_none(self) -> Result<Doc, DocErr> { Ok(Doc::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<Doc, DocErr> { v.serialize(self) }
    fn serialize_unit(self) -> Result<Doc, DocErr> { Ok(Doc::Null) }
    fn serialize_unit_struct(self, _: &'static str) -> Result<Doc, DocErr> { Ok(Doc::Other("unit struct")) }
    fn serialize_unit_variant(self, _: &'static str, _: u32, v: &'static str) -> Result<Doc, DocErr> { Ok(Doc::Other(v)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> Result<Doc, DocErr> { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Doc, DocErr> { Ok(Doc::Other("newtype variant")) }
    fn serialize_seq(self, n: Option<usize>) -> Result<SeqSer, DocErr> { Ok(SeqSer(n, Vec::new())) }
    fn serialize_tuple(self, n: usize) -> Result<SeqSer, DocErr> { Ok(SeqSer(Some(n), Vec::new())) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<SeqSer, DocErr> { Ok(SeqSer(Some(n), Vec::new())) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Doc, DocErr>, DocErr> { Err(DocErr) }
    fn serialize_map(self, n: Option<usize>) -> Result<MapSer, DocErr> { Ok(MapSer(n, Vec::new(), None)) }
    fn serialize_struct(self, _: &'static str, _: usize) -> Result<Impossible<Doc, DocErr>, DocErr> { Err(DocErr) }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Impossible<Doc, DocErr>, DocErr> { Err(DocErr) }
}
impl SerializeSeq for SeqSer {
    type Ok = Doc; type Error = DocErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), DocErr> { let d = v.serialize(DocSer)?; self.1.push(d); Ok(()) }
    fn end(self) -> Result<Doc, DocErr> { Ok(Doc::Seq(self.0, self.1)) }
}
impl SerializeTuple for SeqSer {
    type Ok = Doc; type Error = DocErr;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), DocErr> { let d = v.serialize(DocSer)?; self.1.push(d); Ok(()) }
    fn end(self) -> Result<Doc, DocErr> { Ok(Doc::Seq(self.0, self.1)) }
}
impl SerializeTupleStruct for SeqSer {
    type Ok = Doc; type Error = DocErr;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), DocErr> { let d = v.serialize(DocSer)?; self.1.push(d); Ok(()) }
    fn end(self) -> Result<Doc, DocErr> { Ok(Doc::Seq(self.0, self.1)) }
}
impl SerializeMap for MapSer {
    type Ok = Doc; type Error = DocErr;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, k: &T) -> Result<(), DocErr> { self.2 = Some(k.serialize(DocSer)?); Ok(()) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), DocErr> {
        let d = v.serialize(DocSer)?;
        match self.2.take() { Some(k) => { self.1.push((k, d)); Ok(()) } None => Err(DocErr) }
    }
    fn end(self) -> Result<Doc, DocErr> { Ok(Doc::Map(self.0, self.1)) }
}
pub fn ser_schema(s: &Schema) -> Result<Doc, DocErr> { s.serialize(DocSer) }
pub fn ser_value(s: &Schema) -> Result<serde_json::Value, serde_json::Error> { s.serialize(serde_json::value::Serializer) }
