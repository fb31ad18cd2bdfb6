//! Types and functions that the generated witnesses refer to. Their trait methods are replaced by
//! documents in sa/dsupport.py; the functions are interpreted.
pub use crate::markers::{A, B, C, D};
use schemars::{json_schema, JsonSchema, Schema, SchemaGenerator};
use std::borrow::Cow;
macro_rules! opaque {
    ($($n:ident)*) => { $( opaque!(@ $n #[derive(Clone, Copy, PartialEq, Eq, Debug, Default, serde::Serialize)]); )* };
    (@ $n:ident $(#[$m:meta])*) => {
        $(#[$m])*
        pub struct $n;
        impl JsonSchema for $n {
            fn inline_schema() -> bool { unimplemented!() }
            fn schema_name() -> Cow<'static, str> { unimplemented!() }
            fn schema_id() -> Cow<'static, str> { unimplemented!() }
            fn json_schema(_: &mut SchemaGenerator) -> Schema { unimplemented!() }
            fn _schemars_private_non_optional_json_schema(_: &mut SchemaGenerator) -> Schema { unimplemented!() }
            fn _schemars_private_is_option() -> bool { unimplemented!() }
        }
    };
}
opaque!(TT FF Inner1 Inner2 InnerO Deny1 Uneval1 Nested1 NestedDeep UnitS Refd MapS InlineS Req1 PatS Enum1 Enum2 UnEnum UnitEnum TagEnum MixEnum MultiT Constrained TupS);
opaque!(NoUnit NoMix SomeMix OneUn OneEx OneTag OneUnit NullUn Opt2 Mal);
opaque!(M0 M1 M2 M3 M4 M5 M6 M7 M8 M9 M10 M11 M12 M13 M14 M15 M16 M17 M18 M19 M20 M21 M22 M23 M24 M25 M26 M27 M28 M29 M30 M31 M32 M33 M34 M35 M36 M37 M38 M39);
opaque!(@ NoSer #[derive(Default)]);
opaque!(@ FailSer #[derive(Default)]);
impl serde::Serialize for FailSer {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> { Err(serde::ser::Error::custom("no")) }
}
#[derive(Default)]
pub struct NoSchema;
pub struct RemoteT { pub a: A, pub b: B }
pub fn dflt_a() -> A { A }
pub fn dflt_oa() -> Option<A> { None }
pub fn dflt_d() -> D { D }
pub fn dflt_u() -> u32 { 7 }
pub fn dflt_s() -> String { "ds".to_owned() }
pub fn dflt_b() -> bool { true }
pub fn dflt_ou() -> Option<u32> { Some(5) }
pub fn dflt_ns() -> NoSer { NoSer }
pub fn dflt_fs() -> FailSer { FailSer }
pub fn dflt_v() -> Vec<u32> { vec![1, 2] }
pub fn sif<T>(_: &T) -> bool { false }
pub fn sif_u(x: &u32) -> bool { *x == 0 }
pub fn sif_u_true(_: &u32) -> bool { true }
pub fn sw1(_: &mut SchemaGenerator) -> Schema { json_schema!({ "type": "number", "x-sw1": true }) }
pub fn sw_true(_: &mut SchemaGenerator) -> Schema { json_schema!(true) }
pub fn sw_obj(_: &mut SchemaGenerator) -> Schema { json_schema!({ "type": "object", "properties": { "so": { "type": "null" } }, "required": ["so"] }) }
pub fn tr1(s: &mut Schema) { s.insert("x-tr1".to_owned(), true.into()); }
pub fn tr2(s: &mut Schema) { let b = s.get("x-tr1").is_some(); s.insert("x-tr2".to_owned(), b.into()); }
pub fn mk_ex() -> u32 { 9 }
pub fn mk_w() -> crate::gen::W32_mk { crate::gen::W32_mk { a: A, b: None } }
pub fn mk_w37() -> crate::gen::W37_path { crate::gen::W37_path { f0: 21, f1: "path".to_owned(), f2: 31 } }
impl Default for crate::gen::W37_own {
    fn default() -> Self { crate::gen::W37_own { f0: 11, f1: "own".to_owned(), f2: 12, f3: 13 } }
}
pub fn ser_str<S: serde::Serializer>(_: &u32, s: S) -> Result<S::Ok, S::Error> { s.serialize_str("S") }
pub fn ser_ns<S: serde::Serializer>(_: &NoSer, s: S) -> Result<S::Ok, S::Error> { s.serialize_bool(true) }
pub const TITLE_C: &str = "Title const";
pub const DESC_C: &str = "Desc const";
pub const TXT_C: &str = "t.x^t";
pub const MIN_C: u32 = 2;
pub const MAX_C: u32 = 9;
pub const RE_C: &str = "^re$";
pub mod sup {
    use super::*;
    pub fn sw2(_: &mut SchemaGenerator) -> Schema { json_schema!({ "type": "string", "x-sw2": true }) }
    pub struct RemoteT { pub a: A, pub b: B }
}
pub fn sub_of<T: JsonSchema + ?Sized>(g: &mut SchemaGenerator) -> Schema { g.subschema_for::<T>() }
pub trait Tr { type Assoc: JsonSchema; }
opaque!(Ta Tb Ka Kb);
impl Tr for Ta { type Assoc = A; }
impl Tr for Tb { type Assoc = B; }
pub struct Na;
pub struct Nb;
impl Tr for Na { type Assoc = A; }
impl Tr for Nb { type Assoc = B; }
pub trait Kt { const K: u32; }
impl Kt for Ka { const K: u32 = 1; }
impl Kt for Kb { const K: u32 = 2; }
/// a type whose schema depends on the types in a type expression of any form
pub struct Ty<X: ?Sized>(pub std::marker::PhantomData<X>);
pub trait Sub { type S: JsonSchema; }
impl<X: ?Sized + Sub> JsonSchema for Ty<X> {
    fn schema_name() -> Cow<'static, str> { Cow::Owned(format!("Ty_{}", X::S::schema_name())) }
    fn schema_id() -> Cow<'static, str> { Cow::Owned(format!("Ty<{}>", X::S::schema_id())) }
    fn json_schema(g: &mut SchemaGenerator) -> Schema { g.subschema_for::<X::S>() }
}
pub trait Tq<T> {}
pub trait Tr2 { type O; }
impl<T: JsonSchema, U: JsonSchema> Sub for fn(T) -> U { type S = (T, U); }
impl<T: JsonSchema> Sub for *const T { type S = T; }
impl<T: JsonSchema> Sub for *mut T { type S = T; }
impl<T: JsonSchema> Sub for dyn Tq<T> { type S = T; }
impl<T: JsonSchema> Sub for dyn Tr2<O = T> { type S = T; }
impl<T: JsonSchema, U: JsonSchema> Sub for dyn Fn(T) -> U { type S = (T, U); }
impl<T: JsonSchema> Sub for [T] { type S = T; }
pub trait Is { type T: JsonSchema; }
impl<T: JsonSchema> Is for (T,) { type T = T; }
