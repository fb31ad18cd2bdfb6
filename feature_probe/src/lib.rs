//! Interface witnesses: type-checked under every feature combination of C43.
#![no_std]
#![allow(dead_code, unused_imports, clippy::all)]
extern crate alloc;
#[cfg(feature = "std")]
extern crate std;
use alloc::{borrow::{Cow, ToOwned}, boxed::Box, string::String, vec::Vec};
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: ?Sized + JsonSchema>() {}
macro_rules! is { ($($t:ty),* $(,)?) => { $(is::<$t>();)* } }

struct Own;
impl JsonSchema for Own {
    fn schema_name() -> Cow<'static, str> { Cow::Borrowed("Own") }
    fn json_schema(g: &mut SchemaGenerator) -> Schema { g.subschema_for::<u8>() }
}
struct Own2;
impl JsonSchema for Own2 {
    fn schema_name() -> Cow<'static, str> { Cow::Borrowed("Own2") }
    fn schema_id() -> Cow<'static, str> { Cow::Borrowed("x::Own2") }
    fn inline_schema() -> bool { true }
    fn json_schema(_: &mut SchemaGenerator) -> Schema { schemars::json_schema!({ "type": "null", "x": [1, 2.5, null, true] }) }
}

pub fn base_primitives() {
    is!(bool, char, str, String, (), f32, f64, i8, i16, i32, i64, i128, isize, u8, u16, u32, u64, u128, usize, Own, Own2, schemars::Schema);
}
pub fn base_nonzero() {
    use core::num::*;
    is!(NonZeroI8, NonZeroI16, NonZeroI32, NonZeroI64, NonZeroI128, NonZeroIsize, NonZeroU8, NonZeroU16, NonZeroU32, NonZeroU64, NonZeroU128, NonZeroUsize, Wrapping<u8>, core::cmp::Reverse<u8>);
}
pub fn base_atomic() {
    use core::sync::atomic::*;
    is!(AtomicBool, AtomicI8, AtomicI16, AtomicI32, AtomicI64, AtomicIsize, AtomicU8, AtomicU16, AtomicU32, AtomicU64, AtomicUsize);
}
pub fn base_core() {
    use core::ops::*;
    is!(Option<u8>, Result<u8, String>, Bound<u8>, Range<u8>, RangeInclusive<u8>, core::marker::PhantomData<core::fmt::Error>, core::fmt::Arguments<'static>, core::time::Duration);
}
pub fn base_collections() {
    use alloc::collections::*;
    is!(Vec<u8>, [u8], VecDeque<u8>, LinkedList<u8>, BinaryHeap<u8>, BTreeSet<u8>, BTreeMap<String, u8>, BTreeMap<u8, Vec<u8>>);
}
pub fn base_arrays() {
    struct No;
    is!([No; 0], [u8; 1], [u8; 2], [u8; 3], [u8; 4], [u8; 5], [u8; 6], [u8; 7], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 16],
        [u8; 17], [u8; 18], [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], [u8; 32]);
}
pub fn base_tuples() {
    is!((u8,), (u8, u8), (u8, u8, u8), (u8, u8, u8, u8), (u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8));
}
pub fn base_wrappers() {
    use alloc::{rc, sync};
    use core::cell::*;
    is!(&'static str, &'static mut u8, Box<str>, rc::Rc<[u8]>, rc::Weak<u8>, sync::Arc<u8>, sync::Weak<u8>, Cell<u8>, RefCell<u8>, Cow<'static, str>, &'static [u8]);
}
pub fn base_serde_json() {
    use serde_json::*;
    is!(Value, Number, Map<String, Value>);
}
pub fn base_generator() {
    use schemars::generate::*;
    let s = SchemaSettings::draft07();
    let _ = (SchemaSettings::draft2019_09(), SchemaSettings::draft2020_12(), SchemaSettings::openapi3(), SchemaSettings::default());
    let mut s: SchemaSettings = s.with(|s| { s.definitions_path = "/x".into(); s.meta_schema = None; s.inline_subschemas = true; s.transforms.clear(); s.contract = Contract::Serialize; s.untagged_enum_variant_titles = false; })
        .with_transform(|_: &mut Schema| ()).for_serialize().for_deserialize().clone();
    let _: &mut Vec<Box<dyn GenTransform>> = &mut s.transforms;
    let mut g: SchemaGenerator = s.clone().into_generator();
    let _ = (SchemaGenerator::new(s.clone()), SchemaGenerator::default(), g.clone());
    let _: &SchemaSettings = g.settings();
    let _: Schema = g.subschema_for::<u8>();
    let _: &serde_json::Map<String, serde_json::Value> = g.definitions();
    let _: &mut serde_json::Map<String, serde_json::Value> = g.definitions_mut();
    let _: serde_json::Map<String, serde_json::Value> = g.take_definitions(true);
    for t in g.transforms_mut() { let _: &mut dyn GenTransform = t; }
    let _: Schema = g.root_schema_for::<str>();
    let _: Schema = g.clone().into_root_schema_for::<str>();
    let _: Result<Schema, serde_json::Error> = g.root_schema_for_value(&1u8);
    let _: Result<Schema, serde_json::Error> = g.clone().into_root_schema_for_value(&1u8);
    let c: &Contract = g.contract();
    let _: (bool, bool) = (c.is_serialize(), c.is_deserialize());
    let _: (Schema, Schema) = (schemars::schema_for!(u8), schemars::schema_for_value!(1u8));
    fn dbg<T: core::fmt::Debug + Clone>() {}
    dbg::<SchemaSettings>(); dbg::<SchemaGenerator>(); dbg::<Contract>(); dbg::<Schema>();
}
pub fn base_gen_transform(t: &mut dyn schemars::generate::GenTransform, b: Box<dyn schemars::generate::GenTransform>) {
    use schemars::transform::RemoveRefSiblings as R;
    let _: bool = t.is::<R>();
    let _: Option<&R> = t.downcast_ref::<R>();
    let _: Option<&mut R> = t.downcast_mut::<R>();
    let _: Result<Box<R>, Box<dyn schemars::generate::GenTransform>> = b.downcast::<R>();
}
pub fn base_schema(mut s: Schema) {
    use serde_json::{Map, Value};
    let _ = (Schema::new_ref(String::new()), Schema::default());
    let _: (&Value, Option<bool>, Option<&Map<String, Value>>) = (s.as_value(), s.as_bool(), s.as_object());
    let _: Option<&mut Map<String, Value>> = s.as_object_mut();
    let _: &mut Map<String, Value> = s.ensure_object();
    let _: Option<Value> = s.insert("a".into(), Value::Null);
    let _: Option<&Value> = s.get("a");
    let _: Option<&mut Value> = s.get_mut("a");
    let _: Option<&Value> = s.pointer("/a");
    let _: Option<&mut Value> = s.pointer_mut("/a");
    let _: Option<Value> = s.remove("a");
    let _: Value = s.clone().to_value();
    let _: Value = s.clone().into();
    let _: Schema = true.into();
    let _: Schema = Map::new().into();
    let mut v = Value::Null;
    let _: Result<Schema, serde_json::Error> = v.clone().try_into();
    let _: Result<&Schema, serde_json::Error> = (&v).try_into();
    let _: Result<&mut Schema, serde_json::Error> = (&mut v).try_into();
    let _: (bool, bool) = (s == s.clone(), s == true);
    fn ser<T: serde::Serialize + for<'a> serde::Deserialize<'a> + Send + Sync>() {}
    ser::<Schema>();
}
pub fn base_transforms(s: &mut Schema) {
    use schemars::transform::*;
    struct My;
    impl Transform for My { fn transform(&mut self, s: &mut Schema) { transform_subschemas(self, s); } }
    My.transform(s);
    RecursiveTransform(|_: &mut Schema| ()).transform(s);
    let mut r = ReplaceBoolSchemas::default(); r.skip_additional_properties = true; r.transform(s);
    RemoveRefSiblings::default().transform(s);
    SetSingleExample::default().transform(s);
    ReplaceConstValue::default().transform(s);
    ReplacePrefixItems::default().transform(s);
    let mut a = AddNullable::default(); a.remove_null_type = true; a.add_const_null = true; a.transform(s);
    ReplaceUnevaluatedProperties::default().transform(s);
    let mut f = RestrictFormats::default(); f.infer_from_meta_schema = false; f.allowed_formats = [Cow::Borrowed("x")].into_iter().collect(); f.transform(s);
    fn tr<T: Transform>() {}
    tr::<fn(&mut Schema)>();
}
pub fn base_consts() {
    use schemars::consts::meta_schemas::*;
    let _: [&str; 4] = [DRAFT07, DRAFT2019_09, DRAFT2020_12, OPENAPI3];
}
#[cfg(feature = "std")]
pub fn std_impls() {
    use std::{collections::*, ffi::*, net::*, path::*, sync::*, time::*};
    struct H;
    is!(HashMap<String, u8>, HashSet<u8>, HashMap<u8, u8, H>, HashSet<u8, H>, OsString, OsStr, CString, CStr, Path, PathBuf, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddr, SocketAddrV4, SocketAddrV6, Mutex<u8>, RwLock<u8>, SystemTime);
}
#[cfg(feature = "derive")]
pub mod derive_macros {
    use schemars::{JsonSchema, JsonSchema_repr};
    #[derive(JsonSchema)]
    pub struct S<T> { /// a
        #[schemars(length(min = 1), extend("x" = 1), example = 1)] pub a: alloc::string::String, #[schemars(range(max = 1))] pub b: u8, pub c: Option<T>, #[schemars(flatten)] pub d: F, #[schemars(default)] pub e: bool, #[schemars(inner(email))] pub f: alloc::vec::Vec<alloc::string::String>, #[schemars(contains("x"))] pub g: alloc::string::String }
    #[derive(JsonSchema)]
    pub struct F { pub z: u8 }
    #[derive(JsonSchema)]
    pub enum E { A, B(u8), C { x: u8 }, D(u8, u8) }
    #[derive(JsonSchema)]
    #[schemars(tag = "t")]
    pub enum I { A, B(F), C { x: u8 } }
    #[derive(JsonSchema)]
    #[schemars(tag = "t", content = "c")]
    pub enum A { A, B(F), C { x: u8 } }
    #[derive(JsonSchema)]
    #[schemars(untagged)]
    pub enum U { A, B(F), C { x: u8 } }
    #[derive(JsonSchema_repr)]
    #[repr(u8)]
    pub enum R { A = 1, B }
    pub fn derive_impls() { use super::is; is!(S<u8>, E, I, A, U, R); }
}
#[cfg(feature = "raw_value")]
pub fn raw_value_impls() { is!(serde_json::value::RawValue); }
#[cfg(feature = "arrayvec07")]
pub fn arrayvec07_impls() { is!(arrayvec07::ArrayVec<u8, 3>, arrayvec07::ArrayString<3>); }
#[cfg(feature = "bigdecimal04")]
pub fn bigdecimal04_impls() { is!(bigdecimal04::BigDecimal); }
#[cfg(feature = "bytes1")]
pub fn bytes1_impls() { is!(bytes1::Bytes, bytes1::BytesMut); }
#[cfg(feature = "chrono04")]
pub fn chrono04_impls() { use chrono04::*; is!(Weekday, TimeDelta, NaiveDate, NaiveDateTime, NaiveTime, DateTime<Utc>, DateTime<FixedOffset>); }
#[cfg(feature = "either1")]
pub fn either1_impls() { is!(either1::Either<u8, String>); }
#[cfg(feature = "indexmap2")]
pub fn indexmap2_impls() { struct H; is!(indexmap2::IndexMap<String, u8, H>, indexmap2::IndexSet<u8, H>); }
#[cfg(feature = "jiff02")]
pub fn jiff02_impls() { use jiff02::*; is!(SignedDuration, Span, Timestamp, Zoned, civil::Date, civil::Time, civil::DateTime); }
#[cfg(feature = "rust_decimal1")]
pub fn rust_decimal1_impls() { is!(rust_decimal1::Decimal); }
#[cfg(feature = "semver1")]
pub fn semver1_impls() { is!(semver1::Version); }
#[cfg(feature = "smallvec1")]
pub fn smallvec1_impls() { is!(smallvec1::SmallVec<[u8; 2]>); }
#[cfg(feature = "smol_str02")]
pub fn smol_str02_impls() { is!(smol_str02::SmolStr); }
#[cfg(feature = "smol_str03")]
pub fn smol_str03_impls() { is!(smol_str03::SmolStr); }
#[cfg(feature = "url2")]
pub fn url2_impls() { is!(url2::Url); }
#[cfg(feature = "uuid1")]
pub fn uuid1_impls() { is!(uuid1::Uuid); }
