use crate::markers::*;
use schemars::generate::*;
use schemars::transform::*;
use schemars::*;
use serde_json::{Map, Value};

// ---- generator
pub fn subschema_a(g: &mut SchemaGenerator) -> Schema { g.subschema_for::<A>() }
pub fn root_a(g: &mut SchemaGenerator) -> Schema { g.root_schema_for::<A>() }
pub fn into_root_a(g: SchemaGenerator) -> Schema { g.into_root_schema_for::<A>() }
pub fn root_val(g: &mut SchemaGenerator, v: &Val) -> Result<Schema, serde_json::Error> { g.root_schema_for_value(v) }
pub fn into_root_val(g: SchemaGenerator, v: &Val) -> Result<Schema, serde_json::Error> { g.into_root_schema_for_value(v) }
pub fn take_defs(g: &mut SchemaGenerator, t: bool) -> Map<String, Value> { g.take_definitions(t) }
pub fn gen_clone(g: &SchemaGenerator) -> SchemaGenerator { g.clone() }
pub fn gen_new(s: SchemaSettings) -> SchemaGenerator { SchemaGenerator::new(s) }
pub fn gen_default() -> SchemaGenerator { SchemaGenerator::default() }
pub fn gen_from(s: SchemaSettings) -> SchemaGenerator { SchemaGenerator::from(s) }
pub fn into_generator(s: SchemaSettings) -> SchemaGenerator { s.into_generator() }
pub fn set_default() -> SchemaSettings { SchemaSettings::default() }
pub fn set_draft07() -> SchemaSettings { SchemaSettings::draft07() }
pub fn set_draft2019() -> SchemaSettings { SchemaSettings::draft2019_09() }
pub fn set_draft2020() -> SchemaSettings { SchemaSettings::draft2020_12() }
pub fn set_openapi3() -> SchemaSettings { SchemaSettings::openapi3() }
pub fn set_ser(s: SchemaSettings) -> SchemaSettings { s.for_serialize() }
pub fn set_de(s: SchemaSettings) -> SchemaSettings { s.for_deserialize() }
pub fn set_with_transform(s: SchemaSettings) -> SchemaSettings { s.with_transform(Visit) }
pub fn gen_settings(g: &SchemaGenerator) -> &SchemaSettings { g.settings() }
pub fn gen_definitions(g: &SchemaGenerator) -> &Map<String, Value> { g.definitions() }
pub fn gen_definitions_mut(g: &mut SchemaGenerator) -> &mut Map<String, Value> { g.definitions_mut() }
pub fn gen_contract(g: &SchemaGenerator) -> &Contract { g.contract() }
pub fn contract_is_de(c: &Contract) -> bool { c.is_deserialize() }
pub fn contract_is_ser(c: &Contract) -> bool { c.is_serialize() }
// ---- Schema
pub fn sch_new_ref(s: String) -> Schema { Schema::new_ref(s) }
pub fn sch_ensure_object(s: &mut Schema) { s.ensure_object(); }
pub fn sch_insert(s: &mut Schema, k: String, v: Value) -> Option<Value> { s.insert(k, v) }
pub fn sch_remove(s: &mut Schema, k: &str) -> Option<Value> { s.remove(k) }
pub fn sch_get<'a>(s: &'a Schema, k: &str) -> Option<&'a Value> { s.get(k) }
pub fn sch_get_mut<'a>(s: &'a mut Schema, k: &str) -> Option<&'a mut Value> { s.get_mut(k) }
pub fn sch_pointer<'a>(s: &'a Schema, k: &str) -> Option<&'a Value> { s.pointer(k) }
pub fn sch_pointer_mut<'a>(s: &'a mut Schema, k: &str) -> Option<&'a mut Value> { s.pointer_mut(k) }
pub fn sch_try_from(v: Value) -> Result<Schema, serde_json::Error> { Schema::try_from(v) }
pub fn sch_try_from_ref(v: &Value) -> Result<&Schema, serde_json::Error> { <&Schema>::try_from(v) }
pub fn sch_try_from_mut(v: &mut Value) -> Result<&mut Schema, serde_json::Error> { <&mut Schema>::try_from(v) }
pub fn sch_from_map(v: Map<String, Value>) -> Schema { Schema::from(v) }
pub fn sch_from_bool(v: bool) -> Schema { Schema::from(v) }
pub fn sch_default() -> Schema { Schema::default() }
pub fn sch_to_value(s: Schema) -> Value { s.to_value() }
pub fn sch_into_value(s: Schema) -> Value { s.into() }
pub fn sch_as_value(s: &Schema) -> &Value { s.as_value() }
pub fn sch_as_bool(s: &Schema) -> Option<bool> { s.as_bool() }
pub fn sch_as_object(s: &Schema) -> Option<&Map<String, Value>> { s.as_object() }
pub fn sch_as_object_mut(s: &mut Schema) -> Option<&mut Map<String, Value>> { s.as_object_mut() }
// ---- transforms
pub fn tr_subschemas(s: &mut Schema) { transform_subschemas(&mut Visit, s) }
pub fn tr_recursive(t: &mut RecursiveTransform<Visit>, s: &mut Schema) { t.transform(s) }
pub fn tr_replace_bool(t: &mut ReplaceBoolSchemas, s: &mut Schema) { t.transform(s) }
pub fn tr_remove_ref(t: &mut RemoveRefSiblings, s: &mut Schema) { t.transform(s) }
pub fn tr_single_example(t: &mut SetSingleExample, s: &mut Schema) { t.transform(s) }
pub fn tr_replace_const(t: &mut ReplaceConstValue, s: &mut Schema) { t.transform(s) }
pub fn tr_prefix_items(t: &mut ReplacePrefixItems, s: &mut Schema) { t.transform(s) }
pub fn tr_add_nullable(t: &mut AddNullable, s: &mut Schema) { t.transform(s) }
pub fn tr_add_nullable_default() -> AddNullable { AddNullable::default() }
pub fn tr_unevaluated(t: &mut ReplaceUnevaluatedProperties, s: &mut Schema) { t.transform(s) }
pub fn tr_restrict_formats(t: &mut RestrictFormats, s: &mut Schema) { t.transform(s) }
pub fn tr_restrict_formats_default() -> RestrictFormats { RestrictFormats::default() }
// ---- macros
pub fn m_schema_for() -> Schema { schema_for!(A) }
pub fn m_schema_for_value(v: Val) -> Schema { schema_for_value!(v) }
pub fn m_json_schema_bool() -> Schema { json_schema!(true) }
pub fn m_json_schema_obj(v: Value) -> Schema { json_schema!({ "a": v }) }
// ---- Schema (de)serialization
pub fn sch_ser(s: &Schema) -> Result<Value, serde_json::Error> { serde_json::to_value(s) }
pub fn sch_de(v: Value) -> Result<Schema, serde_json::Error> { serde_json::from_value(v) }
// ---- comparisons
pub fn sch_eq(a: &Schema, b: &Schema) -> bool { a == b }
pub fn sch_eq_bool(a: &Schema, b: bool) -> bool { *a == b }
pub fn sch_eq_bool2(a: &Schema, b: bool) -> bool { b == *a }
pub fn sch_eq_map(a: &Schema, b: &Map<String, Value>) -> bool { a == b }
pub fn sch_eq_map2(a: &Schema, b: &Map<String, Value>) -> bool { b == a }
pub fn sch_eq_value(a: &Schema, b: &Value) -> bool { a == b }
pub fn sch_eq_value2(a: &Schema, b: &Value) -> bool { b == a }
pub fn sch_clone(a: &Schema) -> Schema { a.clone() }
// ---- references produced by the generator, looked up again
pub fn ref_lookup() -> Option<Value> {
    let mut g = SchemaSettings::default().into_generator();
    let s = g.root_schema_for::<crate::graph::N0>();
    let r = s.pointer("/e1/$ref")?.as_str()?.to_owned();
    s.pointer(&r).cloned()
}
pub fn ref_lookup_mut() -> Option<Value> {
    let mut g = SchemaSettings::default().into_generator();
    let mut s = g.root_schema_for::<crate::graph::N0>();
    let r = s.pointer("/e1/$ref")?.as_str()?.to_owned();
    s.pointer_mut(&r).map(|x| x.take())
}
pub fn ref_only() -> Schema { SchemaSettings::default().into_generator().subschema_for::<crate::graph::N1>() }
// ---- presets
pub fn preset_settings(n: u32, ser: bool) -> SchemaSettings { crate::graph::settings(n, None, None, None, ser, 0) }
pub fn preset_apply(n: u32, s: &mut Schema) {
    let mut g = crate::graph::settings(n, None, None, None, false, 0).into_generator();
    for t in g.transforms_mut() { t.transform(s); }
}
// ---- maps whose key schema may refer to a definition
pub fn map_case(path: String, k: String, v: Value) -> Schema {
    let mut s = SchemaSettings::default();
    s.definitions_path = path.into();
    let mut g = s.into_generator();
    g.definitions_mut().insert(k, v);
    <std::collections::BTreeMap<A, B> as JsonSchema>::json_schema(&mut g)
}
// ---- keeping track of transforms
pub fn h_gen_transform() -> bool { unimplemented!() }
#[derive(Clone, Debug)]
pub struct T1(pub u32);
impl Transform for T1 { fn transform(&mut self, s: &mut Schema) { crate::graph::h_transform(self.0, s) } }
#[derive(Clone, Debug)]
pub struct T2(pub u32);
impl Transform for T2 { fn transform(&mut self, s: &mut Schema) { crate::graph::h_transform(self.0 + 100, s) } }
pub fn gt_is(n: u32) -> (bool, bool) { let b: Box<dyn GenTransform> = Box::new(T1(n)); (b.is::<T1>(), b.is::<T2>()) }
pub fn gt_ref(n: u32) -> (Option<u32>, Option<u32>) { let b: Box<dyn GenTransform> = Box::new(T1(n)); (b.downcast_ref::<T1>().map(|t| t.0), b.downcast_ref::<T2>().map(|t| t.0)) }
pub fn gt_mut(n: u32, s: &mut Schema) -> (bool, bool) {
    let mut b: Box<dyn GenTransform> = Box::new(T1(n));
    let y = b.downcast_mut::<T2>().is_some();
    let x = match b.downcast_mut::<T1>() { Some(t) => { t.0 += 1; true } None => false };
    b.transform(s);
    (x, y)
}
pub fn gt_own(n: u32) -> Option<u32> { let b: Box<dyn GenTransform> = Box::new(T1(n)); b.downcast::<T1>().ok().map(|t| t.0) }
pub fn gt_own_fail(n: u32, s: &mut Schema) -> Option<(bool, bool)> {
    let b: Box<dyn GenTransform> = Box::new(T1(n));
    match b.downcast::<T2>() { Ok(_) => None, Err(mut e) => { e.transform(s); Some((e.is::<T1>(), e.is::<T2>())) } }
}
pub fn gt_clone(n: u32, s: &mut Schema) -> (bool, bool) {
    let mut a: Box<dyn GenTransform> = Box::new(T1(n));
    let mut b = a.clone();
    if let Some(t) = a.downcast_mut::<T1>() { t.0 += 50; }
    b.transform(s);
    a.transform(s);
    (b.is::<T1>(), b.is::<T2>())
}
pub struct T3(pub u32);
impl Clone for T3 { fn clone(&self) -> Self { T3(self.0 + 1000) } }
impl Transform for T3 { fn transform(&mut self, s: &mut Schema) { crate::graph::h_transform(self.0 + 200, s) } }
/// is, borrow, mutate, fail to take, then take a transform whose clones can be told from it
pub fn gt_no_clone(n: u32, s: &mut Schema) -> (bool, Option<u32>, Option<u32>) {
    let mut b: Box<dyn GenTransform> = Box::new(T3(n));
    let is = b.is::<T3>();
    let r = b.downcast_ref::<T3>().map(|t| t.0);
    if let Some(t) = b.downcast_mut::<T3>() { t.0 += 1; }
    b.transform(s);
    let mut b = match b.downcast::<T1>() { Ok(_) => return (is, None, None), Err(e) => e };
    b.transform(s);
    (is, r, b.downcast::<T3>().ok().map(|t| t.0))
}
/// cloning clones the transform
pub fn gt_clone3(n: u32, s: &mut Schema) -> Option<u32> {
    let a: Box<dyn GenTransform> = Box::new(T3(n));
    let mut b = a.clone();
    b.transform(s);
    a.downcast_ref::<T3>().map(|t| t.0)
}
/// transforms move from settings into generators without being cloned; cloned settings and generators clone them
pub fn gt_settings3(s: &mut Schema) -> u32 {
    let set = SchemaSettings::draft2020_12().with_transform(T3(0));
    let mut k = set.clone().into_generator();
    let mut g = set.into_generator();
    let mut h = g.clone();
    for t in g.transforms_mut() { t.transform(s); }
    for t in h.transforms_mut() { t.transform(s); }
    for t in k.transforms_mut() { t.transform(s); }
    g.settings().transforms.len() as u32
}
pub fn gt_settings(s: &mut Schema) -> (u32, u32) {
    let set = SchemaSettings::draft2020_12().with_transform(T1(1)).with_transform(T2(2)).with_transform(T1(3));
    let set2 = set.clone();
    let mut g = set.into_generator();
    let mut h = g.clone();
    let mut n = 0;
    for t in g.transforms_mut() { if let Some(t) = t.downcast_mut::<T1>() { t.0 += 10; n += 1; } }
    for t in h.transforms_mut() { t.transform(s); }
    for t in g.transforms_mut() { t.transform(s); }
    let mut k = set2.into_generator();
    let mut m = 0;
    for t in k.transforms_mut() { t.transform(s); if t.is::<T2>() { m += 1; } }
    (n, m)
}
pub fn gt_closure(s: &mut Schema) -> u32 {
    let set = SchemaSettings::draft2020_12().with_transform(|s: &mut Schema| crate::graph::h_transform(7, s)).with_transform(RecursiveTransform(|s: &mut Schema| crate::graph::h_transform(8, s)));
    let mut g = set.into_generator();
    let mut n = 0;
    for t in g.transforms_mut() { t.transform(s); n += 1; }
    n
}
// ---- metadata insertion
