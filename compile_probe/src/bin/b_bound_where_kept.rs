#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
struct Y; impl JsonSchema for Y { fn schema_name() -> std::borrow::Cow<'static, str> { "Y".into() } fn json_schema(_: &mut SchemaGenerator) -> Schema { Schema::default() } }
#[derive(JsonSchema)] struct G<T> where T: Copy { t: T }
fn main() { is::<G<Y>>(); }
