#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[serde(default)] struct S { a: u8, #[serde(default = "f")] b: u8, #[serde(default, skip_serializing_if = "Option::is_none")] c: Option<u8>, #[serde(default, serialize_with = "ser")] d: No, #[serde(default)] e: No2 } #[derive(Default, JsonSchema)] struct No2; #[derive(Default)] struct No; impl JsonSchema for No { fn schema_name() -> std::borrow::Cow<'static, str> { "No".into() } fn json_schema(_: &mut SchemaGenerator) -> Schema { Schema::default() } } impl Default for S { fn default() -> Self { loop {} } } fn f() -> u8 { 1 } fn ser<S: serde::Serializer>(_: &No, s: S) -> Result<S::Ok, S::Error> { s.serialize_u8(1) }
fn main() {}
