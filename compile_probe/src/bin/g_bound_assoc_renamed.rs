#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
trait Tr { type A; } impl Tr for No { type A = u8; } impl JsonSchema for No { fn schema_name() -> std::borrow::Cow<'static, str> { "No".into() } fn json_schema(_: &mut SchemaGenerator) -> Schema { Schema::default() } }
#[derive(JsonSchema)] #[schemars(rename = "G{T}")] struct G<T: Tr> { #[schemars(bound = "T::A: JsonSchema")] t: T::A }
#[derive(JsonSchema)] #[schemars(rename = "E{T}")] enum E<T: Tr> { A, B { #[schemars(bound = "T::A: JsonSchema")] t: T::A } }
fn main() { is::<G<No>>(); is::<E<No>>(); }
