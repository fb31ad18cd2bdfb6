#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
struct No;
#[derive(JsonSchema)] struct S { #[serde(flatten)] x: No }
fn main() {}
