#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)]
enum S { #[serde(rename_all = "camelCase")] #[schemars(!rename_all, !rename_all)] A(String) }
fn main() {}
