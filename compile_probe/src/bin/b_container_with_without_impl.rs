#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
struct No;
#[derive(JsonSchema)] #[schemars(with = "No")] struct S { x: u8 }
fn main() {}
