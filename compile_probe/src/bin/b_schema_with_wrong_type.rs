#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn f() -> u8 { 0 }
#[derive(JsonSchema)] struct S { #[schemars(schema_with = "f")] x: u8 }
fn main() {}
