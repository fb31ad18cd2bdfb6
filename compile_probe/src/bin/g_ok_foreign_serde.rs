#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[serde(foo, bar = 1, baz(x), inline2, a::path, expecting = "x")] struct S { #[serde(foo, deserialize_with = "x", getter = "g", borrow)] x: u8 }
fn main() {}
