#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)]
struct S { #[schemars(contains("x"), pattern("y"))] x: String }
fn main() {}
