#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)]
#[schemars(contains("x"))]
struct S { x: String }
fn main() {}
