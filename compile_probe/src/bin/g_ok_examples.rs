#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[schemars(example = 1, example = &"str", example = "not a path!", example = f(), example = Some(1))] struct S { #[schemars(example = "two words")] x: u8 } fn f() -> u8 { 1 }
fn main() {}
