#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[garde(context(C))] struct S { #[garde(skip)] x: String, #[garde(length(min = 1, max = 2), ascii, alphanumeric, custom(f), dive, byte_length(min = 1))] y: String, #[garde(pattern("x"))] z: String, #[garde(inner(length(min = 1), ascii))] w: Vec<String>, #[garde(contains("x"), prefix("y"))] v: String }
fn main() {}
