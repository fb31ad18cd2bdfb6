#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[repr(u8)] enum E { A = 1, B = 4 } #[derive(JsonSchema)] #[repr(C)] struct S { x: u8 } #[derive(JsonSchema)] #[repr(transparent)] struct T(u8);
fn main() {}
