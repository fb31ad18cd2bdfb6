#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] enum E { A, B(u8), C { x: u8 } } #[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] #[serde(untagged)] enum F<T> { A, B(T), C { x: u8 } } #[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] #[serde(tag = "t", content = "c")] enum G { A, B(u8), C { x: u8 } } #[derive(JsonSchema)] #[schemars(_unstable_ref_variants)] #[serde(tag = "t")] enum H { A, C { x: u8 } }
fn main() {}
