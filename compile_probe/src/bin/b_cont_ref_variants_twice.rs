#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)]
#[schemars(_unstable_ref_variants, _unstable_ref_variants)]
enum E { A(u8) }
fn main() {}
