#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[serde(deny_unknown_fields, default, rename_all = "camelCase")] #[schemars(!deny_unknown_fields, !default, !rename_all)] struct S { #[serde(default, skip_serializing)] #[schemars(!default, !skip_serializing)] x: u8 }
fn main() {}
