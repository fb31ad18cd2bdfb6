#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] #[schemars(bound = "")] struct G<T> { #[schemars(with = "u8")] t: T }
#[derive(JsonSchema)] #[schemars(bound = "T: JsonSchema")] struct H<T> { t: T }
fn main() { is::<G<No>>(); is::<H<u8>>(); }
