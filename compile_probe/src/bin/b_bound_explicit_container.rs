#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] #[schemars(bound = "T: JsonSchema + Copy")] struct H<T> { t: T }
fn main() { is::<H<String>>(); }
