#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] struct P<T> { t: T }
#[derive(JsonSchema)] struct G<T> { #[schemars(with = "P<T>")] t: No, #[serde(skip)] x: Option<T> }
fn main() { is::<G<No>>(); }
