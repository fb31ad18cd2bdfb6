#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] #[schemars(rename = "G_{T}")] struct G<T> { #[serde(skip)] t: T, u: u8 }
fn main() { is::<G<u8>>(); }
