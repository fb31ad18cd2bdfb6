#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] struct G<T> { #[serde(skip_serializing)] t: T }
#[derive(JsonSchema)] struct H<T: Default> { #[serde(skip_deserializing)] t: T }
fn main() { is::<G<u8>>(); is::<H<u8>>(); }
