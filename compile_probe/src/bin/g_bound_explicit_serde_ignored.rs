#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
trait Tr {}
#[derive(JsonSchema)] #[serde(bound = "T: Tr")] struct H<T> { t: T }
fn main() { is::<H<u8>>(); }
