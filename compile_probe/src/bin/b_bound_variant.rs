#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
trait Tr {}
#[derive(JsonSchema)] enum G<T> { #[schemars(bound = "T: JsonSchema + Tr")] A(T), B }
fn main() { is::<G<u8>>(); }
