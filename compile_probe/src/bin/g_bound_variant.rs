#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
trait Tr { type A; } impl Tr for No { type A = u8; }
#[derive(JsonSchema)] enum G<T: Tr> { #[schemars(bound = "T::A: JsonSchema")] A(T::A), B }
fn main() { is::<G<No>>(); }
