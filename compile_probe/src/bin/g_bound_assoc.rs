#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
trait Tr { type A; } impl Tr for No { type A = u8; }
#[derive(JsonSchema)] #[schemars(bound = "T::A: JsonSchema")] struct G<T: Tr> { t: T::A }
#[derive(JsonSchema)] struct H<T: Tr> { #[schemars(bound = "T::A: JsonSchema")] t: T::A, #[serde(skip)] x: Option<T> }
fn main() { is::<G<No>>(); is::<H<No>>(); }
