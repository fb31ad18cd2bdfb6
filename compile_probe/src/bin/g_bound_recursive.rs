#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] struct G<T> { t: T, n: Option<Box<G<T>>> }
#[derive(JsonSchema)] enum L<T> { N, C(T, Box<L<T>>) }
fn main() { is::<G<u8>>(); is::<L<u8>>(); }
