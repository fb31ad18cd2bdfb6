#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] struct G<T> where T: Copy, Vec<T>: Sized { t: T }
#[derive(JsonSchema)] struct H<T: Copy + Into<u64> = u8> { t: T }
fn main() { is::<G<u8>>(); is::<H>(); is::<H<u32>>(); }
