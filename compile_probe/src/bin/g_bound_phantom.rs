#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
#[derive(JsonSchema)] struct G<T> { t: std::marker::PhantomData<T>, u: u8 }
#[derive(JsonSchema)] struct H<T>(core::marker::PhantomData<T>);
fn main() { is::<G<No>>(); is::<H<No>>(); }
