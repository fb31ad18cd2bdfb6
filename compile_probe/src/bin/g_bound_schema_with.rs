#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() }
fn f2<T>(_: &mut SchemaGenerator) -> Schema { Schema::default() }
#[derive(JsonSchema)] struct G<T> { #[schemars(schema_with = "f")] t: T, #[schemars(schema_with = "f2::<T>")] u: Vec<T> }
#[derive(JsonSchema)] enum E<T> { A(#[schemars(schema_with = "f")] T) }
fn main() { is::<G<No>>(); is::<E<No>>(); }
