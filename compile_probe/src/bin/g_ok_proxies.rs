#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema, Clone)] #[serde(from = "u8", into = "String")] struct A(u8); #[derive(JsonSchema)] #[serde(try_from = "u8")] enum B { X } #[derive(JsonSchema)] #[schemars(with = "Vec<u8>")] enum C { X(std::rc::Rc<std::cell::Cell<u8>>) } #[derive(JsonSchema)] #[schemars(schema_with = "f")] struct D(*const u8); fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() } #[derive(JsonSchema)] #[serde(remote = "std::time::Duration")] struct Dur { #[serde(getter = "x")] secs: u64 }
fn main() {}
