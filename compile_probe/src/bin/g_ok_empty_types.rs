#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] enum E {} #[derive(JsonSchema)] struct A {} #[derive(JsonSchema)] struct B(); #[derive(JsonSchema)] #[serde(untagged)] enum F {} #[derive(JsonSchema)] #[serde(tag = "t")] enum G {} #[derive(JsonSchema)] enum H { #[serde(skip)] A } #[derive(JsonSchema)] enum I { A {}, B() }
fn main() {}
