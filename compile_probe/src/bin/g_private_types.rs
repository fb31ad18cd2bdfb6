#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
mod m { use schemars::JsonSchema; #[derive(JsonSchema)] pub(crate) struct A(B); #[derive(JsonSchema)] struct B { c: Vec<C> } #[derive(JsonSchema)] enum C { X(Box<B>) } }
fn main() {}
