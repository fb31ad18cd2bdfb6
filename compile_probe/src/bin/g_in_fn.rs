#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::JsonSchema;
fn f() { #[derive(JsonSchema)] struct L { a: u8 } #[derive(JsonSchema)] enum E { A(L) } fn is<T: JsonSchema>() {} is::<E>(); }
fn main() {}
