#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#[derive(schemars::JsonSchema)] pub struct A<T> { a: T, #[serde(default)] b: u8, #[schemars(example = 1, extend("x" = 1))] c: u8 }
#[derive(schemars::JsonSchema)] pub enum E { A, B { x: u8 } }
fn main() {}
