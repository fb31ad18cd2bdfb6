#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#[derive(schemars::JsonSchema)] pub struct JsonSchema { a: u8, #[serde(default)] b: ::core::option::Option<u8>, #[schemars(title = "x", range(min = 1))] c: u8 }
#[derive(schemars::JsonSchema)] pub enum E { JsonSchema, B(JsonSchema) }
fn main() {}
