#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
#[derive(schemars::JsonSchema)] pub enum E { Some, None, Ok, Err, Option, Result, String, Vec, Schema, JsonSchema, Cow(u8), Value { Map: u8 }, Object, Default, T, U }
#[derive(schemars::JsonSchema)] #[serde(tag = "t")] pub enum I { Some, None, Ok { String: u8 }, Err, Option, Result }
#[derive(schemars::JsonSchema)] #[serde(untagged)] pub enum N { Some(u8), None, Ok { Box: u8 } }
fn main() {}
