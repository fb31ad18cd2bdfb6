#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[schemars(extend("a" = 1, "b" = "x",), extend("c" = [1, {"d": null}]), extend("e" = 1 + 2, "f" = f()))] #[schemars(extend("g" = true))] struct S { #[schemars(extend("x" = -1.5))] x: u8 } fn f() -> u8 { 1 }
fn main() {}
