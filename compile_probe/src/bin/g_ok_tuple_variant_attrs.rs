#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] enum E { #[schemars(title = "x", description = "y", example = 1, extend("z" = 1))] A(#[schemars(title = "x", length(min = 1))] String, #[schemars(with = "u8")] u16), #[schemars(with = "String")] B(u8), #[schemars(schema_with = "f")] C { x: u8 }, #[schemars(rename = "q")] P, #[schemars(rename = "q", untagged)] D(u8) } fn f(_: &mut SchemaGenerator) -> Schema { Schema::default() }
fn main() {}
