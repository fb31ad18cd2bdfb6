#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
#[derive(JsonSchema)] #[validate(schema(function = "f"))] struct S { #[validate(phone, custom(function = "f"), nested, length(min = 1, message = "m", code = "c"), email(message = "x"), must_match(other = "y"), credit_card)] x: String, #[validate(range(min = 1, exclusive_max = 5))] y: u8, #[validate(url, url)] z: String, #[validate(contains(pattern = "x", code = "c"))] w: String }
fn main() {}
