#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
const C: usize = 3; static RE: &str = "x"; struct Rx; impl Rx { fn as_str(&self) -> &str { "x" } }
#[derive(JsonSchema)] struct S { #[schemars(length(min = 1, max = C))] a: String, #[schemars(length(equal = 2))] b: Vec<u8>, #[schemars(range(min = -1.5, max = 2.5e3))] c: f64, #[schemars(range(min = "C", max = "10"))] d: u8, #[schemars(regex(pattern = RE))] e: String, #[schemars(pattern("x"))] f: String, #[schemars(pattern(Rx.as_str()))] g: String, #[schemars(contains("x"))] h: String, #[schemars(contains(pattern = "x"))] i: String, #[schemars(inner(inner(length(min = 1)), length(max = 3)), length(min = 2))] j: Vec<Vec<String>>, #[schemars(required)] k: Option<u8>, #[schemars(ip)] l: String, #[schemars(ipv4)] m: String, #[schemars(ipv6)] n: String, #[schemars(url)] o: String, #[schemars(email)] p: String }
fn main() {}
