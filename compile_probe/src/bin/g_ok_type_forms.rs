#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
use std::collections::*; trait Tr { type A; } impl Tr for u8 { type A = u16; }
#[derive(JsonSchema)] struct S<'a> { a: &'a str, b: &'a [u8], c: [u8; 4], d: (u8,), e: (u8, String), f: Box<str>, g: std::rc::Rc<[u8]>, h: std::borrow::Cow<'a, str>, i: <u8 as Tr>::A, j: BTreeMap<String, Vec<Option<u8>>>, k: (), l: Box<S<'a>>, m: HashSet<u8>, n: std::sync::Arc<std::sync::Mutex<u8>>, o: Result<u8, String>, p: std::ops::Range<u8>, q: Option<Option<u8>>, r: &'a mut u8 }
fn main() {}
