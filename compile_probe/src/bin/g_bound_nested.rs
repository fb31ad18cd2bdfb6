#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
use schemars::{JsonSchema, Schema, SchemaGenerator};
fn is<T: JsonSchema>() {}
struct No;
use std::collections::BTreeMap;
#[derive(JsonSchema)] struct G<'a, A: ?Sized, B, C, D, E, F> { a: &'a A, b: Option<Box<B>>, c: (u8, C), d: [D; 3], e: BTreeMap<String, E>, f: Vec<Option<F>> }
#[derive(JsonSchema)] enum E2<A, B, C> { A(A), B { x: Vec<B> }, C(u8, C) }
#[derive(JsonSchema)] struct Tp<A>(A, Option<A>);
#[derive(JsonSchema)] struct Qs<A>(Vec<<Option<A> as IntoIterator>::Item>);
fn main() { is::<G<'static, str, u8, u8, u8, u8, u8>>(); is::<E2<u8, u8, u8>>(); is::<Tp<u8>>(); is::<Qs<u8>>(); }
