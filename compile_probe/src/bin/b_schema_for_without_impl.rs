#![allow(dead_code, unused_imports, unused_macros, non_camel_case_types, non_snake_case)]
struct No;
fn main() { let _ = schemars::schema_for!(No); }
