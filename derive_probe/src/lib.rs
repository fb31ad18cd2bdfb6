//! Derived witness types that the static analyses interpret. Nothing here is ever executed.
#![allow(dead_code, unused, deprecated, non_snake_case, non_camel_case_types, uncommon_codepoints, clippy::all)]
#[macro_use]
#[path = "../../probe/src/mac.rs"]
mod mac;
#[path = "../../probe/src/markers.rs"]
pub mod markers;
#[path = "../../probe/src/model.rs"]
pub mod model;
pub mod gen;
pub mod gen41;
pub mod support;
