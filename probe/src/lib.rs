//! Monomorphic entry points into schemars that the static analyses start from.
//! Nothing here is ever executed: the crate is only type-checked and lowered to MIR.
#![allow(dead_code, unused, clippy::all, deprecated)]
pub mod model;
#[macro_use]
mod mac;
pub mod markers;
pub mod impls;
pub mod api;
pub mod docser;
pub mod graph;
pub mod values;
