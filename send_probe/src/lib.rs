//! Type-level witnesses: this crate type-checks exactly when the types below can be sent between threads.
use schemars::generate::SchemaSettings;
use schemars::transform::*;
use schemars::{Schema, SchemaGenerator};
fn send<T: Send + 'static>() {}
pub fn schema() { send::<Schema>() }
pub fn settings() { send::<SchemaSettings>() }
pub fn generator() { send::<SchemaGenerator>() }
pub fn boxed_transforms() { send::<Vec<Box<dyn schemars::generate::GenTransform>>>() }
pub fn restrict_formats() { send::<RestrictFormats>() }
pub fn add_nullable() { send::<AddNullable>() }
pub fn replace_bool_schemas() { send::<ReplaceBoolSchemas>() }
pub fn remove_ref_siblings() { send::<RemoveRefSiblings>() }
pub fn set_single_example() { send::<SetSingleExample>() }
pub fn replace_const_value() { send::<ReplaceConstValue>() }
pub fn replace_prefix_items() { send::<ReplacePrefixItems>() }
pub fn replace_unevaluated_properties() { send::<ReplaceUnevaluatedProperties>() }
pub fn recursive() { send::<RecursiveTransform<AddNullable>>() }
