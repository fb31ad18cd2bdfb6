//! Opaque element types: every method is intercepted by the analyses.
use schemars::{JsonSchema, Schema, SchemaGenerator};
use std::borrow::Cow;
macro_rules! marker {
    ($($n:ident)*) => { $(
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default, serde::Serialize, serde::Deserialize)]
        pub struct $n;
        impl JsonSchema for $n {
            fn inline_schema() -> bool { unimplemented!() }
            fn schema_name() -> Cow<'static, str> { unimplemented!() }
            fn schema_id() -> Cow<'static, str> { unimplemented!() }
            fn json_schema(_: &mut SchemaGenerator) -> Schema { unimplemented!() }
            fn _schemars_private_non_optional_json_schema(_: &mut SchemaGenerator) -> Schema { unimplemented!() }
            fn _schemars_private_is_option() -> bool { unimplemented!() }
        }
    )* };
}
marker!(A B C D);
/// Opaque transform: each visit is recorded by the analyses.
#[derive(Clone, Debug)]
pub struct Visit;
impl schemars::transform::Transform for Visit {
    fn transform(&mut self, _s: &mut Schema) { unimplemented!() }
}
/// Opaque serializable value.
pub struct Val;
impl serde::Serialize for Val {
    fn serialize<S: serde::Serializer>(&self, _s: S) -> Result<S::Ok, S::Error> { unimplemented!() }
}
