/// For every `name: Type` emit one module with one monomorphic wrapper per trait method.
#[macro_export]
macro_rules! types {
    ($($name:ident : $t:ty = $import:ident),* $(,)?) => { $(
        pub mod $name {
            use super::$import; // no glob: hundreds of modules
            use crate::support::*;
            pub fn ty() -> core::marker::PhantomData<$t> { core::marker::PhantomData }
            pub fn js(g: &mut schemars::SchemaGenerator) -> schemars::Schema { <$t as schemars::JsonSchema>::json_schema(g) }
            pub fn name() -> std::borrow::Cow<'static, str> { <$t as schemars::JsonSchema>::schema_name() }
            pub fn id() -> std::borrow::Cow<'static, str> { <$t as schemars::JsonSchema>::schema_id() }
            pub fn inl() -> bool { <$t as schemars::JsonSchema>::inline_schema() }
            pub fn np(g: &mut schemars::SchemaGenerator) -> schemars::Schema { <$t as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(g) }
            pub fn opt() -> bool { <$t as schemars::JsonSchema>::_schemars_private_is_option() }
        }
    )* };
    ($($name:ident : $t:ty),* $(,)?) => { $(
        pub mod $name {
            use super::*;
            pub fn ty() -> core::marker::PhantomData<$t> { core::marker::PhantomData }
            pub fn js(g: &mut schemars::SchemaGenerator) -> schemars::Schema { <$t as schemars::JsonSchema>::json_schema(g) }
            pub fn name() -> std::borrow::Cow<'static, str> { <$t as schemars::JsonSchema>::schema_name() }
            pub fn id() -> std::borrow::Cow<'static, str> { <$t as schemars::JsonSchema>::schema_id() }
            pub fn inl() -> bool { <$t as schemars::JsonSchema>::inline_schema() }
            pub fn np(g: &mut schemars::SchemaGenerator) -> schemars::Schema { <$t as schemars::JsonSchema>::_schemars_private_non_optional_json_schema(g) }
            pub fn opt() -> bool { <$t as schemars::JsonSchema>::_schemars_private_is_option() }
        }
    )* };
}
#[macro_export]
macro_rules! schemas {
    ($($name:ident : $t:ty = $import:ident),* $(,)?) => { $(
        pub mod $name {
            use super::$import; // no glob: hundreds of modules
            use crate::support::*;
            pub fn js(g: &mut schemars::SchemaGenerator) -> schemars::Schema { <$t as schemars::JsonSchema>::json_schema(g) }
        }
    )* };
}
