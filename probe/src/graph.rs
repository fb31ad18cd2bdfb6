//! Nondeterministic type graphs and generator histories: every `extern`-like hook below is
//! decided by the analyses (scenario tables), everything else is ordinary code over the API.
use schemars::generate::*;
use schemars::transform::Transform;
use schemars::*;
use serde_json::{Map, Value};
use std::borrow::Cow;

pub fn h_edge(_from: u32, _to: u32) -> bool { unimplemented!() }
/// does the edge go through a whole root schema generated in place (instead of a subschema)?
pub fn h_nest(_from: u32, _to: u32) -> bool { unimplemented!() }
pub fn h_inline(_n: u32) -> bool { unimplemented!() }
pub fn h_name(_n: u32) -> String { unimplemented!() }
pub fn h_id(_n: u32) -> String { unimplemented!() }
pub fn h_base(_n: u32) -> Schema { unimplemented!() }
pub fn h_op(_step: u32) -> (u32, u32) { unimplemented!() }
pub fn h_sink(_step: u32, _s: Schema) { unimplemented!() }
pub fn h_sink_map(_step: u32, _s: Map<String, Value>) { unimplemented!() }
pub fn h_state(_step: u32, _g: &SchemaGenerator) { unimplemented!() }

macro_rules! node {
    ($($t:ident $n:literal)*) => { $(
        pub struct $t;
        impl JsonSchema for $t {
            fn inline_schema() -> bool { h_inline($n) }
            fn schema_name() -> Cow<'static, str> { Cow::Owned(h_name($n)) }
            fn schema_id() -> Cow<'static, str> { Cow::Owned(h_id($n)) }
            fn json_schema(g: &mut SchemaGenerator) -> Schema {
                let mut s = h_base($n);
                if h_edge($n, 0) { let x = if h_nest($n, 0) { g.root_schema_for::<N0>() } else { g.subschema_for::<N0>() }; s.insert("e0".into(), x.into()); }
                if h_edge($n, 1) { let x = if h_nest($n, 1) { g.root_schema_for::<N1>() } else { g.subschema_for::<N1>() }; s.insert("e1".into(), x.into()); }
                if h_edge($n, 2) { let x = if h_nest($n, 2) { g.root_schema_for::<N2>() } else { g.subschema_for::<N2>() }; s.insert("e2".into(), x.into()); }
                if h_edge($n, 3) { let x = if h_nest($n, 3) { g.root_schema_for::<N3>() } else { g.subschema_for::<N3>() }; s.insert("e3".into(), x.into()); }
                s
            }
        }
    )* };
}
node!(N0 0 N1 1 N2 2 N3 3);

/// many types (C<4>, C<5>, …): numbered suffixes beyond one digit
pub struct C<const I: u32>;
impl<const I: u32> JsonSchema for C<I> {
    fn inline_schema() -> bool { h_inline(I) }
    fn schema_name() -> Cow<'static, str> { Cow::Owned(h_name(I)) }
    fn schema_id() -> Cow<'static, str> { Cow::Owned(h_id(I)) }
    fn json_schema(_: &mut SchemaGenerator) -> Schema { h_base(I) }
}
macro_rules! many {
    ($g:ident $n:ident $($k:literal)*) => { match $n { $($k => $g.subschema_for::<C<$k>>(),)* _ => unimplemented!() } };
}
fn many(g: &mut SchemaGenerator, n: u32) -> Schema {
    many!(g n 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19 20 21 22 23 24 25 26 27)
}

#[derive(Clone, Debug)]
pub struct Tr(pub u32);
pub fn h_transform(_n: u32, _s: &mut Schema) { unimplemented!() }
impl Transform for Tr {
    fn transform(&mut self, s: &mut Schema) { h_transform(self.0, s) }
}

pub fn settings(preset: u32, path: Option<String>, meta: Option<Option<String>>, inline: Option<bool>, ser: bool, trs: u32) -> SchemaSettings {
    let mut s = match preset {
        0 => SchemaSettings::default(),
        1 => SchemaSettings::draft07(),
        2 => SchemaSettings::draft2019_09(),
        3 => SchemaSettings::draft2020_12(),
        _ => SchemaSettings::openapi3(),
    };
    if let Some(p) = path { s.definitions_path = p.into(); }
    if let Some(m) = meta { s.meta_schema = m.map(Into::into); }
    if let Some(i) = inline { s.inline_subschemas = i; }
    if ser { s = s.for_serialize(); }
    if trs == 1 { s = s.with_transform(Tr(1)); }
    if trs == 2 { s = s.with_transform(Tr(1)).with_transform(Tr(2)); }
    s
}

/// ops: 0 end, 1 subschema_for(n), 2 root_schema_for(n), 3 into_root_schema_for(n) (last),
/// 4 take_definitions(n != 0), 5 switch to a clone (n = 0: continue with the clone, 1: with the original after using the clone for node 1),
/// 6 json_schema(n) directly, 7 report state
pub fn hist(preset: u32, path: Option<String>, meta: Option<Option<String>>, inline: Option<bool>, ser: bool, trs: u32) {
    let mut g = settings(preset, path, meta, inline, ser, trs).into_generator();
    let mut i = 0;
    loop {
        let (op, n) = h_op(i);
        match (op, n) {
            (0, _) => return,
            (1, 0) => h_sink(i, g.subschema_for::<N0>()),
            (1, 1) => h_sink(i, g.subschema_for::<N1>()),
            (1, 2) => h_sink(i, g.subschema_for::<N2>()),
            (1, _) => h_sink(i, g.subschema_for::<N3>()),
            (2, 0) => h_sink(i, g.root_schema_for::<N0>()),
            (2, 1) => h_sink(i, g.root_schema_for::<N1>()),
            (2, 2) => h_sink(i, g.root_schema_for::<N2>()),
            (2, _) => h_sink(i, g.root_schema_for::<N3>()),
            (3, 0) => { h_sink(i, g.into_root_schema_for::<N0>()); return; }
            (3, 1) => { h_sink(i, g.into_root_schema_for::<N1>()); return; }
            (3, 2) => { h_sink(i, g.into_root_schema_for::<N2>()); return; }
            (3, _) => { h_sink(i, g.into_root_schema_for::<N3>()); return; }
            (4, t) => h_sink_map(i, g.take_definitions(t != 0)),
            (5, 0) => { g = g.clone(); }
            (5, _) => { let mut h = g.clone(); h_sink(i, h.subschema_for::<N1>()); h_sink_map(i, h.take_definitions(false)); }
            (6, 0) => h_sink(i, N0::json_schema(&mut g)),
            (6, _) => h_sink(i, N1::json_schema(&mut g)),
            (7, _) => h_sink_map(i, g.definitions().clone()),
            (8, 0) => h_sink(i, schema_for!(N0)),
            (8, _) => h_sink(i, schema_for!(N1)),
            (9, n) => match g.root_schema_for_value(&crate::values::V(n)) { Ok(s) => h_sink(i, s), Err(_) => h_sink(i, Schema::from(false)) },
            (10, n) => { match g.into_root_schema_for_value(&crate::values::V(n)) { Ok(s) => h_sink(i, s), Err(_) => h_sink(i, Schema::from(false)) }; return; }
            (11, n) => h_sink(i, many(&mut g, n)),
            _ => return,
        }
        i += 1;
    }
}
