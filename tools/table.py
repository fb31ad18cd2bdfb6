"""The properties: statement, anchors, and how each is decided."""
P = []
def p(id, title, statement, over, q, why, files, mech, tech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), q=q, why=why, files=files, mech=mech, tech=tech, note=note, na=na))

GEN = 'schemars/src/generate.rs'; TR = 'schemars/src/transform.rs'; SC = 'schemars/src/schema.rs'; ENC = 'schemars/src/encoding.rs'
SER = 'schemars/src/ser.rs'; PRIV = 'schemars/src/_private/mod.rs'; IMPL = 'schemars/src/json_schema_impls/'
DX = 'schemars_derive/src/schema_exprs.rs'; DA = 'schemars_derive/src/attr/'; 
AI = 'abstract interpretation of MIR'
BASE = ('Decided by abstract interpretation of the MIR rustc builds from the current tree: every path of the analysed functions is followed over '
        'symbolic inputs and compared with an oracle written from the documentation. Collections of unknown size are followed up to two unknown '
        'elements; paths that leave the abstract domain are counted as undecided, not as holding. Trusts the models of std/serde_json leaf operations in sa/models.py.')

p('C01', 'Every generated reference resolves to the definition of its type',
  'Every `$ref` that the generator puts in a schema resolves, in the root schema it ends up in and for every definitions path, to the definition of '
  'exactly the type it stands for (or to the document root, when the referenced type is the root type). No definition that is referenced is missing or overwritten by another type.',
  'programs configurations histories', 'All graphs of types (cycles, shared and inline types, equal names), all sequences of generator calls, all definitions paths',
  'Tests snapshot a few dozen fixed types with default-like settings; cycles through particular mixes of inline, equally named and root types and reuse of one generator for several roots are not sampled.',
  [GEN, ENC], [('subschema_for', GEN), ('insert_new_subschema_for', GEN), ('add_definitions / definitions_path_stripped', GEN), ('encode_ref_name', ENC)],
  AI + ' over enumerated type graphs and call histories; reference-resolution oracle',
  BASE + ' All graphs of 2 types and a set of graphs of 3 types are enumerated, with every assignment of inline/name/id flags in the bounds.')
p('C02', 'Definition names are unique and stable per type and contract',
  'Within one generator, two types with different schema ids (or the same type under different contracts) never share a definition name, and one type under one contract never gets two definitions. '
  'This stays true across any sequence of calls on the generator and on its clones, and the first user of a name gets it unsuffixed.',
  'programs histories', 'All assignments of names and ids to types, all call sequences including clone and contract switches',
  'The tests use one pair of equally named types; numbering, the interplay with names that already look suffixed, and clones need particular histories.',
  [GEN], [('schema_id_to_name / used_schema_names', GEN), ('SchemaUid', GEN), ('Clone for SchemaGenerator', GEN)],
  AI + ' over enumerated naming histories; uniqueness oracle',
  BASE + ' Histories of up to four calls over enumerated (name, id) assignments.')
p('C03', 'Recursive types always terminate with a finite schema',
  'Generating a schema for any type whose recursion passes through at least one non-inline type terminates, for every combination of inline flags and for the "inline everything" setting, '
  'generating each definition at most once; a type that is currently being inlined is referenced instead of being inlined again.',
  'programs configurations', 'All type graphs with cycles, both inline settings, all entry points',
  'A non-terminating mix of inline and non-inline types would only show for the particular cyclic graph.',
  [GEN], [('pending_schema_ids', GEN), ('json_schema_internal (PendingSchemaState guard)', GEN)],
  AI + ' over enumerated cyclic type graphs with a recursion bound', BASE)
p('C04', 'A subschema is inlined exactly when type and settings ask for it',
  'A subschema is a `$ref` to a definition exactly when its type does not ask to be inlined and the "inline subschemas" setting is off (or when inlining would recurse), and otherwise it is the full schema of that type. '
  'A type asked to be inlined creates no definition of its own.',
  'programs configurations', 'All type graphs, both settings, every nesting position and call order',
  'Tests cover two settings on one small recursive type.',
  [GEN], [('subschema_for', GEN)], AI + ' over enumerated type graphs; inline-decision oracle', BASE)
p('C05', 'All root-schema entry points agree',
  'The borrowing and the consuming root-schema functions, and the macros, produce the same root schema for the same type and settings: the type\'s own schema with the meta-schema URI of the settings, a title equal to the type\'s name unless it already has a title, '
  'and the definitions. The entry points for values agree in the same way, adding the example value and the title only when absent.',
  'programs configurations', 'All types, settings and prior generator histories',
  'Tests compare single outputs; a divergence of one entry point in the handling of title, meta-schema, definitions or transforms needs that entry point with that input.',
  [GEN, 'schemars/src/macros.rs'], [('root_schema_for / into_root_schema_for', GEN), ('root_schema_for_value / into_root_schema_for_value', GEN)],
  AI + '; sibling agreement of entry points against one oracle', BASE)
p('C06', 'Definitions are placed, taken and transformed exactly once',
  'A root schema contains every definition of the generator at the configured definitions path, creating missing parents and keeping what is already there, and the settings\' transforms run exactly once, in order, on the finished root schema including its definitions. '
  'Taking definitions empties the generator and transforms each definition exactly once if and only if asked to.',
  'configurations histories', 'All definitions paths and prior contents of the root schema, all transform lists, all histories',
  'Tests use the two standard paths; unusual paths, pre-existing contents and repeated roots are not sampled.',
  [GEN], [('add_definitions', GEN), ('json_pointer_mut', GEN), ('take_definitions', GEN), ('apply_transforms', GEN)],
  AI + ' with recorded transform visits', BASE)
p('C07', 'Schema generation is deterministic',
  'Generating a schema for the same types with the same settings and call history always gives the same output: nothing in it depends on the iteration order of hash collections, addresses, time, environment, thread identity, random numbers or global mutable state. '
  'The same holds for the code that the derive macro generates.',
  'programs schedules', 'All types and settings, all runs and threads',
  'A dependence on hash iteration order or on the environment shows only on some runs.',
  ['schemars/src', 'schemars_derive/src'], [('BTreeMap / BTreeSet / insertion-ordered maps', 'schemars/src, schemars_derive/src')],
  'effect analysis: taint of iteration over hash collections, calls of nondeterministic sources and global state, in all MIR of both crates and of derive-generated code',
  'Exhaustive over all functions of both crates (resolved callees) for the listed sources of nondeterminism; hash order is followed within a function and reported when it reaches anything but a sorted or unordered collection. Does not cover user-provided implementations.')
p('C08', 'A schema value is always a JSON object or bool',
  'No public operation on schema values can produce or leave behind a schema that is neither a JSON object nor a bool: conversions from other JSON values fail, mutators convert `true` to `{}` and `false` to `{"not": {}}` first, and reading a keyword of a bool schema gives nothing. '
  'Conversions and comparisons between schemas, bools and objects preserve the value.',
  'inputs histories', 'All JSON values, all operations and sequences of operations',
  'Tests touch a handful of calls on a handful of values.',
  [SC], [('Schema(Value) and its constructors', SC), ('ensure_object', SC), ('TryFrom<Value>', SC)],
  AI + ' of every public operation from every kind of JSON value', BASE)
p('C09', 'Serialising and deserialising a schema loses nothing',
  'Serialising a schema writes every key and value exactly once, and deserialising accepts exactly JSON objects and bools and yields a schema that equals them. '
  'The serialised form lists the meta keywords first and the definitions last, keeping the order of all other keywords.',
  'inputs', 'All schemas: any keys, any nesting, including repeated and unknown keywords',
  'Loss of a key in the ordering serialiser needs a schema with that particular key combination.',
  [SC], [('Serialize for Schema / OrderedKeywordWrapper', SC), ('Deserialize for Schema', SC)],
  AI + ' of the serialiser with a recording sink', BASE)
p('C10', 'Definition names survive encoding into references',
  'For every definition name, the reference created for it is a valid URI fragment and decodes (percent-decoding, then JSON-pointer unescaping) to exactly that name, so looking the reference up finds that definition. '
  'Decoding of malformed percent sequences leaves them as they are and never fails.',
  'inputs', 'All strings as names (any code point) and all fragments',
  'Tests use a few names; one wrong byte range in the encoder shows only for names with those characters.',
  [ENC, GEN], [('encode_ref_name', ENC), ('percent_decode', ENC)],
  AI + ' over byte/character classes; RFC 3986/6901 oracle', BASE + ' Every single-code-point boundary class and pairs of classes are enumerated.')
p('C11', 'Pointer lookups follow RFC 6901 and decode URI fragments',
  'Looking up a JSON pointer, with or without a leading `#`, shared or mutable, finds exactly the value that RFC 6901 says it denotes in the schema, decoding percent-encoding only after `#`, and gives nothing for pointers that denote nothing. '
  'The lookup never panics and never changes the schema.',
  'inputs', 'All schemas and all pointer strings', 'Tests cover a handful of pointers.',
  [SC, ENC], [('pointer / pointer_mut', SC)], AI + ' over enumerated documents and pointers; RFC 6901 oracle', BASE)
p('C12', 'Transforms reach every subschema exactly once',
  'Applying a transform to subschemas visits every direct subschema of a schema exactly once, in every keyword of JSON Schema that holds subschemas and in no other place, and a recursive transform applies to the schema itself and then to all subschemas at every depth. '
  'Values that are not schemas (such as enum values, examples and property-name lists) are never touched.',
  'inputs', 'All schemas, at any depth, with any combination of keywords',
  'One forgotten keyword shows only for schemas that use it together with a transform.',
  [TR], [('transform_subschemas', TR), ('RecursiveTransform', TR)], AI + ' with an opaque visitor; keyword table oracle', BASE)
p('C14', 'Removing siblings of `$ref` keeps the meaning',
  'The transform that removes siblings of `$ref` moves the `$ref` into an `allOf` exactly when a schema has other keywords beside it, appending to an existing `allOf`, keeping everything else, and leaving a lone `$ref` alone; it does this at every depth.',
  'inputs', 'All schemas', 'Tests have one sample.', [TR], [('RemoveRefSiblings', TR)], AI + '; rewrite oracle', BASE)
p('C15', 'Keyword-replacing transforms keep values and touch nothing else',
  'The transforms that turn `examples` into `example`, `const` into a one-value `enum`, and `prefixItems` into `items` keep the values exactly (the first example; the constant; the item list with the old `items` as `additionalItems`), act at every depth, and leave schemas without those keywords unchanged.',
  'inputs', 'All schemas', 'Tests have one sample each.', [TR], [('SetSingleExample', TR), ('ReplaceConstValue', TR), ('ReplacePrefixItems', TR)], AI + '; rewrite oracle', BASE)
p('C16', 'Bool-schema replacement is complete',
  'The transform that replaces bool schemas rewrites every bool subschema at every depth to the equivalent object (`true` to `{}`, `false` to `{"not": {}}`), except the direct `additionalProperties` value when told to skip it, and nothing that is not a schema.',
  'inputs configurations', 'All schemas, both settings', 'Needs particular nestings.', [TR], [('ReplaceBoolSchemas', TR)], AI + '; rewrite oracle', BASE)
p('C17', 'The nullable transform marks exactly the schemas that allow null',
  'The transform that adds `nullable` sets `nullable: true` exactly on schemas whose `type` is or includes null, at every depth. When told to, it removes null from the type (keeping all other types and values) and gives null-only schemas a null constant.',
  'inputs configurations', 'All schemas, all option combinations', 'Tests sample a few option types.', [TR], [('AddNullable', TR)], AI + '; rewrite oracle', BASE)
p('C18', 'Unevaluated-properties replacement adds exactly the known properties',
  'The transform that replaces `unevaluatedProperties` by `additionalProperties` removes the former, keeps its value, and declares as permitted exactly the properties named by the schema and by the subschemas nested in its `allOf`, `anyOf`, `oneOf`, `if`, `then` and `else`, keeping schemas that are already declared; schemas without the keyword are unchanged.',
  'inputs', 'All schemas', 'Tests sample a few.', [TR], [('ReplaceUnevaluatedProperties', TR), ('GatherPropertyNames', TR)], AI + '; rewrite oracle', BASE)
p('C19', 'Format restriction removes exactly the unlisted formats',
  'The transform that restricts formats removes `format` keywords, at every depth, exactly when the format is neither explicitly allowed nor defined by the meta-schema in force, and removes nothing when that meta-schema is unknown.',
  'inputs configurations', 'All schemas, all settings and meta-schemas', 'Tests sample a few formats.', [TR], [('RestrictFormats', TR)], AI + '; per-dialect format table oracle', BASE)
p('C20', 'Dialect presets are complete and consistent',
  'Each dialect preset has the meta-schema URI and definitions path of its dialect, and its transforms, applied to any schema, leave no keyword or construct that the dialect does not know and keep everything else: for draft-07 no sibling of `$ref`, no `prefixItems` and no `unevaluatedProperties`; for 2019-09 no `prefixItems`; for OpenAPI 3.0 all of those and no bool schemas (except as `additionalProperties`), null types, `const` or `examples`. All presets start with references (not inlining) and the deserialize contract, and switching the contract changes nothing else.',
  'inputs configurations', 'All presets and all schemas', 'Snapshots show it for the sampled types only.',
  [GEN, 'schemars/src/consts.rs'], [('SchemaSettings::draft07, draft2019_09, draft2020_12, openapi3', GEN)],
  AI + ' of the preset constructors and of their transform lists on schemas carrying every affected construct', BASE)
p('C21', 'Integer and float schemas allow exactly the values of the type',
  'For every primitive, non-zero and atomic number type, the schema\'s type, bounds and exclusions allow every value the type can hold and declare no bound narrower or wider than documented for its width and sign; unsigned types never allow negative numbers and non-zero types never allow zero.',
  'programs', 'All number types of the standard library', 'Tests cover some of the widths.', [IMPL + 'primitives.rs', IMPL + 'nonzero.rs', IMPL + 'atomic.rs'],
  [('simple_impl! / unsigned_impl!', IMPL + 'primitives.rs'), ('nonzero_unsigned_impl! / nonzero_signed_impl!', IMPL + 'nonzero.rs')], AI + ' of every impl; bounds derived from the type width', BASE)
p('C22', 'Wrappers are indistinguishable from the type they wrap',
  'Smart pointers, references, cells, locks, and other single-value wrappers whose serialised form is that of their content have exactly the schema, name, id, inlining and optionality of the wrapped type, for every wrapped type.',
  'programs', 'All wrapped types, all wrapper types, all trait methods', 'A method that is not forwarded shows only for wrapped types that override it (such as options in flattened fields).',
  [IMPL + 'wrapper.rs', IMPL + 'mod.rs'], [('forward_impl!', IMPL + 'mod.rs')], AI + ' with an opaque wrapped type; sibling agreement', BASE)
p('C23', 'Sequence, set, array and tuple schemas match their serialised form',
  'Sequences have an unbounded array of the element schema, sets add uniqueness, fixed arrays have exactly N items, bounded vectors at most N, and tuples have exactly one item schema per position, in order, with the exact length. Element schemas are always obtained from the generator for the right type parameter.',
  'programs', 'All element types, all lengths and arities', 'Tests use a few lengths and arities; macro-generated impls differ per arity.',
  [IMPL + 'sequences.rs', IMPL + 'array.rs', IMPL + 'tuple.rs'], [('seq_impl! / set_impl!', IMPL + 'sequences.rs'), ('tuple_impls!', IMPL + 'tuple.rs')], AI + ' with opaque element types', BASE)
p('C24', 'Optional schemas allow null and everything the inner schema allows',
  'The schema of an optional value allows null and exactly the values of the inner schema otherwise, whatever form the inner schema takes (bool, object with or without type, enum, constant, any-of, reference), without changing the meaning of other keywords.',
  'programs inputs', 'All inner schemas', 'Tests have a few inner types.', [IMPL + 'core.rs', PRIV], [('JsonSchema for Option<T>', IMPL + 'core.rs'), ('allow_null', PRIV)], AI + ' over all shapes of inner schema; null-adding oracle', BASE)
p('C25', 'Map schemas constrain values and keys as they are serialised',
  'A map\'s schema is an object whose values have the value type\'s schema; property names are restricted only as far as the key type\'s schema restricts the key strings: to decimal strings for integers (with a minus sign unless the minimum is 0), to a string pattern or enumeration where the key has one, to the union of these for any-of keys, also through references to definitions. All other keys leave property names unrestricted, so no key that serialisation can write is ever forbidden.',
  'programs', 'All key and value types', 'Tests have a few key types.', [IMPL + 'maps.rs'], [('JsonSchema for map types', IMPL + 'maps.rs')], AI + ' over shapes of key schema', BASE)
p('C26', 'Different generic types have different schema ids',
  'For all built-in type constructors, applying them to arguments with different ids (or different lengths or arities) gives different schema ids, and two constructors share an id only if they give the same schema for all arguments. Names derived from arguments mention every argument.',
  'programs', 'All pairs of built-in types and arguments', 'A collision shows only for two particular types used in one generator.',
  [IMPL], [('schema_id / schema_name of every impl', IMPL)], AI + ' of every id function with symbolic arguments; injectivity by template comparison', BASE)
p('C27', 'Contract-dependent schemas differ exactly as the two directions differ',
  'Types whose serialised and accepted forms differ (decimals, C strings, bytes, OS strings and similar) give the form written under the serialise contract and the forms accepted under the deserialise contract, everything written is also accepted, and all other built-in types ignore the contract.',
  'programs configurations', 'All built-in types under both contracts', 'Tests snapshot some types under one contract.', [IMPL], [('generator.contract() in impls', IMPL)], AI + ' of every impl under both contracts', BASE)
p('C28', 'Formatted-string types carry the documented type and format',
  'Types that serialise as strings in a standard format (dates, times, addresses, URLs, UUIDs, versions and the like) always have string type with exactly the format or pattern of that standard, in all supported versions of the providing crates and all type parameters.',
  'programs', 'All such types', 'Snapshots compare only the sampled impls; a swapped format is accepted by snapshot updates.', [IMPL], [('formatted_string_impl! / simple impls', IMPL)], AI + ' of every impl; format table', BASE)
p('C29', 'A schema inferred from a value accepts that value',
  'The schema inferred from any serialisable value accepts the JSON serialisation of that value: types, property names, nested sequences, tuples, maps, options and enum variants are all covered, and elements of a sequence share a schema only if it accepts all of them. The example recorded in the root schema is that JSON.',
  'inputs programs', 'All values of all serialisable types', 'Tests infer from a few values.', [SER, GEN], [('Serializer', SER), ('root_schema_for_value', GEN)], AI + ' with an abstract serialisation driver; acceptance oracle', BASE)
p('C30', 'Public operations never panic except where documented',
  'Generating schemas (for built-in and derived types, whatever schemas the types involved return, whatever names, paths and settings are used), applying transforms and presets to any schema document, including malformed ones (keywords holding values of unexpected JSON types, empty arrays or objects, odd strings), converting, looking up and editing schemas, and inferring schemas from values never panic, other than in the documented case (schema_for_value! on a value that cannot be serialized) and user code that itself panics.',
  'inputs programs', 'All inputs, including malformed schema documents', 'Panics need particular inputs, usually ones no test contains.', [SC, TR, GEN, 'schemars/src/_private/mod.rs', 'schemars/src/json_schema_impls/', 'schemars/src/encoding.rs'],
  [('indexing, unwrap, expect, unreachable', 'schemars/src')], AI + ': no precise abstract path of any public operation ends in a panic, for opaque arguments (leaves of any JSON type under every keyword, transforms of subschemas by induction) and for pools of malformed documents, names, paths and histories', BASE)
p('C31', 'Derived schemas include exactly the fields and variants of the contract',
  'A derived schema lists a field or variant under a contract exactly when serde writes (serialise) or reads (deserialise) it under that name: skip attributes for one direction remove it from that direction only, and write-only/read-only annotations appear exactly when one direction lacks it.',
  'programs configurations', 'All combinations of serde and schemars attributes, both contracts', 'Tests snapshot selected combinations.', [DX, 'schemars_derive/src/ast/from_serde.rs', DA + 'mod.rs'],
  [('SchemaExpr for fields and variants', DX)], AI + ' of derive-generated code for a matrix of witness types; serde-semantics oracle', BASE)
p('C32', 'Required properties are exactly those serde demands or always writes',
  'A property of a derived object schema is required under the deserialise contract exactly when deserialisation fails without it (no default on field or container, and not an Option), and under the serialise contract exactly when it is always written (no conditional skip). A `required` attribute makes an optional field required, and schemars attributes override serde ones.',
  'programs configurations', 'All attribute combinations and field types, both contracts', 'Tests snapshot selected combinations.', [DX, PRIV], [('insert_object_property / has_default', DX)], AI + ' of derive-generated code for a matrix of witness types', BASE)
p('C33', 'Renaming gives exactly the names serde uses',
  'Property names, variant names and tags in derived schemas are exactly the strings serde uses for that contract, for every combination of rename, rename_all, rename_all_fields, separate serialise/deserialise names and raw identifiers, on every level where serde accepts them.',
  'programs configurations', 'All identifiers, rename rules and levels, both contracts', 'Tests sample few rules.', ['schemars_derive/src/name.rs', 'schemars_derive/src/ast/from_serde.rs', DX], [('Name', 'schemars_derive/src/name.rs')], AI + ' of derive-generated code for a matrix of witness types; case-conversion oracle', BASE)
p('C34', 'Enum schemas describe serde\'s representation',
  'The derived schema of an enum describes exactly the JSON shape serde uses for each variant kind under each tagging (external, internal, adjacent, untagged, per-variant untagged): tag properties, content properties, requiredness and combination keyword, with unit-only enums collapsed to string enumerations only where equivalent.',
  'programs configurations', 'All taggings, variant kinds and combinations of them, both contracts', 'Tests sample combinations.', [DX, PRIV], [('expr_for_*_tagged_enum', DX), ('apply_internal_enum_variant_tag', PRIV)], AI + ' of derive-generated code for a matrix of witness types', BASE)
p('C35', 'Unknown-field denial appears exactly where serde denies',
  'A derived object schema forbids additional properties exactly when the container denies unknown fields, in every representation (structs, struct variants of all taggings, with the tag and content properties still allowed), and with flattened fields it forbids unevaluated properties instead.',
  'programs configurations', 'All containers and taggings', 'Tests sample combinations.', [DX, PRIV], [('deny_unknown_fields handling', DX)], AI + ' of derive-generated code for a matrix of witness types', BASE)
p('C36', 'Flattened fields contribute exactly the inner type\'s properties',
  'Flattening a field merges the properties and other keywords of the inner schema into the outer one under the same names, keeps them required only if the field is not optional, never creates a property named after the flattened field, and turns unit variants of a flattened enum into properties; denial of unknown fields in the inner schema is dropped so that the outer fields stay allowed, and flattened maps contribute additional properties.',
  'programs configurations', 'All inner schemas, optional and not, several flattened fields', 'Tests sample combinations.', [DX, PRIV], [('flatten', PRIV), ('_schemars_private_non_optional_json_schema', IMPL + 'core.rs')], AI + ' of derive-generated code for a matrix of witness types', BASE)
p('C37', 'Documentation and metadata attributes reach the schema with precedence',
  'Titles, descriptions, defaults, examples, deprecation and extensions given by attributes appear on exactly the schema of the annotated container, variant or field, explicit attributes win over doc comments, and annotations on a field never change the definition of the field\'s type.',
  'programs', 'All combinations and positions of metadata attributes', 'Tests sample combinations.', [DX, DA + 'mod.rs', DA + 'custom_meta.rs'], [('CommonAttrs / SchemaMetadata', DA + 'mod.rs')], AI + ' of derive-generated code for a matrix of witness types', BASE)
p('C38', 'Doc comments become title and description without losing text',
  'A doc comment becomes the description, and if its first line starts with `#` that line (without the `#`s) becomes the title and the rest the description. The text of every doc attribute or line is kept, in order, joined by line breaks, without the single space that starts a line and without whitespace at both ends; nothing else in it is changed. Doc comments of containers, fields and variants each go to their own schema.',
  'programs', 'All doc comments', 'Tests sample a few.', [DA + 'doc.rs', 'schemars/src/_private/rustdoc.rs'], [('get_title_and_description', 'schemars/src/_private/rustdoc.rs')], AI + ' of derive-generated code for witness types with enumerated doc comments', BASE)
p('C39', 'Validation attributes become the matching keywords',
  "Each validation attribute (length, range, regex/pattern, contains, email, url, ip, inner, required) adds exactly the keyword with the same meaning and the same bounds to the annotated field's schema when that schema's type admits it (strings and arrays for length, numbers for range, strings for patterns), to the items for `inner`, and leaves every other keyword as it is, whichever attribute namespace it is given in; schemars attributes win over validator/garde ones.",
  'programs', 'All validation attributes, values, field types and attribute namespaces', 'Tests sample combinations.', [DA + 'validation.rs', PRIV], [('ValidationAttrs', DA + 'validation.rs'), ('insert_validation_property', PRIV)], AI + ' of derive-generated code and helpers', BASE)
p('C40', 'Literal text in patterns is escaped',
  'A `contains` validation with a text literal produces a pattern that stands for exactly that text, for every text: every ECMA 262 syntax character in it is escaped and nothing else is, so the pattern matches the strings that contain the text and is a valid regular expression.',
  'inputs', 'All strings', 'Tests have one string.', ['schemars/src/_private/regex_syntax.rs', PRIV], [('regex_syntax::escape', 'schemars/src/_private/regex_syntax.rs')], AI + ' of derive-generated code for witness literals covering every ASCII character and classes of others; regular-expression literal oracle', BASE)
p('C41', 'Derived schema ids separate types and names follow renames',
  "The derived schema id of a type contains its module path, its name, every const argument and the id of every type argument that its schema depends on, separated so that different arguments give different ids; two types or instantiations with different schemas therefore never share an id. The derived name is the type's name, or its rename with every `{param}` replaced by the name or value of that argument and `{{`/`}}` unescaped; remote derives take the remote type's name.",
  'programs', 'All generic types and rename patterns', 'Tests sample a few.', ['schemars_derive/src/lib.rs'], [('schema_name / schema_id expressions', 'schemars_derive/src/lib.rs')], AI + ' of derive-generated id and name functions with opaque parameters', BASE)
p('C42', 'The derive macro accepts every supported program and only those',
  'Derived code compiles whatever types, traits, modules, macros and functions (other than lower-case constants or statics) are in scope or absent from it, also when the crate is renamed or re-exported, and requires `JsonSchema` only of the type parameters whose schemas are used '
  '(not of those that appear only in skipped fields, PhantomData or fields with a proxy), keeping the bounds the type declares. Unknown, malformed, repeated, misplaced or conflicting `schemars` attributes are compile errors and never silently ignored, '
  'the macro never panics, and unknown `serde`, `validate` and `garde` attributes are accepted.',
  'programs', 'All programs using the derive: names in scope, generic parameters, attributes and their combinations', 'Tests compile a few modules; the error tests are not part of the default run.', ['schemars_derive/src'],
  [('hygienic paths in quoted code', DX), ('attribute parsing and duplicate detection', DA), ('where-clause inference', 'schemars_derive/src/lib.rs')],
  'compile and compile-fail witnesses: every witness crate is type-checked by rustc against the current tree',
  'Decides each of the listed witness programs (about 90 that must compile, 350 that must be rejected) by type checking; programs without a witness are not covered.')
p('C43', 'Every feature combination compiles and only adds to the library',
  'Each optional feature, alone and with the others, with and without the standard library, compiles, and enabling a feature only adds: every public item and trait implementation that is there without it is there with it, and every function has the same code.',
  'configurations', 'All feature combinations', 'Tests run with all features.', ['schemars/Cargo.toml', 'schemars/src/lib.rs'], [('cfg(feature) gates', 'schemars/src')],
  'type checking of interface witnesses over feature combinations; comparison of the MIR of every function between feature sets',
  'Type-checks the interface witnesses under the empty set, each feature alone, each with std, all but one, and all (thorough: all pairs); compares every function body between the empty set, each single feature and all.')
p('C44', 'No unsafe code, no global mutable state, generators can cross threads',
  'The library and the code generated by its derive macro contain no unsafe code and no mutable, interior-mutable or thread-local global state, and generators, settings, schemas and transforms can be sent between threads.',
  'schedules programs', 'All schedules of any threads', 'Data races and influence between threads depend on schedules.', ['schemars/src', 'schemars_derive/src'], [('forbid(unsafe) / Send bounds', 'schemars/src/lib.rs')],
  'query over all functions, statics and source tokens of both crates; type-level Send witnesses', 'Exhaustive over all functions, statics, constants and source files of both crates and the code generated for the witness types.')
p('C45', 'Merging two object schemas loses nothing',
  'Merging the schemas of flattened fields into the outer object schema keeps every property, pattern property, required name and other keyword of both: `required` and `allOf` are concatenated, `properties` and `patternProperties` united, two `oneOf`s or `anyOf`s are both kept through `allOf`, any other keyword is taken over when the outer schema lacks it and otherwise the outer one stays. `additionalProperties` of either side becomes `unevaluatedProperties` when the other side brings subschemas that it would not see. Merging `true` allows additional properties, merging `false` changes nothing, and merging never panics.',
  'inputs', 'All pairs of schemas', 'Tests sample few pairs.', [PRIV], [('flatten', PRIV)], AI + ' of derive-generated flattening over pairs and triples of schema shapes; merge oracle', BASE)
p('C46', 'Transforms keep their identity in the settings',
  'A transform added to the settings can be found, borrowed, mutated and taken back as exactly the concrete type it was added as, never as another type, and a failed conversion returns the original; cloned settings and generators carry the same transforms in the same order.',
  'histories programs', 'All transform types and operation sequences', 'Tests have doc examples only.', [GEN], [('GenTransform', GEN), ('Clone for Box<dyn GenTransform>', GEN)], AI, BASE)
p('C48', 'Proxy attributes use exactly the proxy\'s schema',
  "With `with`, `schema_with`, `from`, `try_from`, `into`, `transparent` and remote derives, the schema under each contract is that of the type (or function) actually used in that direction. Where `with` or `transparent` replaces the whole container and no metadata is added, its name, id, inlining and optionality are the proxy's as well; otherwise they are the container's own.",
  'programs configurations', 'All proxy attributes and combinations', 'Tests sample combinations.', [DX, 'schemars_derive/src/lib.rs'], [('with / from / into handling', DX)], AI + ' of derive-generated code for a matrix of witness types', BASE)
p('C49', 'Whatever serde writes validates against the generated schema',
  'For every type with a derived schema and every value of it, the JSON written by serde validates against the schema generated under the serialise contract, and every JSON the schema accepts under the deserialise contract deserialises.',
  'programs inputs', 'All types and values', 'Tests sample values.', ['schemars/src', 'schemars_derive/src'], [('whole system', 'schemars/src')], 'none', '',
  na='relates the runtime behaviour of serde-generated code and of arbitrary user implementations to the schema; no static argument in reach bounds it as a whole. Its structural clauses (names, requiredness, tagging, contracts, bounds) are claimed as C21-C36')
p('C50', 'What schemars generates by itself is valid JSON Schema',
  'Every keyword that schemars itself writes has the form that the meta-schema of the dialect (draft-07, 2019-09 or 2020-12) requires: the schemas of built-in types, the schemas derived for any combination of '
  'serde and schemars attributes, the schemas inferred from values, and root schemas never contain e.g. an empty oneOf/anyOf/prefixItems, an unknown or repeated type name, a repeated required property, a negative length or something '
  'that is not a schema where a schema belongs. The transforms of these presets keep a valid schema valid. Text and values that the user supplies verbatim (extend, transform, own implementations) are not covered, nor are '
  'flattened parts or a tag that demand a property that another part of the same object demands as well.',
  'programs configurations inputs', 'All types, attributes, values and presets', 'Tests validate the sampled types only; shapes that only rare inputs give (no variant or item left) are not sampled.', [DX, PRIV, SER, IMPL, TR],
  [('variant_subschemas / expr_for_tuple_struct', DX), ('SerializeTuple::end', SER), ('SchemaSettings presets', GEN)], AI + ' of implementations, derived code, value inference and preset transforms; meta-schema keyword rules', BASE)
