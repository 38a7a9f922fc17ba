B='schemars_derive/src/bound.rs'; PM='schemars_derive/src/attr/parse_meta.rs'; AM='schemars_derive/src/attr/mod.rs'; N='schemars_derive/src/name.rs'; P='schemars/src/_private/mod.rs'; T='schemars/src/transform.rs'; S='schemars/src/schema.rs'
HEAD='use schemars::{schema_for, JsonSchema};\n'
SEEDS=[
dict(id='d07-slice-bound',property='D07',
 needs='a generic type that uses its parameter only inside a slice type',
 breaks='the JsonSchema bound is missing, so the derived code does not compile',
 edits=[(B,'''            syn::Type::Slice(ty) => self.visit_type(field, &ty.elem),
''','')],
 demo=HEAD+'''
#[derive(JsonSchema)]
struct T<P> { a: Box<[P]>, b: u8 }
fn main() { println!("{:?}", schema_for!(T<u8>)); }
'''),
dict(id='d07-one-way-bound',property='D07',
 needs='a generic type that uses its parameter only in a field skipped in one direction',
 breaks='the JsonSchema bound is missing, so the derived code does not compile',
 edits=[(B,'''    if field.serde_attrs.skip_deserializing() && field.serde_attrs.skip_serializing() {
        return false;
    }

    true''','''    if field.serde_attrs.skip_deserializing() || field.serde_attrs.skip_serializing() {
        return false;
    }

    true''')],
 demo=HEAD+'''
#[derive(JsonSchema)]
struct T<P> { #[serde(skip_serializing)] a: Vec<P>, b: u8 }
fn main() { println!("{:?}", schema_for!(T<u8>)); }
'''),
dict(id='d07-max-with-equal',property='D07',
 needs='length(...) or range(...) with equal before max',
 breaks='the contradictory max is accepted instead of reported',
 edits=[(PM,'''                (Some(_), _) => cx.duplicate_error(&nested_meta),
                (_, Some(_)) => cx.mutual_exclusive_error(&nested_meta, "equal"),
                _ => result.max''','''                (Some(_), _) => cx.duplicate_error(&nested_meta),
                _ => result.max''')],
 demo=HEAD+'''
fn main() {}
''',bad='use schemars::JsonSchema; #[derive(JsonSchema)] struct T { #[schemars(length(equal = 3, max = 4))] a: String } fn main() {}'),
dict(id='d07-contains-item',property='D07',
 needs='an unknown item next to pattern in contains(...)',
 breaks='the unknown item is silently ignored',
 edits=[(PM,'''                if cx.attr_type == "schemars" {
                    cx.error_spanned_by(
                        nested_meta,
                        format_args!("unknown item in schemars `contains`''','''                if cx.attr_type == "schemars" && pattern.is_none() {
                    cx.error_spanned_by(
                        nested_meta,
                        format_args!("unknown item in schemars `contains`''')],
 demo=HEAD+'''
fn main() {}
''',bad='use schemars::JsonSchema; #[derive(JsonSchema)] struct T { #[schemars(contains(pattern = "a", flags = "i"))] a: String } fn main() {}'),
dict(id='s02-flatten-smaller-first',property='S02',
 needs='preserve_order, and a flattened struct with more properties than are declared before it',
 breaks='the flattened properties come before the ones declared first',
 feats=['preserve_order'],
 edits=[(P,'''                            if let Value::Object(o2) = value2 {
                                o1.extend(o2);''','''                            if let Value::Object(mut o2) = value2 {
                                if o1.len() < o2.len() {
                                    core::mem::swap(o1, &mut o2);
                                }
                                o1.extend(o2);''')],
 demo=HEAD+'''
#[derive(JsonSchema)] struct F { c: u8, b: u8 }
#[derive(JsonSchema)] struct T { z: u8, #[serde(flatten)] f: F }
fn main() {
    let s = schema_for!(T);
    let keys: Vec<_> = s.get("properties").unwrap().as_object().unwrap().keys().cloned().collect();
    assert_eq!(keys, ["z", "c", "b"]);
}
'''),
dict(id='s02-null-first-key',property='S02',
 needs='preserve_order, and an optional inlined type whose schema has a nullable anyOf before its other keywords',
 breaks='whether null is added to the anyOf depends on the order of the keywords, so the two builds differ',
 edits=[(P,'''            if obj.len() == 1
                && obj''','''            if obj.keys().next().is_some_and(|k| k == "anyOf")
                && obj''')],
 feats=['preserve_order'],
 demo="""use schemars::{schema_for, JsonSchema, SchemaGenerator, Schema};
macro_rules! ty { ($n:ident, $t:literal) => {
    struct $n;
    impl JsonSchema for $n {
        fn schema_name() -> std::borrow::Cow<'static, str> { "X".into() }
        fn inline_schema() -> bool { true }
        fn json_schema(_: &mut SchemaGenerator) -> Schema { serde_json::from_str($t).unwrap() }
    }
} }
ty!(A, r#"{"description": "d", "anyOf": [{"type": "null"}, {"type": "string"}]}"#);
ty!(B, r#"{"anyOf": [{"type": "null"}, {"type": "string"}], "description": "d"}"#);
fn main() {
    // the same keywords in another order
    assert_eq!(schema_for!(Option<A>), schema_for!(Option<B>));
}
"""),
dict(id='s02-default-keywords-text',property='S02',
 needs='a property whose default value is an object with a field named like a keyword',
 breaks='the fields of default values are reordered in the text',
 feats=['preserve_order'],
 edits=[(S,'''                    "examples" | "example" | "default" | "const" | "enum" | "dependentRequired"
''','''                    "examples" | "example" | "const" | "enum" | "dependentRequired"
''')],
 demo=HEAD+'''
#[derive(JsonSchema, Default, serde::Serialize)] struct N { z: u8, title: u8 }
#[derive(JsonSchema)] struct T { #[serde(default)] n: N }
fn main() {
    let s = serde_json::to_string(&schema_for!(T)).unwrap();
    assert!(s.contains(r#""default":{"z":0,"title":0}"#), "{s}");
}
'''),
]
