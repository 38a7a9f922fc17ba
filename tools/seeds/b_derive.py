P='schemars/src/_private/mod.rs'; X='schemars_derive/src/schema_exprs.rs'
HEAD='''
#![allow(dead_code)]
use schemars::JsonSchema;
use serde::{Deserialize, Serialize};
use serde_json::Value;
fn de<T: JsonSchema>() -> Value { schemars::generate::SchemaSettings::draft2020_12().for_deserialize().with(|s| s.inline_subschemas = true).into_generator().into_root_schema_for::<T>().to_value() }
fn ser<T: JsonSchema>() -> Value { schemars::generate::SchemaSettings::draft2020_12().for_serialize().into_generator().into_root_schema_for::<T>().to_value() }
'''
SEEDS=[
dict(id='d01-flatten-nested-deny',property='D01',
 needs='an untagged enum with deny_unknown_fields, whose variants carry additionalProperties: false in their own subschemas, flattened into a struct with a field of its own',
 breaks='the deserialize schema rejects every value of the struct',
 edits=[(P,'''            schema.remove("unevaluatedProperties");
            self.did_modify = true;
        }

        transform_immediate_subschemas(self, schema);''','''            schema.remove("unevaluatedProperties");
            self.did_modify = true;
        }

        if !schema.as_object().is_some_and(|o| o.contains_key("anyOf") && o.len() == 1 && !o["anyOf"].as_array().unwrap().contains(&json!({}))) {
            transform_immediate_subschemas(self, schema);
        }''')],
 demo=HEAD+r'''
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(untagged, deny_unknown_fields)]
enum E { A { q: u8 }, B { r: u8 } }
#[derive(Serialize, Deserialize, JsonSchema)]
struct S { x: u8, #[serde(flatten)] e: E }
fn main() {
    let v = serde_json::to_value(S { x: 1, e: E::A { q: 1 } }).unwrap();
    assert!(serde_json::from_value::<S>(v).is_ok());
    assert!(!de::<S>().to_string().contains("\"additionalProperties\":false"), "{}", de::<S>());
}
'''),
dict(id='d02-internal-unevaluated',property='D02',
 needs='a struct with deny_unknown_fields and a flattened enum, used as the content of an internally tagged newtype variant',
 breaks='the serialize schema refers to a schema that forbids the tag, so it rejects what is serialized',
 edits=[(P,'''        || schema.get("unevaluatedProperties").and_then(Value::as_bool) == Some(false)
        || schema''','''        || schema''')],
 demo=HEAD+r'''
#[derive(Serialize, Deserialize, JsonSchema)]
enum E { A(u8), B(u8) }
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(deny_unknown_fields)]
struct S { x: u8, #[serde(flatten)] e: E }
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t")]
enum T { V(S) }
fn main() {
    let s = ser::<T>();
    // a $ref to a schema with unevaluatedProperties: false beside the tag would reject the tag
    let v = &s["oneOf"][0];
    if let Some(r) = v.get("$ref") {
        let d = s.pointer(&r.as_str().unwrap()[1..]).unwrap();
        assert_ne!(d.get("unevaluatedProperties"), Some(&Value::Bool(false)), "{s}");
        assert_ne!(d.get("additionalProperties"), Some(&Value::Bool(false)), "{s}");
    }
}
'''),
dict(id='d03-skip-if-optional',property='D03',
 needs='a field with skip_serializing_if but without default, beside a flattened field, in the deserialize contract',
 breaks='the field is not required by the deserialize schema although serde requires it',
 edits=[(X,'''let is_optional = if has_skip_serialize_if && has_default {''','''let is_optional = if has_skip_serialize_if && (has_default || fields.iter().any(|f| f.serde_attrs.flatten())) {''')],
 demo=HEAD+r'''
fn never(_: &u8) -> bool { false }
#[derive(Serialize, Deserialize, JsonSchema)]
struct S { #[serde(skip_serializing_if = "never")] a: u8, #[serde(flatten)] m: std::collections::BTreeMap<String, u8> }
fn main() {
    assert!(serde_json::from_str::<S>("{}").is_err());
    assert_eq!(de::<S>()["required"], serde_json::json!(["a"]));
}
'''),
dict(id='d01-option-flatten-required',property='D01',
 needs='an optional flattened struct that itself contains a flattened enum',
 breaks='the deserialize schema requires the inner fields although the whole is optional',
 edits=[(P,'''            schema.remove("required");
''','''            if !schema.as_object().is_some_and(|o| o.contains_key("oneOf")) {
                schema.remove("required");
            }
''')],
 demo=HEAD+r'''
#[derive(Serialize, Deserialize, JsonSchema)]
enum E { A(u8), B(u8) }
#[derive(Serialize, Deserialize, JsonSchema)]
struct I { w: u8, #[serde(flatten)] e: E }
#[derive(Serialize, Deserialize, JsonSchema)]
struct S { x: u8, #[serde(flatten)] i: Option<I> }
fn main() {
    assert!(serde_json::from_str::<S>(r#"{"x": 1}"#).unwrap().i.is_none());
    assert!(!de::<S>()["required"].to_string().contains("\"w\""), "{}", de::<S>());
}
'''),
dict(id='d02-variant-skip-dir',property='D02',
 needs='a tuple variant that is skipped only when deserializing, in the serialize contract',
 breaks='a variant that can be serialized is missing from the serialize schema of an enum that mixes unit and other variants',
 edits=[(X,'''        let add = quote! {
            enum_values.push(#schema.to_value());
        };
        match variant {
            Some(v) => v.with_contract_check(add),''','''        let add = quote! {
            enum_values.push(#schema.to_value());
        };
        match variant {
            Some(v) if v.serde_attrs.skip_deserializing() && matches!(v.style, Style::Tuple) => TokenStream::new(),
            Some(v) => v.with_contract_check(add),''')],
 demo=HEAD+r'''
#[derive(Serialize, Deserialize, JsonSchema)]
#[serde(tag = "t", content = "c")]
enum T { A(u8), #[serde(skip_deserializing)] B(u8, String) }
fn main() {
    let s = ser::<T>();
    assert_eq!(s["oneOf"].as_array().unwrap().len(), 2, "{s}");
}
'''),
dict(id='d03-unit-skip',property='D03',
 needs='an externally tagged enum with exactly one plain unit variant, which is skipped in one direction, beside other variants',
 breaks='the schema admits a variant that cannot be read',
 edits=[(X,'''    let add_unit_names = unit_variants.iter().map(|v| {
        let name = v.name();
        v.with_contract_check(quote! {
            enum_values.push((#name).into());
        })
    });''','''    let add_unit_names = unit_variants.iter().map(|v| {
        let name = v.name();
        let push = quote! {
            enum_values.push((#name).into());
        };
        if unit_variants.len() > 1 || complex_variants.is_empty() {
            v.with_contract_check(push)
        } else {
            push
        }
    });''')],
 demo=HEAD+r'''
#[derive(Serialize, Deserialize, JsonSchema)]
enum T { #[serde(skip_deserializing)] A, B(u8) }
fn main() {
    assert!(serde_json::from_str::<T>("\"A\"").is_err());
    assert!(!de::<T>().to_string().contains("\"A\""), "{}", de::<T>());
}
'''),
]
