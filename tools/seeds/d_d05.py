V='schemars_derive/src/attr/validation.rs'; M='schemars_derive/src/attr/parse_meta.rs'; P='schemars/src/_private/mod.rs'; X='schemars_derive/src/schema_exprs.rs'; C='schemars/src/json_schema_impls/core.rs'
HEAD='''
#![allow(dead_code)]
use schemars::{JsonSchema, generate::SchemaSettings};
use serde_json::{Value, json};
fn de<T: JsonSchema>() -> Value { SchemaSettings::draft2020_12().for_deserialize().into_generator().into_root_schema_for::<T>().to_value() }
fn ser<T: JsonSchema>() -> Value { SchemaSettings::draft2020_12().for_serialize().into_generator().into_root_schema_for::<T>().to_value() }
'''
SEEDS=[
dict(id='d05-optional-integer-range',property='D05',
 needs='a range on an optional integer field (whose schema states several types)',
 breaks='the range is dropped',
 edits=[(P,'''(required_type == "number" && schema.has_type("integer"))''','''(required_type == "number" && schema.get("type") == Some(&Value::from("integer")))''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct T { #[schemars(range(min = 2, max = 5))] a: Option<u8> }
fn main() {
    let s = de::<T>();
    assert_eq!(s["properties"]["a"]["minimum"], json!(2));
    assert_eq!(s["properties"]["a"]["maximum"], json!(5));
}
'''),
dict(id='d05-contains-backslash',property='D05',
 needs='a substring with a vertical bar',
 breaks='the bar is left unescaped: any value with one of the two halves is accepted',
 edits=[('schemars/src/_private/regex_syntax.rs',"'\\\\' | '.' | '+' | '*' | '?' | '(' | ')' | '|' | '['","'\\\\' | '.' | '+' | '*' | '?' | '(' | ')' | '['")],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct T { #[schemars(contains("a|b"))] a: String }
fn main() {
    assert_eq!(de::<T>()["properties"]["a"]["pattern"], json!("a\\|b"));
}
'''),
dict(id='d05-required-default',property='D05',
 needs='a required field that also has a default, in the deserialize contract',
 breaks='the field may not be missing although serde fills it in',
 edits=[(X,'''#has_default || (!#required_attr &&''','''(!#required_attr && #has_default) || (!#required_attr &&''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct T { #[serde(default)] #[schemars(required)] a: Option<u8>, b: bool }
fn main() {
    assert_eq!(de::<T>()["required"], json!(["b"]));
}
'''),
dict(id='d05-nested-inner',property='D05',
 needs='constraints on the items of items (inner within inner)',
 breaks='the innermost constraints are put one level too high and so lost',
 edits=[(V,'''inner.add_mutators2(&mut inner_mutators, &quote!(inner_schema));''','''inner.add_mutators2(&mut inner_mutators, &quote!(inner_schema));
                if inner.inner.is_some() && inner_mutators.len() == 1 {
                    inner_mutators.clear();
                }''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct T { #[schemars(inner(inner(length(max = 2))))] a: Vec<Vec<String>> }
fn main() {
    assert_eq!(de::<T>()["properties"]["a"]["items"]["items"]["maxLength"], json!(2));
}
'''),
dict(id='d05-override-format',property='D05',
 needs='a format attribute of the schemars family that overrides another one of the validate family',
 breaks='the overridden format wins',
 edits=[(V,'''            Some(current) if current == format => cx.duplicate_error(meta),
            Some(current) => cx.mutual_exclusive_error(meta, current.attr_str()),''','''            Some(current) if current == format => cx.duplicate_error(meta),
            Some(Format::Uri) if cx.attr_type == "validate" => self.format = Some(format),
            Some(current) => cx.mutual_exclusive_error(meta, current.attr_str()),''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct T { #[validate(email)] #[schemars(url)] a: String }
fn main() {
    assert_eq!(de::<T>()["properties"]["a"]["format"], json!("uri"));
}
'''),
dict(id='d05-equal-zero-items',property='D05',
 needs='an optional sequence with a length constraint',
 breaks='the length of an optional sequence is not constrained',
 edits=[(P,'''    if schema.has_type(required_type) ||''','''    if required_type == "array" && schema.has_type("null") {
        return;
    }
    if schema.has_type(required_type) ||''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct T { #[schemars(length(equal = 2))] a: Option<Vec<u8>> }
fn main() {
    assert_eq!(de::<T>()["properties"]["a"]["maxItems"], json!(2));
}
'''),
]
