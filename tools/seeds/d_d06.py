P='schemars/src/_private/mod.rs'; X='schemars_derive/src/schema_exprs.rs'; A='schemars_derive/src/attr/mod.rs'; R='schemars/src/_private/rustdoc.rs'; O='schemars_derive/src/attr/doc.rs'
HEAD='''
#![allow(dead_code)]
use schemars::{JsonSchema, generate::SchemaSettings};
use serde_json::{Value, json};
fn de<T: JsonSchema>() -> Value { SchemaSettings::draft2020_12().for_deserialize().into_generator().into_root_schema_for::<T>().to_value() }
'''
SEEDS=[
dict(id='d06-field-default-in-default-container',property='D06',
 needs='#[serde(default)] on a field of a struct that itself has #[serde(default)], where the two defaults differ',
 breaks='the schema states the container default, although serde fills in the field type default',
 edits=[(X,'''        SerdeDefault::Default => quote!(<#ty>::default()),''','''        SerdeDefault::Default if container_has_default => {
            let member = &field.member;
            quote!(#STRUCT_DEFAULT.#member)
        }
        SerdeDefault::Default => quote!(<#ty>::default()),''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
#[serde(default)]
struct T { #[serde(default)] a: u8, b: u8 }
impl Default for T { fn default() -> T { T { a: 7, b: 7 } } }
fn main() {
    assert_eq!(de::<T>()["properties"]["a"]["default"], json!(0));
    assert_eq!(de::<T>()["properties"]["b"]["default"], json!(7));
}
'''),
dict(id='d06-variant-examples',property='D06',
 needs='a unit variant whose only annotation is an example, in an externally tagged enum',
 breaks='the variant is merged with the plain ones and the example is lost',
 edits=[(A,'''                transforms,
            } if examples.is_empty() && extensions.is_empty() && transforms.is_empty()''','''                transforms,
            } if (examples.is_empty() || self.doc.is_none()) && extensions.is_empty() && transforms.is_empty()''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
enum T { A, #[schemars(example = 5)] B }
fn main() {
    assert!(de::<T>().to_string().contains("\"examples\":[5]"));
}
'''),
dict(id='d06-doc-indentation',property='D06',
 needs='a documentation line that is indented with a tab',
 breaks='the indentation is lost',
 edits=[(O,'''if let Some(trimmed) = lit_str.value().strip_prefix(' ') {
                trimmed.to_tokens''','''if let Some(trimmed) = lit_str.value().strip_prefix(' ') {
                let trimmed: &str = if i > 0 && trimmed.starts_with('\\t') { trimmed.trim_start() } else { trimmed };
                trimmed.to_tokens''')],
 demo=HEAD+r'''
/// list
/// 	* item
#[derive(JsonSchema)]
struct T(u8);
fn main() {
    assert_eq!(de::<T>()["description"], json!("list\n\t* item"));
}
'''),
dict(id='d06-failing-example',property='D06',
 needs='several examples, one of which cannot be serialized',
 breaks='all examples are dropped',
 edits=[(A,'''[#(#examples),*].into_iter().flatten().collect()''','''[#(#examples),*].into_iter().collect::<::core::result::Result<_, _>>().unwrap_or_default()''')],
 demo=HEAD+r'''
fn bad() -> std::collections::BTreeMap<(u8, u8), u8> { [((1, 2), 3)].into() }
#[derive(JsonSchema)]
#[schemars(example = 1, example = bad())]
struct T(u8);
fn main() {
    assert_eq!(de::<T>()["examples"], json!([1]));
}
'''),
dict(id='d06-failing-default',property='D06',
 needs='a default that cannot be serialized as JSON',
 breaks='a null default is stated',
 edits=[(P,'''serde_json::value::to_value(self.0).ok()''','''Some(serde_json::value::to_value(self.0).unwrap_or_default())''')],
 demo=HEAD+r'''
use std::collections::HashMap;
fn make() -> HashMap<u8, u128> { HashMap::from([(1, u128::MAX)]) }
#[derive(JsonSchema)]
struct T { #[serde(default = "make")] a: HashMap<u8, u128> }
fn main() {
    assert_eq!(de::<T>()["properties"]["a"].get("default"), None);
}
'''),
]
