G='schemars/src/generate.rs'; T='schemars/src/transform.rs'; P='schemars/src/_private/mod.rs'
SEEDS=[
dict(id='g02-name-reuse',property='G02',
 needs='three types with the same schema name used on one generator, with take_definitions() called in between',
 breaks='the disambiguated name of an earlier type is given to another type, so later references to the earlier type lead to the wrong definition',
 edits=[(G,'''                        if !this.used_schema_names.contains(&name) {
                            break;''','''                        if !this.definitions.contains_key(name.as_ref()) {
                            break;''')],
 demo=r'''
use schemars::{JsonSchema, SchemaGenerator};
mod a { #[derive(schemars::JsonSchema)] pub struct X { #[allow(dead_code)] pub a: u8 } }
mod b { #[derive(schemars::JsonSchema)] pub struct X { #[allow(dead_code)] pub b: u8 } }
mod c { #[derive(schemars::JsonSchema)] pub struct X { #[allow(dead_code)] pub c: u8 } }
fn look<T: JsonSchema>(g: &mut SchemaGenerator, field: &str) {
    let r = g.subschema_for::<T>();
    let name = r.get("$ref").unwrap().as_str().unwrap().rsplit('/').next().unwrap().to_string();
    let def = g.definitions().get(&name).expect("dangling").clone();
    assert!(def["properties"].get(field).is_some(), "{name} is {def}");
}
fn main() {
    let mut g = SchemaGenerator::default();
    look::<a::X>(&mut g, "a");
    look::<b::X>(&mut g, "b");
    g.take_definitions(false);
    look::<c::X>(&mut g, "c");
    look::<b::X>(&mut g, "b");
}
'''),
dict(id='n01-pointer-hash',property='N01',
 needs='looking up a fragment pointer that starts with a second, undecoded # (which is not a JSON pointer)',
 breaks='Schema::pointer finds a value where a standards-conforming reader finds none',
 edits=[('schemars/src/schema.rs',"""    pub fn pointer(&self, pointer: &str) -> Option<&Value> {
        if let Some(percent_encoded) = pointer.strip_prefix('#') {
            let decoded = crate::encoding::percent_decode(percent_encoded)?;""","""    pub fn pointer(&self, pointer: &str) -> Option<&Value> {
        if let Some(percent_encoded) = pointer.strip_prefix('#') {
            let percent_encoded = percent_encoded.trim_start_matches('#');
            let decoded = crate::encoding::percent_decode(percent_encoded)?;""")],
 demo=r'''
fn main() {
    let s = schemars::json_schema!({"a": true});
    assert!(s.pointer("#/a").is_some());
    assert!(s.pointer("##/a").is_none());
}
'''),
dict(id='t01-contains',property='T01',
 needs='a document with a subschema beneath `contains`',
 breaks='recursive transforms skip subschemas under contains',
 edits=[(T,'''            | "else"
            | "contains"
''','''            | "else"
''')],
 demo=r'''
use schemars::transform::{RecursiveTransform, Transform};
fn main() {
    let mut s = schemars::json_schema!({"type":"array","contains":{"type":"string"}});
    RecursiveTransform(|s: &mut schemars::Schema| { s.insert("x-seen".into(), true.into()); }).transform(&mut s);
    assert_eq!(s.pointer("/contains/x-seen"), Some(&serde_json::json!(true)));
}
'''),
dict(id='t03-ref-siblings',property='T03',
 needs='a schema with $ref next to an allOf, converted to draft 7 or OpenAPI 3.0',
 breaks='the existing allOf members are dropped, so more values are accepted',
 edits=[(T,'''                if let Value::Array(all_of) = obj.entry("allOf").or_insert(Value::Array(Vec::new()))
                {
                    all_of.push(json!({
                        "$ref": ref_value
                    }));
                }''','''                let all_of = json!([{ "$ref": ref_value }]);
                obj.insert("allOf".to_owned(), all_of);''')],
 demo=r'''
use schemars::transform::{RemoveRefSiblings, Transform};
fn main() {
    let mut s = schemars::json_schema!({"$ref":"#/$defs/A","allOf":[{"required":["b"]}],"$defs":{"A":true}});
    RemoveRefSiblings::default().transform(&mut s);
    let all = s.get("allOf").unwrap().as_array().unwrap().clone();
    assert!(all.contains(&serde_json::json!({"required":["b"]})), "{all:?}");
    assert!(all.contains(&serde_json::json!({"$ref":"#/$defs/A"})), "{all:?}");
}
'''),
dict(id='t03-prefix-items-bool',property='T03',
 needs='prefixItems together with a boolean `items`, converted to draft 7',
 breaks='items: false is lost when prefixItems is renamed, so longer arrays are accepted',
 edits=[(T,'''            let previous_items = schema.insert("items".to_owned(), prefix_items);
''','''            let previous_items = schema
                .insert("items".to_owned(), prefix_items)
                .filter(Value::is_object);
''')],
 demo=r'''
use schemars::transform::{ReplacePrefixItems, Transform};
fn main() {
    let mut s = schemars::json_schema!({"type":"array","prefixItems":[{"type":"string"}],"items":false});
    ReplacePrefixItems::default().transform(&mut s);
    assert_eq!(s.get("additionalItems"), Some(&serde_json::json!(false)));
}
'''),
dict(id='t04-no-restore',property='T04',
 needs='a subschema with its own $schema, followed by a sibling whose format is only defined by the outer meta-schema',
 breaks='the inner meta-schema stays in force for later siblings, so their formats are removed',
 edits=[(T,'''        transform_subschemas(self, schema);

        self.inferred_formats = previous_inferred_formats;''','''        transform_subschemas(self, schema);

        self.inferred_formats = previous_inferred_formats.and(self.inferred_formats);''')],
 demo=r'''
use schemars::transform::{RestrictFormats, Transform};
fn main() {
    let mut s = schemars::json_schema!({
        "$schema": "https://json-schema.org/draft/2020-12/schema",
        "anyOf": [
            { "$schema": "http://json-schema.org/draft-07/schema#", "type": "string" },
            { "type": "string", "format": "uuid" }
        ]
    });
    RestrictFormats::default().transform(&mut s);
    assert_eq!(s.pointer("/anyOf/1/format"), Some(&serde_json::json!("uuid")));
}
'''),
dict(id='o01-anyof-null',property='O01',
 needs='an optional type whose schema has an anyOf with a null member beside another constraint',
 breaks='null is not accepted by the optional schema',
 edits=[(P,'''            if obj.len() == 1
                && obj''','''            if !obj.contains_key("$ref")
                && obj''')],
 demo=r'''
use schemars::{JsonSchema, Schema, SchemaGenerator};
struct A;
impl JsonSchema for A {
    fn schema_name() -> std::borrow::Cow<'static, str> { "A".into() }
    fn inline_schema() -> bool { true }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type":"string","anyOf":[{"type":"null"},{"maxLength":3}]})
    }
}
fn main() {
    let s = <Option<A>>::json_schema(&mut SchemaGenerator::default());
    // either the type allows null, or null is a separate alternative
    assert!(s.get("type").is_none(), "{s:?}");
}
'''),
dict(id='v01-items-by-type',property='V01',
 needs='inferring a schema from a list whose elements have the same JSON type but different shapes',
 breaks='elements after the first are not described, so the example is rejected by its own schema',
 edits=[('schemars/src/ser.rs','''        } else if !self.items.contains(&schema) {''','''        } else if !(self.items.iter()).any(|s| s == &schema || (s.get("type").is_some_and(|t| t == "array") && s.get("type") == schema.get("type"))) {''')],
 demo=r'''
fn main() {
    let s = schemars::schema_for_value!(vec![serde_json::json!([1]), serde_json::json!(["a"])]);
    let text = serde_json::to_string(&s).unwrap();
    assert!(text.contains("integer") && text.contains("string"), "{text}");
}
'''),
]
