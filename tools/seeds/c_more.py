G='schemars/src/generate.rs'; E='schemars/src/encoding.rs'; S='schemars/src/schema.rs'; J='schemars/src/json_schema_impls/'
A='schemars_derive/src/attr/schemars_to_serde.rs'
HEAD='''
#![allow(dead_code)]
use schemars::{JsonSchema, Schema, SchemaGenerator, generate::SchemaSettings, json_schema};
use serde::{Deserialize, Serialize};
use serde_json::{Value, json};
fn gen() -> SchemaGenerator { SchemaSettings::draft2020_12().into_generator() }
fn de<T: JsonSchema>() -> Value { SchemaSettings::draft2020_12().for_deserialize().into_generator().into_root_schema_for::<T>().to_value() }
fn ser<T: JsonSchema>() -> Value { SchemaSettings::draft2020_12().for_serialize().into_generator().into_root_schema_for::<T>().to_value() }
'''
SEEDS=[
dict(id='d08-map-key-id',property='D08',
 needs='a generic type instantiated with two maps that differ in their key type only, both in one document',
 breaks='the two instantiations are taken for one type: the second refers to the schema of the first',
 edits=[(J+'maps.rs','''format!("Map<{}, {}>", K::schema_id(), V::schema_id())''','''format!("Map<{}, {}>", K::schema_name(), V::schema_id())''')],
 demo=HEAD+r'''
mod a { #[derive(super::JsonSchema, Ord, PartialOrd, Eq, PartialEq)] pub enum K { X, Y } }
mod b { #[derive(super::JsonSchema, Ord, PartialOrd, Eq, PartialEq)] pub enum K { P, Q } }
type M<K> = std::collections::BTreeMap<K, u8>;
#[derive(JsonSchema)]
struct W<T> { t: T }
fn main() {
    let mut g = gen();
    let x = g.subschema_for::<W<M<a::K>>>();
    let y = g.subschema_for::<W<M<b::K>>>();
    assert_ne!(x, y);
}
'''),
dict(id='d08-array-len',property='D08',
 needs='a generic type instantiated with arrays of two different lengths above nine, both in one document',
 breaks='both instantiations get the schema of the first',
 edits=[(J+'array.rs','''format!("[{}; {}]", $len, T::schema_id()).into()''','''format!("[{:.1}; {}]", stringify!($len), T::schema_id()).into()''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct W<T> { t: T }
fn main() {
    let mut g = gen();
    let x = g.subschema_for::<W<[u8; 1]>>();
    let y = g.subschema_for::<W<[u8; 12]>>();
    assert_ne!(x, y);
}
'''),
dict(id='d08-either-id',property='D08',
 needs='a generic type instantiated with two Eithers that differ in their right type only',
 breaks='both instantiations get the schema of the first',
 feats=['either1'],
 edits=[(J+'either1.rs','''format!("either::Either<{}, {}>", L::schema_id(), R::schema_id()).into()''','''format!("either::Either<{}, {}>", L::schema_id(), L::schema_id()).into()''')],
 demo=HEAD.replace('Serialize};','Serialize};')+r'''
#[derive(JsonSchema)]
struct W<T> { t: T }
fn main() {
    let mut g = gen();
    let x = g.subschema_for::<W<either::Either<u8, bool>>>();
    let y = g.subschema_for::<W<either::Either<u8, String>>>();
    assert_ne!(x, y);
}
''',deps='either = "1.3"\n'),
dict(id='t02-take-bool',property='T02',
 needs='a definition that is a boolean schema, taken with take_definitions(true) after a transform that handles booleans',
 breaks='the definition is returned without the transforms applied',
 edits=[(G,'''            for schema in definitions.values_mut().flat_map(<&mut Schema>::try_from) {
                self.apply_transforms(schema);
            }''','''            for schema in definitions.values_mut().flat_map(<&mut Schema>::try_from) {
                if schema.as_object().is_some() {
                    self.apply_transforms(schema);
                }
            }''')],
 demo=HEAD+r'''
use std::borrow::Cow;
struct Any;
impl JsonSchema for Any {
    fn schema_name() -> Cow<'static, str> { "Any".into() }
    fn json_schema(_: &mut SchemaGenerator) -> Schema { true.into() }
}
fn main() {
    let mut g = SchemaSettings::draft2020_12().with_transform(|s: &mut Schema| { s.insert("x-t".into(), 1.into()); }).into_generator();
    g.subschema_for::<Any>();
    let d = g.take_definitions(true);
    assert_eq!(d["Any"], json!({"x-t": 1}));
}
'''),
dict(id='t02-value-definitions',property='T02',
 needs='a generator that already holds definitions when a root schema is generated from a value',
 breaks='the definitions are added after the transforms and so are output untransformed',
 edits=[(G,'''        self.add_definitions(object, self.definitions.clone());
        self.apply_transforms(&mut schema);

        Ok(schema)''','''        let definitions = self.definitions.clone();
        self.apply_transforms(&mut schema);
        self.add_definitions(schema.ensure_object(), definitions);

        Ok(schema)''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct D { a: Option<u8> }
fn main() {
    let mut g = SchemaSettings::draft07().into_generator();
    g.subschema_for::<(D,)>();
    let mut g2 = SchemaSettings::draft2020_12().with_transform(schemars::transform::RecursiveTransform(|s: &mut Schema| { s.remove("format"); })).into_generator();
    g2.subschema_for::<D>();
    let s = g2.root_schema_for_value(&1).unwrap().to_value();
    assert!(!s.to_string().contains("uint8"), "{s}");
}
'''),
dict(id='s01-insert-false',property='S01',
 needs='insert of the key "not" into the schema false',
 breaks='insert reports no previous value although the schema had one',
 edits=[(S,'''        self.ensure_object().insert(k, v)''','''        let had = self.as_object().is_some();
        self.ensure_object().insert(k, v).filter(|_| had)''')],
 demo=HEAD+r'''
fn main() {
    let mut s: Schema = false.into();
    assert_eq!(s.insert("not".into(), json!({"type": "null"})), Some(json!({})));
}
'''),
dict(id='s01-order-defs',property='S01',
 needs='a definition called "type" or "title", that is written in the wrong place of the definitions object, or a definition that is itself named as a keyword holding an object',
 breaks='definitions are serialized twice in the output',
 edits=[(S,'''                        if !ORDERED_KEYWORDS_START.contains(&key.as_str())
                            && !ORDERED_KEYWORDS_END.contains(&key.as_str())
                        {''','''                        if !ORDERED_KEYWORDS_START.contains(&key.as_str())
                            && !(ORDERED_KEYWORDS_END.contains(&key.as_str()) && value.is_object())
                        {''')],
 demo=HEAD+r'''
fn main() {
    let s = json_schema!({"definitions": true, "type": "object"});
    let t = serde_json::to_string(&s).unwrap();
    assert_eq!(t.matches("definitions").count(), 1, "{t}");
}
'''),
dict(id='i01-nonzero-float-zero',property='I02',
 needs='a nonzero signed integer type and the value zero, where the schema stops excluding it',
 breaks='the schema of NonZeroI128 and the like accepts zero, which does not deserialize',
 edits=[(J+'nonzero.rs','''                let mut schema = <$primitive>::json_schema(generator);
                schema.insert("not".to_owned(), serde_json::json!({
                    "const": 0
                }));
                schema''','''                let mut schema = <$primitive>::json_schema(generator);
                let zero = if size_of::<$primitive>() > 8 { "0".into() } else { serde_json::Value::from(0) };
                schema.insert("not".to_owned(), serde_json::json!({
                    "const": zero
                }));
                schema''')],
 demo=HEAD+r'''
fn main() {
    assert!(serde_json::from_str::<std::num::NonZeroI128>("0").is_err());
    assert_eq!(de::<std::num::NonZeroI128>()["not"], json!({"const": 0}));
}
'''),
dict(id='i02-bound-unbounded',property='I02',
 needs='a Bound of an optional type, whose schema no longer restricts the string form',
 breaks='the schema accepts any string, although only "Unbounded" deserializes',
 edits=[(J+'core.rs','''                {
                    "type": "string",
                    "const": "Unbounded"
                }''','''                if T::_schemars_private_is_option() {
                    json_schema!({ "type": "string" })
                } else {
                    json_schema!({ "type": "string", "const": "Unbounded" })
                }''')],
 demo=HEAD+r'''
use std::ops::Bound;
fn main() {
    assert!(serde_json::from_str::<Bound<Option<u8>>>("\"x\"").is_err());
    assert!(de::<Bound<Option<u8>>>().to_string().contains("Unbounded"));
}
'''),
dict(id='i01-map-nested-keys',property='I01',
 needs='a map keyed by an enum that has both documented variants and plain ones, so that its schema is a oneOf of string constants and is not understood as a list of names',
 breaks='the map schema admits no property at all',
 edits=[(J+'maps.rs','''                _ => {
                    additional_properties = true;
                }''','''                _ => {
                    additional_properties = !option.contains_key("oneOf") || option.len() > 1;
                }''')],
 demo=HEAD+r'''
#[derive(Serialize, Deserialize, JsonSchema, PartialEq, Eq, PartialOrd, Ord)]
enum K { #[doc = "x"] A, B }
fn main() {
    let s = de::<std::collections::BTreeMap<K, u8>>();
    assert_ne!(s["additionalProperties"], json!(false), "{s}");
}
'''),
dict(id='d04-unset-copy',property='D04',
 needs='schemars(skip_serializing) on a field that has serde(skip_deserializing)',
 breaks='the schemars attribute drops the serde one, so the deserialize schema describes a field that serde ignores',
 edits=[(A,'''    if schemars_meta_names.contains("skip") {''','''    if schemars_meta_names.contains("skip_serializing") {
        schemars_meta_names.insert("skip_deserializing".to_string());
    }
    if schemars_meta_names.contains("skip") {''')],
 demo=HEAD+r'''
#[derive(JsonSchema, Deserialize, Serialize)]
struct S { #[serde(skip_deserializing)] #[schemars(skip_serializing)] a: u8, b: u8 }
fn main() {
    assert!(de::<S>()["properties"].get("a").is_none(), "{}", de::<S>());
}
'''),
dict(id='d04-rename-all-unset',property='D04',
 needs='schemars(!rename_all) or (!rename) together with serde(rename_all_fields) on an enum',
 breaks='unsetting rename_all also drops rename_all_fields',
 edits=[(A,'''            && !unset_meta.contains_key(&keyword)
''','''            && !unset_meta.contains_key(keyword.trim_end_matches("_fields"))
            && !unset_meta.contains_key(&keyword)
''')],
 demo=HEAD+r'''
#[derive(JsonSchema, Deserialize, Serialize)]
#[serde(rename_all = "UPPERCASE", rename_all_fields = "camelCase")]
#[schemars(!rename_all)]
enum E { Ab { a_b: u8 } }
fn main() {
    assert!(de::<E>().to_string().contains("aB"), "{}", de::<E>());
}
'''),
dict(id='n01-decode-upper',property='N01',
 needs='a pointer in fragment form in which a percent escape is followed by a character of more than one byte',
 breaks='the escape is taken literally, so the pointer leads nowhere',
 edits=[(E,'''            if let Some(decoded_byte) = segment
                .get(0..2)
''','''            if let Some(decoded_byte) = segment
                .get(0..2)
                .filter(|_| segment.get(2..3).is_some() || segment.len() == 2)
''')],
 demo=HEAD+r'''
fn main() {
    let s = json_schema!({"$defs": {" \u{e9}": true}});
    assert_eq!(s.pointer("#/$defs/%20\u{e9}"), Some(&json!(true)));
}
'''),

dict(id='g01-count-name',property='G01',
 needs='a type called A3 that is met before two different types called A (or A2 before ... and so on), in one document',
 breaks='the second A is numbered by counting and takes the name A3, so both refer to one definition',
 edits=[(G,'''                    for i in 2.. {
                        name = format!("{base_name}{i}").into();
                        if !this.used_schema_names.contains(&name) {
                            break;
                        }
                    }''','''                    let used = this.used_schema_names.iter();
                    let i = used.filter(|n| n.strip_prefix(base_name.as_ref()).is_some_and(|x| x.bytes().all(|b| b.is_ascii_digit()))).count() + 1;
                    name = format!("{base_name}{i}").into();''')],
 demo=HEAD+r'''
mod a { #[derive(super::JsonSchema)] pub struct T { pub a: u8 } }
mod b { #[derive(super::JsonSchema)] pub struct T { pub b: u8 } }
mod c { #[derive(super::JsonSchema)] pub struct T3 { pub c: u8 } }
#[derive(JsonSchema)]
struct R { z: c::T3, x: a::T, y: b::T }
fn main() {
    let v = de::<R>();
    assert_eq!(v["$defs"].as_object().unwrap().len(), 3, "{v}");
}
'''),
dict(id='g03-trailing-slash',property='G03',
 needs='a definitions path with a trailing slash but without a leading #',
 breaks='the definitions are put one level deeper than configured, under an empty key',
 edits=[(G,'''        let path = path.strip_prefix('#').unwrap_or(path);
        path.strip_suffix('/').unwrap_or(path)''','''        match path.strip_prefix('#') {
            Some(path) => path.strip_suffix('/').unwrap_or(path),
            None => path,
        }''')],
 demo=HEAD+r'''
#[derive(JsonSchema)]
struct D { a: u8 }
fn main() {
    let v = SchemaSettings::draft2020_12().with(|s| s.definitions_path = "/components/schemas/".into()).into_generator().into_root_schema_for::<(D,)>().to_value();
    assert!(v["components"]["schemas"].get("D").is_some(), "{v}");
}
'''),
]
