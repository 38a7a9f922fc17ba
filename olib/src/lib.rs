//! Shared by the two runners of S02: one is built with schemars' `preserve_order`, one without. Emits every document as
//! text, and checks the order of the keys of every `properties` object in it.
use schemars::generate::{SchemaGenerator, SchemaSettings};
use schemars::{JsonSchema, Schema};
use serde::de::{MapAccess, SeqAccess, Visitor};
use serde::{Deserialize, Deserializer};
use serde_json::{json, Value};
use std::cell::RefCell;

/// JSON with the order of the keys as written
#[derive(Debug, Clone)]
pub enum J {
    Leaf(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl<'de> Deserialize<'de> for J {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<J, D::Error> {
        struct V;
        impl<'de> Visitor<'de> for V {
            type Value = J;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("JSON")
            }
            fn visit_bool<E>(self, v: bool) -> Result<J, E> {
                Ok(J::Leaf(v.to_string()))
            }
            fn visit_u64<E>(self, v: u64) -> Result<J, E> {
                Ok(J::Leaf(v.to_string()))
            }
            fn visit_i64<E>(self, v: i64) -> Result<J, E> {
                Ok(J::Leaf(v.to_string()))
            }
            fn visit_f64<E>(self, v: f64) -> Result<J, E> {
                Ok(J::Leaf(format!("{v:?}")))
            }
            fn visit_unit<E>(self) -> Result<J, E> {
                Ok(J::Leaf("null".into()))
            }
            fn visit_str<E>(self, v: &str) -> Result<J, E> {
                Ok(J::Leaf(format!("{v:?}")))
            }
            fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_element()? {
                    v.push(x);
                }
                Ok(J::Arr(v))
            }
            fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<J, A::Error> {
                let mut v = vec![];
                while let Some(x) = a.next_entry()? {
                    v.push(x);
                }
                Ok(J::Obj(v))
            }
        }
        d.deserialize_any(V)
    }
}
pub fn canon(j: &J, out: &mut String) {
    match j {
        J::Leaf(s) => *out += s,
        J::Arr(v) => {
            *out += "[";
            for x in v {
                canon(x, out);
                *out += ",";
            }
            *out += "]";
        }
        J::Obj(v) => {
            let mut v: Vec<_> = v.iter().collect();
            v.sort_by(|a, b| a.0.cmp(&b.0));
            *out += "{";
            for (k, x) in v {
                *out += &format!("{k:?}:");
                canon(x, out);
                *out += ",";
            }
            *out += "}";
        }
    }
}
pub fn fnv(s: &str) -> u64 {
    s.bytes().fold(0xcbf29ce484222325, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3))
}

pub struct Run {
    pub po: bool,
    /// print the document with this id instead
    pub dump: Option<String>,
    pub out: std::io::BufWriter<std::io::Stdout>,
    pub tier: String,
    /// this process does every n-th case, from i
    pub shard: (usize, usize),
    pub count: usize,
}
pub fn start(po: bool) -> Run {
    let mut a = std::env::args().skip(1);
    let tier = a.next().unwrap_or_default();
    let mut n = || a.next().and_then(|s| s.parse().ok());
    let shard = (n().unwrap_or(0), n().unwrap_or(1));
    Run { po, dump: a.next(), out: std::io::BufWriter::new(std::io::stdout()), tier, shard, count: 0 }
}
impl Run {
    pub fn mine(&mut self) -> bool {
        self.count += 1;
        self.count % self.shard.1 == self.shard.0
    }
    fn line(&mut self, id: &str, text: &str, err: &str) {
        use std::io::Write;
        if let Some(d) = &self.dump {
            if d == id {
                println!("{text}");
                std::process::exit(0);
            }
            return;
        }
        let j: J = serde_json::from_str(text).expect("the document is JSON");
        let mut c = String::new();
        canon(&j, &mut c);
        writeln!(self.out, "{id}\t{:016x}\t{:016x}\t{err}", fnv(&c), fnv(text)).unwrap();
    }
    /// A document with what the order of its properties has to be.
    pub fn doc(&mut self, id: &str, text: &str, seqs: &[&[&str]]) {
        if self.dump.as_deref().is_some_and(|d| d != id) {
            return;
        }
        let j: J = serde_json::from_str(text).expect("the document is JSON");
        let mut err = String::new();
        order(&j, self.po, seqs, &mut err);
        self.line(id, text, &err);
    }
}
/// values in the schema: objects in them are in order, too
fn plain(j: &J, po: bool, seqs: &[&[&str]], err: &mut String) {
    match j {
        J::Leaf(_) => {}
        J::Arr(v) => v.iter().for_each(|x| plain(x, po, seqs, err)),
        J::Obj(v) => {
            let keys: Vec<&str> = v.iter().map(|p| p.0.as_str()).collect();
            if !po && !keys.windows(2).all(|w| w[0] <= w[1]) {
                *err += &format!("keys of a value not sorted: {keys:?}; ");
            }
            for s in seqs.iter().filter(|_| po) {
                let at: Vec<usize> = keys.iter().filter_map(|k| s.iter().position(|x| x == k)).collect();
                if !at.windows(2).all(|w| w[0] <= w[1]) {
                    *err += &format!("keys of a value {keys:?} not in the declared order {s:?}; ");
                }
            }
            v.iter().for_each(|p| plain(&p.1, po, seqs, err));
        }
    }
}
fn order(j: &J, po: bool, seqs: &[&[&str]], err: &mut String) {
    match j {
        J::Leaf(_) => {}
        J::Arr(v) => v.iter().for_each(|x| order(x, po, seqs, err)),
        J::Obj(v) => {
            for (k, x) in v {
                match (k.as_str(), x) {
                    ("default" | "examples" | "const" | "enum" | "example" | "x-n", x) => plain(x, po, seqs, err),
                    ("properties" | "$defs" | "definitions" | "schemas", J::Obj(ps)) => {
                        let keys: Vec<&str> = ps.iter().map(|p| p.0.as_str()).collect();
                        if !po {
                            if !keys.windows(2).all(|w| w[0] <= w[1]) {
                                *err += &format!("keys of {k} not sorted: {keys:?}; ");
                            }
                        } else if k == "properties" {
                            for s in seqs {
                                let at: Vec<usize> = keys.iter().filter_map(|k| s.iter().position(|x| x == k)).collect();
                                if !at.windows(2).all(|w| w[0] <= w[1]) {
                                    *err += &format!("properties {keys:?} not in the declared order {s:?}; ");
                                }
                            }
                        }
                        ps.iter().for_each(|p| order(&p.1, po, seqs, err));
                    }
                    _ => order(x, po, seqs, err),
                }
            }
        }
    }
}

pub fn settings() -> Vec<(&'static str, SchemaSettings)> {
    let mut v = vec![];
    for (n, s) in [
        ("draft07", SchemaSettings::draft07()),
        ("draft2019_09", SchemaSettings::draft2019_09()),
        ("draft2020_12", SchemaSettings::draft2020_12()),
        ("openapi3", SchemaSettings::openapi3()),
    ] {
        v.push((n, s.clone()));
        v.push((n, s.clone().for_serialize()));
        v.push((n, s.with(|s| s.inline_subschemas = true)));
    }
    v
}

pub struct Entry {
    pub id: &'static str,
    pub src: &'static str,
    /// declared orders
    pub seqs: &'static [&'static [&'static str]],
    pub root: fn(SchemaGenerator) -> Schema,
    pub sub: fn(&mut SchemaGenerator) -> Schema,
}
pub fn entry<T: JsonSchema>(id: &'static str, src: &'static str, seqs: &'static [&'static [&'static str]]) -> Entry {
    Entry { id, src, seqs, root: |g| g.into_root_schema_for::<T>(), sub: |g| g.subschema_for::<T>() }
}
impl Entry {
    pub fn run(&self, r: &mut Run) {
        if !r.mine() {
            return;
        }
        for (n, (_, s)) in settings().into_iter().enumerate() {
            let id = format!("{}#{n}", self.id);
            let schema = (self.root)(s.clone().into_generator());
            let text = serde_json::to_string(&schema).unwrap();
            let again = serde_json::to_string(&(self.root)(s.clone().into_generator())).unwrap();
            if text != again {
                r.line(&format!("{id}/again"), &again, "generated again in the same process, the text is different");
            }
            r.doc(&id, &text, self.seqs);
            // as the text of the underlying value
            r.doc(&format!("{id}/value"), &serde_json::to_string(schema.as_value()).unwrap(), self.seqs);
            if n % 3 == 0 {
                let mut g = s.into_generator();
                let sub = (self.sub)(&mut g);
                r.doc(&format!("{id}/sub"), &serde_json::to_string(&sub).unwrap(), self.seqs);
                r.doc(&format!("{id}/defs"), &serde_json::to_string(&json!({"$defs": g.take_definitions(true)})).unwrap(), self.seqs);
            }
        }
    }
}

// ---- schemas whose keywords come in every order -------------------------------------------------------------------
thread_local!(static DYN: RefCell<[Value; 2]> = const { RefCell::new([Value::Null, Value::Null]) });
pub struct Dyn<const N: usize>;
impl<const N: usize> JsonSchema for Dyn<N> {
    fn inline_schema() -> bool {
        true
    }
    fn schema_name() -> std::borrow::Cow<'static, str> {
        "Dyn".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        DYN.with(|d| d.borrow()[N].clone()).try_into().unwrap()
    }
}
pub fn keywords() -> Vec<(&'static str, Value)> {
    [
        ("type", r#""object""#), ("type", r#"["object","null"]"#), ("type", r#""null""#), ("type", r#"["null"]"#), ("const", "1"), ("const", "null"), ("enum", "[1,2,null]"), ("enum", "[null]"),
        ("oneOf", r#"[{"type":"null"},{"const":2}]"#), ("oneOf", "[true,false]"), ("anyOf", r#"[{"type":"null"}]"#), ("anyOf", r#"[{"$ref":"/x"},{"const":null}]"#), ("allOf", r#"[{"required":["q"]}]"#),
        ("not", "true"), ("if", "true"), ("then", "false"), ("$ref", "\"/x\""), ("properties", r#"{"zz":true,"mm":{"const":1},"aa":false}"#), ("patternProperties", r#"{"^a":true,"^A":{"type":"string"}}"#),
        ("required", r#"["zz"]"#), ("additionalProperties", "false"), ("additionalProperties", r#"{"const":1}"#), ("unevaluatedProperties", "false"), ("unevaluatedProperties", r#"{"type":"integer"}"#), ("prefixItems", r#"[true,{"const":1}]"#),
        ("items", "false"), ("items", r#"{"examples":[1,2]}"#), ("additionalItems", "false"), ("examples", r#"[{"b":1,"a":2},3]"#), ("examples", "[]"), ("example", "7"), ("default", r#"{"b":1,"a":2}"#), ("format", "\"uint8\""), ("format", "\"date-time\""), ("nullable", "true"), ("title", "\"t\""),
        ("description", "\"d\""), ("minLength", "1"), ("minimum", "3"), ("pattern", "\"x\""), ("uniqueItems", "true"), ("x-other", r#"{"b":1,"a":{"d":1,"c":2}}"#), ("definitions", r#"{"x":{"const":1,"title":"q"},"b":true}"#), ("$defs", r#"{"y":{"const":1,"title":"q"},"b":true}"#), ("$schema", "\"urn:s\""), ("$id", "\"urn:i\""), ("deprecated", "true"), ("readOnly", "true"), ("writeOnly", "true"), ("contains", "true"), ("propertyNames", r#"{"const":"x"}"#), ("dependentSchemas", r#"{"b":true,"a":{"const":1}}"#),
    ]
    .into_iter()
    .map(|(k, v)| (k, serde_json::from_str(v).unwrap()))
    .collect()
}
/// every order of every set of at most `n` keywords from `kw`
fn docs(kw: &[(&'static str, Value)], n: usize) -> Vec<(String, Vec<Value>)> {
    fn perms<T: Clone>(v: &[T]) -> Vec<Vec<T>> {
        if v.is_empty() {
            return vec![vec![]];
        }
        (0..v.len())
            .flat_map(|i| {
                let mut rest = v.to_vec();
                let x = rest.remove(i);
                perms(&rest).into_iter().map(move |mut p| {
                    p.insert(0, x.clone());
                    p
                })
            })
            .collect()
    }
    fn sets(from: usize, n: usize, kw: &[(&'static str, Value)], cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(cur.clone());
        if n == 0 {
            return;
        }
        for i in from..kw.len() {
            if cur.iter().any(|&c| kw[c].0 == kw[i].0) {
                continue;
            }
            cur.push(i);
            sets(i + 1, n - 1, kw, cur, out);
            cur.pop();
        }
    }
    let mut v = vec![];
    sets(0, n, kw, &mut vec![], &mut v);
    v.into_iter()
        .map(|s| {
            let id = s.iter().map(|&i| format!("{}/{i}", kw[i].0)).collect::<Vec<_>>().join(" ");
            let p = perms(&s).into_iter().map(|p| Value::Object(p.into_iter().map(|i| (kw[i].0.to_string(), kw[i].1.clone())).collect())).collect();
            (id, p)
        })
        .collect()
}
#[allow(dead_code)]
mod types {
    use super::*;
    #[derive(JsonSchema)]
    pub struct Annotated {
        zf: bool,
        /// # Title
        ///
        /// Description
        #[deprecated]
        #[schemars(extend("x-a" = 1, "a-x" = {"z": 1, "y": 2}), example = 1)]
        #[serde(default = "super::one", skip_serializing_if = "super::never", serialize_with = "super::ser")]
        af: Dyn<0>,
    }
    #[derive(JsonSchema)]
    pub struct Validated {
        #[schemars(length(min = 2, max = 5), range(min = 1, max = 4), pattern("y"), email, inner(length(min = 7), pattern("k"), range(max = 3)))]
        f: Dyn<0>,
        #[schemars(url, required)]
        g: Option<Dyn<0>>,
    }
    #[derive(JsonSchema)]
    pub struct Flat {
        zf: u8,
        #[serde(flatten)]
        a: Dyn<0>,
        af: u8,
    }
    #[derive(JsonSchema)]
    pub struct FlatOpt {
        zf: u8,
        #[serde(flatten)]
        a: Option<Dyn<0>>,
        af: u8,
    }
    #[derive(JsonSchema)]
    #[serde(deny_unknown_fields)]
    pub struct FlatDeny {
        zf: u8,
        #[serde(flatten)]
        a: Dyn<0>,
        af: u8,
    }
    #[derive(JsonSchema)]
    pub struct Flat2 {
        #[serde(flatten)]
        a: Dyn<0>,
        #[serde(flatten)]
        b: Dyn<1>,
    }
    #[derive(JsonSchema)]
    #[serde(transparent)]
    /// doc
    pub struct Transparent(#[schemars(title = "t", range(min = 1))] Dyn<0>);
    #[derive(JsonSchema)]
    #[schemars(title = "n", extend("q" = 1), transform = super::restrict)]
    pub struct Newtype(Dyn<0>);
    #[derive(JsonSchema)]
    #[serde(tag = "t")]
    pub enum Internal {
        #[schemars(title = "v")]
        V(Dyn<0>),
        W,
    }
    #[derive(JsonSchema)]
    #[serde(untagged, deny_unknown_fields)]
    pub enum Untagged {
        #[schemars(title = "v", extend("x" = 1))]
        V(Dyn<0>),
        W(Dyn<0>, Option<Dyn<0>>),
        X { f: Dyn<0> },
    }
    #[derive(JsonSchema)]
    pub enum External {
        #[schemars(title = "v")]
        V(Dyn<0>),
        W(Dyn<0>, u8),
        U,
        #[schemars(with = "Dyn<0>", description = "x")]
        X(u8),
        #[serde(untagged)]
        Y(Dyn<0>),
    }
    #[derive(JsonSchema)]
    #[serde(tag = "t", content = "c")]
    pub enum Adjacent {
        V(Dyn<0>),
        W(Dyn<0>, u8),
    }
    #[derive(JsonSchema)]
    #[serde(tag = "t")]
    pub struct Tagged {
        zf: Dyn<0>,
        #[serde(flatten)]
        a: Dyn<0>,
    }
}
pub fn never<T>(_: &T) -> bool {
    false
}
pub fn one() -> Dyn<0> {
    Dyn
}
pub fn ser<T, S: serde::Serializer>(_: &T, s: S) -> Result<S::Ok, S::Error> {
    #[derive(serde::Serialize)]
    struct D {
        z: u8,
        y: u8,
        x: u8,
    }
    serde::Serialize::serialize(&D { z: 1, y: 2, x: 3 }, s)
}
pub fn restrict(s: &mut Schema) {
    s.insert("x-restrict".into(), json!({"b": 1, "a": 2}));
}
fn root<T: JsonSchema>(s: &SchemaSettings) -> Value {
    s.clone().into_generator().into_root_schema_for::<T>().into()
}
type Op = (&'static str, Box<dyn Fn() -> Value>);
fn transform(t: impl schemars::transform::Transform + Clone + 'static) -> Box<dyn Fn() -> Value> {
    Box::new(move || {
        let mut s: Schema = Dyn::<0>::json_schema(&mut SchemaGenerator::default());
        t.clone().transform(&mut s);
        s.into()
    })
}
fn gen<T: JsonSchema>(s: SchemaSettings) -> Box<dyn Fn() -> Value> {
    Box::new(move || root::<T>(&s))
}
fn ops() -> Vec<Op> {
    use schemars::transform::*;
    use types::*;
    let d = SchemaSettings::default;
    let mut add = AddNullable::default();
    add.remove_null_type = false;
    let mut v: Vec<Op> = vec![
        ("AddNullable", transform(AddNullable::default())),
        ("AddNullable keeping null", transform(add)),
        ("ReplaceBoolSchemas", transform(ReplaceBoolSchemas::default())),
        ("RemoveRefSiblings", transform(RemoveRefSiblings::default())),
        ("SetSingleExample", transform(SetSingleExample::default())),
        ("ReplaceConstValue", transform(ReplaceConstValue::default())),
        ("ReplacePrefixItems", transform(ReplacePrefixItems::default())),
        ("ReplaceUnevaluatedProperties", transform(ReplaceUnevaluatedProperties::default())),
        ("RestrictFormats", transform(RestrictFormats::default())),
        ("Option", gen::<Option<Dyn<0>>>(d())),
        ("Vec", gen::<Vec<Option<Option<Dyn<0>>>>>(d())),
        ("Annotated", gen::<Annotated>(d())),
        ("Annotated serialize", gen::<Annotated>(d().for_serialize())),
        ("Validated", gen::<Validated>(d())),
        ("Flat", gen::<Flat>(d())),
        ("FlatOpt", gen::<FlatOpt>(d())),
        ("FlatDeny", gen::<FlatDeny>(d())),
        ("Transparent", gen::<Transparent>(d())),
        ("Newtype", gen::<Newtype>(d())),
        ("Internal", gen::<Internal>(d())),
        ("Untagged", gen::<Untagged>(d())),
        ("External", gen::<External>(d())),
        ("Adjacent", gen::<Adjacent>(d())),
        ("Tagged", gen::<Tagged>(d())),
    ];
    for (n, s) in settings().into_iter().step_by(3) {
        v.push((n, gen::<Dyn<0>>(s.clone())));
        v.push((n, gen::<Option<Dyn<0>>>(s.clone())));
        v.push((n, gen::<Flat>(s.clone())));
        v.push((n, gen::<Untagged>(s.clone())));
    }
    v
}
// ---- schemas of values --------------------------------------------------------------------------------------------
/// A value with these fields, and where it is
struct Val<'a>(&'a [&'static str], usize);
const SHAPES: usize = 9;
impl serde::Serialize for Val<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        let plain = Val(self.0, 0);
        match self.1 {
            0 | 1 => {
                let mut st = s.serialize_struct("S", self.0.len())?;
                for (n, f) in self.0.iter().enumerate() {
                    if self.1 == 1 && n == 1 {
                        st.skip_field(f)?;
                    } else if n == 2 {
                        st.serialize_field(f, &"x")?;
                    } else {
                        st.serialize_field(f, &(n as u8))?;
                    }
                }
                st.end()
            }
            2 => {
                let mut st = s.serialize_struct("S", self.0.len())?;
                for f in self.0 {
                    st.serialize_field(f, &plain)?;
                }
                st.end()
            }
            3 => {
                let mut st = s.serialize_struct_variant("E", 1, "V", self.0.len())?;
                for f in self.0 {
                    st.serialize_field(f, &1)?;
                }
                st.end()
            }
            4 => s.serialize_newtype_variant("E", 1, "V", &plain),
            5 => s.serialize_newtype_struct("N", &plain),
            6 => s.serialize_some(&plain),
            7 => s.collect_seq([&plain, &plain]),
            _ => {
                let mut m = s.serialize_map(None)?;
                for f in self.0 {
                    m.serialize_entry(f, &plain)?;
                }
                m.end()
            }
        }
    }
}
pub fn values(r: &mut Run) {
    let names: [&'static str; 4] = ["b", "B", "a1", "é"];
    for (n, p) in (0..4usize.pow(4)).enumerate() {
        let ix = [p % 4, p / 4 % 4, p / 16 % 4, p / 64];
        if (0..4).any(|i| ix[..i].contains(&ix[i])) || !r.mine() {
            continue;
        }
        for len in 1..=4 {
            let fields: Vec<&'static str> = ix[..len].iter().map(|&i| names[i]).collect();
            for shape in 0..SHAPES {
                for (k, (_, s)) in settings().into_iter().enumerate() {
                    let schema = s.into_generator().into_root_schema_for_value(&Val(&fields, shape)).unwrap();
                    r.doc(&format!("value {n} {fields:?} in shape {shape}#{k}"), &serde_json::to_string(&schema).unwrap(), &[&fields]);
                }
            }
        }
    }
}
pub fn canon_of(v: &Value) -> String {
    let mut c = String::new();
    canon_value(v, &mut c);
    c
}
fn canon_value(v: &Value, out: &mut String) {
    match v {
        Value::Array(a) => {
            *out += "[";
            a.iter().for_each(|x| {
                canon_value(x, out);
                *out += ","
            });
            *out += "]";
        }
        Value::Object(o) => {
            let mut k: Vec<_> = o.iter().collect();
            k.sort_by(|a, b| a.0.cmp(b.0));
            *out += "{";
            for (k, x) in k {
                *out += &format!("{k:?}:");
                canon_value(x, out);
                *out += ",";
            }
            *out += "}";
        }
        _ => *out += &v.to_string(),
    }
}
pub fn dynamic(r: &mut Run) {
    let deep = r.tier == "thorough";
    let all = docs(&keywords(), if deep { 3 } else { 2 });
    let ops = ops();
    let set = |i: usize, v: &Value| DYN.with(|d| d.borrow_mut()[i] = v.clone());
    let one = |r: &mut Run, id: String, orders: &mut dyn Iterator<Item = Value>| {
        // all orders of the keywords give the same value
        if !r.mine() || r.dump.as_ref().is_some_and(|d| *d != id) {
            return;
        }
        let first = orders.next().unwrap();
        let c = canon_of(&first);
        let mut err = String::new();
        for (n, v) in orders.enumerate() {
            let c2 = canon_of(&v);
            if c2 != c {
                err = format!("the value depends on the order of the keywords (order {} gives {v}, order 0 gives {first})", n + 1);
                break;
            }
        }
        r.line(&id, &first.to_string(), &err);
    };
    for (n, (name, op)) in ops.iter().enumerate() {
        for (id, ps) in &all {
            one(r, format!("op {n} {name}: {id}"), &mut ps.iter().map(|p| {
                set(0, p);
                op()
            }));
        }
    }
    let kw: Vec<_> = keywords().into_iter().filter(|(k, _)| matches!(*k, "oneOf" | "anyOf" | "allOf" | "if" | "$ref" | "properties" | "patternProperties" | "required" | "additionalProperties" | "unevaluatedProperties" | "title")).collect();
    let a = docs(&kw, 2);
    let b = docs(&kw, if deep { 3 } else { 2 });
    let s = SchemaSettings::default();
    for (ida, pa) in &a {
        for (idb, pb) in &b {
            one(r, format!("flatten {ida} with {idb}"), &mut pa.iter().flat_map(|x| pb.iter().map(move |y| (x, y))).map(|(x, y)| {
                set(0, x);
                set(1, y);
                root::<types::Flat2>(&s)
            }));
        }
    }
}
