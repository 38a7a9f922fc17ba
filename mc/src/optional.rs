//! O01: Option<T> for every inner schema up to a bound.
use schemars::generate::SchemaSettings;
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use vcore::jsv::{Dialect, Doc};
use vcore::report::par_for;
use vcore::Report;

thread_local! {
    static INNER: RefCell<Value> = const { RefCell::new(Value::Null) };
}
/// A type whose schema is whatever INNER holds.
struct Inner<const INLINE: bool>;
impl<const INLINE: bool> JsonSchema for Inner<INLINE> {
    fn inline_schema() -> bool {
        INLINE
    }
    fn schema_name() -> Cow<'static, str> {
        "Inner".into()
    }
    fn schema_id() -> Cow<'static, str> {
        if INLINE { "inner-inline" } else { "inner-ref" }.into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        let v = INNER.with(|i| i.borrow().clone());
        // a schema that mentions another definition
        if v.to_string().contains("#/$defs/Helper") {
            let r = g.subschema_for::<Helper>();
            let p = r.get("$ref").and_then(Value::as_str).expect("a reference").to_string();
            let s = v.to_string().replace("#/$defs/Helper", &p);
            return serde_json::from_str(&s).unwrap();
        }
        v.try_into().unwrap()
    }
}
struct Helper;
impl JsonSchema for Helper {
    fn schema_name() -> Cow<'static, str> {
        "Helper".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": ["string", "null"], "enum": ["a", null, 1]})
    }
}

/// All schemas that pick at most `k` of the menus, one entry each.
pub fn combos(menus: &[Vec<(&'static str, Value)>], k: usize) -> Vec<Value> {
    let mut out = vec![];
    fn rec(menus: &[Vec<(&'static str, Value)>], k: usize, cur: &Map<String, Value>, out: &mut Vec<Value>) {
        let Some((m, rest)) = menus.split_first() else {
            out.push(Value::Object(cur.clone()));
            return;
        };
        rec(rest, k, cur, out);
        if k > 0 {
            for (key, v) in m {
                let mut c = cur.clone();
                c.insert(key.to_string(), v.clone());
                rec(rest, k - 1, &c, out);
            }
        }
    }
    rec(menus, k, &Map::new(), &mut out);
    out
}

pub fn o01(r: &Report) {
    let m = |k: &'static str, vs: &[Value]| -> Vec<(&'static str, Value)> { vs.iter().map(|v| (k, v.clone())).collect() };
    let subs = [
        json!(true), json!(false), json!({}), json!({"type": "null"}), json!({"type": "string"}), json!({"const": null}), json!({"const": "a"}),
        json!({"type": ["string", "null"], "enum": ["a"]}), json!({"type": ["integer", "null"]}), json!({"enum": [null, 1]}), json!({"not": {}}),
        json!({"$ref": "#/$defs/Helper"}), json!({"type": "null", "not": {}}), json!({"type": ["null", "string"], "const": "a"}), json!({"type": "null", "title": "N"}),
    ];
    let mut lists: Vec<Value> = vec![];
    for a in &subs {
        lists.push(json!([a]));
        for b in &subs {
            lists.push(json!([a, b]));
        }
    }
    let few: Vec<Value> = [json!([{"type": "null"}]), json!([{"type": "string"}]), json!([{"type": "string"}, {"type": "null"}]), json!([{"const": "a"}, {"type": ["integer", "null"]}]), json!([{"not": {}}]), json!([true])].into();
    let r_ = json!("#/$defs/Helper");
    let menus = vec![
        m("type", &[json!("null"), json!("string"), json!("integer"), json!("object"), json!("array"), json!("boolean"), json!(["string", "null"]), json!(["null"]), json!(["string"]), json!(["integer", "string"])]),
        m("const", &[json!(null), json!("a"), json!(1), json!({})]),
        m("enum", &[json!([null]), json!(["a"]), json!(["a", null, 1]), json!([1, "a"])]),
        m("anyOf", &lists),
        m("oneOf", &few),
        m("allOf", &few),
        m("not", &subs),
        m("$ref", &[r_]),
        m("if", &[json!({"type": "string"}), json!(true)]),
        m("then", &[json!({"const": "a"}), json!(false)]),
        m("else", &[json!({"type": "integer"}), json!(false)]),
        vec![("minLength", json!(1)), ("maximum", json!(0)), ("required", json!(["a"])), ("minItems", json!(1)), ("format", json!("uuid")), ("pattern", json!("^a"))],
        vec![("title", json!("T")), ("default", json!(null)), ("examples", json!([null])), ("nullable", json!(true)), ("x-ext", json!(null))],
        vec![("properties", json!({"a": {"type": "string"}})), ("items", json!({"type": "null"})), ("additionalProperties", json!(false)), ("unevaluatedProperties", json!(false)), ("unevaluatedItems", json!(false))],
    ];
    let k = if r.thorough() { 4 } else { 3 };
    let mut docs = vec![json!(true), json!(false)];
    docs.extend(combos(&menus, 3));
    if r.thorough() {
        // four keywords, with shorter menus
        let mut small = menus.clone();
        small[0].truncate(7);
        small[3].truncate(16);
        for (i, n) in [(4, 3), (5, 3), (6, 7), (11, 3), (12, 3), (13, 3)] {
            small[i].truncate(n);
        }
        docs.extend(combos(&small, 4));
    }
    let uni = [json!(null), json!(true), json!(false), json!(0), json!(1), json!("a"), json!("b"), json!(""), json!([]), json!([null]), json!({}), json!({"a": "s"}), json!({"a": 1}), json!({"b": null})];
    let settings: [(&str, fn() -> SchemaSettings, Dialect); 3] = [
        ("2020-12", SchemaSettings::draft2020_12, Dialect::D2020),
        ("2019-09", SchemaSettings::draft2019_09, Dialect::D2019),
        ("draft-07", SchemaSettings::draft07, Dialect::D7),
    ];
    par_for(docs.len(), |i| {
        if r.saturated() {
            return;
        }
        let doc = &docs[i];
        let has = |k: &str| doc.get(k).is_some();
        if !has("if") && (has("then") || has("else")) {
            return; // meaningless keywords
        }
        // an inlined schema must not be one that only its own definition could tell apart
        INNER.with(|x| *x.borrow_mut() = doc.clone());
        r.state(1);
        let mut inner_docs: Vec<(String, Value, Value, Dialect)> = vec![];
        for (name, st, d) in &settings {
            // draft-07 conversion of unevaluated* is only promised to be lenient (T03): not compared here
            if *d == Dialect::D7 && (has("unevaluatedProperties") || has("unevaluatedItems")) {
                continue;
            }
            let gen = || SchemaGenerator::new(st());
            let base = gen().into_root_schema_for::<Inner<false>>().to_value();
            inner_docs.push((format!("Option<T>, T referenced, {name}"), base.clone(), gen().into_root_schema_for::<Option<Inner<false>>>().to_value(), *d));
            inner_docs.push((format!("Option<T>, T inline, {name}"), base.clone(), gen().into_root_schema_for::<Option<Inner<true>>>().to_value(), *d));
            if *d == Dialect::D2020 {
                inner_docs.push((format!("Option<Option<T>>, T inline, {name}"), base.clone(), gen().into_root_schema_for::<Option<Option<Inner<true>>>>().to_value(), *d));
                inner_docs.push((format!("Option<Option<T>>, T referenced, {name}"), base.clone(), gen().into_root_schema_for::<Option<Option<Inner<false>>>>().to_value(), *d));
                inner_docs.push((format!("Option<Box<T>>, T inline, {name}"), base.clone(), gen().into_root_schema_for::<Option<Box<Inner<true>>>>().to_value(), *d));
                // everything inlined
                if !doc.to_string().contains("#/$defs/Helper") {
                let st2 = st().with(|s| s.inline_subschemas = true);
                inner_docs.push((format!("Option<T>, all inlined, {name}"), base.clone(), SchemaGenerator::new(st2).into_root_schema_for::<Option<Inner<false>>>().to_value(), *d));
                }
                // as a subschema inside another type
                let v = gen().into_root_schema_for::<Vec<Option<Inner<true>>>>().to_value();
                let items = v["items"].clone();
                let mut o = items;
                if let (Some(o), Some(defs)) = (o.as_object_mut(), v.get("$defs")) {
                    o.insert("$defs".into(), defs.clone());
                }
                inner_docs.push((format!("Vec<Option<T>>'s items, T inline, {name}"), base.clone(), o, *d));
            }
        }
        r.step(inner_docs.len() as u64);
        if i % 97 == 5 {
            r.sample(|| json!({"inner": doc, "optional": inner_docs[1].2}));
        }
        for (what, inner, opt, d) in &inner_docs {
            let a = match Doc::new(inner, *d) {
                Ok(a) => a,
                Err(e) => {
                    r.fail("malformed", &format!("{what}: schema of T is malformed: {e}: {inner}"), json!({"inner": doc}));
                    continue;
                }
            };
            let b = match Doc::new(opt, *d) {
                Ok(b) => b,
                Err(e) => {
                    r.fail("malformed", &format!("{what}: schema of Option<T> is malformed: {e}: {opt}"), json!({"inner": doc}));
                    continue;
                }
            };
            for v in &uni {
                r.valid(1);
                let want = v.is_null() || a.accepts(v);
                let got = b.accepts(v);
                if want != got {
                    r.fail("option", &format!("{what}: T's schema {inner}; the optional type's schema {opt} {} {v}", if got { "accepts" } else { "rejects" }), json!({"inner": inner, "optional": opt, "value": v, "expected": want}));
                    break;
                }
            }
        }
    });
    r.note("bound", format!("every inner schema combining up to {k} of 14 keyword menus (type, const, enum, anyOf, oneOf, allOf, not, $ref, if/then/else, value constraints, annotations, applicators), 10 ways of making it optional, 14 JSON values"));
    r.assume("inner schemas that carry then/else without if, or (draft-07 only) unevaluated*, are left out");
}
