//! T03: the dialect conversions, over all small 2020-12 schemas.
use crate::optional::combos;
use schemars::generate::SchemaSettings;
use schemars::transform::*;
use schemars::Schema;
use serde_json::{json, Map, Value};
use vcore::jsv::{Dialect, Doc};
use vcore::report::par_for;
use vcore::uni;
use vcore::Report;

/// What conversion is applied, how its result is to be read, and which keyword must be gone.
struct Target {
    name: &'static str,
    make: fn() -> Vec<Box<dyn FnMut(&mut Schema)>>,
    reads: Dialect,
    gone: &'static [Gone],
}
#[derive(Clone, Copy, PartialEq)]
enum Gone {
    Keyword(&'static str),
    Bool,
    BoolExceptAp,
    RefSiblings,
    NullType,
}

fn preset(s: SchemaSettings) -> Vec<Box<dyn FnMut(&mut Schema)>> {
    s.transforms
        .into_iter()
        .map(|mut t| Box::new(move |s: &mut Schema| t.transform(s)) as Box<dyn FnMut(&mut Schema)>)
        .collect()
}
fn one(mut t: impl Transform + 'static) -> Vec<Box<dyn FnMut(&mut Schema)>> {
    vec![Box::new(move |s: &mut Schema| t.transform(s))]
}

const TARGETS: &[Target] = &[
    Target { name: "draft2019-09", make: || preset(SchemaSettings::draft2019_09()), reads: Dialect::D2019, gone: &[Gone::Keyword("prefixItems")] },
    Target { name: "draft-07", make: || preset(SchemaSettings::draft07()), reads: Dialect::D7, gone: &[Gone::Keyword("prefixItems"), Gone::Keyword("unevaluatedProperties"), Gone::RefSiblings] },
    Target {
        name: "openapi3",
        make: || preset(SchemaSettings::openapi3()),
        reads: Dialect::OA3,
        gone: &[Gone::Keyword("prefixItems"), Gone::Keyword("unevaluatedProperties"), Gone::Keyword("const"), Gone::Keyword("examples"), Gone::RefSiblings, Gone::BoolExceptAp, Gone::NullType],
    },
    Target { name: "ReplaceBoolSchemas", make: || one(ReplaceBoolSchemas::default()), reads: Dialect::D2020, gone: &[Gone::Bool] },
    Target {
        name: "ReplaceBoolSchemas(skip_additional_properties)",
        make: || {
            let mut t = ReplaceBoolSchemas::default();
            t.skip_additional_properties = true;
            one(t)
        },
        reads: Dialect::D2020,
        gone: &[Gone::BoolExceptAp],
    },
    Target { name: "RemoveRefSiblings", make: || one(RemoveRefSiblings::default()), reads: Dialect::D2020, gone: &[Gone::RefSiblings] },
    Target { name: "SetSingleExample", make: || one(SetSingleExample::default()), reads: Dialect::D2020, gone: &[Gone::Keyword("examples")] },
    Target { name: "ReplaceConstValue", make: || one(ReplaceConstValue::default()), reads: Dialect::D2020, gone: &[Gone::Keyword("const")] },
    Target { name: "ReplacePrefixItems", make: || one(ReplacePrefixItems::default()), reads: Dialect::D2019, gone: &[Gone::Keyword("prefixItems")] },
    Target { name: "ReplaceUnevaluatedProperties", make: || one(ReplaceUnevaluatedProperties::default()), reads: Dialect::D2020, gone: &[Gone::Keyword("unevaluatedProperties")] },
    Target {
        name: "AddNullable(keeping null types, no const)",
        make: || {
            let mut t = AddNullable::default();
            t.remove_null_type = false;
            t.add_const_null = false;
            one(t)
        },
        reads: Dialect::D2020,
        gone: &[],
    },
    Target {
        name: "AddNullable(keeping null types)",
        make: || {
            let mut t = AddNullable::default();
            t.remove_null_type = false;
            one(t)
        },
        reads: Dialect::D2020,
        gone: &[],
    },
    Target {
        name: "openapi3 with AddNullable(no const)",
        make: || {
            let mut t = AddNullable::default();
            t.add_const_null = false;
            let mut b = ReplaceBoolSchemas::default();
            b.skip_additional_properties = true;
            let mut v = one(ReplaceUnevaluatedProperties::default());
            v.extend(one(b));
            v.extend(one(t));
            v.extend(one(RemoveRefSiblings::default()));
            v.extend(one(SetSingleExample::default()));
            v.extend(one(ReplaceConstValue::default()));
            v.extend(one(ReplacePrefixItems::default()));
            v
        },
        reads: Dialect::OA3,
        gone: &[Gone::NullType, Gone::Keyword("unevaluatedProperties")],
    },
];

/// Call `f(schema, place)` for every subschema position of a document.
fn walk(v: &Value, at: &str, f: &mut dyn FnMut(&Value, &str)) {
    f(v, at);
    let Some(o) = v.as_object() else { return };
    for (k, x) in o {
        match k.as_str() {
            "not" | "if" | "then" | "else" | "contains" | "additionalProperties" | "propertyNames" | "additionalItems" | "unevaluatedItems" | "unevaluatedProperties" => walk(x, k, f),
            "allOf" | "anyOf" | "oneOf" | "prefixItems" => x.as_array().into_iter().flatten().for_each(|y| walk(y, k, f)),
            "items" => match x {
                Value::Array(a) => a.iter().for_each(|y| walk(y, k, f)),
                _ => walk(x, k, f),
            },
            "properties" | "patternProperties" | "$defs" | "definitions" => x.as_object().into_iter().flat_map(|m| m.values()).for_each(|y| walk(y, k, f)),
            _ => {}
        }
    }
}

fn still_there(doc: &Value, gone: &[Gone]) -> Option<String> {
    let mut bad = None;
    walk(doc, "", &mut |s, at| {
        for g in gone {
            let here = match g {
                Gone::Keyword(k) => s.get(*k).is_some(),
                Gone::Bool => s.is_boolean(),
                Gone::BoolExceptAp => s.is_boolean() && at != "additionalProperties",
                Gone::RefSiblings => s.get("$ref").is_some() && s.as_object().unwrap().len() > 1,
                Gone::NullType => match s.get("type") {
                    Some(Value::Array(a)) => a.iter().any(|t| t == "null"),
                    Some(t) => t == "null",
                    None => false,
                },
            };
            if here {
                bad = Some(s.to_string());
            }
        }
    });
    bad
}

fn mentions(doc: &Value, kw: &[&str]) -> bool {
    let mut yes = false;
    walk(doc, "", &mut |s, _| yes |= kw.iter().any(|k| s.get(*k).is_some()));
    yes
}

pub fn t03(r: &Report) {
    let m = |k: &'static str, vs: &[Value]| -> Vec<(&'static str, Value)> { vs.iter().map(|v| (k, v.clone())).collect() };
    let subs = [
        json!(true), json!(false), json!({"type": "null"}), json!({"type": "string"}), json!({"const": "a"}), json!({"type": ["integer", "null"]}),
        json!({"$ref": "#/definitions/H"}), json!({"$ref": "#/definitions/H", "required": ["b"]}), json!({"$ref": "#/definitions/H", "type": ["object", "null"], "allOf": [{"required": ["c"]}]}),
        json!({"prefixItems": [{"const": 1}, true], "items": false}), json!({"not": {"const": null}}),
        json!({"properties": {"b": {"type": "integer"}}, "unevaluatedProperties": false}), json!({"additionalProperties": {"not": false, "type": ["null", "integer"]}}),
        json!({"enum": ["a", null, 1]}), json!({"const": null}),
        json!({"properties": {"b": true}, "required": ["b"]}),
    ];
    let uneval_subs = [
        json!({"properties": {"b": true}}), json!({"patternProperties": {"^b": {"type": "integer"}}}), json!({"additionalProperties": {"type": "integer"}}), json!({"additionalProperties": false}),
        json!({"$ref": "#/definitions/H"}), json!({"properties": {"b": true}, "unevaluatedProperties": false}), json!({"allOf": [{"properties": {"b": true}}]}), json!({"anyOf": [{"properties": {"b": {"type": "integer"}}}, {"properties": {"c": true}}]}),
        json!({"if": {"properties": {"b": {"const": 1}}}, "then": {"properties": {"c": true}}, "else": true}), json!({"allOf": [{"$ref": "#/definitions/H"}]}), json!({"not": {"properties": {"b": true}}}),
        json!({"unevaluatedProperties": {"type": "integer"}}),
    ];
    let pairs = |s: &[Value]| -> Vec<Value> {
        let mut v: Vec<Value> = s.iter().map(|a| json!([a])).collect();
        for a in s {
            for b in s {
                v.push(json!([a, b]));
            }
        }
        v
    };
    let single = |s: &[Value]| -> Vec<Value> { s.iter().map(|a| json!([a])).collect() };
    let menus = vec![
        m("type", &[json!("null"), json!("string"), json!("object"), json!("array"), json!(["object", "null"]), json!(["string", "null"]), json!(["null"]), json!(["integer", "string"])]),
        m("const", &[json!(null), json!("a"), json!(1), json!({"const": 1})]),
        m("enum", &[json!([null]), json!(["a", null]), json!([1, "a"])]),
        m("properties", &subs.iter().map(|s| json!({"a": s})).chain([json!({"const": true, "a": {"const": {"const": 1}}})]).collect::<Vec<_>>()),
        m("additionalProperties", &subs),
        m("unevaluatedProperties", &[json!(false), json!(true), json!({"type": "integer"}), json!({"not": false}), json!({"const": 1})]),
        m("patternProperties", &[json!({"^a": {"const": "a"}}), json!({"^b": false, "^c": true})]),
        m("required", &[json!(["a"]), json!(["a", "b"])]),
        m("prefixItems", &pairs(&subs[..7])),
        m("items", &subs),
        m("contains", &[json!({"const": 1}), json!(false)]),
        m("allOf", &pairs(&subs)),
        m("anyOf", &pairs(&subs)),
        m("oneOf", &single(&subs)),
        m("not", &subs),
        m("$ref", &[json!("#/definitions/H")]),
        vec![("if", json!({"const": 1})), ("if", json!(true))],
        vec![("then", json!({"const": 1})), ("then", json!(false)), ("else", json!({"type": ["null", "string"]}))],
        vec![("maxItems", json!(1)), ("minLength", json!(1)), ("maximum", json!(0)), ("format", json!("uuid"))],
        vec![("examples", json!([{"const": 1}, 2])), ("examples", json!([])), ("default", json!({"const": 1, "prefixItems": [], "examples": [1]})), ("title", json!("const"))],
    ];
    let uneval_menus = vec![
        m("unevaluatedProperties", &[json!(false), json!({"type": "integer"})]),
        m("properties", &[json!({"a": true}), json!({"a": {"type": "integer"}})]),
        m("patternProperties", &[json!({"^a": true})]),
        m("additionalProperties", &[json!(false), json!({"type": "integer"}), json!(true)]),
        m("allOf", &pairs(&uneval_subs)),
        m("anyOf", &single(&uneval_subs)),
        m("oneOf", &single(&uneval_subs[..6])),
        m("$ref", &[json!("#/definitions/H")]),
        m("if", &uneval_subs[..4]),
        m("then", &uneval_subs),
        m("else", &uneval_subs[..5]),
        m("dependentSchemas", &[json!({"a": {"properties": {"b": true}}})]),
    ];
    let th = r.thorough();
    let mut docs = vec![json!(true), json!(false)];
    docs.extend(combos(&menus, 2));
    let two = docs.len();
    {
        // three keywords, without the large menus of pairs
        let mut small = menus.clone();
        small[8] = m("prefixItems", &single(&subs[..7]));
        small[11] = m("allOf", &single(&subs));
        small[12] = m("anyOf", &single(&subs));
        for i in [3, 4, 9, 11, 12, 13, 14] {
            small[i].truncate(if th { 16 } else { 6 });
        }
        docs.extend(combos(&small, 3));
    }
    docs.extend(combos(&uneval_menus, 3));
    if th {
        let mut small = uneval_menus.clone();
        small[4] = m("allOf", &single(&uneval_subs));
        docs.extend(combos(&small, 4));
    }
    // every document with up to two keywords, one level further down
    let base: Vec<Value> = docs[..two.min(4000)].iter().chain(combos(&menus, 1).iter()).cloned().collect();
    let mut docs = uni::dedup(docs);
    for d in uni::dedup(base) {
        docs.push(json!({"properties": {"a": d}}));
        docs.push(json!({"additionalProperties": d}));
        docs.push(json!({"items": d}));
        docs.push(json!({"anyOf": [{"type": "string"}, d]}));
        docs.push(json!({"not": d}));
        docs.push(json!({"prefixItems": [{"not": false}, d]}));
        docs.push(json!({"$ref": "#/definitions/D", "definitions": {"D": d}}));
        docs.push(json!({"definitions": {"D": {"properties": {"a": d}}}, "allOf": [{"$ref": "#/definitions/D"}]}));
    }
    let atoms = [json!(null), json!(0), json!(1), json!("a"), json!({}), json!({"const": 1})];
    let mut insts = vec![json!(null), json!(true), json!(0), json!(1), json!("a"), json!(""), json!({"const": 1})];
    insts.extend(uni::arrays(&atoms[..4], 2));
    insts.push(json!([1, 1, 1]));
    insts.push(json!([{"a": 1}]));
    insts.extend(uni::objects(&uni::strs(&["a", "b", "c"]), &[json!(1), json!("a")], 3));
    insts.extend([json!({"a": null}), json!({"a": {}}), json!({"a": {"b": 1}}), json!({"a": {"b": 1, "c": "a"}}), json!({"a": [1, null]}), json!({"b": null}), json!({"const": 1, "a": {"const": 1}}), json!({"a": {"a": "a"}})]);

    let helper = json!({"type": ["object", "null"], "properties": {"b": {"type": "integer"}}});
    par_for(docs.len(), |i| {
        if r.saturated() {
            return;
        }
        let mut doc = docs[i].clone();
        if doc.get("if").is_none() && (doc.get("then").is_some() || doc.get("else").is_some()) {
            return;
        }
        if doc.to_string().contains("#/definitions/H") {
            let Some(o) = doc.as_object_mut() else { return };
            let defs = o.entry("definitions").or_insert(Value::Object(Map::new()));
            defs.as_object_mut().unwrap().insert("H".into(), helper.clone());
        }
        let mut contradictory = false;
        walk(&doc, "", &mut |s, _| {
            let only_null = s.get("type").is_some_and(|t| t == "null" || t == &json!(["null"]));
            contradictory |= only_null && s.get("const").is_some_and(|c| !c.is_null());
        });
        if contradictory {
            return;
        }
        r.state(1);
        let src = match Doc::new(&doc, Dialect::D2020) {
            Ok(s) => s,
            Err(e) => panic!("bad source document {doc}: {e}"),
        };
        let want: Vec<bool> = insts.iter().map(|v| src.accepts(v)).collect();
        let uneval = mentions(&doc, &["unevaluatedProperties"]);
        let dep = mentions(&doc, &["dependentSchemas"]);
        let oa_unsupported = mentions(&doc, &["patternProperties", "propertyNames", "if", "then", "else", "contains"]);
        for t in TARGETS {
            let mut s = Schema::try_from(doc.clone()).unwrap();
            let mut ts = (t.make)();
            for f in &mut ts {
                f(&mut s);
            }
            r.step(1);
            let out = s.as_value().clone();
            for f in &mut ts {
                f(&mut s);
            }
            if s.as_value() != &out {
                r.fail("idempotent", &format!("{}: {doc} becomes {out}, but converting again gives {}", t.name, s.as_value()), json!({"target": t.name, "document": doc}));
                continue;
            }
            if let Some(b) = still_there(&out, t.gone) {
                r.fail("keyword", &format!("{}: {doc} becomes {out}, where {b} still uses what was to be removed", t.name), json!({"target": t.name, "document": doc}));
                continue;
            }
            if t.reads == Dialect::OA3 && oa_unsupported || dep && t.reads != Dialect::D2020 {
                continue; // the dialect has no such keyword and no conversion is offered
            }
            let c = match Doc::new(&out, t.reads) {
                Ok(c) => c,
                Err(e) => {
                    r.fail("malformed", &format!("{}: {doc} becomes {out}, which is malformed: {e}", t.name), json!({"target": t.name, "document": doc}));
                    continue;
                }
            };
            // under negation "never rejects more" has no meaning for a keyword that can only be approximated
            let lenient = uneval && t.gone.contains(&Gone::Keyword("unevaluatedProperties"));
            if lenient && mentions(&doc, &["not", "oneOf", "if", "contains"]) {
                continue;
            }
            for (v, &w) in insts.iter().zip(&want) {
                r.valid(1);
                let g = c.accepts(v);
                if g != w && !(lenient && g) {
                    r.fail(
                        "meaning",
                        &format!("{}: {doc} becomes {out}: {v} was {} and is now {}", t.name, if w { "accepted" } else { "rejected" }, if g { "accepted" } else { "rejected" }),
                        json!({"target": t.name, "document": doc, "converted": out, "value": v, "before": w, "after": g}),
                    );
                    break;
                }
            }
        }
        if i % 1009 == 7 {
            r.sample(|| doc.clone());
        }
    });
    // a whole document produced with the OpenAPI 3 preset: its definitions must be converted like the rest
    {
        struct Def;
        impl schemars::JsonSchema for Def {
            fn schema_name() -> std::borrow::Cow<'static, str> {
                "Def".into()
            }
            fn json_schema(_: &mut schemars::SchemaGenerator) -> Schema {
                schemars::json_schema!({"type": ["string", "null"], "const": "a"})
            }
        }
        let g = || SchemaSettings::openapi3().into_generator();
        let whole = g().into_root_schema_for::<Vec<Def>>().to_value();
        let mut t = g();
        t.subschema_for::<Vec<Def>>();
        let want = t.take_definitions(true);
        r.state(1);
        r.step(2);
        r.valid(1);
        for (k, w) in &want {
            let got = whole.pointer(&format!("/components/schemas/{k}"));
            if got != Some(w) {
                r.fail("openapi3-root-definitions", &format!("into_root_schema_for with SchemaSettings::openapi3() leaves definition {k} unconverted: {got:?}, expected {w}"), json!({"document": whole, "definition": k, "expected": w}));
            }
        }
    }
    r.note("bound", format!("every 2020-12 schema with up to {} of 20 keyword menus (and up to {} of 12 menus around unevaluatedProperties), subschemas from a list of 16, each one- and two-keyword document also one level deeper below 8 applicators; {} conversions; {} JSON values", 3, if th { 4 } else { 3 }, TARGETS.len(), insts.len()));
    r.assume("patternProperties, propertyNames, if/then/else and contains have no OpenAPI 3.0 counterpart: documents using them are checked for that target only for keyword removal and idempotence");
    r.assume("below not, oneOf, if and contains the approximation of unevaluatedProperties is not compared (any approximation changes the meaning of a negation)");
    r.assume("schemas whose type admits only null but whose const is something else (self-contradictory) are left out");
    r.assume("OpenAPI 3.0 is read with array-valued items as draft-07 does, and nullable widens type in the same schema object");
}
