//! Compares the reference evaluator of the checks with the `jsonschema` crate: every document of at most two (three)
//! keywords on every value, in every dialect both know. Exits 3 on a difference.
use serde_json::{json, Map, Value};
use std::sync::atomic::{AtomicU64, Ordering};
use vcore::jsv::{Dialect, Doc};
use vcore::report::par_for;

fn main() {
    let deep = std::env::args().nth(1).is_some_and(|t| t == "thorough");
    let subs = [
        json!(true), json!(false), json!({"const": 1}), json!({"type": "string"}), json!({"properties": {"a": true}}), json!({"required": ["b"]}), json!({"$ref": "#/$defs/x"}),
        json!({"properties": {"b": {"type": "integer"}}, "additionalProperties": {"type": "null"}}), json!({"type": ["null", "array"]}),
    ];
    let mut kw: Vec<(&str, Value)> = vec![];
    for t in ["null", "boolean", "integer", "number", "string", "array", "object"] {
        kw.push(("type", json!(t)));
    }
    kw.push(("type", json!(["null", "object"])));
    for v in [json!(1), json!(1.0), json!(null), json!("a"), json!([1]), json!({"a": 1})] {
        kw.push(("const", v));
    }
    kw.push(("enum", json!([1, null, {"a": 1}])));
    kw.push(("enum", json!(["a", [1], true])));
    for k in ["minimum", "maximum", "exclusiveMinimum", "exclusiveMaximum"] {
        kw.push((k, json!(1)));
        kw.push((k, json!(1.5)));
    }
    kw.push(("multipleOf", json!(2)));
    kw.push(("multipleOf", json!(0.5)));
    for k in ["minLength", "maxLength", "minItems", "maxItems", "minProperties", "maxProperties"] {
        kw.push((k, json!(1)));
        kw.push((k, json!(2)));
    }
    kw.push(("pattern", json!("^a")));
    kw.push(("uniqueItems", json!(true)));
    kw.push(("required", json!(["a"])));
    kw.push(("required", json!(["a", "b"])));
    kw.push(("properties", json!({"a": {"type": "integer"}})));
    kw.push(("properties", json!({"a": true, "b": false})));
    kw.push(("patternProperties", json!({"^a": {"const": 1}})));
    kw.push(("patternProperties", json!({"b": true})));
    for s in &subs {
        for k in ["items", "contains", "additionalProperties", "propertyNames", "not", "if", "then", "else", "unevaluatedProperties"] {
            kw.push((k, s.clone()));
        }
    }
    kw.push(("$ref", json!("#/$defs/x")));
    kw.push(("$ref", json!("#/$defs/y")));
    for k in ["allOf", "anyOf", "oneOf"] {
        for (i, a) in subs.iter().enumerate() {
            kw.push((k, json!([a])));
            for b in &subs[i + 1..] {
                kw.push((k, json!([a, b])));
            }
        }
    }
    for k in ["prefixItems", "items"] {
        for s in &subs[1..5] {
            kw.push((k, json!([s])));
            kw.push((k, json!([true, s])));
        }
    }
    kw.push(("additionalItems", json!(false)));
    kw.push(("additionalItems", json!({"type": "string"})));
    let vals: Vec<Value> = [
        json!(null), json!(true), json!(0), json!(1), json!(1.0), json!(1.5), json!(2), json!(-3), json!(18446744073709551615u64), json!(""), json!("a"), json!("ba"), json!("éa"), json!([]), json!([1]), json!([1.0]), json!([1, 1]),
        json!(["a", 1]), json!([null, "a"]), json!(["a", "b", 1]), json!([[1], [1.0]]), json!({}), json!({"a": 1}), json!({"a": "a"}), json!({"b": 1}), json!({"a": 1, "b": 1}), json!({"a": 1, "b": null, "c": null}), json!({"c": "x", "ba": 1}),
        json!({"a": {"a": 1}}), json!({"ab": 1}),
    ]
    .into();
    // one index per choice of up to n keywords
    let n = kw.len();
    let dialects = [
        (Dialect::D7, "http://json-schema.org/draft-07/schema#"),
        (Dialect::D2019, "https://json-schema.org/draft/2019-09/schema"),
        (Dialect::D2020, "https://json-schema.org/draft/2020-12/schema"),
    ];
    let (docs, evals, skipped, bad) = (AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0), AtomicU64::new(0));
    let one = |ix: &[usize]| {
        for a in 0..ix.len() {
            for b in 0..a {
                if kw[ix[a]].0 == kw[ix[b]].0 {
                    return;
                }
            }
        }
        for (d, uri) in dialects {
            let has = |k: &str| ix.iter().any(|&i| kw[i].0 == k);
            // the crate does not ignore keywords that these drafts do not have
            // nor does it get `additionalItems` next to `items: false` right: it rejects what is not an array
            if has("additionalItems") && ix.iter().any(|&i| kw[i].0 == "items" && kw[i].1 == false) {
                continue;
            }
            // and it lets a member of anyOf that fails mark properties as evaluated
            if has("unevaluatedProperties") && ix.iter().any(|&i| kw[i].0 == "anyOf" && kw[i].1.to_string().contains("additionalProperties")) {
                continue;
            }
            // nor does it count what `then` and `else` evaluate if `if` is a boolean
            if has("unevaluatedProperties") && ix.iter().any(|&i| kw[i].0 == "if" && kw[i].1.is_boolean()) {
                continue;
            }
            if d != Dialect::D2020 && has("prefixItems") {
                continue;
            }
            if d == Dialect::D2020 && ix.iter().any(|&i| kw[i].0 == "items" && kw[i].1.is_array()) {
                continue;
            }
            let mut m = Map::new();
            m.insert("$schema".into(), json!(uri));
            for &i in ix {
                m.insert(kw[i].0.into(), kw[i].1.clone());
            }
            m.insert("$defs".into(), json!({"x": {"type": ["string", "object"], "properties": {"c": true}}, "y": {"items": {"const": 1}, "properties": {"b": {"const": 1}}}}));
            let doc = Value::Object(m);
            let (ours, theirs) = (Doc::new(&doc, d), jsonschema::validator_for(&doc));
            let (Ok(ours), Ok(theirs)) = (&ours, &theirs) else {
                if ours.is_ok() != theirs.is_ok() {
                    skipped.fetch_add(1, Ordering::Relaxed);
                    if std::env::var("JX_DUMP").is_ok() { eprintln!("COMPILE ours {:?} theirs {:?} {doc}", ours.as_ref().err(), theirs.as_ref().err().map(|e| e.to_string())); }
                }
                continue;
            };
            docs.fetch_add(1, Ordering::Relaxed);
            for v in &vals {
                evals.fetch_add(1, Ordering::Relaxed);
                let (a, b) = (ours.accepts(v), theirs.is_valid(v));
                if a != b {
                    let n = bad.fetch_add(1, Ordering::Relaxed);
                    if n < 20 || std::env::var("JX_DUMP").is_ok() {
                        eprintln!("DIFF {d:?} ours {a} theirs {b}: {v} against {doc}");
                    }
                }
            }
        }
    };
    par_for(n, |i| {
        one(&[i]);
        for j in i + 1..n {
            one(&[i, j]);
            if deep {
                for k in j + 1..n {
                    if (i + j + k) % 7 == 0 || kw[k].0.starts_with("uneval") {
                        one(&[i, j, k]);
                    }
                }
            }
        }
    });
    let l = |x: &AtomicU64| x.load(Ordering::Relaxed);
    println!("reference evaluator against the jsonschema crate: {} documents, {} evaluations, {} that only one compiles, {} differences", l(&docs), l(&evals), l(&skipped), l(&bad));
    std::process::exit(if l(&bad) > 0 { 3 } else { 0 });
}
