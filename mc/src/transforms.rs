//! T01, T02, T04.
use schemars::generate::SchemaSettings;
use schemars::transform::{transform_subschemas, RecursiveTransform, Transform};
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use vcore::report::par_for;
use vcore::Report;

/// How a keyword holds subschemas (from the JSON Schema specifications, draft 7 to 2020-12).
#[derive(Clone, Copy, PartialEq, Debug)]
enum K {
    One,      // a schema
    Many,     // an array of schemas
    OneMany,  // a schema or an array of schemas
    Named,    // an object whose values are schemas
    Data,     // not a schema at all
}

const KEYWORDS: [(&str, K); 48] = [
    ("not", K::One),
    ("if", K::One),
    ("then", K::One),
    ("else", K::One),
    ("contains", K::One),
    ("additionalProperties", K::One),
    ("unevaluatedProperties", K::One),
    ("unevaluatedItems", K::One),
    ("propertyNames", K::One),
    ("additionalItems", K::One),
    ("contentSchema", K::One),
    ("allOf", K::Many),
    ("anyOf", K::Many),
    ("oneOf", K::Many),
    ("prefixItems", K::Many),
    ("items", K::OneMany),
    ("properties", K::Named),
    ("patternProperties", K::Named),
    ("dependentSchemas", K::Named),
    ("$defs", K::Named),
    ("definitions", K::Named),
    ("enum", K::Data),
    ("const", K::Data),
    ("default", K::Data),
    ("examples", K::Data),
    ("example", K::Data),
    ("required", K::Data),
    ("type", K::Data),
    ("format", K::Data),
    ("title", K::Data),
    ("description", K::Data),
    ("$ref", K::Data),
    ("$id", K::Data),
    ("$schema", K::Data),
    ("$comment", K::Data),
    ("$anchor", K::Data),
    ("dependentRequired", K::Data),
    ("pattern", K::Data),
    ("minimum", K::Data),
    ("uniqueItems", K::Data),
    ("deprecated", K::Data),
    ("readOnly", K::Data),
    ("nullable", K::Data),
    ("discriminator", K::Data),
    ("contentMediaType", K::Data),
    ("x-schema", K::Data),
    ("my-extension", K::Data),
    ("", K::Data),
];

/// Positions at which a child can be placed under a keyword: builds the keyword's value from the child.
fn placements(kind: K, child: &Value) -> Vec<(Value, Vec<(String, bool)>)> {
    // (value, list of (relative pointer of a place holding `child`, is it a schema))
    let c = child.clone();
    match kind {
        K::One => vec![(c.clone(), vec![("".into(), true)]), (json!([c]), vec![("/0".into(), false)])],
        K::Many => vec![
            (json!([c.clone()]), vec![("/0".into(), true)]),
            (json!([c.clone(), 1, c.clone()]), vec![("/0".into(), true), ("/2".into(), true)]),
            (json!({"k": c}), vec![("/k".into(), false)]),
        ],
        K::OneMany => vec![
            (c.clone(), vec![("".into(), true)]),
            (json!([c.clone(), c.clone()]), vec![("/0".into(), true), ("/1".into(), true)]),
        ],
        K::Named => vec![
            (json!({"k": c.clone()}), vec![("/k".into(), true)]),
            (json!({"not": c.clone(), "const": c.clone(), "properties": c.clone(), "n": 3}), vec![("/not".into(), true), ("/const".into(), true), ("/properties".into(), true)]),
            (json!([c]), vec![("/0".into(), false)]),
        ],
        K::Data => vec![
            (c.clone(), vec![("".into(), false)]),
            (json!([c.clone()]), vec![("/0".into(), false)]),
            (json!({"not": c.clone(), "properties": {"k": c}}), vec![("/not".into(), false)]),
        ],
    }
}

/// Reference model: the list of subschema locations of a document (pre-order), by the keyword table.
fn subschemas(v: &Value, path: &str, out: &mut Vec<String>) {
    // `v` is a schema
    out.push(path.to_string());
    let Some(o) = v.as_object() else { return };
    for (k, x) in o {
        let Some((_, kind)) = KEYWORDS.iter().find(|e| e.0 == k) else { continue };
        let is_schema = |v: &Value| v.is_object() || v.is_boolean();
        let kp = format!("{path}/{}", k.replace('~', "~0").replace('/', "~1"));
        match kind {
            K::Data => {}
            K::One if is_schema(x) => subschemas(x, &kp, out),
            K::OneMany if is_schema(x) => subschemas(x, &kp, out),
            K::Many | K::OneMany => {
                for (i, y) in x.as_array().into_iter().flatten().enumerate() {
                    if is_schema(y) {
                        subschemas(y, &format!("{kp}/{i}"), out)
                    }
                }
            }
            K::Named => {
                for (n, y) in x.as_object().into_iter().flatten() {
                    if is_schema(y) {
                        subschemas(y, &format!("{kp}/{n}"), out)
                    }
                }
            }
            _ => {}
        }
    }
}

struct Count(u64);
impl Transform for Count {
    // parent first: mark with visit number; booleans are replaced so that the visit is visible
    fn transform(&mut self, s: &mut Schema) {
        self.0 += 1;
        let n = s.get("x-visits").and_then(Value::as_u64).unwrap_or(0);
        s.insert("x-visits".into(), (n + 1).into());
        s.insert("x-order".into(), self.0.into());
        transform_subschemas(self, s);
    }
}

fn strip(v: &Value) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| *k != "x-visits" && *k != "x-order").map(|(k, v)| (k.clone(), strip(v))).collect()),
        Value::Array(a) => Value::Array(a.iter().map(strip).collect()),
        v => v.clone(),
    }
}

fn visited_ok(doc: &Value) -> Result<usize, String> {
    let mut want = vec![];
    subschemas(doc, "", &mut want);
    for mode in 0..2 {
        let mut s = Schema::try_from(doc.clone()).map_err(|e| e.to_string())?;
        if mode == 0 {
            Count(0).transform(&mut s);
        } else {
            let mut n = 0u64;
            let mut t = RecursiveTransform(|s: &mut Schema| {
                n += 1;
                let v = s.get("x-visits").and_then(Value::as_u64).unwrap_or(0);
                s.insert("x-visits".into(), (v + 1).into());
                s.insert("x-order".into(), n.into());
            });
            t.transform(&mut s);
        }
        let out = s.to_value();
        // expected document: exactly the subschemas are marked once, children after parents
        let mut n_marked = 0;
        let mut err = None;
        count_marks(&out, "", &mut |p, visits, _| {
            n_marked += 1;
            if visits != 1 {
                err = Some(format!("{p} visited {visits} times"));
            }
            if !want.iter().any(|w| w == p) {
                err = Some(format!("{p} is not a subschema but was transformed"));
            }
        });
        if let Some(e) = err {
            return Err(e);
        }
        for w in &want {
            let v = vcore::jsv::resolve_pointer(&out, w).ok_or_else(|| format!("{w} disappeared"))?;
            if v.get("x-visits") != Some(&json!(1)) {
                return Err(format!("subschema {w} was not transformed"));
            }
        }
        if n_marked != want.len() {
            return Err(format!("{n_marked} places transformed, expected {}", want.len()));
        }
        // parents before children
        for w in &want {
            for x in &want {
                if x.len() > w.len() && x.starts_with(w.as_str()) && x.as_bytes()[w.len()] == b'/' {
                    let o = |p: &str| vcore::jsv::resolve_pointer(&out, p).unwrap()["x-order"].as_u64().unwrap();
                    if o(x) < o(w) {
                        return Err(format!("{x} transformed before its parent {w}"));
                    }
                }
            }
        }
        // nothing else changed: removing the marks gives back the original (bool schemas became objects)
        let unbool = |v: &Value| -> Value {
            let mut d = v.clone();
            for w in &want {
                if let Some(p) = d.pointer_mut(w) {
                    if let Some(b) = p.as_bool() {
                        *p = if b { json!({}) } else { json!({"not": {}}) };
                    }
                }
            }
            d
        };
        let st = strip(&out);
        let expect = unbool(doc);
        // `false` becomes {"not": {}}: that new inner schema may itself be visited
        let st2 = st;
        if st2 != expect {
            return Err(format!("document changed: {st2} expected {expect}"));
        }
    }
    Ok(want.len())
}

fn count_marks(v: &Value, p: &str, f: &mut impl FnMut(&str, u64, u64)) {
    match v {
        Value::Object(o) => {
            if let Some(n) = o.get("x-visits") {
                f(p, n.as_u64().unwrap_or(99), 0);
            }
            for (k, x) in o {
                count_marks(x, &format!("{p}/{}", k.replace('~', "~0").replace('/', "~1")), f);
            }
        }
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                count_marks(x, &format!("{p}/{i}"), f);
            }
        }
        _ => {}
    }
}

pub fn t01(r: &Report) {
    let judge = |doc: &Value| {
        r.state(1);
        r.valid(2);
        match std::panic::catch_unwind(|| visited_ok(doc)).unwrap_or_else(|_| Err("panic".into())) {
            Ok(n) => r.step(2 * n as u64),
            Err(e) => r.fail("visit", &format!("{e}; document {doc}"), json!({"document": doc, "error": e})),
        }
    };
    // paths of keywords to the bound, from the innermost outwards; `true` exercises boolean subschemas.
    // (`false` would grow a new "not" subschema while being marked, so booleans are exercised as `true`.)
    let leaves = [json!({}), json!(true), json!({"type": "string", "x-leaf": 1})];
    let depth = if r.thorough() { 4 } else { 3 };
    let n = KEYWORDS.len();
    let total = n.pow(depth as u32 - 1);
    par_for(total, |code| {
        if r.saturated() {
            return;
        }
        for leaf in &leaves {
            let mut c = code;
            let mut docs = vec![leaf.clone()];
            for lvl in 0..depth {
                // innermost level: every keyword; the others from the code
                let ks: Vec<usize> = if lvl == 0 { (0..n).collect() } else { let k = c % n; c /= n; vec![k] };
                let mut next = vec![];
                for d in &docs {
                    for k in &ks {
                        for (val, _) in placements(KEYWORDS[*k].1, d).into_iter().take(if lvl == 0 { 3 } else if depth - lvl > 2 { 2 } else { 1 }) {
                            let mut o = Map::new();
                            o.insert(KEYWORDS[*k].0.into(), val);
                            next.push(Value::Object(o));
                        }
                    }
                }
                docs = next;
            }
            for d in &docs {
                judge(d);
            }
        }
    });
    // all ordered pairs and (thorough) triples of keywords in one schema object, over two levels
    let mk = |ks: &[usize], leaf: &Value| -> Vec<Value> {
        let mut docs = vec![Map::new()];
        for k in ks {
            let mut next = vec![];
            for d in &docs {
                for (val, _) in placements(KEYWORDS[*k].1, leaf) {
                    let mut e = d.clone();
                    e.insert(KEYWORDS[*k].0.into(), val);
                    next.push(e);
                }
            }
            docs = next;
        }
        docs.into_iter().map(Value::Object).collect()
    };
    let m = if r.thorough() { n * n * n } else { n * n };
    par_for(m, |code| {
        if r.saturated() {
            return;
        }
        let mut ks = vec![code % n, code / n % n];
        if r.thorough() {
            ks.push(code / n / n);
        }
        if ks.len() == 3 && (ks[0] == ks[1] || ks[1] == ks[2] || ks[0] == ks[2]) || ks[0] == ks[1] {
            return;
        }
        for leaf in [json!({"items": {"x": 1}}), json!(true)] {
            for d in mk(&ks, &leaf) {
                judge(&d);
            }
        }
    });
    // a document with every keyword at once, in both orders
    let mut all: Vec<usize> = (0..n).collect();
    for _ in 0..2 {
        let mut o = Map::new();
        for k in &all {
            o.insert(KEYWORDS[*k].0.into(), placements(KEYWORDS[*k].1, &json!({"not": {"k": []}}))[0].0.clone());
        }
        let d = Value::Object(o);
        r.sample(|| d.clone());
        judge(&d);
        all.reverse();
    }
    r.note("bound", format!("all keyword paths of length {depth} over {n} keywords (schema-valued and data), all keyword {} in one object", if r.thorough() { "triples" } else { "pairs" }));
    r.assume("the keyword table in the check is the specification's list of applicators");
}

// ---------------------------------------------------------------- T02

thread_local! {
    static META: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

#[derive(Clone, Debug)]
struct Mark(&'static str);
impl Transform for Mark {
    // non-idempotent and non-commuting: appends its name to a log kept at the root of what it is given
    fn transform(&mut self, s: &mut Schema) {
        let log = s.get("x-log").and_then(Value::as_str).unwrap_or("").to_string();
        s.insert("x-log".into(), format!("{log}{}", self.0).into());
    }
}
#[derive(Clone, Debug)]
struct DeepMark(&'static str);
impl Transform for DeepMark {
    fn transform(&mut self, s: &mut Schema) {
        let log = s.get("x-log").and_then(Value::as_str).unwrap_or("").to_string();
        s.insert("x-log".into(), format!("{log}{}", self.0).into());
        transform_subschemas(self, s);
    }
}

struct Leaf;
struct Mid;
struct Top;
struct Any;
impl JsonSchema for Any {
    fn schema_name() -> Cow<'static, str> {
        "Any".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        true.into()
    }
}
struct Never;
impl JsonSchema for Never {
    fn schema_name() -> Cow<'static, str> {
        "Never".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        false.into()
    }
}
impl JsonSchema for Leaf {
    fn schema_name() -> Cow<'static, str> {
        "Leaf".into()
    }
    fn json_schema(_: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": "integer"})
    }
}
impl JsonSchema for Mid {
    fn schema_name() -> Cow<'static, str> {
        "Mid".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": "object", "properties": {"leaf": g.subschema_for::<Leaf>(), "vec": g.subschema_for::<Vec<Leaf>>(), "any": g.subschema_for::<Option<Any>>(), "never": g.subschema_for::<Never>()}})
    }
}
impl JsonSchema for Top {
    fn schema_name() -> Cow<'static, str> {
        "Top".into()
    }
    fn json_schema(g: &mut SchemaGenerator) -> Schema {
        schemars::json_schema!({"type": "object", "properties": {"mid": g.subschema_for::<Mid>(), "inl": g.subschema_for::<(bool, Mid)>()}})
    }
}

/// The reference pipeline: the untransformed output with each configured transform applied by the model.
fn model_apply(v: &mut Value, ts: &[(bool, &'static str)]) {
    for (deep, name) in ts {
        let mut locs = vec![];
        subschemas(v, "", &mut locs);
        for (i, l) in locs.iter().enumerate() {
            if i > 0 && !*deep {
                break;
            }
            let x = v.pointer_mut(l).unwrap();
            if let Some(b) = x.as_bool() {
                // a transform that turns `false` into an object goes on to the subschema it thereby made
                *x = if b { json!({}) } else if *deep { json!({"not": {"x-log": name}}) } else { json!({"not": {}}) };
            }
            let o = x.as_object_mut().unwrap();
            let log = o.get("x-log").and_then(Value::as_str).unwrap_or("").to_string();
            o.insert("x-log".into(), format!("{log}{name}").into());
        }
    }
}

pub fn t02(r: &Report) {
    #[derive(Clone, Copy, Debug, PartialEq)]
    enum Op {
        SubTop,
        SubMid,
        RootTop,
        RootMid,
        Value,
        Take(bool),
        Clone,
        IntoTop,
        IntoValue,
    }
    use Op::*;
    let marks: Vec<Vec<(bool, &'static str)>> = {
        let pool = [(false, "a"), (true, "b"), (true, "c"), (false, "d")];
        let mut v = vec![vec![]];
        for a in pool {
            v.push(vec![a]);
            for b in pool {
                v.push(vec![a, b]);
                for c in pool {
                    v.push(vec![a, b, c]);
                }
            }
        }
        v
    };
    let ops = [SubTop, SubMid, RootTop, RootMid, Value, Take(false), Take(true), Clone];
    let depth = if r.thorough() { 4 } else { 3 };
    let hs = crate::graph::lists(&ops, depth);
    let paths = ["/$defs", "/definitions"];
    let settings = |ts: &[(bool, &'static str)], path: &'static str, inl: bool| {
        let mut s = SchemaSettings::default().with(|s| {
            s.definitions_path = path.into();
            s.inline_subschemas = inl;
        });
        for (deep, n) in ts {
            s = if *deep { s.with_transform(DeepMark(n)) } else { s.with_transform(Mark(n)) };
        }
        s
    };
    let example = json!({"a": [1, "x"], "b": null});
    let run = |ts: &[(bool, &'static str)], h: &[Op], path: &'static str, inl: bool, last: Op| -> Result<(), String> {
        // the model generator has the same settings but no transforms; the model applies them itself
        let mut real = settings(ts, path, inl).into_generator();
        let mut model = settings(&[], path, inl).into_generator();
        let cmp = |what: &str, real: serde_json::Value, mut want: serde_json::Value, apply: bool| -> Result<(), String> {
            if apply {
                model_apply(&mut want, ts);
            }
            if real != want {
                return Err(format!("{what}: {real} expected {want}"));
            }
            Ok(())
        };
        for op in h.iter().chain([&last]) {
            r.step(1);
            let what = format!("{op:?}");
            match op {
                SubTop => cmp(&what, real.subschema_for::<Top>().to_value(), model.subschema_for::<Top>().to_value(), false)?,
                SubMid => cmp(&what, real.subschema_for::<Mid>().to_value(), model.subschema_for::<Mid>().to_value(), false)?,
                RootTop => cmp(&what, real.root_schema_for::<Top>().to_value(), model.root_schema_for::<Top>().to_value(), true)?,
                RootMid => cmp(&what, real.root_schema_for::<Mid>().to_value(), model.root_schema_for::<Mid>().to_value(), true)?,
                Value => cmp(&what, real.root_schema_for_value(&example).unwrap().to_value(), model.root_schema_for_value(&example).unwrap().to_value(), true)?,
                Take(t) => {
                    let a = real.take_definitions(*t);
                    let b = model.take_definitions(false);
                    if a.keys().collect::<Vec<_>>() != b.keys().collect::<Vec<_>>() {
                        return Err(format!("{what}: other definitions taken"));
                    }
                    for (k, v) in a {
                        cmp(&format!("{what} {k}"), v, b[&k].clone(), *t)?;
                    }
                }
                Clone => {
                    real = real.clone();
                    model = model.clone();
                }
                IntoTop => {
                    let (a, b) = (real.clone(), model.clone());
                    cmp(&what, a.into_root_schema_for::<Top>().to_value(), b.into_root_schema_for::<Top>().to_value(), true)?
                }
                IntoValue => {
                    let (a, b) = (real.clone(), model.clone());
                    cmp(&what, a.into_root_schema_for_value(&example).unwrap().to_value(), b.into_root_schema_for_value(&example).unwrap().to_value(), true)?
                }
            }
            // what the generator keeps is untransformed
            if real.definitions() != model.definitions() {
                return Err(format!("after {what}: stored definitions are {:?}", real.definitions()));
            }
            // the two consuming and non-consuming entry points agree
            if matches!(op, IntoTop) {
                let a = real.clone().into_root_schema_for::<Top>().to_value();
                let b = real.root_schema_for::<Top>().to_value();
                if a != b {
                    return Err(format!("into_root_schema_for {a} differs from root_schema_for {b}"));
                }
            }
            if matches!(op, IntoValue) {
                let a = real.clone().into_root_schema_for_value(&example).unwrap().to_value();
                let b = real.root_schema_for_value(&example).unwrap().to_value();
                if a != b {
                    return Err(format!("into_root_schema_for_value {a} differs from root_schema_for_value {b}"));
                }
            }
        }
        Ok(())
    };
    let quick_marks: Vec<_> = marks.iter().filter(|m| m.len() <= 2 || r.thorough()).cloned().collect();
    par_for(hs.len(), |k| {
        let h = &hs[k];
        if r.saturated() {
            return;
        }
        for ts in if h.len() <= 1 { &marks } else { &quick_marks } {
            for last in [IntoTop, IntoValue, RootTop, Take(true)] {
                for (path, inl) in [(paths[0], false), (paths[1], false), (paths[0], true)] {
                    r.state(1);
                    r.valid(1);
                    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(ts, h, path, inl, last))).unwrap_or_else(|_| Err("panic".into()));
                    if let Err(e) = res {
                        r.fail(
                            "pipeline",
                            &format!("{e}; transforms {ts:?}, history {h:?} then {last:?}, path {path}, inline {inl}"),
                            json!({"transforms": format!("{ts:?}"), "history": format!("{h:?} {last:?}"), "definitions_path": path, "inline_subschemas": inl, "error": e}),
                        );
                        return;
                    }
                }
            }
        }
    });
    // presets: every entry point gives the document that the preset's own transforms make of the plain one
    for preset in 0..4 {
        let s = || match preset {
            0 => SchemaSettings::draft07(),
            1 => SchemaSettings::draft2019_09(),
            2 => SchemaSettings::draft2020_12(),
            _ => SchemaSettings::openapi3(),
        };
        for path in ["/$defs", "/definitions", "/components/schemas"] {
            for extra in [false, true] {
                let mk = || {
                    let x = s().with(|s| s.definitions_path = path.into());
                    if extra { x.with_transform(DeepMark("z")) } else { x }
                };
                let plain = || mk().with(|s| s.transforms.clear()).into_generator();
                let finish = |mut v: Schema| {
                    for t in mk().transforms.iter_mut() {
                        t.transform(&mut v);
                    }
                    v.to_value()
                };
                let outs = [
                    ("into_root_schema_for", mk().into_generator().into_root_schema_for::<Top>().to_value(), finish(plain().into_root_schema_for::<Top>())),
                    ("root_schema_for", mk().into_generator().root_schema_for::<Top>().to_value(), finish(plain().into_root_schema_for::<Top>())),
                    ("into_root_schema_for_value", mk().into_generator().into_root_schema_for_value(&example).unwrap().to_value(), finish(plain().root_schema_for_value(&example).unwrap())),
                    ("root_schema_for_value", mk().into_generator().root_schema_for_value(&example).unwrap().to_value(), finish(plain().root_schema_for_value(&example).unwrap())),
                ];
                for (n, a, b) in outs {
                    r.state(1);
                    r.valid(1);
                    r.step(2);
                    if a != b {
                        r.fail("preset", &format!("{n} with preset {preset}, path {path}: {a} expected {b}"), json!({"preset": preset, "entry": n, "got": a, "expected": b}));
                    }
                }
                let mut g = mk().into_generator();
                g.subschema_for::<Top>();
                let mut p = plain();
                p.subschema_for::<Top>();
                let (a, b) = (g.take_definitions(true), p.take_definitions(false));
                r.valid(1);
                for (k, v) in &b {
                    let w = finish(Schema::try_from(v.clone()).unwrap());
                    if a.get(k) != Some(&w) {
                        r.fail("preset", &format!("take_definitions(true) with preset {preset}: {k} is {:?}, expected {w}", a.get(k)), json!({"preset": preset}));
                    }
                }
            }
        }
    }
    // macros
    for (n, a, b) in [
        ("schema_for!", schemars::schema_for!(Top).to_value(), SchemaGenerator::default().root_schema_for::<Top>().to_value()),
        ("schema_for_value!", schemars::schema_for_value!(example).to_value(), SchemaGenerator::default().root_schema_for_value(&example).unwrap().to_value()),
    ] {
        r.state(1);
        r.valid(1);
        if a != b {
            r.fail("macro", &format!("{n} gives {a}, expected {b}"), json!({"macro": n}));
        }
    }
    // transforms_mut: what is configured is what is applied, and in-place changes take effect
    let mut g = settings(&[(false, "a"), (true, "b")], "/$defs", false).into_generator();
    let n = g.transforms_mut().count();
    r.valid(1);
    if n != 2 {
        r.fail("transforms_mut", &format!("transforms_mut yields {n} of 2 transforms"), json!({}));
    }
    if let Some(m) = g.transforms_mut().next().and_then(|t| t.downcast_mut::<Mark>()) {
        m.0 = "q";
    }
    let log = g.root_schema_for::<Top>().to_value()["x-log"].clone();
    if log != json!("qb") {
        r.fail("transforms_mut", &format!("log {log}, expected \"qb\""), json!({}));
    }
    r.sample(|| json!({"transforms": "[(deep) b, (root only) a]", "history": "[RootTop, Take(true), RootMid, IntoTop]"}));
    r.note("bound", format!("all histories of up to {depth} of 8 operations, then each of 4 output operations; all lists of up to {} of 4 transforms (3 for short histories); 3 settings; all presets x 3 definitions paths", if r.thorough() { 3 } else { 2 }));
    r.assume("definitions stored where no keyword holds subschemas (e.g. /components/schemas) are only reached by transforms through take_definitions, as documented");
}

// ---------------------------------------------------------------- T04

pub fn t04(r: &Report) {
    use schemars::transform::RestrictFormats;
    const D7: &str = "http://json-schema.org/draft-07/schema#";
    const D19: &str = "https://json-schema.org/draft/2019-09/schema";
    const D20: &str = "https://json-schema.org/draft/2020-12/schema";
    let d7 = [
        "date-time", "date", "time", "email", "idn-email", "hostname", "idn-hostname", "ipv4", "ipv6", "uri", "uri-reference", "iri", "iri-reference", "uri-template", "json-pointer", "relative-json-pointer", "regex",
    ];
    let later = ["duration", "uuid"];
    let defined = |meta: &str, f: &str| d7.contains(&f) || meta != D7 && later.contains(&f);

    // model: `inferred` is the meta-schema in force
    fn model(v: &mut Value, infer: bool, inferred: Option<&str>, allowed: &[&str], defined: &dyn Fn(&str, &str) -> bool) {
        let Some(o) = v.as_object_mut() else { return };
        let mut inf = inferred.map(str::to_string);
        let mut unknown = false;
        if infer {
            if let Some(m) = o.get("$schema") {
                let m = m.as_str().unwrap_or("").to_string();
                if [D7, D19, D20].contains(&m.as_str()) {
                    inf = Some(m);
                } else {
                    unknown = true;
                }
            }
        }
        if unknown {
            return;
        }
        // no declaration anywhere above, although formats are to be inferred: leave formats alone
        let alone = infer && inf.is_none();
        if !alone {
            if let Some(f) = o.get("format").and_then(Value::as_str) {
                let ok = allowed.contains(&f) || inf.as_deref().is_some_and(|m| defined(m, f));
                if !ok {
                    o.remove("format");
                }
            }
        }
        let keys: Vec<String> = o.keys().cloned().collect();
        for k in keys {
            let kind = KEYWORDS.iter().find(|e| e.0 == k).map(|e| e.1).unwrap_or(K::Data);
            let x = o.get_mut(&k).unwrap();
            match kind {
                K::One | K::OneMany if x.is_object() => model(x, infer, inf.as_deref(), allowed, defined),
                K::Many | K::OneMany => x.as_array_mut().into_iter().flatten().for_each(|y| model(y, infer, inf.as_deref(), allowed, defined)),
                K::Named => x.as_object_mut().into_iter().flat_map(|m| m.values_mut()).for_each(|y| model(y, infer, inf.as_deref(), allowed, defined)),
                _ => {}
            }
        }
    }
    let metas: [Option<Value>; 6] = [None, Some(json!(D7)), Some(json!(D19)), Some(json!(D20)), Some(json!("urn:unknown")), Some(json!("https://spec.openapis.org/oas/3.0/schema/2024-10-18#/definitions/Schema"))];
    let formats: Vec<Option<&str>> = vec![None, Some("uuid"), Some("date"), Some("int32"), Some("custom")];
    let allowed: [&[&str]; 4] = [&[], &["custom"], &["uuid"], &["date", "int32"]];
    let mut n_cases = 0u64;
    let check = |doc: &Value, infer: bool, allow: &[&'static str]| {
        let mut t = RestrictFormats::default();
        t.infer_from_meta_schema = infer;
        for a in allow {
            t.allowed_formats.insert((*a).into());
        }
        let mut s = Schema::try_from(doc.clone()).unwrap();
        t.transform(&mut s);
        let got = s.to_value();
        let mut want = doc.clone();
        model(&mut want, infer, None, allow, &defined);
        r.state(1);
        r.valid(1);
        r.step(1);
        if got != want {
            r.fail("formats", &format!("infer={infer}, allowed={allow:?}: {doc} became {got}, expected {want}"), json!({"document": doc, "infer_from_meta_schema": infer, "allowed": allow, "got": got, "expected": want}));
        }
    };
    // nodes: (meta, format); chains of three nodes linked by keywords, plus siblings that come after
    let node = |m: &Option<Value>, f: &Option<&str>| {
        let mut o = Map::new();
        if let Some(f) = f {
            o.insert("format".into(), (*f).into());
        }
        if let Some(m) = m {
            o.insert("$schema".into(), m.clone());
        }
        o
    };
    let links = ["not", "items", "properties", "anyOf", "additionalProperties", "$defs", "unevaluatedProperties", "prefixItems"];
    let link = |parent: &Map<String, Value>, k: &str, child: &Value| -> Value {
        let mut p = parent.clone();
        let v = match KEYWORDS.iter().find(|e| e.0 == k).unwrap().1 {
            K::Many => json!([child]),
            K::Named => json!({"format": child}),
            _ => child.clone(),
        };
        p.insert(k.into(), v);
        // data that looks like a schema with a format
        p.insert("default".into(), json!({"format": "custom", "not": {"format": "custom"}}));
        Value::Object(p)
    };
    let nodes: Vec<Map<String, Value>> = metas.iter().flat_map(|m| formats.iter().map(move |f| (m, f))).map(|(m, f)| node(m, f)).collect();
    let small: Vec<Map<String, Value>> = metas.iter().flat_map(|m| [Some("uuid"), Some("custom")].map(move |f| (m, f))).map(|(m, f)| node(m, &f)).collect();
    let _ = &mut n_cases;
    par_for(nodes.len(), |a| {
        for infer in [true, false] {
            for allow in allowed {
                check(&Value::Object(nodes[a].clone()), infer, allow);
                for b in &nodes {
                    for l in links {
                        let d = link(&nodes[a], l, &Value::Object(b.clone()));
                        r.sample(|| d.clone());
                        check(&d, infer, allow);
                    }
                    for c in &small {
                        // parent with two siblings: state must not leak from the first into the second
                        let d = link(&nodes[a], "items", &json!({}));
                        let mut o = d.as_object().unwrap().clone();
                        o.insert("anyOf".into(), json!([b, c, true]));
                        check(&Value::Object(o), infer, allow);
                        // chain of three
                        for (l1, l2) in [("not", "items"), ("properties", "anyOf"), ("$defs", "not")] {
                            let inner = link(b, l2, &Value::Object(c.clone()));
                            check(&link(&nodes[a], l1, &inner), infer, allow);
                        }
                    }
                }
            }
        }
    });
    // every defined format under every meta-schema
    for m in &metas {
        for f in d7.iter().chain(&later).chain(&["int64", "uint8", "float", "double", "char", "regexp", "url", ""]) {
            for infer in [true, false] {
                for allow in allowed {
                    check(&Value::Object(node(m, &Some(f))), infer, allow);
                    let mut o = node(m, &None);
                    o.insert("items".into(), json!({"format": f}));
                    check(&Value::Object(o), infer, allow);
                }
            }
        }
    }
    r.note("bound", "chains of up to 3 schema nodes and pairs of siblings, each node with any of 6 meta-schema declarations and 5 formats, 8 linking keywords, 8 settings; all 19 defined formats and 8 others under each meta-schema");
    r.assume("the list of formats each draft defines is transcribed from the specifications");
}
