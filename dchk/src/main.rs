use dlib::{De, Prog};
use schemars::generate::SchemaSettings;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use dlib::universe::{universe, Hints};
use vcore::jsv::{json_eq, Dialect, Doc};
use vcore::report::par_for;
use vcore::Report;

fn programs() -> Vec<Prog> {
    let mut v = vec![];
    v.extend(p0::all());
    v.extend(p1::all());
    v.extend(p2::all());
    v.extend(p3::all());
    v.extend(p4::all());
    v.extend(p5::all());
    v.extend(p6::all());
    v.extend(p7::all());
    v.sort_by_key(|p| p.id);
    v
}

struct D {
    name: &'static str,
    doc: Value,
    ev: Result<Doc, String>,
}
fn docs(p: &Prog, de: bool) -> Vec<D> {
    let mut out = vec![];
    let contract = |s: SchemaSettings| if de { s.for_deserialize() } else { s.for_serialize() };
    for (name, s, d) in [
        ("2020-12", SchemaSettings::draft2020_12(), Dialect::D2020),
        ("2019-09", SchemaSettings::draft2019_09(), Dialect::D2019),
        ("draft-07", SchemaSettings::draft07(), Dialect::D7),
        ("2020-12 inline", SchemaSettings::draft2020_12().with(|s| s.inline_subschemas = true), Dialect::D2020),
    ] {
        let doc = (p.root)(contract(s).into_generator()).to_value();
        let ev = Doc::new(&doc, d);
        out.push(D { name, doc, ev });
    }
    // OpenAPI: as a component of an API description
    let mut g = contract(SchemaSettings::openapi3()).into_generator();
    let mut s = (p.sub)(&mut g);
    let defs = g.take_definitions(true);
    for t in g.transforms_mut() {
        t.transform(&mut s);
    }
    let doc = json!({"components": {"schemas": defs}, "allOf": [s]});
    let ev = Doc::new(&doc, Dialect::OA3);
    out.push(D { name: "openapi3", doc, ev });
    out
}

/// Is `v` in the serialized form of the value that serializes to `w`? Wherever both have a JSON
/// position, kind and (for scalars) value agree; `map` gives the serialization name of each
/// deserialization name that differs. `free`: scalars may differ (hand-written `with` functions).
fn in_form(v: &Value, w: &Value, map: &BTreeMap<String, String>, free: bool, any_kind: bool, depth: usize, dropped: &dyn Fn(&str, &Value, usize) -> bool) -> bool {
    match (v, w) {
        (Value::Object(a), Value::Object(b)) => a.iter().all(|(k, x)| {
            let k = map.get(k).unwrap_or(k);
            match b.get(k) {
                Some(y) => in_form(x, y, map, free, any_kind, depth + 1, dropped),
                None => !dropped(k, x, depth),
            }
        }),
        (Value::Array(a), Value::Array(b)) => a.iter().zip(b).all(|(x, y)| in_form(x, y, map, free, any_kind, depth + 1, dropped)),
        (Value::Object(_) | Value::Array(_), _) | (_, Value::Object(_) | Value::Array(_)) => false,
        _ if free && (any_kind || std::mem::discriminant(v) == std::mem::discriminant(w)) => true,
        (Value::String(a), Value::String(b)) => a == b || map.get(a) == Some(b),
        _ => json_eq(v, w),
    }
}

fn has_array(v: &Value) -> bool {
    match v {
        Value::Array(_) => true,
        Value::Object(o) => o.values().any(has_array),
        _ => false,
    }
}

struct Run {
    h: Hints,
    map: BTreeMap<String, String>,
    vals: Vec<(usize, Option<Value>)>,
    uni: Vec<Value>,
}
fn setup(p: &Prog, thorough: bool) -> Run {
    let h = Hints { v: serde_json::from_str(p.hints).unwrap() };
    let vals = (p.vals)();
    let uni = if h.flag("valsonly") {
        vcore::uni::dedup(vals.iter().filter_map(|v| v.1.clone()).chain(h.v["seeds"].as_array().into_iter().flatten().cloned()).collect())
    } else {
        universe(p, &h, &vals, 1 + thorough as usize)
    };
    let map = h.v["map"].as_object().map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap().to_string())).collect()).unwrap_or_default();
    Run { h, map, vals, uni }
}
/// Deserializes, and whether the value counts as in serialized form.
fn judged(p: &Prog, run: &Run, v: &Value) -> (De, bool) {
    let r = (p.de)(v.clone());
    let form = match &r {
        Ok(Some(w)) => {
            // Keys that were read but are not written again. Known to the type but dropped: not in
            // serialized form (an optional flattened field that could not be read). Where unknown
            // fields are denied: any key but a struct field's.
            let known = ["s", "n", "q", "r", "k", "v", "d", "e", "w", "Nb", "Sc", "Ua", "Ub", "Aa", "Bb"];
            let fields = (p.names)().fields.unwrap_or(&[]);
            let dropped = |k: &str, x: &Value, depth: usize| {
                run.h.flag("strict") && known.contains(&k)
                    || run.h.flag("nodrop")
                    || run.h.flag("noarr") && has_array(x)
                    || p.denies() && !(depth == 0 && fields.contains(&k) && k != "t" && k != "c")
            };
            in_form(v, w, &run.map, run.h.flag("nofilter"), run.h.flag("sermismatch"), 0, &dropped)
        }
        _ => false,
    };
    (r, form)
}

fn replay(p: &Prog, v: &Value, d: &D) -> Value {
    json!({"program": p.id, "source": p.src, "value": v, "dialect": d.name, "schema": d.doc})
}

/// Runs `f` on every program; a panic is a violation.
fn each(r: &Report, ps: &[Prog], f: impl Fn(&Prog) + Sync) {
    par_for(ps.len(), |i| {
        if r.saturated() {
            return;
        }
        if let Err(e) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&ps[i]))) {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            r.fail(ps[i].id, &format!("{}: {}: panicked: {msg}", ps[i].id, ps[i].src), json!({"program": ps[i].id, "source": ps[i].src, "panic": msg}));
        }
    });
}

fn d01(r: &Report, ps: &[Prog]) {
    each(r, ps, |p| {
        let run = setup(p, r.thorough());
        let ds = docs(p, true);
        r.step(ds.len() as u64);
        let mut bad = false;
        for d in &ds {
            if let Err(e) = &d.ev {
                r.fail(p.id, &format!("{}: {}: schema is not valid in {}: {e}", p.id, p.src, d.name), replay(p, &Value::Null, d));
                bad = true;
            }
        }
        if bad {
            return;
        }
        let mut n = 0;
        let mut nyes = 0;
        for v in &run.uni {
            n += 1;
            let (_, form) = judged(p, &run, v);
            if !form {
                continue;
            }
            nyes += 1;
            for d in &ds {
                if !d.ev.as_ref().unwrap().accepts(v) {
                    r.fail(
                        p.id,
                        &format!("{}: {}\n  deserializes from {v}, which its {} deserialize schema rejects: {}", p.id, p.src, d.name, d.doc),
                        replay(p, v, d),
                    );
                    r.state(n);
                    r.valid(nyes);
                    return;
                }
            }
        }
        r.state(n);
        r.step(n);
        r.valid(nyes * ds.len() as u64);
        r.sample(|| json!({"program": p.src, "values": run.uni.len(), "accepted": nyes}));
    });
}

fn d02(r: &Report, ps: &[Prog]) {
    each(r, ps, |p| {
        let run = setup(p, r.thorough());
        let ds = docs(p, false);
        for d in &ds {
            if let Err(e) = &d.ev {
                r.fail(p.id, &format!("{}: {}: schema is not valid in {}: {e}", p.id, p.src, d.name), replay(p, &Value::Null, d));
                return;
            }
        }
        if run.h.flag("sermismatch") {
            return;
        }
        let mut ws: Vec<Value> = run.vals.iter().filter_map(|v| v.1.clone()).collect();
        for v in &run.uni {
            if let Ok(Some(w)) = (p.de)(v.clone()) {
                ws.push(w);
            }
        }
        let ws = vcore::uni::dedup(ws);
        r.state(ws.len() as u64);
        r.step(run.uni.len() as u64);
        r.valid(ws.len() as u64 * ds.len() as u64);
        for w in &ws {
            for d in &ds {
                if !d.ev.as_ref().unwrap().accepts(w) {
                    // the unit variant of an untagged enum inside an internally tagged newtype variant
                    let unit_in_tag = p.src.contains("tag = \"t\"") && p.src.contains("Va(NeU)") && w.as_object().is_some_and(|o| o.len() == 1 && o.contains_key("t"));
                    if unit_in_tag {
                        r.fail("untagged-unit-in-internal-newtype", &format!("{}: {} serializes to {w}", p.id, p.src), replay(p, w, d));
                        continue;
                    }
                    r.fail(
                        p.id,
                        &format!("{}: {}\n  serializes to {w}, which its {} serialize schema rejects: {}", p.id, p.src, d.name, d.doc),
                        replay(p, w, d),
                    );
                    return;
                }
            }
        }
        r.sample(|| json!({"program": p.src, "serialized values": ws.len()}));
    });
}

/// Names a schema mentions as property, required name or constant.
fn mentions(v: &Value, name: &str) -> bool {
    match v {
        Value::Object(o) => o.iter().any(|(k, x)| match k.as_str() {
            "properties" => x.as_object().is_some_and(|p| p.contains_key(name)) || mentions_props(x, name),
            "required" | "enum" => x.as_array().is_some_and(|a| a.iter().any(|y| y == name)),
            "const" => x == name,
            "default" | "title" | "examples" => false,
            _ => mentions(x, name),
        }),
        Value::Array(a) => a.iter().any(|x| mentions(x, name)),
        _ => false,
    }
}
fn mentions_props(v: &Value, name: &str) -> bool {
    v.as_object().is_some_and(|p| p.values().any(|x| mentions(x, name)))
}

/// Every value made from `v` by removing one object key that `pick` allows.
fn without_key(v: &Value, pick: &dyn Fn(&str, &serde_json::Map<String, Value>) -> bool) -> Vec<Value> {
    let mut out = vec![];
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                if pick(k, o) {
                    let mut m = o.clone();
                    m.remove(k);
                    out.push(Value::Object(m));
                }
                for y in without_key(x, pick) {
                    let mut m = o.clone();
                    m.insert(k.clone(), y);
                    out.push(Value::Object(m));
                }
            }
        }
        Value::Array(a) => {
            for i in 0..a.len() {
                for y in without_key(&a[i], pick) {
                    let mut b = a.clone();
                    b[i] = y;
                    out.push(Value::Array(b));
                }
            }
        }
        _ => {}
    }
    out
}

/// Which recorded looseness explains that `v` is valid and yet rejected by serde?
/// - `adjacent-unit-content`: a unit variant of an adjacently tagged enum with a content key next to
///   its tag; serde only allows null there, the schema says nothing about it.
/// - `merged-extra-keys`: an enum or unit type flattened into (or tagged by) an outer object: keys
///   of other variants, or any other keys where the inner type takes none, are not ruled out.
/// Both: without the key, the value is accepted.
fn known_loose(p: &Prog, run: &Run, v: &Value) -> Option<&'static str> {
    let unit = |k: &str, o: &serde_json::Map<String, Value>| k == "c" && o.contains_key("t") || k == "v" && o.contains_key("k");
    let ok = |w: &Value| (p.de)(w.clone()).is_ok();
    let mut ws = without_key(v, &unit);
    if ws.iter().any(ok) {
        return Some("adjacent-unit-content");
    }
    if p.src.contains("content = ") || p.src.contains("Ae") {
        // twice: nested enums
        ws = ws.iter().flat_map(|w| without_key(w, &unit)).collect();
        if ws.iter().any(ok) {
            return Some("adjacent-unit-content");
        }
    }
    if run.h.flag("merged") {
        let mut ws = vec![v.clone()];
        for _ in 0..4 {
            ws = vcore::uni::dedup(ws.iter().flat_map(|w| without_key(w, &|_, _| true)).collect());
            if ws.iter().any(ok) {
                return Some("merged-extra-keys");
            }
        }
    }
    None
}

fn d03(r: &Report, ps: &[Prog]) {
    each(r, ps, |p| {
        let run = setup(p, r.thorough());
        let de = docs(p, true);
        let ser = docs(p, false);
        if de.iter().chain(&ser).any(|d| d.ev.is_err()) {
            return; // reported by D01, D02
        }
        for (which, names, d) in [("serialize", run.h.strs("ser_absent"), &ser[0]), ("deserialize", run.h.strs("de_absent"), &de[0])] {
            for n in names {
                if mentions(&d.doc, &n) {
                    r.fail(p.id, &format!("{}: {}\n  {which} schema mentions {n:?}: {}", p.id, p.src, d.doc), replay(p, &Value::Null, d));
                    return;
                }
            }
        }
        // field names
        let names = (p.names)();
        if let Some(f) = names.fields {
            let alias = run.h.strs("alias");
            let tagged = de[0].doc["properties"].is_object() || de[0].doc.get("type") == Some(&json!("object")) && de[0].doc.get("oneOf").is_none();
            if tagged && !run.h.flag("conv") && !run.h.flag("tagged_struct") && !run.h.flag("flat") {
                let mut want: Vec<&str> = f.iter().copied().filter(|x| !alias.iter().any(|a| a == x)).collect();
                let mut got: Vec<&str> = de[0].doc["properties"].as_object().map(|o| o.keys().map(String::as_str).collect()).unwrap_or_default();
                want.sort();
                got.sort();
                if want != got {
                    r.fail(p.id, &format!("{}: {}\n  deserializes fields {want:?}, schema has {got:?}", p.id, p.src), replay(p, &Value::Null, &de[0]));
                    return;
                }
            }
        }
        let bad = run.h.strs("badtags");
        let sym = !run.h.flag("asym") && !run.h.flag("loose") && !run.h.flag("tagged_struct") && !p.src.contains("skip_serializing_if") && run.map.is_empty() && run.h.strs("ser_absent").is_empty();
        let mut nv = 0;
        for v in &run.uni {
            let res = (p.de)(v.clone());
            if res.is_ok() || run.h.flag("loose") || v["t"].as_str().is_some_and(|t| bad.iter().any(|b| b == t)) {
                continue;
            }
            nv += 1;
            let key = |d: &D| d.ev.as_ref().unwrap().accepts(v).then(|| known_loose(p, &run, v)).flatten();
            if let Some(k) = de[..2].iter().find_map(key) {
                r.fail(k, &format!("{}: {} accepts {v}", p.id, p.src), replay(p, v, &de[0]));
                continue;
            }
            for d in &de[..2] {
                if d.ev.as_ref().unwrap().accepts(v) {
                    r.fail(
                        p.id,
                        &format!("{}: {}\n  {v} is valid against its {} deserialize schema but fails: {}\n  {}", p.id, p.src, d.name, res.unwrap_err(), d.doc),
                        replay(p, v, d),
                    );
                    return;
                }
            }
            if sym && ser[0].ev.as_ref().unwrap().accepts(v) && key(&ser[0]).is_none() {
                r.fail(p.id, &format!("{}: {}\n  {v} is valid against its serialize schema but is no value of the type\n  {}", p.id, p.src, ser[0].doc), replay(p, v, &ser[0]));
                return;
            }
        }
        // fields that are always written are required by the serialize schema
        let mut groups: BTreeMap<usize, Vec<&Value>> = BTreeMap::new();
        for (g, v) in &run.vals {
            if let Some(v) = v {
                groups.entry(*g).or_default().push(v);
            }
        }
        let all: std::collections::HashSet<String> = run.vals.iter().filter_map(|v| v.1.as_ref().map(|v| v.to_string())).collect();
        let untagged = p.src.contains("untagged");
        for vs in groups.values() {
            if untagged || p.src.contains("skip_serializing_if") || run.h.flag("flat") || run.h.flag("sermismatch") || vs.iter().any(|v| !v.is_object()) {
                continue;
            }
            let first = vs[0].as_object().unwrap();
            for k in first.keys().filter(|k| vs.iter().all(|v| v.get(k.as_str()).is_some())) {
                for v in vs {
                    let mut o = v.as_object().unwrap().clone();
                    o.remove(k);
                    let w = Value::Object(o);
                    if all.contains(&w.to_string()) {
                        continue;
                    }
                    nv += 1;
                    if ser[0].ev.as_ref().unwrap().accepts(&w) {
                        r.fail(p.id, &format!("{}: {}\n  always writes {k:?}, but its serialize schema accepts {w}: {}", p.id, p.src, ser[0].doc), replay(p, &w, &ser[0]));
                        return;
                    }
                }
            }
        }
        r.state(run.uni.len() as u64);
        r.step(run.uni.len() as u64 + 10);
        r.valid(nv);
        r.sample(|| json!({"program": p.src, "values": run.uni.len(), "rejected by serde": nv}));
    });
}

fn main() {
    if std::env::var("MC_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    let id = std::env::args().nth(1).expect("usage: dchk <property> [quick|thorough]");
    let r = Report::new(&id);
    let mut ps = programs();
    if let Ok(f) = std::env::var("DCHK_ONLY") {
        ps.retain(|p| p.id.contains(&f));
    }
    r.note("programs", ps.len());
    match id.as_str() {
        "D01" => d01(&r, &ps),
        "D02" => d02(&r, &ps),
        "D03" => d03(&r, &ps),
        _ => std::process::exit(2),
    }
    r.finish();
}
