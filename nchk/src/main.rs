//! D08: every pair of instantiations in one document, against monomorphic twins; names; sharing.
use nlib::Entry;
use schemars::generate::SchemaSettings;
use schemars::Schema;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use vcore::bisim::bisimilar;
use vcore::report::par_for;
use vcore::Report;

fn settings(c: bool, inline: bool) -> SchemaSettings {
    let mut s = SchemaSettings::draft2020_12();
    s.inline_subschemas = inline;
    if c {
        s.for_deserialize()
    } else {
        s.for_serialize()
    }
}
const CFG: [(bool, bool); 4] = [(true, false), (false, false), (true, true), (false, true)];

/// A document with one subschema per sequence element, and the definitions.
fn doc(s: SchemaSettings, subs: &[fn(&mut schemars::SchemaGenerator) -> Schema]) -> (Value, usize) {
    let mut g = s.into_generator();
    let xs: Vec<Value> = subs.iter().map(|f| json!(f(&mut g))).collect();
    let defs = g.take_definitions(true);
    let n = defs.len();
    (json!({ "xs": xs, "$defs": defs }), n)
}

fn decoded_name(v: &Value) -> Option<String> {
    let p = vcore::jsv::decode_fragment(v.get("$ref")?.as_str()?).ok()?;
    Some(p.strip_prefix("/$defs/")?.replace("~1", "/").replace("~0", "~"))
}

fn pair_key(x: &Entry, y: &Entry) -> String {
    if x.prog == y.prog {
        format!("{} | {}", x.id.min(y.id), x.id.max(y.id))
    } else {
        format!("{} || {}", x.id, y.id)
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let r = Report::new("D08");
    let all: Vec<Entry> = [n0::ALL, n1::ALL, n2::ALL, n3::ALL, n4::ALL, n5::ALL, n6::ALL, n7::ALL].concat().concat().iter().map(|f| f()).collect();
    // expected documents: the twins, each alone
    let twins: Vec<Vec<Value>> = all.iter().map(|e| CFG.iter().map(|&(c, i)| doc(settings(c, i), &[e.twin]).0).collect()).collect();
    let twin_roots: Vec<Vec<Value>> = all.iter().map(|e| CFG.iter().map(|&(c, i)| json!((e.twin_root)(settings(c, i).into_generator()))).collect()).collect();
    let info = |e: &Entry| json!({"type": e.id, "definition": e.src});
    let check = |key: &str, what: &str, got: &Value, k: usize, a: usize, cfg: usize, ctx: Value| {
        r.valid(1);
        if let Err(m) = bisimilar(got, &got["xs"][k], &twins[a][cfg], &twins[a][cfg]["xs"][0], &[]) {
            r.fail(key, &format!("{} {what}: {m}", all[a].id), json!({"type": info(&all[a]), "with": ctx, "document": got, "expected": twins[a][cfg], "deserialize": CFG[cfg].0, "inline_subschemas": CFG[cfg].1}));
            return false;
        }
        true
    };
    // each alone: its twin, its name, its sharing
    for (a, e) in all.iter().enumerate() {
        r.state(1);
        let res = catch_unwind(AssertUnwindSafe(|| {
            for (cfg, &(c, i)) in CFG.iter().enumerate() {
                let (d, n) = doc(settings(c, i), &[e.sub]);
                r.step(1);
                check(e.id, "alone", &d, 0, a, cfg, json!(null));
                for (how, f) in &e.same {
                    let (d2, n2) = doc(settings(c, i), &[e.sub, *f]);
                    let (d3, n3) = doc(settings(c, i), &[*f, e.sub]);
                    r.step(2);
                    r.valid(2);
                    if d2["xs"][0] != d2["xs"][1] || d3["xs"][0] != d3["xs"][1] || n2 != n || n3 != n {
                        r.fail(e.id, &format!("{} and the same type reached through {how} do not share one schema", e.id), json!({"type": info(e), "document": d2, "alone": d}));
                    }
                }
                for (how, f) in &e.around {
                    let (d2, n2) = doc(settings(c, i), &[e.sub, *f]);
                    r.step(1);
                    r.valid(1);
                    if n2 != n {
                        r.fail(e.id, &format!("{} and {how} do not share one definition", e.id), json!({"type": info(e), "document": d2, "alone": d}));
                    }
                }
                if let Some(name) = e.name {
                    r.valid(1);
                    let title = json!((e.root)(settings(c, i).into_generator()));
                    let mut got = vec![("schema_name", Some((e.schema_name)().to_string()))];
                    if title.get("title").is_some() && !e.src.contains("title") {
                        got.push(("root title", title["title"].as_str().map(Into::into)));
                    }
                    if !(e.inline)() && !i {
                        got.push(("definition", decoded_name(&d["xs"][0])));
                        if d["$defs"].get(name).is_none() {
                            got.push(("key in definitions", None));
                        }
                    }
                    for (what, g) in got {
                        if g.as_deref() != Some(name) {
                            r.fail(e.id, &format!("{what} of {} is {g:?} instead of {name:?}", e.id), json!({"type": info(e), "document": d, "root": title}));
                        }
                    }
                }
            }
        }));
        if res.is_err() {
            r.fail(e.id, &format!("generating the schema of {} panicked", e.id), info(e));
        }
    }
    // every ordered pair in one generator
    let ncfg = CFG.len();
    let n = all.len();
    par_for(n * n, |p| {
        let (a, b) = (p / n, p % n);
        if a == b || r.saturated() {
            return;
        }
        let (x, y) = (&all[a], &all[b]);
        let key = pair_key(x, y);
        r.state(1);
        // quick: types of different families meet under one configuration only
        let cfgs = if x.prog == y.prog || r.thorough() { ncfg } else { 1 };
        let res = catch_unwind(AssertUnwindSafe(|| {
            for cfg in 0..cfgs {
                let (c, i) = CFG[cfg];
                let (d, _) = doc(settings(c, i), &[x.sub, y.sub]);
                r.step(2);
                let ok = check(&key, &format!("before {}", y.id), &d, 0, a, cfg, info(y)) && check(&key, &format!("after {}", x.id), &d, 1, b, cfg, info(x));
                if ok && x.prog == y.prog {
                    // the second one as a root
                    let mut g = settings(c, i).into_generator();
                    let first = json!((x.sub)(&mut g));
                    let mut root = json!((y.root)(g));
                    r.step(2);
                    r.valid(1);
                    if first.get("$ref").is_some() && !i {
                        // the root document has the first one's definition too
                        root["xs"] = json!([first]);
                        check(&key, &format!("in the root schema of {}", y.id), &root, 0, a, cfg, info(y));
                        root.as_object_mut().unwrap().remove("xs");
                    }
                    let t = &twin_roots[b][cfg];
                    if let Err(m) = bisimilar(&root, &root, t, t, &[]) {
                        // an explicit title on the type itself is compared elsewhere
                        r.fail(&key, &format!("{} as root after {}: {m}", y.id, x.id), json!({"type": info(y), "with": info(x), "document": root, "expected": t}));
                    }
                }
            }
        }));
        if res.is_err() {
            r.fail(&key, &format!("generating the schemas of {} and {} panicked", x.id, y.id), json!([info(x), info(y)]));
        }
    });
    // every triple within a family
    if r.thorough() && !r.failed() {
        let mut fam: HashMap<&str, Vec<usize>> = HashMap::new();
        for (i, e) in all.iter().enumerate() {
            fam.entry(e.prog).or_default().push(i);
        }
        let mut triples = vec![];
        for f in fam.values().filter(|f| f.len() <= 24) {
            for &a in f {
                for &b in f {
                    for &c in f {
                        let known = |x: usize, y: usize| r.is_known(&pair_key(&all[x], &all[y]));
                        if a != b && b != c && a != c && !known(a, b) && !known(b, c) && !known(a, c) {
                            triples.push([a, b, c]);
                        }
                    }
                }
            }
        }
        par_for(triples.len(), |i| {
            let t = triples[i];
            let key = format!("{} {} {}", all[t[0]].id, all[t[1]].id, all[t[2]].id);
            r.state(1);
            for cfg in 0..ncfg {
                let (c, i) = CFG[cfg];
                let (d, _) = doc(settings(c, i), &t.map(|x| all[x].sub));
                r.step(3);
                for k in 0..3 {
                    check(&key, &format!("with {key}"), &d, k, t[k], cfg, json!(t.map(|x| all[x].id)));
                }
            }
        });
        r.note("triples", triples.len());
    }
    r.note("types", n);
    r.note("bounds", format!("{n} types; each alone (4 settings, {} other paths to it and {} types around it), every ordered pair (types of one family: 4 settings, also with the second as root{})", all[0].same.len(), all[0].around.len(), if r.thorough() { "; thorough: every pair under 4 settings and every triple of a family" } else { "" }));
    r.sample(|| info(&all[n / 2]));
    r.sample(|| info(&all[n / 3]));
    r.assume("The expected schema of an instantiation is that of a twin definition with the parameters substituted in its text and a name that no other type has, generated alone.");
    r.finish()
}
