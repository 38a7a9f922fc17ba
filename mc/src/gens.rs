//! G01, G02, G03.
use crate::dispatch;
use crate::graph::*;
use schemars::generate::SchemaSettings;
use schemars::SchemaGenerator;
use serde_json::{json, Value};
use vcore::report::par_for;
use vcore::Report;

fn settings(inline: bool, path: &'static str, meta: Option<&'static str>) -> SchemaSettings {
    SchemaSettings::default().with(|s| {
        s.inline_subschemas = inline;
        s.definitions_path = path.into();
        s.meta_schema = meta.map(Into::into);
    })
}

const PATHS: [&str; 8] = ["/$defs", "#/$defs/", "/definitions", "/components/schemas", "#/a~1b/c d", "", "/", "/x/y/z/"];

/// independent reading of the documented definitions path: a JSON pointer, one leading '#' and one trailing '/' ignored
fn path_pointer(p: &str) -> String {
    let p = p.strip_prefix('#').unwrap_or(p);
    p.strip_suffix('/').unwrap_or(p).to_string()
}

/// The names present at the definitions path (the root object itself when the path is the whole document).
fn defs_at<'a>(doc: &'a Value, path: &str) -> Vec<(&'a String, &'a Value)> {
    let p = path_pointer(path);
    match vcore::jsv::resolve_pointer(doc, &p) {
        Some(Value::Object(o)) if p.is_empty() => o.iter().filter(|(k, _)| k.starts_with(['A', 'B'])).collect(),
        Some(Value::Object(o)) => o.iter().collect(),
        _ => vec![],
    }
}

fn all_refs<'a>(v: &'a Value, out: &mut Vec<&'a str>) {
    match v {
        Value::Object(o) => {
            for (k, x) in o {
                if k == "$ref" {
                    if let Some(s) = x.as_str() {
                        out.push(s);
                    }
                }
                all_refs(x, out);
            }
        }
        Value::Array(a) => a.iter().for_each(|x| all_refs(x, out)),
        _ => {}
    }
}

pub fn names3() -> Vec<Vec<&'static str>> {
    // every way three types can choose among colliding names
    let pool = ["A", "A2", "A3", "B/~ b%"];
    let mut v = vec![];
    for a in pool {
        for b in pool {
            for c in pool {
                v.push(vec![a, b, c]);
            }
        }
    }
    v
}

pub fn g01(r: &Report) {
    let root_doc = |g: &Graph, root: usize, inline: bool, path: &'static str, into: bool| -> Value {
        set(g);
        let s = settings(inline, path, None);
        dispatch!(root, T => if into { s.into_generator().into_root_schema_for::<T>() } else { s.into_generator().root_schema_for::<T>() }).to_value()
    };
    let run = |g: &Graph, root: usize, inline: bool, path: &'static str, into: bool| {
        let res = std::panic::catch_unwind(|| root_doc(g, root, inline, path, into));
        let (res, doc) = match res {
            Err(_) => (Err("the generator panicked".to_string()), Value::Null),
            Ok(doc) => {
                let mut c = Checker::new(g, &doc, Some(root));
                let mut x = c.check(&doc, Exp::Node(root));
                r.step(c.positions() as u64);
                if x.is_ok() {
                    // every reference anywhere in the document must resolve to a real schema
                    let mut refs = vec![];
                    all_refs(&doc, &mut refs);
                    for rf in refs {
                        match vcore::jsv::resolve_ref(&doc, rf) {
                            Err(e) => x = Err(e),
                            Ok(Value::Object(_)) => {}
                            Ok(v) => x = Err(format!("{rf} leads to {v}")),
                        }
                    }
                    for (n, d) in defs_at(&doc, path) {
                        if !d.is_object() {
                            x = Err(format!("definition {n} is {d}"));
                        }
                    }
                }
                (x, doc)
            }
        };
        r.valid(1);
        if let Err(e) = res {
            r.fail(
                "graph",
                &format!("{e}; root {root}, inline_subschemas={inline}, definitions_path={path:?}, graph {}", describe(g)),
                json!({"graph": describe(g), "root": root, "inline_subschemas": inline, "definitions_path": path, "document": doc, "error": e}),
            );
        }
    };
    let all = |g: &Graph, full: bool| {
        r.state(1);
        r.sample(|| json!({"graph": describe(g), "document": root_doc(g, 0, false, "/$defs", true)}));
        if r.saturated() {
            return;
        }
        for root in 0..g.len() {
            for inline in [false, true] {
                run(g, root, inline, "/$defs", true);
                if full {
                    for p in PATHS {
                        run(g, root, inline, p, false);
                    }
                }
            }
        }
    };
    use Wrap::*;
    let wraps = [Direct, VecOf, Opt, Boxed, MapOf, ResultOf, Flat, FlatOpt];
    let e = |n: usize, ws: &[Wrap]| -> Vec<(usize, Wrap)> { ws.iter().flat_map(|w| (0..n).map(move |t| (t, *w))).collect() };
    // 1 and 2 nodes: all wrappers, up to 2 edges per node, all settings
    let nm2: Vec<_> = ["A", "A2", "B/~ b%"].iter().flat_map(|a| ["A", "A2", "Result_of_A_or_A"].map(|b| vec![*a, b])).collect();
    each_graph(1, &lists(&e(1, &wraps), 3), &[vec!["A"], vec!["B/~ b%"]], true, |g| all(g, true));
    each_graph(2, &lists(&e(2, &wraps), 1), &nm2, false, |g| all(g, true));
    each_graph(2, &lists(&e(2, &wraps), 2), &[vec!["A", "A"], vec!["A2", "A"]], false, |g| all(g, false));
    // 3 nodes: direct edges, up to 2 per node, every name choice
    each_graph(3, &lists(&e(3, &[Direct]), 2), &names3(), false, |g| all(g, false));
    // 3 nodes, one edge each through every wrapper
    each_graph(3, &lists(&e(3, &wraps), 1), &[vec!["A", "A", "A"], vec!["A", "A", "A2"], vec!["A2", "A", "A"]], false, |g| all(g, true));
    // a root with three other types in every order, each with at most one edge, and every choice of colliding names
    let pool = ["A", "A2", "A3", "A22", "B/~ b%"];
    let few: Vec<Option<usize>> = if r.thorough() { vec![None, Some(0), Some(1), Some(2), Some(3)] } else { vec![None, Some(1), Some(3)] };
    par_for(6 * 125, |code| {
        let order = [[1, 2, 3], [1, 3, 2], [2, 1, 3], [2, 3, 1], [3, 1, 2], [3, 2, 1]][code / 125];
        let (a, b, c) = (pool[code % 125 / 25], pool[code % 25 / 5], pool[code % 5]);
        for es in lists(&few, 3).into_iter().filter(|l| l.len() == 3) {
            let mut g: Graph = vec![NodeSpec { name: "A", inline: false, title: false, edges: order.iter().map(|t| (*t, Direct)).collect() }];
            for (n, x) in [a, b, c].iter().zip(&es) {
                g.push(NodeSpec { name: n, inline: false, title: false, edges: x.iter().map(|t| (*t, Direct)).collect() });
            }
            all(&g, false);
        }
    });
    if r.thorough() {
        each_graph(2, &lists(&e(2, &wraps), 2), &nm2, false, |g| all(g, true));
        each_graph(3, &lists(&e(3, &[Direct, Flat, Opt]), 2), &[vec!["A", "A", "A"], vec!["A", "A", "A2"], vec!["A2", "A", "A"]], false, |g| all(g, false));
        each_graph(4, &lists(&e(4, &[Direct]), 2), &[vec!["A", "A", "A", "A"], vec!["A", "A2", "A", "A2"], vec!["A", "A", "A2", "A3"], vec!["A", "B", "C", "D"]], false, |g| all(g, false));
    }
    r.note("bound", "1 node x 3 edges x 8 wrappers; 2 nodes x 1 edge x 8 wrappers x 9 name choices x all paths; 2 nodes x 2 edges x 8 wrappers; 3 nodes x 2 direct edges x 64 name choices; 3 nodes x 1 edge x 8 wrappers; a root over three types in all orders x 125 name choices x their edges; thorough adds 3 nodes x 2 edges x 3 wrappers and 4 nodes x 2 direct edges; every root, both inlining settings, 8 definitions paths");
    r.assume("types whose inlined parts contain themselves (no finite schema exists) are excluded, as documented for inline types");
}

pub fn g03(r: &Report) {
    let metas = [None, Some("https://json-schema.org/draft/2020-12/schema"), Some("urn:x")];
    let check = |g: &Graph, root: usize, inline: bool, path: &'static str, meta: Option<&'static str>, entry: usize| {
        set(g);
        let res = std::panic::catch_unwind(|| {
            let s = settings(inline, path, meta);
            dispatch!(root, T => match entry {
                0 => s.into_generator().root_schema_for::<T>(),
                1 => s.into_generator().into_root_schema_for::<T>(),
                2 => SchemaGenerator::from(s).into_root_schema_for::<T>(),
                _ => schemars::schema_for!(T),
            })
            .to_value()
        });
        r.valid(1);
        let mut errs: Vec<String> = vec![];
        let doc = res.unwrap_or_else(|_| {
            errs.push("the generator panicked".into());
            Value::Null
        });
        let (path, meta) = if entry == 3 { ("/$defs", Some("https://json-schema.org/draft/2020-12/schema")) } else { (path, meta) };
        if doc.get("$schema").and_then(Value::as_str) != meta {
            errs.push(format!("$schema is {:?}, configured {meta:?}", doc.get("$schema")));
        }
        let want_title = if g[root].title { format!("Title{root}") } else { g[root].name.to_string() };
        if doc.get("title") != Some(&json!(want_title)) {
            errs.push(format!("title is {:?}, expected {want_title:?}", doc.get("title")));
        }
        let defs = defs_at(&doc, path);
        r.step(1 + defs.len() as u64);
        // which nodes have definitions
        let mut have: Vec<usize> = vec![];
        let mut results: Vec<usize> = vec![];
        for (n, d) in &defs {
            if let Some(i) = d.get("x-node").and_then(Value::as_u64) {
                have.push(i as usize);
            } else if d.get("oneOf").is_some() {
                results.push(0);
            } else {
                errs.push(format!("definition {n} is not the schema of a type: {d}"));
            }
        }
        have.sort();
        let mut h2 = have.clone();
        h2.dedup();
        if h2 != have {
            errs.push(format!("a type has two definitions: {have:?}"));
        }
        let reachable = reach(g, root);
        if !inline {
            // exactly the non-inlined types that are reached by a non-flat edge, except the root itself
            let mut want: Vec<usize> = (0..g.len())
                .filter(|&i| i != root && !g[i].inline)
                .filter(|&i| {
                    g.iter().enumerate().any(|(j, n)| {
                        (j == root || reachable.contains(&j)) && n.edges.iter().any(|e| e.0 == i && e.1 != Wrap::Flat)
                    })
                })
                .collect();
            want.sort();
            if want != have {
                errs.push(format!("definitions for {have:?}, expected exactly {want:?}"));
            }
        } else {
            for i in &have {
                if g[*i].inline {
                    errs.push(format!("inlined type {i} has a definition"));
                }
                if !reach(g, *i).contains(i) {
                    errs.push(format!("non-recursive type {i} is referenced although everything is to be inlined"));
                }
                if *i == root {
                    errs.push("the root type has a definition besides the root".into());
                }
            }
        }
        // every definition is reached by some reference, following references from the root only
        let mut reached = std::collections::HashSet::new();
        let mut todo: Vec<&Value> = vec![];
        let layout = path_pointer(path);
        let first = layout.split('/').nth(1).unwrap_or("").replace("~1", "/").replace("~0", "~");
        if let Some(o) = doc.as_object() {
            for (k, v) in o {
                if *k != first && !(layout.is_empty() && defs.iter().any(|d| d.0 == k)) {
                    todo.push(v);
                }
            }
        }
        while let Some(v) = todo.pop() {
            let mut rs = vec![];
            all_refs(v, &mut rs);
            for rf in rs {
                if rf == "#" {
                    continue;
                }
                match vcore::jsv::resolve_ref(&doc, rf) {
                    Ok(t) => {
                        if reached.insert(t as *const _ as usize) {
                            todo.push(t);
                        }
                    }
                    Err(e) => errs.push(e),
                }
            }
        }
        for (n, d) in &defs {
            if !reached.contains(&(*d as *const _ as usize)) {
                errs.push(format!("definition {n} is not referenced by anything"));
            }
        }
        if !errs.is_empty() {
            r.fail(
                "layout",
                &format!("{}; root {root}, entry {entry}, inline_subschemas={inline}, definitions_path={path:?}, meta={meta:?}, graph {}", errs.join("; "), describe(g)),
                json!({"graph": describe(g), "root": root, "entry": entry, "inline_subschemas": inline, "definitions_path": path, "meta_schema": meta, "document": doc, "errors": errs}),
            );
        }
    };
    use Wrap::*;
    let wraps = [Direct, VecOf, Opt, Boxed, MapOf, Flat];
    let e = |n: usize, ws: &[Wrap]| -> Vec<(usize, Wrap)> { ws.iter().flat_map(|w| (0..n).map(move |t| (t, *w))).collect() };
    let full = |g: &Graph| {
        r.state(1);
        r.sample(|| describe(g));
        if r.saturated() {
            return;
        }
        for root in 0..g.len() {
            for inline in [false, true] {
                for path in PATHS {
                    for meta in metas {
                        for entry in 0..3 {
                            check(g, root, inline, path, meta, entry);
                        }
                    }
                }
            }
            check(g, root, false, "/$defs", None, 3);
        }
    };
    let light = |g: &Graph| {
        r.state(1);
        if r.saturated() {
            return;
        }
        for root in 0..g.len() {
            for inline in [false, true] {
                check(g, root, inline, "/$defs", None, 0);
                check(g, root, inline, "/components/schemas", metas[1], 1);
            }
        }
    };
    each_graph(1, &lists(&e(1, &wraps), 2), &[vec!["A"]], true, full);
    each_graph(2, &lists(&e(2, &wraps), 1), &[vec!["A", "A"], vec!["A", "B"]], true, full);
    each_graph(2, &lists(&e(2, &wraps), 2), &[vec!["A", "A"], vec!["A", "B"]], false, light);
    each_graph(3, &lists(&e(3, &[Direct]), 2), &[vec!["A", "A", "A"], vec!["A", "B", "A2"]], false, light);
    each_graph(3, &lists(&e(3, &wraps), 1), &[vec!["A", "A", "A"]], false, light);
    if r.thorough() {
        each_graph(3, &lists(&e(3, &[Direct, Flat, Opt]), 2), &[vec!["A", "A", "A2"]], false, light);
        each_graph(4, &lists(&e(4, &[Direct]), 2), &[vec!["A", "A", "A2", "B"]], false, light);
    }
    r.note("bound", "graphs up to 3 nodes (4 in thorough) as in G01, all inline flags; 8 definitions paths x 3 meta-schemas x 4 entry points on graphs up to 2 nodes");
    r.assume("as G01; definitions paths that collide with a keyword of the root schema are not used");
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Op {
    Sub(usize),
    SubOpt(usize),
    Root(usize),
    Val,
    Take(bool),
    Clone,
    Clear,
}

/// Run a history; returns a description of the first disagreement.
fn run_history(r: &Report, g: &Graph, inline: bool, path: &'static str, h: &[Op]) -> Result<Vec<String>, String> {
    set(g);
    let mut gen = settings(inline, path, None).into_generator();
    let mut log = vec![];
    let whole = |gen: &SchemaGenerator| -> Value { Value::Object(gen.definitions().clone()) };
    // a document made of the generator's definitions, as a reader of (schema, definitions) would assemble it
    let assemble = |schema: &Value, defs: &Value| -> Value {
        let mut doc = json!({ "schema-under-test": schema });
        let p = path_pointer(path);
        let mut cur = &mut doc;
        for seg in p.split('/').skip(1) {
            let seg = seg.replace("~1", "/").replace("~0", "~");
            cur = cur.as_object_mut().unwrap().entry(seg).or_insert(json!({}));
        }
        for (k, v) in defs.as_object().unwrap() {
            cur.as_object_mut().unwrap().insert(k.clone(), v.clone());
        }
        doc
    };
    let check_defs = |defs: &Value| -> Result<(), String> {
        // each definition is the schema of some type, and its references lead to the right types
        let doc = assemble(&json!(true), defs);
        for (n, d) in defs_at(&doc, path) {
            if n == "schema-under-test" {
                continue;
            }
            match d.get("x-node").and_then(Value::as_u64) {
                Some(i) if (i as usize) < g.len() => {
                    Checker::new(g, &doc, None).check(d, Exp::Node(i as usize)).map_err(|e| format!("definition {n}: {e}"))?
                }
                _ => return Err(format!("definition {n} is not the schema of a type: {d}")),
            }
        }
        Ok(())
    };
    for (step, op) in h.iter().enumerate() {
        r.step(1);
        let at = |e: String| format!("step {step} {op:?}: {e}");
        match *op {
            Op::Sub(i) => {
                let s = dispatch!(i, T => gen.subschema_for::<T>()).to_value();
                let doc = assemble(&s, &whole(&gen));
                Checker::new(g, &doc, None).check(&doc["schema-under-test"], Exp::Node(i)).map_err(at)?;
                log.push(s.to_string());
            }
            Op::SubOpt(i) => {
                let s = dispatch!(i, T => gen.subschema_for::<Option<T>>()).to_value();
                let doc = assemble(&s, &whole(&gen));
                Checker::new(g, &doc, None).check(&doc["schema-under-test"], Exp::NullableNode(i)).map_err(at)?;
                log.push(s.to_string());
            }
            Op::Root(i) => {
                let doc = dispatch!(i, T => gen.root_schema_for::<T>()).to_value();
                root_ok(g, &doc, i, path).map_err(at)?;
                log.push(doc.to_string());
            }
            Op::Val => {
                let doc = gen.root_schema_for_value(&"x").map_err(|e| at(e.to_string()))?.to_value();
                if doc.get("type") != Some(&json!("string")) {
                    return Err(at(format!("schema for a string value: {doc}")));
                }
                let mut rs = vec![];
                all_refs(&doc, &mut rs);
                for rf in rs {
                    vcore::jsv::resolve_ref(&doc, rf).map_err(at)?;
                }
                log.push(doc.to_string());
            }
            Op::Take(t) => {
                let d = Value::Object(gen.take_definitions(t));
                check_defs(&d).map_err(at)?;
                if !gen.definitions().is_empty() {
                    return Err(at("definitions left after taking them".into()));
                }
                log.push(d.to_string());
            }
            Op::Clone => {
                let c = gen.clone();
                if c.definitions() != gen.definitions() {
                    return Err(at("clone has other definitions".into()));
                }
                gen = c;
            }
            Op::Clear => {
                gen.definitions_mut().clear();
            }
        }
        check_defs(&whole(&gen)).map_err(|e| format!("after step {step} {op:?}: {e}"))?;
    }
    // finally every type's root document from this used generator, consuming it
    for i in 0..g.len() {
        r.step(1);
        let doc = dispatch!(i, T => gen.clone().into_root_schema_for::<T>()).to_value();
        root_ok(g, &doc, i, path).map_err(|e| format!("final into_root_schema_for type {i} (on a clone): {e}"))?;
        log.push(doc.to_string());
    }
    let doc = dispatch!(0, T => gen.into_root_schema_for::<T>()).to_value();
    root_ok(g, &doc, 0, path).map_err(|e| format!("final into_root_schema_for type 0: {e}"))?;
    log.push(doc.to_string());
    Ok(log)
}

fn root_ok(g: &Graph, doc: &Value, i: usize, path: &str) -> Result<(), String> {
    Checker::new(g, doc, Some(i)).check(doc, Exp::Node(i))?;
    let title = if g[i].title { format!("Title{i}") } else { g[i].name.to_string() };
    if doc["title"] != json!(title) {
        return Err(format!("root title {} instead of {title:?}", doc["title"]));
    }
    // whatever else the document defines must be meaningful too
    for (n, d) in defs_at(doc, path) {
        match d.get("x-node").and_then(Value::as_u64) {
            Some(j) => Checker::new(g, doc, Some(i)).check(d, Exp::Node(j as usize)).map_err(|e| format!("definition {n}: {e}"))?,
            None => return Err(format!("definition {n} is {d}")),
        }
    }
    Ok(())
}

pub fn g02(r: &Report) {
    use Wrap::*;
    let histories = |n: usize, depth: usize| -> Vec<Vec<Op>> {
        let mut ops = vec![];
        for i in 0..n {
            ops.push(Op::Sub(i));
            ops.push(Op::Root(i));
        }
        ops.extend([Op::SubOpt(n - 1), Op::Val, Op::Take(false), Op::Take(true), Op::Clone, Op::Clear]);
        lists(&ops, depth).into_iter().filter(|h| h.len() == depth).collect()
    };
    let run = |g: &Graph, hs: &[Vec<Op>], inline: bool, path: &'static str| {
        r.state(1);
        for h in hs {
            if r.saturated() {
                return;
            }
            let res = std::panic::catch_unwind(|| {
                let a = run_history(r, g, inline, path, h)?;
                // deterministic on repetition
                if h.len() <= 2 {
                    let b = run_history(r, g, inline, path, h)?;
                    if a != b {
                        return Err("the same calls gave different output".to_string());
                    }
                }
                Ok(())
            })
            .unwrap_or_else(|_| Err("panic".into()));
            r.valid(1);
            if let Err(e) = res {
                r.fail(
                    "history",
                    &format!("{e}; history {h:?}, inline_subschemas={inline}, path {path:?}, graph {}", describe(g)),
                    json!({"graph": describe(g), "history": format!("{h:?}"), "inline_subschemas": inline, "definitions_path": path, "error": e}),
                );
                return;
            }
        }
    };
    let e = |n: usize, ws: &[Wrap]| -> Vec<(usize, Wrap)> { ws.iter().flat_map(|w| (0..n).map(move |t| (t, *w))).collect() };
    let (d2, d3) = if r.thorough() { (4, 4) } else { (3, 3) };
    let h2 = histories(2, d2);
    let h3 = histories(3, d3);
    let h2s = histories(2, 2);
    r.note("histories", h2.len() + h3.len() + h2s.len());
    each_graph(2, &lists(&e(2, &[Direct]), 2), &[vec!["A", "A"], vec!["A", "A2"], vec!["B/~ b%", "A"]], false, |g| {
        r.sample(|| json!({"graph": describe(g), "histories": h2.len()}));
        run(g, &h2, false, "/$defs");
        run(g, &h2, true, "/definitions");
        run(g, &h2s, false, "/a~1b/c d");
        run(g, &h2s, false, "/");
    });
    each_graph(2, &lists(&e(2, &[Opt, Flat, Boxed, VecOf]), 1), &[vec!["A", "A"]], true, |g| {
        run(g, &h2, false, "/$defs");
        run(g, &h2, true, "/$defs");
    });
    each_graph(3, &lists(&e(3, &[Direct]), 1), &[vec!["A", "A", "A"], vec!["A2", "A", "A"], vec!["A3", "A", "A"]], false, |g| {
        run(g, &h3, false, "/$defs");
        run(g, &h3, true, "/$defs");
    });
    r.note("bound", format!("all histories of {d2} operations over 2-type graphs (2 edges per type) and of {d3} operations over 3-type graphs (1 edge per type), followed by a root document for every type"));
    r.assume("no call re-enters root document generation from inside a type's own schema function");
}
