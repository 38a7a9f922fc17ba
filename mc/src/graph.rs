//! Types whose schema is read from a thread-local graph, so that every type graph up to a bound can be
//! driven through the real generator without recompiling.
use schemars::{JsonSchema, Schema, SchemaGenerator};
use serde_json::{json, Map, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Wrap {
    Direct,
    VecOf,
    Opt,
    Boxed,
    MapOf,
    ResultOf,
    Flat,   // the impl calls T::json_schema directly, as flattening and transparent types do
    FlatOpt, // same through Option's schema (inline)
}

#[derive(Clone, Debug)]
pub struct NodeSpec {
    pub name: &'static str,
    pub inline: bool,
    pub title: bool,
    pub edges: Vec<(usize, Wrap)>,
}

pub type Graph = Vec<NodeSpec>;

thread_local! {
    pub static G: RefCell<Graph> = const { RefCell::new(Vec::new()) };
}
pub fn set(g: &Graph) {
    G.with(|x| *x.borrow_mut() = g.clone());
}

pub struct Dyn<const I: usize>;

impl<const I: usize> JsonSchema for Dyn<I> {
    fn inline_schema() -> bool {
        G.with(|g| g.borrow()[I].inline)
    }
    fn schema_name() -> Cow<'static, str> {
        G.with(|g| g.borrow()[I].name).into()
    }
    fn schema_id() -> Cow<'static, str> {
        format!("dyn-type-{I}").into()
    }
    fn json_schema(gen: &mut SchemaGenerator) -> Schema {
        let (edges, title) = G.with(|g| (g.borrow()[I].edges.clone(), g.borrow()[I].title));
        let mut props = Map::new();
        for (n, (t, w)) in edges.into_iter().enumerate() {
            props.insert(format!("e{n}"), sub(gen, t, w).to_value());
        }
        let mut o = Map::new();
        o.insert("type".into(), "object".into());
        o.insert("x-node".into(), I.into());
        if title {
            o.insert("title".into(), format!("Title{I}").into());
        }
        o.insert("properties".into(), Value::Object(props));
        o.into()
    }
}

/// Call `$f::<Dyn<i>>` for a dynamic i.
#[macro_export]
macro_rules! dispatch {
    ($i:expr, $t:ident => $e:expr) => {
        match $i {
            0 => { type $t = $crate::graph::Dyn<0>; $e }
            1 => { type $t = $crate::graph::Dyn<1>; $e }
            2 => { type $t = $crate::graph::Dyn<2>; $e }
            3 => { type $t = $crate::graph::Dyn<3>; $e }
            _ => unreachable!(),
        }
    };
}

pub fn sub(gen: &mut SchemaGenerator, t: usize, w: Wrap) -> Schema {
    dispatch!(t, T => match w {
        Wrap::Direct => gen.subschema_for::<T>(),
        Wrap::VecOf => gen.subschema_for::<Vec<T>>(),
        Wrap::Opt => gen.subschema_for::<Option<T>>(),
        Wrap::Boxed => gen.subschema_for::<Box<T>>(),
        Wrap::MapOf => gen.subschema_for::<BTreeMap<String, T>>(),
        Wrap::ResultOf => gen.subschema_for::<Result<T, T>>(),
        Wrap::Flat => T::json_schema(gen),
        Wrap::FlatOpt => <Option<T>>::json_schema(gen),
    })
}

/// What a place in a document is expected to hold.
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Exp {
    Node(usize),
    NullableNode(usize),
    Result(usize),
}

/// An edge is "inline" when following it does not go through the reference decision.
fn inline_edge(g: &Graph, e: (usize, Wrap)) -> bool {
    e.1 == Wrap::Flat || e.1 != Wrap::ResultOf && g[e.0].inline
}

/// No cycle of inline edges only (those have no finite schema by design).
pub fn well_formed(g: &Graph) -> bool {
    // colours for DFS over inline edges
    fn visit(g: &Graph, i: usize, st: &mut [u8]) -> bool {
        st[i] = 1;
        for &e in &g[i].edges {
            if inline_edge(g, e) || e.1 == Wrap::ResultOf && false {
                if st[e.0] == 1 || st[e.0] == 0 && !visit(g, e.0, st) {
                    return false;
                }
            }
        }
        st[i] = 2;
        true
    }
    let mut st = vec![0u8; g.len()];
    (0..g.len()).all(|i| st[i] == 2 || visit(g, i, &mut st))
}

/// Nodes reachable (through any edges) from `from`, not counting `from` unless on a cycle.
pub fn reach(g: &Graph, from: usize) -> HashSet<usize> {
    let mut out = HashSet::new();
    let mut todo = vec![from];
    while let Some(i) = todo.pop() {
        for (t, _) in &g[i].edges {
            if out.insert(*t) {
                todo.push(*t);
            }
        }
    }
    out
}

pub struct Checker<'a> {
    pub g: &'a Graph,
    pub root: &'a Value,
    seen: HashSet<(usize, Exp)>,
    /// resolved targets of all references met, by address -> reference
    pub refs: BTreeMap<String, Exp>,
    /// root of the document is the schema of this node (so that it may carry layout keywords)
    pub root_node: Option<usize>,
}

impl<'a> Checker<'a> {
    pub fn new(g: &'a Graph, root: &'a Value, root_node: Option<usize>) -> Self {
        Checker { g, root, seen: HashSet::new(), refs: BTreeMap::new(), root_node }
    }
    /// (document position, type) pairs followed so far
    pub fn positions(&self) -> usize {
        self.seen.len()
    }
    pub fn check(&mut self, v: &'a Value, e: Exp) -> Result<(), String> {
        let mut v = v;
        let mut hops = 0;
        while let Some(o) = v.as_object().filter(|o| o.contains_key("$ref")) {
            if o.len() != 1 {
                return Err(format!("reference with siblings {v}"));
            }
            let r = o["$ref"].as_str().ok_or("non-string $ref")?;
            // the same reference may stand for one type only
            if let Some(prev) = self.refs.insert(r.into(), e) {
                if prev != e {
                    return Err(format!("{r:?} stands for {prev:?} and for {e:?}"));
                }
            }
            v = vcore::jsv::resolve_ref(self.root, r)?;
            hops += 1;
            if hops > 10 {
                return Err("reference cycle".into());
            }
        }
        if !self.seen.insert((v as *const _ as usize, e)) {
            return Ok(());
        }
        let Some(o) = v.as_object() else {
            return Err(format!("expected schema of {e:?}, found {v}"));
        };
        match e {
            Exp::NullableNode(i) => {
                if let Some(a) = o.get("anyOf").and_then(Value::as_array) {
                    if o.len() != 1 || a.len() != 2 || a[1] != json!({"type":"null"}) {
                        return Err(format!("bad optional schema {v}"));
                    }
                    return self.check(&a[0], Exp::Node(i));
                }
                if o.get("type") != Some(&json!(["object", "null"])) {
                    return Err(format!("optional schema does not allow null: {v}"));
                }
                self.node(v, i)
            }
            Exp::Node(i) => {
                if o.get("type") != Some(&json!("object")) {
                    return Err(format!("expected node {i}, found {v}"));
                }
                self.node(v, i)
            }
            Exp::Result(i) => {
                let a = o.get("oneOf").and_then(Value::as_array).ok_or_else(|| format!("expected Result of {i}, found {v}"))?;
                if a.len() != 2 {
                    return Err(format!("expected Result of {i}, found {v}"));
                }
                for (s, k) in a.iter().zip(["Ok", "Err"]) {
                    let p = s.get("properties").and_then(|p| p.get(k)).ok_or_else(|| format!("bad Result schema {v}"))?;
                    self.check(p, Exp::Node(i))?;
                }
                Ok(())
            }
        }
    }
    fn node(&mut self, v: &'a Value, i: usize) -> Result<(), String> {
        let o = v.as_object().unwrap();
        if o.get("x-node") != Some(&json!(i)) {
            return Err(format!("expected node {i}, found {v}"));
        }
        let is_root = std::ptr::eq(v, self.root);
        for k in o.keys() {
            let layout = is_root && self.root_node.is_some();
            if !["type", "x-node", "title", "properties"].contains(&k.as_str()) && !layout {
                return Err(format!("unexpected keyword {k} in {v}"));
            }
        }
        if self.g[i].title != (o.get("title") == Some(&json!(format!("Title{i}")))) && !is_root {
            return Err(format!("wrong title in {v}"));
        }
        let p = o.get("properties").and_then(Value::as_object).ok_or("no properties")?;
        let edges = &self.g[i].edges;
        if p.len() != edges.len() {
            return Err(format!("node {i}: properties {v}"));
        }
        for (n, &(t, w)) in edges.iter().enumerate() {
            let s = p.get(&format!("e{n}")).ok_or_else(|| format!("node {i}: no e{n}"))?;
            match w {
                Wrap::Direct | Wrap::Boxed | Wrap::Flat => self.check(s, Exp::Node(t))?,
                Wrap::Opt | Wrap::FlatOpt => self.check(s, Exp::NullableNode(t))?,
                Wrap::ResultOf => self.check(s, Exp::Result(t))?,
                Wrap::VecOf => {
                    if s.get("type") != Some(&json!("array")) {
                        return Err(format!("expected array of {t}, found {s}"));
                    }
                    self.check(s.get("items").ok_or("no items")?, Exp::Node(t))?
                }
                Wrap::MapOf => {
                    if s.get("type") != Some(&json!("object")) {
                        return Err(format!("expected map of {t}, found {s}"));
                    }
                    self.check(s.get("additionalProperties").ok_or("no additionalProperties")?, Exp::Node(t))?
                }
            }
        }
        Ok(())
    }
}

/// All lists of length <= max over the given elements.
pub fn lists<T: Clone>(items: &[T], max: usize) -> Vec<Vec<T>> {
    let mut out = vec![vec![]];
    let mut cur: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for c in &cur {
            for i in items {
                let mut d = c.clone();
                d.push(i.clone());
                next.push(d);
            }
        }
        out.extend(next.iter().cloned());
        cur = next;
    }
    out
}

/// All graphs with n nodes: edge lists drawn from `edge_lists`, all inline flags, names from `names`.
/// Visits those well-formed graphs whose nodes are all reachable from node 0.
pub fn each_graph(n: usize, edge_lists: &[Vec<(usize, Wrap)>], names: &[Vec<&'static str>], titles: bool, f: impl Fn(&Graph) + Sync) {
    let el = edge_lists.len();
    let total = el.pow(n as u32);
    vcore::report::par_for(total, |code| {
        let mut c = code;
        let mut g: Graph = (0..n)
            .map(|_| {
                let e = edge_lists[c % el].clone();
                c /= el;
                NodeSpec { name: "", inline: false, title: false, edges: e }
            })
            .collect();
        let r = reach(&g, 0);
        if (1..n).any(|i| !r.contains(&i)) {
            return;
        }
        for mask in 0..(1usize << n) {
            for i in 0..n {
                g[i].inline = mask >> i & 1 == 1;
            }
            if !well_formed(&g) {
                continue;
            }
            for names in names {
                for i in 0..n {
                    g[i].name = names[i];
                }
                f(&g);
                if titles {
                    for i in 0..n {
                        g[i].title = true;
                    }
                    f(&g);
                    for i in 0..n {
                        g[i].title = false;
                    }
                }
            }
        }
    });
}

pub fn describe(g: &Graph) -> Value {
    json!(g.iter().map(|n| json!({"name": n.name, "inline": n.inline, "title": n.title, "edges": n.edges.iter().map(|e| format!("{:?}->{}", e.1, e.0)).collect::<Vec<_>>()})).collect::<Vec<_>>())
}
