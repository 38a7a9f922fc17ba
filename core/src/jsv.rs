//! A small reference JSON Schema evaluator (2020-12, 2019-09, draft-07, OpenAPI 3.0 schema objects).
//! Written from the specifications; independent of schemars.  `format` is an annotation unless
//! `Opts::formats` is set.
use regex::Regex;
use serde_json::{Map, Number, Value};
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Dialect {
    D2020,
    D2019,
    D7,
    OA3,
}
pub const DIALECTS: [Dialect; 4] = [Dialect::D2020, Dialect::D2019, Dialect::D7, Dialect::OA3];

type Id = usize;

#[derive(Default, Debug)]
struct Node {
    boolean: Option<bool>,
    reference: Option<Id>,
    types: Option<u8>,
    nullable: bool,
    konst: Option<Value>,
    enums: Option<Vec<Value>>,
    minimum: Option<Number>,
    maximum: Option<Number>,
    ex_minimum: Option<Number>,
    ex_maximum: Option<Number>,
    multiple: Option<f64>,
    min_len: Option<u64>,
    max_len: Option<u64>,
    pattern: Option<Regex>,
    format: Option<String>,
    prefix: Vec<Id>,
    items: Option<Id>,
    contains: Option<Id>,
    min_items: Option<u64>,
    max_items: Option<u64>,
    unique: bool,
    props: Map<String, Value>, // name -> node id as number
    pattern_props: Vec<(Regex, Id)>,
    additional: Option<Id>,
    prop_names: Option<Id>,
    required: Vec<String>,
    min_props: Option<u64>,
    max_props: Option<u64>,
    all_of: Vec<Id>,
    any_of: Option<Vec<Id>>,
    one_of: Option<Vec<Id>>,
    not: Option<Id>,
    if_: Option<Id>,
    then: Option<Id>,
    else_: Option<Id>,
    uneval_props: Option<Id>,
    uneval_items: Option<Id>,
    has_object_kw: bool,
}

pub struct Doc {
    nodes: Vec<Node>,
    root: Id,
    dialect: Dialect,
    formats: bool,
    uses_uneval: bool,
}

#[derive(Clone, Copy, Default, Debug)]
struct Ann {
    props: u128,
    items: usize, // number of leading items evaluated
}

const TY: [(&str, u8); 7] = [
    ("null", 1),
    ("boolean", 2),
    ("integer", 4),
    ("number", 8),
    ("string", 16),
    ("array", 32),
    ("object", 64),
];

struct Compiler<'a> {
    root: &'a Value,
    dialect: Dialect,
    nodes: Vec<Node>,
    by_ptr: HashMap<usize, Id>,
    uses_uneval: bool,
    pattern_props: bool,
}

/// Decode a URI fragment reference `#...` into a JSON pointer (strictly: RFC 3986 + RFC 6901).
pub fn decode_fragment(reference: &str) -> Result<String, String> {
    let frag = reference
        .strip_prefix('#')
        .ok_or_else(|| format!("non-local $ref {reference:?}"))?;
    let b = frag.as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'%' => {
                let h = b
                    .get(i + 1..i + 3)
                    .filter(|h| h.iter().all(|c| c.is_ascii_hexdigit()))
                    .ok_or_else(|| format!("bad percent escape in {reference:?}"))?;
                out.push(u8::from_str_radix(std::str::from_utf8(h).unwrap(), 16).unwrap());
                i += 3;
            }
            c @ (b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9') => {
                out.push(c);
                i += 1;
            }
            c if b"-._~!$&'()*+,;=:@/?".contains(&c) => {
                out.push(c);
                i += 1;
            }
            c => return Err(format!("character {:?} not allowed in a URI fragment: {reference:?}", c as char)),
        }
    }
    String::from_utf8(out).map_err(|_| format!("fragment is not UTF-8: {reference:?}"))
}

/// RFC 6901 evaluation with strict syntax.
pub fn resolve_pointer<'a>(root: &'a Value, ptr: &str) -> Option<&'a Value> {
    if ptr.is_empty() {
        return Some(root);
    }
    let mut cur = root;
    for tok in ptr.strip_prefix('/')?.split('/') {
        let mut name = String::new();
        let mut it = tok.chars();
        while let Some(c) = it.next() {
            if c == '~' {
                match it.next() {
                    Some('0') => name.push('~'),
                    Some('1') => name.push('/'),
                    _ => return None,
                }
            } else {
                name.push(c)
            }
        }
        cur = match cur {
            Value::Object(o) => o.get(&name)?,
            Value::Array(a) => {
                if name.len() > 1 && name.starts_with('0') || !name.bytes().all(|b| b.is_ascii_digit()) || name.is_empty() {
                    return None;
                }
                a.get(name.parse::<usize>().ok()?)?
            }
            _ => return None,
        };
    }
    Some(cur)
}

pub fn resolve_ref<'a>(root: &'a Value, reference: &str) -> Result<&'a Value, String> {
    let p = decode_fragment(reference)?;
    resolve_pointer(root, &p).ok_or_else(|| format!("dangling $ref {reference:?}"))
}

impl<'a> Compiler<'a> {
    fn num(v: &Value, k: &str) -> Result<f64, String> {
        v.as_f64().ok_or_else(|| format!("{k} must be a number, got {v}"))
    }
    fn number(v: &Value, k: &str) -> Result<Number, String> {
        v.as_number().cloned().ok_or_else(|| format!("{k} must be a number, got {v}"))
    }
    fn cnt(v: &Value, k: &str) -> Result<u64, String> {
        v.as_u64()
            .or_else(|| v.as_f64().filter(|f| f.fract() == 0.0 && *f >= 0.0).map(|f| f as u64))
            .ok_or_else(|| format!("{k} must be a non-negative integer, got {v}"))
    }
    fn list(&mut self, v: &'a Value, k: &str) -> Result<Vec<Id>, String> {
        let a = v.as_array().ok_or_else(|| format!("{k} must be an array of schemas, got {v}"))?;
        a.iter().map(|x| self.compile(x)).collect()
    }
    fn compile(&mut self, v: &'a Value) -> Result<Id, String> {
        let key = v as *const Value as usize;
        if let Some(id) = self.by_ptr.get(&key) {
            return Ok(*id);
        }
        let id = self.nodes.len();
        self.nodes.push(Node::default());
        self.by_ptr.insert(key, id);
        let mut n = Node::default();
        let obj = match v {
            Value::Bool(b) => {
                n.boolean = Some(*b);
                self.nodes[id] = n;
                return Ok(id);
            }
            Value::Object(o) => o,
            _ => return Err(format!("a schema must be an object or boolean, got {v}")),
        };
        let d = self.dialect;
        let ref_only = matches!(d, Dialect::D7 | Dialect::OA3) && obj.contains_key("$ref");
        for (k, x) in obj {
            if ref_only && k != "$ref" {
                continue;
            }
            match k.as_str() {
                "$ref" => {
                    let r = x.as_str().ok_or("$ref must be a string")?;
                    let t = resolve_ref(self.root, r)?;
                    n.reference = Some(self.compile(t)?);
                }
                "type" => {
                    let one = |s: &Value| -> Result<u8, String> {
                        let s = s.as_str().ok_or_else(|| format!("bad type {x}"))?;
                        TY.iter()
                            .find(|t| t.0 == s)
                            .map(|t| t.1)
                            .ok_or_else(|| format!("unknown type {s:?}"))
                    };
                    let mut m = 0;
                    match x {
                        Value::Array(a) => {
                            for s in a {
                                m |= one(s)?;
                            }
                        }
                        s => m = one(s)?,
                    }
                    if m & 8 != 0 {
                        m |= 4;
                    }
                    n.types = Some(m);
                }
                "nullable" if d == Dialect::OA3 => {
                    n.nullable = x.as_bool().ok_or("nullable must be a boolean")?
                }
                "const" if d != Dialect::OA3 => n.konst = Some(x.clone()),
                "enum" => n.enums = Some(x.as_array().ok_or_else(|| format!("enum must be an array, got {x}"))?.clone()),
                "minimum" => n.minimum = Some(Self::number(x, k)?),
                "maximum" => n.maximum = Some(Self::number(x, k)?),
                "exclusiveMinimum" => n.ex_minimum = Some(Self::number(x, k)?),
                "exclusiveMaximum" => n.ex_maximum = Some(Self::number(x, k)?),
                "multipleOf" => n.multiple = Some(Self::num(x, k)?),
                "minLength" => n.min_len = Some(Self::cnt(x, k)?),
                "maxLength" => n.max_len = Some(Self::cnt(x, k)?),
                "pattern" => {
                    let s = x.as_str().ok_or("pattern must be a string")?;
                    n.pattern = Some(crate::ecma::regex(s)?)
                }
                "format" => n.format = Some(x.as_str().ok_or("format must be a string")?.into()),
                "prefixItems" if d == Dialect::D2020 => n.prefix = self.list(x, k)?,
                "items" => {
                    if d != Dialect::D2020 && x.is_array() {
                        n.prefix = self.list(x, k)?;
                        if let Some(ai) = obj.get("additionalItems") {
                            n.items = Some(self.compile(ai)?);
                        }
                    } else {
                        n.items = Some(self.compile(x)?)
                    }
                }
                "contains" if d != Dialect::OA3 => n.contains = Some(self.compile(x)?),
                "minItems" => n.min_items = Some(Self::cnt(x, k)?),
                "maxItems" => n.max_items = Some(Self::cnt(x, k)?),
                "uniqueItems" => n.unique = x.as_bool().ok_or("uniqueItems must be a boolean")?,
                "properties" => {
                    let o = x.as_object().ok_or_else(|| format!("properties must be an object, got {x}"))?;
                    for (pk, pv) in o {
                        let pid = self.compile(pv)?;
                        n.props.insert(pk.clone(), pid.into());
                    }
                }
                "patternProperties" if d != Dialect::OA3 || self.pattern_props => {
                    let o = x.as_object().ok_or("patternProperties must be an object")?;
                    for (pk, pv) in o {
                        let r = crate::ecma::regex(pk)?;
                        let pid = self.compile(pv)?;
                        n.pattern_props.push((r, pid));
                    }
                }
                "additionalProperties" => n.additional = Some(self.compile(x)?),
                "propertyNames" if d != Dialect::OA3 => n.prop_names = Some(self.compile(x)?),
                "required" => {
                    let a = x.as_array().ok_or_else(|| format!("required must be an array, got {x}"))?;
                    for s in a {
                        n.required.push(s.as_str().ok_or_else(|| format!("required must hold strings, got {x}"))?.into());
                    }
                }
                "minProperties" => n.min_props = Some(Self::cnt(x, k)?),
                "maxProperties" => n.max_props = Some(Self::cnt(x, k)?),
                "allOf" => n.all_of = self.list(x, k)?,
                "anyOf" => n.any_of = Some(self.list(x, k)?),
                "oneOf" => n.one_of = Some(self.list(x, k)?),
                "not" => n.not = Some(self.compile(x)?),
                "if" if d != Dialect::OA3 => n.if_ = Some(self.compile(x)?),
                "then" if d != Dialect::OA3 => n.then = Some(self.compile(x)?),
                "else" if d != Dialect::OA3 => n.else_ = Some(self.compile(x)?),
                "unevaluatedProperties" if matches!(d, Dialect::D2020 | Dialect::D2019) => {
                    self.uses_uneval = true;
                    n.uneval_props = Some(self.compile(x)?)
                }
                "unevaluatedItems" if matches!(d, Dialect::D2020 | Dialect::D2019) => {
                    self.uses_uneval = true;
                    n.uneval_items = Some(self.compile(x)?)
                }
                _ => {}
            }
        }
        n.has_object_kw = !n.props.is_empty()
            || !n.pattern_props.is_empty()
            || n.additional.is_some()
            || n.prop_names.is_some()
            || !n.required.is_empty()
            || n.min_props.is_some()
            || n.max_props.is_some();
        self.nodes[id] = n;
        Ok(id)
    }
}

/// Exact comparison of two JSON numbers.
pub fn num_cmp(a: &Number, b: &Number) -> std::cmp::Ordering {
    use std::cmp::Ordering::*;
    fn int(n: &Number) -> Option<i128> {
        n.as_i64().map(i128::from).or_else(|| n.as_u64().map(i128::from))
    }
    fn int_f(i: i128, f: f64) -> std::cmp::Ordering {
        if f.abs() >= 1e30 {
            return if f > 0.0 { Less } else { Greater };
        }
        let lo = f.floor();
        match i.cmp(&(lo as i128)) {
            Equal if lo < f => Less,
            o => o,
        }
    }
    match (int(a), int(b)) {
        (Some(x), Some(y)) => x.cmp(&y),
        (Some(x), None) => int_f(x, b.as_f64().unwrap()),
        (None, Some(y)) => int_f(y, a.as_f64().unwrap()).reverse(),
        (None, None) => a.as_f64().unwrap().partial_cmp(&b.as_f64().unwrap()).unwrap(),
    }
}

pub fn json_eq(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            x == y || (x.is_f64() || y.is_f64()) && x.as_f64() == y.as_f64()
        }
        (Value::Array(x), Value::Array(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(p, q)| json_eq(p, q))
        }
        (Value::Object(x), Value::Object(y)) => {
            x.len() == y.len() && x.iter().all(|(k, p)| y.get(k).is_some_and(|q| json_eq(p, q)))
        }
        _ => a == b,
    }
}

impl Doc {
    /// Compile a document; an `Err` means the document itself is malformed (dangling reference,
    /// keyword of the wrong type, invalid pattern).
    pub fn new(root: &Value, dialect: Dialect) -> Result<Doc, String> {
        Self::at(root, root, dialect)
    }
    /// Compile the subschema `at` (which must live inside `root`), references resolving in `root`.
    pub fn at(root: &Value, at: &Value, dialect: Dialect) -> Result<Doc, String> {
        Self::make(root, at, dialect, false)
    }
    /// Reads `patternProperties` even in OpenAPI 3.0, which does not have it.
    pub fn with_pattern_properties(root: &Value, dialect: Dialect) -> Result<Doc, String> {
        Self::make(root, root, dialect, true)
    }
    fn make(root: &Value, at: &Value, dialect: Dialect, pattern_props: bool) -> Result<Doc, String> {
        let mut c = Compiler {
            root,
            dialect,
            nodes: vec![],
            by_ptr: HashMap::new(),
            uses_uneval: false,
            pattern_props,
        };
        let id = c.compile(at)?;
        Ok(Doc {
            nodes: c.nodes,
            root: id,
            dialect,
            formats: false,
            uses_uneval: c.uses_uneval,
        })
    }
    pub fn with_formats(mut self) -> Self {
        self.formats = true;
        self
    }
    pub fn accepts(&self, inst: &Value) -> bool {
        let mut ann = Ann::default();
        self.eval(self.root, inst, &mut ann, 0)
    }

    fn eval(&self, id: Id, v: &Value, ann: &mut Ann, depth: usize) -> bool {
        let n = &self.nodes[id];
        if let Some(b) = n.boolean {
            return b;
        }
        if depth > 200 {
            panic!("reference evaluator: unbounded $ref recursion");
        }
        // Annotations collected by this schema object.
        let mut a = Ann::default();
        macro_rules! inplace {
            ($s:expr) => {{
                let mut sub = Ann::default();
                let ok = self.eval($s, v, &mut sub, depth + 1);
                if ok && self.uses_uneval {
                    a.props |= sub.props;
                    a.items = a.items.max(sub.items);
                }
                ok
            }};
        }
        if let Some(t) = n.types {
            let bit = match v {
                Value::Null => 1,
                Value::Bool(_) => 2,
                Value::Number(x) => {
                    if x.is_f64() && x.as_f64().unwrap().fract() != 0.0 {
                        8
                    } else {
                        12
                    }
                }
                Value::String(_) => 16,
                Value::Array(_) => 32,
                Value::Object(_) => 64,
            };
            let null_ok = v.is_null() && n.nullable && self.dialect == Dialect::OA3;
            if t & bit == 0 && !null_ok {
                return false;
            }
        }
        if let Some(c) = &n.konst {
            if !json_eq(c, v) {
                return false;
            }
        }
        if let Some(e) = &n.enums {
            if !e.iter().any(|c| json_eq(c, v)) {
                return false;
            }
        }
        if let Some(r) = n.reference {
            if !inplace!(r) {
                return false;
            }
        }
        match v {
            Value::Number(x) => {
                let f = x.as_f64().unwrap();
                if n.minimum.as_ref().is_some_and(|m| num_cmp(x, m).is_lt())
                    || n.maximum.as_ref().is_some_and(|m| num_cmp(x, m).is_gt())
                    || n.ex_minimum.as_ref().is_some_and(|m| num_cmp(x, m).is_le())
                    || n.ex_maximum.as_ref().is_some_and(|m| num_cmp(x, m).is_ge())
                    || n.multiple.is_some_and(|m| (f / m).fract() != 0.0)
                {
                    return false;
                }
                if self.formats && n.format.as_ref().is_some_and(|k| !int_format_ok(k, x)) {
                    return false;
                }
            }
            Value::String(s) => {
                if n.min_len.is_some() || n.max_len.is_some() {
                    let l = s.chars().count() as u64;
                    if n.min_len.is_some_and(|m| l < m) || n.max_len.is_some_and(|m| l > m) {
                        return false;
                    }
                }
                if n.pattern.as_ref().is_some_and(|p| !p.is_match(s)) {
                    return false;
                }
                if self.formats {
                    if let Some(f) = &n.format {
                        if !crate::jsv::format_ok(f, s) {
                            return false;
                        }
                    }
                }
            }
            Value::Array(arr) => {
                let l = arr.len() as u64;
                if n.min_items.is_some_and(|m| l < m) || n.max_items.is_some_and(|m| l > m) {
                    return false;
                }
                if n.unique {
                    for i in 0..arr.len() {
                        for j in 0..i {
                            if json_eq(&arr[i], &arr[j]) {
                                return false;
                            }
                        }
                    }
                }
                for (s, x) in n.prefix.iter().zip(arr) {
                    if !self.eval(*s, x, &mut Ann::default(), depth + 1) {
                        return false;
                    }
                }
                a.items = a.items.max(n.prefix.len().min(arr.len()));
                if let Some(s) = n.items {
                    for x in arr.iter().skip(n.prefix.len()) {
                        if !self.eval(s, x, &mut Ann::default(), depth + 1) {
                            return false;
                        }
                    }
                    a.items = arr.len();
                }
                if let Some(s) = n.contains {
                    if !arr.iter().any(|x| self.eval(s, x, &mut Ann::default(), depth + 1)) {
                        return false;
                    }
                }
            }
            Value::Object(o) if n.has_object_kw => {
                let l = o.len() as u64;
                if n.min_props.is_some_and(|m| l < m) || n.max_props.is_some_and(|m| l > m) {
                    return false;
                }
                for r in &n.required {
                    if !o.contains_key(r) {
                        return false;
                    }
                }
                for (i, (k, x)) in o.iter().enumerate() {
                    let mut ev = false;
                    if let Some(s) = n.props.get(k) {
                        ev = true;
                        let s = s.as_u64().unwrap() as usize;
                        if !self.eval(s, x, &mut Ann::default(), depth + 1) {
                            return false;
                        }
                    }
                    for (r, s) in &n.pattern_props {
                        if r.is_match(k) {
                            ev = true;
                            if !self.eval(*s, x, &mut Ann::default(), depth + 1) {
                                return false;
                            }
                        }
                    }
                    if !ev {
                        if let Some(s) = n.additional {
                            ev = true;
                            if !self.eval(s, x, &mut Ann::default(), depth + 1) {
                                return false;
                            }
                        }
                    }
                    if ev && i < 128 {
                        a.props |= 1 << i;
                    }
                    if let Some(s) = n.prop_names {
                        if !self.eval(s, &Value::String(k.clone()), &mut Ann::default(), depth + 1) {
                            return false;
                        }
                    }
                }
            }
            _ => {}
        }
        for s in &n.all_of {
            if !inplace!(*s) {
                return false;
            }
        }
        if let Some(list) = &n.any_of {
            let mut ok = false;
            for s in list {
                if inplace!(*s) {
                    ok = true;
                    if !self.uses_uneval {
                        break;
                    }
                }
            }
            if !ok {
                return false;
            }
        }
        if let Some(list) = &n.one_of {
            let mut c = 0;
            for s in list {
                if inplace!(*s) {
                    c += 1;
                }
            }
            if c != 1 {
                return false;
            }
        }
        if let Some(s) = n.not {
            if self.eval(s, v, &mut Ann::default(), depth + 1) {
                return false;
            }
        }
        if let Some(s) = n.if_ {
            if inplace!(s) {
                if let Some(t) = n.then {
                    if !inplace!(t) {
                        return false;
                    }
                }
            } else if let Some(e) = n.else_ {
                if !inplace!(e) {
                    return false;
                }
            }
        }
        if let (Some(s), Value::Object(o)) = (n.uneval_props, v) {
            for (i, x) in o.values().enumerate() {
                if a.props & (1 << i) == 0 && !self.eval(s, x, &mut Ann::default(), depth + 1) {
                    return false;
                }
                a.props |= 1 << i;
            }
        }
        if let (Some(s), Value::Array(arr)) = (n.uneval_items, v) {
            for x in arr.iter().skip(a.items) {
                if !self.eval(s, x, &mut Ann::default(), depth + 1) {
                    return false;
                }
            }
            a.items = arr.len();
        }
        if self.uses_uneval {
            ann.props |= a.props;
            ann.items = ann.items.max(a.items);
        }
        true
    }
}

/// Integer formats (OpenAPI format registry): the value lies in the range they name.
fn int_format_ok(f: &str, x: &serde_json::Number) -> bool {
    let v = match (x.as_u64(), x.as_i64()) {
        (Some(u), _) => u as i128,
        (_, Some(i)) => i as i128,
        _ => return true,
    };
    let (lo, hi) = match f {
        "int8" => (i8::MIN as i128, i8::MAX as i128),
        "int16" => (i16::MIN as i128, i16::MAX as i128),
        "int32" => (i32::MIN as i128, i32::MAX as i128),
        "int64" | "int" => (i64::MIN as i128, i64::MAX as i128),
        "uint8" => (0, u8::MAX as i128),
        "uint16" => (0, u16::MAX as i128),
        "uint32" => (0, u32::MAX as i128),
        "uint64" | "uint" => (0, u64::MAX as i128),
        "uint128" => (0, i128::MAX),
        _ => return true,
    };
    lo <= v && v <= hi
}

/// Lenient-by-specification checks of the formats schemars emits (unknown formats pass).
pub fn format_ok(f: &str, s: &str) -> bool {
    fn re(p: &str) -> Regex {
        Regex::new(p).unwrap()
    }
    use std::sync::OnceLock;
    static R: OnceLock<HashMap<&'static str, Regex>> = OnceLock::new();
    let m = R.get_or_init(|| {
        let date = r"\d{4}-(0[1-9]|1[0-2])-(0[1-9]|[12]\d|3[01])";
        let time = r"([01]\d|2[0-3]):[0-5]\d:([0-5]\d|60)(\.\d+)?";
        let off = r"([zZ]|[+-]([01]\d|2[0-3]):[0-5]\d)";
        let mut m = HashMap::new();
        m.insert("date", re(&format!("^{date}$")));
        m.insert("time", re(&format!("^{time}{off}$")));
        m.insert("date-time", re(&format!("^{date}[tT ]{time}{off}$")));
        m.insert("uuid", re(r"^[0-9a-fA-F]{8}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{4}-[0-9a-fA-F]{12}$"));
        m.insert("ipv4", re(r"^((25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)\.){3}(25[0-5]|2[0-4]\d|1\d\d|[1-9]?\d)$"));
        // (with the sign of ISO 8601-2, which jiff writes for negative durations)
        m.insert("duration", re(r"^[-+]?P(\d+W|(\d+Y)?(\d+M)?(\d+W)?(\d+D)?(T(\d+H)?(\d+M)?(\d+(\.\d+)?S)?)?)$"));
        m.insert("uri", re(r"^[A-Za-z][A-Za-z0-9+.-]*:[^\s]*$"));
        m
    });
    match f {
        "ipv6" => s.parse::<std::net::Ipv6Addr>().is_ok(),
        "ip" => s.parse::<std::net::IpAddr>().is_ok(),
        _ => m.get(f).is_none_or(|r| r.is_match(s)),
    }
}
