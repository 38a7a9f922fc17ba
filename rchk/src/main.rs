//! D07: compiles every generated program with the real derive macro and compares what the compiler reports about it
//! with what the program has to get: an error from the macro, or none at all.
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use vcore::report::Report;

struct Prog {
    group: String,
    src: String,
    expect: String,
    needle: Option<String>,
}

const HEADER: &str = "use schemars::JsonSchema; use serde::{Serialize, Deserialize}; use serde_json::Value; use alib::{self, In}; use std::collections::*; use std::borrow::Cow; use std::marker::PhantomData; use std::rc::Rc;";

#[derive(Default)]
struct Diag {
    /// errors of a macro or of the parser: no error code
    macros: Vec<String>,
    /// errors of the compiler proper
    other: Vec<String>,
}

struct Ws {
    dir: PathBuf,
    repo: String,
}

impl Ws {
    fn write(&self, path: &Path, text: &str) {
        if std::fs::read_to_string(path).is_ok_and(|t| t == text) {
            return;
        }
        std::fs::create_dir_all(path.parent().unwrap()).unwrap();
        std::fs::write(path, text).unwrap();
    }
    /// One crate per chunk; returns what the compiler says about each program.
    fn check(&self, name: &str, progs: &[(usize, &Prog)], chunk: usize) -> Result<BTreeMap<usize, Diag>, String> {
        let dir = self.dir.join(name);
        let _ = std::fs::remove_dir_all(&dir);
        let mut members = vec![];
        let mut lines: BTreeMap<String, Vec<usize>> = BTreeMap::new();
        for (c, ps) in progs.chunks(chunk).enumerate() {
            let m = format!("{name}{c}");
            let mut text = String::from("#![allow(warnings)]\n");
            let mut map = vec![usize::MAX, usize::MAX];
            for (i, p) in ps {
                let (header, src) = match p.src.strip_prefix("//noheader\n") {
                    Some(s) => ("", s),
                    None => (HEADER, &p.src[..]),
                };
                let t = format!("pub mod p{i} {{ {header} {src}\n}}\n");
                text += &t;
                map.extend(t.lines().map(|_| *i));
            }
            self.write(&dir.join(&m).join("src/lib.rs"), &text);
            self.write(
                &dir.join(&m).join("Cargo.toml"),
                &format!(
                    "[package]\nname = \"{m}\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\nalib = {{ path = \"../../../../alib\" }}\nschemars = {{ path = \"{}/schemars\", features = [\"preserve_order\"] }}\nserde = {{ version = \"1\", features = [\"derive\"] }}\nserde_json = \"1\"\n",
                    self.repo
                ),
            );
            lines.insert(m.clone(), map);
            members.push(m);
        }
        self.write(
            &dir.join("Cargo.toml"),
            &format!(
                "[workspace]\nresolver = \"2\"\nmembers = {}\n[profile.dev]\nopt-level = 0\ndebug = 0\nincremental = false\n",
                serde_json::to_string(&members).unwrap()
            ),
        );
        let mut child = Command::new("cargo")
            .args(["check", "--offline", "--keep-going", "--message-format=json", "-q"])
            .current_dir(&dir)
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .map_err(|e| e.to_string())?;
        let err = child.stderr.take().unwrap();
        let err = std::thread::spawn(move || std::io::read_to_string(err).unwrap_or_default());
        let mut out: BTreeMap<usize, Diag> = BTreeMap::new();
        let mut stray = vec![];
        let mut seen = BTreeSet::new();
        for line in BufReader::new(child.stdout.take().unwrap()).lines() {
            let line = line.map_err(|e| e.to_string())?;
            let Ok(v) = serde_json::from_str::<Value>(&line) else { continue };
            if v["reason"] == "compiler-artifact" {
                seen.insert(v["target"]["name"].as_str().unwrap_or("").to_string());
            }
            if v["reason"] != "compiler-message" {
                continue;
            }
            let name = v["target"]["name"].as_str().unwrap_or("");
            let m = &v["message"];
            if m["level"] != "error" && m["level"] != "error: internal compiler error" {
                continue;
            }
            seen.insert(name.to_string());
            let text = m["message"].as_str().unwrap_or("").to_string();
            let Some(map) = lines.get(name) else {
                stray.push(format!("{name}: {text}"));
                continue;
            };
            match place(m, map) {
                Some(i) => {
                    let d = out.entry(i).or_default();
                    // an explained panic carries the panic's message in a note
                    let text = format!("{text}{}", m["children"].as_array().into_iter().flatten().map(|c| format!(" / {}", c["message"].as_str().unwrap_or(""))).collect::<String>());
                    if m["code"].is_null() { d.macros.push(text) } else { d.other.push(format!("{} {text}", m["code"]["code"].as_str().unwrap_or(""))) }
                }
                None if text.starts_with("aborting due to") || text.starts_with("could not compile") => {}
                None => stray.push(format!("{name}: {text}")),
            }
        }
        child.wait().map_err(|e| e.to_string())?;
        let err = err.join().unwrap();
        if !stray.is_empty() {
            return Err(format!("errors that belong to no program: {:?}", &stray[..stray.len().min(5)]));
        }
        for m in &members {
            if !seen.contains(m) {
                return Err(format!("{m} was not compiled: {}", err.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect::<String>()));
            }
        }
        Ok(out)
    }
}

/// The program a message is about: a span in the crate's file, the primary one first, following macro expansions.
fn place(m: &Value, map: &[usize]) -> Option<usize> {
    fn spans(m: &Value, out: &mut Vec<Value>) {
        let mut s: Vec<_> = m["spans"].as_array().cloned().unwrap_or_default();
        s.sort_by_key(|s| s["is_primary"] != true);
        out.extend(s);
        for c in m["children"].as_array().into_iter().flatten() {
            spans(c, out);
        }
    }
    let mut all = vec![];
    spans(m, &mut all);
    for s in all {
        let mut s = &s;
        loop {
            let f = s["file_name"].as_str().unwrap_or("");
            if f.ends_with("src/lib.rs") && !f.starts_with('/') {
                let l = s["line_start"].as_u64().unwrap() as usize;
                if let Some(&i) = map.get(l) {
                    if i != usize::MAX {
                        return Some(i);
                    }
                }
            }
            s = &s["expansion"]["span"];
            if s.is_null() {
                break;
            }
        }
    }
    None
}

fn main() {
    let r = Report::new("D07");
    let base = std::env::var("VC_BASE").unwrap_or("/verif".into());
    let ws = Ws { dir: format!("{base}/gen/d07").into(), repo: std::env::var("VC_REPO").unwrap_or("/repo".into()) };
    let all: Vec<Value> = serde_json::from_str(&std::fs::read_to_string(format!("{base}/gen/d07.json")).unwrap()).unwrap();
    let progs: Vec<Prog> = all
        .iter()
        .map(|v| Prog {
            group: v[0].as_str().unwrap().into(),
            src: v[1].as_str().unwrap().into(),
            expect: v[2].as_str().unwrap().into(),
            needle: v[3].as_str().map(Into::into),
        })
        .collect();
    let die = |e: String| -> ! {
        eprintln!("D07: {e}");
        std::process::exit(2)
    };
    let fail = |i: usize, what: String| {
        let p = &progs[i];
        r.fail(&p.src, &format!("({}) {}: {what}", p.group, p.src.replace('\n', " ")), json!({ "program": p.src, "expected": p.expect, "group": p.group }));
    };
    let panicked = |t: &String| t.contains("panicked") || t.contains("internal compiler error");
    // pass 1: everything the macro has to report an error about, or need not accept
    let first: Vec<(usize, &Prog)> = progs.iter().enumerate().filter(|p| p.1.expect != "ok").collect();
    r.state(progs.len() as u64);
    let n = std::thread::available_parallelism().map_or(4, |n| n.get());
    let got = ws.check("r", &first, first.len().div_ceil(n * 2).max(1)).unwrap_or_else(|e| die(e));
    let none = Diag::default();
    for (i, p) in &first {
        r.step(1);
        let d = got.get(i).unwrap_or(&none);
        if let Some(t) = d.macros.iter().chain(&d.other).find(|t| panicked(t)) {
            fail(*i, format!("the macro crashes: {t}"));
        } else if p.expect == "reject" {
            r.valid(1);
            if d.macros.is_empty() {
                fail(*i, format!("no error is reported (by the compiler: {:?})", d.other));
            } else if let Some(n) = &p.needle {
                if !d.macros.iter().any(|t| t.contains(&n[..])) {
                    fail(*i, format!("no error names `{n}`: {:?}", d.macros));
                }
            }
        }
        r.sample(|| json!({ "program": p.src, "expected": p.expect, "messages": d.macros }));
    }
    // pass 2: everything that has to compile; programs that fail to are taken out until the rest compiles, since the
    // compiler does not look at types when there are earlier errors
    let mut left: Vec<(usize, &Prog)> = progs.iter().enumerate().filter(|p| p.1.expect == "ok").collect();
    for round in 0..4 {
        let got = ws.check(&format!("k{round}"), &left, left.len().div_ceil(n * 2).max(1)).unwrap_or_else(|e| die(e));
        r.step(left.len() as u64);
        for (i, d) in &got {
            let t = d.macros.iter().chain(&d.other).next().unwrap();
            fail(*i, format!("does not compile: {t}"));
        }
        if got.is_empty() {
            r.valid(left.len() as u64);
            break;
        }
        left.retain(|p| !got.contains_key(&p.0));
    }
    r.note("programs_that_have_to_be_rejected", progs.iter().filter(|p| p.expect == "reject").count());
    r.note("programs_that_have_to_compile", progs.iter().filter(|p| p.expect == "ok").count());
    r.note("programs_that_must_not_crash_the_macro", progs.iter().filter(|p| p.expect == "nopanic").count());
    r.assume("errors without an error code come from the macro");
    let _ = std::io::stdout().flush();
    r.finish()
}
