//! Patterns are ECMA-262 regular expressions with Unicode support (JSON Schema 2020-12 core 6.4): a strict syntax check
//! for `u` mode, then evaluation with the `regex` crate after rewriting what the two read differently.
use regex::Regex;

pub fn regex(p: &str) -> Result<Regex, String> {
    let t = translate(p).map_err(|e| format!("bad pattern {p:?}: {e}"))?;
    Regex::new(&t).map_err(|e| format!("bad pattern {p:?}: {e}"))
}

struct P {
    c: Vec<char>,
    i: usize,
    out: String,
}
type R = Result<(), String>;

/// Parse as an ECMA-262 `u`-mode pattern; returns the same language in the syntax of the `regex` crate.
pub fn translate(p: &str) -> Result<String, String> {
    let mut x = P { c: p.chars().collect(), i: 0, out: String::new() };
    x.disjunction()?;
    if x.i < x.c.len() {
        return Err(format!("unexpected {:?}", x.c[x.i]));
    }
    Ok(x.out)
}

impl P {
    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }
    fn looking(&self, s: &str) -> bool {
        s.chars().enumerate().all(|(n, ch)| self.c.get(self.i + n) == Some(&ch))
    }
    fn take(&mut self) -> Option<char> {
        let c = self.peek();
        self.i += c.is_some() as usize;
        c
    }
    fn disjunction(&mut self) -> R {
        loop {
            while let Some(c) = self.peek() {
                if c == '|' || c == ')' {
                    break;
                }
                self.term()?;
            }
            if self.peek() != Some('|') {
                return Ok(());
            }
            self.i += 1;
            self.out.push('|');
        }
    }
    fn term(&mut self) -> R {
        match self.take().unwrap() {
            '^' => return Ok(self.out.push_str("\\A")),
            '$' => return Ok(self.out.push_str("\\z")),
            '(' => {
                if self.looking("?=") || self.looking("?!") || self.looking("?<=") || self.looking("?<!") {
                    return Err("lookaround is not supported by this evaluator".into());
                }
                if self.looking("?:") {
                    self.i += 2;
                } else if self.looking("?<") {
                    self.i += 2;
                    let mut n = 0;
                    loop {
                        match self.take() {
                            Some('>') if n > 0 => break,
                            Some(c) if c == '_' || c == '$' || c.is_alphabetic() || n > 0 && c.is_alphanumeric() => n += 1,
                            _ => return Err("bad group name".into()),
                        }
                    }
                } else if self.peek() == Some('?') {
                    return Err("bad group".into());
                }
                self.out.push_str("(?:");
                self.disjunction()?;
                if self.take() != Some(')') {
                    return Err("unclosed group".into());
                }
                self.out.push(')');
            }
            '.' => self.out.push_str("[^\\n\\r\\x{2028}\\x{2029}]"),
            '[' => self.class()?,
            '\\' => match self.peek() {
                Some('b' | 'B') => {
                    let c = self.take().unwrap();
                    self.out.push_str(if c == 'b' { "(?-u:\\b)" } else { "(?-u:\\B)" });
                    return Ok(());
                }
                _ => {
                    let s = self.escape(false)?;
                    self.out.push_str(&s.1);
                }
            },
            c @ ('*' | '+' | '?' | '{' | '}' | ']' | ')' | '|') => return Err(format!("unexpected {c:?}")),
            c => self.lit(c),
        }
        self.quantifier()
    }
    fn lit(&mut self, c: char) {
        self.out.push_str(&regex::escape(&c.to_string()));
    }
    fn quantifier(&mut self) -> R {
        match self.peek() {
            Some(c @ ('*' | '+' | '?')) => {
                self.i += 1;
                self.out.push(c);
            }
            Some('{') => {
                self.i += 1;
                let mut t = String::new();
                loop {
                    match self.take() {
                        Some('}') => break,
                        Some(c) if c.is_ascii_digit() || c == ',' => t.push(c),
                        _ => return Err("bad quantifier".into()),
                    }
                }
                let parts: Vec<&str> = t.split(',').collect();
                let n = |s: &str| s.parse::<u32>().map_err(|_| "bad quantifier".to_string());
                match parts.as_slice() {
                    [a] => drop(n(a)?),
                    [a, ""] => drop(n(a)?),
                    [a, b] if n(a)? <= n(b)? => {}
                    _ => return Err("bad quantifier".into()),
                }
                self.out.push_str(&format!("{{{t}}}"));
            }
            _ => return Ok(()),
        }
        if self.peek() == Some('?') {
            self.i += 1;
            self.out.push('?');
        }
        Ok(())
    }
    fn hex(&mut self, n: usize) -> Result<u32, String> {
        let s: String = self.c[self.i..].iter().take(n).collect();
        if s.len() != n || !s.chars().all(|c| c.is_ascii_hexdigit()) {
            return Err("bad escape".into());
        }
        self.i += n;
        Ok(u32::from_str_radix(&s, 16).unwrap())
    }
    /// After a backslash. Returns the character (None for a class) and its translation.
    fn escape(&mut self, in_class: bool) -> Result<(Option<char>, String), String> {
        let Some(c) = self.take() else { return Err("\\ at end of pattern".into()) };
        let ch = match c {
            'd' => return Ok((None, if in_class { "0-9" } else { "[0-9]" }.into())),
            'D' => return Ok((None, "[^0-9]".into())),
            'w' => return Ok((None, if in_class { "0-9A-Za-z_" } else { "[0-9A-Za-z_]" }.into())),
            'W' => return Ok((None, "[^0-9A-Za-z_]".into())),
            's' => return Ok((None, "\\s".into())),
            'S' => return Ok((None, "\\S".into())),
            'p' | 'P' => {
                if self.take() != Some('{') {
                    return Err("bad property escape".into());
                }
                let mut t = String::new();
                loop {
                    match self.take() {
                        Some('}') => break,
                        Some(x) if x.is_ascii_alphanumeric() || x == '_' || x == '=' => t.push(x),
                        _ => return Err("bad property escape".into()),
                    }
                }
                return Ok((None, format!("\\{c}{{{t}}}")));
            }
            'f' => '\u{c}',
            'n' => '\n',
            'r' => '\r',
            't' => '\t',
            'v' => '\u{b}',
            'b' if in_class => '\u{8}',
            '-' if in_class => '-',
            'c' => match self.take() {
                Some(l) if l.is_ascii_alphabetic() => char::from(l as u8 % 32),
                _ => return Err("bad control escape".into()),
            },
            '0' if !self.peek().is_some_and(|c| c.is_ascii_digit()) => '\0',
            'x' => char::from_u32(self.hex(2)?).unwrap(),
            'u' => {
                let v = if self.peek() == Some('{') {
                    self.i += 1;
                    let n = self.c[self.i..].iter().position(|c| *c == '}').ok_or("bad escape")?;
                    let v = self.hex(n)?;
                    self.i += 1;
                    v
                } else {
                    self.hex(4)?
                };
                char::from_u32(v).ok_or("surrogate escapes are not supported by this evaluator")?
            }
            '^' | '$' | '\\' | '.' | '*' | '+' | '?' | '(' | ')' | '[' | ']' | '{' | '}' | '|' | '/' => c,
            '1'..='9' | 'k' => return Err("back references are not supported by this evaluator".into()),
            _ => return Err(format!("invalid escape \\{c} (ECMA-262, u mode)")),
        };
        Ok((Some(ch), regex::escape(&ch.to_string())))
    }
    fn class(&mut self) -> R {
        let mut t = String::from("[");
        if self.peek() == Some('^') {
            self.i += 1;
            t.push('^');
        }
        let mut empty = true;
        loop {
            let a = match self.take() {
                None => return Err("unclosed class".into()),
                Some(']') => break,
                Some('\\') => self.escape(true)?,
                Some(c) => (Some(c), quote(c)),
            };
            empty = false;
            if self.peek() == Some('-') && self.c.get(self.i + 1).is_some_and(|c| *c != ']') {
                self.i += 1;
                let b = match self.take().unwrap() {
                    '\\' => self.escape(true)?,
                    c => (Some(c), quote(c)),
                };
                match (a.0, b.0) {
                    (Some(x), Some(y)) if x <= y => t.push_str(&format!("{}-{}", quote(x), quote(y))),
                    _ => return Err("bad range in class".into()),
                }
            } else {
                match a.0 {
                    Some(c) => t.push_str(&quote(c)),
                    None => t.push_str(&a.1),
                }
            }
        }
        if empty {
            self.out.push_str(if t == "[^" { "(?s:.)" } else { "[^\\x{0}-\\x{10FFFF}]" });
        } else {
            self.out.push_str(&t);
            self.out.push(']');
        }
        Ok(())
    }
}

fn quote(c: char) -> String {
    format!("\\x{{{:X}}}", c as u32)
}

#[test]
fn syntax() {
    for ok in ["", "a", r"^\d+$", r"\.\/", "[a-z]", r"[\-a]", "a{2,3}?", "(?:a|b)*", "(?<n>a)", r"\u00e9\u{1F600}", "a-b#&~", "[^]", "[]", r"\p{L}"] {
        assert!(regex(ok).is_ok(), "{ok}");
    }
    for bad in [r"\-", r"\#", r"\&", r"\~", r"\e", "a{", "}", "]", "*", "(", ")", "[", "[b-a]", r"[\d-z]", "a**", "{1}", r"\", "(?a)", "a{2,1}", r"\p"] {
        assert!(regex(bad).is_err(), "{bad}");
    }
    let m = |p: &str, s: &str| regex(p).unwrap().is_match(s);
    assert!(m(r"^\d$", "1") && !m(r"^\d$", "\u{661}") && !m("^.$", "\n") && m("^[^a]$", "b") && m("[]|a", "a") && !m("^[]$", "a"));
}
