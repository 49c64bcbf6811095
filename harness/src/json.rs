//! Minimal JSON writing, and reading of what this harness wrote.

pub enum J {
    Null,
    B(bool),
    I(i64),
    F(f64),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

impl J {
    pub fn s<T: Into<String>>(t: T) -> J {
        J::S(t.into())
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::O(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn dump(&self) -> String {
        let mut o = String::new();
        self.w(&mut o, 0);
        o.push('\n');
        o
    }
    fn w(&self, o: &mut String, ind: usize) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::F(f) => o.push_str(&format!("{:.3}", f)),
            J::S(s) => esc(o, s),
            J::A(v) => {
                o.push('[');
                let scalar = v.iter().all(|x| matches!(x, J::I(_) | J::F(_) | J::B(_)));
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    if !scalar {
                        nl(o, ind + 1);
                    }
                    x.w(o, ind + 1);
                }
                if !scalar && !v.is_empty() {
                    nl(o, ind);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    nl(o, ind + 1);
                    esc(o, k);
                    o.push_str(": ");
                    x.w(o, ind + 1);
                }
                if !v.is_empty() {
                    nl(o, ind);
                }
                o.push('}');
            }
        }
    }
}

fn nl(o: &mut String, n: usize) {
    o.push('\n');
    for _ in 0..n {
        o.push(' ');
    }
}

fn esc(o: &mut String, s: &str) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0xe000..0xf900).contains(&(c as u32)) => {
                o.push_str(&format!("\\u{:04x}", c as u32))
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

/// Reads `"key": "string"` of a top-level key of a file written by `dump`.
pub fn get_str(text: &str, key: &str) -> Option<String> {
    let pat = format!("\n \"{}\": \"", key);
    let i = text.find(&pat)? + pat.len();
    let rest = &text[i..];
    let j = rest.find('"')?;
    Some(rest[..j].to_string())
}

/// Reads `"key": [1,2,3]`.
pub fn get_u64s(text: &str, key: &str) -> Option<Vec<u64>> {
    let pat = format!("\n \"{}\": [", key);
    let i = text.find(&pat)? + pat.len();
    let rest = &text[i..];
    let j = rest.find(']')?;
    let body = rest[..j].trim();
    if body.is_empty() {
        return Some(vec![]);
    }
    body.split(',').map(|x| x.trim().parse().ok()).collect()
}

/// Entries `finding: property=<id> <text>` of the known-findings file.
pub fn parse_findings(text: &str) -> Vec<(String, String)> {
    text.lines()
        .filter_map(|l| {
            let r = l.strip_prefix("finding: property=")?;
            let (id, t) = r.split_once(' ')?;
            Some((id.to_string(), t.trim().to_string()))
        })
        .collect()
}
