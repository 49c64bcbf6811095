//! Ledger comment metadata, read independently of the program's regexes.

use crate::prop::Src;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Cm {
    /// Text chunks in order.
    pub lines: Vec<String>,
    pub tags: BTreeSet<String>,
    pub kv: BTreeMap<String, String>,
}

/// `key:` or `key: value` taking a whole line.
pub fn as_value_tag(line: &str) -> Option<(String, String)> {
    let l = line.trim_start_matches(' ');
    let i = l.find(':')?;
    let (key, rest) = (&l[..i], &l[i + 1..]);
    if key.is_empty() || key.contains(' ') {
        return None;
    }
    if rest.is_empty() {
        return Some((key.to_string(), String::new()));
    }
    let v = rest.trim_start_matches(' ');
    if v.len() == rest.len() || v.is_empty() {
        return None;
    }
    Some((key.to_string(), v.to_string()))
}

/// `:a:b:` as a word.
fn as_flags(word: &str) -> Option<Vec<String>> {
    if word.len() < 3 || !word.starts_with(':') || !word.ends_with(':') {
        return None;
    }
    let names: Vec<String> = word[1..word.len() - 1].split(':').map(|s| s.to_string()).collect();
    if names.iter().any(|n| n.is_empty()) {
        None
    } else {
        Some(names)
    }
}

impl Cm {
    pub fn read(raw: &[String]) -> Cm {
        let mut c = Cm::default();
        for line in raw {
            if let Some((k, v)) = as_value_tag(line) {
                c.kv.insert(k, v);
                continue;
            }
            let mut text = String::new();
            let mut word = String::new();
            let flush = |text: &mut String, c: &mut Cm| {
                let t = text.trim();
                if !t.is_empty() {
                    c.lines.push(t.to_string());
                }
                text.clear();
            };
            for ch in line.chars().chain(" ".chars()) {
                if ch == ' ' || ch == '\t' {
                    match as_flags(&word) {
                        Some(f) => {
                            flush(&mut text, &mut c);
                            c.tags.extend(f);
                        }
                        None => {
                            text.push_str(&word);
                            text.push(ch);
                        }
                    }
                    word.clear();
                } else {
                    word.push(ch);
                }
            }
            flush(&mut text, &mut c);
        }
        c
    }

    /// Text that no comment can hold: on a line of its own it is a value tag.
    pub fn unholdable(&self) -> bool {
        self.tags.is_empty() && self.lines.first().is_some_and(|l| as_value_tag(l).is_some())
    }

    /// The text as one stream of words, for where chunking may change.
    pub fn words(&self) -> Vec<String> {
        self.lines.iter().flat_map(|l| l.split_whitespace().map(|w| w.to_string()).collect::<Vec<_>>()).collect()
    }
    pub fn has_kv_like_text(&self) -> bool {
        self.lines.iter().any(|l| as_value_tag(l).is_some())
    }

    /// Raw lines that read as this metadata, in a varied arrangement.
    pub fn arrange(&self, s: &mut Src) -> Vec<String> {
        let mut out: Vec<String> = vec![];
        let mut tags: Vec<&String> = self.tags.iter().collect();
        s.shuffle(&mut tags);
        // Groups of tags.
        let mut groups: Vec<String> = vec![];
        let mut i = 0;
        while i < tags.len() {
            let n = s.range(1, 3).min(tags.len() - i);
            groups.push(format!(":{}:", tags[i..i + n].iter().map(|t| t.as_str()).collect::<Vec<_>>().join(":")));
            i += n;
        }
        let mut lines: Vec<String> = self.lines.clone();
        let mut units: Vec<Vec<String>> = vec![];
        // Text keeps its order; tag groups go before, between or after.
        let total = groups.len() + lines.len();
        let mut last_was_text = false;
        for _ in 0..total {
            let take_group = if groups.is_empty() {
                false
            } else if lines.is_empty() {
                true
            } else {
                !s.pct(50)
            };
            let (u, is_text) = if take_group { (groups.remove(0), false) } else { (lines.remove(0), true) };
            // Same line as the previous unit?
            let join = !units.is_empty() && !(is_text && last_was_text) && s.pct(40);
            if join {
                units.last_mut().unwrap().push(u);
            } else {
                units.push(vec![u]);
            }
            last_was_text = is_text;
        }
        out.extend(units.into_iter().map(|u| u.join(" ")));
        let mut kvs: Vec<(&String, &String)> = self.kv.iter().collect();
        s.shuffle(&mut kvs);
        for (k, v) in kvs {
            let l = if v.is_empty() { format!("{}:", k) } else { format!("{}:{}{}", k, if s.pct(10) { "   " } else { " " }, v) };
            // Never in the middle of something that would change meaning: each
            // value tag is a line of its own anyway.
            let at = s.below(out.len() + 1);
            let at = out.len() - at;
            out.insert(at, l);
        }
        out
    }

    pub fn tag(mut self, t: &str) -> Cm {
        self.tags.insert(t.to_string());
        self
    }
    pub fn with_kv(mut self, k: &str, v: &str) -> Cm {
        self.kv.insert(k.to_string(), v.to_string());
        self
    }
}
