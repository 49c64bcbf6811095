//! Rule tables: model, generator, RON renderer and reference interpreter.

use crate::comment::Cm;
use crate::gen;
use crate::journal::*;
use crate::prop::Src;
use crate::regexm::{self, Regex};
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub enum Sm {
    AsLower(Box<Sm>),
    Contains(String),
    Eq(String),
    Matches(Regex),
}

#[derive(Clone, Debug)]
pub enum Pred {
    All(Vec<Pred>),
    Any(Vec<Pred>),
    Account(Sm),
    FlagTag(Sm),
    HasFlag(String),
    HasValue(String),
    ValueTag(String, Sm),
    Not(Box<Pred>),
    Desc(Sm),
    True,
}

#[derive(Clone, Debug)]
pub enum Act {
    PFlag(String),
    PValue(String, String),
    TFlag(String),
    TValue(String, String),
    All(Vec<Act>),
    Error(String),
    Noop,
    Jump(String),
    Account(String),
    RmPFlag(String),
    RmPValue(String),
    RmTFlag(String),
    RmTValue(String),
    Desc(Regex, String),
}

#[derive(Clone, Debug)]
pub struct Rule {
    pub pred: Pred,
    pub act: Act,
    pub ret: bool,
}

pub type Chains = BTreeMap<String, Vec<Rule>>;

// ------------------------------------------------------------ interpreter

#[derive(Debug, Clone, PartialEq)]
pub enum RErr {
    Rule,
    Undefined,
    Endless,
}

#[derive(Default, Debug)]
pub struct Trace {
    pub matched: usize,
    pub unmatched: usize,
    pub jumps: usize,
    pub returns: usize,
    pub changed: usize,
    pub replaced: usize,
    pub max_depth: usize,
    /// A description grew beyond all measure.
    pub huge: bool,
}

fn sm(m: &Sm, s: &str) -> bool {
    match m {
        Sm::AsLower(x) => sm(x, &s.to_lowercase()),
        Sm::Contains(x) => s.contains(x.as_str()),
        Sm::Eq(x) => s == x,
        Sm::Matches(r) => r.is_match(s),
    }
}

fn pred(p: &Pred, t: &Trn, k: usize) -> bool {
    let post = &t.posts[k];
    match p {
        Pred::All(v) => v.iter().all(|p| pred(p, t, k)),
        Pred::Any(v) => v.iter().any(|p| pred(p, t, k)),
        Pred::Account(m) => sm(m, &post.account),
        Pred::FlagTag(m) => post.cm.tags.iter().any(|x| sm(m, x)),
        Pred::HasFlag(x) => post.cm.tags.contains(x),
        Pred::HasValue(x) => post.cm.kv.contains_key(x),
        Pred::ValueTag(n, m) => post.cm.kv.get(n).map(|v| sm(m, v)).unwrap_or(false),
        Pred::Not(p) => !pred(p, t, k),
        Pred::Desc(m) => sm(m, &t.desc),
        Pred::True => true,
    }
}

pub struct Interp<'a> {
    pub chains: &'a Chains,
    pub trace: Trace,
}

impl Interp<'_> {
    fn act(&mut self, a: &Act, t: &mut Trn, k: usize, depth: usize) -> Result<(), RErr> {
        let before = (t.desc.clone(), t.posts[k].account.clone(), t.cm.clone(), t.posts[k].cm.clone());
        match a {
            Act::PFlag(x) => {
                t.posts[k].cm.tags.insert(x.clone());
            }
            Act::PValue(x, v) => {
                t.posts[k].cm.kv.insert(x.clone(), v.clone());
            }
            Act::TFlag(x) => {
                t.cm.tags.insert(x.clone());
            }
            Act::TValue(x, v) => {
                t.cm.kv.insert(x.clone(), v.clone());
            }
            Act::All(v) => {
                for a in v {
                    self.act(a, t, k, depth)?;
                }
                return Ok(());
            }
            Act::Error(_) => return Err(RErr::Rule),
            Act::Noop => {}
            Act::Jump(c) => {
                self.trace.jumps += 1;
                return self.chain(c, t, k, depth + 1);
            }
            Act::Account(x) => t.posts[k].account = x.clone(),
            Act::RmPFlag(x) => {
                t.posts[k].cm.tags.remove(x);
            }
            Act::RmPValue(x) => {
                t.posts[k].cm.kv.remove(x);
            }
            Act::RmTFlag(x) => {
                t.cm.tags.remove(x);
            }
            Act::RmTValue(x) => {
                t.cm.kv.remove(x);
            }
            Act::Desc(r, w) => {
                let d = r.replace(&t.desc, w);
                if d.len() > 20_000 {
                    self.trace.huge = true;
                    return Err(RErr::Rule);
                }
                if d != t.desc {
                    self.trace.replaced += 1;
                }
                t.desc = d;
            }
        }
        if before != (t.desc.clone(), t.posts[k].account.clone(), t.cm.clone(), t.posts[k].cm.clone()) {
            self.trace.changed += 1;
        }
        Ok(())
    }
    fn chain(&mut self, name: &str, t: &mut Trn, k: usize, depth: usize) -> Result<(), RErr> {
        if depth > 400 {
            return Err(RErr::Endless);
        }
        self.trace.max_depth = self.trace.max_depth.max(depth);
        let chains = self.chains;
        let rules = chains.get(name).ok_or(RErr::Undefined)?;
        for r in rules {
            if self.trace.matched + self.trace.unmatched > 300_000 {
                self.trace.huge = true;
                return Err(RErr::Rule);
            }
            if pred(&r.pred, t, k) {
                self.trace.matched += 1;
                self.act(&r.act, t, k, depth)?;
                if r.ret {
                    self.trace.returns += 1;
                    break;
                }
            } else {
                self.trace.unmatched += 1;
            }
        }
        Ok(())
    }
    pub fn run(&mut self, ts: &mut [Trn]) -> Result<(), RErr> {
        for t in ts {
            for k in 0..t.posts.len() {
                self.chain("start", t, k, 0)?;
            }
        }
        Ok(())
    }
}

// -------------------------------------------------------------- renderer

pub fn ron_str(x: &str, s: &mut Src) -> String {
    let hashes = (0..).find(|n| !x.contains(&format!("\"{}", "#".repeat(*n)))).unwrap();
    if s.pct(35) || (x.contains('\\') && s.pct(50)) {
        let h = "#".repeat(hashes);
        return format!("r{}\"{}\"{}", h, x, h);
    }
    let mut o = String::from("\"");
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if !c.is_ascii() && s.pct(10) => o.push_str(&format!("\\u{{{:x}}}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn r_sm(m: &Sm, s: &mut Src) -> String {
    match m {
        Sm::AsLower(x) => format!("AsLower({})", r_sm(x, s)),
        Sm::Contains(x) => format!("Contains({})", ron_str(x, s)),
        Sm::Eq(x) => format!("Eq({})", ron_str(x, s)),
        Sm::Matches(r) => format!("Matches({})", ron_str(&r.text, s)),
    }
}

fn list(v: Vec<String>, s: &mut Src) -> String {
    let sep = if s.pct(30) { ",\n    " } else { ", " };
    let trail = if !v.is_empty() && s.pct(50) { "," } else { "" };
    format!("[{}{}]", v.join(sep), trail)
}

fn r_pred(p: &Pred, s: &mut Src) -> String {
    match p {
        Pred::All(v) => {
            let v = v.iter().map(|p| r_pred(p, s)).collect();
            format!("All({})", list(v, s))
        }
        Pred::Any(v) => {
            let v = v.iter().map(|p| r_pred(p, s)).collect();
            format!("Any({})", list(v, s))
        }
        Pred::Account(m) => format!("Account({})", r_sm(m, s)),
        Pred::FlagTag(m) => format!("PostingFlagTag({})", r_sm(m, s)),
        Pred::HasFlag(x) => format!("PostingHasFlagTag({})", ron_str(x, s)),
        Pred::HasValue(x) => format!("PostingHasValueTag({})", ron_str(x, s)),
        Pred::ValueTag(n, m) => format!("PostingValueTag({}, {})", ron_str(n, s), r_sm(m, s)),
        Pred::Not(p) => format!("Not({})", r_pred(p, s)),
        Pred::Desc(m) => format!("TransactionDescription({})", r_sm(m, s)),
        Pred::True => "True".into(),
    }
}

fn r_act(a: &Act, s: &mut Src) -> String {
    match a {
        Act::PFlag(x) => format!("AddPostingFlagTag({})", ron_str(x, s)),
        Act::PValue(x, v) => format!("AddPostingValueTag({}, {})", ron_str(x, s), ron_str(v, s)),
        Act::TFlag(x) => format!("AddTransactionFlagTag({})", ron_str(x, s)),
        Act::TValue(x, v) => format!("AddTransactionValueTag({}, {})", ron_str(x, s), ron_str(v, s)),
        Act::All(v) => {
            let v = v.iter().map(|p| r_act(p, s)).collect();
            format!("All({})", list(v, s))
        }
        Act::Error(x) => format!("Error({})", ron_str(x, s)),
        Act::Noop => "Noop".into(),
        Act::Jump(x) => format!("JumpChain({})", ron_str(x, s)),
        Act::Account(x) => format!("SetAccount({})", ron_str(x, s)),
        Act::RmPFlag(x) => format!("RemovePostingFlagTag({})", ron_str(x, s)),
        Act::RmPValue(x) => format!("RemovePostingValueTag({})", ron_str(x, s)),
        Act::RmTFlag(x) => format!("RemoveTransactionFlagTag({})", ron_str(x, s)),
        Act::RmTValue(x) => format!("RemoveTransactionValueTag({})", ron_str(x, s)),
        Act::Desc(r, w) => {
            let (a, b) = (format!("regex: {}", ron_str(&r.text, s)), format!("replacement: {}", ron_str(w, s)));
            // The struct name is optional in RON.
            let (a, b) = if s.pct(30) { (b, a) } else { (a, b) };
            format!("ReplaceTransactionDescription(({}, {}))", a, b)
        }
    }
}

pub fn r_rule(r: &Rule, s: &mut Src) -> String {
    let mut f = vec![format!("predicate: {}", r_pred(&r.pred, s)), format!("action: {}", r_act(&r.act, s)), format!("result: {}", if r.ret { "Return" } else { "Continue" })];
    if s.pct(40) {
        s.shuffle(&mut f);
    }
    let o = if s.pct(20) { "Rule(" } else { "(" };
    format!("{}{})", o, f.join(if s.pct(30) { ",\n      " } else { ", " }))
}

pub fn r_chain(name: &str, rules: &[Rule], s: &mut Src) -> String {
    let mut o = format!("Chain({}, [\n", ron_str(name, s));
    for r in rules {
        if s.pct(10) {
            o.push_str("    // a comment, (with] brackets\n");
        }
        o.push_str(&format!("    {},\n", r_rule(r, s)));
    }
    o.push_str(if s.pct(10) { "  ] /* end */)" } else { "  ])" });
    o
}

/// A whole rule file from entries (chains or includes, rendered).
pub fn r_file(entries: &[String], s: &mut Src) -> String {
    let mut o = String::new();
    if s.pct(15) {
        o.push_str("// rules\n");
    }
    o.push_str("[\n");
    for (i, e) in entries.iter().enumerate() {
        o.push_str("  ");
        o.push_str(e);
        if i + 1 < entries.len() || s.pct(70) {
            o.push(',');
        }
        o.push('\n');
    }
    o.push_str("]\n");
    o
}

// -------------------------------------------------------------- generator

/// Texts occurring in the journal the rules are for.
#[derive(Default, Clone)]
pub struct Vocab {
    pub accounts: Vec<String>,
    pub descs: Vec<String>,
    pub tags: Vec<String>,
    pub keys: Vec<String>,
    pub values: Vec<String>,
}

pub fn vocab(ts: &[Trn]) -> Vocab {
    let mut v = Vocab::default();
    let cm = |v: &mut Vocab, c: &Cm| {
        v.tags.extend(c.tags.iter().cloned());
        v.keys.extend(c.kv.keys().cloned());
        v.values.extend(c.kv.values().cloned());
    };
    for t in ts {
        v.descs.push(t.desc.clone());
        for p in &t.posts {
            v.accounts.push(p.account.clone());
            cm(&mut v, &p.cm);
        }
    }
    v.accounts.push("expenses:new".into());
    v.tags.extend(["flag", "new-tag", "a-tag-that-is-rather-long"].map(String::from));
    v.keys.extend(["key", "newkey"].map(String::from));
    v.values.extend(["value", "x: y", ""].map(String::from));
    v
}

fn piece(s: &mut Src, pool: &[String]) -> String {
    let t = s.pick(pool).clone();
    let c: Vec<char> = t.chars().collect();
    if c.is_empty() {
        return String::new();
    }
    let a = s.below(c.len());
    let n = s.range(1, c.len() - a);
    c[a..a + n].iter().collect()
}

fn case_change(s: &mut Src, t: String) -> String {
    match s.below(3) {
        0 => t,
        1 => t.to_uppercase(),
        _ => t.to_lowercase(),
    }
}

fn gen_sm(s: &mut Src, pool: &[String], depth: usize) -> Sm {
    match s.weighted(&[35, 25, 30, if depth > 0 { 15 } else { 0 }]) {
        0 => {
            let p = piece(s, pool);
            Sm::Contains(if s.pct(15) { case_change(s, p) } else { p })
        }
        1 => {
            let p = s.pick(pool).clone();
            Sm::Eq(if s.pct(20) { case_change(s, p) } else { p })
        }
        2 => Sm::Matches(regexm::gen(s, pool)),
        _ => {
            let low: Vec<String> = pool.iter().map(|x| x.to_lowercase()).collect();
            let p = if s.pct(80) { &low } else { pool };
            Sm::AsLower(Box::new(gen_sm(s, p, depth - 1)))
        }
    }
}

/// Mostly a few, now and then many.
fn few(s: &mut Src) -> usize {
    if s.pct(3) {
        s.range(5, 40)
    } else {
        s.below(4)
    }
}

/// Mostly one of `b`, in so many percent of the cases one of `a`.
fn mixed(s: &mut Src, pct: usize, a: &[String], b: &[String]) -> String {
    let pool = if s.pct(pct) { a } else { b };
    s.pick(pool).clone()
}

pub fn gen_pred(s: &mut Src, v: &Vocab, depth: usize) -> Pred {
    let c = if depth > 0 { 12 } else { 0 };
    match s.weighted(&[15, 20, 8, 12, 8, 10, 20, c, c, c]) {
        0 => Pred::True,
        1 => Pred::Account(gen_sm(s, &v.accounts, 1)),
        2 => Pred::FlagTag(gen_sm(s, &v.tags, 1)),
        // Now and then a name of the other kind of tags.
        3 => Pred::HasFlag(mixed(s, 8, &v.keys, &v.tags)),
        4 => Pred::HasValue(mixed(s, 8, &v.tags, &v.keys)),
        5 => {
            let k = s.pick(&v.keys).clone();
            Pred::ValueTag(k, gen_sm(s, &v.values, 1))
        }
        6 => Pred::Desc(gen_sm(s, &v.descs, 1)),
        7 => {
            let n = few(s);
            Pred::All((0..n).map(|_| gen_pred(s, v, depth - 1)).collect())
        }
        8 => {
            let n = few(s);
            Pred::Any((0..n).map(|_| gen_pred(s, v, depth - 1)).collect())
        }
        _ => Pred::Not(Box::new(gen_pred(s, v, depth - 1))),
    }
}

fn replacement(s: &mut Src, r: &Regex) -> String {
    let n = s.range(1, 3);
    let mut v = vec![];
    for _ in 0..n {
        v.push(match s.below(9) {
            0 => s.pick_s(&["new", "Réf", "7"]),
            1 => format!("${{{}}}", s.below(r.ngroups + 2)),
            2 => format!("${}", s.below(r.ngroups + 2)),
            3 => "$$".to_string(),
            4 => format!("<${{{}}}>", s.pick_s(&["n", "who", "a_1", "missing"])),
            5 => "$0".to_string(),
            6 => "${0}".to_string(),
            7 => format!("$1{}", s.pick_s(&["a", "_", "-"])),
            _ => s.pick_s(&["a $ b", "$", "100$"]),
        });
    }
    let sep = s.pick_s(&[" ", "", "-", "  "]);
    // Like a status or a code.
    let mark = if s.pct(8) { s.pick_s(&["(12) ", "(", "* ", "! ", "*", "!", "() ", "(a b)", "= ", "(x", "[", "~ "]) } else { String::new() };
    mark + &v.join(&sep)
}

pub fn gen_act(s: &mut Src, v: &Vocab, jumps: &[String], depth: usize) -> Act {
    let j = if jumps.is_empty() { 0 } else { 16 };
    match s.weighted(&[14, 12, 8, 8, if depth > 0 { 10 } else { 0 }, 1, 4, j, 12, 8, 6, 6, 4, 14]) {
        0 => Act::PFlag(mixed(s, 8, &v.keys, &v.tags)),
        1 => Act::PValue(s.pick(&v.keys).clone(), s.pick(&v.values).clone()),
        2 => Act::TFlag(mixed(s, 8, &v.keys, &v.tags)),
        3 => Act::TValue(s.pick(&v.keys).clone(), s.pick(&v.values).clone()),
        4 => {
            if s.pct(2) {
                // Very many, mostly alike.
                let n = s.range(60, 140);
                let a = gen_act(s, v, &[], 0);
                let mut l = vec![a; n];
                for _ in 0..s.range(1, 3) {
                    l.push(gen_act(s, v, jumps, depth - 1));
                }
                return Act::All(l);
            }
            let n = few(s);
            Act::All((0..n).map(|_| gen_act(s, v, jumps, depth - 1)).collect())
        }
        5 => Act::Error(if s.pct(60) { s.pick_s(&["oops", "bad \"thing\"", "", "{}", "%s\n"]) } else { crate::stmt::long(s) }),
        6 => Act::Noop,
        7 => Act::Jump(s.pick(jumps).clone()),
        8 => Act::Account(s.pick(&v.accounts).clone()),
        9 => Act::RmPFlag(mixed(s, 12, &v.keys, &v.tags)),
        10 => Act::RmPValue(mixed(s, 15, &v.tags, &v.keys)),
        11 => Act::RmTFlag(mixed(s, 12, &v.keys, &v.tags)),
        12 => Act::RmTValue(mixed(s, 15, &v.tags, &v.keys)),
        _ => {
            let r = regexm::gen(s, &v.descs);
            // Rarely a text the journal has not.
            let w = replacement(s, &r);
            Act::Desc(r, w)
        }
    }
}

pub fn gen_rules(s: &mut Src, v: &Vocab, jumps: &[String], max: usize) -> Vec<Rule> {
    let n = if s.pct(3) { s.range(10, 60) } else { s.range(1, max) };
    let depth = if s.pct(4) { 5 } else { 2 };
    (0..n).map(|_| Rule { pred: gen_pred(s, v, depth), act: gen_act(s, v, jumps, depth.min(3)), ret: s.pct(25) }).collect()
}

pub const CHAIN_NAMES: &[&str] = &["start", "second", "chain three", "Start", "é", "x"];

/// A table whose chains only jump to later ones, now and then backwards behind
/// a guard that ends the loop.
pub fn gen_chains(s: &mut Src, v: &Vocab) -> Chains {
    let mut names: Vec<String> = CHAIN_NAMES.iter().map(|x| x.to_string()).collect();
    let n = if s.pct(3) {
        for i in 0..10 {
            names.push(format!("{}{}", gen::word(s), i));
        }
        s.range(5, names.len())
    } else {
        s.range(1, 4)
    };
    names.truncate(n);
    let mut c = Chains::new();
    for i in 0..n {
        let mut rules = gen_rules(s, v, &names[i + 1..], if i == 0 { 7 } else { 5 });
        if i + 1 < n && s.pct(60) {
            let to = s.pick(&names[i + 1..]).clone();
            let at = s.below(rules.len() + 1);
            rules.insert(at, Rule { pred: gen_pred(s, v, 1), act: Act::Jump(to), ret: s.pct(30) });
        }
        if s.pct(10) {
            // Loops until a tag is there.
            let tag = s.pick(&v.tags).clone();
            let to = s.pick(&names[..=i]).clone();
            let at = s.below(rules.len() + 1);
            rules.insert(
                at,
                Rule {
                    pred: Pred::Not(Box::new(Pred::HasFlag(tag.clone()))),
                    act: Act::All(vec![Act::PFlag(tag), Act::Jump(to)]),
                    ret: s.pct(50),
                },
            );
        }
        c.insert(names[i].clone(), rules);
    }
    c
}

/// One file holding the whole table.
pub fn render_chains(c: &Chains, s: &mut Src) -> String {
    let mut e: Vec<String> = c.iter().map(|(n, r)| r_chain(n, r, s)).collect();
    if s.pct(60) {
        s.shuffle(&mut e);
    }
    r_file(&e, s)
}

/// Is the transaction written such that it reads as intended? (Rules can make
/// descriptions that no journal can hold.)
pub fn writable(t: &Trn) -> bool {
    let d = &t.desc;
    !d.is_empty() && d.trim_matches([' ', '\t']) == d && !d.contains(['\n', '\t', '\r']) && !(d.contains("  ") && d.contains(';')) && !d.starts_with(['(', '*', '!', ';', '='])
}

/// Everything the rules could do, for the projection check.
#[derive(Default, Debug)]
pub struct Effects {
    pub accounts: Vec<String>,
    pub desc: bool,
    pub pflags: Vec<String>,
    pub tflags: Vec<String>,
    pub pkeys: Vec<String>,
    pub tkeys: Vec<String>,
}

pub fn effects(c: &Chains) -> Effects {
    fn go(a: &Act, e: &mut Effects) {
        match a {
            Act::PFlag(x) | Act::RmPFlag(x) => e.pflags.push(x.clone()),
            Act::TFlag(x) | Act::RmTFlag(x) => e.tflags.push(x.clone()),
            Act::PValue(x, _) | Act::RmPValue(x) => e.pkeys.push(x.clone()),
            Act::TValue(x, _) | Act::RmTValue(x) => e.tkeys.push(x.clone()),
            Act::Account(x) => e.accounts.push(x.clone()),
            Act::Desc(..) => e.desc = true,
            Act::All(v) => v.iter().for_each(|a| go(a, e)),
            _ => {}
        }
    }
    let mut e = Effects::default();
    c.values().flatten().for_each(|r| go(&r.act, &mut e));
    e
}
