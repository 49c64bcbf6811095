//! A small regular expression dialect: generated as a tree, printed in the
//! syntax of the regex crate, and matched by a backtracking matcher with
//! leftmost-first (Perl-like) preference.

use crate::prop::Src;

#[derive(Clone, Debug)]
pub enum Re {
    Lit(char),
    Any,
    /// Ranges, negated.
    Class(Vec<(char, char)>, bool),
    Digit(bool),
    Space,
    Start,
    End,
    Seq(Vec<Re>),
    Alt(Vec<Re>),
    /// Numbered from 1; optional name; None index = non-capturing.
    Group(Option<usize>, Option<String>, Box<Re>),
    /// min, max, lazy
    Rep(Box<Re>, usize, usize, bool),
}

#[derive(Clone, Debug)]
pub struct Regex {
    pub re: Re,
    pub icase: bool,
    pub ngroups: usize,
    /// Style choices of the printed form.
    pub text: String,
    pub names: Vec<(String, usize)>,
}

thread_local! {
    static STEPS: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}
const MAX_STEPS: u64 = 300_000;
/// Forgets earlier matching effort.
pub fn reset_steps() {
    STEPS.with(|s| s.set(0));
    MISREAD.with(|s| s.set(false));
}
/// Did matching give up (results are then meaningless)?
pub fn gave_up() -> bool {
    STEPS.with(|s| s.get() > MAX_STEPS)
}

thread_local! {
    static MISREAD: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}
/// Did a replacement need a match that the regex crate accountmerge is locked
/// to does not find? (Version 1.12.3 misses the leftmost match of some
/// patterns, such as `op|s.*p$` in "shop shop".) Reset by reset_steps().
pub fn misread() -> bool {
    MISREAD.with(|s| s.get())
}

pub type Caps = Vec<Option<(usize, usize)>>;

/// Simple case folding, near enough.
fn lower(c: char) -> char {
    if c == '\u{17f}' {
        return 's';
    }
    let mut l = c.to_lowercase();
    let a = l.next().unwrap();
    if l.next().is_some() {
        c
    } else {
        a
    }
}

/// 'ß' has no simple upper case.
fn upper(c: char) -> char {
    if lower(c) == 's' {
        return 'S';
    }
    let mut u = c.to_uppercase();
    let a = u.next().unwrap();
    if u.next().is_some() {
        c
    } else {
        a
    }
}

type K<'a> = &'a mut dyn FnMut(usize, &mut Caps) -> bool;

fn m(re: &Re, ic: bool, t: &[char], i: usize, caps: &mut Caps, k: K) -> bool {
    if STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get() > MAX_STEPS
    }) {
        return false;
    }
    let eq = |a: char, b: char| a == b || (ic && lower(a) == lower(b));
    match re {
        Re::Lit(c) => i < t.len() && eq(t[i], *c) && k(i + 1, caps),
        Re::Any => i < t.len() && t[i] != '\n' && k(i + 1, caps),
        Re::Class(r, neg) => {
            if i >= t.len() {
                return false;
            }
            let up = upper(t[i]);
            let hit = r.iter().any(|(a, b)| (*a <= t[i] && t[i] <= *b) || (ic && ((*a <= lower(t[i]) && lower(t[i]) <= *b) || (*a <= up && up <= *b) || (up == 'S' && *a <= '\u{17f}' && '\u{17f}' <= *b))));
            hit != *neg && k(i + 1, caps)
        }
        Re::Digit(neg) => i < t.len() && t[i].is_ascii_digit() != *neg && k(i + 1, caps),
        Re::Space => i < t.len() && t[i].is_whitespace() && k(i + 1, caps),
        Re::Start => i == 0 && k(i, caps),
        Re::End => i == t.len() && k(i, caps),
        Re::Seq(v) => seq(v, ic, t, i, caps, k),
        Re::Alt(v) => v.iter().any(|r| m(r, ic, t, i, caps, k)),
        Re::Group(n, _, r) => match n {
            None => m(r, ic, t, i, caps, k),
            Some(n) => {
                let save = caps[*n];
                let ok = m(r, ic, t, i, caps, &mut |j, caps| {
                    let s2 = caps[*n];
                    caps[*n] = Some((i, j));
                    if k(j, caps) {
                        true
                    } else {
                        caps[*n] = s2;
                        false
                    }
                });
                if !ok {
                    caps[*n] = save;
                }
                ok
            }
        },
        Re::Rep(r, min, max, lazy) => rep(r, *min, *max, *lazy, ic, t, i, caps, k),
    }
}

fn seq(v: &[Re], ic: bool, t: &[char], i: usize, caps: &mut Caps, k: K) -> bool {
    match v.split_first() {
        None => k(i, caps),
        Some((a, rest)) => m(a, ic, t, i, caps, &mut |j, caps| seq(rest, ic, t, j, caps, k)),
    }
}

#[allow(clippy::too_many_arguments)]
fn rep(r: &Re, min: usize, max: usize, lazy: bool, ic: bool, t: &[char], i: usize, caps: &mut Caps, k: K) -> bool {
    if min > 0 {
        return m(r, ic, t, i, caps, &mut |j, caps| rep(r, min - 1, max - 1, lazy, ic, t, j, caps, k));
    }
    if lazy && k(i, caps) {
        return true;
    }
    // The operand never matches the empty string.
    if max > 0 && m(r, ic, t, i, caps, &mut |j, caps| rep(r, 0, max - 1, lazy, ic, t, j, caps, k)) {
        return true;
    }
    !lazy && k(i, caps)
}

impl Regex {
    /// Leftmost match; capture 0 is the whole match (char indices).
    pub fn find(&self, s: &str) -> Option<(Vec<char>, Caps)> {
        let t: Vec<char> = s.chars().collect();
        for i in 0..=t.len() {
            let mut caps: Caps = vec![None; self.ngroups + 1];
            let mut end = None;
            let mut kept: Caps = vec![];
            if m(&self.re, self.icase, &t, i, &mut caps, &mut |j, caps| {
                end = Some(j);
                kept = caps.clone();
                true
            }) {
                kept[0] = Some((i, end.unwrap()));
                return Some((t, kept));
            }
        }
        None
    }
    pub fn is_match(&self, s: &str) -> bool {
        self.find(s).is_some()
    }
    /// Replaces the first match.
    pub fn replace(&self, s: &str, with: &str) -> String {
        let Some((t, caps)) = self.find(s) else { return s.to_string() };
        let get = |r: Option<(usize, usize)>| r.map(|(a, b)| t[a..b].iter().collect::<String>()).unwrap_or_default();
        let (a, b) = caps[0].unwrap();
        if !gave_up() {
            let at = |i: usize| t[..i].iter().map(|c| c.len_utf8()).sum::<usize>();
            let mine: Vec<_> = caps.iter().map(|c| c.map(|(a, b)| (at(a), at(b)))).collect();
            let real = regex::Regex::new(&self.text).ok().and_then(|r| r.captures(s).map(|c| c.iter().map(|m| m.map(|m| (m.start(), m.end()))).collect::<Vec<_>>()));
            if real != Some(mine) {
                MISREAD.with(|s| s.set(true));
            }
        }
        let mut out: String = t[..a].iter().collect();
        let w: Vec<char> = with.chars().collect();
        let mut i = 0;
        let by_name = |n: &str| -> String {
            if let Ok(k) = n.parse::<usize>() {
                return get(caps.get(k).copied().flatten());
            }
            match self.names.iter().find(|x| x.0 == n) {
                Some((_, k)) => get(caps[*k]),
                None => String::new(),
            }
        };
        while i < w.len() {
            if w[i] == '$' && i + 1 < w.len() {
                if w[i + 1] == '$' {
                    out.push('$');
                    i += 2;
                    continue;
                }
                if w[i + 1] == '{' {
                    if let Some(e) = w[i + 2..].iter().position(|c| *c == '}') {
                        let n: String = w[i + 2..i + 2 + e].iter().collect();
                        out.push_str(&by_name(&n));
                        i += 3 + e;
                        continue;
                    }
                }
                let e = w[i + 1..].iter().take_while(|c| c.is_ascii_alphanumeric() || **c == '_').count();
                if e > 0 {
                    let n: String = w[i + 1..i + 1 + e].iter().collect();
                    out.push_str(&by_name(&n));
                    i += 1 + e;
                    continue;
                }
            }
            out.push(w[i]);
            i += 1;
        }
        out.extend(&t[b..]);
        out
    }
}

fn esc(c: char, out: &mut String) {
    if "\\.+*?()|[]{}^$#&-~".contains(c) {
        out.push('\\');
    }
    out.push(c);
}

fn print(re: &Re, s: &mut Src, out: &mut String) {
    match re {
        Re::Lit(c) => esc(*c, out),
        Re::Any => out.push('.'),
        Re::Class(r, neg) => {
            out.push('[');
            if *neg {
                out.push('^');
            }
            for (a, b) in r {
                esc(*a, out);
                if a != b {
                    out.push('-');
                    esc(*b, out);
                }
            }
            out.push(']');
        }
        Re::Digit(neg) => out.push_str(if *neg {
            "\\D"
        } else if s.pct(30) {
            "[0-9]"
        } else {
            "\\d"
        }),
        Re::Space => out.push_str("\\s"),
        Re::Start => out.push('^'),
        Re::End => out.push('$'),
        Re::Seq(v) => v.iter().for_each(|r| print(r, s, out)),
        Re::Alt(v) => {
            for (i, r) in v.iter().enumerate() {
                if i > 0 {
                    out.push('|');
                }
                print(r, s, out);
            }
        }
        Re::Group(n, name, r) => {
            match (n, name) {
                (None, _) => out.push_str("(?:"),
                (Some(_), Some(name)) => out.push_str(&format!("(?P<{}>", name)),
                _ => out.push('('),
            }
            print(r, s, out);
            out.push(')');
        }
        Re::Rep(r, min, max, lazy) => {
            print(r, s, out);
            match (*min, *max) {
                (0, 1) => out.push('?'),
                (0, usize::MAX) => out.push('*'),
                (1, usize::MAX) => out.push('+'),
                (a, usize::MAX) => out.push_str(&format!("{{{},}}", a)),
                (a, b) if a == b => out.push_str(&format!("{{{}}}", a)),
                (a, b) => out.push_str(&format!("{{{},{}}}", a, b)),
            }
            if *lazy {
                out.push('?');
            }
        }
    }
}

struct G<'a> {
    s: &'a mut Src,
    n: usize,
    names: Vec<(String, usize)>,
    texts: &'a [String],
}

impl G<'_> {
    /// Something from one of the texts, so that matches happen.
    fn lit_run(&mut self) -> Vec<Re> {
        let t = self.s.pick(self.texts).clone();
        let c: Vec<char> = t.chars().collect();
        if c.is_empty() {
            return vec![Re::Lit('a')];
        }
        let a = self.s.below(c.len());
        let n = self.s.range(1, 5).min(c.len() - a);
        c[a..a + n].iter().map(|c| Re::Lit(*c)).collect()
    }
    /// One-or-more-character atom, never matching the empty string.
    fn atom(&mut self, depth: usize) -> Re {
        match self.s.weighted(&[30, 15, 12, 10, 5, if depth > 0 { 25 } else { 0 }]) {
            0 => self.lit_run().remove(0),
            1 => Re::Any,
            2 => {
                let sets: &[&[(char, char)]] = &[&[('a', 'z')], &[('A', 'Z'), ('a', 'z')], &[(' ', ' ')], &[('0', '9'), ('.', '.')], &[('o', 'p'), ('é', 'é')], &[('-', '-'), (']', ']'), ('^', '^')], &[(':', ':')]];
                let c = self.s.pick(sets).to_vec();
                Re::Class(c, self.s.pct(25))
            }
            3 => Re::Digit(self.s.pct(20)),
            4 => Re::Space,
            _ => {
                let r = if self.s.pct(40) {
                    let n = self.s.range(2, 3);
                    Re::Alt((0..n).map(|_| self.nonempty(depth - 1)).collect())
                } else {
                    self.nonempty(depth - 1)
                };
                self.group(r)
            }
        }
    }
    fn group(&mut self, r: Re) -> Re {
        // Groups are numbered in the order of their opening brackets; number
        // them afterwards.
        if self.s.pct(75) {
            let name = if self.s.pct(25) { Some(self.s.pick_s(&["n", "who", "a_1"])) } else { None };
            Re::Group(Some(0), name, Box::new(r))
        } else {
            Re::Group(None, None, Box::new(r))
        }
    }
    fn nonempty(&mut self, depth: usize) -> Re {
        let n = self.s.range(1, 3);
        let mut v = vec![];
        for i in 0..n {
            // The first element is mandatory.
            let a = if self.s.pct(40) {
                let mut run = self.lit_run();
                if i > 0 && self.s.pct(20) && run.len() == 1 {
                    Re::Rep(Box::new(run.remove(0)), 0, 1, false)
                } else {
                    Re::Seq(run)
                }
            } else {
                let a = self.atom(depth);
                let lazy = self.s.pct(25);
                match self.s.weighted(&[45, 20, 15, 10, 10]) {
                    0 => a,
                    1 => Re::Rep(Box::new(a), 1, usize::MAX, lazy),
                    2 => {
                        let min = if i == 0 { 1 } else { 0 };
                        Re::Rep(Box::new(a), min, usize::MAX, lazy)
                    }
                    3 => {
                        if i == 0 {
                            a
                        } else {
                            Re::Rep(Box::new(a), 0, 1, lazy)
                        }
                    }
                    _ => {
                        let lo = self.s.range(1, 2);
                        let hi = self.s.range(lo, 3);
                        Re::Rep(Box::new(a), lo, hi, lazy)
                    }
                }
            };
            v.push(a);
        }
        Re::Seq(v)
    }
    /// A generalisation of a piece of one of the texts, which it matches.
    fn from_text(&mut self) -> Re {
        let t = self.s.pick(self.texts).clone();
        let c: Vec<char> = t.chars().collect();
        if c.is_empty() {
            return Re::Lit('a');
        }
        let a = if self.s.pct(50) { 0 } else { self.s.below(c.len()) };
        let mut i = a;
        let mut v: Vec<Re> = vec![];
        let n = self.s.range(1, 5);
        for _ in 0..n {
            if i >= c.len() {
                break;
            }
            let k = self.s.range(1, 4).min(c.len() - i);
            let run = &c[i..i + k];
            let lits = || Re::Seq(run.iter().map(|c| Re::Lit(*c)).collect());
            let lazy = self.s.pct(30);
            let mut r = match self.s.below(9) {
                0 | 1 => lits(),
                2 => Re::Rep(Box::new(Re::Any), 1, usize::MAX, lazy),
                3 => Re::Rep(Box::new(Re::Any), k, k, false),
                4 => Re::Rep(Box::new(Re::Class(vec![('a', 'z'), ('A', 'Z'), ('0', '9')], false)), 0, usize::MAX, lazy),
                5 => {
                    let mut alts = vec![lits(), Re::Seq(self.lit_run())];
                    if self.s.pct(50) {
                        alts.reverse();
                    }
                    // Shorter alternative first: preference matters.
                    if self.s.pct(50) {
                        alts.insert(0, Re::Lit(run[0]));
                    }
                    Re::Group(None, None, Box::new(Re::Alt(alts)))
                }
                6 => Re::Seq(vec![lits(), Re::Rep(Box::new(Re::Lit('x')), 0, 1, lazy)]),
                7 => Re::Rep(Box::new(Re::Class(vec![(' ', ' '), (':', ':')], true)), 1, usize::MAX, lazy),
                _ => {
                    if run.iter().all(|c| c.is_ascii_digit()) {
                        Re::Rep(Box::new(Re::Digit(false)), 1, usize::MAX, lazy)
                    } else {
                        lits()
                    }
                }
            };
            i += k;
            if self.s.pct(45) {
                r = self.group(r);
            }
            v.push(r);
        }
        Re::Seq(v)
    }
    fn number(&mut self, r: &mut Re) {
        match r {
            Re::Seq(v) | Re::Alt(v) => v.iter_mut().for_each(|r| self.number(r)),
            Re::Group(n, name, r) => {
                if n.is_some() {
                    self.n += 1;
                    *n = Some(self.n);
                    if let Some(x) = name.clone() {
                        if self.names.iter().any(|y| y.0 == x) {
                            *name = None;
                        } else {
                            self.names.push((x, self.n));
                        }
                    }
                }
                self.number(r);
            }
            Re::Rep(r, ..) => self.number(r),
            _ => {}
        }
    }
}

pub fn gen(s: &mut Src, texts: &[String]) -> Regex {
    let mut g = G { s, n: 0, names: vec![], texts };
    let mut re = match g.s.weighted(&[70, 20, 10, 5]) {
        0 => g.from_text(),
        1 => g.nonempty(2),
        2 => Re::Alt(vec![g.nonempty(1), g.nonempty(1)]),
        _ => {
            // May match the empty string.
            let a = g.atom(1);
            Re::Rep(Box::new(a), 0, usize::MAX, false)
        }
    };
    let (a, z) = (g.s.pct(25), g.s.pct(25));
    if a || z {
        if matches!(re, Re::Alt(_)) && g.s.pct(50) {
            re = Re::Group(None, None, Box::new(re));
        }
        // An anchor beside an alternation binds to its branch only.
        re = match re {
            Re::Alt(mut v) => {
                if a {
                    v[0] = Re::Seq(vec![Re::Start, v[0].clone()]);
                }
                if z {
                    let l = v.len() - 1;
                    v[l] = Re::Seq(vec![v[l].clone(), Re::End]);
                }
                Re::Alt(v)
            }
            r => {
                let mut v = vec![];
                if a {
                    v.push(Re::Start);
                }
                v.push(r);
                if z {
                    v.push(Re::End);
                }
                Re::Seq(v)
            }
        };
    }
    g.number(&mut re);
    let (n, names) = (g.n, g.names);
    let icase = s.pct(12);
    let mut text = String::new();
    if icase {
        text.push_str("(?i)");
    }
    print(&re, s, &mut text);
    Regex { re, icase, ngroups: n, text, names }
}

/// Compares this matcher with the regex crate on n generated pairs; prints the
/// differences.
pub fn self_test(seed: u64, n: u64) -> i32 {
    let alpha: Vec<char> = "aabboopsSxXkK  0127.:-\u{df}\u{df}\u{e9}\u{c9}\u{416}\u{436}\u{20ac}\u{672c}\u{17f}\u{212a}\u{e4}\u{f1}".chars().collect();
    let mut bad = 0;
    for c in 0..n {
        let mut s = Src::random(seed.wrapping_mul(1_000_003).wrapping_add(c));
        let texts: Vec<String> = (0..4)
            .map(|_| {
                let k = s.range(0, 14);
                (0..k).map(|_| *s.pick(&alpha)).collect()
            })
            .collect();
        let r = gen(&mut s, &texts);
        let Ok(real) = regex::Regex::new(&r.text) else {
            println!("does not compile: {}", r.text);
            bad += 1;
            continue;
        };
        for t in &texts {
            reset_steps();
            let mine = r.find(t).map(|(ch, caps)| {
                let at = |i: usize| ch[..i].iter().map(|c| c.len_utf8()).sum::<usize>();
                caps.iter().map(|c| c.map(|(a, b)| (at(a), at(b)))).collect::<Vec<_>>()
            });
            if gave_up() {
                continue;
            }
            let theirs = real.captures(t).map(|c| c.iter().map(|m| m.map(|m| (m.start(), m.end()))).collect::<Vec<_>>());
            if mine.is_some() != real.is_match(t) || mine != theirs {
                bad += 1;
                if bad < 40 {
                    println!("{:?} in {:?}: {:?}, the crate says {:?} ({})", r.text, t, mine, theirs, real.is_match(t));
                }
            }
        }
    }
    println!("{} differences in {} expressions", bad, n);
    0
}
