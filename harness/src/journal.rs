//! Data model of a Ledger journal, an independent reader, and a renderer that
//! writes the same journal in many layouts.

use crate::comment::Cm;
use crate::prop::Src;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Date {
    pub y: i32,
    pub m: u32,
    pub d: u32,
}

impl Date {
    pub fn new(y: i32, m: u32, d: u32) -> Date {
        Date { y, m, d }
    }
    pub fn iso(&self) -> String {
        format!("{:04}-{:02}-{:02}", self.y, self.m, self.d)
    }
    /// Days since 1970-01-01.
    pub fn days(&self) -> i64 {
        let y = if self.m <= 2 { self.y as i64 - 1 } else { self.y as i64 };
        let era = y.div_euclid(400);
        let yoe = y - era * 400;
        let mp = (self.m as i64 + 9) % 12;
        let doy = (153 * mp + 2) / 5 + self.d as i64 - 1;
        let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
        era * 146097 + doe - 719468
    }
    pub fn from_days(z: i64) -> Date {
        let z = z + 719468;
        let era = z.div_euclid(146097);
        let doe = z.rem_euclid(146097);
        let yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
        let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
        let mp = (5 * doy + 2) / 153;
        let d = (doy - (153 * mp + 2) / 5 + 1) as u32;
        let m = if mp < 10 { mp + 3 } else { mp - 9 } as u32;
        let y = yoe + era * 400 + if m <= 2 { 1 } else { 0 };
        Date { y: y as i32, m, d }
    }
    pub fn valid(&self) -> bool {
        self.m >= 1 && self.m <= 12 && self.d >= 1 && Date::from_days(self.days()) == *self
    }
    /// 0 = Sunday.
    pub fn weekday(&self) -> i64 {
        (self.days() + 4).rem_euclid(7)
    }
}

/// Exact decimal number, normalised (no trailing zeroes after the point).
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Num {
    pub m: i128,
    pub scale: u32,
}

impl Num {
    pub fn new(m: i128, scale: u32) -> Num {
        let mut n = Num { m, scale };
        while n.scale > 0 && n.m % 10 == 0 {
            n.m /= 10;
            n.scale -= 1;
        }
        if n.m == 0 {
            n.scale = 0;
        }
        n
    }
    pub fn parse(s: &str) -> Option<Num> {
        let (neg, t) = match s.strip_prefix('-') {
            Some(t) => (true, t),
            None => (false, s),
        };
        let t = t.replace(',', "");
        let (a, b) = match t.split_once('.') {
            Some((a, b)) => (a, b),
            None => (t.as_str(), ""),
        };
        if a.is_empty() && b.is_empty() || !a.chars().chain(b.chars()).all(|c| c.is_ascii_digit()) || a.len() + b.len() > 37 {
            return None;
        }
        let m: i128 = format!("{}{}", a, b).parse().ok()?;
        Some(Num::new(if neg { -m } else { m }, b.len() as u32))
    }
    pub fn neg(self) -> Num {
        Num { m: -self.m, scale: self.scale }
    }
    /// Text with at least `min` decimals.
    pub fn text(&self, min: u32) -> String {
        let (mut m, mut sc) = (self.m.unsigned_abs(), self.scale);
        while sc < min {
            m *= 10;
            sc += 1;
        }
        let mut s = m.to_string();
        if sc > 0 {
            while s.len() <= sc as usize {
                s.insert(0, '0');
            }
            s.insert(s.len() - sc as usize, '.');
        }
        if self.m < 0 {
            s.insert(0, '-');
        }
        s
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Amt {
    pub num: Num,
    pub com: String,
    pub left: bool,
}
impl Amt {
    pub fn new(num: Num, com: &str, left: bool) -> Amt {
        Amt { num, com: com.to_string(), left }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Price {
    pub total: bool,
    pub amt: Amt,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct PAmt {
    pub amt: Amt,
    pub lot: Option<Price>,
    pub price: Option<Price>,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Bal {
    Zero,
    Amt(Amt),
}

/// A posting with its comment read as metadata.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Post {
    pub status: Option<char>,
    pub account: String,
    /// ' ' real, '[' balanced virtual, '(' unbalanced virtual.
    pub reality: char,
    pub amount: Option<PAmt>,
    pub balance: Option<Bal>,
    pub cm: Cm,
    /// Raw comment lines, when read from or meant for a file as such.
    pub raw: Vec<String>,
}
impl Post {
    pub fn new(account: &str) -> Post {
        Post { status: None, account: account.to_string(), reality: ' ', amount: None, balance: None, cm: Cm::default(), raw: vec![] }
    }
    pub fn fps(&self) -> Vec<String> {
        self.cm.tags.iter().filter(|t| t.starts_with("fp-")).cloned().collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Trn {
    pub date: Date,
    pub edate: Option<Date>,
    pub status: Option<char>,
    pub code: Option<String>,
    pub desc: String,
    pub cm: Cm,
    pub raw: Vec<String>,
    pub posts: Vec<Post>,
}
impl Trn {
    pub fn new(date: Date, desc: &str) -> Trn {
        Trn { date, edate: None, status: None, code: None, desc: desc.to_string(), cm: Cm::default(), raw: vec![], posts: vec![] }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Item {
    Empty,
    Comment(String),
    Trn(Trn),
    Price { when: String, com: String, amt: Amt },
    Include(String),
}

pub fn trns(items: &[Item]) -> Vec<Trn> {
    items.iter().filter_map(|i| if let Item::Trn(t) = i { Some(t.clone()) } else { None }).collect()
}

// ------------------------------------------------------------------ reader

pub fn parse_date(s: &str) -> Option<Date> {
    let b = s.as_bytes();
    if b.len() != 10 || !s.is_ascii() || b"-/.".iter().all(|c| *c != b[4]) || b"-/.".iter().all(|c| *c != b[7]) {
        return None;
    }
    let num = |t: &str| if t.bytes().all(|c| c.is_ascii_digit()) { t.parse::<u32>().ok() } else { None };
    let d = Date { y: num(&s[0..4])? as i32, m: num(&s[5..7])?, d: num(&s[8..10])? };
    if d.valid() {
        Some(d)
    } else {
        None
    }
}

struct Cur<'a> {
    s: &'a str,
}
impl<'a> Cur<'a> {
    fn ws(&mut self) {
        self.s = self.s.trim_start_matches([' ', '\t']);
    }
    fn eat(&mut self, t: &str) -> bool {
        if let Some(r) = self.s.strip_prefix(t) {
            self.s = r;
            true
        } else {
            false
        }
    }
    fn number(&mut self) -> Option<Num> {
        let end = self.s.char_indices().find(|(i, c)| !(c.is_ascii_digit() || *c == '.' || *c == ',' || (*i == 0 && *c == '-'))).map(|x| x.0).unwrap_or(self.s.len());
        let n = Num::parse(&self.s[..end])?;
        self.s = &self.s[end..];
        Some(n)
    }
    fn commodity(&mut self) -> Option<String> {
        if self.s.starts_with('"') {
            let mut out = String::new();
            let mut it = self.s.char_indices().skip(1);
            while let Some((i, c)) = it.next() {
                match c {
                    '"' => {
                        self.s = &self.s[i + 1..];
                        return Some(out);
                    }
                    '\\' => out.push(it.next()?.1),
                    c => out.push(c),
                }
            }
            return None;
        }
        let end = self.s.find(|c: char| "0123456789{}[]()~`!@#%^&*-=+\\'\",./? ;\t\r\n".contains(c)).unwrap_or(self.s.len());
        if end == 0 {
            return None;
        }
        let c = self.s[..end].to_string();
        self.s = &self.s[end..];
        Some(c)
    }
    fn amount(&mut self) -> Option<Amt> {
        let save = self.s;
        // Quantity first?
        if let Some(num) = self.number() {
            self.ws();
            if let Some(com) = self.commodity() {
                return Some(Amt { num, com, left: false });
            }
        }
        self.s = save;
        let neg = self.eat("-");
        self.ws();
        if let Some(com) = self.commodity() {
            self.ws();
            if let Some(num) = self.number() {
                return Some(Amt { num: if neg { num.neg() } else { num }, com, left: true });
            }
        }
        self.s = save;
        None
    }
}

fn comment_line(line: &str) -> Option<&str> {
    let t = line.trim_start_matches([' ', '\t']);
    let mut c = t.chars();
    match c.next() {
        Some(';' | '#' | '%' | '|' | '*') => Some(c.as_str().trim_start_matches([' ', '\t']).trim_end()),
        _ => None,
    }
}

/// Position of a hard separator (tab or two spaces).
fn hard_sep(s: &str) -> Option<usize> {
    match (s.find('\t'), s.find("  ")) {
        (Some(a), Some(b)) => Some(a.min(b)),
        (a, b) => a.or(b),
    }
}

fn read_post(line: &str) -> Result<Post, String> {
    let mut c = Cur { s: line.trim_start_matches([' ', '\t']) };
    let mut p = Post::new("");
    if c.eat("*") {
        p.status = Some('*');
    } else if c.eat("!") {
        p.status = Some('!');
    }
    c.ws();
    let end = hard_sep(c.s).unwrap_or(c.s.len());
    let name = c.s[..end].trim_end_matches([' ', '\t']);
    c.s = &c.s[end..];
    let strip = |a: char, b: char| name.strip_prefix(a).and_then(|n| n.strip_suffix(b));
    if let Some(n) = strip('[', ']') {
        p.reality = '[';
        p.account = n.to_string();
    } else if let Some(n) = strip('(', ')') {
        p.reality = '(';
        p.account = n.to_string();
    } else {
        p.account = name.to_string();
    }
    if p.account.is_empty() {
        return Err("posting without account".into());
    }
    c.ws();
    if let Some(amt) = c.amount() {
        let mut pa = PAmt { amt, lot: None, price: None };
        c.ws();
        if c.eat("{{") {
            c.ws();
            let amt = c.amount().ok_or("bad lot price")?;
            c.ws();
            if !c.eat("}}") {
                return Err("unclosed lot price".into());
            }
            pa.lot = Some(Price { total: true, amt });
        } else if c.eat("{") {
            c.ws();
            let amt = c.amount().ok_or("bad lot price")?;
            c.ws();
            if !c.eat("}") {
                return Err("unclosed lot price".into());
            }
            pa.lot = Some(Price { total: false, amt });
        }
        c.ws();
        if c.eat("@@") {
            c.ws();
            pa.price = Some(Price { total: true, amt: c.amount().ok_or("bad price")? });
        } else if c.eat("@") {
            c.ws();
            pa.price = Some(Price { total: false, amt: c.amount().ok_or("bad price")? });
        }
        p.amount = Some(pa);
    }
    c.ws();
    if c.eat("=") {
        c.ws();
        p.balance = Some(match c.amount() {
            Some(a) => Bal::Amt(a),
            None if c.eat("0") => Bal::Zero,
            None => return Err(format!("bad balance in {:?}", line)),
        });
    }
    c.ws();
    if c.s.starts_with(';') {
        p.raw.push(comment_line(c.s).unwrap().to_string());
    } else if !c.s.is_empty() {
        return Err(format!("unexpected {:?} in posting {:?}", c.s, line));
    }
    Ok(p)
}

fn read_header(line: &str) -> Result<Trn, String> {
    let date = line.get(..10).and_then(parse_date).ok_or_else(|| format!("bad date in {:?}", line))?;
    let mut t = Trn::new(date, "");
    let mut rest = &line[10..];
    if let Some(r) = rest.strip_prefix('=') {
        t.edate = Some(r.get(..10).and_then(parse_date).ok_or_else(|| format!("bad effective date in {:?}", line))?);
        rest = &r[10..];
    }
    let trimmed = rest.trim_start_matches([' ', '\t']);
    if trimmed.len() == rest.len() && !rest.is_empty() {
        return Err(format!("bad header {:?}", line));
    }
    rest = trimmed;
    for st in ['*', '!'] {
        if let Some(r) = rest.strip_prefix(st) {
            t.status = Some(st);
            rest = r.trim_start_matches([' ', '\t']);
            break;
        }
    }
    if let (true, Some(i)) = (rest.starts_with('('), rest.find(')')) {
        t.code = Some(rest[1..i].to_string());
        rest = rest[i + 1..].trim_start_matches([' ', '\t']);
    }
    // Inline comment: a hard separator followed by whitespace and ';'.
    let mut from = 0;
    while let Some(i) = hard_sep(&rest[from..]) {
        let at = from + i;
        let after = rest[at..].trim_start_matches([' ', '\t']);
        if after.starts_with(';') {
            t.raw.push(comment_line(after).unwrap().to_string());
            rest = &rest[..at];
            break;
        }
        from = rest.len() - after.len();
    }
    t.desc = rest.trim_end_matches([' ', '\t']).to_string();
    Ok(t)
}

/// Reads a journal. Errors name the offending line.
pub fn parse(text: &str) -> Result<Vec<Item>, String> {
    let mut items: Vec<Item> = vec![];
    let mut in_trn = false;
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("output does not end with a newline".into());
    }
    for line in text.lines() {
        let l = line.trim_end_matches([' ', '\t']);
        if l.is_empty() {
            items.push(Item::Empty);
            in_trn = false;
            continue;
        }
        let first = l.chars().next().unwrap();
        let indented = first == ' ' || first == '\t';
        if in_trn && (indented || ";#%|*".contains(first)) {
            let Some(Item::Trn(t)) = items.last_mut() else { unreachable!() };
            let body = l.trim_start_matches([' ', '\t']);
            if ";#%|".contains(body.chars().next().unwrap()) || (!indented && body.starts_with('*')) {
                let c = comment_line(l).unwrap().to_string();
                match t.posts.last_mut() {
                    Some(p) => p.raw.push(c),
                    None => t.raw.push(c),
                }
            } else {
                t.posts.push(read_post(l)?);
            }
            continue;
        }
        in_trn = false;
        if let Some(c) = comment_line(l) {
            items.push(Item::Comment(c.to_string()));
        } else if let Some(r) = l.strip_prefix("P ") {
            let r = r.trim_start();
            let mut parts = r.splitn(2, [' ', '\t']);
            let (d, rest) = (parts.next().unwrap_or(""), parts.next().unwrap_or("").trim_start());
            let date = parse_date(d).ok_or_else(|| format!("bad price line {:?}", l))?;
            let (time, rest) = rest.split_once([' ', '\t']).ok_or_else(|| format!("bad price line {:?}", l))?;
            let mut c = Cur { s: rest };
            c.ws();
            let com = c.commodity().ok_or_else(|| format!("bad price line {:?}", l))?;
            c.ws();
            let amt = c.amount().ok_or_else(|| format!("bad price line {:?}", l))?;
            if !c.s.trim().is_empty() && !c.s.trim_start().starts_with(';') {
                return Err(format!("bad price line {:?}", l));
            }
            items.push(Item::Price { when: format!("{} {}", date.iso(), time), com, amt });
        } else if let Some(r) = l.trim_start().strip_prefix("include") {
            items.push(Item::Include(r.trim().to_string()));
        } else if first.is_ascii_digit() {
            items.push(Item::Trn(read_header(l)?));
            in_trn = true;
        } else {
            return Err(format!("unreadable line {:?}", l));
        }
    }
    for i in &mut items {
        if let Item::Trn(t) = i {
            if t.posts.is_empty() {
                return Err(format!("transaction without postings: {} {}", t.date.iso(), t.desc));
            }
            t.cm = Cm::read(&t.raw);
            for p in &mut t.posts {
                p.cm = Cm::read(&p.raw);
            }
        }
    }
    Ok(items)
}

// ---------------------------------------------------------------- renderer

/// How a journal is written. With a `Src`, the layout varies.
pub struct Layout<'a> {
    pub s: Option<&'a mut Src>,
}

impl<'a> Layout<'a> {
    fn ch(&mut self, opts: &[&'static str]) -> &'static str {
        match &mut self.s {
            // Mostly the plain one.
            Some(s) => {
                if s.pct(45) {
                    opts[s.below(opts.len())]
                } else {
                    opts[0]
                }
            }
            None => opts[0],
        }
    }
    fn pct(&mut self, p: usize) -> bool {
        match &mut self.s {
            Some(s) => s.pct(p),
            None => false,
        }
    }
    fn num(&mut self, n: Num) -> String {
        let mut t = n.text(if n.scale <= 2 { 2 } else { n.scale });
        if n.scale == 0 && self.pct(15) {
            t = n.text(0);
        } else if self.pct(5) {
            t.push('0');
        }
        if self.pct(25) {
            // Thousands separators.
            let neg = t.starts_with('-');
            let body = t.trim_start_matches('-').to_string();
            let (i, f) = match body.split_once('.') {
                Some((i, f)) => (i.to_string(), format!(".{}", f)),
                None => (body, String::new()),
            };
            let mut o = String::new();
            for (k, c) in i.chars().enumerate() {
                if k > 0 && (i.len() - k) % 3 == 0 {
                    o.push(',');
                }
                o.push(c);
            }
            t = format!("{}{}{}", if neg { "-" } else { "" }, o, f);
        }
        t
    }
    fn com(&mut self, c: &str) -> String {
        let needs = c.is_empty() || c.contains(|c| "0123456789{}[]()~`!@#%^&*-=+\\'\",./? ;\t\r\n".contains(c));
        if needs || self.pct(10) {
            format!("\"{}\"", c.replace('"', "\\\""))
        } else {
            c.to_string()
        }
    }
    pub fn amt(&mut self, a: &Amt) -> String {
        let c = self.com(&a.com);
        if a.left {
            if a.num.m < 0 && self.pct(25) {
                let n = self.num(a.num.neg());
                format!("{}{}{}{}", self.ch(&["-", "- "]), c, self.ch(&["", " "]), n)
            } else {
                let n = self.num(a.num);
                format!("{}{}{}", c, self.ch(&["", " ", "  "]), n)
            }
        } else {
            let n = self.num(a.num);
            format!("{}{}{}", n, self.ch(&[" ", "", "  "]), c)
        }
    }
    fn date(&mut self, d: Date) -> String {
        let s = self.ch(&["-", "/", "."]);
        format!("{:04}{}{:02}{}{:02}", d.y, s, d.m, s, d.d)
    }
    fn comments(&mut self, out: &mut String, raw: &[String], eol: &str, inline_ok: bool) {
        let mut it = raw.iter();
        if inline_ok && !raw.is_empty() && self.pct(40) {
            let c = it.next().unwrap();
            out.push_str(self.ch(&["  ; ", " \t; ", "  ;", "    ; "]));
            out.push_str(c);
        }
        out.push_str(self.ch(&["", "", " ", "\t"]));
        out.push_str(eol);
        for c in it {
            out.push_str(self.ch(&["  ", "    ", "\t", " ", ""]));
            out.push_str(self.ch(&["; ", ";", ";  ", "# ", "% ", "| "]));
            out.push_str(c);
            out.push_str(self.ch(&["", "", " "]));
            out.push_str(eol);
        }
    }
    pub fn trn(&mut self, out: &mut String, t: &Trn, eol: &str) {
        out.push_str(&self.date(t.date));
        if let Some(e) = t.edate {
            out.push('=');
            out.push_str(&self.date(e));
        }
        if let Some(st) = t.status {
            out.push_str(self.ch(&[" ", "  ", "\t"]));
            out.push(st);
        }
        if let Some(c) = &t.code {
            out.push_str(self.ch(&[" ", "  "]));
            out.push_str(&format!("({})", c));
        }
        out.push_str(self.ch(&[" ", "  "]));
        out.push_str(&t.desc);
        self.comments(out, &t.raw, eol, true);
        for p in &t.posts {
            out.push_str(self.ch(&["  ", "    ", "\t", " ", " \t "]));
            if let Some(st) = p.status {
                out.push(st);
                out.push_str(self.ch(&[" ", "", "  "]));
            }
            match p.reality {
                '[' => out.push_str(&format!("[{}]", p.account)),
                '(' => out.push_str(&format!("({})", p.account)),
                _ => out.push_str(&p.account),
            }
            if p.amount.is_some() || p.balance.is_some() {
                out.push_str(self.ch(&["  ", "\t", "      ", " \t"]));
            }
            if let Some(a) = &p.amount {
                out.push_str(&self.amt(&a.amt));
                if let Some(l) = &a.lot {
                    let x = self.amt(&l.amt);
                    out.push_str(&if l.total { format!(" {{{{{}}}}}", x) } else { format!(" {{{}}}", x) });
                }
                if let Some(l) = &a.price {
                    let x = self.amt(&l.amt);
                    out.push_str(&format!(" {}{}{}", if l.total { "@@" } else { "@" }, self.ch(&[" ", ""]), x));
                }
            }
            if let Some(b) = &p.balance {
                out.push_str(self.ch(&[" = ", " =", "  =  "]));
                match b {
                    Bal::Zero => out.push('0'),
                    Bal::Amt(a) => {
                        let x = self.amt(a);
                        out.push_str(&x);
                    }
                }
            }
            self.comments(out, &p.raw, eol, true);
        }
    }
    pub fn render(&mut self, items: &[Item]) -> String {
        let mut out = String::new();
        let eol = if self.pct(5) { "\r\n" } else { "\n" };
        for i in items {
            match i {
                Item::Empty => {
                    out.push_str(self.ch(&["", "", "  ", "\t"]));
                    out.push_str(eol);
                }
                Item::Comment(c) => {
                    out.push_str(self.ch(&["; ", ";", "# ", "% ", "| ", "* "]));
                    out.push_str(c);
                    out.push_str(eol);
                }
                Item::Trn(t) => self.trn(&mut out, t, eol),
                Item::Price { when, com, amt } => {
                    let c = self.com(com);
                    let a = self.amt(amt);
                    out.push_str(&format!("P {} {} {}{}", when, c, a, eol));
                }
                Item::Include(p) => out.push_str(&format!("include {}{}", p, eol)),
            }
        }
        if self.pct(8) && out.ends_with(eol) && !out.trim().is_empty() {
            out.truncate(out.len() - eol.len());
        }
        out
    }
}

/// Plain rendering.
pub fn plain(items: &[Item]) -> String {
    Layout { s: None }.render(items)
}
pub fn varied(items: &[Item], s: &mut Src) -> String {
    Layout { s: Some(s) }.render(items)
}

/// Transactions separated by one empty line.
pub fn items_of(ts: &[Trn]) -> Vec<Item> {
    let mut v = vec![];
    for (i, t) in ts.iter().enumerate() {
        if i > 0 {
            v.push(Item::Empty);
        }
        v.push(Item::Trn(t.clone()));
    }
    v
}

// -------------------------------------------------------------- comparison

fn d_opt<T: PartialEq + std::fmt::Debug>(what: &str, e: &T, g: &T, out: &mut Vec<String>) {
    if e != g {
        out.push(format!("{}: expected {:?}, got {:?}", what, e, g));
    }
}

pub fn diff_post(e: &Post, g: &Post) -> Vec<String> {
    let mut o = vec![];
    d_opt("status", &e.status, &g.status, &mut o);
    d_opt("account", &e.account, &g.account, &mut o);
    d_opt("reality", &e.reality, &g.reality, &mut o);
    d_opt("amount", &e.amount, &g.amount, &mut o);
    d_opt("balance", &e.balance, &g.balance, &mut o);
    diff_cm(&e.cm, &g.cm, &mut o);
    o
}

pub fn diff_cm(e: &Cm, g: &Cm, o: &mut Vec<String>) {
    d_opt("flag tags", &e.tags, &g.tags, o);
    d_opt("value tags", &e.kv, &g.kv, o);
    d_opt("comment text", &e.lines, &g.lines, o);
}

pub fn diff_head(e: &Trn, g: &Trn) -> Vec<String> {
    let mut o = vec![];
    d_opt("date", &e.date, &g.date, &mut o);
    d_opt("effective date", &e.edate, &g.edate, &mut o);
    d_opt("status", &e.status, &g.status, &mut o);
    d_opt("code", &e.code, &g.code, &mut o);
    d_opt("description", &e.desc, &g.desc, &mut o);
    diff_cm(&e.cm, &g.cm, &mut o);
    o
}

/// Differences between two transaction lists; None when equal.
pub fn diff(what: &str, exp: &[Trn], got: &[Trn]) -> Option<String> {
    for i in 0..exp.len().max(got.len()) {
        let (Some(e), Some(g)) = (exp.get(i), got.get(i)) else {
            let t = exp.get(i).or(got.get(i)).unwrap();
            return Some(format!(
                "{}: {} transactions expected, {} found; #{} ({} {:?}) is {}",
                what,
                exp.len(),
                got.len(),
                i,
                t.date.iso(),
                t.desc,
                if exp.len() > got.len() { "missing" } else { "extra" }
            ));
        };
        let h = diff_head(e, g);
        if !h.is_empty() {
            return Some(format!("{}: transaction #{} ({} {:?}): {}", what, i, e.date.iso(), e.desc, h.join("; ")));
        }
        if e.posts.len() != g.posts.len() {
            return Some(format!("{}: transaction #{} ({} {:?}): {} postings expected, {} found", what, i, e.date.iso(), e.desc, e.posts.len(), g.posts.len()));
        }
        for (k, (ep, gp)) in e.posts.iter().zip(&g.posts).enumerate() {
            let d = diff_post(ep, gp);
            if !d.is_empty() {
                return Some(format!("{}: transaction #{} ({} {:?}) posting #{} ({}): {}", what, i, e.date.iso(), e.desc, k, ep.account, d.join("; ")));
            }
        }
    }
    None
}
