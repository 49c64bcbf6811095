//! Generators of journals and of merge histories.

use crate::comment::{as_value_tag, Cm};
use crate::journal::*;
use crate::merge_model::{self, SRC, UNK};
use crate::prop::{Ctx, Src, R};

const WORDS: &[&str] = &["shop", "Rent", "ACME Ltd", "card 1234", "müller", "O'Brien", "12:30", "http://x.y/z", "a:b:c", "50% off", "£5", "x = y", "C#", "日本", "-5", "to|from", "key::val", "don\"t"];

/// A word of letters and digits; it never means anything to a reader.
pub fn word(s: &mut Src) -> String {
    const C: &[char] = &['a', 'b', 'e', 'o', 'r', 'z', 'A', 'B', 'Z', 'é', 'É', 'ß', 'ñ', 'ж', 'Ж', '本', '€', '0', '7'];
    let n = if s.pct(2) { s.range(30, 150) } else { s.range(1, 12) };
    let mut w = String::new();
    for i in 0..n {
        let c = *s.pick(C);
        w.push(if i == 0 && (c.is_ascii_digit() || c == '€') { 'w' } else { c });
    }
    w
}

/// A word with some of the given punctuation inside or at its end.
pub fn pword(s: &mut Src, punct: &str) -> String {
    let p: Vec<char> = punct.chars().collect();
    let mut w = word(s);
    for _ in 0..s.range(1, 2) {
        for _ in 0..s.range(1, 2) {
            w.push(*s.pick(&p));
        }
        if s.pct(60) {
            let x = word(s);
            w.push_str(&x);
        }
    }
    w
}

/// A word with characters that are easily taken for spaces or for nothing,
/// inside it or at its ends; white space at its ends only if `ends`.
pub fn exotic(s: &mut Src, ends: bool) -> String {
    const C: &[char] = &['\u{a0}', '\u{200b}', '\u{feff}', '\u{2003}', '\u{3000}', '\u{ad}', '\u{301}', '\u{202f}', '\u{2060}', '\u{1f600}', '\u{7f}', '\u{1}', '\u{85}', '\u{2028}'];
    let mut w = word(s);
    let c = *s.pick(C);
    match if !ends && c.is_whitespace() { 2 } else { s.below(3) } {
        0 => w.push(c),
        1 => w.insert(0, c),
        _ => {
            w.push(c);
            let x = word(s);
            w.push_str(&x);
        }
    }
    w
}

pub const PUNCT: &str = "!\"#$%&'()*+,-./<=>?@[\\]^_`{|}~";

/// The same text in another letter case.
pub fn recase(s: &mut Src, t: &str) -> String {
    match s.below(3) {
        0 => t.to_uppercase(),
        1 => t.to_lowercase(),
        _ => {
            let mut c = t.chars();
            match c.next() {
                Some(f) if f.is_uppercase() => f.to_lowercase().chain(c).collect(),
                Some(f) => f.to_uppercase().chain(c).collect(),
                None => String::new(),
            }
        }
    }
}

pub fn desc(s: &mut Src) -> String {
    let d = desc0(s);
    match s.weighted(&[80, 8, 12]) {
        0 => d,
        1 => recase(s, &d),
        _ => {
            let w = match s.weighted(&[45, 45, 10]) {
                0 => word(s),
                1 => pword(s, PUNCT),
                _ => exotic(s, true),
            };
            match s.below(4) {
                0 | 1 => w,
                2 => format!("{} {}", w, d),
                _ => format!("{} {}", d, w),
            }
        }
    }
}

fn desc0(s: &mut Src) -> String {
    let n = s.range(1, 3);
    let mut v = vec![s.pick_s(&["shop", "Rent", "ACME Ltd", "café", "T1", "1st", "x", "müller & co", "@home", "a"])];
    for _ in 1..n {
        v.push(s.pick_s(WORDS));
    }
    v.join(" ")
}

pub const ACCOUNTS: &[&str] = &["assets:bank", "expenses:food", "income:job", "Assets:Bank Account", "liabilities:card", "e", "équité:été", "expenses:a-b_c", "assets:cash:wallet 2", "assets:unknown", "expenses:unknown"];

pub fn account(s: &mut Src) -> String {
    let a = s.pick_s(ACCOUNTS);
    match s.weighted(&[83, 5, 10, 2]) {
        0 => a,
        1 => recase(s, &a),
        3 => format!("{}{}", s.pick_s(&["fp-", "candidate-", "candidate-fp-", "import-", "@", "v-"]), a),
        _ => {
            let n = s.range(1, 4);
            (0..n).map(|_| match s.weighted(&[65, 28, 7]) { 0 => word(s), 1 => pword(s, "&'./_-+#%,"), _ => exotic(s, true) }).collect::<Vec<_>>().join(":")
        }
    }
}

pub fn text_line(s: &mut Src) -> String {
    let l = text_line0(s);
    match s.weighted(&[76, 8, 8, 4, 2, 2]) {
        0 => l,
        4 => s.pick_s(&[";", ";;", "-", "--", "-----", "*", "#", "|", "=", "=====", "@", "...", "\"", "()", "!", ","]),
        5 => format!("{} {}", exotic(s, false), l),
        1 => {
            // Letter case never makes or unmakes a tag.
            let l2 = recase(s, &l);
            if as_value_tag(&l2).is_some() { l } else { l2 }
        }
        2 => format!("{} {}", if s.pct(50) { word(s) } else { pword(s, PUNCT) }, l),
        _ => pword(s, PUNCT),
    }
}

fn text_line0(s: &mut Src) -> String {
    let n = s.range(1, 4);
    let mut v = vec![s.pick_s(&["note", "seen", "check", "Über", "12:30", "a:b:c", "http://x.y/z", "(x)", "[y]", ":half", "1.50", "x-y"])];
    for _ in 1..n {
        v.push(s.pick_s(&["again", "twice", "re:", "12:30", "b::c", "see:also", "ünï", "= 5", "@", "*", "!", "a:", ":b", "\"q\"", "::"]));
    }
    let l = v.join(if s.pct(10) { "  " } else { " " });
    debug_assert!(as_value_tag(&l).is_none());
    l
}

pub fn kv(s: &mut Src) -> (String, String) {
    let (k, v) = kv0(s);
    let k = match s.weighted(&[85, 7, 8]) {
        0 => k,
        1 => recase(s, &k),
        _ => pword(s, PUNCT),
    };
    let v = match s.weighted(&[80, 10, 10]) {
        0 => v,
        1 => recase(s, &v),
        _ => {
            let w = pword(s, PUNCT);
            if s.pct(50) {
                format!("{} {}", w, v).trim_end().to_string()
            } else {
                format!("{} {}{}", v, w, s.pick_s(&["", ";", ":", " ;", ": "])).trim().to_string()
            }
        }
    };
    (k, v)
}

fn kv0(s: &mut Src) -> (String, String) {
    let k = s.pick_s(&["key", "account", "bank", "trn_type", "Receipt-ID", "k2", "seq", "ключ", "a/b"]);
    let v = s.pick_s(&["value", "v2", "", "two words", "12:30:00", "key: nested", ":flaglike:", "=x", "£5.00", "fp-x-1", "a;b", "日本 語"]);
    (k, v)
}

pub fn flag(s: &mut Src) -> String {
    let f = flag0(s);
    match s.weighted(&[82, 6, 12]) {
        0 => f,
        1 => recase(s, &f),
        _ => {
            let mut w = word(s);
            for _ in 0..s.small(2) {
                let x = pword(s, "!\"#$%&'()*+,-./<=>?@[\\]^_`{|}~;");
                w.push_str(&x);
            }
            w
        }
    }
}

fn flag0(s: &mut Src) -> String {
    s.pick_s(&["flag", "import-self", "unknown-account", "import-peer", "t", "T2", "exactly12chr", "thirteenchars", "a-very-long-tag-name-beyond-inline", "ünï", "x.y", "+/="])
}

/// Metadata; `rich` is the maximum number of each kind.
pub fn cm(s: &mut Src, rich: usize) -> Cm {
    let mut c = Cm::default();
    for _ in 0..s.small(rich) {
        c.tags.insert(flag(s));
    }
    if s.pct(1) {
        for i in 0..s.range(10, 40) {
            let f = if s.pct(50) { flag(s) } else { format!("{}{}", word(s), i) };
            c.tags.insert(f);
        }
    }
    for _ in 0..s.small(rich) {
        let (k, v) = kv(s);
        c.kv.insert(k, v);
    }
    if !c.kv.is_empty() && s.pct(3) {
        // The same, but for the letter case of the key.
        let (k, v) = c.kv.iter().next().map(|(k, v)| (k.clone(), v.clone())).unwrap();
        let k = recase(s, &k);
        c.kv.insert(k, v);
    }
    for _ in 0..s.small(rich) {
        c.lines.push(text_line(s));
    }
    c
}

pub fn commodity(s: &mut Src) -> (String, bool) {
    let i = s.below(7);
    [("GBP", true), ("$", true), ("EUR", false), ("£", true), ("Green Apples", false), ("M2", true), ("€", false)].get(i).map(|(a, b)| (a.to_string(), *b)).unwrap()
}

pub fn num(s: &mut Src) -> Num {
    let sign = if s.pct(40) { -1 } else { 1 };
    match s.weighted(&[60, 15, 10, 5, 5, 5]) {
        0 => Num::new(sign * (s.below(20000) as i128), 2),
        1 => Num::new(sign * s.below(500) as i128, 0),
        2 => Num::new(sign * (1_000_000 + s.below(900_000_000) as i128 * 7), 2),
        3 => Num::new(sign * s.below(100000) as i128, 5),
        4 => Num::new(0, 0),
        _ => Num::new(sign * 123_456_789_012_345_678_901i128, 6),
    }
}

pub fn amt(s: &mut Src) -> Amt {
    let n = num(s);
    let (c, l) = commodity(s);
    Amt::new(n, &c, l)
}

pub fn pamt(s: &mut Src) -> PAmt {
    let mut p = PAmt { amt: amt(s), lot: None, price: None };
    if s.pct(10) {
        p.lot = Some(Price { total: s.pct(50), amt: amt(s) });
    }
    if s.pct(12) {
        p.price = Some(Price { total: s.pct(50), amt: amt(s) });
    }
    p
}

pub fn date(s: &mut Src) -> Date {
    match s.weighted(&[80, 8, 6, 6]) {
        3 => Date::new(s.range(1, 9999) as i32, s.range(1, 12) as u32, s.range(1, 28) as u32),
        0 => Date::new(2020 + s.below(3) as i32, s.range(1, 12) as u32, s.range(1, 28) as u32),
        1 => *s.pick(&[Date::new(2000, 2, 29), Date::new(1999, 12, 31), Date::new(2024, 2, 29), Date::new(2020, 1, 31)]),
        _ => *s.pick(&[Date::new(1900, 1, 1), Date::new(9999, 12, 31), Date::new(1, 1, 1), Date::new(1600, 3, 1)]),
    }
}

pub fn status(s: &mut Src) -> Option<char> {
    [None, Some('*'), Some('!')][s.weighted(&[60, 20, 20])]
}

/// A posting with arbitrary contents.
pub fn post(s: &mut Src, rich: usize) -> Post {
    let mut p = Post::new(&account(s));
    p.status = status(s);
    p.reality = [' ', '[', '('][s.weighted(&[80, 10, 10])];
    if !s.pct(15) {
        p.amount = Some(pamt(s));
    }
    if s.pct(25) {
        p.balance = Some(if s.pct(20) { Bal::Zero } else { Bal::Amt(amt(s)) });
    }
    p.cm = cm(s, rich);
    p
}

pub fn trn_head(s: &mut Src, rich: usize) -> Trn {
    let mut t = Trn::new(date(s), "");
    t.desc = desc(s);
    if s.pct(15) {
        t.edate = Some(date(s));
    }
    t.status = status(s);
    if s.pct(15) {
        t.code = Some(if s.pct(75) { s.pick_s(&["123", "INV 7", "a:b", "*x", "é"]) } else { pword(s, "!#$%&'*+,-./:<=>?@^_`{|}~") });
    }
    t.cm = cm(s, rich);
    t
}

pub fn trn(s: &mut Src, rich: usize, max_posts: usize) -> Trn {
    let mut t = trn_head(s, rich);
    for _ in 0..s.range(1, max_posts) {
        let p = post(s, rich);
        t.posts.push(p);
    }
    t
}

/// Fills the raw comment lines from the metadata in a varied arrangement.
pub fn arrange(t: &mut Trn, s: &mut Src) {
    t.raw = t.cm.arrange(s);
    for p in &mut t.posts {
        p.raw = p.cm.arrange(s);
    }
}

/// What a reader sees: the metadata as the arranged comments read.
pub fn settle(t: &mut Trn) {
    t.cm = Cm::read(&t.raw);
    for p in &mut t.posts {
        p.cm = Cm::read(&p.raw);
    }
}

/// Adds a unique fingerprint to each posting.
pub fn add_fps(ts: &mut [Trn], s: &mut Src) {
    let mut n = 0;
    for t in ts {
        for p in &mut t.posts {
            n += 1;
            let f = if s.pct(50) { format!("fp-{}", n) } else { format!("fp-nwcsv6.1.ns-{:027}", n * 7919) };
            p.cm.tags.insert(f);
        }
    }
}

/// Arbitrary journal items. Only `allow_other` adds items that are not
/// transactions.
pub fn items(s: &mut Src, max_trns: usize, rich: usize, allow_other: bool) -> Vec<Item> {
    // Sometimes much more of one thing.
    let (n, max_posts) = match s.weighted(&[94, 3, 3]) {
        0 => (s.small(max_trns) + 1, 3),
        1 => (s.range(20, 150), 3),
        _ => (s.small(max_trns) + 1, 40),
    };
    let mut v: Vec<Item> = vec![];
    for _ in 0..s.small(2) {
        v.push(Item::Empty);
    }
    for i in 0..n {
        if allow_other {
            while s.pct(25) {
                let it = other_item(s);
                // A comment line right after a transaction would be part of it.
                if matches!(it, Item::Comment(_)) && matches!(v.last(), Some(Item::Trn(_))) {
                    v.push(Item::Empty);
                }
                v.push(it);
            }
        }
        if !(i > 0 && s.pct(5)) {
            let mut t = trn(s, rich, max_posts);
            arrange(&mut t, s);
            settle(&mut t);
            v.push(Item::Trn(t));
        }
        for _ in 0..s.weighted(&[10, 80, 10]) {
            v.push(Item::Empty);
        }
    }
    v
}

pub fn other_item(s: &mut Src) -> Item {
    match s.below(3) {
        0 => Item::Comment(s.pick_s(&["a comment", "", ":tag:", "key: value", "; double", "* bullet", "2020-01-01 foo", "ünï", "-----", "=====", "*****", "#", "########", "|", ";;;;", " ", "  two  spaces  ", "%", "!"])),
        1 => {
            let d = date(s);
            let a = amt(s);
            Item::Price {
                when: format!("{} {:02}:{:02}:{:02}", d.iso(), s.below(24), s.below(60), s.below(60)),
                com: s.pick_s(&["USD", "€", "Green Apples", "mBH", "X1"]),
                amt: a,
            }
        }
        _ => Item::Include(s.pick_s(&["other.journal", "a b.dat", "../x/y.ledger", "*.j"])),
    }
}

// ----------------------------------------------------------------- histories

#[derive(Clone)]
pub struct HFile {
    pub name: String,
    pub trns: Vec<Trn>,
    /// Plain text as written to disk.
    pub text: String,
}

pub struct HOpts {
    /// Percent of cases in which amounts come from a tiny pool.
    pub collide: usize,
    /// Percent chance per case of each kind of contradiction.
    pub contradict: usize,
    pub max_files: usize,
    pub source_tags: usize,
    pub max_reals: usize,
}
impl Default for HOpts {
    fn default() -> Self {
        HOpts { collide: 40, contradict: 4, max_files: 4, source_tags: 25, max_reals: 6 }
    }
}

struct Real {
    date: Date,
    desc: String,
    posts: Vec<(String, Option<PAmt>, Option<Bal>, char)>,
}

/// How the fingerprints of a history look.
#[derive(Clone, Copy)]
pub struct FpStyle {
    kind: usize,
    salt: u64,
}

impl FpStyle {
    pub fn new(s: &mut Src) -> FpStyle {
        let kind = s.weighted(&[30, 14, 10, 10, 10, 10, 8, 8, 5, 5]);
        FpStyle { kind, salt: s.below(1000) as u64 }
    }
    /// The fingerprint of posting k of transaction `real`, as variant `variant`.
    pub fn name(&self, real: usize, k: usize, variant: usize) -> String {
        let n = (real * 64 + k) * 32 + variant;
        let mut x = self.salt.wrapping_mul(0x1_0001).wrapping_add(n as u64);
        let mut raw = vec![];
        for _ in 0..3 {
            raw.extend(crate::prop::splitmix(&mut x).to_be_bytes());
        }
        let b = crate::fp::b64(&raw);
        let kind = if self.kind == 7 { (x % 7) as usize } else { self.kind };
        match kind {
            // Some short (inline), some long tags.
            0 if (real + k + variant) % 3 == 0 => format!("fp-nwcsv6.1.acc{}-{:02}{:02}aBcDeFgHiJkLmNoPqRs", variant, real, k),
            0 => format!("fp-{}{}-{}", (b'a' + (variant % 26) as u8) as char, real, k),
            1 => format!("fp-uuidb64-{}", &b[..22]),
            2 => format!("fp-ppcsv.{}.paypal-{}", 1 + variant % 3, &b[..27]),
            // The form of old versions.
            3 => format!("fp-account.{}-{}", variant, &b[..27]),
            // Differing only late, or only in letter case.
            4 => {
                let bits = format!("{:012b}", n);
                let v: String = "abcdefghijkl".chars().zip(bits.chars()).map(|(c, b)| if b == '1' { c.to_ascii_uppercase() } else { c }).collect();
                format!("fp-{}{}", v, if n >= 4096 { format!("{}", n >> 12) } else { String::new() })
            }
            // One a prefix of others.
            5 => format!("fp-{}", n),
            // Long ones, differing at their end or in their middle.
            8 => {
                let k = 40 + (self.salt as usize % 5) * 50;
                if self.salt % 2 == 0 {
                    format!("fp-{}{}", "x".repeat(k), n)
                } else {
                    format!("fp-{}{}{}", "x".repeat(k), n, "y".repeat(k))
                }
            }
            // Differing only in punctuation.
            9 => {
                const MARKS: [char; 8] = ['-', '+', '_', '/', '=', '.', '~', '*'];
                let mut v = String::from("fp-q");
                let mut m = n + self.salt as usize % 3;
                while m > 0 {
                    v.push(MARKS[m % 8]);
                    v.push('z');
                    m /= 8;
                }
                v
            }
            _ => format!("fp-nwocr.1.{}-{}/{}+", &b[..8], &b[8..20], n),
        }
    }
}

/// A sequence of journals describing overlapping sets of real-world
/// transactions, with different knowledge about them.
pub fn history(s: &mut Src, o: &HOpts) -> Vec<HFile> {
    // Sometimes much of one thing: transactions, postings, files, sets or
    // fingerprints.
    let shape = s.weighted(&[91, 3, 3, 2, 1]);
    let st = FpStyle::new(s);
    let nd = if shape == 1 { s.range(1, 40) } else { s.range(1, 3) };
    let rich_heads = s.pct(12);
    let base = match s.weighted(&[57, 19, 19, 5]) {
        3 => Date::new(s.range(2, 9000) as i32, s.range(1, 12) as u32, s.range(1, 28) as u32).days(),
        0 => Date::new(2020, 2, 27).days() + s.below(3) as i64,
        1 => Date::new(2019, 12, 30).days() + s.below(3) as i64,
        _ => Date::new(1990 + s.below(60) as i32, s.range(1, 12) as u32, s.range(1, 28) as u32).days(),
    };
    let step = if s.pct(5) { *s.pick(&[7i64, 365, 20_000, 32_768, 65_536, 100_000]) } else { *s.pick(&[1i64, 1, 1, 31, 366]) };
    let step = step.min(3_000_000 / nd as i64);
    // All of them have to be in years of four digits.
    let base = base.min(Date::new(9990, 1, 1).days() - (nd as i64) * step).max(Date::new(1, 1, 1).days() + 500);
    let collide = s.pct(o.collide);
    let nr = if shape == 1 { s.range(40, 320) } else { s.range(1, o.max_reals) };
    let big_real = if shape == 2 { s.below(nr) } else { usize::MAX };
    let many_sets = shape == 3 && s.pct(60);
    let mut reals = vec![];
    for r in 0..nr {
        let date = Date::from_days(base + s.below(nd) as i64 * step);
        let np = if r == big_real { s.range(8, 60) } else { s.weighted(&[15, 65, 20]) + 1 };
        let mut posts = vec![];
        for k in 0..np {
            let acc = s.pick_s(&["assets:bank", "expenses:food", "income:job", "liabilities:card", "assets:Bank", "assets:bank:sub", "assets"]);
            let amount = if s.pct(4) {
                None
            } else {
                let m: i128 = if collide && !(r == big_real && s.pct(80)) { (if s.pct(5) { 0 } else { s.range(1, 2) * 500 }) as i128 } else { (1000 + 37 * (r * 64 + k)) as i128 };
                let sign = if k % 2 == 0 { 1 } else { -1 };
                let mut pa = PAmt { amt: Amt::new(Num::new(m * sign, 2), ["GBP", "USD", "gbp"][s.weighted(&[87, 10, 3])], true), lot: None, price: None };
                if s.pct(4) {
                    pa.price = Some(Price { total: s.pct(30), amt: Amt::new(Num::new(2 + s.below(2) as i128, 0), "EUR", true) });
                }
                if s.pct(3) {
                    pa.lot = Some(Price { total: s.pct(30), amt: Amt::new(Num::new(2 + s.below(2) as i128, 0), "EUR", true) });
                }
                Some(pa)
            };
            let bal = if s.pct(35) {
                Some(if s.pct(10) { Bal::Zero } else { Bal::Amt(Amt::new(Num::new(10000 + 100 * s.below(3) as i128, 2), "GBP", true)) })
            } else {
                None
            };
            posts.push((acc, amount, bal, [' ', '[', '('][s.weighted(&[94, 3, 3])]));
        }
        reals.push(Real { date, desc: format!("{} {}", desc(s), r), posts });
    }
    let nf = match shape {
        3 if !many_sets => s.range(5, 24),
        1 => s.range(1, 2),
        _ => s.range(1, o.max_files),
    };
    let mut files: Vec<HFile> = vec![];
    // How many of the shared fingerprints a file uses.
    for f in 0..nf {
        let own_ns = s.pct(40);
        let unk_file = s.pct(40);
        let tagged = many_sets || s.pct(o.source_tags);
        let mut trns: Vec<Trn> = vec![];
        let mut order: Vec<usize> = (0..nr).collect();
        if s.pct(40) {
            s.shuffle(&mut order);
        }
        for r in order {
            if !s.pct(if nf > 6 { 40 } else { 75 }) && f > 0 {
                continue;
            }
            let reps = if (shape != 1 || nr < 60) && s.pct(o.contradict) { 2 } else { 1 };
            for rep in 0..reps {
                let own = own_ns || (rep > 0 && s.pct(50));
                trns.push(view(s, &reals[r], r, f, own, unk_file, rich_heads, &st));
            }
        }
        if tagged {
            for t in &mut trns {
                if s.pct(80) {
                    let v = if many_sets { format!("s{}", s.below(30)) } else { s.pick_s(&["bank-a", "bank-b", "\"zz\"", "!x", "Zeta", "bank-A", "bank-a b", "é", "bank-10", "bank-9", "d1/f", "d2/f", "d3/f", "f", "/d1/f", "d1/F", "f.d1", "", "<stdio>", "\"in0.journal\"", "in1.journal"]) };
                    t.cm.kv.insert(SRC.to_string(), v);
                }
            }
        }
        if s.pct(o.contradict) && !trns.is_empty() {
            inject(s, &mut trns);
        }
        for t in &mut trns {
            arrange(t, s);
            settle(t);
        }
        let text = varied(&items_of(&trns), s);
        files.push(HFile { name: format!("in{}.journal", f), trns, text });
    }
    files
}

fn view(s: &mut Src, real: &Real, r: usize, f: usize, own_ns: bool, unk_file: bool, rich_heads: bool, st: &FpStyle) -> Trn {
    let mut t = Trn::new(real.date, &real.desc);
    if s.pct(5) {
        t.date = Date::from_days(real.date.days() + 1);
    }
    if s.pct(25) {
        t.desc = desc(s);
    }
    if s.pct(if rich_heads { 70 } else { 12 }) {
        t.edate = Some(Date::from_days(real.date.days() + *s.pick(&[2, 1, -1, 0, 40, -400])));
    }
    t.status = status(s);
    if rich_heads && s.pct(70) {
        t.status = Some(*s.pick(&['*', '!']));
    }
    if s.pct(if rich_heads { 70 } else { 8 }) {
        t.code = Some(s.pick_s(&["123", "X 1"]));
    }
    t.cm = cm(s, 1);
    for (k, (acc, amount, bal, reality)) in real.posts.iter().enumerate() {
        if real.posts.len() > 1 && s.pct(6) {
            continue;
        }
        let mut p = Post::new(acc);
        p.reality = *reality;
        p.amount = amount.clone();
        p.status = status(s);
        if s.pct(60) {
            p.balance = bal.clone();
        }
        if s.pct(3) {
            p.balance = Some(Bal::Amt(Amt::new(Num::new(777, 0), "GBP", true)));
        }
        if s.pct(2) {
            p.balance = Some(if s.pct(70) { Bal::Zero } else { Bal::Amt(Amt::new(Num::new(0, 0), "GBP", true)) });
        }
        if s.pct(2) {
            // The same amount at another price, or without any.
            if let Some(a) = &mut p.amount {
                let x = Price { total: s.pct(30), amt: Amt::new(Num::new(2 + s.below(2) as i128, 0), "EUR", true) };
                match s.below(4) {
                    0 => a.price = Some(x),
                    1 => a.lot = Some(x),
                    2 => a.price = None,
                    _ => a.lot = None,
                }
            }
        }
        if s.pct(1) {
            if let Some(a) = &mut p.amount {
                a.amt.com = s.pick_s(&["EUR", "GBP", "gbp"]);
            }
        }
        if s.pct(2) {
            if let Some(a) = &mut p.amount {
                a.amt.num = Num::new(a.amt.num.m * 10 + 1, a.amt.num.scale + 1);
            }
        }
        p.cm = cm(s, 2);
        if s.pct(3) {
            // Means nothing on a posting.
            let v = s.pick_s(&["bank-a", "elsewhere", ""]);
            p.cm.kv.insert(SRC.to_string(), v);
        }
        if (unk_file && s.pct(70)) || s.pct(8) {
            p.cm.tags.insert(UNK.to_string());
            p.account = s.pick_s(&["assets:unknown", "expenses:unknown"]);
        } else if s.pct(5) {
            p.account = s.pick_s(&["expenses:other", "assets:bank", "assets:unknown", "expenses:unknown"]);
        }
        let shared = st.name(r, k, 0);
        let own = st.name(r, k, 1 + f);
        if s.pct(3) {
            // Known under several more names.
            for v in 0..s.range(1, 4) {
                p.cm.tags.insert(format!("{}.{}", st.name(r, k, 28 + v % 3), f));
            }
        }
        match if own_ns { s.weighted(&[10, 75, 15]) } else { s.weighted(&[80, 10, 10]) } {
            0 => {
                p.cm.tags.insert(shared);
            }
            1 => {
                p.cm.tags.insert(own);
            }
            _ => {
                p.cm.tags.insert(shared);
                p.cm.tags.insert(own);
            }
        }
        t.posts.push(p);
    }
    if s.pct(6) {
        // An additional posting nobody else knows of.
        let mut p = Post::new("expenses:fee");
        p.amount = Some(PAmt { amt: Amt::new(Num::new(9900 + (r * 10 + f) as i128, 2), "GBP", true), lot: None, price: None });
        p.cm.tags.insert(format!("fp-x{}-{}", r, f));
        t.posts.push(p);
    }
    if t.posts.is_empty() {
        let mut p = Post::new("expenses:fee");
        p.cm.tags.insert(format!("fp-y{}-{}", r, f));
        t.posts.push(p);
    }
    t
}

fn inject(s: &mut Src, trns: &mut [Trn]) {
    let a = s.below(trns.len());
    let k = s.below(trns[a].posts.len());
    match s.below(4) {
        0 => {
            // No fingerprint.
            trns[a].posts[k].cm.tags.retain(|t| !t.starts_with("fp-"));
        }
        1 => {
            // Perhaps of a fingerprint that is there too.
            let own = trns[a].posts[k].fps();
            let b = s.below(trns.len());
            let other = trns[b].posts[0].fps();
            let t = match s.below(5) {
                0 if !own.is_empty() => format!("candidate-{}", own[s.below(own.len())]),
                1 if !other.is_empty() => format!("candidate-{}", other[s.below(other.len())]),
                2 => s.pick_s(&["candidate-x", "candidate-", "candidate-0", "candidate-é", "candidate-fp-", "candidate-fp", "candidate-FP-a", "candidate--"]),
                _ => "candidate-fp-q".into(),
            };
            trns[a].posts[k].cm.tags.insert(t);
        }
        2 => {
            // Another posting's fingerprint as well.
            let b = s.below(trns.len());
            let l = s.below(trns[b].posts.len());
            let fps = trns[b].posts[l].fps();
            trns[a].posts[k].cm.tags.extend(fps);
        }
        _ => {
            // Postings of two transactions in one.
            let b = s.below(trns.len());
            let p = trns[b].posts[0].clone();
            if b != a {
                trns[b].posts.remove(0);
                trns[a].posts.push(p);
                if trns[b].posts.is_empty() {
                    let mut p = Post::new("expenses:fee");
                    p.cm.tags.insert("fp-zz".into());
                    trns[b].posts.push(p);
                }
            }
        }
    }
}

pub fn model_files(files: &[HFile]) -> Vec<merge_model::File> {
    files.iter().map(|f| merge_model::File { default_source: format!("\"{}\"", f.name), trns: f.trns.clone() }).collect()
}

/// Writes the files of a history.
pub fn write_history(c: &mut Ctx, files: &[HFile]) -> R {
    for f in files {
        c.write(&f.name, &f.text)?;
    }
    Ok(())
}
