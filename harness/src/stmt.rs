//! Bank and payment statements: generators, file renderers and the
//! transactions an import must make of them.

use crate::comment::Cm;
use crate::fp::{generated_ns, Acc, Dec};
use crate::journal::*;
use crate::prop::Src;

// ------------------------------------------------------------------ pieces

pub const TEXTS: &[&str] = &[
    "SHOP", "TESCO 1234", "Café Noir", "J SMITH", "REF: 12", "A,B", "say \"hi\"", "x;y", "A & B", "T:1:2", "50% OFF", "£5 off", "- 3 -", "a:b", ":x:", "Straße", "#1", "e.g. (this)", "p|q", "'q'", "O'Neil", "A  B", "=1+1", "key: value", "20",
];
/// Text for a field of the description kind: never empty, and never one of the
/// starts that a Ledger header line would read as something else.
pub fn text(s: &mut Src) -> String {
    let t = text0(s);
    match s.weighted(&[76, 9, 7, 2, 2, 4, 2]) {
        0 => t,
        // Marks only.
        6 => s.pick_s(&["---", "&", "...", "@", "$$", "?", "'", "#", "-", "+ +", "_", "£", "~~", "/ /", "\"\"", "%", "<>"]),
        // Marked at its beginning or its end, perhaps with a space between.
        5 => {
            let gap = if s.pct(50) { " " } else { "" };
            if s.pct(50) {
                format!("{}{}{}", s.pick(&['@', '&', '-', '£', '#', '%', '+', ',', '.', '/', ':', '<', '>', '?', '$', '\'', '~', '^', '_', '|', '[', '{', '\\', '"']), gap, t)
            } else {
                format!("{}{}{}", t, gap, s.pick(MARKS))
            }
        }
        4 => spaced(s),
        1 => format!("{} {}", t, word(s)),
        2 => format!("{} {}", word(s), t),
        _ => long(s),
    }
}
const LATIN: &[char] = &['a', 'b', 'e', 'o', 'r', 'z', 'A', 'B', 'Z', 'é', 'É', 'ß', 'ñ', 'Œ', 'š', 'ÿ', 'Ÿ', 'Ž', 'þ', '0', '7', '9'];
const MARKS: &[char] = &['!', '"', '#', '$', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '.', '/', ':', ';', '<', '=', '>', '?', '@', '[', '\\', ']', '^', '_', '`', '{', '|', '}', '~', '€', '£', '’', '“', '”', '–', '•', '…', '™', '¬', '§', '½', '¤', '×'];
/// A word of letters that code page 1252 has, with marks inside or at its end.
pub fn word(s: &mut Src) -> String {
    let n = s.range(1, 10);
    let mut w = String::new();
    for i in 0..n {
        let c = *s.pick(LATIN);
        w.push(if i == 0 && c.is_ascii_digit() { 'W' } else { c });
        if i > 0 && s.pct(12) {
            w.push(*s.pick(MARKS));
        }
    }
    w
}
pub fn long(s: &mut Src) -> String {
    let n = *s.pick(&[30, 63, 64, 127, 128, 255, 256, 300, 1000]);
    let w = word(s);
    let mut t = String::new();
    while t.chars().count() < n {
        t.push_str(&w);
        t.push_str(s.pick_s(&[" ", " ", "  ", "q", "q", "q", "q", ";", ", "]).as_str());
    }
    t.trim().to_string()
}
/// Words with several spaces or tabs between them.
fn spaced(s: &mut Src) -> String {
    let mut t = word(s);
    for _ in 0..s.range(1, 3) {
        t.push_str(&" ".repeat(s.range(2, 9)));
        t.push_str(&if s.pct(50) { word(s) } else { s.pick_s(TEXTS) });
    }
    t
}
fn text0(s: &mut Src) -> String {
    let n = s.range(1, 3);
    let mut v = vec![s.pick_s(&["SHOP", "Payment", "CASH", "Café", "0123", "x", "TO MR Y", "A,B", "\"q\" z", "@home", "&co", "-dash", "£1 shop", "SHOP", "a;b", "12:30"])];
    for _ in 1..n {
        v.push(s.pick_s(TEXTS));
    }
    v.join(" ")
}
pub fn value(s: &mut Src) -> String {
    match s.weighted(&[78, 15, 2, 2, 3]) {
        3 => spaced(s),
        4 => {
            let (m, gap, t) = (*s.pick(MARKS), if s.pct(50) { " " } else { "" }, s.pick_s(TEXTS));
            if s.pct(50) {
                format!("{}{}{}", m, gap, t)
            } else {
                format!("{}{}{}", t, gap, m)
            }
        }
        0 => {
            let n = s.range(1, 2);
            (0..n).map(|_| s.pick_s(TEXTS)).collect::<Vec<_>>().join(" ")
        }
        1 => word(s),
        _ => long(s),
    }
}

pub fn dec(s: &mut Src) -> Dec {
    match s.weighted(&[60, 12, 8, 8, 6, 6]) {
        0 => Dec::new(1 + s.below(50000) as u128, 2, false),
        1 => Dec::new(1000 + s.below(9) as u128 * 100, 2, false),
        2 => Dec::new(s.below(1000) as u128, 1, false),
        3 => Dec::new(100_000_000 + s.below(1_000_000_000) as u128 * 91, 2, false),
        4 => Dec::new(0, 2, false),
        _ => Dec::new(1_234_567_890_123_456_789_012u128 + s.below(1000) as u128, 3 + s.below(3) as u32, false),
    }
}

pub fn base_date(s: &mut Src) -> Date {
    Date::from_days(match s.weighted(&[70, 15, 12, 3]) {
        0 => Date::new(2019, 12, 20).days() + s.below(800) as i64,
        1 => Date::new(2020, 2, 27).days() + s.below(3) as i64,
        2 => Date::new(2009, 1, 1).days() + s.below(6000) as i64,
        // The time zone rules compiled into the program end in 2099.
        _ => Date::new(2025, 1, 1).days() + s.below(12000) as i64,
    })
}

/// A later day: soon, or the same day of a later month or year.
fn later(s: &mut Src, days: i64, max: usize) -> i64 {
    let d = Date::from_days(days);
    let (m, y) = match s.weighted(&[92, 4, 4]) {
        1 if d.d <= 28 && d.y < 2080 => (s.range(1, 2) as u32, 0),
        2 if d.d <= 28 && d.y < 2080 => (0, s.range(1, 2) as i32),
        _ => return days + 1 + s.small(max) as i64,
    };
    let m0 = d.m as u32 - 1 + m;
    Date::new(d.y + y + (m0 / 12) as i32, m0 % 12 + 1, d.d).days()
}

const MONTHS: [&str; 12] = ["Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"];
pub fn d_mon_y(d: Date) -> String {
    format!("{:02} {} {:04}", d.d, MONTHS[d.m as usize - 1], d.y)
}

pub fn gbp(d: Dec) -> Amt {
    Amt::new(d.num(), "GBP", true)
}
fn pamt(a: Amt) -> Option<PAmt> {
    Some(PAmt { amt: a, lot: None, price: None })
}
fn pounds(d: Dec) -> String {
    format!("£{}{}", if d.neg { "-" } else { "" }, d.digits())
}

/// A CSV file of ready fields.
pub fn csv(grid: &[Vec<String>], s: &mut Src, vary: bool, blank_after: Option<usize>) -> String {
    let style = if vary { s.below(3) } else { 0 };
    let eol = if vary && s.pct(30) { "\r\n" } else { "\n" };
    let pad = vary && s.pct(25);
    let mut o = String::new();
    for (i, r) in grid.iter().enumerate() {
        let cells: Vec<String> = r
            .iter()
            .map(|f| {
                let must = f.contains([',', '"', '\n', '\r']);
                let q = must
                    || match style {
                        0 => true,
                        1 => false,
                        _ => s.pct(50),
                    };
                let f = if pad && s.pct(20) { format!("{}{}{}", " ".repeat(s.below(3)), f, " ".repeat(s.below(3))) } else { f.clone() };
                if q {
                    format!("\"{}\"", f.replace('"', "\"\""))
                } else {
                    f
                }
            })
            .collect();
        o.push_str(&cells.join(","));
        if i + 1 < grid.len() || !vary || !s.pct(15) {
            o.push_str(eol);
        }
        if blank_after == Some(i) || (vary && s.pct(3)) {
            o.push_str(eol);
        }
    }
    o
}

/// What bytes 0x80 to 0x9f stand for in code page 1252.
const HIGH: [char; 32] = [
    '€', '\u{81}', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '\u{8d}', 'Ž', '\u{8f}', '\u{90}', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '\u{9d}', 'ž', 'Ÿ',
];

pub fn cp1252(t: &str) -> Vec<u8> {
    t.chars()
        .map(|c| match c {
            c if HIGH.contains(&c) => 0x80 + HIGH.iter().position(|h| *h == c).unwrap() as u8,
            c if (c as u32) < 0x80 || (0xA0..=0xFF).contains(&(c as u32)) => c as u32 as u8,
            _ => b'?',
        })
        .collect()
}

// ------------------------------------------------------------------ namespaces

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ns {
    Default,
    Generated,
    Fixed(String),
    Account,
    Lookup(Vec<(String, String)>),
}
impl Ns {
    /// The option's value; a lookup table is expected in `lookup.ron`.
    pub fn arg(&self) -> Option<String> {
        match self {
            Ns::Default => None,
            Ns::Generated => Some("generated".into()),
            Ns::Fixed(f) => Some(format!("fixed:{}", f)),
            Ns::Account => Some("account-name".into()),
            Ns::Lookup(_) => Some("lookup:lookup.ron".into()),
        }
    }
    pub fn name(&self, account: &str) -> Option<String> {
        match self {
            Ns::Default | Ns::Generated => Some(generated_ns(account)),
            Ns::Fixed(f) => Some(f.clone()),
            Ns::Account => Some(account.to_string()),
            Ns::Lookup(t) => t.iter().find(|(a, _)| a == account).map(|(_, v)| v.clone()),
        }
    }
    pub fn ron(&self, s: &mut Src) -> Option<String> {
        let Ns::Lookup(t) = self else { return None };
        let e: Vec<String> = t.iter().map(|(k, v)| format!("{}: {}", crate::rules_model::ron_str(k, s), crate::rules_model::ron_str(v, s))).collect();
        Some(format!("{{{}}}", e.join(", ")))
    }
}
pub fn valid_ns(n: &str) -> bool {
    n.chars().all(|c| c.is_ascii_alphanumeric() || "_+/".contains(c))
}
/// A valid namespace.
pub fn fixed_ns(s: &mut Src) -> String {
    if s.pct(70) {
        return s.pick_s(&["acct", "A/b+c_1", "x", "nw1", "FOO", "pp"]);
    }
    const C: &[char] = &['a', 'k', 'z', 'A', 'M', 'Z', '0', '1', '9', '_', '+', '/'];
    (0..s.range(1, 40)).map(|_| *s.pick(C)).collect()
}
pub fn gen_ns(s: &mut Src, account: &str) -> Ns {
    match s.weighted(&[30, 20, 30, 0, 20]) {
        0 => Ns::Default,
        1 => Ns::Generated,
        2 => Ns::Fixed(fixed_ns(s)),
        _ => {
            let mut t = vec![("other".to_string(), "wrong".to_string()), (account.to_string(), s.pick_s(&["looked", "L_1", "0", "a/B+c_9"])), (format!("{} ", account), "wrong2".into())];
            let mut more: Vec<String> = vec![account.to_lowercase(), account.to_uppercase(), format!(" {}", account), account.chars().skip(1).collect(), account.chars().take(3).collect(), String::new(), account.replace(' ', ""), account.replace('*', "")];
            if s.pct(10) {
                more.extend((0..100).map(|i| format!("{}{}", account, i)));
            }
            for (i, m) in more.into_iter().enumerate() {
                if s.pct(40) && !t.iter().any(|(a, _)| *a == m) {
                    t.push((m, format!("no{}", i)));
                }
            }
            s.shuffle(&mut t);
            Ns::Lookup(t)
        }
    }
}

/// Number of rows, and of those that share a date or an instant. Sometimes
/// many.
pub fn bulk(s: &mut Src, max: usize) -> (usize, usize) {
    if max < 3 {
        return (s.range(0, max), 4);
    }
    match s.weighted(&[957, 14, 13, 13, 3]) {
        4 => (s.range(1003, 1300), 1300),
        0 => (s.range(0, max), 4),
        1 => (s.range(20, 400), 4),
        2 => (s.range(20, 60), 60),
        _ => (s.range(250, 700), 700),
    }
}

/// Is a date of k rows to repeat one row?
fn alike(s: &mut Src, k: usize) -> bool {
    (k > 60 && s.pct(50)) || (k > 3 && s.pct(3))
}

// ------------------------------------------------------------------ Nationwide CSV

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct NwRow {
    pub date: Date,
    /// Transaction type, or the transactions text of the 5 column format.
    pub a: String,
    /// Description, or the location of the 5 column format.
    pub b: String,
    pub out: bool,
    pub amt: Dec,
    pub bal: Dec,
}
#[derive(Clone, Debug)]
pub struct Nw {
    pub six: bool,
    pub account: String,
    pub rows: Vec<NwRow>,
}

pub const ACCOUNTS: &[&str] = &["My Account ****4321", "Current", "FlexDirect ****12345", "Joint é, £", "a", "x/y+z", "Acct1", "****4321", "*Star*", "+44", "_a"];

impl Nw {
    pub fn gen(s: &mut Src, max: usize) -> Nw {
        let mut n = Nw { six: !s.pct(45), account: s.pick_s(ACCOUNTS), rows: vec![] };
        if s.pct(25) {
            n.account = (0..s.range(1, 3)).map(|_| word(s)).collect::<Vec<_>>().join(" ");
        }
        n.rows = Nw::rows(s, n.six, max);
        n
    }
    pub fn row(s: &mut Src, six: bool, date: Date) -> NwRow {
        let out = !s.pct(40);
        let mut bal = dec(s);
        if bal.m != 0 && s.pct(25) {
            bal.neg = true;
        }
        NwRow {
            date,
            a: if six && s.pct(8) {
                String::new()
            } else if six {
                value(s)
            } else {
                text(s)
            },
            b: if six {
                text(s)
            } else if s.pct(40) {
                String::new()
            } else {
                value(s)
            },
            out,
            amt: dec(s),
            bal,
        }
    }
    pub fn rows(s: &mut Src, six: bool, max: usize) -> Vec<NwRow> {
        let mut days: Vec<Vec<NwRow>> = vec![];
        let mut d = base_date(s).days();
        let (mut left, per_day) = bulk(s, max);
        while left > 0 {
            let k = s.range(1, per_day).min(left);
            left -= k;
            let mut v: Vec<NwRow> = vec![];
            let alike = alike(s, k);
            for _ in 0..k {
                let r = if alike && !v.is_empty() {
                    v[0].clone()
                } else if !v.is_empty() && s.pct(35) {
                    // A row that repeats another, wholly or nearly.
                    let mut r = v[s.below(v.len())].clone();
                    if s.pct(30) {
                        r.amt = dec(s);
                    }
                    r
                } else {
                    Nw::row(s, six, Date::from_days(d))
                };
                v.push(r);
            }
            days.push(v);
            d = later(s, d, 40);
        }
        if s.pct(15) {
            s.shuffle(&mut days);
        }
        days.concat()
    }
    pub fn headers(six: bool) -> Vec<String> {
        let h: &[&str] = if six { &["Date", "Transaction type", "Description", "Paid out", "Paid in", "Balance"] } else { &["Date", "Transactions", "Location", "Paid out", "Paid in"] };
        h.iter().map(|x| x.to_string()).collect()
    }
    pub fn grid(&self, s: &mut Src) -> Vec<Vec<String>> {
        let v = |x: &str| x.to_string();
        let mut g = vec![
            vec![v("Account Name:"), self.account.clone()],
            vec![v("Account Balance:"), pounds(Dec::new(s.below(9999) as u128, 2, s.pct(20)))],
            vec![v("Available Balance:"), pounds(Dec::new(s.below(9999) as u128, 2, false))],
            Nw::headers(self.six),
        ];
        for r in &self.rows {
            let m = pounds(r.amt);
            let (o, i) = if r.out { (m, String::new()) } else { (String::new(), m) };
            let mut row = vec![d_mon_y(r.date), r.a.clone(), r.b.clone(), o, i];
            if self.six {
                row.push(pounds(r.bal));
            }
            g.push(row);
        }
        g
    }
    pub fn file(&self, s: &mut Src, vary: bool) -> Vec<u8> {
        let g = self.grid(s);
        let blank = if s.pct(60) { Some(2) } else { None };
        cp1252(&csv(&g, s, vary, blank))
    }
    pub fn counters(&self) -> Vec<i32> {
        let mut v: Vec<i32> = vec![];
        for (i, r) in self.rows.iter().enumerate() {
            v.push(if i > 0 && self.rows[i - 1].date == r.date { v[i - 1] + 1 } else { 0 });
        }
        v
    }
    pub fn expect(&self, ns: &str, legacy: bool) -> Vec<Trn> {
        let counters = self.counters();
        self.rows
            .iter()
            .zip(counters)
            .map(|(r, k)| {
                let mut t = Trn::new(
                    r.date,
                    &if self.six {
                        r.b.clone()
                    } else if r.b.is_empty() {
                        r.a.clone()
                    } else {
                        format!("{} @ {}", r.a, r.b)
                    },
                );
                let own = if r.out { r.amt.neg() } else { r.amt };
                let peer_account = if r.out { "expenses:unknown" } else { "income:unknown" };
                let mut cm = Cm::default().tag("unknown-account").with_kv("account", &self.account).with_kv("bank", "Nationwide");
                if self.six {
                    cm = cm.with_kv("trn_type", &r.a);
                } else {
                    cm = cm.with_kv("transactions", &r.a);
                    if !r.b.is_empty() {
                        cm = cm.with_kv("location", &r.b);
                    }
                }
                let mut p1 = Post::new("assets:unknown");
                p1.amount = pamt(gbp(own));
                if self.six {
                    p1.balance = Some(Bal::Amt(gbp(r.bal)));
                }
                let mut p2 = Post::new(peer_account);
                p2.amount = pamt(gbp(own.neg()));
                p1.cm = cm.clone().tag("import-self").with_kv("seq", &format!("{}-{}", ns, k + 1));
                p2.cm = cm.tag("import-peer");
                for (p, (v, l)) in [&mut p1, &mut p2].into_iter().zip(self.fps(r, k, ns)) {
                    p.cm.tags.insert(v);
                    if legacy && self.six {
                        p.cm.tags.insert(l);
                    }
                }
                t.posts = vec![p1, p2];
                t
            })
            .collect()
    }
    /// (versioned, legacy) fingerprint tags of the own and the peer posting.
    pub fn fps(&self, r: &NwRow, k: i32, ns: &str) -> [(String, String); 2] {
        let gbp = |a: Acc, d: Dec| a.amt(d, "GBP");
        let (o, i) = if r.out { (Some(r.amt), None) } else { (None, Some(r.amt)) };
        let own = if r.out { r.amt.neg() } else { r.amt };
        let (alg, v) = if self.six {
            ("nwcsv6", gbp(Acc::default().s(&r.a).date(r.date).i32(k).s(&r.b).opt(o, gbp).opt(i, gbp), r.bal))
        } else {
            ("nwcsv5", Acc::default().date(r.date).i32(k).s(&r.a).s(&r.b).opt(o, gbp).opt(i, gbp))
        };
        let leg = gbp(Acc::default().s(&r.a).date(r.date).s(""), r.bal).i32(k);
        let peer_account = if r.out { "expenses:unknown" } else { "income:unknown" };
        let f = |half: &str, acct: &str, amt: Dec| {
            (
                format!("fp-{}.1.{}-{}", alg, ns, v.clone().s(half).hash()),
                format!("fp-{}-{}", ns, gbp(leg.clone().s(acct), amt).hash()),
            )
        };
        [f("self", "assets:unknown", own), f("peer", peer_account, own.neg())]
    }
}

// ------------------------------------------------------------------ PayPal CSV

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PpRow {
    /// Seconds since 1970-01-01 UTC.
    pub at: i64,
    pub tz: usize,
    pub name: String,
    pub type_: String,
    pub done: bool,
    pub cur: String,
    pub amt: Dec,
    pub receipt: String,
    pub bal: Dec,
}
#[derive(Clone, Debug)]
pub struct Pp {
    pub rows: Vec<PpRow>,
    /// Abbreviation, UTC offset in minutes.
    pub tzs: Vec<(String, i32)>,
    pub out_tz: &'static str,
}

pub const ZONES: &[&str] = &[
    "UTC", "Europe/London", "America/New_York", "Asia/Kolkata", "Asia/Tokyo", "Australia/Sydney", "Etc/GMT+5", "Etc/GMT-14", "Pacific/Pago_Pago", "Asia/Kathmandu", "Pacific/Kiritimati", "America/Phoenix",
];

fn nth_sunday(y: i32, m: u32, n: i64) -> i64 {
    // n = 1.. for the nth, 0 for the last.
    if n > 0 {
        let d = Date::new(y, m, 1);
        d.days() + (7 - d.weekday()) % 7 + 7 * (n - 1)
    } else {
        let d = if m == 12 { Date::new(y + 1, 1, 1) } else { Date::new(y, m + 1, 1) };
        let last = d.days() - 1;
        last - Date::from_days(last).weekday()
    }
}

/// UTC offset in seconds, for instants from 2008 on.
pub fn zone_offset(zone: &str, at: i64) -> i64 {
    let y = Date::from_days(at.div_euclid(86400)).y;
    let h = |d: i64, hour: i64| d * 86400 + hour * 3600;
    match zone {
        "UTC" => 0,
        "Europe/London" => {
            if at >= h(nth_sunday(y, 3, 0), 1) && at < h(nth_sunday(y, 10, 0), 1) {
                3600
            } else {
                0
            }
        }
        "America/New_York" => {
            if at >= h(nth_sunday(y, 3, 2), 7) && at < h(nth_sunday(y, 11, 1), 6) {
                -4 * 3600
            } else {
                -5 * 3600
            }
        }
        "Australia/Sydney" => {
            // Standard time between the first Sundays of April and October.
            if at >= h(nth_sunday(y, 4, 1), 3 - 11) && at < h(nth_sunday(y, 10, 1), 2 - 10) {
                10 * 3600
            } else {
                11 * 3600
            }
        }
        "Asia/Kolkata" => 19800,
        "Asia/Kathmandu" => 20700,
        "Asia/Tokyo" => 9 * 3600,
        "Etc/GMT+5" => -5 * 3600,
        "Etc/GMT-14" | "Pacific/Kiritimati" => 14 * 3600,
        "Pacific/Pago_Pago" => -11 * 3600,
        "America/Phoenix" => -7 * 3600,
        _ => unreachable!(),
    }
}

pub fn offset_text(min: i32, s: &mut Src) -> String {
    let sign = if min < 0 || (min == 0 && s.pct(40)) { '-' } else { '+' };
    let m = min.abs();
    if m % 60 == 0 && !s.pct(30) {
        format!("UTC{}{:02}", sign, m / 60)
    } else {
        format!("UTC{}{:02}:{:02}", sign, m / 60, m % 60)
    }
}

pub const PP_COLS: [&str; 10] = ["Date", "Time", "Time zone", "Name", "Type", "Status", "Currency", "Amount", "Receipt ID", "Balance"];

pub fn pp_num(d: Dec) -> String {
    format!("{}{}", if d.neg { "-" } else { "" }, d.digits())
}

impl Pp {
    pub fn gen_tzs(s: &mut Src) -> Vec<(String, i32)> {
        let mut v: Vec<(String, i32)> = vec![("GMT".into(), 0)];
        for (n, o) in [("BST", 60), ("PST", -480), ("PDT", -420), ("IST", 330), ("NPT", 345), ("NST", -210), ("LINT", 840), ("utc+1", 60), ("gmt", 180)] {
            if s.pct(35) {
                v.push((n.to_string(), o));
            }
        }
        for i in 0..s.below(3) {
            let o = match s.below(4) {
                0 => s.below(1440) as i32,
                1 => -(s.below(1440) as i32),
                2 => *s.pick(&[1439, -1439, 1380, -1380, 59, -59, -1, 1, -30]),
                _ => *s.pick(&[720, -720, 600, -600]),
            };
            v.push((format!("{}{}", if s.pct(70) { s.pick_s(&["X", "+0", "Etc/X", "b s t ", "-", "#", ";", "//", "%", "'", "\"", "--", "UTC", "utc+0", "abbreviation"]) } else { word(s) }, i), o));
        }
        v
    }
    pub fn instant(s: &mut Src, zone: &str) -> i64 {
        match s.weighted(&[50, 25, 25]) {
            0 => base_date(s).days() * 86400 + s.below(86400) as i64,
            // Around local midnight of the output timezone.
            1 => {
                let d = base_date(s).days() * 86400;
                d - zone_offset(zone, d) + s.below(3) as i64 - 1 + *s.pick(&[0, 3600, -3600])
            }
            // Around a clock change.
            _ => {
                let y = 2009 + s.below(20) as i32;
                let base = *s.pick(&[
                    nth_sunday(y, 3, 0) * 86400 + 3600,
                    nth_sunday(y, 10, 0) * 86400 + 3600,
                    nth_sunday(y, 3, 2) * 86400 + 7 * 3600,
                    nth_sunday(y, 11, 1) * 86400 + 6 * 3600,
                    nth_sunday(y, 4, 1) * 86400 - 8 * 3600,
                    nth_sunday(y, 10, 1) * 86400 - 8 * 3600,
                    Date::new(y, 1, 1).days() * 86400,
                ]);
                // Near midnights of the season on either side.
                base + *s.pick(&[-1, 0, 1, -86400, 86400]) + s.below(86400) as i64 - 43200
            }
        }
    }
    pub fn row(s: &mut Src, at: i64, ntz: usize) -> PpRow {
        let mut amt = dec(s);
        if amt.m != 0 && s.pct(50) {
            amt.neg = true;
        }
        let mut bal = dec(s);
        if bal.m != 0 && s.pct(20) {
            bal.neg = true;
        }
        PpRow {
            at,
            tz: s.below(ntz),
            name: if s.pct(35) { String::new() } else { text(s) },
            type_: value(s),
            done: !s.pct(30),
            cur: match s.weighted(&[86, 8, 4, 2]) {
                3 => s.pick_s(&["€", "£", "zł", "R$", "kr", "¥", "GBPx", "Ft"]),
                0 => s.pick_s(&["GBP", "USD", "EUR", "JPY"]),
                1 => (0..3).map(|_| (b'A' + s.below(26) as u8) as char).collect(),
                _ => (0..3).map(|_| *s.pick(&['g', 'b', 'G', 'P', 'u', 'x', 'Z'])).collect(),
            },
            amt,
            receipt: if s.pct(60) { String::new() } else { if s.pct(80) { s.pick_s(&["1234-5678-9012-3456", "R1", "rec: 5", "0"]) } else { word(s) } },
            bal,
        }
    }
    pub fn gen(s: &mut Src, max: usize) -> Pp {
        let tzs = Pp::gen_tzs(s);
        let out_tz = *s.pick(ZONES);
        let mut rows: Vec<PpRow> = vec![];
        let mut at = Pp::instant(s, out_tz);
        let (mut left, per) = bulk(s, max);
        while left > 0 {
            let k = s.range(1, per).min(left);
            left -= k;
            rows.extend(Pp::group(s, at, tzs.len(), k));
            at = match s.weighted(&[56, 20, 20, 4]) {
                0 => at + 1 + s.below(86400 * 3) as i64,
                1 => at + 1,
                // The same time on another day.
                3 => later(s, at.div_euclid(86400), 3) * 86400 + at.rem_euclid(86400),
                _ => {
                    let n = Pp::instant(s, out_tz);
                    if n == at {
                        n + 1
                    } else {
                        n
                    }
                }
            };
        }
        Pp { rows, tzs, out_tz }
    }
    pub fn group(s: &mut Src, at: i64, ntz: usize, k: usize) -> Vec<PpRow> {
        let mut g: Vec<PpRow> = vec![];
        let alike = alike(s, k);
        for _ in 0..k {
            let r = if alike && !g.is_empty() {
                g[0].clone()
            } else if !g.is_empty() && s.pct(25) {
                g[s.below(g.len())].clone()
            } else {
                let mut r = Pp::row(s, at, ntz);
                if !g.is_empty() && !s.pct(30) {
                    r.tz = g[0].tz;
                }
                r
            };
            g.push(r);
        }
        if g.iter().all(|r| r.name.is_empty()) {
            let i = s.below(g.len());
            g[i].name = text(s);
        }
        g
    }
    pub fn local(&self, r: &PpRow) -> (Date, (u32, u32, u32)) {
        let l = r.at + self.tzs[r.tz].1 as i64 * 60;
        let t = l.rem_euclid(86400) as u32;
        (Date::from_days(l.div_euclid(86400)), (t / 3600, t / 60 % 60, t % 60))
    }
    pub fn grid(&self) -> Vec<Vec<String>> {
        let mut g: Vec<Vec<String>> = vec![PP_COLS.iter().map(|x| x.to_string()).collect()];
        for r in &self.rows {
            let (d, (h, m, sec)) = self.local(r);
            g.push(vec![
                format!("{:02}/{:02}/{:04}", d.d, d.m, d.y),
                format!("{:02}:{:02}:{:02}", h, m, sec),
                self.tzs[r.tz].0.clone(),
                r.name.clone(),
                r.type_.clone(),
                if r.done { "Completed" } else { "Pending" }.to_string(),
                r.cur.clone(),
                pp_num(r.amt),
                r.receipt.clone(),
                pp_num(r.bal),
            ]);
        }
        g
    }
    pub fn file(&self, s: &mut Src, vary: bool) -> Vec<u8> {
        let mut g = self.grid();
        if vary && s.pct(40) {
            let mut perm: Vec<usize> = (0..10).collect();
            s.shuffle(&mut perm);
            g = g.into_iter().map(|r| perm.iter().map(|i| r[*i].clone()).collect()).collect();
        }
        csv(&g, s, vary, None).into_bytes()
    }
    pub fn table(&self, s: &mut Src) -> String {
        let mut v = self.tzs.clone();
        s.shuffle(&mut v);
        let swap = s.pct(20);
        let mut o = String::from(if swap { "utc_offset,abbreviation\n" } else { "abbreviation,utc_offset\n" });
        for (n, m) in v {
            let t = offset_text(m, s);
            let n = if n.contains([',', '"']) || s.pct(10) { format!("\"{}\"", n.replace('"', "\"\"")) } else { n };
            o.push_str(&if swap { format!("{},{}\n", t, n) } else { format!("{},{}\n", n, t) });
        }
        o
    }
    /// Index ranges of rows with equal instants.
    pub fn groups(&self) -> Vec<std::ops::Range<usize>> {
        let mut v: Vec<std::ops::Range<usize>> = vec![];
        for i in 0..self.rows.len() {
            match v.last_mut() {
                Some(g) if self.rows[g.start].at == self.rows[i].at => g.end = i + 1,
                _ => v.push(i..i + 1),
            }
        }
        v
    }
    pub fn expect(&self, ns: &str, legacy: bool) -> Vec<Trn> {
        self.groups()
            .into_iter()
            .map(|g| {
                let rows = &self.rows[g];
                let l = rows[0].at + zone_offset(self.out_tz, rows[0].at);
                let mut t = Trn::new(Date::from_days(l.div_euclid(86400)), &rows.iter().find(|r| !r.name.is_empty()).unwrap().name);
                for (i, r) in rows.iter().enumerate() {
                    let st = Some(if r.done { '*' } else { '!' });
                    let mut p1 = Post::new("assets:unknown");
                    p1.status = st;
                    p1.amount = pamt(Amt::new(r.amt.num(), &r.cur, true));
                    p1.balance = Some(Bal::Amt(Amt::new(r.bal.num(), &r.cur, true)));
                    p1.cm = Cm::default().tag("import-self").tag("unknown-account");
                    if !r.receipt.is_empty() {
                        p1.cm = p1.cm.with_kv("receipt_id", &r.receipt);
                    }
                    let mut p2 = Post::new(if r.amt.neg { "expenses:unknown" } else { "income:unknown" });
                    p2.status = st;
                    p2.amount = pamt(Amt::new(r.amt.num().neg(), &r.cur, true));
                    p2.cm = Cm::default().tag("import-peer").tag("unknown-account").with_kv("trn_type", &r.type_);
                    if !r.name.is_empty() {
                        p2.cm = p2.cm.with_kv("trn_name", &r.name);
                    }
                    let h = self.hashes(r, i);
                    p1.cm.tags.insert(format!("fp-ppcsv.1.{}-{}", ns, h[0]));
                    if legacy {
                        p1.cm.tags.insert(format!("fp-{}-{}", ns, h[0]));
                        p2.cm.tags.insert(format!("fp-{}-{}", ns, h[1]));
                    }
                    t.posts.push(p1);
                    t.posts.push(p2);
                }
                t
            })
            .collect()
    }
    pub fn hashes(&self, r: &PpRow, index: usize) -> [String; 2] {
        let (d, (h, m, sec)) = self.local(r);
        let name = if r.name.is_empty() { None } else { Some(r.name.as_str()) };
        let a = Acc::default()
            .date(d)
            .time(h, m, sec)
            .s(&self.tzs[r.tz].0)
            .opt(name, |a, n| a.s(n))
            .s(&r.type_)
            .amt(r.amt.normal(), &r.cur)
            .amt(r.bal.normal(), &r.cur)
            .u64(index as u64);
        [a.clone().s("self").hash(), a.s("peer").hash()]
    }
}

// ------------------------------------------------------------------ PDF (OCR text)

#[derive(Clone, Debug)]
pub struct Word {
    pub left: i32,
    pub width: i32,
    pub text: String,
}
#[derive(Clone, Debug)]
pub struct OLine {
    pub top: i32,
    pub height: i32,
    pub words: Vec<Word>,
}
pub type Para = Vec<OLine>;
pub type Block = Vec<Para>;
pub type Page = Vec<Block>;

pub const TSV_HEAD: &str = "level\tpage_num\tblock_num\tpar_num\tline_num\tword_num\tleft\ttop\twidth\theight\tconf\ttext";

/// Some confidence; nothing depends on it.
fn conf(w: &Word, l: &OLine) -> i32 {
    match (w.left * 7 + l.top * 3 + w.text.len() as i32) % 13 {
        0 => 0,
        1 => 1 + w.left % 9,
        2 => 10 + l.top % 86,
        3 => 100,
        4 if w.left % 5 == 0 => -1,
        _ => 96,
    }
}

/// The TSV rows of one page; `@` stands for the page number.
pub fn page_rows(p: &Page) -> Vec<String> {
    let mut o = vec![];
    let mut row = |l: i32, b: usize, p: usize, n: usize, w: usize, pos: (i32, i32, i32, i32), conf: i32, t: &str| {
        o.push(format!("{}\t@\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}\t{}", l, b, p, n, w, pos.0, pos.1, pos.2, pos.3, conf, t));
    };
    row(1, 0, 0, 0, 0, (0, 0, 2480, 3508), -1, "");
    for (bi, b) in p.iter().enumerate() {
        row(2, bi + 1, 0, 0, 0, (50, 50, 2000, 3000), -1, "");
        for (pi, pa) in b.iter().enumerate() {
            row(3, bi + 1, pi + 1, 0, 0, (50, 50, 2000, 3000), -1, "");
            for (li, l) in pa.iter().enumerate() {
                row(4, bi + 1, pi + 1, li + 1, 0, (50, l.top, 2000, l.height), -1, "");
                for (wi, w) in l.words.iter().enumerate() {
                    row(5, bi + 1, pi + 1, li + 1, wi + 1, (w.left, l.top + 3, w.width, l.height - 5), conf(w, l), &w.text);
                }
            }
        }
    }
    o
}
pub fn pages_tsv(pages: &[Vec<String>]) -> String {
    let mut o = format!("{}\n", TSV_HEAD);
    for (i, p) in pages.iter().enumerate() {
        for r in p {
            o.push_str(&r.replacen("\t@\t", &format!("\t{}\t", i + 1), 1));
            o.push('\n');
        }
    }
    o
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PdfRow {
    pub date: Date,
    pub out: bool,
    pub amt: Dec,
    pub bal: Option<Dec>,
    pub edate: Option<Date>,
    /// Words of the first line, then of the continuation lines.
    pub lines: Vec<Vec<String>>,
}
impl PdfRow {
    pub fn desc(&self) -> String {
        self.lines.iter().map(|l| l.join(" ")).collect::<Vec<_>>().join(" ")
    }
}

#[derive(Clone, Debug)]
pub struct Pdf {
    pub account: String,
    pub rows: Vec<PdfRow>,
}

#[derive(Clone, Debug)]
pub struct Cols {
    pub date: i32,
    pub details: i32,
    pub payments: i32,
    pub receipts: i32,
    pub balance: i32,
    pub w: i32,
    /// Words end exactly where the next column starts.
    pub tight: bool,
}

const PDF_FIRST: &[&str] = &["Direct", "Payment", "Visa", "CASH", "ATM", "Transfer", "Bank", "To", "From", "Contactless", "Payments", "Date", "-x", "01", "12.50"];
const PDF_WORDS: &[&str] = &["debit", "TESCO", "1234", "J", "SMITH", "\"quote", "O'NEIL", "ref:", "a:b", "Café", "&", "£5", "Effective", "Date", "(x)", "*", "Balance", "credit", ":t:", "2020", "'s", "50%", ";;", "x;y"];

pub fn comma(d: Dec, with: bool) -> String {
    let t = d.digits();
    if !with {
        return t;
    }
    let (i, f) = t.split_once('.').unwrap_or((&t, ""));
    let mut o = String::new();
    for (k, c) in i.chars().enumerate() {
        if k > 0 && (i.len() - k) % 3 == 0 {
            o.push(',');
        }
        o.push(c);
    }
    if f.is_empty() {
        o
    } else {
        format!("{}.{}", o, f)
    }
}

/// One line of a table before it gets a position.
#[derive(Clone, Debug)]
pub enum TLine {
    Year(String, Option<String>),
    Line { dm: Option<Vec<String>>, details: Vec<String>, pay: Option<String>, rec: Option<String>, bal: Option<String> },
}

#[derive(Clone, Debug)]
pub struct PdfTable {
    pub lines: Vec<TLine>,
    /// Lines after the end of the table, in the same paragraph.
    pub after: Vec<TLine>,
}

/// The statement laid out as tables on pages; mutable for injecting defects.
#[derive(Clone, Debug)]
pub struct PdfDoc {
    pub account: Option<String>,
    pub pages: Vec<Vec<PdfTable>>,
}

impl Pdf {
    pub fn gen(s: &mut Src, max: usize) -> Pdf {
        let account = format!("{:02}-{:02}-{:02} {:08}", s.below(100), s.below(100), s.below(100), s.below(100_000_000));
        let mut rows: Vec<PdfRow> = vec![];
        let mut d = base_date(s).days();
        let (mut left, per_day) = bulk(s, max);
        while left > 0 {
            let k = s.range(1, per_day).min(left);
            left -= k;
            let mut day: Vec<PdfRow> = vec![];
            let alike = alike(s, k);
            for _ in 0..k {
                let r = if alike && !day.is_empty() {
                    day[0].clone()
                } else if !day.is_empty() && s.pct(35) {
                    let mut r = day[s.below(day.len())].clone();
                    if s.pct(30) {
                        r.amt = pdf_dec(s);
                    }
                    r
                } else {
                    Pdf::row(s, Date::from_days(d))
                };
                day.push(r);
            }
            rows.extend(day);
            d = later(s, d, 60);
        }
        Pdf { account, rows }
    }
    pub fn row(s: &mut Src, date: Date) -> PdfRow {
        let mut lines = vec![];
        let (nl, nw) = match s.weighted(&[96, 2, 2]) {
            0 => (s.small(2), 4),
            1 => (s.range(3, 30), 4),
            _ => (s.small(2), 30),
        };
        for i in 0..1 + nl {
            let n = s.range(1, nw);
            let mut l = vec![s.pick_s(if i == 0 { PDF_FIRST } else { &["REF", "TESCO", "\"x", "at", "Effective", "(y)", "1,234.56", "*z", "GB", "2020", "Balance"] })];
            for _ in 1..n {
                l.push(if s.pct(88) { s.pick_s(PDF_WORDS) } else { word(s) });
            }
            if l.len() >= 2 && l[0] == "Effective" && l[1] == "Date" {
                l[1] = "date".into();
            }
            // Never what would end the description of a header line.
            while l.len() > 1 && l[l.len() - 1].starts_with(";") {
                l.pop();
            }
            lines.push(l);
        }
        let bal = if s.pct(50) {
            let mut b = pdf_dec(s);
            b.neg = b.m != 0 && s.pct(20);
            Some(b)
        } else {
            None
        };
        PdfRow { date, out: !s.pct(40), amt: pdf_dec(s), bal, edate: if s.pct(15) { Some(base_date(s)) } else { None }, lines }
    }
    pub fn doc(&self, s: &mut Src) -> PdfDoc {
        let mut doc = PdfDoc { account: Some(self.account.clone()), pages: vec![] };
        let mut table: Vec<TLine> = vec![];
        let mut tables: Vec<PdfTable> = vec![];
        // Year and date shown in the current table.
        let mut year: Option<i32> = None;
        let mut shown: Option<Date> = None;
        let close = |s: &mut Src, table: &mut Vec<TLine>, tables: &mut Vec<PdfTable>| {
            let mut after = vec![];
            if !table.is_empty() && s.pct(30) {
                for _ in 0..s.range(1, 3) {
                    after.push(match s.below(3) {
                        0 => TLine::Line { dm: Some(vec!["07".into(), "Mar".into()]), details: vec!["Not".into(), "mine".into()], pay: Some("66.60".into()), rec: None, bal: None },
                        1 => TLine::Line { dm: Some(vec!["See".into(), "next".into(), "page".into()]), details: vec!["please".into()], pay: None, rec: Some("77.00".into()), bal: Some("5.00".into()) },
                        _ => TLine::Line { dm: None, details: vec!["continued".into()], pay: None, rec: None, bal: Some("1.00".into()) },
                    });
                }
            }
            tables.push(PdfTable { lines: std::mem::take(table), after });
        };
        for r in &self.rows {
            let need_year = year != Some(r.date.y);
            if need_year || s.pct(8) {
                let carry = if s.pct(40) { Some(comma(pdf_dec(s), true)) } else { None };
                table.push(TLine::Year(format!("{}", r.date.y), carry));
                year = Some(r.date.y);
                shown = None;
            }
            let dm = if shown != Some(r.date) || s.pct(20) { Some(vec![format!("{:02}", r.date.d), MONTHS[r.date.m as usize - 1].to_string()]) } else { None };
            shown = Some(r.date);
            let m = comma(r.amt, !s.pct(20));
            let (pay, rec) = if r.out { (Some(m), None) } else { (None, Some(m)) };
            // Which line shows the balance.
            let mut conts: Vec<Vec<String>> = r.lines[1..].to_vec();
            if let Some(e) = r.edate {
                let l = vec!["Effective".to_string(), "Date".to_string(), format!("{:02}", e.d), MONTHS[e.m as usize - 1].to_string(), format!("{}", e.y)];
                let at = s.below(conts.len() + 1);
                conts.insert(conts.len() - at, l);
            }
            let bal = r.bal.map(|b| format!("{}{}", if b.neg { "-" } else { "" }, comma(b, !s.pct(20))));
            let on = if bal.is_some() && s.pct(30) { s.below(conts.len() + 1) } else { 0 };
            table.push(TLine::Line { dm, details: r.lines[0].clone(), pay, rec, bal: if on == 0 { bal.clone() } else { None } });
            for (i, c) in conts.into_iter().enumerate() {
                // Sometimes the page ends within the transaction.
                if s.pct(6) {
                    close(s, &mut table, &mut tables);
                    doc.pages.push(std::mem::take(&mut tables));
                    year = None;
                    shown = None;
                }
                table.push(TLine::Line { dm: None, details: c, pay: None, rec: None, bal: if on == i + 1 { bal.clone() } else { None } });
            }
            if s.pct(12) {
                close(s, &mut table, &mut tables);
                year = None;
                shown = None;
                if s.pct(60) {
                    doc.pages.push(std::mem::take(&mut tables));
                }
            }
        }
        close(s, &mut table, &mut tables);
        doc.pages.push(tables);
        doc
    }
    pub fn expect(&self, ns: &str) -> Vec<Trn> {
        let mut k: Vec<i32> = vec![];
        for (i, r) in self.rows.iter().enumerate() {
            k.push(if i > 0 && self.rows[i - 1].date == r.date { k[i - 1] + 1 } else { 0 });
        }
        self.rows
            .iter()
            .zip(k)
            .map(|(r, k)| {
                let mut t = Trn::new(r.date, &r.desc());
                t.edate = r.edate;
                let own = if r.out { r.amt.neg() } else { r.amt };
                let peer_account = if r.out { "expenses:unknown" } else { "income:unknown" };
                let a = Acc::default().date(r.date).i32(k).s(&r.desc());
                let f = |acct: &str, amt: Dec| format!("fp-{}-{}", ns, a.clone().s(acct).amt(amt, "GBP").hash());
                let mut p1 = Post::new("assets:unknown");
                p1.amount = pamt(gbp(own));
                p1.balance = r.bal.map(|b| Bal::Amt(gbp(b)));
                p1.cm = Cm::default().tag("unknown-account").tag("import-self").tag(&f("assets:unknown", own)).with_kv("bank", "Nationwide").with_kv("seq", &format!("{}-{}", ns, k + 1));
                let mut p2 = Post::new(peer_account);
                p2.amount = pamt(gbp(own.neg()));
                p2.cm = Cm::default().tag("unknown-account").tag("import-peer").tag(&f(peer_account, own.neg())).with_kv("bank", "Nationwide");
                t.posts = vec![p1, p2];
                t
            })
            .collect()
    }
}

pub fn pdf_dec(s: &mut Src) -> Dec {
    match s.weighted(&[70, 15, 10, 5]) {
        0 => Dec::new(1 + s.below(50000) as u128, 2, false),
        1 => Dec::new(100_000 + s.below(999_000_000) as u128, 2, false),
        2 => Dec::new(1_000_000_000 + s.below(999_000_000) as u128 * 1000, 2, false),
        _ => Dec::new(0, 2, false),
    }
}

fn words_at(ws: &[String], left: i32, gap: i32) -> Vec<Word> {
    let mut x = left;
    ws.iter()
        .map(|t| {
            let width = (8 * t.chars().count() as i32).min(60).max(6);
            let w = Word { left: x, width, text: t.clone() };
            x += width + gap;
            w
        })
        .collect()
}

impl PdfDoc {
    /// Lays the document out; returns the pages' TSV rows.
    pub fn pages(&self, s: &mut Src) -> Vec<Vec<String>> {
        let mut out = vec![];
        let n = self.pages.len();
        let account_page = if n > 1 && s.pct(15) { s.below(n) } else { 0 };
        for (pi, tables) in self.pages.iter().enumerate() {
            let mut blocks: Page = vec![];
            let noise = |s: &mut Src, blocks: &mut Page| {
                let lines: &[&str] = &[
                    "Nationwide Building Society", "Page 1 of 3", "Date Details Payments Receipts", "Balance 12.34", "Account Number 12-34-56", "Account number 12-34-56 12345678", "Account Number 12-34-567 12345678", "Account Number 123456 12345678", "01 Jan FOO 12.00 13.00",
                    "2020 x", "Details Date Payments Receipts Balance", "Sort code 01-02-03", "Your Account Number 11-22-33 12345678", "date Details Payments Receipts Balance",
                ];
                let mut para: Para = vec![];
                for i in 0..s.range(1, 3) {
                    let t = s.pick_s(lines);
                    let ws: Vec<String> = t.split(' ').map(|x| x.to_string()).collect();
                    para.push(OLine { top: 100 + 40 * i as i32, height: 30, words: words_at(&ws, 100 + s.below(50) as i32, 20) });
                }
                blocks.push(vec![para]);
            };
            if s.pct(50) {
                noise(s, &mut blocks);
            }
            if pi == account_page {
                if let Some(a) = &self.account {
                    let mut ws: Vec<String> = vec!["Account".into(), "Number".into()];
                    ws.extend(a.split(' ').map(|x| x.to_string()));
                    if s.pct(30) {
                        ws.push("Sheet".into());
                    }
                    let l = OLine { top: 300, height: 28, words: words_at(&ws, 120, 15) };
                    if s.pct(50) || blocks.is_empty() {
                        blocks.push(vec![vec![l]]);
                    } else {
                        blocks.last_mut().unwrap()[0].push(l);
                    }
                }
            }
            let mut same_block = false;
            for t in tables {
                let base = 60 + s.below(200) as i32;
                let g = |s: &mut Src| s.below(60) as i32;
                let c = {
                    let details = base + 260 + g(s);
                    let payments = details + 800 + g(s);
                    let receipts = payments + 300 + g(s);
                    let balance = receipts + 320 + g(s);
                    Cols { date: base, details, payments, receipts, balance, w: 150, tight: s.pct(25) }
                };
                let h = s.range(24, 40) as i32;
                // Less than two line heights apart, but more than one.
                let pitch = h + s.range(4, (h - 2) as usize) as i32;
                let mut top = 600 + s.below(400) as i32;
                let mut para: Para = vec![];
                if s.pct(8) {
                    // Other text before it in the same paragraph.
                    for i in 0..s.range(1, 40) as i32 {
                        let ws: Vec<String> = s.pick_s(&["Your account at a glance", "Date 12 Jan", "Start balance 1.00", "Date Details Payments Receipts Total", "2020", "01 Feb x 1.00 2.00 3.00"]).split(' ').map(|x| x.to_string()).collect();
                        para.push(OLine { top: (top - 580 + 14 * i).max(0), height: 12, words: words_at(&ws, c.date, 20) });
                    }
                }
                if s.pct(25) {
                    para.push(OLine { top: top - 200, height: h, words: words_at(&["Statement".into(), "of".into(), "account".into()], c.date, 20) });
                }
                let mut head = vec![
                    Word { left: c.date, width: if c.tight { c.details - c.date } else { 80 }, text: "Date".into() },
                    Word { left: c.details, width: 120, text: "Details".into() },
                    Word { left: c.payments, width: 140, text: "Payments".into() },
                    Word { left: c.receipts, width: 130, text: "Receipts".into() },
                    Word { left: c.balance, width: c.w, text: "Balance".into() },
                ];
                if s.pct(6) {
                    // Something to its right.
                    let w = s.pick_s(&["GBP", "|", "£", "(£)", "Balance", "Date"]);
                    head.push(Word { left: c.balance + c.w + 5, width: 30, text: w });
                }
                para.push(OLine { top, height: h, words: head });
                top += pitch + if s.pct(20) { 100 } else { 0 };
                for (l, after) in t.lines.iter().map(|l| (l, false)).chain(t.after.iter().map(|l| (l, true))) {
                    if after && para.last().is_some() && !para.iter().any(|p| p.height == -1) {
                        // The gap that ends the table (before its first line only).
                        let prev = para.last().unwrap();
                        let need = prev.top + 2 * prev.height + 1 + s.below(60) as i32;
                        top = top.max(need);
                    }
                    para.push(OLine { top, height: h, words: line_words(l, &c, s) });
                    top += pitch;
                }
                if same_block && s.pct(50) {
                    blocks.last_mut().unwrap().push(para);
                } else {
                    blocks.push(vec![para]);
                }
                same_block = true;
                if s.pct(20) {
                    noise(s, &mut blocks);
                    same_block = false;
                }
            }
            out.push(page_rows(&blocks));
        }
        out
    }
}

fn right(t: &str, right: i32) -> Word {
    let width = (11 * t.chars().count() as i32).min(145);
    Word { left: right - width, width, text: t.to_string() }
}

fn line_words(l: &TLine, c: &Cols, s: &mut Src) -> Vec<Word> {
    let mut v = vec![];
    match l {
        TLine::Year(y, bal) => {
            v.push(Word { left: c.date + 2, width: 60, text: y.clone() });
            if let Some(b) = bal {
                v.extend(words_at(&["Balance".into(), "from".into(), "statement".into(), "12".into()], c.details, 15));
                v.push(right(b, c.balance + c.w));
            }
        }
        TLine::Line { dm, details, pay, rec, bal } => {
            if let Some(dm) = dm {
                // The first words lie under the header's word.
                let step = 70 / dm.len().max(2) as i32;
                for (i, t) in dm.iter().enumerate() {
                    let left = c.date + step * i as i32;
                    let width = if i + 1 == dm.len() { 60 } else { step - 3 };
                    v.push(Word { left, width, text: t.clone() });
                }
            }
            let left = c.details + s.below(3) as i32;
            let mut d = words_at(details, left, 15);
            let room = c.payments - 20 - left;
            if d.last().map(|w| w.left + w.width > left + room) == Some(true) {
                // Smaller letters.
                let step = room / d.len() as i32;
                for (i, w) in d.iter_mut().enumerate() {
                    w.left = left + step * i as i32;
                    w.width = (step - 3).max(1);
                }
            }
            if c.tight {
                if let Some(w) = d.last_mut() {
                    w.width = c.payments - w.left;
                }
            }
            v.extend(d);
            if let Some(p) = pay {
                let mut w = right(p, if c.tight { c.receipts } else { c.payments + 240 + s.below(8) as i32 });
                if c.tight && s.pct(30) {
                    w.left = c.payments;
                    w.width = if s.pct(50) { c.receipts - c.payments } else { 100 };
                }
                v.push(w);
            }
            if let Some(r) = rec {
                let mut w = right(r, if c.tight { c.balance } else { c.receipts + 240 + s.below(8) as i32 });
                if c.tight && s.pct(30) {
                    w.left = c.receipts;
                    w.width = if s.pct(50) { c.balance - c.receipts } else { 100 };
                }
                v.push(w);
            }
            if let Some(b) = bal {
                v.push(right(b, c.balance + c.w + s.below(10) as i32));
            }
        }
    }
    v
}
