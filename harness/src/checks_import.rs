//! C20-C30: imports.

use crate::checks_merge::read;
use crate::fake::Plan;
use crate::fp::Dec;
use crate::gen;
use crate::journal::*;
use crate::merge_model;
use crate::prop::*;
use crate::rules_model as rm;
use crate::st::{self, any_kind, strip_fps, tmp_left, tools_dir, Body, Cmd, Kind, St};
use crate::stmt::*;
use crate::sut::Out;
use std::collections::BTreeSet;

const DESC: &str = "descriptions are not empty, do not start with '(', '*' or '!', and hold no line break and no double space followed by ';'";
const DAYS: &str = "the rows of one date are adjacent in Nationwide statements, and PayPal rows with equal instants are adjacent";
const LINES: &str = "PDF table lines carry detail text; a line with a day and month also carries an amount; a year line is followed by one with day and month";

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C20", rule: "the statement has at least two rows", quick: 25000, thorough: 400000, min_nontrivial: 50, assumptions: &[DESC, DAYS], f: c20 },
        Prop { id: "C21", rule: "the statement has at least two rows", quick: 25000, thorough: 400000, min_nontrivial: 50, assumptions: &[DESC, DAYS, "instants from 2008 on in twelve output timezones"], f: c21 },
        Prop { id: "C22", rule: "the statement has at least two transactions", quick: 18000, thorough: 250000, min_nontrivial: 50, assumptions: &[DESC, LINES], f: c22 },
        Prop { id: "C23", rule: "one of the two tools fails or its output is unusable", quick: 15000, thorough: 200000, min_nontrivial: 70, assumptions: &["the tools are stand-ins that follow gm's and tesseract's command lines"], f: c23 },
        Prop { id: "C24", rule: "at least one fingerprint was compared with the published algorithm in two renderings", quick: 12000, thorough: 200000, min_nontrivial: 50, assumptions: &[DESC, DAYS, LINES], f: c24 },
        Prop { id: "C25", rule: "the import has two records of equal date or instant, or two records differing in one field were compared", quick: 12000, thorough: 200000, min_nontrivial: 40, assumptions: &[DESC, DAYS, LINES], f: c25 },
        Prop { id: "C26", rule: "a later download repeated at least one known transaction", quick: 4500, thorough: 60000, min_nontrivial: 40, assumptions: &[DESC, "downloads start and end between dates, with dates in ascending order"], f: c26 },
        Prop { id: "C27", rule: "the import has at least one transaction", quick: 7000, thorough: 120000, min_nontrivial: 60, assumptions: &[DAYS, LINES], f: c27 },
        Prop { id: "C28", rule: "the statement has a defect", quick: 20000, thorough: 300000, min_nontrivial: 70, assumptions: &[DESC, "dates and times in the importers' documented formats or clearly not dates and times"], f: c28 },
        Prop { id: "C29", rule: "a converted instant lies within a second of midnight in the output timezone, or the table or abbreviation is bad", quick: 20000, thorough: 300000, min_nontrivial: 70, assumptions: &[], f: c29 },
        Prop { id: "C30", rule: "a namespace option other than the default, or an output path option, was used", quick: 20000, thorough: 300000, min_nontrivial: 60, assumptions: &["the namespace of a statement without rows is not validated"], f: c30 },
    ]
}

fn faithful(c: &mut Ctx, kind: Kind) -> R {
    let max = if c.s.pct(5) { 40 } else { 10 };
    let st = st::gen(&mut c.s, kind, max);
    let cmd = st.setup(c, "")?;
    cmd.ok(c, &["-o", "out.journal"])?;
    let mut got = read(&c.read_s("out.journal")?, "the imported journal")?;
    let mut want = st.expect();
    strip_fps(&mut got);
    strip_fps(&mut want);
    if let Some(d) = diff("imported journal", &want, &got) {
        return fail(d);
    }
    c.nontrivial = st.len() >= 2;
    c.label(st.kind_name());
    match &st.body {
        Body::Nw(n) => {
            if n.rows.iter().any(|r| r.amt.m == 0) {
                c.label("zero amount");
            }
            if n.counters().iter().any(|k| *k > 0) {
                c.label("several rows of one date");
            }
        }
        Body::Pp(p) => {
            if p.groups().iter().any(|g| g.len() > 1) {
                c.label("grouped rows");
            }
            if p.rows.iter().any(|r| {
                let (d, _) = p.local(r);
                d.days() != (r.at + zone_offset(p.out_tz, r.at)).div_euclid(86400)
            }) {
                c.label("date differs between the row's and the output timezone");
            }
        }
        Body::Pdf(p) => {
            if p.rows.iter().any(|r| r.lines.len() > 1) {
                c.label("continuation lines");
            }
            if p.rows.iter().any(|r| r.edate.is_some()) {
                c.label("effective date");
            }
        }
    }
    Ok(())
}
fn c20(c: &mut Ctx) -> R {
    faithful(c, Kind::Nw)
}
fn c21(c: &mut Ctx) -> R {
    faithful(c, Kind::Pp)
}
fn c22(c: &mut Ctx) -> R {
    faithful(c, Kind::Pdf)
}

/// The import has to end with an ordinary error and leave everything alone.
fn rejected(c: &mut Ctx, o: &Out, before: &Snapshot, what: &str) -> R {
    if o.success() {
        return fail(format!("{}: the import succeeded\n{}", what, o.brief()));
    }
    if !o.clean_error() {
        return fail(format!("{}: the import did not end with an ordinary error: {}", what, o.brief()));
    }
    if !o.stdout.is_empty() {
        return fail(format!("{}: the failed import printed a journal: {}", what, o.brief()));
    }
    let after = c.snapshot();
    if after != *before {
        return fail(format!("{}: the failed import changed files: {:?} -> {:?}", what, before.keys().collect::<Vec<_>>(), after.keys().collect::<Vec<_>>()));
    }
    Ok(())
}

// ------------------------------------------------------------------ C23

fn c23(c: &mut Ctx) -> R {
    let st = st::gen(&mut c.s, Kind::Pdf, 6);
    let Body::Pdf(p) = &st.body else { unreachable!() };
    let pages = p.doc(&mut c.s).pages(&mut c.s);
    let mut cmd = st.setup_raw(c, "", b"%PDF-1.4 stand-in\n")?;
    // Always name the tools, so that one can be missing.
    cmd.args.truncate(cmd.input + 1);
    let d = tools_dir(c)?;
    let (mut gm, mut te) = (d.join("gm").display().to_string(), d.join("tesseract").display().to_string());
    let mut plan = Plan::ok(pages);
    if c.s.pct(4) {
        // Many pages.
        for _ in 0..c.s.range(20, 120) {
            plan.pages.push(crate::stmt::page_rows(&vec![]));
        }
    }
    let full = pages_tsv(&plan.pages).into_bytes();
    let lines: Vec<String> = String::from_utf8(full.clone()).unwrap().lines().map(|s| s.to_string()).collect();
    let join = |v: &[String]| v.iter().map(|l| format!("{}\n", l)).collect::<String>().into_bytes();
    let which = c.s.below(17);
    let bad = |c: &mut Ctx| -> R<String> {
        Ok(match c.s.below(3) {
            0 => c.dir.join("no-such-tool").display().to_string(),
            1 => {
                c.write("not-executable", "#!/bin/sh\nexit 0\n")?;
                c.dir.join("not-executable").display().to_string()
            }
            _ => c.dir.display().to_string(),
        })
    };
    let what = match which {
        0 => "control",
        1 => {
            gm = bad(c)?;
            "converter missing"
        }
        2 => {
            te = bad(c)?;
            "OCR tool missing"
        }
        3 | 4 | 5 => {
            plan.gm = crate::fake::failure(&mut c.s);
            "converter fails"
        }
        6 | 7 | 8 | 9 => {
            plan.tess = crate::fake::failure(&mut c.s);
            "OCR tool fails"
        }
        10 => {
            plan.tess = "none".into();
            "no OCR output"
        }
        _ => {
            plan.tess = "raw".into();
            let n = lines.len();
            // A row of the text (never the header).
            let k = 1 + c.s.below(n - 1);
            let mut v = lines.clone();
            let mut f: Vec<String> = v[k].split('\t').map(|s| s.to_string()).collect();
            let (what, raw): (&str, Vec<u8>) = match which {
                11 => ("empty OCR output", if c.s.pct(50) { vec![] } else { format!("{}\n", TSV_HEAD).into_bytes() }),
                12 => {
                    // Cut within a row, before its last field.
                    let cut: usize = c.s.range(1, 10);
                    let last = f[..cut].join("\t");
                    v.truncate(k);
                    let mut b = join(&v);
                    b.extend(last.into_bytes());
                    if c.s.pct(50) {
                        b.push(b'\n');
                    }
                    ("OCR output cut within a row", b)
                }
                13 => {
                    let i = c.s.below(10);
                    f[i] = c.s.pick_s(&["x", "", "1.5", "99999999999", "--1", "1 0"]);
                    v[k] = f.join("\t");
                    ("bad number in the OCR output", join(&v))
                }
                14 => {
                    // Out of order numbering.
                    let i = f[0].parse::<usize>().unwrap();
                    f[i] = c.s.pick_s(&["0", "-1", "977", "2147483647"]);
                    v[k] = f.join("\t");
                    ("bad numbering in the OCR output", join(&v))
                }
                15 => {
                    v.remove(0);
                    if c.s.pct(50) {
                        v.insert(0, TSV_HEAD.replace("line_num", "lin").replace("height", "h"));
                        ("renamed columns in the OCR output", join(&v))
                    } else {
                        ("OCR output without header", join(&v))
                    }
                }
                _ => {
                    if c.s.pct(50) {
                        let mut b = join(&v[..k]);
                        b.extend(b"5\t1\t1\t1\t1\t1\t0\t0\t1\t1\t90\t\xff\xfe\n");
                        b.extend(join(&v[k..]));
                        ("OCR output that is not UTF-8", b)
                    } else {
                        f[0] = c.s.pick_s(&["0", "6", "-1"]);
                        v[k] = f.join("\t");
                        ("bad level in the OCR output", join(&v))
                    }
                }
            };
            plan.raw = Some(raw);
            what
        }
    };
    c.label(what);
    cmd.args.push(gm);
    cmd.args.push(te);
    st.plan(c, &mut cmd, "", &plan)?;
    if c.s.pct(50) {
        c.write("out.journal", "; precious\n")?;
    }
    if c.s.pct(40) {
        crate::st::stale(c, "")?;
    }
    let before = c.snapshot();
    let to_file = !c.s.pct(30);
    let o = if to_file { cmd.run(c, &["-o", "out.journal"])? } else { cmd.run(c, &[])? };
    let left = tmp_left(c);
    if !left.is_empty() {
        return fail(format!("{}: temporary files are left: {:?}", what, left));
    }
    if which == 0 {
        if !o.success() {
            return fail(format!("the tools worked but the import failed: {}", o.brief()));
        }
        return Ok(());
    }
    c.nontrivial = true;
    rejected(c, &o, &before, what)
}

// ------------------------------------------------------------------ C24

fn all_fps(ts: &[Trn]) -> Vec<Vec<BTreeSet<String>>> {
    ts.iter().map(|t| t.posts.iter().map(|p| p.fps().into_iter().collect()).collect()).collect()
}

fn check_fps(c: &mut Ctx, st: &St, pre: &str) -> R {
    let cmd = st.setup(c, pre)?;
    cmd.ok(c, &["-o", "out.journal"])?;
    let got = read(&c.read_s("out.journal")?, "the imported journal")?;
    let (w, g) = (all_fps(&st.expect()), all_fps(&got));
    if w.len() != g.len() {
        return fail(format!("{} transactions expected, {} imported", w.len(), g.len()));
    }
    for (i, (a, b)) in w.iter().zip(&g).enumerate() {
        if a != b {
            return fail(format!("fingerprints of transaction #{} ({}): the published algorithm gives {:?}, the import {:?}", i, got[i].desc, a, b));
        }
    }
    Ok(())
}

fn c24(c: &mut Ctx) -> R {
    let k = any_kind(&mut c.s);
    let st = st::gen(&mut c.s, k, 8);
    check_fps(c, &st, "")?;
    // The same records in another file: other layout, later statuses, other
    // records on other dates. The expected values come from the records alone.
    let mut st2 = st.clone();
    match &mut st2.body {
        Body::Nw(n) => {
            let six = n.six;
            if !n.rows.is_empty() {
                let last = n.rows.iter().map(|r| r.date.days()).max().unwrap();
                let first = n.rows.iter().map(|r| r.date.days()).min().unwrap();
                if c.s.pct(50) {
                    n.rows.push(Nw::row(&mut c.s, six, Date::from_days(last + 1)));
                }
                if c.s.pct(50) {
                    n.rows.insert(0, Nw::row(&mut c.s, six, Date::from_days(first - 1)));
                }
            }
        }
        Body::Pp(p) => {
            for r in &mut p.rows {
                if c.s.pct(50) {
                    r.done = !r.done;
                }
                if c.s.pct(50) {
                    r.receipt = c.s.pick_s(&["", "NEW-1", "R9"]);
                }
            }
            p.out_tz = c.s.pick(ZONES);
            let at = p.rows.iter().map(|r| r.at).max().unwrap_or(1_600_000_000) + 5;
            let n = p.tzs.len();
            let g = Pp::group(&mut c.s, at, n, 2);
            p.rows.extend(g);
        }
        Body::Pdf(p) => {
            if let Some(l) = p.rows.last() {
                let d = Date::from_days(l.date.days() + 1);
                let r = Pdf::row(&mut c.s, d);
                p.rows.push(r);
            }
            for r in &mut p.rows {
                if c.s.pct(30) {
                    r.edate = None;
                    r.bal = None;
                }
            }
        }
    }
    if k != Kind::Pdf {
        st2.legacy = c.s.pct(50);
    }
    check_fps(c, &st2, "b")?;
    c.nontrivial = st.len() >= 1;
    c.label(st.kind_name());
    if st.legacy {
        c.label("legacy fingerprints");
    }
    Ok(())
}

// ------------------------------------------------------------------ C25

const PP_PEER: &str = "paypal-csv without --include-legacy-fingerprint writes peer postings that have no fingerprint";

fn import(c: &mut Ctx, st: &St, pre: &str) -> R<Vec<Trn>> {
    let cmd = st.setup(c, pre)?;
    let out = format!("{}out.journal", pre);
    cmd.ok(c, &["-o", &out])?;
    read(&c.read_s(&out)?, "the imported journal")
}

fn unique(c: &mut Ctx, st: &St, ts: &[Trn]) -> R<BTreeSet<String>> {
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for t in ts {
        for p in &t.posts {
            let f = p.fps();
            if f.is_empty() {
                if st.kind() == Kind::Pp && !st.legacy && p.cm.tags.contains("import-peer") {
                    c.known.push(PP_PEER.into());
                } else {
                    return fail(format!("posting {} of {} {:?} has no fingerprint", p.account, t.date.iso(), t.desc));
                }
            }
            for x in f {
                if !seen.insert(x.clone()) {
                    return fail(format!("fingerprint {} is on two postings (second: {} of {} {:?})", x, p.account, t.date.iso(), t.desc));
                }
            }
        }
    }
    Ok(seen)
}

fn c25(c: &mut Ctx) -> R {
    let k = any_kind(&mut c.s);
    c.label(format!("{:?}", k));
    if c.s.pct(55) {
        // Uniqueness within an import, and across namespaces.
        let mut st = st::gen(&mut c.s, k, 10);
        repeat_rows(c, &mut st);
        let a = import(c, &st, "")?;
        let fa = unique(c, &st, &a)?;
        c.nontrivial = match &st.body {
            Body::Nw(n) => n.counters().iter().any(|k| *k > 0),
            Body::Pp(p) => p.groups().iter().any(|g| g.len() > 1),
            Body::Pdf(p) => p.rows.windows(2).any(|w| w[0].date == w[1].date),
        };
        let ns = st.ns_name();
        let other = match c.s.weighted(&[40, 30, 10, 10, 10]) {
            1 => gen::recase(&mut c.s, &ns),
            2 => format!("{}{}", ns, c.s.pick_s(&["0", "_", "/", "+", "a"])),
            3 => format!("{}{}", c.s.pick_s(&["0", "_", "/", "+", "a"]), ns),
            4 => ns[..ns.len() - 1].to_string(),
            _ => c.s.pick_s(&["zz", "acct2", "ACCT", "x_"]),
        };
        let other = if valid_ns(&other) && !other.is_empty() { other } else { "zz".to_string() };
        if other != st.ns_name() {
            let mut st2 = st.clone();
            st2.ns = Ns::Fixed(other);
            let b = import(c, &st2, "b")?;
            let fb = unique(c, &st2, &b)?;
            if let Some(x) = fa.intersection(&fb).next() {
                return fail(format!("fingerprint {} appears under two namespaces", x));
            }
            c.label("two namespaces");
        }
        return Ok(());
    }
    // Two records that differ in one field.
    let mut st = st::gen(&mut c.s, k, 0);
    let mut st2;
    let what;
    match &mut st.body {
        Body::Nw(n) => {
            let d = base_date(&mut c.s);
            n.rows = vec![Nw::row(&mut c.s, n.six, d)];
            let (a, b) = shifted(&mut c.s);
            if c.s.pct(40) {
                n.rows[0].a = a.0;
                n.rows[0].b = b.0;
                let mut m = n.clone();
                m.rows[0].a = a.1;
                m.rows[0].b = b.1;
                st2 = st.clone();
                st2.body = Body::Nw(m);
                what = "text shifted between the fields";
            } else {
                let mut m = n.clone();
                let r = &mut m.rows[0];
                what = match c.s.below(if n.six { 6 } else { 5 }) {
                    0 => {
                        r.date = Date::from_days(r.date.days() + 1);
                        "date"
                    }
                    1 => {
                        r.a.push('x');
                        "type or transactions"
                    }
                    2 => {
                        r.b.push('x');
                        "description or location"
                    }
                    3 => {
                        r.amt.m += 1;
                        "amount"
                    }
                    4 => {
                        r.out = !r.out;
                        "paid out or in"
                    }
                    _ => {
                        r.bal.m += 1;
                        "balance"
                    }
                };
                st2 = st.clone();
                st2.body = Body::Nw(m);
            }
        }
        Body::Pp(p) => {
            p.tzs = vec![("GMT".into(), 0), ("UTC".into(), 0), ("BST".into(), 60)];
            let at = Pp::instant(&mut c.s, p.out_tz);
            p.rows = Pp::group(&mut c.s, at, 3, 1);
            let mut q = p.clone();
            let ((a0, a1), (b0, b1)) = shifted(&mut c.s);
            let r = &mut q.rows[0];
            what = match c.s.below(8) {
                0 => {
                    r.at += 86400;
                    "date"
                }
                1 => {
                    r.at += if r.at % 86400 == 86399 || r.at % 3600 == 3599 { -1 } else { 1 };
                    "time"
                }
                2 => {
                    p.rows[0].tz = 0;
                    r.tz = 1;
                    "time zone"
                }
                3 => {
                    p.rows[0].name = a0;
                    p.rows[0].type_ = b0;
                    r.name = a1;
                    r.type_ = b1;
                    "text shifted between name and type"
                }
                4 => {
                    r.cur = if r.cur == "GBP" { "USD".into() } else { "GBP".into() };
                    "currency"
                }
                5 => {
                    r.amt = r.amt.normal();
                    r.amt.m += 1;
                    "amount"
                }
                6 => {
                    r.bal = r.bal.normal();
                    r.bal.m += 1;
                    "balance"
                }
                _ => {
                    p.rows[0].amt = Dec::new(5, 0, false);
                    r.amt = Dec::new(5, 0, true);
                    "sign"
                }
            };
            st2 = st.clone();
            st2.body = Body::Pp(q);
        }
        Body::Pdf(p) => {
            let d = base_date(&mut c.s);
            p.rows = vec![Pdf::row(&mut c.s, d)];
            let mut q = p.clone();
            let r = &mut q.rows[0];
            what = match c.s.below(4) {
                0 => {
                    r.date = Date::from_days(r.date.days() + 1);
                    "date"
                }
                1 => {
                    r.lines[0].push("x".into());
                    "description"
                }
                2 => {
                    r.amt.m += 1;
                    "amount"
                }
                _ => {
                    r.out = !r.out;
                    "payment or receipt"
                }
            };
            st2 = st.clone();
            st2.body = Body::Pdf(q);
        }
    }
    c.label(format!("differs in {}", what));
    let a = import(c, &st, "")?;
    let b = import(c, &st2, "b")?;
    let mut fa = unique(c, &st, &a)?;
    let fb = unique(c, &st2, &b)?;
    if k == Kind::Nw {
        // The legacy algorithm is known not to cover every field.
        fa.retain(|f| f.starts_with("fp-nwcsv"));
    }
    if fa.is_empty() {
        return fail("no fingerprints");
    }
    if let Some(x) = fa.intersection(&fb).next() {
        return fail(format!("records that differ in {} have the same fingerprint {}", what, x));
    }
    c.nontrivial = true;
    Ok(())
}

/// Two pairs of texts with equal concatenation.
fn shifted(s: &mut Src) -> ((String, String), (String, String)) {
    let (a, b) = (s.pick_s(&["SHOP", "A,B", "Pay"]), s.pick_s(&["CASH", "to you", "x1"]));
    let mid = s.pick_s(&["X", "1", "Y-"]);
    ((format!("{}{}", a, mid), a.clone()), (b.clone(), format!("{}{}", mid, b)))
}

fn repeat_rows(c: &mut Ctx, st: &mut St) {
    if !c.s.pct(60) {
        return;
    }
    // Sometimes more than a byte can count.
    let k = if c.s.pct(3) { c.s.range(255, 700) } else { c.s.range(1, 3) };
    match &mut st.body {
        Body::Nw(n) if !n.rows.is_empty() => {
            let i = c.s.below(n.rows.len());
            for _ in 0..k {
                n.rows.insert(i, n.rows[i].clone());
            }
        }
        Body::Pp(p) if !p.rows.is_empty() => {
            let i = c.s.below(p.rows.len());
            for _ in 0..k {
                p.rows.insert(i, p.rows[i].clone());
            }
        }
        Body::Pdf(p) if !p.rows.is_empty() => {
            let i = c.s.below(p.rows.len());
            for _ in 0..k {
                p.rows.insert(i, p.rows[i].clone());
            }
        }
        _ => {}
    }
}

// ------------------------------------------------------------------ C26

fn c26(c: &mut Ctx) -> R {
    let k = any_kind(&mut c.s);
    let mut st = st::gen(&mut c.s, k, 12);
    if k == Kind::Pp {
        // Without it the peers have no fingerprint, see C25.
        st.legacy = true;
    }
    match &mut st.body {
        Body::Nw(n) => n.rows.sort_by_key(|r| r.date),
        Body::Pp(p) => p.rows.sort_by_key(|r| r.at),
        Body::Pdf(_) => {}
    }
    let all = st.expect();
    // Boundaries between dates, as transaction numbers.
    let mut cuts = vec![0];
    for i in 1..all.len() {
        if all[i].date != all[i - 1].date {
            cuts.push(i);
        }
    }
    cuts.push(all.len());
    cuts.dedup();
    let n = c.s.range(2, 4);
    // Journal as it should be, with the number of each statement transaction.
    let mut journal: Vec<(Option<usize>, Trn)> = vec![];
    if c.s.pct(40) {
        let mut t = Trn::new(Date::new(1999, 1, 1), "Opening balances");
        for (i, a) in ["assets:bank", "equity"].iter().enumerate() {
            let mut p = Post::new(a);
            p.cm = p.cm.tag(&format!("fp-manual-{}", i));
            t.posts.push(p);
        }
        gen::arrange(&mut t, &mut c.s);
        journal.push((None, t));
    }
    let jt = plain(&items_of(&journal.iter().map(|x| x.1.clone()).collect::<Vec<_>>()));
    c.write("journal", jt)?;
    let (mut lo, mut hi) = (0, 0);
    let chains = categories(&mut c.s, &all);
    let rules_text = rm::render_chains(&chains, &mut c.s);
    c.write("rules.ron", rules_text)?;
    let mut repeats = 0;
    for round in 0..n {
        // The next download: starts no earlier than the last, and no later than
        // its end; ends no earlier.
        if round > 0 {
            let opts: Vec<usize> = cuts.iter().copied().filter(|x| *x >= lo && *x <= hi).collect();
            lo = opts[c.s.below(opts.len().min(3))];
        }
        let opts: Vec<usize> = cuts.iter().copied().filter(|x| *x >= hi.max(lo)).collect();
        hi = if round + 1 == n { *opts.last().unwrap() } else { opts[c.s.below(opts.len())] };
        // A status may have changed and be seen by this download.
        if let Body::Pp(p) = &mut st.body {
            for r in &mut p.rows {
                if c.s.pct(20) {
                    r.done = true;
                }
                if r.receipt.is_empty() && c.s.pct(10) {
                    r.receipt = "LATE-1".into();
                }
            }
        } else if k == Kind::Nw {
            st.legacy = c.s.pct(50);
        }
        let part = window(&st, lo, hi);
        let pre = format!("d{}-", round);
        let cmd = part.setup(c, &pre)?;
        let imp = format!("{}imp", pre);
        cmd.ok(c, &["-o", &imp])?;
        let mut new = part.expect();
        let mut file = imp.clone();
        if c.s.pct(75) {
            let cat = format!("{}cat", pre);
            c.ok(&["apply-rules", "-o", &cat, &imp, "table", "rules.ron"])?;
            let mut it = rm::Interp { chains: &chains, trace: Default::default() };
            if it.run(&mut new).is_err() {
                return Err(Stop::Error("rules".into()));
            }
            file = cat;
        }
        c.ok(&["merge", "-o", "journal2", "journal", &file])?;
        // What the journal should be now.
        let mut ev = merge_model::Events::default();
        for (i, src) in new.into_iter().enumerate() {
            match journal.iter_mut().find(|(id, _)| *id == Some(lo + i)) {
                Some((_, t)) => {
                    repeats += 1;
                    for (d, s) in t.posts.iter_mut().zip(&src.posts) {
                        merge_model::merge_post(d, s, &mut ev);
                    }
                }
                None => journal.push((Some(lo + i), src)),
            }
        }
        journal.sort_by_key(|(_, t)| t.date);
        let got = read(&c.read_s("journal2")?, "the merged journal")?;
        let want: Vec<Trn> = journal.iter().map(|x| x.1.clone()).collect();
        if let Some(d) = diff(&format!("journal after download {}", round + 1), &want, &got) {
            return fail(d);
        }
        // The user edits the journal.
        for (id, t) in &mut journal {
            if id.is_none() || !c.s.pct(40) {
                continue;
            }
            match c.s.below(5) {
                0 => t.desc = gen::desc(&mut c.s),
                1 => t.cm.lines.push("seen".into()),
                2 => {
                    // Corrects figures.
                    let i = c.s.below(t.posts.len());
                    let p = &mut t.posts[i];
                    let which = c.s.below(4);
                    if which != 1 {
                        if let Some(a) = &mut p.amount {
                            a.amt.num = Num::new(a.amt.num.m + 5, a.amt.num.scale);
                        }
                    }
                    if which != 0 {
                        p.balance = match (&p.balance, c.s.below(3)) {
                            (Some(_), 0) | (None, _) => None,
                            (Some(_), 1) => Some(Bal::Zero),
                            (Some(Bal::Amt(a)), _) => {
                                let mut a = a.clone();
                                a.num = Num::new(a.num.m + 3, a.num.scale);
                                Some(Bal::Amt(a))
                            }
                            (b, _) => b.clone(),
                        };
                    }
                }
                _ => {
                    let i = c.s.below(t.posts.len());
                    let p = &mut t.posts[i];
                    p.account = c.s.pick_s(&["assets:bank", "expenses:food", "income:job"]);
                    p.cm.tags.remove("unknown-account");
                    if c.s.pct(50) {
                        p.cm.tags.insert("checked".into());
                        p.cm.kv.insert("note".into(), "mine".into());
                    }
                }
            }
        }
        let mut ts: Vec<Trn> = journal.iter().map(|x| x.1.clone()).collect();
        for t in &mut ts {
            gen::arrange(t, &mut c.s);
        }
        let text = varied(&items_of(&ts), &mut c.s);
        // What the edited text says is what the journal is (comment chunks may
        // be divided differently).
        let mut full = text.clone();
        if !full.is_empty() && !full.ends_with('\n') {
            full.push('\n');
        }
        let back = read(&full, "the edited journal")?;
        for (j, b) in journal.iter_mut().zip(back) {
            j.1 = b;
        }
        c.write("journal", text)?;
    }
    c.nontrivial = repeats > 0;
    c.label(st.kind_name());
    Ok(())
}

fn window(st: &St, lo: usize, hi: usize) -> St {
    let mut w = st.clone();
    match &mut w.body {
        Body::Nw(n) => n.rows = n.rows[lo..hi].to_vec(),
        Body::Pdf(p) => p.rows = p.rows[lo..hi].to_vec(),
        Body::Pp(p) => {
            let g = p.groups();
            p.rows = g[lo..hi].iter().flat_map(|r| p.rows[r.clone()].to_vec()).collect();
        }
    }
    w
}

/// Rules that give known accounts to some of the imported postings.
fn categories(s: &mut Src, all: &[Trn]) -> rm::Chains {
    let mut rules = vec![];
    for _ in 0..s.range(1, 4) {
        let word = if all.is_empty() { "x".to_string() } else { all[s.below(all.len())].desc.split(' ').next().unwrap().to_string() };
        let acct = s.pick_s(&["assets:unknown", "expenses:unknown", "income:unknown"]);
        let to = s.pick_s(&["assets:bank", "expenses:food", "income:job", "expenses:other"]);
        rules.push(rm::Rule {
            pred: rm::Pred::All(vec![rm::Pred::Account(rm::Sm::Eq(acct)), rm::Pred::Desc(rm::Sm::Contains(word))]),
            act: rm::Act::All(vec![rm::Act::Account(to), rm::Act::RmPFlag("unknown-account".into()), rm::Act::PFlag("cat".into())]),
            ret: s.pct(50),
        });
    }
    let mut ch = rm::Chains::new();
    ch.insert("start".into(), rules);
    ch
}

// ------------------------------------------------------------------ C27

const BAD_DESC: &str = "statement texts that a journal cannot hold as they are (a description that is empty, starts with '(', '*' or '!' or contains a double space and ';', or any text with a line break) are written nevertheless and read back differently or not at all";

fn c27(c: &mut Ctx) -> R {
    let k = any_kind(&mut c.s);
    let mut st = st::gen(&mut c.s, k, 8);
    if c.s.pct(4) && unholdable(c, &mut st) {
        let cmd = st.setup(c, "")?;
        let o = cmd.run(c, &["-o", "out.journal"])?;
        if o.success() {
            let same = match crate::journal::parse(&c.read_s("out.journal")?) {
                Ok(i) => diff("", &st.expect(), &trns(&i)).is_none(),
                Err(_) => false,
            };
            if !same {
                c.known.push(BAD_DESC.into());
            }
        }
        return Ok(());
    }
    let cmd = st.setup(c, "")?;
    cmd.ok(c, &["-o", "out.journal"])?;
    let text = c.read_s("out.journal")?;
    let ts = read(&text, "the imported journal")?;
    if let Some(d) = diff("imported journal", &st.expect(), &ts) {
        return fail(d);
    }
    c.write("start.ron", crate::rules_model::render_chains(&[("start".to_string(), vec![])].into_iter().collect(), &mut Src::replay(&[])))?;
    c.write("f.journal", &text)?;
    c.ok(&["fmt", "f.journal"])?;
    if let Some(d) = diff("imported journal after fmt", &ts, &read(&c.read_s("f.journal")?, "the result of fmt")?) {
        return fail(d);
    }
    c.ok(&["apply-rules", "-o", "r.journal", "out.journal", "table", "start.ron"])?;
    if let Some(d) = diff("journal after an empty rule table", &ts, &read(&c.read_s("r.journal")?, "the result of apply-rules")?) {
        return fail(d);
    }
    c.write("g.journal", &text)?;
    c.ok(&["generate-fingerprints", "g.journal"])?;
    let mut g = read(&c.read_s("g.journal")?, "the result of generate-fingerprints")?;
    let complete = ts.iter().all(|t| t.posts.iter().all(|p| !p.fps().is_empty()));
    if !complete {
        // Only postings without a fingerprint gain one.
        for (t, o) in g.iter_mut().zip(&ts) {
            for (p, q) in t.posts.iter_mut().zip(&o.posts) {
                if q.fps().is_empty() {
                    p.cm.tags.retain(|x| !x.starts_with("fp-"));
                }
            }
        }
    }
    if let Some(d) = diff("journal after generate-fingerprints", &ts, &g) {
        return fail(d);
    }
    let m = if complete { "out.journal" } else { "g.journal" };
    c.ok(&["merge", "-o", "m.journal", m])?;
    let mut want = read(&c.read_s(m)?, "the journal to merge")?;
    want.sort_by_key(|t| t.date);
    if let Some(d) = diff("merged journal", &want, &read(&c.read_s("m.journal")?, "the merged journal")?) {
        return fail(d);
    }
    c.nontrivial = !ts.is_empty();
    c.label(st.kind_name());
    Ok(())
}

fn unholdable(c: &mut Ctx, st: &mut St) -> bool {
    let d = c.s.pick_s(&["(refund) X", "*STAR", "* STAR", "! wow", "FOO  ; bar", "FOO\nBAR"]);
    match &mut st.body {
        Body::Nw(n) if !n.rows.is_empty() => {
            if n.six && c.s.pct(20) {
                n.rows[0].b = String::new();
            } else if n.six {
                n.rows[0].b = d;
            } else {
                n.rows[0].a = d;
            }
            true
        }
        Body::Pp(p) if !p.rows.is_empty() => {
            p.rows[0].name = d;
            true
        }
        Body::Pdf(p) if !p.rows.is_empty() => {
            p.rows[0].lines = vec![vec!["(x)".into(), "y".into()]];
            true
        }
        _ => false,
    }
}

// ------------------------------------------------------------------ C28

/// A statement's file with one defect; None when there is nothing to break.
fn nw_defect(s: &mut Src, n: &Nw) -> Option<(String, Vec<u8>)> {
    let mut g = n.grid(s);
    let rows = n.rows.len();
    let what;
    let pick = if rows == 0 { 6 + s.below(3) } else { s.below(10) };
    let r = if rows == 0 { 0 } else { 4 + s.below(rows) };
    let bad_money = ["1.00", "£1", "$1.00", "£ 1.00", "£1.0.0", "£abc", "£", "£1.", "£.5", "£--1.00", "GBP1.00", "£1.00x", "£123456789012345678901234567890.00", "£1,00", "£-", "£1.00 £2.00", "1.00£", "£+1.00"];
    match pick {
        0 => {
            let d = s.pick_s(&["32 Jan 2020", "30 Feb 2020", "29 Feb 2019", "31 Apr 2020", "01 Foo 2020", "", "2020-01-01", "01/01/2020", "garbage", "01 Jan 2020 x", "00 Jan 2020", "01 Jan", "Jan 2020", "01 13 2020", "31 Dec 10000", "01 Jan +10000", "01 Jan -0001"]);
            what = format!("bad date {:?}", d);
            g[r][0] = d;
        }
        1 => {
            let i = if g[r][3].is_empty() { 4 } else { 3 };
            let m = s.pick_s(&bad_money);
            what = format!("bad amount {:?}", m);
            g[r][i] = m;
        }
        2 if n.six => {
            let m = if s.pct(20) { String::new() } else { s.pick_s(&bad_money) };
            what = format!("bad balance {:?}", m);
            g[r][5] = m;
        }
        2 | 3 => {
            what = "both paid out and paid in".to_string();
            let v = s.pick_s(&["£1.00", "£0.00", "£12.34"]);
            let i = if g[r][3].is_empty() { 3 } else { 4 };
            g[r][i] = v;
        }
        4 => {
            what = "neither paid out nor paid in".to_string();
            g[r][3] = String::new();
            g[r][4] = String::new();
        }
        9 => {
            what = "row of empty fields".to_string();
            let f = s.pick_s(&["", "", " "]);
            let keep = s.below(8);
            for (i, x) in g[r].iter_mut().enumerate() {
                // Sometimes all but one of them.
                if i != keep {
                    *x = f.clone();
                }
            }
        }
        5 => {
            if s.pct(50) {
                let k = s.range(1, g[r].len() - 1);
                for _ in 0..k {
                    g[r].pop();
                }
                what = format!("{} columns missing in a row", k);
            } else {
                let v = s.pick_s(&["", "x", "£1.00"]);
                let at = if s.pct(50) { g[r].len() } else { s.below(g[r].len()) };
                g[r].insert(at, v);
                what = format!("extra column at {} in a row", at);
            }
        }
        6 => {
            let i = s.below(3);
            let v = s.pick_s(&["Account:", "", "account name:", "Account Balance", "Date"]);
            what = format!("leading record {} is {:?}", i, v);
            g[i][0] = v;
        }
        7 => {
            match s.below(4) {
                0 => {
                    let i = s.below(3);
                    g.remove(i);
                    what = format!("leading record {} missing", i);
                }
                1 => {
                    let i = 1 + s.below(2);
                    g[i][1] = s.pick_s(&["abc", "", "1.00", "£x"]);
                    what = format!("leading record {} with a bad amount", i);
                }
                2 => {
                    let i = s.below(3);
                    g[i].pop();
                    what = format!("leading record {} without value", i);
                }
                _ => {
                    let k = s.below(4);
                    g.truncate(k);
                    what = format!("file ends after {} records", k);
                }
            };
        }
        _ => {
            let h = &mut g[3];
            match s.below(6) {
                0 => {
                    let i = s.below(h.len() - 1);
                    h.swap(i, i + 1);
                    what = "columns swapped in the header".to_string();
                }
                1 => {
                    h.pop();
                    what = "column missing in the header".to_string();
                }
                2 => {
                    h.push("Extra".into());
                    what = "extra column in the header".to_string();
                }
                3 => {
                    let i = s.below(h.len());
                    h[i] = h[i].to_uppercase();
                    what = "upper case header".to_string();
                }
                4 => {
                    let i = s.below(h.len());
                    h[i] = "Amount".into();
                    what = "renamed header".to_string();
                }
                _ => {
                    if rows == 0 {
                        return None;
                    }
                    g.remove(3);
                    what = "header missing".to_string();
                }
            }
        }
    }
    Some((what, cp1252(&csv(&g, s, true, None))))
}

fn pp_defect(s: &mut Src, p: &Pp) -> Option<(String, Vec<u8>)> {
    let mut g = p.grid();
    let what;
    let rows = p.rows.len();
    // Also without any row the columns have to be there.
    let pick = if rows == 0 { 7 } else { s.below(10) };
    let r = if rows == 0 { 0 } else { 1 + s.below(rows) };
    match pick {
        0 => {
            let d = s.pick_s(&["32/01/2020", "30/02/2020", "29/02/2019", "2020-01-01", "", "x", "01/13/2020", "01 Jan 2020", "1/1", "00/01/2020", "01/01/2020 x", "01/01/10000", "05/01/+10000", "01/01/+262142", "25/12/-0001"]);
            what = format!("bad date {:?}", d);
            g[r][0] = d;
        }
        1 => {
            let d = s.pick_s(&["25:00:00", "12:60:00", "12:00", "noon", "", "24:00:00", "12:00:61", "12:00:60", "23:59:60", "12.00.00", "12:00:00 x"]);
            what = format!("bad time {:?}", d);
            g[r][1] = d;
        }
        2 => {
            let d = s.pick_s(&["XYZ", "", "UTC+00", "+00:00", "Europe/London"]);
            what = format!("unknown timezone {:?}", d);
            g[r][2] = d;
        }
        3 => {
            let d = s.pick_s(&["Denied", "completed", "", "Refunded", "COMPLETED", "Complete", "*"]);
            what = format!("unknown status {:?}", d);
            g[r][5] = d;
        }
        4 => {
            let d = s.pick_s(&["abc", "", "1.2.3", "--1", "1.0x", "£1", "- 1", "1 000", "1_000", "1_0.00", "5__0", "123456789012345678901234567890123", "0x10"]);
            what = format!("bad number {:?}", d);
            let i = *s.pick(&[7, 9]);
            g[r][i] = d;
        }
        5 => {
            if s.pct(50) {
                g[r].pop();
                what = "missing column in a row".to_string();
            } else {
                g[r].push(s.pick_s(&["", "x"]));
                what = "extra column in a row".to_string();
            }
        }
        9 => {
            what = "row of empty fields".to_string();
            let f = s.pick_s(&["", "", " "]);
            let keep = s.below(14);
            for (i, x) in g[r].iter_mut().enumerate() {
                if i != keep {
                    *x = f.clone();
                }
            }
        }
        6 => {
            let groups = p.groups();
            let k = s.below(groups.len());
            for i in groups[k].clone() {
                g[1 + i][3] = String::new();
            }
            what = "group without a name".to_string();
        }
        7 => {
            let i = *s.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 9]);
            if s.pct(50) {
                g[0][i] = s.pick_s(&["Amt", "DATE", "x", ""]);
                what = format!("header {} renamed", PP_COLS[i]);
            } else {
                for r in &mut g {
                    r.remove(i);
                }
                what = format!("column {} missing", PP_COLS[i]);
            }
        }
        _ => {
            g.remove(0);
            what = "header missing".to_string();
        }
    }
    Some((what, csv(&g, s, true, None).into_bytes()))
}

/// All (page, table, line) of lines with an amount.
fn amount_lines(d: &PdfDoc) -> Vec<(usize, usize, usize)> {
    let mut v = vec![];
    for (p, page) in d.pages.iter().enumerate() {
        for (t, table) in page.iter().enumerate() {
            for (l, line) in table.lines.iter().enumerate() {
                if let TLine::Line { pay, rec, .. } = line {
                    if pay.is_some() || rec.is_some() {
                        v.push((p, t, l));
                    }
                }
            }
        }
    }
    v
}

fn pdf_defect(s: &mut Src, doc: &mut PdfDoc) -> Option<String> {
    let lines = amount_lines(doc);
    let which = s.below(10);
    if which == 0 || lines.is_empty() {
        doc.account = if s.pct(50) { None } else { Some(s.pick_s(&["12-34-5 12345678", "12-34-56 1234567", "123456 12345678", "12-34-56"])) };
        return Some("no account number".into());
    }
    let (p, t, l) = lines[s.below(lines.len())];
    let table = &mut doc.pages[p][t];
    // The first line with day and month after the first year of the table.
    let first = table.lines.iter().position(|x| matches!(x, TLine::Line { dm: Some(_), .. }));
    let bad = |s: &mut Src| s.pick_s(&["12.3x", "O.00", "1.2.3", "--5", "5.00-", "£5.00", "1O.00", "x", "12,34", "1,2345.00", ",123.00", "1_2.00", "12_34", "1,00", "1234,567.00", "1,234,56.78", "1,,234.00"]);
    match which {
        1 => {
            let TLine::Line { pay, rec, .. } = &mut table.lines[l] else { unreachable!() };
            let v = s.pick_s(&["1.00", "0.00", "12.34"]);
            if pay.is_some() {
                *rec = Some(v);
            } else {
                *pay = Some(v);
            }
            Some("payment and receipt on one line".into())
        }
        9 => {
            let TLine::Line { details, .. } = &mut table.lines[l] else { unreachable!() };
            details.clear();
            Some("amount without details".into())
        }
        2 => {
            let TLine::Line { pay, rec, .. } = &mut table.lines[l] else { unreachable!() };
            let v = if s.pct(30) { "-5.00".to_string() } else { bad(s) };
            *(if pay.is_some() { pay } else { rec }) = Some(v.clone());
            Some(format!("bad amount {:?}", v))
        }
        3 => {
            let TLine::Line { bal, .. } = &mut table.lines[l] else { unreachable!() };
            let v = bad(s);
            *bal = Some(v.clone());
            Some(format!("bad balance {:?}", v))
        }
        4 => {
            let i = table.lines.iter().position(|x| matches!(x, TLine::Year(..)))?;
            first?;
            // Only the first year line is sure to be the only one before a date.
            if table.lines[i + 1..].iter().take_while(|x| !matches!(x, TLine::Line { dm: Some(_), .. })).any(|x| matches!(x, TLine::Year(..))) {
                return None;
            }
            table.lines.remove(i);
            Some("date without a year".into())
        }
        5 => {
            let i = table.lines.iter().position(|x| matches!(x, TLine::Year(..)))?;
            let TLine::Year(y, _) = &mut table.lines[i] else { unreachable!() };
            *y = s.pick_s(&["1979", "2101", "20Z0", "abcd", "12345", "0", "19"]);
            Some(format!("bad year {:?}", y))
        }
        6 => {
            let i = first?;
            let TLine::Line { dm, .. } = &mut table.lines[i] else { unreachable!() };
            *dm = None;
            // Nothing before it has a date, and nothing after it may give one.
            Some("transaction without a date".into())
        }
        7 => {
            let TLine::Line { dm, .. } = &mut table.lines[l] else { unreachable!() };
            let v: Vec<String> = s.pick_s(&["32 Jan", "30 Feb", "31 Jun", "xx Jan", "01 Foo", "00 Jan", "01 Jan 20", "01 01", "Jan 01"]).split(' ').map(|x| x.to_string()).collect();
            *dm = Some(v.clone());
            Some(format!("bad date {:?}", v.join(" ")))
        }
        _ => {
            let e: Vec<String> = format!("Effective Date {}", s.pick_s(&["32 Jan 2020", "30 Feb 2020", "soon", "01 Foo 2020", "01 Jan", "2020-01-01", "01 Jan +10000", "01 Jan -0020"])).split(' ').map(|x| x.to_string()).collect();
            // Of several, the last one counts.
            let later = |x: &TLine| matches!(x, TLine::Line { details, pay: None, rec: None, .. } if details.first().is_some_and(|d| d == "Effective"));
            let mut i = 0;
            table.lines.retain(|x| {
                i += 1;
                i <= l + 1 || !later(x)
            });
            for (i, page) in doc.pages.iter_mut().enumerate() {
                for (k, t2) in page.iter_mut().enumerate() {
                    if (i, k) > (p, t) {
                        t2.lines.retain(|x| !later(x));
                    }
                }
            }
            let table = &mut doc.pages[p][t];
            table.lines.insert(l + 1, TLine::Line { dm: None, details: e.clone(), pay: None, rec: None, bal: None });
            Some(format!("bad effective date {:?}", e.join(" ")))
        }
    }
}

fn c28(c: &mut Ctx) -> R {
    let k = any_kind(&mut c.s);
    let mut st = st::gen(&mut c.s, k, 7);
    let control = c.s.pct(12);
    let mut cmd: Cmd;
    let what: String;
    match &mut st.body {
        Body::Nw(n) => {
            let (w, data) = match if control { None } else { nw_defect(&mut c.s, n) } {
                Some(x) => x,
                None => (String::new(), n.file(&mut c.s, true)),
            };
            what = w;
            cmd = st.setup_raw(c, "", &data)?;
        }
        Body::Pp(p) => {
            if p.tzs.iter().any(|(n, _)| n == "XYZ") {
                p.tzs.retain(|(n, _)| n != "XYZ");
            }
            let (w, data) = match if control { None } else { pp_defect(&mut c.s, p) } {
                Some(x) => x,
                None => (String::new(), p.file(&mut c.s, true)),
            };
            what = w;
            cmd = st.setup_raw(c, "", &data)?;
        }
        Body::Pdf(p) => {
            let mut doc = p.doc(&mut c.s);
            what = if control { None } else { pdf_defect(&mut c.s, &mut doc) }.unwrap_or_default();
            let pages = doc.pages(&mut c.s);
            cmd = st.setup_raw(c, "", b"%PDF-1.4 stand-in\n")?;
            st.plan(c, &mut cmd, "", &Plan::ok(pages))?;
        }
    }
    if c.s.pct(40) {
        c.write("out.journal", "; precious\n")?;
    }
    let before = c.snapshot();
    let to_file = !c.s.pct(30);
    let o = if to_file { cmd.run(c, &["-o", "out.journal"])? } else { cmd.run(c, &[])? };
    if what.is_empty() {
        c.label("control");
        if !o.success() {
            return fail(format!("a statement without defect was rejected: {}", o.brief()));
        }
        return Ok(());
    }
    c.nontrivial = true;
    c.label(format!("{}: {}", st.kind_name(), what.split(" \"").next().unwrap()));
    rejected(c, &o, &before, &what)
}

// ------------------------------------------------------------------ C29

fn c29(c: &mut Ctx) -> R {
    let mut p = Pp { rows: vec![], tzs: Pp::gen_tzs(&mut c.s), out_tz: "UTC" };
    p.out_tz = c.s.pick(&["UTC", "UTC", "Asia/Kolkata", "Etc/GMT+5", "Pacific/Kiritimati"]);
    // For every zone, the last second of a day and the first of the next.
    let zones: Vec<usize> = (0..p.tzs.len()).collect();
    for z in zones {
        for _ in 0..c.s.range(1, 2) {
            let d = base_date(&mut c.s).days() * 86400;
            let mid = d - zone_offset(p.out_tz, d);
            for at in [mid - 1, mid] {
                let mut r = Pp::row(&mut c.s, at, 1);
                r.tz = z;
                if r.name.is_empty() {
                    r.name = "N".into();
                }
                if p.rows.last().map(|x| x.at) != Some(at) {
                    p.rows.push(r.clone());
                }
                // The same instant in another zone joins the group.
                if c.s.pct(30) {
                    let mut r2 = r.clone();
                    r2.tz = c.s.below(p.tzs.len());
                    p.rows.push(r2);
                }
            }
        }
    }
    let st = St { body: Body::Pp(p.clone()), ns: Ns::Default, legacy: false };
    let mut table = p.table(&mut c.s);
    let mut what = String::new();
    let mut unused_only = false;
    match c.s.weighted(&[45, 30, 10, 15]) {
        0 => {}
        1 => {
            let o = c.s.pick_s(&[
                "UTC+1", "UTC+001", "+01:00", "UTC+24", "UTC+24:00", "UTC-24", "UTC+23:60", "UTC+01:60", "UTC-01:99", "UTC+01:5", "UTC 01", "UTC", "\"\"", "utc+01", "UTC+01:00:00", "UTC+0A", "UTC+1:00", "UTC01", "GMT+01", "UTC+99", "UTC+0100", "UTC--1", "xUTC+01", "UTC+01x",
            ]);
            table.push_str(&if table.starts_with("utc") { format!("{},ZZZ\n", o) } else { format!("ZZZ,{}\n", o) });
            what = format!("bad offset {}", o);
        }
        2 => {
            let i = c.s.below(p.tzs.len());
            let m = if c.s.pct(40) { p.tzs[i].1 } else { 15 };
            let o = offset_text(m, &mut c.s);
            let q = format!("\"{}\"", p.tzs[i].0.replace('"', "\"\""));
            table.push_str(&if table.starts_with("utc") { format!("{},{}\n", o, q) } else { format!("{},{}\n", q, o) });
            what = format!("abbreviation {} defined twice", p.tzs[i].0);
        }
        _ => {
            // An abbreviation of some row is not in the table.
            let i = c.s.below(p.tzs.len());
            if p.rows.iter().any(|r| r.tz == i) {
                let mut q = p.clone();
                let gone = q.tzs.remove(i).0;
                // Something similar instead.
                if c.s.pct(60) {
                    let other = c.s.pick_s(&[&format!("{}1", gone), &format!(" {}", gone), &gone[..gone.len() - 1], &format!("x{}", gone)]);
                    if !q.tzs.iter().any(|t| t.0 == other) {
                        q.tzs.push((other, 0));
                    }
                }
                table = q.table(&mut c.s);
                what = format!("abbreviation {} not in the table", gone);
            } else {
                unused_only = true;
            }
        }
    }
    let _ = unused_only;
    let data = p.file(&mut c.s, true);
    let cmd = st.setup_raw(c, "", &data)?;
    c.write("tz.csv", table)?;
    let before = c.snapshot();
    let o = cmd.run(c, &["-o", "out.journal"])?;
    c.nontrivial = true;
    if !what.is_empty() {
        c.label(what.split(' ').take(2).collect::<Vec<_>>().join(" "));
        return rejected(c, &o, &before, &what);
    }
    c.label("good table");
    if !o.success() {
        return fail(format!("the import failed: {}", o.brief()));
    }
    let mut got = read(&c.read_s("out.journal")?, "the imported journal")?;
    let mut want = st.expect();
    strip_fps(&mut got);
    strip_fps(&mut want);
    match diff("imported journal", &want, &got) {
        Some(d) => fail(d),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------ C30

fn c30(c: &mut Ctx) -> R {
    if c.s.pct(50) {
        return c30_ns(c);
    }
    let k = any_kind(&mut c.s);
    let mut st = st::gen(&mut c.s, k, 3);
    // Namespaces with and without slashes.
    if c.s.pct(50) {
        st.ns = Ns::Fixed(c.s.pick_s(&["acct", "A/b+c_1", "x/y/z", "0"]));
    }
    let ns = st.ns_name();
    let cmd = st.setup(c, "")?;
    let sub = c.s.pct(65);
    let mk = c.s.pct(50);
    let to_stdout = c.s.pct(12);
    let pat = c.s.pick_s(&["d/%FP_NS%.journal", "d/%FP_NS%/%FP_NS%.j", "d/e/x-%FP_NS%-%FP_NS%", "%fp_ns%.j", "d/%FP_NS", "d/FP_NS%.j", "d/e-%FP_NS%/f/%FP_NS%.%FP_NS%", "plain.journal", "d/e/f/plain", "d-%FP_NS%/f", "./%FP_NS%", "d/%%FP_NS%%", "d/%FP_NS%FP_NS%"]);
    let path = if sub { pat.replace("%FP_NS%", &ns) } else { pat.clone() };
    // The whole path, now and then.
    let pat = if c.s.pct(25) { c.path(&pat).to_string_lossy().into_owned() } else { pat };
    if path.ends_with('/') {
        return Err(Stop::Discard("the output path names a directory"));
    }
    if c.s.pct(50) {
        std::fs::create_dir_all(c.path("d"))?;
    }
    if c.s.pct(30) {
        if let Some(d) = std::path::Path::new(&path).parent() {
            std::fs::create_dir_all(c.dir.join(d))?;
        }
    }
    if c.s.pct(20) && c.path(&path).parent().map(|p| p.is_dir()) == Some(true) {
        std::fs::write(c.path(&path), "; old content ".repeat(300))?;
    }
    let before = c.snapshot();
    let mut pre: Vec<&str> = vec![];
    if sub {
        pre.push("--sub-output-path");
    }
    if mk {
        pre.push("--make-parent-dirs");
    }
    if to_stdout {
        if c.s.pct(50) {
            pre.extend(["-o", "-"]);
        }
    } else {
        pre.extend(["-o", &pat]);
    }
    c.label(format!("sub={} make={} stdout={}", sub, mk, to_stdout));
    c.nontrivial = sub || mk;
    let o = cmd.run(c, &pre)?;
    if to_stdout && (sub || mk) {
        return rejected(c, &o, &before, "path option with standard output");
    }
    let text = if to_stdout {
        if !o.success() {
            return fail(format!("the import failed: {}", o.brief()));
        }
        if c.snapshot() != before {
            return fail("files changed although the output is standard output");
        }
        o.text()
    } else {
        let parent_there = c.path(&path).parent().map(|p| p.is_dir()) == Some(true) && {
            // Was it there before the run?
            let rel = std::path::Path::new(&path).parent().map(|p| p.to_string_lossy().split('/').filter(|x| !x.is_empty() && *x != ".").collect::<Vec<_>>().join("/")).unwrap_or_default();
            rel.is_empty() || rel == "." || before.contains_key(&format!("{}/", rel))
        };
        if !parent_there && !mk {
            return rejected(c, &o, &before, "output in a missing directory");
        }
        if !o.success() {
            return fail(format!("the import failed: {}", o.brief()));
        }
        let key = path.split('/').filter(|x| !x.is_empty() && *x != ".").collect::<Vec<_>>().join("/");
        let after = c.snapshot();
        for (f, data) in &after {
            let changed = before.get(f) != Some(data);
            let allowed = *f == key || (f.ends_with('/') && key.starts_with(f.as_str()));
            if changed && !allowed {
                return fail(format!("{} was created or changed; the output is {}", f, key));
            }
        }
        if before.keys().any(|f| !after.contains_key(f)) {
            return fail("files were removed");
        }
        match after.get(&key) {
            Some(_) => c.read_s(&path)?,
            None => return fail(format!("the output file {} was not written; files: {:?}", key, after.keys().collect::<Vec<_>>())),
        }
    };
    match diff("imported journal", &st.expect(), &read(&text, "the output")?) {
        Some(d) => fail(d),
        None => Ok(()),
    }
}

fn c30_ns(c: &mut Ctx) -> R {
    let k = any_kind(&mut c.s);
    let mut st = st::gen(&mut c.s, k, 4);
    let acct = st.account();
    let weird = ["", "a b", "a-b", "é", "a.b", "a:b", "x,y", "%", "a\tb", "名", "a;b"];
    let weird = |s: &mut Src| {
        if s.pct(50) {
            return s.pick_s(&weird);
        }
        // One character of a good one is bad.
        let mut v: Vec<char> = fixed_ns(s).chars().collect();
        let at = s.below(v.len() + 1);
        let at = *s.pick(&[0, v.len(), at]);
        let ascii: Vec<char> = (' '..='~').filter(|x| !valid_ns(&x.to_string())).collect();
        v.insert(at, if s.pct(70) { *s.pick(&ascii) } else { *s.pick(&['\t', '\n', '\r', '\u{a0}', 'é', '٣', 'ｘ', 'K', '\u{200b}', 'ª']) });
        v.into_iter().collect()
    };
    st.ns = match c.s.below(7) {
        0 => Ns::Account,
        1 => Ns::Fixed(weird(&mut c.s)),
        2 => Ns::Fixed(c.s.pick_s(&["_", "+/", "Z9", "a/b/c", "generated", "fixed:x".trim_end_matches(":x"), "0"])),
        3 => {
            // Everything but the account.
            let digits: String = acct.chars().filter(|x| x.is_ascii_digit()).collect();
            let words: Vec<String> = acct.split_whitespace().map(|x| x.to_string()).collect();
            let mut near = vec![
                acct.to_lowercase() + "x", format!(" {}", acct), format!("{} ", acct), acct.to_lowercase(), acct.to_uppercase(), acct.replace('*', ""), acct.replace(' ', ""), acct.replace('-', ""), acct.trim_matches('*').to_string(), digits.clone(), digits.chars().rev().take(4).collect::<Vec<_>>().into_iter().rev().collect(),
                acct.chars().skip(1).collect(), acct.chars().take(acct.chars().count().saturating_sub(1)).collect(), String::new(), "*".into(), "default".into(), crate::fp::generated_ns(&acct), format!("\"{}\"", acct),
            ];
            near.extend(words.first().cloned());
            near.extend(words.last().cloned());
            let mut t: Vec<(String, String)> = vec![];
            for (i, n) in near.into_iter().enumerate() {
                if n != acct && !t.iter().any(|x| x.0 == n) && c.s.pct(60) {
                    t.push((n, format!("n{}", i)));
                }
            }
            c.s.shuffle(&mut t);
            Ns::Lookup(t)
        }
        4 => Ns::Lookup(vec![("x".into(), "a".into()), (acct.clone(), weird(&mut c.s))]),
        5 => Ns::Lookup(vec![(acct.clone(), c.s.pick_s(&["l1", "L/2", "acct_"])), ("zz".into(), acct.clone())]),
        _ => Ns::Generated,
    };
    if k == Kind::Pp && !matches!(st.ns, Ns::Fixed(_)) {
        st.ns = Ns::Fixed(weird(&mut c.s));
    }
    c.label(match &st.ns {
        Ns::Account => "account-name",
        Ns::Fixed(_) => "fixed",
        Ns::Lookup(_) => "lookup",
        _ => "generated",
    });
    c.nontrivial = true;
    let name = if k == Kind::Pp { Some(st.ns_name()) } else { st.ns.name(&acct) };
    let mut cmd = st.setup(c, "")?;
    // The option itself may be wrong.
    if k != Kind::Pp && c.s.pct(12) {
        let v = match c.s.below(5) {
            0 => c.s.pick_s(&["bogus", "fixed", "Account-Name", "lookup", "", "generated ", "account-name:x"]),
            1 => "lookup:no-such-file.ron".into(),
            _ => {
                let t = c.s.pick_s(&["", "{", "[]", "{\"a\": 1}", "{\"a\": \"b\"} x", "(a: \"b\")", "\"a\"", "{a: \"b\"}"]);
                c.write("bad.ron", t)?;
                "lookup:bad.ron".into()
            }
        };
        let i = cmd.args.iter().position(|a| a == "--fp-namespace");
        match i {
            Some(i) => cmd.args[i + 1] = v.clone(),
            None => return Ok(()),
        }
        let before = c.snapshot();
        let o = cmd.run(c, &["-o", "out.journal"])?;
        c.label("bad option value");
        return rejected(c, &o, &before, &format!("namespace option {:?}", v));
    }
    let before = c.snapshot();
    let o = cmd.run(c, &["-o", "out.journal"])?;
    match name {
        None => rejected(c, &o, &before, "account missing in the lookup table"),
        Some(n) if !valid_ns(&n) => {
            if st.len() == 0 {
                return Err(Stop::Discard("invalid namespace with an empty statement"));
            }
            c.label("invalid namespace");
            rejected(c, &o, &before, &format!("namespace {:?}", n))
        }
        Some(_) => {
            if !o.success() {
                return fail(format!("the import failed: {}", o.brief()));
            }
            match diff("imported journal", &st.expect(), &read(&c.read_s("out.journal")?, "the output")?) {
                Some(d) => fail(d),
                None => Ok(()),
            }
        }
    }
}
