//! C17-C19: rule tables.

use crate::checks_merge::read;
use crate::gen::{self, arrange, settle};
use crate::journal::*;
use crate::prop::{fail, Ctx, Prop, Src, Stop, R};
use crate::regexm;
use crate::rules_model::*;

pub fn props() -> Vec<Prop> {
    vec![
        Prop { id: "C17", rule: "at least one rule matched and changed something, and at least one did not match", quick: 30000, thorough: 400000, min_nontrivial: 25, assumptions: &["descriptions and tag texts made by rules are representable in a journal", "finite chain recursion stays below 20 levels"], f: c17 },
        Prop { id: "C18", rule: "the rules changed an account, a description or metadata", quick: 28000, thorough: 400000, min_nontrivial: 25, assumptions: &["descriptions made by rules are representable in a journal"], f: c18 },
        Prop { id: "C19", rule: "the rule set spans several files or has a defect or an endless loop", quick: 22000, thorough: 300000, min_nontrivial: 50, assumptions: &["symbolic links to rule files stay in the directory of their target"], f: c19 },
    ]
}

pub fn journal(s: &mut Src, max: usize, rich: usize) -> Vec<Trn> {
    // Sometimes many transactions, or many postings.
    let (n, posts) = match s.weighted(&[92, 4, 4]) {
        0 => (s.range(1, max), 3),
        1 => (s.range(20, 120), 2),
        _ => (s.range(1, max), 20),
    };
    let mut v = vec![];
    for _ in 0..n {
        let mut t = gen::trn(s, rich, posts);
        arrange(&mut t, s);
        settle(&mut t);
        v.push(t);
    }
    v
}

pub const UNWRITABLE: &str = "rules made an unwritable description";

pub fn evaluate(c: &mut Ctx, chains: &Chains, ts: &[Trn]) -> R<(Result<Vec<Trn>, RErr>, Trace)> {
    regexm::reset_steps();
    let mut it = Interp { chains, trace: Trace::default() };
    let mut out = ts.to_vec();
    let r = it.run(&mut out);
    if regexm::gave_up() {
        return Err(Stop::Discard("regular expression too slow for the reference matcher"));
    }
    if regexm::misread() {
        return Err(Stop::Discard("a match that the locked regex crate misses"));
    }
    let trace = it.trace;
    if trace.huge {
        return Err(Stop::Discard("rules blow a description up"));
    }
    if r != Err(RErr::Endless) && trace.max_depth > 20 {
        return Err(Stop::Discard("deep finite recursion"));
    }
    if r.is_ok() {
        for t in &mut out {
            if !writable(t) && !reread(t) {
                return Err(Stop::Discard(UNWRITABLE));
            }
        }
    }
    if r.is_ok() && out.iter().any(|t| t.cm.unholdable() || t.posts.iter().any(|p| p.cm.unholdable())) {
        return Err(Stop::Discard("text that no comment can hold"));
    }
    c.label(match &r {
        Ok(_) => "ok",
        Err(RErr::Rule) => "Error action",
        Err(RErr::Endless) => "endless",
        Err(RErr::Undefined) => "undefined chain",
    });
    Ok((r.map(|_| out), trace))
}

/// A description that begins like a status or a code is read back as one. Sets
/// these as a reader finds them; false if no reader can.
fn reread(t: &mut Trn) -> bool {
    if !t.desc.starts_with(['(', '*', '!']) {
        return false;
    }
    let mut h = Trn::new(t.date, &t.desc);
    (h.edate, h.status, h.code) = (t.edate, t.status, t.code.clone());
    h.posts.push(Post::new("a"));
    let Ok(items) = parse(&plain(&[Item::Trn(h)])) else { return false };
    match trns(&items).as_slice() {
        [r] if writable(r) && r.date == t.date && r.edate == t.edate => {
            (t.status, t.code, t.desc) = (r.status, r.code.clone(), r.desc.clone());
            true
        }
        _ => false,
    }
}

/// Runs apply-rules and compares with the expected outcome.
fn compare(c: &mut Ctx, rules: &str, input: &str, want: &Result<Vec<Trn>, RErr>) -> R {
    c.remove("out");
    let before = c.snapshot();
    let r = c.run(&["apply-rules", "-o", "out", input, "table", rules])?;
    match want {
        Err(e) => {
            if r.success() {
                let t = c.read_s("out").unwrap_or_default();
                return fail(format!("apply-rules succeeded, expected {:?}\n{}", e, t));
            }
            if !r.clean_error() || r.stderr.trim().is_empty() {
                return fail(format!("expected an ordinary error ({:?}): {}", e, r.brief()));
            }
            if !r.stdout.is_empty() || c.snapshot() != before {
                return fail(format!("apply-rules failed ({:?}) but wrote something", e));
            }
        }
        Ok(w) => {
            if !r.success() {
                return fail(format!("apply-rules failed unexpectedly: {}", r.brief()));
            }
            let text = c.read_s("out")?;
            let got = read(&text, "result of apply-rules")?;
            if let Some(d) = diff("result of apply-rules", w, &got) {
                return fail(format!("{}\n{}", d, text));
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C17

/// (the finding as listed, pattern, description, the right result, the wrong one)
const REGEX_CRATE: [(&str, &str, &str, &str, &str); 2] = [
    (
        "the regular expression crate accountmerge is locked to (1.12.3) misses the leftmost match of some patterns whose alternatives share their last letter, one of them before '$': `op|s.*p$` replaces the first \"op\" of \"shop shop\" instead of the whole",
        "op|s.*p$",
        "shop shop",
        "X",
        "shX shop",
    ),
    (
        "the regular expression crate accountmerge is locked to (1.12.3) prefers a later alternative to an earlier one when both begin with the same repetition: `.+1|.+x?` replaces the whole of \"ab1cd\" instead of \"ab1\"",
        ".+1|.+x?",
        "ab1cd",
        "Xcd",
        "X",
    ),
];

/// The listed findings, exactly.
fn regex_crate(c: &mut Ctx) -> R {
    c.label("regex crate");
    for (text, re, desc, right, wrong) in REGEX_CRATE {
        c.write("in.journal", format!("2020-01-01 {}\n  a  GBP1\n", desc))?;
        c.write("rules.ron", format!("[Chain(\"start\", [(predicate: True, action: ReplaceTransactionDescription((regex: \"{}\", replacement: \"X\")), result: Continue)])]", re))?;
        c.ok(&["apply-rules", "-o", "out", "in.journal", "table", "rules.ron"])?;
        let got = read(&c.read_s("out")?, "result of apply-rules")?;
        match got.first().map(|t| t.desc.as_str()) {
            Some(d) if d == right => (),
            Some(d) if d == wrong => c.known.push(text.into()),
            d => return fail(format!("replacing `{}` in {:?} by \"X\" made {:?}", re, desc, d)),
        }
    }
    Ok(())
}

fn c17(c: &mut Ctx) -> R {
    if c.s.pct(1) {
        return regex_crate(c);
    }
    let ts = journal(&mut c.s, 3, 2);
    let v = vocab(&ts);
    let chains = gen_chains(&mut c.s, &v);
    let (want, tr) = evaluate(c, &chains, &ts)?;
    let j = varied(&items_of(&ts), &mut c.s);
    c.write("in.journal", j)?;
    let r = render_chains(&chains, &mut c.s);
    c.write("rules.ron", r)?;
    compare(c, "rules.ron", "in.journal", &want)?;
    c.nontrivial = tr.unmatched > 0 && (tr.changed > 0 || (want.is_err() && tr.matched > 1));
    for (n, l) in [(tr.jumps, "jump"), (tr.returns, "return"), (tr.replaced, "description replaced"), (tr.changed, "changed")] {
        if n > 0 {
            c.label(l);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C18

fn c18(c: &mut Ctx) -> R {
    let ts = journal(&mut c.s, 6, 3);
    let v = vocab(&ts);
    let chains = gen_chains(&mut c.s, &v);
    let (want, tr) = evaluate(c, &chains, &ts)?;
    let Ok(want) = want else {
        return Err(Stop::Discard("rules end in an error"));
    };
    let j = varied(&items_of(&ts), &mut c.s);
    c.write("in.journal", j)?;
    let r = render_chains(&chains, &mut c.s);
    c.write("rules.ron", r)?;
    let r = c.ok(&["apply-rules", "-o", "out", "in.journal", "table", "rules.ron"])?;
    let _ = r;
    let text = c.read_s("out")?;
    let got = read(&text, "result of apply-rules")?;
    let e = effects(&chains);
    if got.len() != ts.len() {
        return fail(format!("{} transactions became {}\n{}", ts.len(), got.len(), text));
    }
    for (i, (a, b)) in ts.iter().zip(&got).enumerate() {
        let w = format!("transaction #{} ({} {:?})", i, a.date.iso(), a.desc);
        // A description may begin like a status or a code.
        let h = want.get(i).unwrap_or(a);
        if (a.date, a.edate, h.status, &h.code) != (b.date, b.edate, b.status, &b.code) {
            return fail(format!("{}: date, effective date, status or code changed\n{}", w, text));
        }
        if a.desc != b.desc && !e.desc {
            return fail(format!("{}: description changed to {:?} though no rule can change it", w, b.desc));
        }
        let only = |what: &str, ca: &crate::comment::Cm, cb: &crate::comment::Cm, flags: &[String], keys: &[String]| -> Option<String> {
            let ft: Vec<&String> = ca.tags.symmetric_difference(&cb.tags).filter(|t| !flags.contains(t)).collect();
            if !ft.is_empty() {
                return Some(format!("{}: flag tags {:?} changed though no rule can change them", what, ft));
            }
            for k in ca.kv.keys().chain(cb.kv.keys()) {
                if ca.kv.get(k) != cb.kv.get(k) && !keys.contains(k) {
                    return Some(format!("{}: value tag {:?} changed though no rule can change it", what, k));
                }
            }
            if ca.lines != cb.lines {
                return Some(format!("{}: comment text changed: {:?} became {:?}", what, ca.lines, cb.lines));
            }
            None
        };
        if let Some(m) = only(&w, &a.cm, &b.cm, &e.tflags, &e.tkeys) {
            return fail(format!("{}\n{}", m, text));
        }
        if a.posts.len() != b.posts.len() {
            return fail(format!("{}: {} postings became {}\n{}", w, a.posts.len(), b.posts.len(), text));
        }
        for (k, (p, q)) in a.posts.iter().zip(&b.posts).enumerate() {
            let w = format!("{} posting #{}", w, k);
            if (&p.amount, &p.balance, p.status, p.reality) != (&q.amount, &q.balance, q.status, q.reality) {
                return fail(format!("{}: amount, balance, status or reality changed\nbefore: {:?}\nafter: {:?}\n{}", w, p, q, text));
            }
            if p.account != q.account && !e.accounts.contains(&q.account) {
                return fail(format!("{}: account {:?} became {:?}, which no rule sets", w, p.account, q.account));
            }
            if let Some(m) = only(&w, &p.cm, &q.cm, &e.pflags, &e.pkeys) {
                return fail(format!("{}\n{}", m, text));
            }
        }
    }
    c.nontrivial = tr.changed > 0;
    if ts.iter().flat_map(|t| &t.posts).any(|p| p.balance.is_some()) {
        c.label("has balance");
    }
    Ok(())
}

// ---------------------------------------------------------------------- C19

struct RFile {
    path: String,
    /// Chain definitions and includes in order.
    entries: Vec<String>,
}

fn rel(from: &str, to: &str) -> String {
    // Path of file `to` seen from the directory of file `from`.
    let fd: Vec<&str> = from.split('/').collect();
    let fd = &fd[..fd.len() - 1];
    let td: Vec<&str> = to.split('/').collect();
    let mut common = 0;
    while common < fd.len() && common + 1 < td.len() && fd[common] == td[common] {
        common += 1;
    }
    let mut v: Vec<String> = vec!["..".to_string(); fd.len() - common];
    v.extend(td[common..].iter().map(|s| s.to_string()));
    v.join("/")
}

fn c19(c: &mut Ctx) -> R {
    let ts = if c.s.pct(12) { vec![] } else { journal(&mut c.s, 2, 1) };
    let v = vocab(&ts);
    // vocab of an empty journal lacks texts
    let mut v = v;
    if v.descs.is_empty() {
        v.descs.push("x".into());
    }
    let mut chains = gen_chains(&mut c.s, &v);
    let mut defect: Option<&'static str> = None;
    // A loop.
    let endless = c.s.pct(15);
    if endless {
        let names: Vec<String> = chains.keys().cloned().collect();
        let k = c.s.range(1, names.len());
        for i in 0..k {
            let to = names[(i + 1) % k].clone();
            let rules = chains.get_mut(&names[i]).unwrap();
            let at = c.s.below(rules.len() + 1);
            let p = if c.s.pct(60) { Pred::True } else { gen_pred(&mut c.s, &v, 1) };
            let a = Act::Jump(to);
            rules.insert(at, Rule { pred: p, act: if c.s.pct(40) { Act::All(vec![Act::Noop, a]) } else { a }, ret: c.s.pct(50) });
        }
    }
    let kind = if c.s.pct(50) { 1 + c.s.below(11) } else { 0 };
    // Defects within the chains.
    let undefined = match kind {
        1..=4 => {
            let to = if c.s.pct(80) { "nowhere".to_string() } else { "START".to_string() };
            let mut a = Act::Jump(to);
            for _ in 0..c.s.below(3) {
                // Perhaps beside good ones.
                let mut v = vec![];
                for _ in 0..c.s.range(1, 3) {
                    let names: Vec<String> = chains.keys().cloned().collect();
                    v.push(if c.s.pct(50) { Act::Noop } else { Act::Jump(c.s.pick(&names).clone()) });
                }
                let at = c.s.below(v.len() + 1);
                v.insert(at, a);
                a = Act::All(v);
            }
            let p = match c.s.below(3) {
                0 => Pred::Any(vec![]),
                1 => Pred::Not(Box::new(Pred::True)),
                _ => Pred::True,
            };
            let mut r = vec![Rule { pred: p, act: a, ret: c.s.pct(50) }];
            defect = Some("jump to undefined chain");
            if c.s.pct(40) {
                // In a chain nobody jumps to.
                if c.s.pct(50) {
                    r.insert(0, Rule { pred: Pred::True, act: Act::Noop, ret: true });
                }
                chains.insert("island".into(), r);
            } else {
                let names: Vec<String> = chains.keys().cloned().collect();
                let n = c.s.pick(&names).clone();
                let rules = chains.get_mut(&n).unwrap();
                let at = c.s.below(rules.len() + 1);
                rules.insert(at, r.remove(0));
            }
            true
        }
        _ => false,
    };
    let _ = undefined;
    if kind == 5 {
        let start = chains.remove("start").unwrap();
        if c.s.pct(50) {
            chains.insert(c.s.pick_s(&["begin", "Start", " start", ""]), start);
        }
        for r in chains.values_mut() {
            r.retain(|r| !jumps(&r.act).iter().any(|j| j == "start"));
        }
        defect = Some("no start chain");
    }
    // Distribute over files.
    let mut paths: Vec<String> = ["main.ron", "sub/a.ron", "sub/deep/b.ron", "other/c.ron", "d e.ron"].map(String::from).to_vec();
    if c.s.pct(25) {
        // Of the same name, in several directories.
        let mut more: Vec<String> = ["sub/main.ron", "sub/deep/main.ron", "other/main.ron", "a.ron", "sub/a.ron", "sub/deep/a.ron", "other/a.ron"].map(String::from).to_vec();
        c.s.shuffle(&mut more);
        paths.truncate(1);
        paths.extend(more);
    }
    let few = c.s.range(1, paths.len());
    let nf = if c.s.pct(4) {
        for i in 0..35 {
            paths.push(format!("inc/f{}.ron", i));
        }
        c.s.range(6, paths.len())
    } else {
        few
    };
    let mut files: Vec<RFile> = paths[..nf].iter().map(|p| RFile { path: p.clone(), entries: vec![] }).collect();
    for (n, r) in &chains {
        let f = c.s.below(nf);
        let e = r_chain(n, r, &mut c.s);
        files[f].entries.push(e);
    }
    // Every file is reachable: file i is included from an earlier one.
    let abs = c.dir.to_string_lossy().into_owned();
    let spell = |s: &mut Src, from: &str, to: &str| -> String {
        let r = rel(from, to);
        match s.weighted(&[50, 15, 15, 10]) {
            0 => r,
            1 => format!("./{}", r),
            2 => {
                let d = if from.starts_with("sub/deep") { "../deep" } else if from.starts_with("sub") { "deep/.." } else if from.starts_with("other") { "../sub/../other" } else if from.starts_with("inc/") { "../inc" } else { "other/.." };
                format!("{}/{}", d, r)
            }
            _ => format!("{}/{}", abs, to),
        }
    };
    let mut extra = 0;
    for i in 1..nf {
        let from = c.s.below(i);
        let p = spell(&mut c.s, &paths[from], &paths[i]);
        let e = format!("Include({})", ron_str(&p, &mut c.s));
        let at = c.s.below(files[from].entries.len() + 1);
        files[from].entries.insert(at, e);
    }
    for _ in 0..c.s.small(3) {
        // Again, or cyclic, or itself.
        let (from, to) = (c.s.below(nf), c.s.below(nf));
        let mut p = spell(&mut c.s, &paths[from], &paths[to]);
        if c.s.pct(20) {
            // Through a symbolic link beside it.
            let l = format!("{}.lnk", paths[to]);
            p = rel(&paths[from], &l);
        }
        let e = format!("Include({})", ron_str(&p, &mut c.s));
        let at = c.s.below(files[from].entries.len() + 1);
        files[from].entries.insert(at, e);
        extra += 1;
    }
    match kind {
        6 | 7 => {
            defect = Some("duplicate chain");
            let names: Vec<String> = chains.keys().cloned().collect();
            let n = c.s.pick(&names).clone();
            let e = if c.s.pct(50) { r_chain(&n, &chains[&n], &mut c.s) } else { r_chain(&n, &[], &mut c.s) };
            let f = c.s.below(nf);
            let at = c.s.below(files[f].entries.len() + 1);
            files[f].entries.insert(at, e);
        }
        8 => {
            defect = Some("missing include");
            let f = c.s.below(nf);
            let p = c.s.pick_s(&["gone.ron", "", "gone/x.ron", "/nonexistent/x.ron"]);
            let e = format!("Include({})", ron_str(&p, &mut c.s));
            let at = c.s.below(files[f].entries.len() + 1);
            files[f].entries.insert(at, e);
        }
        _ => {}
    }
    for f in &files {
        let mut t = r_file(&f.entries, &mut c.s);
        if kind >= 9 && f.path == paths[(kind * 7 + extra) % nf] {
            defect = Some("malformed file");
            let bad = c.s.below(8);
            let ins = |t: &mut String, e: &str| {
                let at = t.rfind(']').unwrap();
                let head = t[..at].trim_end().trim_end_matches(',').to_string();
                let sep = if head.trim_end().ends_with('[') { "" } else { "," };
                *t = format!("{}{}\n{}\n]\n", head, sep, e);
            };
            match bad {
                0 => {
                    let at = t.rfind(']').unwrap();
                    t.truncate(at);
                }
                1 => ins(&mut t, "Chain(\"zz\", [(predicate: Account(Matches(\"(\")), action: Noop, result: Return)])"),
                2 => ins(&mut t, "Chain(\"zz\", [(predicate: Tru, action: Noop, result: Return)])"),
                3 => ins(&mut t, "Chain(\"zz\", [(predicate: True, action: Noop)])"),
                4 => ins(&mut t, "Chain(\"zz\")"),
                5 => ins(&mut t, "Chain(\"zz\", [(predicate: True, action: ReplaceTransactionDescription((regex: \"[\", replacement: \"\")), result: Return)])"),
                6 => t = "".into(),
                _ => t.push_str("\n]"),
            }
        }
        c.write(&f.path, t)?;
    }
    for d in ["sub/deep", "other", "inc"] {
        std::fs::create_dir_all(c.path(d))?;
    }
    for p in &paths[..nf] {
        let l = c.path(&format!("{}.lnk", p));
        let _ = std::os::unix::fs::symlink(p.rsplit('/').next().unwrap(), l);
    }
    if c.s.pct(30) {
        // Nobody includes this one.
        c.write("unused.ron", "[ Chain(\"start\", [")?;
    }
    let j = plain(&items_of(&ts));
    c.write("in.journal", j)?;
    let rules = match c.s.below(3) {
        0 => "main.ron".to_string(),
        1 => "./sub/../main.ron".to_string(),
        _ => format!("{}/main.ron", abs),
    };
    if let Some(d) = defect {
        c.label(d);
        c.nontrivial = true;
        let before = c.snapshot();
        let r = c.run(&["apply-rules", "-o", "out", "in.journal", "table", &rules])?;
        if r.success() {
            return fail(format!("rule set with a defect ({}) was accepted", d));
        }
        if !r.clean_error() || r.stderr.trim().is_empty() {
            return fail(format!("rule set with a defect ({}): not an ordinary error: {}", d, r.brief()));
        }
        if !r.stdout.is_empty() || c.snapshot() != before {
            return fail(format!("rule set with a defect ({}) was rejected but something was written", d));
        }
        return Ok(());
    }
    let (want, _) = evaluate(c, &chains, &ts)?;
    c.nontrivial = nf > 1 || want == Err(RErr::Endless);
    c.label(format!("files={}", nf));
    compare(c, &rules, "in.journal", &want)
}

fn jumps(a: &Act) -> Vec<String> {
    match a {
        Act::Jump(x) => vec![x.clone()],
        Act::All(v) => v.iter().flat_map(jumps).collect(),
        _ => vec![],
    }
}
