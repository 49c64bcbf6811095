//! C10-C16, C31, C32: properties of the program as a command.

use crate::checks_merge::read;
use crate::comment::Cm;
use crate::gen;
use crate::journal::*;
use crate::prop::{fail, hash64, splitmix, Ctx, Prop, Snapshot, Src, Stop, R};
use crate::rules_model as rm;
use crate::st::{self, St};
use crate::sut::Out;
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

pub fn props() -> Vec<Prop> {
    let syn: &[&str] = &["journals are generated within the documented journal syntax"];
    vec![
        Prop { id: "C10", rule: "the command succeeded and wrote at least two transactions or a posting with several tags", quick: 8000, thorough: 100000, min_nontrivial: 40, assumptions: &["external tools of the PDF import are deterministic"], f: c10 },
        Prop { id: "C11", rule: "a journal holds a transaction and at least one more item", quick: 20000, thorough: 300000, min_nontrivial: 60, assumptions: syn, f: c11 },
        Prop { id: "C12", rule: "some comment holds tags, value tags and text, or text with colons", quick: 20000, thorough: 200000, min_nontrivial: 60, assumptions: syn, f: c12 },
        Prop { id: "C13", rule: "some postings have a fingerprint and some do not", quick: 12000, thorough: 150000, min_nontrivial: 40, assumptions: syn, f: c13 },
        Prop { id: "C14", rule: "an input holds an item the command does not handle, or the command keeps it", quick: 24000, thorough: 200000, min_nontrivial: 40, assumptions: syn, f: c14 },
        Prop { id: "C15", rule: "the command failed although its outputs could have been written", quick: 24000, thorough: 300000, min_nontrivial: 40, assumptions: &[], f: c15 },
        Prop { id: "C16", rule: "a write fault hit a result that is not empty", quick: 9000, thorough: 100000, min_nontrivial: 60, assumptions: &["write faults are those the kernel can be made to return for a file, device or pipe"], f: c16 },
        Prop { id: "C31", rule: "the command succeeded with standard input, standard output or pre-existing output", quick: 10000, thorough: 150000, min_nontrivial: 50, assumptions: &[], f: c31 },
        Prop { id: "C32", rule: "some input file was mutated", quick: 40000, thorough: 1000000, min_nontrivial: 90, assumptions: &["a command that does not end within 30 s twice is taken to never end"], f: c32 },
    ]
}

// --------------------------------------------------------------------- jobs

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Merge,
    Rules,
    Fmt,
    Gf,
    Import,
}

/// A command line whose output is still to be chosen.
struct Job {
    k: K,
    args: Vec<String>,
    envs: Vec<(String, String)>,
    /// Position in `args` and name of the files given as FileSpec.
    inputs: Vec<(usize, String)>,
    /// Other files read.
    more: Vec<String>,
    st: Option<St>,
}

impl Job {
    fn in_place(&self) -> bool {
        matches!(self.k, K::Fmt | K::Gf)
    }
    fn line(&self, out: Option<&str>, un: Option<&str>) -> Vec<String> {
        let mut a: Vec<String> = vec![match self.k {
            K::Merge => "merge",
            K::Rules => "apply-rules",
            K::Fmt => "fmt",
            K::Gf => "generate-fingerprints",
            K::Import => "import",
        }
        .into()];
        if let Some(o) = out {
            a.extend(["-o".to_string(), o.to_string()]);
        }
        if let Some(u) = un {
            a.extend(["-u".to_string(), u.to_string()]);
        }
        a.extend(self.args.iter().cloned());
        a
    }
    fn go(&self, c: &mut Ctx, out: Option<&str>, un: Option<&str>) -> R<Out> {
        self.full(c, out, un, b"", &[], None)
    }
    fn full(&self, c: &mut Ctx, out: Option<&str>, un: Option<&str>, stdin: &[u8], env: &[(&str, &str)], to: Option<&Path>) -> R<Out> {
        let a = self.line(out, un);
        let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let mut e: Vec<(&str, &str)> = self.envs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
        e.extend(env);
        c.run_full(&a, stdin, &e, to)
    }
}

fn any_k(s: &mut Src) -> K {
    [K::Merge, K::Rules, K::Import, K::Fmt, K::Gf][s.weighted(&[30, 20, 25, 15, 10])]
}

struct Size {
    contradict: usize,
    max: usize,
    other: bool,
}

fn job(c: &mut Ctx, k: K, z: &Size) -> R<Job> {
    let mut j = Job { k, args: vec![], envs: vec![], inputs: vec![], more: vec![], st: None };
    match k {
        K::Merge => {
            let h = gen::history(&mut c.s, &gen::HOpts { collide: 50, contradict: z.contradict, max_reals: z.max, ..Default::default() });
            gen::write_history(c, &h)?;
            for f in &h {
                j.inputs.push((j.args.len(), f.name.clone()));
                j.args.push(f.name.clone());
            }
        }
        K::Rules => {
            let ts = crate::checks_rules::journal(&mut c.s, z.max, 3);
            let v = rm::vocab(&ts);
            let ch = rm::gen_chains(&mut c.s, &v);
            // Tables that would take very long are left out.
            match crate::checks_rules::evaluate(c, &ch, &ts) {
                Err(Stop::Discard(d)) if d != crate::checks_rules::UNWRITABLE => return Err(Stop::Discard(d)),
                _ => {}
            }
            let r = rm::render_chains(&ch, &mut c.s);
            c.write("rules.ron", r)?;
            let t = varied(&items_of(&ts), &mut c.s);
            c.write("in.journal", t)?;
            j.inputs.push((0, "in.journal".into()));
            j.more.push("rules.ron".into());
            j.args = vec!["in.journal".into(), "table".into(), "rules.ron".into()];
        }
        K::Fmt | K::Gf => {
            for i in 0..c.s.range(1, 3) {
                let items = gen::items(&mut c.s, z.max, 3, z.other && k == K::Fmt);
                let t = varied(&items, &mut c.s);
                let n = format!("f{}.journal", i);
                c.write(&n, t)?;
                j.inputs.push((j.args.len(), n.clone()));
                j.args.push(n);
            }
        }
        K::Import => {
            let kind = st::any_kind(&mut c.s);
            let s = st::gen(&mut c.s, kind, z.max);
            let cmd = s.setup(c, "")?;
            j.args = cmd.args.clone();
            j.envs = cmd.envs.clone();
            if kind != st::Kind::Pdf {
                j.inputs.push((cmd.input, cmd.args[cmd.input].clone()));
            } else {
                j.more.push(cmd.args[cmd.input].clone());
            }
            if kind == st::Kind::Pp {
                let i = j.args.len() - 1;
                j.inputs.push((i, j.args[i].clone()));
            }
            if c.exists("lookup.ron") {
                j.more.push("lookup.ron".into());
            }
            j.st = Some(s);
        }
    }
    c.label(format!("{:?}", k));
    Ok(j)
}

fn restore(c: &Ctx, want: &Snapshot) -> R {
    let now = c.snapshot();
    for f in now.keys().rev() {
        if !want.contains_key(f) {
            let p = c.dir.join(f);
            if f.ends_with('/') {
                std::fs::remove_dir_all(p)?;
            } else {
                let _ = std::fs::remove_file(p);
            }
        }
    }
    for (f, d) in want {
        if !f.ends_with('/') && now.get(f) != Some(d) {
            std::fs::write(c.dir.join(f), d)?;
        }
    }
    Ok(())
}

fn diff_snap(a: &Snapshot, b: &Snapshot) -> Option<String> {
    for (f, d) in a {
        match b.get(f) {
            None => return Some(format!("{} is missing", f)),
            Some(e) if e != d => return Some(format!("{} differs:\n{}\n---\n{}", f, crate::prop::show(d), crate::prop::show(e))),
            _ => {}
        }
    }
    b.keys().find(|f| !a.contains_key(*f)).map(|f| format!("{} is new", f))
}

// ---------------------------------------------------------------------- C10

fn c10(c: &mut Ctx) -> R {
    let k = any_k(&mut c.s);
    let j = job(c, k, &Size { contradict: 4, max: 6, other: true })?;
    let un = k == K::Merge && !c.s.pct(15);
    let to_stdout = c.s.pct(30);
    let before = c.snapshot();
    let mut first: Option<(Option<i32>, Vec<u8>, Snapshot)> = None;
    for round in 0..4 {
        restore(c, &before)?;
        let tz = ["UTC", "America/New_York", "Asia/Tokyo", "Europe/London"][round];
        let env = [("TZ", tz), ("LANG", ["C.UTF-8", "C", "de_DE.UTF-8", "en_GB"][round])];
        let out = if j.in_place() || to_stdout { None } else { Some("out") };
        let o = j.full(c, out, if un { Some("un") } else { None }, b"", &env, None)?;
        let mut snap = c.snapshot();
        if k == K::Gf {
            for (f, d) in snap.iter_mut() {
                if o.success() {
                    let (text, n) = unrandom(&String::from_utf8_lossy(d));
                    *d = text.into_bytes();
                    if f.ends_with(".journal") && n > 0 {
                        c.nontrivial = true;
                    }
                }
            }
        }
        let text = String::from_utf8_lossy(if out.is_some() { snap.get("out").map(|v| v.as_slice()).unwrap_or(b"") } else { &o.stdout }).into_owned();
        let busy = |t: &str| t.contains("\n\n") || t.lines().any(|l| l.matches(':').count() > 3);
        if o.success() && (busy(&text) || (j.in_place() && snap.values().any(|d| busy(&String::from_utf8_lossy(d))))) {
            c.nontrivial = true;
        }
        if round == 0 {
            c.label(if o.success() { "ok" } else { "failed" });
        }
        match &first {
            None => first = Some((o.code, o.stdout, snap)),
            Some((code, stdout, s0)) => {
                if *code != o.code {
                    return fail(format!("run {} ended with {:?}, the first with {:?}", round + 1, o.code, code));
                }
                if *stdout != o.stdout {
                    return fail(format!("run {} printed something else than the first:\n{}\n---\n{}", round + 1, crate::prop::show(stdout), crate::prop::show(&o.stdout)));
                }
                if let Some(d) = diff_snap(s0, &snap) {
                    return fail(format!("files after run {} differ from those after the first: {}", round + 1, d));
                }
            }
        }
    }
    Ok(())
}

/// Takes the invented fingerprints out of a journal. A journal without them
/// is compared byte by byte, one with them by its contents.
fn unrandom(text: &str) -> (String, usize) {
    let mut n = 0;
    if !text.contains("fp-uuidb64-") {
        return (text.to_string(), 0);
    }
    let Ok(mut items) = parse(text) else {
        return (text.to_string(), 0);
    };
    for it in &mut items {
        let Item::Trn(t) = it else { continue };
        t.raw = vec![];
        for p in &mut t.posts {
            p.raw = vec![];
            let k = p.cm.tags.len();
            p.cm.tags.retain(|t| !t.starts_with("fp-uuidb64-"));
            n += k - p.cm.tags.len();
        }
    }
    (items.iter().map(|i| format!("{:#?}\n", i)).collect(), n)
}

// ---------------------------------------------------------------------- C11

fn items_diff(a: &[Item], b: &[Item]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => {}
            (Some(Item::Trn(x)), Some(Item::Trn(y))) => {
                if let Some(d) = diff("journal", &[x.clone()], &[y.clone()]) {
                    return Some(format!("item {}: {}", i, d));
                }
                return Some(format!("item {}: comment lines differ: {:?} {:?} -> {:?} {:?}", i, x.raw, x.posts.iter().map(|p| p.raw.clone()).collect::<Vec<_>>(), y.raw, y.posts.iter().map(|p| p.raw.clone()).collect::<Vec<_>>()));
            }
            (x, y) => return Some(format!("item {}: {:?} became {:?}", i, x, y)),
        }
    }
    None
}

fn terminated(t: &str) -> String {
    if t.is_empty() || t.ends_with('\n') {
        t.to_string()
    } else {
        format!("{}\n", t)
    }
}

fn parse_own(t: &str) -> R<Vec<Item>> {
    parse(&terminated(t)).map_err(|e| Stop::Error(format!("harness cannot read its own journal: {}\n{}", e, t)))
}

fn c11(c: &mut Ctx) -> R {
    let n = c.s.weighted(&[70, 20, 10]) + 1;
    let mut want = vec![];
    let mut names = vec![];
    for i in 0..n {
        let mut items = if c.s.pct(3) { vec![] } else { gen::items(&mut c.s, 5, 3, true) };
        if c.s.pct(30) {
            for it in &mut items {
                if let Item::Trn(t) = it {
                    raw_comments(&mut c.s, t);
                }
            }
        }
        let t = varied(&items, &mut c.s);
        let back = parse_own(&t)?;
        if back.len() > 1 && back.iter().any(|i| matches!(i, Item::Trn(_))) {
            c.nontrivial = true;
        }
        for it in &back {
            c.label(match it {
                Item::Empty => "blank line",
                Item::Comment(_) => "comment",
                Item::Trn(_) => "transaction",
                Item::Price { .. } => "price",
                Item::Include(_) => "include",
            });
        }
        want.push(back);
        let name = format!("f{}.journal", i);
        c.write(&name, t)?;
        names.push(name);
    }
    let mut args = vec!["fmt"];
    args.extend(names.iter().map(|s| s.as_str()));
    c.ok(&args)?;
    let mut texts = vec![];
    for (name, w) in names.iter().zip(&want) {
        let t = c.read_s(name)?;
        let got = match parse(&t) {
            Ok(g) => g,
            Err(e) => return fail(format!("{} after fmt cannot be read: {}\n{}", name, e, t)),
        };
        if let Some(d) = items_diff(w, &got) {
            return fail(format!("{} after fmt: {}\n{}", name, d, t));
        }
        texts.push(t);
    }
    c.ok(&args)?;
    for (name, t) in names.iter().zip(&texts) {
        let u = c.read_s(name)?;
        if u != *t {
            return fail(format!("a second fmt changed {}:\n{}\n---\n{}", name, t, u));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C12

/// A comment line of words, tag groups and near misses.
fn raw_line(s: &mut Src) -> String {
    const MARKS: &[&str] = &[";", ";;", "-", "--", "-----", "*", "#", "|", "=", "@", "...", "%", "!", "()", "[]", ",", "\\", "\u{feff}", "\u{200b}"];
    if s.pct(2) {
        return s.pick_s(MARKS);
    }
    let mut o = String::new();
    for i in 0..s.range(1, 5) {
        if i > 0 {
            o.push_str([" ", "  ", "   "][s.weighted(&[85, 10, 5])]);
        }
        let w = match s.weighted(&[30, 25, 15, 15, 15]) {
            0 if s.pct(10) => s.pick_s(MARKS),
            0 if s.pct(5) => gen::exotic(s, false),
            0 => s.pick_s(&["note", "seen", "Über", "-", "(x)", "1.50", "日本", "="]),
            1 => {
                let mut g = String::from(":");
                let n = if s.pct(3) { s.range(10, 40) } else { s.range(1, 4) };
                for i in 0..n {
                    g.push_str(&gen::flag(s));
                    if i > 5 {
                        g.push_str(&i.to_string());
                    }
                    g.push(':');
                }
                g
            }
            2 => s.pick_s(&["a:b", "a:b:c", "12:30", "http://x.y/z", "::", ":", ":half", "half:", ":a::b:", "::a:", ":a:,", "x:a:", ":a:b"]),
            3 => {
                let k = s.pick_s(&["key", "note", "k2", "ключ", "12", "a/b", ":k", "k:l"]);
                format!("{}: {}", k, s.pick_s(&["v", "two words", "x: y", ":f:", ""])).trim_end().to_string()
            }
            _ => {
                let (k, v) = gen::kv(s);
                format!("{}: {}", k, v).trim_end().to_string()
            }
        };
        o.push_str(&w);
    }
    o.trim().to_string()
}

fn raw_lines(s: &mut Src) -> Vec<String> {
    let n = if s.pct(1) { s.range(10, 40) } else { s.small(4) };
    (0..n).map(|_| raw_line(s)).filter(|l| !l.is_empty()).collect()
}

fn raw_comments(s: &mut Src, t: &mut Trn) {
    t.raw = raw_lines(s);
    t.cm = Cm::read(&t.raw);
    for p in &mut t.posts {
        p.raw = raw_lines(s);
        if s.pct(2) {
            // These mean something on transactions only, or in merging only.
            p.raw.push(s.pick_s(&["source-file: x", "source-file:", ":source-file:", ":import-self:", ":unknown-account:"]));
        }
        if s.pct(3) {
            // A value tag again, but for the letter case of its key.
            let at = p.raw.iter().position(|l| crate::comment::as_value_tag(l).is_some());
            if let Some((k, v)) = at.and_then(|i| p.raw[i].split_once(':')) {
                let l = format!("{}:{}", gen::recase(s, k), v);
                p.raw.push(l);
            }
        }
        p.cm = Cm::read(&p.raw);
    }
}

fn cm_diff(a: &Cm, b: &Cm) -> Option<String> {
    let mut o = vec![];
    if a.tags != b.tags {
        o.push(format!("flag tags {:?} became {:?}", a.tags, b.tags));
    }
    if a.kv != b.kv {
        o.push(format!("value tags {:?} became {:?}", a.kv, b.kv));
    }
    // Text that would read as a value tag on a line of its own is joined with
    // its neighbours.
    let same = if a.has_kv_like_text() { a.words() == b.words() } else { a.lines == b.lines };
    if !same {
        o.push(format!("text {:?} became {:?}", a.lines, b.lines));
    }
    if o.is_empty() {
        None
    } else {
        Some(o.join("; "))
    }
}

const PROMOTED: &str = "apply-rules that removes the only flag tags of a comment turns text after them that is shaped like a value tag (`:t: foo: bar`) into that value tag";

/// The listed finding, exactly.
fn promoted(c: &mut Ctx) -> R {
    c.label("text like a value tag");
    c.write("in.journal", "2020-01-01 D\n  a  GBP1\n  ; :t: foo: bar\n")?;
    c.write("rules.ron", "[Chain(\"start\", [(predicate: True, action: RemovePostingFlagTag(\"t\"), result: Continue)])]")?;
    c.ok(&["apply-rules", "-o", "out", "in.journal", "table", "rules.ron"])?;
    let got = read(&c.read_s("out")?, "result of apply-rules")?;
    let cm = got.first().and_then(|t| t.posts.first()).map(|p| p.cm.clone()).unwrap_or_default();
    if cm == Cm::default().with_kv("foo", "bar") {
        c.known.push(PROMOTED.into());
        return Ok(());
    }
    if !cm.tags.is_empty() || !cm.kv.is_empty() || cm.words() != ["foo:", "bar"] {
        return fail(format!("removing the tag t from `; :t: foo: bar` left {:?}", cm));
    }
    Ok(())
}

/// Rules that change tags only.
fn tag_rules(s: &mut crate::prop::Src, ts: &[Trn]) -> rm::Chains {
    let v = rm::vocab(ts);
    let n = s.range(1, 5);
    let rules = (0..n)
        .map(|_| {
            let (tag, key, val) = (s.pick(&v.tags).clone(), s.pick(&v.keys).clone(), s.pick(&v.values).clone());
            let act = match s.weighted(&[25, 25, 12, 12, 8, 8, 5, 5]) {
                0 => rm::Act::RmPFlag(tag),
                1 => rm::Act::RmTFlag(tag),
                2 => rm::Act::RmPValue(key),
                3 => rm::Act::RmTValue(key),
                4 => rm::Act::PFlag(tag),
                5 => rm::Act::TFlag(tag),
                6 => rm::Act::PValue(key, val),
                _ => rm::Act::TValue(key, val),
            };
            rm::Rule { pred: if s.pct(60) { rm::Pred::True } else { rm::gen_pred(s, &v, 1) }, act, ret: s.pct(10) }
        })
        .collect();
    rm::Chains::from([("start".to_string(), rules)])
}

fn c12(c: &mut Ctx) -> R {
    if c.s.pct(1) {
        return promoted(c);
    }
    let n = c.s.range(1, 4);
    let mut ts = vec![];
    for i in 0..n {
        let mut t = gen::trn(&mut c.s, 0, 3);
        t.date = Date::new(2020, 1, 1 + i as u32);
        raw_comments(&mut c.s, &mut t);
        ts.push(t);
    }
    let which = c.s.below(3);
    if which != 0 {
        for (i, t) in ts.iter_mut().enumerate() {
            for (k, p) in t.posts.iter_mut().enumerate() {
                let f = format!("fp-{}-{}", i, k);
                let line = format!(":{}:", f);
                let at = c.s.below(p.raw.len() + 1);
                if c.s.pct(50) || p.raw.is_empty() || at >= p.raw.len() || crate::comment::as_value_tag(&p.raw[at]).is_some() {
                    p.raw.insert(at, line);
                } else {
                    p.raw[at] = format!("{} {}", p.raw[at], line);
                }
                p.cm = Cm::read(&p.raw);
            }
        }
    }
    let tricky = |m: &Cm| (!m.tags.is_empty() && !m.kv.is_empty() && !m.lines.is_empty()) || m.lines.iter().any(|l| l.contains(':'));
    c.nontrivial = ts.iter().any(|t| tricky(&t.cm) || t.posts.iter().any(|p| tricky(&p.cm)));
    let text = varied(&items_of(&ts), &mut c.s);
    let mut want = trns(&parse_own(&text)?);
    c.write("in.journal", &text)?;
    c.write("rules.ron", "[Chain(\"start\", [])]")?;
    if which == 0 && c.s.pct(40) {
        let chains = tag_rules(&mut c.s, &want);
        let (r, tr) = crate::checks_rules::evaluate(c, &chains, &want)?;
        let Ok(r) = r else { return Err(Stop::Error("tag rules fail".into())) };
        want = r;
        if want.iter().any(|t| t.cm.unholdable() || t.posts.iter().any(|p| p.cm.unholdable())) {
            return Err(Stop::Discard("text that no comment can hold"));
        }
        let r = rm::render_chains(&chains, &mut c.s);
        c.write("rules.ron", r)?;
        if tr.changed > 0 {
            c.label("rules that change tags");
        }
    }
    let apply = |c: &mut Ctx, from: &str, to: &str| -> R<String> {
        match which {
            0 => {
                c.label("apply-rules");
                c.ok(&["apply-rules", "-o", to, from, "table", "rules.ron"])?;
            }
            1 => {
                c.label("merge");
                c.ok(&["merge", "-o", to, from])?;
            }
            _ => {
                c.label("generate-fingerprints");
                let t = c.read(from)?;
                std::fs::write(c.path(to), t)?;
                c.ok(&["generate-fingerprints", to])?;
            }
        }
        c.read_s(to)
    };
    let out = apply(c, "in.journal", "out.journal")?;
    let got = read(&out, "the result")?;
    if got.len() != want.len() {
        return fail(format!("{} transactions became {}\n{}", want.len(), got.len(), out));
    }
    for (w, g) in want.iter().zip(&got) {
        if let Some(d) = cm_diff(&w.cm, &g.cm) {
            return fail(format!("transaction {:?}: {}\n{}", w.desc, d, out));
        }
        if w.posts.len() != g.posts.len() {
            return fail(format!("transaction {:?}: number of postings changed\n{}", w.desc, out));
        }
        for (p, q) in w.posts.iter().zip(&g.posts) {
            if let Some(d) = cm_diff(&p.cm, &q.cm) {
                return fail(format!("transaction {:?}, posting {:?}: {}\n{}", w.desc, p.account, d, out));
            }
        }
    }
    c.write("rules.ron", "[Chain(\"start\", [])]")?;
    let again = apply(c, "out.journal", "again.journal")?;
    if again != out {
        return fail(format!("rewriting the command's own output changed it:\n{}\n---\n{}", out, again));
    }
    Ok(())
}

// ---------------------------------------------------------------------- C13

fn c13(c: &mut Ctx) -> R {
    let n = c.s.weighted(&[50, 30, 20]) + 1;
    let mut want = vec![];
    let mut names = vec![];
    let share = *c.s.pick(&[50, 40, 50, 0, 70, 100, 20, 60]);
    let (mut with, mut without) = (0, 0);
    for f in 0..n {
        let mut items = gen::items(&mut c.s, 4, 3, false);
        if f == 0 && c.s.pct(1) {
            // Very many.
            let all: Vec<Item> = items.iter().filter(|i| matches!(i, Item::Trn(_))).cloned().collect();
            if !all.is_empty() {
                for i in 0..c.s.range(100, 500) {
                    items.push(all[i % all.len()].clone());
                }
            }
        }
        let mut k = 0;
        for it in &mut items {
            let Item::Trn(t) = it else { continue };
            for p in &mut t.posts {
                k += 1;
                p.cm.tags.retain(|t| !t.starts_with("fp-"));
                if c.s.pct(share) {
                    with += 1;
                    for v in 0..c.s.weighted(&[70, 30]) + 1 {
                        p.cm.tags.insert(match c.s.below(4) {
                            0 => format!("fp-{}-{}-{}", f, k, v),
                            1 => format!("fp-nwcsv6.1.ns-{}{}{}aBcDeFgHiJkLmN", f, k, v),
                            2 => format!("fp-uuidb64-AAAAAAAAAAAAAAAAA{}{}{}", f, k, v),
                            _ => format!("fp-{}{}{}", f, k, v),
                        });
                    }
                } else {
                    without += 1;
                    if c.s.pct(25) {
                        // Not a fingerprint.
                        p.cm.tags.insert(c.s.pick_s(&["fp", "FP-x1", "xfp-1", "fp_1", "Fp-2", "my-fp-3"]));
                    }
                    if c.s.pct(6) {
                        // What another posting may be.
                        p.cm.tags.insert(c.s.pick_s(&["candidate-fp-a1", "candidate-fp-fp-q", "candidate-fp-nwcsv6.1.ns-aBcDeFgHiJkL", "candidate-x", "candidate-"]));
                    }
                    if c.s.pct(10) {
                        p.cm.kv.insert("fp-key".into(), "v".into());
                    }
                }
            }
            gen::arrange(t, &mut c.s);
            gen::settle(t);
        }
        let text = varied(&items, &mut c.s);
        want.push(trns(&parse_own(&text)?));
        let name = format!("g{}.journal", f);
        c.write(&name, text)?;
        names.push(name);
    }
    c.nontrivial = with > 0 && without > 0;
    let mut args = vec!["generate-fingerprints"];
    args.extend(names.iter().map(|s| s.as_str()));
    c.ok(&args)?;
    let mut seen: BTreeSet<String> = BTreeSet::new();
    let mut texts = vec![];
    let mut all = vec![];
    for (name, w) in names.iter().zip(&want) {
        let text = c.read_s(name)?;
        let got = read(&text, name)?;
        let mut back = got.clone();
        for (i, t) in back.iter_mut().enumerate() {
            for (k, p) in t.posts.iter_mut().enumerate() {
                let fps = p.fps();
                let Some(orig) = w.get(i).and_then(|t| t.posts.get(k)) else { continue };
                let had = orig.fps();
                if had.is_empty() && fps.len() != 1 {
                    return fail(format!("posting {:?} without fingerprint has now {:?}\n{}", p.account, fps, text));
                }
                for f in &fps {
                    if !had.contains(f) {
                        if !seen.insert(f.clone()) {
                            return fail(format!("fingerprint {} was generated twice", f));
                        }
                        if f.len() < 12 {
                            return fail(format!("generated fingerprint {} is hardly unique", f));
                        }
                        if had.is_empty() {
                            p.cm.tags.remove(f);
                        }
                    }
                }
            }
        }
        if let Some(d) = diff(name, w, &back) {
            return fail(format!("{}\n{}", d, text));
        }
        texts.push(text);
        all.push(got);
    }
    if let Some(f) = want.iter().flatten().flat_map(|t| &t.posts).flat_map(|p| p.fps()).find(|f| seen.contains(f)) {
        return fail(format!("generated fingerprint {} existed before", f));
    }
    c.ok(&args)?;
    for (name, t) in names.iter().zip(&texts) {
        if c.read_s(name)? != *t {
            return fail(format!("a second run changed {}", name));
        }
    }
    for (name, got) in names.iter().zip(&mut all) {
        let o = c.run(&["merge", "-o", "m.journal", name])?;
        if got.iter().flat_map(|t| &t.posts).flat_map(|p| &p.cm.tags).any(|t| t.starts_with("candidate-")) {
            // Merging that is another matter.
            continue;
        }
        if !o.success() {
            return fail(format!("merge does not accept {}: {}", name, o.brief()));
        }
        got.sort_by_key(|t| t.date);
        if let Some(d) = diff("merged journal", got, &read(&c.read_s("m.journal")?, "the merged journal")?) {
            return fail(d);
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C14

fn c14(c: &mut Ctx) -> R {
    let k = [K::Merge, K::Rules, K::Gf, K::Fmt][c.s.weighted(&[35, 25, 25, 15])];
    let n = if k == K::Rules { 1 } else { c.s.range(1, 3) };
    let bad_in = if c.s.pct(70) { Some(c.s.below(n)) } else { None };
    let mut names = vec![];
    let mut items_in = vec![];
    let mut first_bad = None;
    let mut d = 0;
    for f in 0..n {
        let mut items = gen::items(&mut c.s, 4, 1, false);
        for it in &mut items {
            let Item::Trn(t) = it else { continue };
            d += 1;
            t.date = Date::from_days(Date::new(2020, 1, 1).days() + d);
            for (i, p) in t.posts.iter_mut().enumerate() {
                p.cm.tags.insert(format!("fp-{}-{}", d, i));
            }
            gen::arrange(t, &mut c.s);
            gen::settle(t);
        }
        if bad_in == Some(f) || (bad_in.is_some() && c.s.pct(15)) {
            for _ in 0..c.s.range(1, 2) {
                let at = c.s.below(items.len() + 1);
                let it = gen::other_item(&mut c.s);
                c.label(match &it {
                    Item::Comment(_) => "comment",
                    Item::Price { .. } => "price",
                    _ => "include",
                });
                // A comment line right after a transaction would be part of it.
                let need_gap = at > 0 && matches!(items[at - 1], Item::Trn(_));
                items.insert(at, it);
                if need_gap {
                    items.insert(at, Item::Empty);
                }
            }
            first_bad = Some(first_bad.unwrap_or(f));
        }
        let text = varied(&items, &mut c.s);
        let back = parse_own(&text)?;
        let other = back.iter().any(|i| !matches!(i, Item::Trn(_) | Item::Empty));
        if other != items.iter().any(|i| !matches!(i, Item::Trn(_) | Item::Empty)) {
            return Err(Stop::Error("rendering changed the items".into()));
        }
        items_in.push(back);
        let name = format!("x{}.journal", f);
        c.write(&name, text)?;
        names.push(name);
    }
    c.write("rules.ron", "[Chain(\"start\", [])]")?;
    c.write("out", "old content\n")?;
    let before = c.snapshot();
    c.nontrivial = first_bad.is_some();
    c.label(format!("{:?}", k));
    let ns: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let mut args = match k {
        K::Merge => vec!["merge", "-u", "un", "-o", "out"],
        K::Rules => vec!["apply-rules", "-o", "out"],
        K::Gf => vec!["generate-fingerprints"],
        _ => vec!["fmt"],
    };
    args.extend(&ns);
    if k == K::Rules {
        args.extend(["table", "rules.ron"]);
    }
    let o = c.run(&args)?;
    if k == K::Fmt {
        if !o.success() {
            return fail(format!("fmt failed: {}", o.brief()));
        }
        for (n, w) in ns.iter().zip(&items_in) {
            let t = c.read_s(n)?;
            let got = parse(&t).or_else(|e| fail(format!("{} after fmt cannot be read: {}\n{}", n, e, t)))?;
            if let Some(d) = items_diff(w, &got) {
                return fail(format!("{} after fmt: {}", n, d));
            }
        }
        return Ok(());
    }
    let Some(bad) = first_bad else {
        if !o.success() {
            return fail(format!("{:?} refused journals of nothing but transactions: {}", k, o.brief()));
        }
        // Nothing is dropped.
        let total: usize = items_in.iter().map(|i| trns(i).len()).sum();
        let mut got = 0;
        for f in if k == K::Gf { ns.clone() } else { vec!["out"] } {
            got += read(&c.read_s(f)?, f)?.len();
        }
        if got != total {
            return fail(format!("{} transactions in, {} out", total, got));
        }
        return Ok(());
    };
    if o.success() {
        let t: Vec<String> = if k == K::Gf { ns.iter().map(|n| c.read_s(n).unwrap_or_default()).collect() } else { vec![c.read_s("out")?] };
        return fail(format!("{:?} accepted a journal with an item it does not handle; result:\n{}", k, t.join("\n---\n")));
    }
    if !o.clean_error() || o.stderr.trim().is_empty() || !o.stdout.is_empty() {
        return fail(format!("not an ordinary refusal: {}", o.brief()));
    }
    let after = c.snapshot();
    let mut want = before.clone();
    if k == K::Gf {
        // Files named earlier may have been completed.
        for n in &ns[..bad] {
            if let Some(d) = after.get(*n) {
                want.insert(n.to_string(), d.clone());
            }
        }
    }
    if let Some(d) = diff_snap(&want, &after) {
        return fail(format!("{:?} refused the input but changed files: {}", k, d));
    }
    Ok(())
}

// ---------------------------------------------------------------------- C15

const BAD_LINES: &[&str] = &[
    "garbage", "2020-13-45 no such date", "2020-02-30 no such date", "  lonely:posting  GBP1", "account foo", "2020-01-01", "2020-01-01 x\n  a  GBP1.2.3", "2020-01-01 x\n  a  = ", "}", "P 2020-01-01 x", "include", "2020-01-01 x\n\n  a  GBP1",
    "2020-01-01 x\n  a  GBP1 @", "~ Monthly", "= /x/", "2020-01-01 x\n  !", "99999-01-01 x\n  a", "P 2020-01-01 00:00:00 USD GBP1", "; a comment", "\n; a comment\n",
];

/// Damages one of the files the job reads. Returns its index among the inputs.
fn damage(c: &mut Ctx, j: &mut Job) -> R<Option<usize>> {
    let total = j.inputs.len() + j.more.len();
    if total == 0 {
        return Ok(None);
    }
    let i = if c.s.pct(70) && !j.inputs.is_empty() { c.s.below(j.inputs.len()) } else { c.s.below(total) };
    let name = if i < j.inputs.len() { j.inputs[i].1.clone() } else { j.more[i - j.inputs.len()].clone() };
    let mut d = c.read(&name)?;
    let journal = name.ends_with(".journal");
    match c.s.weighted(&[if journal { 50 } else { 0 }, 10, 10, 8, 8, 14, if journal { 0 } else { 40 }]) {
        0 => {
            let t = String::from_utf8_lossy(&d).into_owned();
            let mut ls: Vec<&str> = t.split_inclusive('\n').collect();
            let at = ls.len() - c.s.below(ls.len() + 1);
            let b = format!("{}\n", c.s.pick(BAD_LINES));
            ls.insert(at, &b);
            let fixed = ls.iter().map(|l| if l.ends_with('\n') { l.to_string() } else { format!("{}\n", l) }).collect::<String>();
            d = fixed.into_bytes();
            c.label("bad line");
        }
        1 => {
            let at = c.s.below(d.len() + 1);
            d.splice(at..at, [0xff, 0xfe]);
            c.label("bytes that are not UTF-8");
        }
        2 => {
            let at = c.s.below(d.len() + 1);
            d.truncate(at);
            c.label("truncated");
        }
        3 => {
            c.remove(&name);
            c.note(&format!("--- {} removed ---", name));
            c.mix(b"removed");
            c.label("missing");
            return Ok(Some(i));
        }
        4 => {
            c.remove(&name);
            std::fs::create_dir_all(c.path(&name))?;
            c.note(&format!("--- {} is a directory ---", name));
            c.mix(b"dir");
            c.label("directory");
            return Ok(Some(i));
        }
        5 => {
            d = mutate(&mut c.s, &d, &[]);
            c.label("mutated");
        }
        _ => {
            // A field or line of a table replaced.
            let t = String::from_utf8_lossy(&d).into_owned();
            let mut ls: Vec<String> = t.split('\n').map(|l| l.to_string()).collect();
            let k = ls.len() - 1 - c.s.below(ls.len());
            let mut f: Vec<String> = ls[k].split(',').map(|x| x.to_string()).collect();
            let m = c.s.below(f.len());
            f[m] = c.s.pick_s(&["x", "\"x\"", "", "\"", "31/02/2020", "1,2", "Nonsense(", "0.0.0"]);
            ls[k] = f.join(",");
            d = ls.join("\n").into_bytes();
            c.label("bad field");
        }
    }
    c.write(&name, &d)?;
    Ok(Some(i))
}

fn c15(c: &mut Ctx) -> R {
    let k = any_k(&mut c.s);
    let contradict = if c.s.pct(50) { 70 } else { 3 };
    let mut j = job(c, k, &Size { contradict, max: 5, other: true })?;
    let mut bad = None;
    let mut must_fail = false;
    if k == K::Rules && c.s.pct(50) {
        // A rule that fails for some of the transactions only.
        let t = c.read_s("in.journal")?;
        let ts = trns(&parse_own(&t)?);
        let v = rm::vocab(&ts);
        let mut ch = if c.s.pct(50) { rm::gen_chains(&mut c.s, &v) } else { rm::Chains::from([("start".to_string(), vec![])]) };
        let t = c.s.below(ts.len());
        let p = match c.s.below(3) {
            0 => rm::Pred::Desc(rm::Sm::Eq(ts[t].desc.clone())),
            1 => rm::Pred::Account(rm::Sm::Eq(c.s.pick(&v.accounts).clone())),
            _ => rm::gen_pred(&mut c.s, &v, 1),
        };
        let a = if c.s.pct(70) { rm::Act::Error("not this one".into()) } else { rm::Act::Jump("start".into()) };
        ch.get_mut("start").unwrap().insert(0, rm::Rule { pred: p, act: a, ret: c.s.pct(50) });
        let r = rm::render_chains(&ch, &mut c.s);
        c.write("rules.ron", r)?;
        let (want, _) = crate::checks_rules::evaluate(c, &ch, &ts)?;
        must_fail = want.is_err();
        c.label("failing rule");
    } else if k != K::Merge || c.s.pct(60) {
        let tool_fault = match &j.st {
            Some(s) if s.kind() == st::Kind::Pdf => c.s.pct(50),
            _ => false,
        };
        if tool_fault {
            let st = j.st.clone().unwrap();
            let mut plan = crate::fake::Plan::ok(vec![crate::stmt::page_rows(&vec![])]);
            let m = c.s.pick_s(&["ok", "failnone", "failpart", "killpart", "none"]);
            if c.s.pct(50) {
                plan.tess = m;
            } else {
                plan.gm = if m == "none" { "failnone".into() } else { m };
            }
            let mut cmd = st::Cmd { args: vec![], envs: j.envs.clone(), input: 0 };
            cmd.envs.retain(|e| e.0 != "AMV_FAKE_TOOLS");
            st.plan(c, &mut cmd, "bad-", &plan)?;
            j.envs = cmd.envs;
            c.label("OCR tools");
        } else {
            bad = damage(c, &mut j)?;
        }
    }
    // Outputs.
    let choose = |c: &mut Ctx, n: &str| -> R<String> {
        let o = match c.s.weighted(&[50, 25, 25]) {
            0 => {
                let t = "; kept\n2020-01-01 old\n  a  GBP1\n".repeat(c.s.range(1, 40));
                c.write(n, t)?;
                n.to_string()
            }
            1 => format!("new-{}", n),
            _ if !j.inputs.is_empty() => {
                let i = c.s.below(j.inputs.len());
                j.inputs[i].1.clone()
            }
            _ => format!("new-{}", n),
        };
        Ok(o)
    };
    let out = if j.in_place() { None } else { Some(choose(c, "out")?) };
    let un = if k == K::Merge && c.s.pct(60) { Some(choose(c, "un")?) } else { None };
    if un.is_some() && un == out {
        return Err(Stop::Discard("both outputs are the same file"));
    }
    let mk = k == K::Import && c.s.pct(20);
    if mk {
        j.args.insert(0, "--make-parent-dirs".into());
    }
    let out = if mk { Some("newdir/sub/out".to_string()) } else { out };
    let before = c.snapshot();
    let o = j.go(c, out.as_deref(), un.as_deref())?;
    if o.success() {
        if must_fail {
            return fail(format!("apply-rules succeeded and wrote its output although a rule fails for a transaction: {}", o.brief()));
        }
        c.label("succeeded");
        return Ok(());
    }
    c.nontrivial = true;
    if j.in_place() {
        // Files before the offending one may have been rewritten.
        let Some(b) = bad else {
            return fail(format!("{:?} failed on readable journals: {}", k, o.brief()));
        };
        let after = c.snapshot();
        let mut want = before.clone();
        for (_, n) in &j.inputs[..b.min(j.inputs.len())] {
            if let Some(d) = after.get(n) {
                let (Ok(x), Ok(y)) = (parse(&terminated(&String::from_utf8_lossy(&before[n]))), parse(&String::from_utf8_lossy(d))) else {
                    return fail(format!("{} cannot be read any more after the failing run:\n{}", n, crate::prop::show(d)));
                };
                if trns(&x).len() != trns(&y).len() {
                    return fail(format!("{} lost transactions in the failing run", n));
                }
                want.insert(n.clone(), d.clone());
            }
        }
        if let Some(d) = diff_snap(&want, &after) {
            return fail(format!("the failed command changed files: {}", d));
        }
        return Ok(());
    }
    if let Some(d) = diff_snap(&before, &c.snapshot()) {
        return fail(format!("the failed command changed files: {}\n{}", d, o.brief()));
    }
    Ok(())
}

// ---------------------------------------------------------------------- C16

/// Makes the inputs large by repeating their transactions.
fn enlarge(c: &mut Ctx, j: &Job) -> R {
    let times = *c.s.pick(&[3, 10, 40, 150]);
    for (_, n) in &j.inputs {
        if !n.ends_with(".journal") {
            continue;
        }
        let t = c.read_s(n)?;
        let mut o = String::new();
        for i in 0..times {
            // Merging takes time that is quadratic in the size.
            if o.len() > 400_000 {
                break;
            }
            let t = terminated(&t);
            if j.k == K::Merge {
                // Own fingerprints and dates for every copy.
                o.push_str(&t.replace("fp-", &format!("fp-r{}-", i)).replace("2020", &format!("{}", 2020 + i)));
            } else {
                o.push_str(&t);
            }
            o.push('\n');
        }
        c.write(n, o)?;
    }
    Ok(())
}

fn c16(c: &mut Ctx) -> R {
    let k = any_k(&mut c.s);
    let j = job(c, k, &Size { contradict: 0, max: 5, other: true })?;
    let big = c.s.pct(35) && k != K::Import;
    if big {
        enlarge(c, &j)?;
    }
    let before = c.snapshot();
    // What the command writes when nothing goes wrong.
    let un0 = if k == K::Merge { Some("un-control") } else { None };
    let o = j.go(c, if j.in_place() { None } else { Some("control") }, un0)?;
    if !o.success() {
        return Err(Stop::Discard("the command fails anyway"));
    }
    let (size, un_size) = if j.in_place() {
        (j.inputs.iter().map(|(_, n)| c.read(n).map(|d| d.len()).unwrap_or(0)).max().unwrap_or(0), 0)
    } else {
        (c.read("control")?.len(), if c.exists("un-control") { c.read("un-control")?.len() } else { 0 })
    };
    restore(c, &before)?;
    if size == 0 && un_size == 0 {
        return Ok(());
    }
    c.write("afile", "a file\n")?;
    std::fs::create_dir_all(c.path("adir"))?;
    let small_un = Some("un").filter(|_| un_size > 0);
    // Which output is hit.
    let hit_un = un_size > 0 && c.s.pct(60);
    let hit = if hit_un { un_size } else { size };
    let limit = |s: &mut Src| -> Option<usize> {
        // In blocks of 1024 bytes, less than the output.
        let blocks = (hit - 1) / 1024;
        if blocks == 0 {
            None
        } else {
            Some(1 + s.below(blocks))
        }
    };
    let (what, o) = if j.in_place() {
        let Some(n) = limit(&mut c.s) else {
            return Ok(());
        };
        (format!("file size limit of {} KiB", n), limited(c, &j, None, None, n)?)
    } else {
        match c.s.below(6) {
            0 => {
                let p = c.s.pick_s(&["/dev/full", "missing/out", "missing/dir/out", "adir", "afile/out", "adir/", "."]);
                let o = if hit_un { j.go(c, Some("out"), Some(&p))? } else { j.go(c, Some(&p), small_un)? };
                (format!("output to {}", p), o)
            }
            1 | 2 => {
                let dash = c.s.pct(50);
                let out = if dash { Some("-") } else { None };
                let (out, un) = if hit_un { (Some("out"), Some("-")) } else { (out, small_un) };
                let o = j.full(c, out, un, b"", &[], Some(Path::new("/dev/full")))?;
                ("standard output is a full device".to_string(), o)
            }
            3 => {
                let (out, un) = if hit_un { (Some("out"), Some("-")) } else { (None, small_un) };
                (("standard output is a closed pipe").to_string(), piped(c, &j, out, un)?)
            }
            _ => match limit(&mut c.s) {
                Some(n) => {
                    // The other output must fit.
                    let (out, un) = (Some("out"), small_un);
                    (format!("file size limit of {} KiB", n), limited(c, &j, out, un, n)?)
                }
                None => {
                    let o = if hit_un { j.go(c, Some("out"), Some("/dev/full"))? } else { j.go(c, Some("/dev/full"), small_un)? };
                    ("output to /dev/full".to_string(), o)
                }
            },
        }
    };
    let what_label = what.split(" of ").next().unwrap().to_string();
    c.label(what_label);
    c.label(if hit_un { "unmerged output" } else { "main output" });
    if hit == 0 {
        return Ok(());
    }
    c.nontrivial = true;
    if o.success() {
        return fail(format!("{:?} reports success although its result of {} bytes could not be written ({})", k, hit, what));
    }
    if !o.clean_error() {
        return fail(format!("{:?} did not end with an ordinary error ({}): {}", k, what, o.brief()));
    }
    if o.stderr.trim().is_empty() {
        return fail(format!("{:?} failed without a message ({})", k, what));
    }
    Ok(())
}

fn limited(c: &mut Ctx, j: &Job, out: Option<&str>, un: Option<&str>, blocks: usize) -> R<Out> {
    let a = j.line(out, un);
    let script = format!("trap '' XFSZ; ulimit -f {}; exec \"$0\" \"$@\"", blocks);
    c.mix(script.as_bytes());
    c.note(&format!("$ ulimit -f {}; accountmerge {}", blocks, a.join(" ")));
    let bin = c.env.bin.display().to_string();
    let mut args: Vec<&str> = vec!["-c", &script, &bin];
    args.extend(a.iter().map(|s| s.as_str()));
    let e: Vec<(&str, &str)> = j.envs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let o = c.env.run_bin(Path::new("/bin/bash"), &c.dir, &args, b"", &e, crate::sut::To::File(None)).map_err(|e| Stop::Error(e))?;
    c.note(&format!("=> {}", o.brief()));
    Ok(o)
}

fn piped(c: &mut Ctx, j: &Job, out: Option<&str>, un: Option<&str>) -> R<Out> {
    let a = j.line(out, un);
    c.mix(b"closed pipe");
    c.note(&format!("$ accountmerge {} >closed pipe", a.join(" ")));
    let args: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let e: Vec<(&str, &str)> = j.envs.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect();
    let o = c.env.run_bin(&c.env.bin, &c.dir, &args, b"", &e, crate::sut::To::ClosedPipe).map_err(|e| Stop::Error(e))?;
    c.note(&format!("=> {}", o.brief()));
    Ok(o)
}

// ---------------------------------------------------------------------- C31

fn c31(c: &mut Ctx) -> R {
    let k = any_k(&mut c.s);
    let mut j = job(c, k, &Size { contradict: 3, max: 5, other: true })?;
    if j.in_place() {
        return c31_in_place(c, &j);
    }
    let un = k == K::Merge && c.s.pct(80);
    if k != K::Import && c.s.pct(5) {
        enlarge(c, &j)?;
        c.label("large");
    }
    let before = c.snapshot();
    let base = j.go(c, Some("base"), if un { Some("base-un") } else { None })?;
    let want = if base.success() { Some(c.read("base")?) } else { None };
    let want_un = if c.exists("base-un") { Some(c.read_s("base-un")?) } else { None };
    restore(c, &before)?;
    // Standard input?
    let mut stdin = vec![];
    let mut from = None;
    if c.s.pct(60) && !j.inputs.is_empty() {
        let (pos, name) = j.inputs[c.s.below(j.inputs.len())].clone();
        let d = c.read(&name)?;
        // Its transactions must be told from those that name standard input.
        let told = before.values().all(|d| !String::from_utf8_lossy(d).contains("<stdio>"));
        if told && !d.is_empty() && !String::from_utf8_lossy(&d).contains("source-file:") {
            j.args[pos] = "-".into();
            c.remove(&name);
            stdin = d;
            from = Some(name);
        }
    } else if j.args.iter().any(|a| a.starts_with("lookup:")) {
        // The lookup table may come from standard input as well.
        let d = c.read("lookup.ron")?;
        for a in &mut j.args {
            if a == "lookup:lookup.ron" {
                *a = "lookup:-".into();
                from = Some("lookup.ron".into());
                stdin = d.clone();
            }
        }
        c.remove("lookup.ron");
    }
    // Outputs, perhaps with something there already.
    let old = |s: &mut Src, like: usize| -> Option<Vec<u8>> {
        match s.below(4) {
            0 => None,
            1 => Some(vec![b'#'; like + s.range(1, 5000)]),
            2 => Some(vec![b'#'; s.below(like + 1)]),
            _ => Some(vec![b'\n'; like]),
        }
    };
    // Names that only look like '-' are names.
    let odd = ["./-", "out-", "<stdio>", "a b", "-.out", "ö\u{a0}", "./--", "d/out", "dev/fd/1", "dev/stdout"];
    for d in ["d", "dev/fd"] {
        std::fs::create_dir_all(c.path(d))?;
    }
    let file = if c.s.pct(15) { *c.s.pick(&odd[..]) } else { "out" };
    let un_file = if c.s.pct(15) { c.s.pick(&odd[..]) } else { "un" };
    let (file, un_file) = match (file.starts_with('-'), un_file.starts_with('-'), file == un_file) {
        (false, false, false) => (file, un_file),
        _ => ("out", "un"),
    };
    let out = [Some(file), Some("-"), None][c.s.weighted(&[50, 25, 25])];
    let un_to = if un { Some([un_file, "-"][c.s.weighted(&[70, 30])]) } else { None };
    if out == Some(file) {
        let l = want.as_ref().map(|w| w.len()).unwrap_or(10);
        if let Some(o) = old(&mut c.s, l) {
            place(c, file, &o)?;
            c.mix(&o);
            c.label("existing output");
            c.nontrivial = true;
        }
    } else {
        c.label("standard output");
        c.nontrivial = true;
    }
    let mut un_old = None;
    if un_to == Some(un_file) {
        let l = want_un.as_ref().map(|w| w.len()).unwrap_or(10);
        un_old = old(&mut c.s, l);
        if let Some(o) = &un_old {
            place(c, un_file, o)?;
        }
    }
    if from.is_some() {
        c.label("standard input");
        c.nontrivial = true;
    }
    let o = j.full(c, out, un_to, &stdin, &[], None)?;
    let Some(want) = want else {
        c.nontrivial = false;
        if o.success() {
            return fail(format!("the command succeeds with '-' but fails with files ({})", base.brief()));
        }
        return Ok(());
    };
    if !o.success() {
        return fail(format!("the command fails with '-' but succeeds with files: {}", o.brief()));
    }
    let source = |t: &str| -> String {
        match &from {
            Some(n) => t.replace("<stdio>", &format!("\"{}\"", n)),
            None => t.to_string(),
        }
    };
    let mut stdout = o.stdout.clone();
    if un_to == Some("-") {
        // The unmerged transactions come first.
        let w = want_un.clone().unwrap_or_default();
        let got = source(&String::from_utf8_lossy(&stdout));
        let Some(rest) = got.strip_prefix(&w) else {
            return fail(format!("unmerged transactions on standard output are not those written to a file:\n{}\n---\n{}", w, got));
        };
        stdout = rest.as_bytes().to_vec();
    }
    let got = if out == Some(file) {
        if !stdout.is_empty() {
            return fail(format!("output on standard output although -o names a file: {}", o.brief()));
        }
        c.read(file)?
    } else {
        stdout
    };
    if got != want {
        return fail(format!("the result differs from that with plain files:\n{}\n---\n{}", crate::prop::show(&want), crate::prop::show(&got)));
    }
    if un_to == Some(un_file) {
        let got = std::fs::read(c.path(un_file)).ok();
        let got = got.map(|g| source(&String::from_utf8_lossy(&g)).into_bytes());
        let expect = want_un.map(|w| w.into_bytes()).or(un_old);
        if got != expect {
            return fail(format!(
                "the unmerged file differs from that with plain files:\n{}\n---\n{}",
                crate::prop::show(&expect.unwrap_or_default()),
                crate::prop::show(&got.unwrap_or_default())
            ));
        }
    }
    Ok(())
}

/// A file, or a symbolic link to one.
fn place(c: &mut Ctx, name: &str, data: &[u8]) -> R {
    if c.s.pct(20) {
        let real = format!("{}.real", name);
        std::fs::write(c.path(&real), data)?;
        std::os::unix::fs::symlink(real.rsplit('/').next().unwrap_or_default(), c.path(name))?;
        c.label("output is a symbolic link");
    } else {
        std::fs::write(c.path(name), data)?;
    }
    Ok(())
}

fn place_link(c: &mut Ctx, name: &str, data: &[u8]) -> R {
    let real = format!("real-{}", name);
    std::fs::write(c.path(&real), data)?;
    std::os::unix::fs::symlink(&real, c.path(name))?;
    Ok(())
}

fn c31_in_place(c: &mut Ctx, j: &Job) -> R {
    if c.s.pct(5) {
        enlarge(c, j)?;
        c.label("large");
    }
    let before = c.snapshot();
    let base = j.go(c, None, None)?;
    if !base.success() {
        return fail(format!("failed on readable journals: {}", base.brief()));
    }
    if !base.stdout.is_empty() {
        return fail("something was printed on standard output");
    }
    let after = c.snapshot();
    restore(c, &before)?;
    let i = c.s.below(j.inputs.len());
    let (pos, name) = j.inputs[i].clone();
    let stdin = before[&name].clone();
    if stdin.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    c.label("standard input and output");
    c.remove(&name);
    let mut a = j.line(None, None);
    a[pos + 1] = "-".into();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    let o = c.run_full(&a, &stdin, &[], None)?;
    if !o.success() {
        return fail(format!("the command fails with '-': {}", o.brief()));
    }
    let mut now = c.snapshot();
    if now.insert(name.clone(), o.stdout).is_some() {
        return fail(format!("{} was created although '-' was given instead", name));
    }
    let norm = |s: &Snapshot| -> Snapshot {
        if j.k == K::Gf {
            s.iter().map(|(n, d)| (n.clone(), unrandom(&String::from_utf8_lossy(d)).0.into_bytes())).collect()
        } else {
            s.clone()
        }
    };
    if let Some(d) = diff_snap(&norm(&after), &norm(&now)) {
        return fail(format!("the result with '-' differs from that with a file: {}", d));
    }
    // The file may also be reached by a symbolic link.
    if c.s.pct(20) {
        restore(c, &before)?;
        c.remove(&name);
        place_link(c, &name, &before[&name])?;
        let o = j.go(c, None, None)?;
        if !o.success() {
            return fail(format!("the command fails when {} is a symbolic link: {}", name, o.brief()));
        }
        let mut now = c.snapshot();
        let real = now.remove(&format!("real-{}", name));
        now.insert(name.clone(), c.read(&name)?);
        if let Some(d) = diff_snap(&norm(&after), &norm(&now)) {
            return fail(format!("the result differs when {} is a symbolic link: {}", name, d));
        }
        if real.is_none() {
            return fail("the linked file is gone");
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C32

const DICT: &[&str] = &[
    "\n", "\r\n", "\r", " ", "  ", "\t", ";", "; ", ":", "::", ":x:", "\"", "\"\"", ",", "(", ")", "[", "]", "{", "}", "{{", "}}", "@", "@@", "=", "*", "!", "-", "--", ".", "0", "1", "99999999999999999999999999999999999", "-1", "2147483647",
    "2147483648", "-2147483648", "9223372036854775808", "0.0000000000000000000000000001", "0.00000000000000000000000000001", "79228162514264337593543950335", "79228162514264337593543950336", "1e400", "NaN", "inf", "2020-02-30", "2020-02-29", "0000-00-00", "99999-01-01", "-0001-01-01", "31 Feb 2020", "29 Feb 2021",
    "31/12/262143", "29/02/2100", "24:00:00", "23:59:60", "UTC", "UTC+99", "UTC+23:59", "UTC-24", "£", "€", "\u{0}", "\u{feff}", "\u{e000}cleared", "é", "日本", "\u{202e}", "GBP", "P ", "include ", "fp-", "candidate-fp-", "candidate-", "unknown-account", "source-file: ", "key: ", "All([", "Any([", "Not(", "True",
    "Chain(\"start\", [", "JumpChain(\"start\")", "Include(\"rules.ron\")", "Include(\".\")", "Error(\"x\")", "Matches(\"(\")", "Matches(\"(a*)*b\")", "r#\"", "\\", "\\u{110000}", "//", "/*", "5\t", "4\t1\t", "Account Number", "Date", "Details", "Balance", "Effective Date 31 Feb 2020", "Effective Date ", "2100", "1979", "31", "Feb",
];

/// Numbers of every length, and those around which types end.
fn digits(s: &mut Src) -> String {
    if s.pct(50) {
        let n = s.range(1, 12);
        return (0..n).map(|_| (b'0' + s.below(10) as u8) as char).collect();
    }
    let e: u128 = match s.below(8) {
        0 => 1 << s.below(127),
        1 => 10u128.pow(s.below(38) as u32),
        2 => (1u128 << *s.pick(&[7, 8, 15, 16, 31, 32, 63, 64])) / *s.pick(&[60, 3600, 86400, 1000]),
        3 => 262_143,
        4 => 262_142,
        5 => 79_228_162_514_264_337_593_543_950_335,
        6 => 1440,
        _ => 9999,
    };
    format!("{}", (e + s.below(3) as u128).saturating_sub(1) + (s.below(2) * 60) as u128)
}

pub fn mutate(s: &mut Src, d: &[u8], other: &[u8]) -> Vec<u8> {
    let mut d = d.to_vec();
    for _ in 0..1 + s.small(4) {
        let at = s.below(d.len() + 1);
        // Mostly whole tokens of the dictionary at borders of tokens.
        let tok_border = |d: &[u8], mut i: usize| {
            while i > 0 && i < d.len() && (d[i - 1].is_ascii_alphanumeric() && d[i].is_ascii_alphanumeric()) {
                i -= 1;
            }
            i
        };
        match s.weighted(&[25, 15, 10, 10, 10, 5, 10, 10, 5, 10]) {
            0 => {
                let i = tok_border(&d, at);
                let t = s.pick(DICT).as_bytes();
                d.splice(i..i, t.iter().copied());
            }
            1 => {
                // Replace a token.
                let a = tok_border(&d, at);
                let mut b = a;
                while b < d.len() && (d[b].is_ascii_alphanumeric() || d[b] >= 0x80) {
                    b += 1;
                }
                let t = s.pick(DICT).as_bytes();
                d.splice(a..b, t.iter().copied());
            }
            2 => {
                if at < d.len() {
                    d[at] = s.below(256) as u8;
                }
            }
            3 => {
                let e = (at + 1 + s.small(40)).min(d.len());
                if at < e {
                    d.drain(at..e);
                }
            }
            4 => {
                // Duplicate a line.
                let a = d[..at].iter().rposition(|b| *b == b'\n').map(|i| i + 1).unwrap_or(0);
                let e = d[at..].iter().position(|b| *b == b'\n').map(|i| at + i + 1).unwrap_or(d.len());
                let l = d[a..e].to_vec();
                let n = 1 + s.small(3);
                for _ in 0..n {
                    d.splice(e..e, l.iter().copied());
                }
            }
            5 => d.truncate(at),
            6 => {
                // Move a chunk.
                let e = (at + 1 + s.small(60)).min(d.len());
                let l: Vec<u8> = d.drain(at..e).collect();
                let to = s.below(d.len() + 1);
                d.splice(to..to, l);
            }
            7 => {
                let n = 1 + s.small(200);
                let t = s.pick(DICT).as_bytes();
                for _ in 0..n {
                    d.splice(at..at, t.iter().copied());
                }
            }
            9 => {
                // Another number for the digits at or after a place.
                let Some(a) = d[at..].iter().position(|b| b.is_ascii_digit()).map(|i| at + i) else { continue };
                let mut e = a;
                while e < d.len() && d[e].is_ascii_digit() {
                    e += 1;
                }
                let t = digits(s);
                let a = if s.pct(20) { e } else { a };
                d.splice(a..e, t.into_bytes());
            }
            _ => {
                if !other.is_empty() {
                    let a = s.below(other.len());
                    let e = (a + 1 + s.small(200)).min(other.len());
                    d.splice(at..at, other[a..e].iter().copied());
                }
            }
        }
        if d.len() > 300_000 {
            d.truncate(300_000);
        }
    }
    d
}

const CHARS: &[u8] = b"0123456789-/.,;:()[]{}@=*!\"'# \t\n\nabcGBPxyz%|~\\";

fn random_bytes(s: &mut Src) -> Vec<u8> {
    let n = s.small(400);
    let mut x = hash64(&[&(s.below(1 << 30) as u64).to_le_bytes()]);
    let text = s.pct(50);
    (0..n)
        .map(|_| {
            let v = splitmix(&mut x);
            if text {
                CHARS[v as usize % CHARS.len()]
            } else {
                v as u8
            }
        })
        .collect()
}

/// Deeply nested or oversized but otherwise plausible inputs.
fn extreme(s: &mut Src, name: &str, growing: bool) -> Vec<u8> {
    let n = *s.pick(&[10, 100, 127, 128, 129, 1000, 20_000]);
    if name.ends_with("rules.ron") {
        let (a, b) = *s.pick(&[("All([", "])"), ("Any([", "])"), ("Not(", ")")]);
        return match s.below(4) {
            0 => format!("[Chain(\"start\", [(predicate: {}True{}, action: Noop, result: Continue)])]", a.repeat(n), b.repeat(n)),
            1 => format!("[Chain(\"start\", [(predicate: True, action: {}Noop{}, result: Continue)])]", "All([".repeat(n), "])".repeat(n)),
            2 => format!("[Chain(\"start\", [(predicate: TransactionDescription({}Eq(\"x\"){}), action: Noop, result: Continue)])]", "AsLower(".repeat(n), ")".repeat(n)),
            _ => format!("[Chain(\"start\", [(predicate: TransactionDescription(Matches(\"{}a{}\")), action: Noop, result: Continue)])]", "(".repeat(n), ")".repeat(n)),
        }
        .into_bytes();
    }
    if name.ends_with(".ron") {
        return "[".repeat(n).into_bytes();
    }
    if name.ends_with(".journal") {
        return match s.below(5) {
            0 => format!("2020-01-01 {}\n  a  GBP1\n", "x".repeat(n)),
            1 => format!("2020-01-01 x\n  a  GBP{}\n", "1".repeat(n)),
            // Rules that double the description for every posting make it
            // exponentially long, as told.
            2 => format!("2020-01-01 x\n{}", "  a  GBP1\n".repeat(if growing { 8 } else { n })),
            3 => format!("2020-01-01 x\n  a  GBP1\n{}", "  ; :a:b: c: d\n".repeat(n)),
            _ => format!("2020-01-01 x\n  a  GBP1  ; {}\n", ":a".repeat(n)),
        }
        .into_bytes();
    }
    let cell = "\"".to_string() + &"9".repeat(n) + "\",";
    cell.repeat(1 + s.below(9)).into_bytes()
}

fn c32(c: &mut Ctx) -> R {
    let k = any_k(&mut c.s);
    let mut j = job(c, k, &Size { contradict: 20, max: 4, other: true })?;
    let mut files: Vec<String> = j.inputs.iter().map(|i| i.1.clone()).chain(j.more.iter().cloned()).collect();
    let pdf = j.st.as_ref().map(|s| s.kind() == st::Kind::Pdf) == Some(true);
    let others: BTreeMap<String, Vec<u8>> = c.snapshot();
    if pdf {
        files.retain(|f| !f.ends_with(".pdf"));
        // The OCR text.
        let st = j.st.clone().unwrap();
        let st::Body::Pdf(p) = &st.body else { unreachable!() };
        let doc = p.doc(&mut c.s);
        let pages = doc.pages(&mut c.s);
        let good = crate::stmt::pages_tsv(&pages).into_bytes();
        let raw = match c.s.weighted(&[80, 10, 10]) {
            0 => ocr_mutate(&mut c.s, &good),
            1 => random_bytes(&mut c.s),
            _ => mutate(&mut c.s, &good, &[]),
        };
        let mut plan = crate::fake::Plan::ok(pages);
        plan.tess = "raw".into();
        plan.raw = Some(raw);
        let mut cmd = st::Cmd { args: vec![], envs: j.envs.clone(), input: 0 };
        cmd.envs.retain(|e| e.0 != "AMV_FAKE_TOOLS");
        st.plan(c, &mut cmd, "raw-", &plan)?;
        j.envs = cmd.envs;
        c.label("OCR text");
        c.nontrivial = true;
    }
    if !files.is_empty() && (!pdf || c.s.pct(20)) {
        for _ in 0..1 + c.s.small(1) {
            let f = files[c.s.below(files.len())].clone();
            let good = others.get(&f).cloned().unwrap_or_default();
            let keys: Vec<&String> = others.keys().filter(|k| !k.ends_with('/')).collect();
            let o = others[keys[c.s.below(keys.len())]].clone();
            let d = match c.s.weighted(&[86, 7, 7]) {
                0 => mutate(&mut c.s, &good, &o),
                1 => random_bytes(&mut c.s),
                _ => {
                    let growing = others.get("rules.ron").map(|r| String::from_utf8_lossy(r).contains("ReplaceTransactionDescription")) == Some(true);
                    extreme(&mut c.s, &f, growing)
                }
            };
            c.write(&f, d)?;
            c.label(f.rsplit('.').next().unwrap().to_string());
            c.nontrivial = true;
        }
    }
    let un = if k == K::Merge && c.s.pct(50) { Some("un") } else { None };
    let o = j.go(c, None, un)?;
    if o.panicked() || o.signal.is_some() {
        return fail(format!("the command crashed: {}", o.brief()));
    }
    if o.success() {
        c.label("ok");
        return Ok(());
    }
    c.label("failed");
    if o.stderr.trim().is_empty() {
        return fail(format!("the command failed without a message: {}", o.brief()));
    }
    if !o.stdout.is_empty() {
        return fail(format!("the command failed but printed a result: {}", o.brief()));
    }
    Ok(())
}

/// Changes cells of the OCR table.
fn ocr_mutate(s: &mut Src, d: &[u8]) -> Vec<u8> {
    let t = String::from_utf8_lossy(d).into_owned();
    let mut rows: Vec<Vec<String>> = t.lines().map(|l| l.split('\t').map(|x| x.to_string()).collect()).collect();
    for _ in 0..1 + s.small(5) {
        if rows.is_empty() {
            break;
        }
        let r = s.below(rows.len());
        match s.weighted(&[40, 30, 10, 10, 10]) {
            0 => {
                // A position.
                let i = 6 + s.below(4);
                if i < rows[r].len() {
                    rows[r][i] = s.pick_s(&["0", "-1", "2147483647", "-2147483648", "1073741824", "-2000000000", "2000000000", "100000"]);
                }
            }
            1 => {
                if let Some(x) = rows[r].last_mut() {
                    *x = s.pick_s(&["", "Date", "Details", "Payments", "Receipts", "Balance", "31", "Feb", "30", "2021", "1,,2", ",", ".", "-", "-5.00", "99999999999999999999999999999999999", "1.", "Effective", "00", "ünï", "\u{feff}", "Account", "Number", "12-34-56"]);
                }
            }
            2 => {
                rows.remove(r);
            }
            3 => {
                let x = rows[r].clone();
                let to = s.below(rows.len() + 1);
                rows.insert(to, x);
            }
            _ => {
                let i = s.below(6);
                if i < rows[r].len() {
                    rows[r][i] = s.pick_s(&["0", "1", "2", "3", "4", "5", "6", "-1", "2147483647"]);
                }
            }
        }
    }
    rows.iter().map(|r| r.join("\t") + "\n").collect::<String>().into_bytes()
}
