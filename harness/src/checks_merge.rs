//! C01-C09 and C33: merging.

use crate::comment::Cm;
use crate::gen::*;
use crate::journal::*;
use crate::merge_model::{self, Refuse, SRC, UNK};
use crate::prop::{fail, Ctx, Prop, Stop, R};
use crate::sut::Out;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    let a: &[&str] = &["journals are generated within the documented journal syntax"];
    vec![
        Prop { id: "C01", rule: "merge succeeded and merged at least one posting into an existing one", quick: 25000, thorough: 300000, min_nontrivial: 20, assumptions: a, f: c01 },
        Prop { id: "C02", rule: "merge succeeded, some posting matched and some posting matched nothing existing", quick: 25000, thorough: 300000, min_nontrivial: 20, assumptions: a, f: c02 },
        Prop { id: "C03", rule: "at least one merge step changed a field or had to keep a conflicting one", quick: 25000, thorough: 300000, min_nontrivial: 40, assumptions: a, f: c03 },
        Prop { id: "C04", rule: "at least one posting was ambiguous", quick: 22000, thorough: 300000, min_nontrivial: 25, assumptions: a, f: c04 },
        Prop { id: "C05", rule: "two or more sets were merged with at least one match and nothing unmerged", quick: 18000, thorough: 300000, min_nontrivial: 20, assumptions: a, f: c05 },
        Prop { id: "C06", rule: "merge of at least two files succeeded with at least one match across the split", quick: 18000, thorough: 300000, min_nontrivial: 20, assumptions: a, f: c06 },
        Prop { id: "C07", rule: "the history has a contradiction to refuse, or matches that must be accepted", quick: 25000, thorough: 300000, min_nontrivial: 40, assumptions: a, f: c07 },
        Prop { id: "C08", rule: "two or more transactions share a date in the result", quick: 22000, thorough: 300000, min_nontrivial: 30, assumptions: a, f: c08 },
        Prop { id: "C09", rule: "a file holds two or more source sets", quick: 18000, thorough: 300000, min_nontrivial: 20, assumptions: a, f: c09 },
        Prop { id: "C33", rule: "an ambiguity was resolved by editing and merged again", quick: 18000, thorough: 300000, min_nontrivial: 10, assumptions: a, f: c33 },
    ]
}

pub struct Res {
    pub out: Out,
    pub text: String,
    pub merged: Vec<Trn>,
    pub unmerged_text: Option<String>,
    pub unmerged: Vec<Trn>,
}

/// Runs merge; on success reads its outputs.
pub fn run_merge(c: &mut Ctx, inputs: &[&str], out: &str, un: Option<&str>) -> R<Res> {
    let mut args = vec!["merge", "-o", out];
    if let Some(u) = un {
        args.push("-u");
        args.push(u);
        c.remove(u);
    }
    args.extend(inputs);
    c.remove(out);
    let o = c.run(&args)?;
    let mut r = Res { out: o, text: String::new(), merged: vec![], unmerged_text: None, unmerged: vec![] };
    if r.out.success() {
        r.text = c.read_s(out)?;
        r.merged = read(&r.text, "merged journal")?;
        if let Some(u) = un {
            if c.exists(u) {
                let t = c.read_s(u)?;
                r.unmerged = read(&t, "unmerged journal")?;
                r.unmerged_text = Some(t);
            }
        }
    }
    Ok(r)
}

pub fn read(text: &str, what: &str) -> R<Vec<Trn>> {
    match parse(text) {
        Ok(i) => {
            if let Some(x) = i.iter().find(|x| !matches!(x, Item::Trn(_) | Item::Empty)) {
                return fail(format!("{} holds an unexpected item {:?}:\n{}", what, x, text));
            }
            Ok(trns(&i))
        }
        Err(e) => fail(format!("{} is not a readable journal: {}\n{}", what, e, text)),
    }
}

fn names(files: &[HFile]) -> Vec<&str> {
    files.iter().map(|f| f.name.as_str()).collect()
}

fn describe(r: &Res) -> String {
    format!("merged:\n{}\nunmerged:\n{}", r.text, r.unmerged_text.clone().unwrap_or_default())
}

// ---------------------------------------------------------------------- C01

fn c01(c: &mut Ctx) -> R {
    let files = history(&mut c.s, &HOpts { collide: 45, contradict: 2, ..Default::default() });
    write_history(c, &files)?;
    let r = run_merge(c, &names(&files), "out", Some("un"))?;
    if !r.out.success() {
        return Err(Stop::Discard("merge refused"));
    }
    // Where each fingerprint is.
    let mut at: BTreeMap<String, (usize, usize)> = BTreeMap::new();
    for (i, t) in r.merged.iter().enumerate() {
        for (k, p) in t.posts.iter().enumerate() {
            let fps = p.fps();
            if fps.is_empty() {
                return fail(format!("merged posting without any fingerprint came from no input: {:?}\n{}", p.account, describe(&r)));
            }
            for fp in fps {
                if let Some(o) = at.insert(fp.clone(), (i, k)) {
                    return fail(format!("fingerprint {} is on two merged postings {:?} and {:?}\n{}", fp, o, (i, k), describe(&r)));
                }
            }
        }
    }
    // Inputs, with the name of their source.
    let mut inputs: Vec<Trn> = vec![];
    for f in merge_model::File::all(&files) {
        for (_, set) in merge_model::sets(&f) {
            inputs.extend(set);
        }
    }
    let key = |t: &Trn| (t.cm.kv.get(SRC).cloned(), t.date, t.desc.clone(), t.posts.iter().map(|p| p.fps()).collect::<Vec<_>>());
    let mut un: Vec<_> = r.unmerged.iter().map(key).collect();
    let mut from_merged: BTreeSet<String> = BTreeSet::new();
    let mut heads: Vec<(Date, String)> = vec![];
    let mut shared = 0;
    for t in &inputs {
        if let Some(i) = un.iter().position(|u| *u == key(t)) {
            un.remove(i);
            continue;
        }
        heads.push((t.date, t.desc.clone()));
        for p in &t.posts {
            let places: BTreeSet<_> = p.fps().iter().map(|f| at.get(f).copied()).collect();
            if places.len() != 1 || places.contains(&None) {
                return fail(format!(
                    "posting {} of {} {:?} with fingerprints {:?} is not on exactly one merged posting (places {:?}) and its transaction is not in the unmerged output\n{}",
                    p.account,
                    t.date.iso(),
                    t.desc,
                    p.fps(),
                    places,
                    describe(&r)
                ));
            }
            for f in p.fps() {
                if !from_merged.insert(f) {
                    shared += 1;
                }
            }
        }
    }
    if let Some(u) = un.first() {
        return fail(format!("unmerged transaction {:?} is no input transaction (or is there too often)\n{}", u, describe(&r)));
    }
    for f in at.keys() {
        if !from_merged.contains(f) {
            return fail(format!("fingerprint {} in the merged journal came from no merged input\n{}", f, describe(&r)));
        }
    }
    for t in &r.merged {
        match heads.iter().position(|h| *h == (t.date, t.desc.clone())) {
            Some(i) => {
                heads.remove(i);
            }
            None => return fail(format!("merged transaction {} {:?} came from no input\n{}", t.date.iso(), t.desc, describe(&r))),
        }
    }
    let n_in: usize = inputs.iter().map(|t| t.posts.len()).sum();
    let n_out: usize = r.merged.iter().map(|t| t.posts.len()).sum::<usize>() + r.unmerged.iter().map(|t| t.posts.len()).sum::<usize>();
    c.nontrivial = shared > 0 || n_out < n_in;
    if !r.unmerged.is_empty() {
        c.label("has unmerged");
    }
    c.label(format!("files={}", files.len()));
    Ok(())
}

// ---------------------------------------------------------------------- C02

fn label_events(c: &mut Ctx, ev: &merge_model::Events) {
    for (n, v) in [
        ("fp match", ev.fp_match),
        ("soft match", ev.soft_match),
        ("new posting", ev.fresh),
        ("new posting joined a matched transaction", ev.joined),
        ("ambiguous", ev.ambiguous),
        ("account resolved", ev.resolved_account),
        ("balance filled", ev.balance_filled),
        ("status changed", ev.status_changed),
        ("value tag overwritten", ev.kv_overwritten),
        ("match across dates", ev.cross_date),
    ] {
        if v > 0 {
            c.label(n);
        }
    }
}

fn against_model(c: &mut Ctx, files: &[HFile]) -> R<merge_model::Merged> {
    let m = match merge_model::merge(&model_files(files), true) {
        Ok(m) => m,
        Err(_) => return Err(Stop::Discard("history to be refused")),
    };
    let r = run_merge(c, &names(files), "out", Some("un"))?;
    if !r.out.success() {
        return fail(format!("merge refused input that is neither unidentified nor contradictory: {}", r.out.brief()));
    }
    if let Some(d) = diff("merged journal", &m.trns, &r.merged) {
        return fail(format!("{}\n{}", d, describe(&r)));
    }
    if let Some(d) = diff("unmerged journal", &m.unmerged, &r.unmerged) {
        return fail(format!("{}\n{}", d, describe(&r)));
    }
    Ok(m)
}

fn c02(c: &mut Ctx) -> R {
    let files = history(&mut c.s, &HOpts { collide: 30, contradict: 1, ..Default::default() });
    write_history(c, &files)?;
    let m = against_model(c, &files)?;
    label_events(c, &m.ev);
    let most = files.iter().map(|f| f.trns.len()).max().unwrap_or(0);
    if most > 64 {
        c.label("more than 64 transactions in a file");
    }
    if m.trns.iter().any(|t| t.posts.len() > 9) {
        c.label("more than 9 postings in a transaction");
    }
    if files.len() > 4 {
        c.label("more than 4 files");
    }
    c.nontrivial = m.ev.soft_match + m.ev.fp_match > 0 && m.ev.fresh > 0 && m.ev.sets > 1;
    Ok(())
}

// ---------------------------------------------------------------------- C03

fn c03(c: &mut Ctx) -> R {
    // A chain of descriptions of one and the same posting (plus sometimes a
    // sibling), each file matching the previous ones.
    let n = c.s.range(2, 5);
    let two = c.s.pct(40);
    let date = Date::new(2021, 5, 4);
    let amount = PAmt { amt: amt(&mut c.s), lot: None, price: None };
    let bal = Bal::Amt(amt(&mut c.s));
    let mut lines: Vec<String> = (0..3).map(|_| text_line(&mut c.s)).collect();
    if c.s.pct(25) {
        // Lines that are almost the same.
        let l = lines[0].clone();
        let v = match c.s.below(4) {
            0 => recase(&mut c.s, &l),
            1 => format!("{} x", l),
            2 => l.replace(' ', "  "),
            _ => l.replace('e', "é"),
        };
        if crate::comment::as_value_tag(&v).is_none() {
            lines[1] = v;
        }
    }
    let mut files = vec![];
    let known_acc = c.s.pick_s(&["assets:bank", "expenses:food"]);
    let mut any_known = false;
    for f in 0..n {
        let mut t = Trn::new(date, &format!("d{} {}", f, desc(&mut c.s)));
        t.status = status(&mut c.s);
        t.cm = cm(&mut c.s, 1);
        if c.s.pct(20) {
            t.code = Some(format!("{}", f));
        }
        if c.s.pct(20) {
            t.edate = Some(Date::new(2021, 5, 6 + f as u32));
        }
        for k in 0..if two { 2 } else { 1 } {
            let mut p = Post::new(&format!("{}{}", known_acc, k));
            let by_fp = c.s.pct(60);
            p.status = status(&mut c.s);
            p.amount = Some(PAmt { amt: Amt::new(if k == 0 { amount.amt.num } else { Num::new(31337, 3) }, &amount.amt.com, amount.amt.left), lot: None, price: None });
            p.reality = [' ', '[', '('][c.s.weighted(&[70, 15, 15])];
            if c.s.pct(40) {
                p.balance = Some(bal.clone());
            }
            p.cm = cm(&mut c.s, 2);
            for l in &lines {
                if c.s.pct(30) {
                    p.cm.lines.push(l.clone());
                }
            }
            // Text lines may be duplicated within one posting.
            if c.s.pct(10) && !p.cm.lines.is_empty() {
                let l = p.cm.lines[0].clone();
                p.cm.lines.push(l);
            }
            if c.s.pct(40) {
                p.cm.tags.insert(UNK.into());
                p.account = c.s.pick_s(&["assets:unknown", "income:unknown", "expenses:unknown"]);
            } else {
                any_known = true;
            }
            if by_fp || f == 0 {
                p.cm.tags.insert(format!("fp-same{}", k));
                // By fingerprint, other values may differ.
                if f > 0 && c.s.pct(25) {
                    p.amount = if c.s.pct(30) { None } else { Some(pamt(&mut c.s)) };
                }
                if f > 0 && c.s.pct(25) {
                    p.account = account(&mut c.s);
                }
                if f > 0 && c.s.pct(25) {
                    p.balance = Some(Bal::Amt(amt(&mut c.s)));
                }
                if f > 0 && c.s.pct(10) {
                    t.date = Date::new(2021, 5, 9);
                }
            }
            p.cm.tags.insert(format!("fp-{}own-{}", if c.s.pct(50) { "long.namespace.of-" } else { "" }, f * 2 + k));
            t.posts.push(p);
        }
        arrange(&mut t, &mut c.s);
        settle(&mut t);
        let ts = vec![t];
        let text = varied(&items_of(&ts), &mut c.s);
        files.push(HFile { name: format!("in{}.journal", f), trns: ts, text });
    }
    let _ = any_known;
    write_history(c, &files)?;
    let m = against_model(c, &files)?;
    label_events(c, &m.ev);
    c.nontrivial = m.ev.both_differ > 0;
    // Directly, without the model: what must stay, stays.
    if m.unmerged.is_empty() && m.trns.len() == 1 && m.ev.fresh == files[0].trns[0].posts.len() {
        let first = &files[0].trns[0];
        let got = read(&c.read_s("out")?, "merged journal")?;
        for (a, b) in first.posts.iter().zip(&got[0].posts) {
            if a.amount != b.amount || a.reality != b.reality {
                return fail(format!("amount or reality of an existing posting changed: {:?} -> {:?}", a, b));
            }
            for t in &a.cm.tags {
                if t != UNK && !b.cm.tags.contains(t) {
                    return fail(format!("tag {} lost", t));
                }
            }
            if !a.cm.tags.contains(UNK) && b.cm.tags.contains(UNK) {
                return fail("unknown-account tag gained");
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C04

fn ambiguous_history(c: &mut Ctx) -> Vec<HFile> {
    // Usually an existing journal with equal postings, then files about them.
    let mut files = history(&mut c.s, &HOpts { collide: 85, contradict: 1, max_files: 3, source_tags: 20, max_reals: 5 });
    if c.s.pct(60) {
        // Force one: two equal postings first, a third fingerprint later.
        let d = Date::new(2020, 3, 5);
        let a = PAmt { amt: Amt::new(Num::new(c.s.range(1, 9) as i128, 0), "GBP", true), lot: None, price: None };
        let n = c.s.range(2, 4);
        let mut first = vec![];
        for i in 0..n {
            let mut t = Trn::new(d, &format!("twin {}", i));
            let mut p = Post::new("assets:bank");
            p.amount = Some(a.clone());
            p.cm = cm(&mut c.s, 1).tag(&format!("fp-twin-{}", i));
            if c.s.pct(30) {
                p.cm.tags.insert(format!("fp-aa.1.ns-{}", 9 - i));
            }
            if c.s.pct(20) {
                p.cm.tags.insert(UNK.into());
            }
            t.posts.push(p);
            if c.s.pct(50) {
                let mut p = Post::new("income:job");
                p.cm = Cm::default().tag(&format!("fp-sib-{}", i));
                t.posts.push(p);
            }
            first.push(t);
        }
        let mut late = Trn::new(d, "which one");
        late.cm = cm(&mut c.s, 2);
        late.status = status(&mut c.s);
        let k = c.s.range(1, 3);
        for i in 0..k {
            let mut p = Post::new("assets:bank");
            p.amount = Some(a.clone());
            p.status = status(&mut c.s);
            p.cm = cm(&mut c.s, 2).tag(&format!("fp-late-{}", i));
            if i > 0 && c.s.pct(50) {
                p.amount = Some(PAmt { amt: Amt::new(Num::new(5, 1), "GBP", true), lot: None, price: None });
            }
            late.posts.push(p);
        }
        let add = |c: &mut Ctx, f: &mut HFile, v: Vec<Trn>| {
            for mut t in v {
                arrange(&mut t, &mut c.s);
                settle(&mut t);
                let at = c.s.below(f.trns.len() + 1);
                f.trns.insert(at, t);
            }
            f.text = varied(&items_of(&f.trns), &mut c.s);
        };
        if files.len() < 2 {
            files.push(HFile { name: "in9.journal".into(), trns: vec![], text: String::new() });
        }
        let li = c.s.range(1, files.len() - 1);
        let mut f0 = files[0].clone();
        add(c, &mut f0, first);
        files[0] = f0;
        let mut fl = files[li].clone();
        add(c, &mut fl, vec![late]);
        files[li] = fl;
    }
    files
}

fn c04(c: &mut Ctx) -> R {
    let files = ambiguous_history(c);
    write_history(c, &files)?;
    let m = against_model(c, &files)?;
    if m.unmerged.is_empty() {
        return Ok(());
    }
    c.nontrivial = true;
    let full_text = c.read_s("out")?;
    let full = read(&full_text, "merged journal")?;
    // Had the unmerged transactions been absent...
    let mut left = m.unmerged.clone();
    let mut reduced = vec![];
    for (f, mf) in files.iter().zip(model_files(&files)) {
        let mut f = f.clone();
        f.trns.retain(|t| {
            let src = t.cm.kv.get(SRC).cloned().unwrap_or(mf.default_source.clone());
            let pos = left.iter().position(|u| {
                u.cm.kv.get(SRC) == Some(&src) && u.date == t.date && u.desc == t.desc && u.posts.iter().map(|p| p.fps()).eq(t.posts.iter().map(|p| p.fps()))
            });
            match pos {
                Some(i) => {
                    left.remove(i);
                    false
                }
                None => true,
            }
        });
        f.text = plain(&items_of(&f.trns));
        reduced.push(f);
    }
    c.note("--- without the unmerged transactions ---");
    write_history(c, &reduced)?;
    let r2 = run_merge(c, &names(&reduced), "out2", Some("un2"))?;
    if !r2.out.success() {
        return fail(format!("merging without the ambiguous transactions failed: {}", r2.out.brief()));
    }
    if r2.unmerged_text.is_some() {
        return fail(format!("without the ambiguous transactions something is still unmerged:\n{}", describe(&r2)));
    }
    if let Some(d) = diff("merged journal with the ambiguous transactions, against the one without", &r2.merged, &full) {
        return fail(format!("ambiguous transactions influenced the merged journal: {}\nwith them:\n{}\nwithout:\n{}", d, full_text, r2.text));
    }
    c.label(format!("unmerged={}", m.unmerged.len().min(4)));
    Ok(())
}

// ---------------------------------------------------------------------- C05

fn c05(c: &mut Ctx) -> R {
    let collide = if c.s.pct(30) { 60 } else { 8 };
    let files = history(&mut c.s, &HOpts { collide, contradict: 1, ..Default::default() });
    write_history(c, &files)?;
    let r = run_merge(c, &names(&files), "M", Some("un"))?;
    if !r.out.success() || r.unmerged_text.is_some() {
        return Err(Stop::Discard("refused or ambiguous"));
    }
    let r2 = run_merge(c, &["M"], "M1", Some("un"))?;
    if !r2.out.success() {
        return fail(format!("merging the merged journal alone failed: {}", r2.out.brief()));
    }
    if r2.text != r.text || r2.unmerged_text.is_some() {
        return fail(format!("merging M alone changed it; M:\n{}\nresult:\n{}", r.text, describe(&r2)));
    }
    let mut all = vec!["M"];
    all.extend(names(&files));
    let r3 = run_merge(c, &all, "M2", Some("un"))?;
    if !r3.out.success() {
        return fail(format!("merging M with its own inputs failed: {}", r3.out.brief()));
    }
    if r3.unmerged_text.is_some() {
        return fail(format!("merging M with its own inputs left something unmerged:\n{}", describe(&r3)));
    }
    if r3.text != r.text {
        return fail(format!("merging M with its own inputs changed it; M:\n{}\nresult:\n{}", r.text, r3.text));
    }
    let n_in: usize = files.iter().flat_map(|f| &f.trns).map(|t| t.posts.len()).sum();
    let n_out: usize = r.merged.iter().map(|t| t.posts.len()).sum();
    c.nontrivial = n_out < n_in && files.len() > 1;
    c.label(format!("files={}", files.len()));
    Ok(())
}

// ---------------------------------------------------------------------- C06

fn c06(c: &mut Ctx) -> R {
    let files = history(&mut c.s, &HOpts { collide: 40, contradict: 1, source_tags: 10, ..Default::default() });
    if files.len() < 2 {
        return Ok(());
    }
    write_history(c, &files)?;
    let all = names(&files);
    let r = run_merge(c, &all, "B", Some("unB"))?;
    if !r.out.success() {
        return Err(Stop::Discard("refused"));
    }
    let n_in: usize = files.iter().flat_map(|f| &f.trns).map(|t| t.posts.len()).sum();
    let n_out: usize = r.merged.iter().map(|t| t.posts.len()).sum::<usize>() + r.unmerged.iter().map(|t| t.posts.len()).sum::<usize>();
    for k in 1..files.len() {
        let r1 = run_merge(c, &all[..k], "I", Some("un1"))?;
        if !r1.out.success() {
            return fail(format!("merging only the first {} files failed: {}", k, r1.out.brief()));
        }
        let mut second = vec!["I"];
        second.extend(&all[k..]);
        let r2 = run_merge(c, &second, "I2", Some("un2"))?;
        if !r2.out.success() {
            return fail(format!("merging the rest after {} files failed: {}", k, r2.out.brief()));
        }
        if r2.text != r.text {
            return fail(format!("split after {} files gives a different journal; at once:\n{}\nin steps:\n{}", k, r.text, r2.text));
        }
        let mut un = r1.unmerged.clone();
        un.extend(r2.unmerged.clone());
        if let Some(d) = diff("unmerged transactions of the steps", &r.unmerged, &un) {
            return fail(format!("split after {} files: {}", k, d));
        }
    }
    c.nontrivial = n_out < n_in;
    if !r.unmerged.is_empty() {
        c.label("has unmerged");
    }
    c.label(format!("files={}", files.len()));
    Ok(())
}

// ---------------------------------------------------------------------- C07

fn c07(c: &mut Ctx) -> R {
    let files = history(&mut c.s, &HOpts { collide: 45, contradict: 14, ..Default::default() });
    write_history(c, &files)?;
    let with_un = c.s.pct(60);
    let verdict = merge_model::merge(&model_files(&files), with_un);
    let before = c.snapshot();
    let r = run_merge(c, &names(&files), "out", if with_un { Some("un") } else { None })?;
    match verdict {
        Ok(m) => {
            c.label("accepted");
            c.nontrivial = m.ev.soft_match + m.ev.fp_match > 0;
            if !r.out.success() {
                return fail(format!("merge refused input that is neither unidentified nor contradictory: {}", r.out.brief()));
            }
            if with_un && m.unmerged.is_empty() != r.unmerged_text.is_none() {
                return fail(format!("unmerged output present: {}, expected: {}", r.unmerged_text.is_some(), !m.unmerged.is_empty()));
            }
        }
        Err(why) => {
            c.label(format!("{:?}", why));
            c.nontrivial = true;
            if r.out.success() {
                return fail(format!("merge accepted input it has to refuse ({:?})\n{}", why, describe(&r)));
            }
            if !r.out.clean_error() || r.out.stderr.trim().is_empty() {
                return fail(format!("refusal ({:?}) is not an ordinary error: {}", why, r.out.brief()));
            }
            if c.snapshot() != before {
                return fail(format!("refused ({:?}) but files were written", why));
            }
            if why == Refuse::Unmerged {
                // With an unmerged file it must succeed.
                let r = run_merge(c, &names(&files), "out", Some("un"))?;
                if !r.out.success() {
                    return fail(format!("merge failed though an unmerged file was given: {}", r.out.brief()));
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------- C08

fn c08(c: &mut Ctx) -> R {
    let files = history(&mut c.s, &HOpts { collide: 25, contradict: 1, max_reals: 10, ..Default::default() });
    write_history(c, &files)?;
    let r = run_merge(c, &names(&files), "out", Some("un"))?;
    if !r.out.success() {
        return Err(Stop::Discard("refused"));
    }
    // Order in which transactions and postings were first seen, by fingerprint.
    let mut seen_trn: BTreeMap<String, usize> = BTreeMap::new();
    let mut seen_post: BTreeMap<String, usize> = BTreeMap::new();
    let key = |t: &Trn| (t.cm.kv.get(SRC).cloned(), t.date, t.desc.clone(), t.posts.iter().map(|p| p.fps()).collect::<Vec<_>>());
    let mut un: Vec<_> = r.unmerged.iter().map(key).collect();
    let un_keys = un.clone();
    let mut in_un_order = vec![];
    let (mut nt, mut np) = (0, 0);
    for f in merge_model::File::all(&files) {
        for (_, set) in merge_model::sets(&f) {
            for t in &set {
                if let Some(i) = un.iter().position(|u| *u == key(t)) {
                    in_un_order.push(un.remove(i));
                    continue;
                }
                for p in &t.posts {
                    for fp in p.fps() {
                        seen_trn.entry(fp.clone()).or_insert(nt);
                        seen_post.entry(fp).or_insert(np);
                    }
                    np += 1;
                }
                nt += 1;
            }
        }
    }
    if in_un_order != un_keys {
        return fail(format!("unmerged transactions are not in input order\n{}", describe(&r)));
    }
    let first = |m: &BTreeMap<String, usize>, p: &Post| p.fps().iter().filter_map(|f| m.get(f)).min().copied().unwrap_or(usize::MAX);
    let mut same_date = false;
    for w in r.merged.windows(2) {
        if w[0].date > w[1].date {
            return fail(format!("transactions are not sorted by date: {} before {}\n{}", w[0].date.iso(), w[1].date.iso(), describe(&r)));
        }
        if w[0].date == w[1].date {
            same_date = true;
            let e = |t: &Trn| t.posts.iter().map(|p| first(&seen_trn, p)).min().unwrap_or(usize::MAX);
            if e(&w[0]) > e(&w[1]) {
                return fail(format!("equal-dated transactions {:?} and {:?} are not in the order in which they were first merged\n{}", w[0].desc, w[1].desc, describe(&r)));
            }
        }
    }
    for t in &r.merged {
        for w in t.posts.windows(2) {
            if first(&seen_post, &w[0]) > first(&seen_post, &w[1]) {
                return fail(format!("postings {} and {} of {:?} are not in the order in which they were added\n{}", w[0].account, w[1].account, t.desc, describe(&r)));
            }
        }
    }
    c.nontrivial = same_date;
    c.label(format!("trns={}", r.merged.len().min(12)));
    Ok(())
}

// ---------------------------------------------------------------------- C09

fn c09(c: &mut Ctx) -> R {
    let files = history(&mut c.s, &HOpts { collide: 40, contradict: 2, source_tags: 80, max_files: 3, ..Default::default() });
    write_history(c, &files)?;
    let stdin_case = c.s.pct(15);
    let mut mf = model_files(&files);
    let r = if stdin_case {
        mf[0].default_source = "<stdio>".into();
        let mut n = names(&files);
        n[0] = "-";
        let mut args = vec!["merge", "-o", "out", "-u", "un"];
        args.extend(n);
        let o = c.run_in(&args, files[0].text.as_bytes())?;
        let mut r = Res { out: o, text: String::new(), merged: vec![], unmerged_text: None, unmerged: vec![] };
        if r.out.success() {
            r.text = c.read_s("out")?;
            r.merged = read(&r.text, "merged journal")?;
            if c.exists("un") {
                let t = c.read_s("un")?;
                r.unmerged = read(&t, "unmerged journal")?;
                r.unmerged_text = Some(t);
            }
        }
        r
    } else {
        run_merge(c, &names(&files), "out", Some("un"))?
    };
    for t in &r.merged {
        if t.cm.kv.contains_key(SRC) {
            return fail(format!("merged transaction {} {:?} has a source-file tag\n{}", t.date.iso(), t.desc, describe(&r)));
        }
    }
    // Hand-split: one file per source set.
    let mut split: Vec<String> = vec![];
    let mut many = false;
    for (i, f) in mf.iter().enumerate() {
        let sets = merge_model::sets(f);
        many |= sets.len() > 1;
        for (k, (_, set)) in sets.iter().enumerate() {
            let mut set = set.clone();
            for t in &mut set {
                // Write the source explicitly, as the file name differs now.
                arrange(t, &mut c.s);
            }
            let name = format!("split{}-{}.journal", i, k);
            c.write(&name, plain(&items_of(&set)))?;
            split.push(name);
        }
    }
    let sn: Vec<&str> = split.iter().map(|s| s.as_str()).collect();
    let r2 = run_merge(c, &sn, "out2", Some("un2"))?;
    if r.out.success() != r2.out.success() {
        return fail(format!("merging the file: {}\nmerging its source sets one by one: {}", r.out.brief(), r2.out.brief()));
    }
    c.nontrivial = many;
    if !r.out.success() {
        c.label("refused");
        return Ok(());
    }
    let d = diff("merged journal", &r2.merged, &r.merged);
    if d.is_some() || r.unmerged_text.is_some() != r2.unmerged_text.is_some() {
        return fail(format!("{}\nmerging the file:\n{}\nmerging its source sets one by one:\n{}", d.unwrap_or_default(), describe(&r), describe(&r2)));
    }
    if let Some(d) = diff("unmerged transactions", &r2.unmerged, &r.unmerged) {
        return fail(d);
    }
    // Source tags of the unmerged.
    let mut known: BTreeSet<String> = mf.iter().map(|f| f.default_source.clone()).collect();
    known.extend(files.iter().flat_map(|f| &f.trns).filter_map(|t| t.cm.kv.get(SRC).cloned()));
    for t in &r.unmerged {
        match t.cm.kv.get(SRC) {
            None => return fail(format!("unmerged transaction {:?} has no source-file tag", t.desc)),
            Some(v) if !known.contains(v) => return fail(format!("unmerged transaction {:?} names unknown source {:?}", t.desc, v)),
            Some(v) => {
                // The original one, if it had one.
                let f: Vec<&Trn> = files.iter().flat_map(|f| &f.trns).filter(|x| x.date == t.date && x.desc == t.desc && x.posts.iter().map(|p| p.fps()).eq(t.posts.iter().map(|p| p.fps()))).collect();
                if !f.iter().any(|x| x.cm.kv.get(SRC).map(|o| o == v).unwrap_or(true)) {
                    return fail(format!("unmerged transaction {:?} has source {:?} instead of its original one", t.desc, v));
                }
            }
        }
    }
    if !r.unmerged.is_empty() {
        c.label("has unmerged");
    }
    Ok(())
}

// ---------------------------------------------------------------------- C33

fn c33(c: &mut Ctx) -> R {
    let files = ambiguous_history(c);
    write_history(c, &files)?;
    let r = run_merge(c, &names(&files), "M", Some("un"))?;
    if !r.out.success() {
        return Err(Stop::Discard("refused"));
    }
    if r.unmerged.is_empty() {
        return Ok(());
    }
    // As it is, merging the unmerged file fails.
    let u = run_merge(c, &["M", "un"], "M1", Some("un1"))?;
    if u.out.success() {
        return fail(format!("merge accepted postings with candidate tags\n{}", describe(&u)));
    }
    // Edit: choose one candidate per posting.
    let mut edited = r.unmerged.clone();
    let mut chosen: Vec<(usize, Vec<String>, String)> = vec![];
    for (ti, t) in edited.iter_mut().enumerate() {
        for p in &mut t.posts {
            let cands: Vec<String> = p.cm.tags.iter().filter(|t| t.starts_with("candidate-")).cloned().collect();
            if cands.is_empty() {
                continue;
            }
            let ch = c.s.pick(&cands).trim_start_matches("candidate-").to_string();
            if !ch.starts_with("fp-") || !r.merged.iter().flat_map(|t| &t.posts).any(|p| p.cm.tags.contains(&ch)) {
                return fail(format!("candidate tag {:?} names no fingerprint of the merged journal\n{}", ch, describe(&r)));
            }
            let own = p.fps();
            p.cm.tags.retain(|t| !t.starts_with("candidate-"));
            p.cm.tags.insert(ch.clone());
            chosen.push((ti, own, ch));
        }
        arrange(t, &mut c.s);
        settle(t);
    }
    if c.s.pct(30) {
        // Half done: the fingerprint is there but so is a candidate tag.
        let mut half = edited.clone();
        let (ti, own, ch) = chosen[c.s.below(chosen.len())].clone();
        let all: Vec<String> = r.unmerged.iter().flat_map(|t| &t.posts).flat_map(|p| &p.cm.tags).filter(|t| t.starts_with("candidate-")).cloned().collect();
        let tag = if c.s.pct(60) { format!("candidate-{}", ch) } else { c.s.pick(&all).clone() };
        for p in &mut half[ti].posts {
            if own.iter().all(|o| p.cm.tags.contains(o)) {
                p.cm.tags.insert(tag.clone());
            }
        }
        arrange(&mut half[ti], &mut c.s);
        settle(&mut half[ti]);
        c.write("half", plain(&items_of(&half)))?;
        let h = run_merge(c, &["M", "half"], "Mh", Some("unh"))?;
        if h.out.success() {
            return fail(format!("merge accepted a posting that still has the candidate tag {}\n{}", tag, describe(&h)));
        }
        c.label("half resolved");
    }
    // Sometimes only some of the transactions are resolved at a time.
    if c.s.pct(40) {
        let i = c.s.below(edited.len());
        let keep = edited[i].clone();
        chosen.retain(|x| x.0 == i);
        edited = vec![keep];
    }
    c.write("edited", plain(&items_of(&edited)))?;
    let mfiles = vec![
        merge_model::File { default_source: "\"M\"".into(), trns: r.merged.clone() },
        merge_model::File { default_source: "\"edited\"".into(), trns: edited.clone() },
    ];
    let m = match merge_model::merge(&mfiles, true) {
        Ok(m) => m,
        Err(_) => return Err(Stop::Discard("choices contradict each other")),
    };
    let r2 = run_merge(c, &["M", "edited"], "M2", Some("un2"))?;
    if !r2.out.success() {
        return fail(format!("merging the resolved transactions failed: {}", r2.out.brief()));
    }
    if let Some(d) = diff("journal after resolving", &m.trns, &r2.merged) {
        return fail(format!("{}\n{}", d, describe(&r2)));
    }
    if let Some(d) = diff("unmerged after resolving", &m.unmerged, &r2.unmerged) {
        return fail(format!("{}\n{}", d, describe(&r2)));
    }
    if !m.unmerged.is_empty() {
        c.label("sibling became ambiguous");
        return Ok(());
    }
    for (_, own, ch) in &chosen {
        let p = r2.merged.iter().flat_map(|t| &t.posts).find(|p| p.cm.tags.contains(ch));
        match p {
            Some(p) if own.iter().all(|o| p.cm.tags.contains(o)) => {}
            _ => return fail(format!("posting {:?} was not merged into the chosen posting {}\n{}", own, ch, describe(&r2))),
        }
    }
    if r2.merged.len() != r.merged.len() {
        return fail("resolving changed the number of transactions");
    }
    c.nontrivial = true;
    c.label(format!("resolved={}", chosen.len().min(4)));
    Ok(())
}
