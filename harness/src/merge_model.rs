//! Reference model of `merge`, written from the README's "Matching algorithm".

use crate::journal::*;
use std::collections::{BTreeMap, BTreeSet};

pub const UNK: &str = "unknown-account";
pub const SRC: &str = "source-file";

pub struct File {
    /// Name of the default source set: `"<path>"` or `<stdio>`.
    pub default_source: String,
    pub trns: Vec<Trn>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Refuse {
    NoFingerprint,
    Candidate,
    DuplicateInSet,
    FpMatchesMany,
    TwoIntoOne,
    ManyTransactions,
    Unmerged,
}

#[derive(Default, Clone)]
pub struct Events {
    pub fp_match: usize,
    pub soft_match: usize,
    pub fresh: usize,
    pub joined: usize,
    pub ambiguous: usize,
    pub resolved_account: usize,
    pub balance_filled: usize,
    pub status_changed: usize,
    pub text_dup: usize,
    pub kv_overwritten: usize,
    pub both_differ: usize,
    pub sets: usize,
    /// (dest trn order id) of merges where the soft match crossed dates by fp.
    pub cross_date: usize,
}

pub struct Merged {
    pub trns: Vec<Trn>,
    pub unmerged: Vec<Trn>,
    pub ev: Events,
}

struct MPost {
    post: Post,
    trn: usize,
}
struct MTrn {
    head: Trn,
    posts: Vec<usize>,
}

enum Act {
    New,
    Into(usize),
}

pub fn soft(a: &Post, b: &Post) -> bool {
    let unk = a.cm.tags.contains(UNK) || b.cm.tags.contains(UNK);
    (unk || a.account == b.account)
        && a.amount == b.amount
        && match (&a.balance, &b.balance) {
            (Some(x), Some(y)) => x == y,
            _ => true,
        }
}

/// Field-wise merge of a source posting into an existing one.
pub fn merge_post(d: &mut Post, s: &Post, ev: &mut Events) {
    match (d.status, s.status) {
        (None, Some(_)) | (Some('!'), Some('*')) => {
            d.status = s.status;
            ev.status_changed += 1;
        }
        _ => {}
    }
    if d.balance.is_none() && s.balance.is_some() {
        d.balance = s.balance.clone();
        ev.balance_filled += 1;
    }
    if d.cm.tags.contains(UNK) && !s.cm.tags.contains(UNK) {
        d.cm.tags.remove(UNK);
        d.account = s.account.clone();
        ev.resolved_account += 1;
    }
    for t in &s.cm.tags {
        if t != UNK {
            d.cm.tags.insert(t.clone());
        }
    }
    for l in &s.cm.lines {
        if d.cm.lines.contains(l) {
            ev.text_dup += 1;
        } else {
            d.cm.lines.push(l.clone());
        }
    }
    for (k, v) in &s.cm.kv {
        if let Some(old) = d.cm.kv.insert(k.clone(), v.clone()) {
            if &old != v {
                ev.kv_overwritten += 1;
            }
        }
    }
}

/// Source sets of a file in merge order.
pub fn sets(f: &File) -> Vec<(String, Vec<Trn>)> {
    let mut m: BTreeMap<String, Vec<Trn>> = BTreeMap::new();
    for t in &f.trns {
        let mut t = t.clone();
        let name = t.cm.kv.entry(SRC.to_string()).or_insert(f.default_source.clone()).clone();
        m.entry(name).or_default().push(t);
    }
    m.into_iter().collect()
}

pub fn merge(files: &[File], unmerged_allowed: bool) -> Result<Merged, Refuse> {
    let mut posts: Vec<MPost> = vec![];
    let mut trns: Vec<MTrn> = vec![];
    let mut by_fp: BTreeMap<String, usize> = BTreeMap::new();
    let mut unmerged: Vec<Trn> = vec![];
    let mut ev = Events::default();

    for f in files {
        for (_, set) in sets(f) {
            ev.sets += 1;
            // Plan against the state before this set.
            let mut seen: BTreeSet<String> = BTreeSet::new();
            let mut plans: Vec<(Trn, Option<(Vec<Act>, Option<usize>)>)> = vec![];
            for mut t in set {
                let date = t.date;
                let mut acts = vec![];
                let mut ambiguous = false;
                for p in &mut t.posts {
                    if p.cm.tags.iter().any(|t| t.starts_with("candidate-")) {
                        return Err(Refuse::Candidate);
                    }
                    let fps = p.fps();
                    if fps.is_empty() {
                        return Err(Refuse::NoFingerprint);
                    }
                    for fp in &fps {
                        if !seen.insert(fp.clone()) {
                            return Err(Refuse::DuplicateInSet);
                        }
                    }
                    let hits: BTreeSet<usize> = fps.iter().filter_map(|f| by_fp.get(f).copied()).collect();
                    match hits.len() {
                        0 => {}
                        1 => {
                            ev.fp_match += 1;
                            let h = *hits.iter().next().unwrap();
                            if trns[posts[h].trn].head.date != date {
                                ev.cross_date += 1;
                            }
                            acts.push(Act::Into(h));
                            continue;
                        }
                        _ => return Err(Refuse::FpMatchesMany),
                    }
                    let soft_hits: Vec<usize> = (0..posts.len()).filter(|i| trns[posts[*i].trn].head.date == date && soft(&posts[*i].post, p)).collect();
                    match soft_hits.len() {
                        0 => {
                            ev.fresh += 1;
                            acts.push(Act::New);
                        }
                        1 => {
                            ev.soft_match += 1;
                            acts.push(Act::Into(soft_hits[0]));
                        }
                        _ => {
                            ambiguous = true;
                            ev.ambiguous += 1;
                            for h in soft_hits {
                                let fp = posts[h].post.fps().into_iter().min().unwrap();
                                p.cm.tags.insert(format!("candidate-{}", fp));
                            }
                        }
                    }
                }
                if ambiguous {
                    plans.push((t, None));
                    continue;
                }
                let parents: BTreeSet<usize> = acts.iter().filter_map(|a| if let Act::Into(d) = a { Some(posts[*d].trn) } else { None }).collect();
                if parents.len() > 1 {
                    return Err(Refuse::ManyTransactions);
                }
                plans.push((t, Some((acts, parents.into_iter().next()))));
            }
            // Two postings of the set into one?
            let mut used: BTreeSet<usize> = BTreeSet::new();
            for (_, p) in &plans {
                if let Some((acts, _)) = p {
                    for a in acts {
                        if let Act::Into(d) = a {
                            if !used.insert(*d) {
                                return Err(Refuse::TwoIntoOne);
                            }
                        }
                    }
                }
            }
            // Apply.
            for (t, p) in plans {
                let Some((acts, dest)) = p else {
                    unmerged.push(t);
                    continue;
                };
                let mut t = t;
                let ps = std::mem::take(&mut t.posts);
                let dest = match dest {
                    Some(d) => {
                        if acts.iter().any(|a| matches!(a, Act::New)) {
                            ev.joined += 1;
                        }
                        d
                    }
                    None => {
                        trns.push(MTrn { head: t, posts: vec![] });
                        trns.len() - 1
                    }
                };
                for (sp, a) in ps.into_iter().zip(acts) {
                    let idx = match a {
                        Act::New => {
                            posts.push(MPost { post: sp.clone(), trn: dest });
                            trns[dest].posts.push(posts.len() - 1);
                            posts.len() - 1
                        }
                        Act::Into(d) => {
                            let before = ev.clone();
                            merge_post(&mut posts[d].post, &sp, &mut ev);
                            if ev.status_changed + ev.balance_filled + ev.resolved_account + ev.kv_overwritten > before.status_changed + before.balance_filled + before.resolved_account + before.kv_overwritten {
                                ev.both_differ += 1;
                            }
                            d
                        }
                    };
                    for fp in sp.fps() {
                        by_fp.insert(fp, idx);
                    }
                }
            }
        }
    }
    if !unmerged.is_empty() && !unmerged_allowed {
        return Err(Refuse::Unmerged);
    }
    let mut out: Vec<Trn> = trns
        .into_iter()
        .map(|mt| {
            let mut t = mt.head;
            t.cm.kv.remove(SRC);
            t.posts = mt.posts.iter().map(|i| posts[*i].post.clone()).collect();
            t
        })
        .collect();
    out.sort_by_key(|t| t.date);
    Ok(Merged { trns: out, unmerged, ev })
}

impl File {
    pub fn all(files: &[crate::gen::HFile]) -> Vec<File> {
        crate::gen::model_files(files)
    }
}
