//! The property-testing engine: choice sequences, case contexts, search,
//! shrinking, evidence and replay files.

use crate::json::{self, J};
use crate::sut::{Env, Out};
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

// ---------------------------------------------------------------- choices

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn hash64(parts: &[&[u8]]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in *p {
            h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
        }
        h = (h ^ 0xff).wrapping_mul(0x100000001b3);
    }
    let mut x = h;
    splitmix(&mut x)
}

/// Source of choices. Every generated value is a function of the sequence of
/// numbers drawn here; 0 is always the simplest choice.
pub struct Src {
    prefix: Vec<u64>,
    pos: usize,
    rng: Option<u64>,
    pub rec: Vec<u64>,
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { prefix: vec![], pos: 0, rng: Some(seed), rec: vec![] }
    }
    pub fn replay(choices: &[u64]) -> Src {
        Src { prefix: choices.to_vec(), pos: 0, rng: None, rec: vec![] }
    }
    /// A number in 0..n (n >= 1).
    pub fn below(&mut self, n: usize) -> usize {
        assert!(n >= 1);
        let v = match &mut self.rng {
            Some(st) => splitmix(st) % n as u64,
            None => {
                let v = self.prefix.get(self.pos).copied().unwrap_or(0);
                self.pos += 1;
                v.min(n as u64 - 1)
            }
        };
        self.rec.push(v);
        v as usize
    }
    /// A number in a..=b, a being the simplest.
    pub fn range(&mut self, a: usize, b: usize) -> usize {
        a + self.below(b - a + 1)
    }
    /// True in about p percent of the cases; false is the simplest.
    pub fn pct(&mut self, p: usize) -> bool {
        self.below(100) >= 100 - p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn pick_s(&mut self, v: &[&str]) -> String {
        v[self.below(v.len())].to_string()
    }
    /// Index chosen with the given weights; earlier is simpler.
    pub fn weighted(&mut self, w: &[usize]) -> usize {
        let total: usize = w.iter().sum();
        let mut x = self.below(total);
        for (i, wi) in w.iter().enumerate() {
            if x < *wi {
                return i;
            }
            x -= wi;
        }
        w.len() - 1
    }
    /// Small number: geometric-ish in 0..=max.
    pub fn small(&mut self, max: usize) -> usize {
        let m = self.below(max + 1);
        self.below(m + 1)
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            let j = i - self.below(i + 1);
            v.swap(i, j);
        }
    }
}

// ---------------------------------------------------------------- cases

#[derive(Debug)]
pub enum Stop {
    /// The property is violated.
    Fail(String),
    /// The check itself could not run (timeout, I/O): never a violation.
    Error(String),
    /// The generated case is outside the property's domain.
    Discard(&'static str),
}
pub type R<T = ()> = Result<T, Stop>;

pub fn fail<T>(msg: impl Into<String>) -> R<T> {
    Err(Stop::Fail(msg.into()))
}

impl From<std::io::Error> for Stop {
    fn from(e: std::io::Error) -> Stop {
        Stop::Error(format!("harness I/O: {}", e))
    }
}

pub type Snapshot = BTreeMap<String, Vec<u8>>;

pub struct Ctx<'a> {
    pub s: Src,
    pub env: &'a Env,
    /// Working directory of the case; holds only the case's files.
    pub dir: PathBuf,
    pub labels: Vec<String>,
    pub nontrivial: bool,
    pub known: Vec<String>,
    pub log: String,
    pub runs: usize,
    input_hash: u64,
    nruns_total: &'a AtomicU64,
}

impl<'a> Ctx<'a> {
    pub fn label(&mut self, l: impl Into<String>) {
        self.labels.push(l.into());
    }
    pub fn path(&self, name: &str) -> PathBuf {
        self.dir.join(name)
    }
    pub fn write(&mut self, name: &str, content: impl AsRef<[u8]>) -> R {
        let c = content.as_ref();
        let p = self.dir.join(name);
        if let Some(d) = p.parent() {
            std::fs::create_dir_all(d)?;
        }
        std::fs::write(&p, c)?;
        self.input_hash = hash64(&[&self.input_hash.to_le_bytes(), name.as_bytes(), c]);
        self.note(&format!("--- file {} ---\n{}", name, show(c)));
        Ok(())
    }
    /// Makes data count towards the identity of the case.
    pub fn mix(&mut self, data: &[u8]) {
        self.input_hash = hash64(&[&self.input_hash.to_le_bytes(), data]);
    }
    pub fn note(&mut self, t: &str) {
        if self.log.len() < 200_000 {
            self.log.push_str(t);
            if !t.ends_with('\n') {
                self.log.push('\n');
            }
        }
    }
    pub fn read(&self, name: &str) -> R<Vec<u8>> {
        std::fs::read(self.dir.join(name)).map_err(|e| Stop::Fail(format!("expected output file {} cannot be read: {}", name, e)))
    }
    pub fn read_s(&self, name: &str) -> R<String> {
        String::from_utf8(self.read(name)?).map_err(|_| Stop::Fail(format!("output file {} is not UTF-8", name)))
    }
    pub fn exists(&self, name: &str) -> bool {
        std::fs::symlink_metadata(self.dir.join(name)).is_ok()
    }
    pub fn remove(&self, name: &str) {
        let _ = std::fs::remove_file(self.dir.join(name));
    }
    pub fn run(&mut self, args: &[&str]) -> R<Out> {
        self.run_full(args, b"", &[], None)
    }
    pub fn run_in(&mut self, args: &[&str], stdin: &[u8]) -> R<Out> {
        self.run_full(args, stdin, &[], None)
    }
    pub fn run_full(&mut self, args: &[&str], stdin: &[u8], envs: &[(&str, &str)], stdout_to: Option<&Path>) -> R<Out> {
        self.runs += 1;
        self.nruns_total.fetch_add(1, Ordering::Relaxed);
        let base = self.dir.parent().unwrap().display().to_string();
        let line = args.join("\u{1f}").replace(&base, "");
        self.mix(line.as_bytes());
        self.mix(stdin);
        self.note(&format!("$ accountmerge {}", args.join(" ").replace(&base, "SCRATCH")));
        if !stdin.is_empty() {
            self.note(&format!("--- stdin ---\n{}", show(stdin)));
        }
        let out = self.env.run(&self.dir, args, stdin, envs, stdout_to).map_err(|e| Stop::Error(format!("running {:?}: {}", args, e)))?;
        self.note(&format!("=> {}", out.brief()));
        Ok(out)
    }
    /// Runs and requires success.
    pub fn ok(&mut self, args: &[&str]) -> R<Out> {
        let o = self.run(args)?;
        if !o.success() {
            return fail(format!("command {:?} failed unexpectedly: {}", args, o.brief()));
        }
        Ok(o)
    }
    pub fn snapshot(&self) -> Snapshot {
        let mut m = BTreeMap::new();
        snap(&self.dir, "", &mut m);
        m
    }
}

fn snap(d: &Path, rel: &str, m: &mut Snapshot) {
    if let Ok(rd) = std::fs::read_dir(d) {
        for e in rd.flatten() {
            let name = if rel.is_empty() { e.file_name().to_string_lossy().into_owned() } else { format!("{}/{}", rel, e.file_name().to_string_lossy()) };
            match e.file_type() {
                Ok(t) if t.is_dir() => {
                    m.insert(format!("{}/", name), vec![]);
                    snap(&e.path(), &name, m);
                }
                Ok(t) if t.is_file() => {
                    m.insert(name, std::fs::read(e.path()).unwrap_or_default());
                }
                _ => {
                    m.insert(name, b"<special>".to_vec());
                }
            }
        }
    }
}

pub fn show(b: &[u8]) -> String {
    match std::str::from_utf8(b) {
        Ok(s) if s.len() <= 20_000 => s.to_string(),
        Ok(s) => format!("{}... ({} bytes)", s.chars().take(2000).collect::<String>(), s.len()),
        Err(_) => format!("(binary) {}", b.iter().take(4000).map(|c| std::ascii::escape_default(*c).to_string()).collect::<String>()),
    }
}

pub struct Prop {
    pub id: &'static str,
    pub rule: &'static str,
    pub quick: usize,
    pub thorough: usize,
    /// Minimum share (percent) of non-trivial cases.
    pub min_nontrivial: usize,
    pub assumptions: &'static [&'static str],
    pub f: fn(&mut Ctx) -> R,
}

// ---------------------------------------------------------------- running

struct One {
    stop: Option<Stop>,
    rec: Vec<u64>,
    labels: Vec<String>,
    nontrivial: bool,
    known: Vec<String>,
    hash: u64,
    log: String,
}

static SERIAL: AtomicUsize = AtomicUsize::new(0);

fn run_one(p: &Prop, env: &Env, src: Src, nruns: &AtomicU64) -> One {
    let dir = env.scratch.join(format!("c{}", SERIAL.fetch_add(1, Ordering::Relaxed)));
    let work = dir.join("w");
    let mut ctx = Ctx {
        s: src,
        env,
        dir: work.clone(),
        labels: vec![],
        nontrivial: false,
        known: vec![],
        log: String::new(),
        runs: 0,
        input_hash: 0,
        nruns_total: nruns,
    };
    let stop = match std::fs::create_dir_all(&work) {
        Err(e) => Some(Stop::Error(format!("scratch: {}", e))),
        Ok(()) => match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.f)(&mut ctx))) {
            Ok(Ok(())) => None,
            Ok(Err(s)) => Some(s),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                Some(Stop::Error(format!("harness panic: {}", m)))
            }
        },
    };
    let _ = std::fs::remove_dir_all(&dir);
    One { stop, rec: ctx.s.rec, labels: ctx.labels, nontrivial: ctx.nontrivial, known: ctx.known, hash: ctx.input_hash, log: ctx.log }
}

/// Runs a case, and again should the program not end in time. That it did not
/// twice is a failure: no case is anywhere near that large.
fn run_case(p: &Prop, env: &Env, src: &dyn Fn() -> Src, nruns: &AtomicU64) -> One {
    let hung = |o: &One| matches!(&o.stop, Some(Stop::Error(e)) if e.contains("timed out"));
    let mut one = run_one(p, env, src(), nruns);
    if hung(&one) {
        one = run_one(p, env, src(), nruns);
        if let (true, Some(Stop::Error(e))) = (hung(&one), &one.stop) {
            one.stop = Some(Stop::Fail(format!("the command does not end: {}", e)));
        }
    }
    one
}

#[derive(Default)]
struct Stats {
    evals: u64,
    discards: BTreeMap<&'static str, u64>,
    labels: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    nontrivial: u64,
    distinct: HashSet<u64>,
    samples: BTreeMap<usize, String>,
    errors: Vec<String>,
    fail: Option<(usize, Vec<u64>, String)>,
}

pub struct Opts {
    pub tier: String,
    pub seed: i64,
    pub cases: Option<usize>,
    pub verif: PathBuf,
}

/// Runs a check; returns the exit code.
pub fn check(p: &Prop, env: &Env, o: &Opts, findings: &[(String, String)]) -> i32 {
    let t0 = Instant::now();
    let n = o.cases.unwrap_or(if o.tier == "thorough" { p.thorough } else { p.quick });
    let next = AtomicUsize::new(0);
    let best = AtomicUsize::new(usize::MAX);
    let abort = AtomicBool::new(false);
    let nruns = AtomicU64::new(0);
    let st = Mutex::new(Stats::default());
    std::thread::scope(|sc| {
        for _ in 0..8 {
            let b = std::thread::Builder::new().stack_size(256 << 20);
            let _ = b.spawn_scoped(sc, || loop {
                // On a slow machine the quick check ends early.
                let late = o.tier != "thorough" && o.cases.is_none() && t0.elapsed().as_secs() > 480;
                if late {
                    break;
                }
                let i = next.fetch_add(1, Ordering::SeqCst);
                if i >= n || i > best.load(Ordering::SeqCst) || abort.load(Ordering::SeqCst) {
                    break;
                }
                let seed = hash64(&[&o.seed.to_le_bytes(), p.id.as_bytes(), &(i as u64).to_le_bytes()]);
                let one = run_case(p, env, &|| Src::random(seed), &nruns);
                let mut s = st.lock().unwrap();
                match one.stop {
                    Some(Stop::Discard(w)) => {
                        *s.discards.entry(w).or_default() += 1;
                        continue;
                    }
                    Some(Stop::Error(e)) => {
                        s.errors.push(format!("case {}: {}\n{}", i, e, tail(&one.log, 3000)));
                        abort.store(true, Ordering::SeqCst);
                        continue;
                    }
                    Some(Stop::Fail(m)) => {
                        s.evals += 1;
                        if i < best.fetch_min(i, Ordering::SeqCst) {
                            s.fail = Some((i, one.rec, m));
                        }
                    }
                    None => {
                        s.evals += 1;
                        for l in one.labels.iter().collect::<HashSet<_>>() {
                            *s.labels.entry(l.clone()).or_default() += 1;
                        }
                        for k in one.known {
                            *s.known.entry(k).or_default() += 1;
                        }
                        if one.nontrivial {
                            s.nontrivial += 1;
                            s.distinct.insert(one.hash);
                            if i < 40 || s.samples.is_empty() {
                                s.samples.insert(i, one.log);
                            }
                        }
                    }
                }
            });
        }
    });
    let mut s = st.into_inner().unwrap();
    let done = n.min(next.load(Ordering::SeqCst));
    let mut code = 0;
    let mut violations = 0;
    if let Some((i, rec, msg)) = s.fail.take() {
        // A violation found takes precedence over errors elsewhere.
        let (rec, msg, log, steps) = shrink(p, env, rec, msg, &nruns);
        let rdir = o.verif.join("replays");
        let _ = std::fs::create_dir_all(&rdir);
        let path = rdir.join(format!("{}-seed{}-case{}.json", p.id, o.seed, i));
        let j = J::obj(vec![
            ("property", J::s(p.id)),
            ("replay_cmd", J::s(format!("bash check.sh replay {}", path.display()))),
            ("message", J::s(msg.clone())),
            ("transcript", J::A(log.lines().map(J::s).collect())),
            ("seed", J::I(o.seed)),
            ("case", J::I(i as i64)),
            ("shrink_steps", J::I(steps as i64)),
            ("choices", J::A(rec.iter().map(|x| J::I(*x as i64)).collect())),
        ]);
        let _ = std::fs::write(&path, j.dump());
        println!("{}", tail(&log, 6000));
        println!("{}: {}", p.id, tail(&msg, 6000));
        println!("VIOLATION property={} replay={}", p.id, path.display());
        code = 1;
        violations = 1;
    } else if !s.errors.is_empty() {
        for e in &s.errors {
            eprintln!("{}: check error: {}", p.id, e);
        }
        code = 2;
    } else if (s.nontrivial as usize) * 100 < p.min_nontrivial * done.max(1) {
        eprintln!("{}: only {} of {} cases were non-trivial (need {}%): the generator no longer reaches the property", p.id, s.nontrivial, done, p.min_nontrivial);
        code = 2;
    }
    for (id, text) in findings {
        if id == p.id && s.known.get(text).copied().unwrap_or(0) > 0 {
            println!("KNOWN-FINDING: property={} {}", id, text);
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    let samples: Vec<J> = s.samples.values().take(3).map(|l| J::s(head(l, 2500))).collect();
    let cov = J::obj(vec![
        ("evaluations", J::I(s.evals as i64)),
        ("distinct_nontrivial", J::I(s.distinct.len() as i64)),
        ("rule", J::s(p.rule)),
        ("samples", J::A(samples)),
        ("program_runs", J::I(nruns.load(Ordering::Relaxed) as i64)),
        ("discarded", J::O(s.discards.iter().map(|(k, v)| (k.to_string(), J::I(*v as i64))).collect())),
        ("distribution", J::O(s.labels.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())),
        ("known_findings_met", J::O(s.known.iter().map(|(k, v)| (k.clone(), J::I(*v as i64))).collect())),
    ]);
    let ev = J::obj(vec![
        ("property", J::s(p.id)),
        ("tier", J::s(o.tier.clone())),
        ("seed", J::I(o.seed)),
        ("level", J::s("exploration")),
        ("coverage", cov),
        ("assumptions", J::A(p.assumptions.iter().map(|a| J::s(*a)).collect())),
        ("wall_s", J::F(wall)),
        ("violations", J::I(violations)),
    ]);
    let edir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&edir);
    if let Err(e) = std::fs::write(edir.join(format!("{}.json", p.id)), ev.dump()) {
        eprintln!("cannot write evidence: {}", e);
        if code == 0 {
            code = 2;
        }
    }
    println!(
        "{}: {} cases, {} non-trivial distinct, {} discarded, {} program runs, {:.1} s, exit {}",
        p.id,
        s.evals,
        s.distinct.len(),
        s.discards.values().sum::<u64>(),
        nruns.load(Ordering::Relaxed),
        wall,
        code
    );
    code
}

fn tail(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = s.len() - n;
    while !s.is_char_boundary(i) {
        i += 1;
    }
    format!("[...]{}", &s[i..])
}
fn head(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut i = n;
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    format!("{}[...]", &s[..i])
}

fn shrink(p: &Prop, env: &Env, rec: Vec<u64>, msg: String, nruns: &AtomicU64) -> (Vec<u64>, String, String, usize) {
    let t0 = Instant::now();
    let mut best = rec;
    let mut best_msg = msg;
    let mut best_log = String::new();
    let mut steps = 0;
    let mut budget = 1500usize;
    // Returns Some if the candidate still fails.
    let attempt = |c: &[u64], budget: &mut usize| -> Option<(Vec<u64>, String, String)> {
        if *budget == 0 || t0.elapsed().as_secs() > 45 {
            *budget = 0;
            return None;
        }
        *budget -= 1;
        let one = run_case(p, env, &|| Src::replay(c), nruns);
        match one.stop {
            Some(Stop::Fail(m)) => {
                // Choices beyond the ones used are irrelevant; trailing zeroes too.
                let mut r = one.rec;
                while r.last() == Some(&0) {
                    r.pop();
                }
                Some((r, m, one.log))
            }
            _ => None,
        }
    };
    if let Some((r, m, l)) = attempt(&best.clone(), &mut budget) {
        best = r;
        best_msg = m;
        best_log = l;
    } else {
        // Not reproducible in isolation (it may depend on the hash seed of the
        // process): keep the original.
        return (best, best_msg, best_log, 0);
    }
    let smaller = |a: &Vec<u64>, b: &Vec<u64>| (a.len(), a.iter().sum::<u64>(), a) < (b.len(), b.iter().sum::<u64>(), b);
    loop {
        let before = best.clone();
        // Delete chunks.
        for size in [64usize, 16, 8, 4, 2, 1] {
            let mut i = best.len();
            while i > 0 && budget > 0 {
                let a = i.saturating_sub(size);
                if a < best.len() {
                    let mut c = best.clone();
                    c.drain(a..i.min(best.len()));
                    if let Some((r, m, l)) = attempt(&c, &mut budget) {
                        if smaller(&r, &best) {
                            best = r;
                            best_msg = m;
                            best_log = l;
                            steps += 1;
                        }
                    }
                }
                i = i.min(best.len() + size).saturating_sub(size);
            }
        }
        // Lower values.
        let mut i = 0;
        while i < best.len() && budget > 0 {
            for v in [0, best[i] / 2, best[i].saturating_sub(1)] {
                if i < best.len() && v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if let Some((r, m, l)) = attempt(&c, &mut budget) {
                        if smaller(&r, &best) {
                            best = r;
                            best_msg = m;
                            best_log = l;
                            steps += 1;
                            break;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || budget == 0 {
            break;
        }
    }
    (best, best_msg, best_log, steps)
}

/// Reruns a replay file. Exit code 1 if it still fails.
pub fn replay(props: &[Prop], env: &Env, file: &str) -> i32 {
    let text = match std::fs::read_to_string(file) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let (Some(id), Some(ch)) = (json::get_str(&text, "property"), json::get_u64s(&text, "choices")) else {
        eprintln!("{}: not a replay file", file);
        return 2;
    };
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {}", id);
        return 2;
    };
    let nruns = AtomicU64::new(0);
    // Several times: outcomes may depend on the process's hash seed.
    for _ in 0..5 {
        let one = run_case(p, env, &|| Src::replay(&ch), &nruns);
        match one.stop {
            Some(Stop::Fail(m)) => {
                println!("{}\n{}: {}", one.log, id, m);
                println!("VIOLATION property={} replay={}", id, file);
                return 1;
            }
            Some(Stop::Error(e)) => {
                eprintln!("{}", e);
                return 2;
            }
            _ => {}
        }
    }
    println!("{}: replay passes", id);
    0
}

/// Prints a few generated cases, for looking at what a generator makes.
pub fn show_cases(p: &Prop, env: &Env, seed: i64, n: usize) {
    let nruns = AtomicU64::new(0);
    for i in 0..n {
        let sd = hash64(&[&seed.to_le_bytes(), p.id.as_bytes(), &(i as u64).to_le_bytes()]);
        let one = run_one(p, env, Src::random(sd), &nruns);
        println!("===== case {} nontrivial={} labels={:?} stop={:?} choices={}\n{}", i, one.nontrivial, one.labels, one.stop, one.rec.len(), one.log);
    }
}
