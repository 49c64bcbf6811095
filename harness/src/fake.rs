//! Stand-ins for the PDF converter and the OCR tool. The harness binary plays
//! them when AMV_FAKE_TOOLS names a plan file.

use std::path::Path;

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
    fn getpid() -> i32;
}
fn die(sig: i32) -> ! {
    unsafe { kill(getpid(), sig) };
    std::process::exit(99)
}
/// A mode may end with ":N", the exit status or signal.
fn mode(m: &str) -> (&str, Option<i32>) {
    match m.split_once(':') {
        Some((a, n)) => (a, n.parse().ok()),
        None => (m, None),
    }
}
/// A way for a tool to fail.
pub fn failure(s: &mut crate::prop::Src) -> String {
    let m = s.pick_s(&["fail", "failnone", "failpart", "kill", "killnone", "killpart"]);
    let n = if m.starts_with("kill") { *s.pick(&[9, 15, 6, 11, 13, 1]) } else { *s.pick(&[1, 2, 3, 64, 77, 126, 127, 128, 137, 255]) };
    format!("{}:{}", m, n)
}

pub struct Plan {
    pub gm: String,
    pub tess: String,
    pub pages: Vec<Vec<String>>,
    /// What the OCR tool writes instead of the pages' text.
    pub raw: Option<Vec<u8>>,
}
impl Plan {
    pub fn ok(pages: Vec<Vec<String>>) -> Plan {
        Plan { gm: "ok".into(), tess: "ok".into(), pages, raw: None }
    }
    pub fn write(&self, path: &Path) -> std::io::Result<()> {
        let mut o = format!("{}\n{}\n{}\n", self.gm, self.tess, self.pages.len());
        for p in &self.pages {
            o.push_str(&format!("{}\n", p.len()));
            for r in p {
                o.push_str(r);
                o.push('\n');
            }
        }
        std::fs::write(path, o)?;
        if let Some(r) = &self.raw {
            std::fs::write(path.with_extension("raw"), r)?;
        }
        Ok(())
    }
    fn read(path: &Path) -> Plan {
        let t = std::fs::read_to_string(path).expect("plan");
        let mut l = t.split('\n');
        let gm = l.next().unwrap().to_string();
        let tess = l.next().unwrap().to_string();
        let n: usize = l.next().unwrap().parse().unwrap();
        let mut pages = vec![];
        for _ in 0..n {
            let k: usize = l.next().unwrap().parse().unwrap();
            pages.push((0..k).map(|_| l.next().unwrap().to_string()).collect());
        }
        Plan { gm, tess, pages, raw: std::fs::read(path.with_extension("raw")).ok() }
    }
}

pub fn main(plan: &str) -> i32 {
    let args: Vec<String> = std::env::args().collect();
    let me = Path::new(&args[0]).file_name().map(|s| s.to_string_lossy().into_owned()).unwrap_or_default();
    let plan = Plan::read(Path::new(plan));
    match me.as_str() {
        "gm" => gm(&plan, &args[1..]),
        "tesseract" => tess(&plan, &args[1..]),
        _ => 98,
    }
}

/// Expands `%0Nd` or `%d`.
fn expand(pattern: &str, n: usize) -> Option<String> {
    let i = pattern.rfind('%')?;
    let rest = &pattern[i + 1..];
    let d = rest.find('d')?;
    let spec = &rest[..d];
    if !spec.chars().all(|c| c.is_ascii_digit()) {
        return None;
    }
    let w: usize = spec.trim_start_matches('0').parse().unwrap_or(0);
    Some(format!("{}{:0w$}{}", &pattern[..i], n, &rest[d + 1..], w = w))
}

fn gm(plan: &Plan, args: &[String]) -> i32 {
    if args.first().map(|s| s.as_str()) != Some("convert") {
        return 97;
    }
    let (pattern, input) = (args.last().unwrap(), args.iter().find(|a| a.ends_with(".pdf")));
    match input {
        Some(i) if Path::new(i).is_file() => {}
        _ => return 96,
    }
    let n = plan.pages.len();
    let count = match mode(&plan.gm).0 {
        "failnone" | "killnone" => 0,
        "failpart" | "killpart" => n.div_ceil(2),
        _ => n,
    };
    for i in 0..count {
        let Some(f) = expand(pattern, i) else { return 95 };
        if std::fs::write(&f, format!("PAGE {}\n", i)).is_err() {
            return 94;
        }
    }
    match mode(&plan.gm) {
        ("ok", _) => 0,
        (m, n) if m.starts_with("kill") => die(n.unwrap_or(9)),
        (_, n) => n.unwrap_or(1),
    }
}

fn tess(plan: &Plan, args: &[String]) -> i32 {
    let mut pos = vec![];
    let mut i = 0;
    while i < args.len() {
        if args[i].starts_with('-') {
            i += 2;
            continue;
        }
        pos.push(args[i].as_str());
        i += 1;
    }
    if pos.len() < 3 || !pos[2..].contains(&"tsv") {
        return 93;
    }
    let Ok(list) = std::fs::read_to_string(pos[0]) else { return 92 };
    let mut pages: Vec<Vec<String>> = vec![];
    for l in list.lines() {
        let Ok(c) = std::fs::read_to_string(l) else { return 91 };
        let Some(k) = c.trim().strip_prefix("PAGE ").and_then(|k| k.parse::<usize>().ok()) else { return 90 };
        pages.push(plan.pages[k].clone());
    }
    let out = format!("{}.tsv", pos[1]);
    let all = crate::stmt::pages_tsv(&pages).into_bytes();
    let data: Option<Vec<u8>> = match mode(&plan.tess).0 {
        "none" | "failnone" | "killnone" => None,
        "failpart" | "killpart" => Some(all[..all.len() / 2].to_vec()),
        "raw" => Some(plan.raw.clone().unwrap_or_default()),
        _ => Some(all),
    };
    if let Some(d) = data {
        if std::fs::write(&out, d).is_err() {
            return 89;
        }
    }
    eprintln!("tesseract says something on standard error");
    match mode(&plan.tess) {
        ("ok" | "none" | "raw", _) => 0,
        (m, n) if m.starts_with("kill") => die(n.unwrap_or(9)),
        (_, n) => n.unwrap_or(1),
    }
}
