mod checks_cli;
mod checks_import;
mod comment;
mod fake;
mod fp;
mod st;
mod stmt;
mod gen;
mod journal;
mod json;
mod merge_model;
mod prop;
mod regexm;
mod rules_model;
mod checks_rules;
mod sut;
mod checks_merge;

use std::path::PathBuf;

fn props() -> Vec<prop::Prop> {
    let mut v = vec![];
    v.extend(checks_merge::props());
    v.extend(checks_rules::props());
    v.extend(checks_import::props());
    v.extend(checks_cli::props());
    v
}

fn verif_dir() -> PathBuf {
    std::env::var("AMV_VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

/// Findings recorded in known_findings.txt: (property, text).
fn findings() -> Vec<(String, String)> {
    let t = std::fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    json::parse_findings(&t)
}

fn main() {
    // Acting as one of the external tools of the PDF import?
    if let Ok(role) = std::env::var("AMV_FAKE_TOOLS") {
        std::process::exit(fake::main(&role));
    }
    fp::self_test();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let bin: PathBuf = std::env::var("AMV_SUT").unwrap_or_else(|_| "/verif/.build/sut/debug/accountmerge".into()).into();
    if !bin.exists() {
        eprintln!("{:?} does not exist; run build.sh", bin);
        std::process::exit(2);
    }
    let base = if std::fs::create_dir("/dev/shm/.amv-probe").is_ok() || std::path::Path::new("/dev/shm/.amv-probe").exists() {
        let _ = std::fs::remove_dir("/dev/shm/.amv-probe");
        "/dev/shm"
    } else {
        "/tmp"
    };
    let scratch = PathBuf::from(format!("{}/amv-{}", base, std::process::id()));
    if std::fs::create_dir_all(&scratch).is_err() {
        eprintln!("cannot create {:?}", scratch);
        std::process::exit(2);
    }
    std::panic::set_hook(Box::new(|i| {
        eprintln!("harness panic: {}", i);
    }));
    let env = sut::Env::new(bin, scratch.clone());
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let props = props();
    let code = match args.iter().map(|s| s.as_str()).collect::<Vec<_>>()[..] {
        ["check", id] | ["check", id, _] => match props.iter().find(|p| p.id == id) {
            Some(p) => {
                let cases = args.get(2).and_then(|s| s.parse().ok());
                prop::check(p, &env, &prop::Opts { tier, seed, cases, verif: verif_dir() }, &findings())
            }
            None => {
                eprintln!("unknown property {}", id);
                2
            }
        },
        ["replay", f] => prop::replay(&props, &env, f),
        ["show", id, n] => {
            let p = props.iter().find(|p| p.id == id).expect("property");
            prop::show_cases(p, &env, seed, n.parse().unwrap());
            0
        }
        // Compares the small regular expression matcher with the regex crate.
        ["regextest", n] => regexm::self_test(seed as u64, n.parse().unwrap()),
        ["list"] => {
            for p in &props {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        _ => {
            eprintln!("usage: amv check ID [CASES] | replay FILE | show ID N | regextest N | list");
            2
        }
    };
    let _ = std::fs::remove_dir_all(&scratch);
    std::process::exit(code);
}
