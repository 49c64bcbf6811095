//! Runs the program under test.

use std::collections::HashMap;
use std::fs::File;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, RwLock};
use std::time::{Duration, Instant};

pub struct Env {
    pub bin: PathBuf,
    pub scratch: PathBuf,
    deadlines: Arc<Mutex<HashMap<usize, (u32, Instant, bool)>>>,
}

/// Where standard output goes: a file of its own, an existing file, or a pipe
/// nobody reads.
pub enum To<'a> {
    File(Option<&'a Path>),
    ClosedPipe,
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: Vec<u8>,
    pub stderr: String,
}

impl Out {
    pub fn success(&self) -> bool {
        self.code == Some(0)
    }
    /// Ended by an ordinary error: non-zero status, not a panic, not a signal.
    pub fn clean_error(&self) -> bool {
        matches!(self.code, Some(c) if c != 0) && !self.panicked()
    }
    pub fn panicked(&self) -> bool {
        self.signal.is_some() || self.code == Some(101) || self.stderr.contains("panicked at")
    }
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.stdout).into_owned()
    }
    pub fn brief(&self) -> String {
        let mut s = match (self.code, self.signal) {
            (Some(c), _) => format!("exit {}", c),
            (_, Some(s)) => format!("signal {}", s),
            _ => "?".into(),
        };
        if !self.stdout.is_empty() {
            s.push_str(&format!("\n--- stdout ---\n{}", crate::prop::show(&self.stdout)));
        }
        if !self.stderr.is_empty() {
            s.push_str(&format!("\n--- stderr ---\n{}", self.stderr.chars().take(2000).collect::<String>()));
        }
        s
    }
}

static N: AtomicUsize = AtomicUsize::new(0);
static SPAWN: RwLock<()> = RwLock::new(());
const TIMEOUT: Duration = Duration::from_secs(30);

extern "C" {
    fn kill(pid: i32, sig: i32) -> i32;
}

impl Env {
    pub fn new(bin: PathBuf, scratch: PathBuf) -> Env {
        let deadlines: Arc<Mutex<HashMap<usize, (u32, Instant, bool)>>> = Default::default();
        let d = deadlines.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(200));
            let now = Instant::now();
            for (_, (pid, t, killed)) in d.lock().unwrap().iter_mut() {
                if now > *t && !*killed {
                    *killed = true;
                    // Our own child, not yet waited for, so the pid is still its.
                    unsafe { kill(*pid as i32, 9) };
                }
            }
        });
        Env { bin, scratch, deadlines }
    }

    pub fn run(&self, dir: &Path, args: &[&str], stdin: &[u8], envs: &[(&str, &str)], stdout_to: Option<&Path>) -> Result<Out, String> {
        self.run_bin(&self.bin, dir, args, stdin, envs, To::File(stdout_to))
    }

    pub fn run_bin(&self, bin: &Path, dir: &Path, args: &[&str], stdin: &[u8], envs: &[(&str, &str)], to: To) -> Result<Out, String> {
        let n = N.fetch_add(1, Ordering::Relaxed);
        // Beside the case's working directory, so that snapshots do not see them.
        let base = dir.parent().unwrap_or(dir);
        let (fo, fe, fi) = (base.join(format!("o{}", n)), base.join(format!("e{}", n)), base.join(format!("i{}", n)));
        let tmp = base.join("tmp");
        std::fs::create_dir_all(&tmp).map_err(|e| e.to_string())?;
        let open = |p: &Path| File::create(p).map_err(|e| format!("{:?}: {}", p, e));
        let mut cmd = Command::new(bin);
        cmd.args(args)
            .current_dir(dir)
            .env_clear()
            .env("PATH", "/usr/bin:/bin")
            .env("HOME", base)
            .env("TMPDIR", &tmp)
            .env("TZ", "UTC")
            .env("LANG", "C.UTF-8")
            .env("RUST_BACKTRACE", "0");
        for (k, v) in envs {
            cmd.env(k, v);
        }
        if stdin.is_empty() {
            cmd.stdin(Stdio::null());
        } else {
            std::fs::write(&fi, stdin).map_err(|e| e.to_string())?;
            cmd.stdin(File::open(&fi).map_err(|e| e.to_string())?);
        }
        let mut collect = false;
        match to {
            To::ClosedPipe => {
                // No process may start meanwhile: it would hold the reading end
                // open until it has become another program.
                let g = SPAWN.write().unwrap_or_else(|e| e.into_inner());
                let (r, w) = std::io::pipe().map_err(|e| e.to_string())?;
                drop(r);
                drop(g);
                cmd.stdout(w)
            }
            To::File(Some(p)) => {
                let f = std::fs::OpenOptions::new().write(true).open(p).map_err(|e| format!("{:?}: {}", p, e))?;
                cmd.stdout(f)
            }
            To::File(None) => {
                collect = true;
                cmd.stdout(open(&fo)?)
            }
        };
        cmd.stderr(open(&fe)?);
        let mut child = {
            let _g = SPAWN.read().unwrap_or_else(|e| e.into_inner());
            cmd.spawn().map_err(|e| format!("cannot start {:?}: {}", bin, e))?
        };
        self.deadlines.lock().unwrap().insert(n, (child.id(), Instant::now() + TIMEOUT, false));
        // Wait without reaping first would need waitid; removing the entry under
        // the lock right after wait is enough in practice (pids are not reused
        // within the gap).
        let st = child.wait().map_err(|e| e.to_string());
        let killed = self.deadlines.lock().unwrap().remove(&n).map(|x| x.2).unwrap_or(false);
        let st = st?;
        let stdout = if collect { std::fs::read(&fo).unwrap_or_default() } else { vec![] };
        let stderr = String::from_utf8_lossy(&std::fs::read(&fe).unwrap_or_default()).into_owned();
        for f in [&fo, &fe, &fi] {
            let _ = std::fs::remove_file(f);
        }
        if killed {
            return Err(format!("timed out after {:?}", TIMEOUT));
        }
        Ok(Out { code: st.code(), signal: st.signal(), stdout, stderr })
    }
}
