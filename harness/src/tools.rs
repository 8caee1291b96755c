//! Running the command line tools, and reading their tables.
use crate::driver::harness_error;
use std::ffi::OsString;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub stdout: String,
    pub stderr: String,
}

impl Out {
    pub fn ok(&self) -> bool {
        self.code == Some(0)
    }
    /// The tool succeeded, or a description of how it failed.
    pub fn success(self, what: &str) -> Result<Out, String> {
        if self.ok() {
            Ok(self)
        } else {
            Err(format!("{what} failed: {}", self.describe()))
        }
    }
    pub fn describe(&self) -> String {
        let e: String = self.stderr.chars().take(600).collect();
        match (self.code, self.signal) {
            (Some(c), _) => format!("exit code {c}, stderr: {e}"),
            (_, Some(libc::SIGALRM)) | (_, Some(libc::SIGXCPU)) => "it does not end".to_string(),
            (_, s) => format!("signal {s:?}, stderr: {e}"),
        }
    }
}

pub fn tool(name: &str) -> PathBuf {
    let d = std::env::var_os("VH_TOOLS").unwrap_or_else(|| harness_error("VH_TOOLS is not set"));
    let p = Path::new(&d).join(name);
    if !p.exists() {
        harness_error(&format!("no tool {}", p.display()));
    }
    p
}

pub fn run(name: &str, cwd: &Path, args: &[OsString]) -> Out {
    run_with(name, cwd, args, None, None, None)
}

/// Ends tools that hang.
fn watch(pid: libc::pid_t, on: bool) {
    use std::sync::{Mutex, Once};
    use std::time::{Duration, Instant};
    static RUNNING: Mutex<Vec<(libc::pid_t, Instant)>> = Mutex::new(vec![]);
    static START: Once = Once::new();
    START.call_once(|| {
        std::thread::spawn(|| loop {
            std::thread::sleep(Duration::from_secs(2));
            for (pid, at) in RUNNING.lock().unwrap().iter() {
                if at.elapsed() > Duration::from_secs(100) {
                    unsafe { libc::kill(*pid, libc::SIGALRM) };
                }
            }
        });
    });
    let mut r = RUNNING.lock().unwrap();
    if on {
        r.push((pid, Instant::now()));
    } else {
        r.retain(|x| x.0 != pid);
    }
}

/// ... with standard output to a file, with a limit to the size of the files it writes, or with
/// a plan for shim.c and a path where it leaves a mark.
pub fn run_with(name: &str, cwd: &Path, args: &[OsString], stdout: Option<&Path>, limit: Option<u64>, plan: Option<(&str, &Path)>) -> Out {
    let mut c = Command::new(tool(name));
    c.args(args).current_dir(cwd).stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped());
    if let Some(p) = stdout {
        let f = std::fs::OpenOptions::new().write(true).create(true).truncate(p.starts_with(cwd)).open(p);
        c.stdout(f.unwrap_or_else(|e| harness_error(&format!("{}: {e}", p.display()))));
    }
    c.env_remove("RUST_BACKTRACE").env_remove("VH_CHILD");
    if limit.is_some() || plan.is_some() {
        let shim = std::env::var_os("VH_SHIM").unwrap_or_else(|| harness_error("VH_SHIM is not set"));
        c.env("LD_PRELOAD", shim);
    }
    if let Some((plan, mark)) = plan {
        c.env("VH_IO", plan).env("VH_FIRED", mark);
    }
    if let Some(n) = limit {
        c.env("VH_FSIZE", n.to_string());
    }
    // (without pre_exec no copy of this process is made)
    let o = c.spawn().and_then(|child| {
        let pid = child.id() as libc::pid_t;
        let set = |what, cur: u64, max: u64| unsafe {
            let l = libc::rlimit { rlim_cur: cur, rlim_max: max };
            libc::prlimit(pid, what, &l, std::ptr::null_mut());
        };
        set(libc::RLIMIT_CPU, 90, 95);
        set(libc::RLIMIT_AS, 6 << 30, 6 << 30);
        set(libc::RLIMIT_CORE, 0, 0);
        watch(pid, true);
        let o = child.wait_with_output();
        watch(pid, false);
        o
    });
    let o = o.unwrap_or_else(|e| harness_error(&format!("cannot run {name}: {e}")));
    Out {
        code: o.status.code(),
        signal: o.status.signal(),
        stdout: String::from_utf8_lossy(&o.stdout).into_owned(),
        stderr: String::from_utf8_lossy(&o.stderr).into_owned(),
    }
}

pub fn args<const N: usize>(a: [&str; N]) -> Vec<OsString> {
    a.iter().map(OsString::from).collect()
}

/// A piece of printed output: a table or a line.
#[derive(Debug, Clone, PartialEq)]
pub enum Piece {
    Table(Vec<Vec<String>>),
    Line(String),
}

/// Splits printed output into tables (rows of trimmed cells) and other lines.
pub fn pieces(out: &str) -> Vec<Piece> {
    let mut v: Vec<Piece> = vec![];
    let mut open = false;
    for l in out.lines() {
        if l.starts_with('|') {
            let inner = l.strip_prefix('|').unwrap();
            let inner = inner.trim_end().strip_suffix('|').unwrap_or(inner);
            // The rule may occur in the first cell: the row has as many cells as the one with the titles.
            let width = match v.last() {
                Some(Piece::Table(t)) if open => t[0].len(),
                _ => usize::MAX,
            };
            let mut row: Vec<String> = inner.rsplitn(width, '|').map(|c| c.trim().to_string()).collect();
            row.reverse();
            match v.last_mut() {
                Some(Piece::Table(t)) if open => t.push(row),
                _ => v.push(Piece::Table(vec![row])),
            }
            open = true;
        } else if l.starts_with('+') && l.chars().all(|c| "+-=".contains(c)) {
        } else {
            open = false;
            if !l.trim().is_empty() {
                v.push(Piece::Line(l.to_string()));
            }
        }
    }
    v
}

pub fn write(path: &Path, bytes: &[u8]) {
    std::fs::write(path, bytes).unwrap_or_else(|e| harness_error(&format!("{}: {e}", path.display())));
}

/// A path for the profile `stem`, seen from `dir`: there, in other directories, or absolute.
pub fn place(dir: &Path, k: u32, stem: &str) -> String {
    let (sub, path) = match k % 8 {
        0..=2 => return stem.to_string(),
        3 => ("runs", format!("runs/{stem}")),
        4 => ("abs", format!("{}/abs/{stem}", dir.display())),
        5 => ("d.1/\u{e4} b", format!("./d.1/\u{e4} b/{stem}")),
        6 => ("up", format!("up/../{stem}")),
        _ => ("x.mm_profdata", format!("x.mm_profdata/{stem}")),
    };
    let sub = dir.join(sub);
    std::fs::create_dir_all(&sub).unwrap_or_else(|e| harness_error(&format!("{}: {e}", sub.display())));
    path
}

/// An older and longer output file, which the tool has to replace.
pub fn stale(path: &Path) {
    write(path, &b"{\"stale\": 0}]\n".repeat(20_000));
}

/// The names in a directory, sorted.
pub fn listing(dir: &Path) -> Vec<String> {
    let mut v: Vec<String> = std::fs::read_dir(dir)
        .unwrap_or_else(|e| harness_error(&format!("{}: {e}", dir.display())))
        .map(|e| e.unwrap().file_name().to_string_lossy().into_owned())
        .collect();
    v.sort();
    v
}

/// A whole directory: every file's content, every link's target.
pub fn snapshot(dir: &Path) -> std::collections::BTreeMap<PathBuf, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    let fail = |p: &Path, e| -> ! { harness_error(&format!("{}: {e}", p.display())) };
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).unwrap_or_else(|e| fail(&d, e)) {
            let p = e.unwrap_or_else(|e| fail(&d, e)).path();
            let t = std::fs::symlink_metadata(&p).unwrap_or_else(|e| fail(&p, e)).file_type();
            let rel = p.strip_prefix(dir).unwrap().to_path_buf();
            if t.is_dir() {
                m.insert(rel, b"directory".to_vec());
                todo.push(p);
            } else if t.is_symlink() {
                m.insert(rel, format!("link {:?}", std::fs::read_link(&p)).into_bytes());
            } else {
                m.insert(rel, std::fs::read(&p).unwrap_or_else(|e| fail(&p, e)));
            }
        }
    }
    m
}
