//! Building generated programs and reading what the compiler says.
use std::io::Read;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::time::{Duration, Instant};

use serde_json::Value;

/// What `cargo build` of a package made.
pub struct Built {
    /// Crate name and library.
    pub libs: Vec<(String, PathBuf)>,
    pub exes: Vec<PathBuf>,
    pub deps: PathBuf,
}

impl Built {
    pub fn lib(&self, name: &str) -> &Path {
        &self.libs.iter().find(|l| l.0 == name).unwrap_or_else(|| panic!("no library {name}")).1
    }
}

/// Build a package and return its libraries, or what the compiler said.
pub fn cargo_build(manifest: &Path, target: &Path, args: &[&str]) -> Result<Built, String> {
    let out = Command::new("cargo")
        .args(["build", "--offline", "-q", "--message-format=json", "--manifest-path"])
        .arg(manifest)
        .args(args)
        .env("CARGO_TARGET_DIR", target)
        .stdin(Stdio::null())
        .output()
        .map_err(|e| e.to_string())?;
    let mut libs = Vec::new();
    let mut exes = Vec::new();
    let mut deps = PathBuf::new();
    let mut said = String::new();
    for l in String::from_utf8_lossy(&out.stdout).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else { continue };
        if v["reason"] == "compiler-message" && v["message"]["level"] == "error" {
            said += v["message"]["rendered"].as_str().unwrap_or_default();
        }
        if v["reason"] == "compiler-artifact" {
            if let Some(e) = v["executable"].as_str() {
                exes.push(e.into());
            }
            for f in v["filenames"].as_array().into_iter().flatten() {
                let f = PathBuf::from(f.as_str().unwrap_or_default());
                if f.extension().is_some_and(|e| e == "rlib") {
                    let name = v["target"]["name"].as_str().unwrap_or_default().replace('-', "_");
                    if f.parent().unwrap().ends_with("deps") {
                        deps = f.parent().unwrap().to_path_buf();
                    }
                    libs.push((name, f));
                }
            }
        }
    }
    if deps.as_os_str().is_empty() {
        deps = target.join("debug/deps");
    }
    if !out.status.success() {
        return Err(format!("{said}{}", String::from_utf8_lossy(&out.stderr)));
    }
    Ok(Built { libs, exes, deps })
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub message: String,
    pub code: String,
    pub rendered: String,
    /// First and last lines of primary spans in the file itself.
    pub primary: Vec<(usize, usize)>,
}

pub struct Outcome {
    pub ok: bool,
    /// The compiler itself crashed or did not come to an end.
    pub broken: Option<String>,
    pub errors: Vec<Diag>,
}

impl Outcome {
    pub fn rendered(&self) -> String {
        self.errors.iter().map(|e| e.rendered.as_str()).collect::<Vec<_>>().join("\n")
    }
}

/// Run a command with a limit of time: its status and its output.
pub fn limited(mut c: Command, limit: Duration) -> (Option<std::process::ExitStatus>, Vec<u8>, Vec<u8>) {
    let mut child: Child = match c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn() {
        Ok(c) => c,
        Err(e) => {
            eprintln!("cannot run {c:?}: {e}");
            std::process::exit(2);
        }
    };
    let mut so = child.stdout.take().unwrap();
    let mut se = child.stderr.take().unwrap();
    let a = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = so.read_to_end(&mut v);
        v
    });
    let b = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = se.read_to_end(&mut v);
        v
    });
    let end = Instant::now() + limit;
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break Some(s),
            Ok(None) if Instant::now() < end => std::thread::sleep(Duration::from_millis(3)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                break None;
            }
        }
    };
    (st, a.join().unwrap(), b.join().unwrap())
}

/// Compile a file.
pub fn rustc(built: &Built, externs: &[&str], src: &Path, out: Option<&Path>, args: &[&str]) -> Outcome {
    let mut c = Command::new("rustc");
    c.arg("--error-format=json").arg("-L").arg(format!("dependency={}", built.deps.display()));
    for e in externs {
        c.arg("--extern").arg(format!("{e}={}", built.lib(e).display()));
    }
    c.args(args);
    match out {
        Some(o) => c.arg("-o").arg(o),
        None => c.arg("--emit=metadata").arg("-o").arg(src.with_extension("rmeta")),
    };
    c.arg(src).env_remove("RUSTFLAGS").env("RUST_BACKTRACE", "0");
    let (st, _, err) = limited(c, Duration::from_secs(300));
    let mut errors = Vec::new();
    let mut broken = None;
    for l in String::from_utf8_lossy(&err).lines() {
        let Ok(v) = serde_json::from_str::<Value>(l) else {
            if !l.trim().is_empty() && broken.is_none() {
                broken = Some(l.to_string());
            }
            continue;
        };
        let level = v["level"].as_str().unwrap_or_default();
        if level.starts_with("error") {
            if level != "error" {
                broken = Some(v["rendered"].as_str().unwrap_or_default().to_string());
            }
            let file = src.to_string_lossy();
            let primary: Vec<(usize, usize)> = v["spans"]
                .as_array()
                .into_iter()
                .flatten()
                .filter(|s| s["is_primary"] == true)
                .flat_map(|s| {
                    // Where the code was expanded counts as well.
                    let mut v = Vec::new();
                    let mut s = s.clone();
                    loop {
                        if s["file_name"].as_str() == Some(&*file) {
                            v.push((s["line_start"].as_u64().unwrap_or(0) as usize, s["line_end"].as_u64().unwrap_or(0) as usize));
                            break;
                        }
                        if s["expansion"].is_null() {
                            break;
                        }
                        s = s["expansion"]["span"].clone();
                    }
                    v
                })
                .collect();
            let message = v["message"].as_str().unwrap_or_default().to_string();
            if !message.starts_with("aborting due to") && !message.starts_with("For more information") {
                errors.push(Diag {
                    message,
                    code: v["code"]["code"].as_str().unwrap_or_default().to_string(),
                    rendered: v["rendered"].as_str().unwrap_or_default().to_string(),
                    primary,
                });
            }
        }
    }
    match st {
        None => broken = Some("the compiler did not come to an end".into()),
        Some(s) if s.success() => {}
        Some(s) => {
            if s.code() != Some(1) {
                broken = Some(format!("the compiler ended with {s}"));
            } else if errors.is_empty() && broken.is_none() {
                broken = Some("the compiler failed without an error".into());
            }
        }
    }
    Outcome { ok: st.is_some_and(|s| s.success()), broken, errors }
}

/// Apply f to all of 0..n on several threads, in order of completion.
pub fn parallel<T: Send>(n: usize, f: impl Fn(usize) -> T + Sync) -> Vec<T> {
    let next = AtomicUsize::new(0);
    let threads = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16);
    let mut all: Vec<(usize, T)> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads.min(n))
            .map(|_| {
                s.spawn(|| {
                    let mut v = Vec::new();
                    loop {
                        let i = next.fetch_add(1, Ordering::Relaxed);
                        if i >= n {
                            return v;
                        }
                        v.push((i, f(i)));
                    }
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
    });
    all.sort_by_key(|e| e.0);
    all.into_iter().map(|e| e.1).collect()
}
