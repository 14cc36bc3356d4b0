//! C10: safe use of the crate never causes undefined behaviour. Generates
//! cases for the interpreter in /verif/memcheck, which runs under Miri and
//! AddressSanitizer, and shrinks those they object to.
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::{exit, Command, Stdio};
use std::time::{Duration, Instant};

use fmcheck::case::{strategy, Case};
use fmcheck::run::{rng_for, tier, work_dir, write_replay, Evidence};
use proptest::strategy::{BoxedStrategy, Strategy, ValueTree};
use proptest::test_runner::{Config, TestRunner};
use serde_json::json;

const ASAN: &str = "/verif/target/asan/x86_64-unknown-linux-gnu/debug/memcheck";
const ASAN_RELEASE: &str = "/verif/target/asan-release/x86_64-unknown-linux-gnu/release/memcheck";

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Tool {
    /// With and without debug assertions, among them those of the std on
    /// the preconditions of unsafe functions.
    Asan,
    AsanRelease,
    Miri,
    /// With the other aliasing model, without debug assertions.
    MiriTree,
}

impl Tool {
    fn name(self) -> &'static str {
        match self {
            Tool::Asan => "AddressSanitizer with debug assertions",
            Tool::AsanRelease => "AddressSanitizer, optimized",
            Tool::Miri => "Miri",
            Tool::MiriTree => "Miri with tree borrows, without debug assertions",
        }
    }
    fn command(self, file: &Path) -> Command {
        let mut c;
        match self {
            Tool::Asan | Tool::AsanRelease => {
                c = Command::new(if self == Tool::Asan { ASAN } else { ASAN_RELEASE });
                c.env("ASAN_OPTIONS", "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=1");
            }
            Tool::Miri | Tool::MiriTree => {
                c = Command::new("cargo");
                c.args(["+nightly", "miri", "run", "--offline", "-q", "--manifest-path", "/verif/memcheck/Cargo.toml"]);
                if self == Tool::MiriTree {
                    c.arg("--release");
                }
                c.arg("--");
                c.env("CARGO_TARGET_DIR", if self == Tool::Miri { "/verif/target/miri" } else { "/verif/target/miri-release" });
                c.env_remove("RUSTUP_TOOLCHAIN").env_remove("RUSTC_WRAPPER");
                c.env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks{}", if self == Tool::MiriTree { " -Zmiri-tree-borrows" } else { "" }));
            }
        }
        c.arg(file);
        c
    }
}

enum Outcome {
    Fine,
    /// The line at which it happened and what happened.
    Bad(usize, String),
    Error(String),
}

fn run(tool: Tool, file: &Path, limit: Duration) -> Outcome {
    let out = file.with_extension("out");
    let err = file.with_extension("err");
    let mut child = match tool
        .command(file)
        .stdin(Stdio::null())
        .stdout(std::fs::File::create(&out).unwrap())
        .stderr(std::fs::File::create(&err).unwrap())
        .spawn()
    {
        Ok(c) => c,
        Err(e) => return Outcome::Error(format!("{}: {e}", tool.name())),
    };
    let end = Instant::now() + limit;
    let st = loop {
        match child.try_wait() {
            Ok(Some(s)) => break s,
            Ok(None) if Instant::now() < end => std::thread::sleep(Duration::from_millis(10)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return Outcome::Error(format!("{} did not finish in time", tool.name()));
            }
        }
    };
    let out = String::from_utf8_lossy(&std::fs::read(&out).unwrap_or_default()).into_owned();
    let err = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).into_owned();
    if st.success() && out.lines().last() == Some("done") {
        return Outcome::Fine;
    }
    let at = out.lines().filter_map(|l| l.parse().ok()).last();
    let said = if let Some(l) = err.lines().find(|l| l.contains("Undefined Behavior")) {
        Some(l.to_string())
    } else if let Some(l) = err.lines().find(|l| l.contains("ERROR: AddressSanitizer")) {
        // Without addresses, which vary.
        Some(l.split(" on ").next().unwrap_or(l).split("ERROR: ").last().unwrap_or(l).to_string())
    } else if let Some(l) = err.lines().find(|l| l.contains("unsafe precondition(s) violated")) {
        Some(l.to_string())
    } else if let Some(l) = out.lines().find(|l| l.starts_with("corrupted value")) {
        Some(l.to_string())
    } else {
        use std::os::unix::process::ExitStatusExt;
        match st.signal() {
            Some(s @ (4 | 6 | 7 | 8 | 11)) if matches!(tool, Tool::Asan | Tool::AsanRelease) => Some(format!("the process died with signal {s}")),
            _ => None,
        }
    };
    match (said, at) {
        (Some(s), Some(n)) => Outcome::Bad(n, s),
        (s, _) => Outcome::Error(format!("{} ended with {st}: {s:?} {}", tool.name(), err.lines().rev().take(5).collect::<Vec<_>>().join(" | "))),
    }
}

fn line(pair: usize, case: &Case) -> String {
    let mut s = format!("{pair} {}", case.x);
    for op in &case.ops {
        let k = (op.key & 0x7fff) as usize;
        let key = if case.focus.is_empty() { (k * 2) as u16 } else { case.focus[k % case.focus.len()] };
        s += &format!(" {} {key} {}", op.k, op.a);
    }
    s
}

fn describe(pairs: &[String], pair: usize, case: &Case) -> serde_json::Value {
    json!({"types": pairs[pair], "operations": case.ops.len(), "line": line(pair, case)})
}

struct Batch {
    tool: Tool,
    cases: Vec<(usize, Case)>,
}

fn write(dir: &Path, name: &str, cases: &[(usize, Case)]) -> PathBuf {
    let p = dir.join(name);
    let text: Vec<String> = cases.iter().map(|(p, c)| line(*p, c)).collect();
    std::fs::write(&p, text.join("\n") + "\n").unwrap();
    p
}

fn strat() -> BoxedStrategy<Case> {
    strategy(6, 30)
}

fn shrink(dir: &Path, tool: Tool, pair: usize, case: Case, mut said: String) -> (Case, String) {
    let end = Instant::now() + Duration::from_secs(if matches!(tool, Tool::Miri | Tool::MiriTree) { 120 } else { 40 });
    let mut best = case;
    let fails = |c: &Case| match run(tool, &write(dir, "shrink.txt", &[(pair, c.clone())]), Duration::from_secs(60)) {
        Outcome::Bad(_, s) => Some(s),
        _ => None,
    };
    let mut size = (best.ops.len() / 2).max(1);
    'outer: loop {
        let mut i = 0;
        let mut progress = false;
        while i < best.ops.len() {
            if Instant::now() > end {
                break 'outer;
            }
            let mut c = best.clone();
            c.ops.drain(i..(i + size).min(c.ops.len()));
            match fails(&c) {
                Some(s) => {
                    best = c;
                    said = s;
                    progress = true;
                }
                None => i += size,
            }
        }
        if size == 1 && !progress {
            break;
        }
        size = (size / 2).max(1);
    }
    (best, said)
}

fn main() {
    let start = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    let dir = work_dir("C10");
    let listed = Command::new(ASAN).output().unwrap_or_else(|e| {
        eprintln!("C10: the interpreter does not run: {e}");
        exit(2)
    });
    let pairs: Vec<String> = String::from_utf8_lossy(&listed.stdout).lines().map(str::to_string).collect();
    if pairs.is_empty() {
        eprintln!("C10: the interpreter lists no types");
        exit(2);
    }
    let tools = [Tool::Asan, Tool::AsanRelease, Tool::Miri, Tool::MiriTree];
    if args.get(1).map(String::as_str) == Some("--replay") {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
        let p = dir.join("replay.txt");
        std::fs::write(&p, format!("{}\n", v["line"].as_str().expect("line"))).unwrap();
        println!("{} {}", v["types"], v["line"]);
        for t in tools {
            if t.name() == v["tool"].as_str().unwrap_or_default() {
                match run(t, &p, Duration::from_secs(120)) {
                    Outcome::Fine => println!("held"),
                    Outcome::Bad(_, s) => {
                        println!("{}: {s}", t.name());
                        println!("VIOLATION property=C10 replay={}", args[2]);
                        exit(1)
                    }
                    Outcome::Error(e) => {
                        eprintln!("{e}");
                        exit(2)
                    }
                }
            }
        }
        exit(0);
    }

    let (asan, miri) = if tier() == "thorough" { (40_000, 1200) } else { (8000, 16) };
    let n = std::thread::available_parallelism().map_or(8, |n| n.get()).clamp(2, 16);
    // One batch of cases for each process, all types in each.
    let mut batches: Vec<Batch> = Vec::new();
    for (tool, per) in [(Tool::Miri, miri), (Tool::MiriTree, miri / 2), (Tool::Asan, asan), (Tool::AsanRelease, asan)] {
        let procs = if matches!(tool, Tool::Miri | Tool::MiriTree) { n } else { n / 2 };
        let mut bs: Vec<Batch> = (0..procs).map(|_| Batch { tool, cases: Vec::new() }).collect();
        for (pi, p) in pairs.iter().enumerate() {
            let mut runner = TestRunner::new_with_rng(Config { failure_persistence: None, ..Config::default() }, rng_for("C10", &format!("{p} {tool:?}")));
            let strat = strat();
            for i in 0..per {
                let case = strat.new_tree(&mut runner).expect("case").current();
                bs[(i + pi) % procs].cases.push((pi, case));
            }
        }
        batches.extend(bs);
    }
    let mut evaluations = 0u64;
    let mut by_tool = serde_json::Map::new();
    let mut distinct = HashSet::new();
    for b in &batches {
        evaluations += b.cases.len() as u64;
        let e = by_tool.entry(b.tool.name()).or_insert(json!(0));
        *e = json!(e.as_u64().unwrap() + b.cases.len() as u64);
        for (p, c) in &b.cases {
            if c.ops.len() >= 3 {
                distinct.insert(line(*p, c));
            }
        }
    }
    let samples: Vec<_> = batches[0].cases.iter().filter(|c| c.1.ops.len() >= 3).take(6).map(|(p, c)| describe(&pairs, *p, c)).collect();
    let queue = std::sync::Mutex::new(batches.into_iter().enumerate().collect::<Vec<_>>());
    let found = std::sync::Mutex::new((Vec::new(), Vec::new()));
    let limit = Duration::from_secs(if tier() == "thorough" { 6 * 3600 } else { 600 });
    std::thread::scope(|s| {
        for _ in 0..n {
            s.spawn(|| loop {
                let Some((i, b)) = ({
                    let mut q = queue.lock().unwrap();
                    if q.is_empty() { None } else { Some(q.remove(0)) }
                }) else {
                    return;
                };
                let p = write(&dir, &format!("batch{i}.txt"), &b.cases);
                match run(b.tool, &p, limit) {
                    Outcome::Fine => {}
                    Outcome::Bad(at, said) => found.lock().unwrap().0.push((b, at, said)),
                    Outcome::Error(e) => found.lock().unwrap().1.push(e),
                }
                for e in ["txt", "out", "err"] {
                    let _ = std::fs::remove_file(p.with_extension(e));
                }
            });
        }
    });
    let (bad, mut errors) = found.into_inner().unwrap();
    let mut lines = Vec::new();
    let mut seen = HashSet::new();
    for (b, at, said) in bad {
        if !seen.insert(b.tool.name()) {
            continue;
        }
        let (pair, case) = b.cases[at.min(b.cases.len() - 1)].clone();
        let alone = matches!(run(b.tool, &write(&dir, "alone.txt", &[(pair, case.clone())]), Duration::from_secs(120)), Outcome::Bad(..));
        let (text, types, said) = if alone {
            let (case, said) = shrink(&dir, b.tool, pair, case, said);
            (line(pair, &case), pairs[pair].clone(), said)
        } else {
            // Only after the cases before it.
            let all = &b.cases[..=at.min(b.cases.len() - 1)];
            let text = all.iter().map(|(p, c)| line(*p, c)).collect::<Vec<_>>().join("\n");
            match run(b.tool, &write(&dir, "alone.txt", all), limit) {
                Outcome::Bad(..) => (text, "(several)".to_string(), said),
                _ => {
                    errors.push(format!("{}: {said}, which did not happen again", b.tool.name()));
                    continue;
                }
            }
        };
        let p = write_replay("C10", &json!({"property": "C10", "tool": b.tool.name(), "types": types, "line": text, "reason": said}));
        println!("{types}: {}: {said}", b.tool.name());
        lines.push(format!("VIOLATION property=C10 replay={}", p.display()));
    }
    let mut more = serde_json::Map::new();
    more.insert("subjects".into(), pairs.len().into());
    more.insert("cases_by_tool".into(), by_tool.into());
    Evidence {
        id: "C10",
        evaluations,
        distinct_nontrivial: distinct.len() as u64,
        rule: "proptest-generated histories over all operations of maps and sets (also with forgotten iterators and entries, panicking callbacks, destructors, clones and comparisons, simultaneous references and raw values) from 21 types of keys to 13 types of values are interpreted under Miri (both aliasing models) and AddressSanitizer (with debug assertions, and optimized); non-trivial: at least three operations".into(),
        samples,
        more,
        assumptions: vec!["Miri and AddressSanitizer of the nightly toolchain detect the undefined behaviour which is executed".into()],
        violations: lines.len(),
        start,
    }
    .write();
    for l in &lines {
        println!("{l}");
    }
    if !lines.is_empty() {
        exit(1);
    }
    if let Some(e) = errors.first() {
        eprintln!("C10: {e}");
        exit(2);
    }
    println!("C10: held on {evaluations} cases over {} pairs of types in {:.1} s", pairs.len(), start.elapsed().as_secs_f64());
}
