//! Driving of checks: worker processes generate, run and shrink cases; the
//! supervisor collects their counts, turns crashes into failures and reports.
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::process::{exit, Child, Command, Stdio};
use std::time::{Duration, Instant};

use proptest::test_runner::{Config, RngAlgorithm, TestCaseError, TestError, TestRng, TestRunner};
use serde::{Deserialize, Serialize};

use crate::case::{strategy, Case};

/// What is observed while a case runs.
#[derive(Default)]
pub struct Obs {
    /// Set by the check if the case exercised what the property is about.
    pub nontrivial: bool,
    pub classes: BTreeMap<&'static str, u64>,
    known: BTreeMap<&'static str, u64>,
    trace: Option<Vec<String>>,
}

impl Obs {
    pub fn class(&mut self, c: &'static str) {
        *self.classes.entry(c).or_default() += 1;
    }
    /// Note that the case ran into a listed finding.
    pub fn known(&mut self, id: &'static str) {
        *self.known.entry(id).or_default() += 1;
    }
    pub fn log(&mut self, f: impl FnOnce() -> String) {
        if let Some(t) = &mut self.trace {
            if t.len() < 60 {
                t.push(f());
            }
        }
    }
}

pub type Res = Result<(), String>;
pub type RunFn = Box<dyn Fn(&Case, &mut Obs) -> Res>;

pub struct Subject {
    /// The key type (or pair of types, ...) the cases run against.
    pub name: String,
    /// Relative number of cases.
    pub weight: f64,
    pub run: RunFn,
}

pub struct Check {
    pub id: &'static str,
    pub rule: &'static str,
    pub subjects: Vec<Subject>,
    /// Cases per subject.
    pub quick: u32,
    pub thorough: u32,
    pub max_focus: usize,
    pub max_ops: usize,
    pub assumptions: Vec<&'static str>,
}

impl Check {
    pub fn new(id: &'static str, rule: &'static str) -> Check {
        Check { id, rule, subjects: Vec::new(), quick: 200, thorough: 4000, max_focus: 12, max_ops: 40, assumptions: Vec::new() }
    }
    pub fn add(&mut self, name: impl Into<String>, run: impl Fn(&Case, &mut Obs) -> Res + 'static) {
        self.subjects.push(Subject { name: name.into(), weight: 1.0, run: Box::new(run) });
    }
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

#[derive(Serialize, Deserialize, Clone)]
pub struct Failure {
    pub subject: String,
    pub case: Case,
    pub reason: String,
    pub trace: Vec<String>,
}

#[derive(Serialize, Deserialize, Default)]
struct Report {
    evaluations: u64,
    nontrivial: u64,
    distinct_nontrivial: u64,
    classes: BTreeMap<String, u64>,
    known: BTreeMap<String, u64>,
    samples: Vec<serde_json::Value>,
    failures: Vec<Failure>,
}

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let p = info.payload();
        let msg = if let Some(s) = p.downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = p.downcast_ref::<String>() {
            s.clone()
        } else {
            "(injected)".to_string()
        };
        let loc = info.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC.try_with(|c| *c.borrow_mut() = Some(format!("{msg}{loc}")));
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|c| c.borrow_mut().take()).unwrap_or_default()
}

/// The description of a finding of this property which is listed as known.
pub fn known_finding(property: &str, id: &str) -> Option<String> {
    let text = std::fs::read_to_string("/verif/known_findings.txt").unwrap_or_default();
    let head = format!("known: property={property} id={id} ");
    text.lines().find_map(|l| l.strip_prefix(&head).map(str::to_string))
}

/// How often a case was started.
static STARTED: AtomicU64 = AtomicU64::new(0);
/// With what a process ends whose case does not come to an end.
const HANGS: i32 = 87;

/// End the process if a case takes much longer than any does: they take
/// milliseconds. Counted in ticks, so that a suspended machine does not count.
fn watchdog(ticks: u32, replay: Option<String>) {
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(Duration::from_millis(250));
            let now = STARTED.load(Ordering::Relaxed);
            same = if now == last { same + 1 } else { 0 };
            last = now;
            if now > 0 && same > ticks * 4 {
                if let Some(line) = &replay {
                    println!("failed: the case does not come to an end\n{line}");
                    exit(1);
                }
                exit(HANGS);
            }
        }
    });
}

/// Run one case, turning panics into failures.
fn run_case(s: &Subject, case: &Case, obs: &mut Obs) -> Res {
    STARTED.fetch_add(1, Ordering::Relaxed);
    crate::val::reset();
    let r = match catch_unwind(AssertUnwindSafe(|| (s.run)(case, obs))) {
        Ok(r) => r,
        Err(_) => Err(format!("unexpected panic: {}", last_panic())),
    };
    let errs = crate::val::errors();
    if !errs.is_empty() {
        let extra = r.err().map(|e| format!("; {e}")).unwrap_or_default();
        return Err(format!("{}{}", errs.join("; "), extra));
    }
    r
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}

pub fn tier() -> &'static str {
    match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => "thorough",
        _ => "quick",
    }
}

pub fn fnv(parts: &[&str]) -> u64 {
    let mut h: u64 = 0xcbf29ce484222325;
    for p in parts {
        for b in p.bytes().chain([0xff]) {
            h = (h ^ u64::from(b)).wrapping_mul(0x100000001b3);
        }
    }
    h
}

pub fn rng_for(id: &str, subject: &str) -> TestRng {
    let mut r = crate::gen::Rng(fnv(&[id, subject, &seed().to_string()]));
    let mut bytes = [0u8; 32];
    for c in bytes.chunks_mut(8) {
        c.copy_from_slice(&r.next().to_le_bytes());
    }
    TestRng::from_seed(RngAlgorithm::ChaCha, &bytes)
}

pub fn work_dir(id: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("FM_WORK").unwrap_or_else(|_| "/verif/work".into())).join(id);
    std::fs::create_dir_all(&d).unwrap();
    d
}

struct Current {
    file: std::fs::File,
}

impl Current {
    fn open(p: &Path) -> Current {
        Current { file: std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(p).unwrap() }
    }
    fn set(&mut self, subject: usize, case: &Case) {
        use std::os::unix::fs::FileExt;
        let body = serde_json::to_vec(&(subject, case)).unwrap();
        let mut buf = format!("{:010}\n", body.len()).into_bytes();
        buf.extend(body);
        let _ = self.file.write_all_at(&buf, 0);
    }
    fn read(p: &Path) -> Option<(usize, Case)> {
        let data = std::fs::read(p).ok()?;
        let n: usize = std::str::from_utf8(data.get(..10)?).ok()?.parse().ok()?;
        serde_json::from_slice(data.get(11..11 + n)?).ok()
    }
}

fn traced(s: &Subject, case: &Case) -> (Vec<String>, Res, Obs) {
    let mut obs = Obs { trace: Some(Vec::new()), ..Obs::default() };
    let r = run_case(s, case, &mut obs);
    let t = obs.trace.take().unwrap_or_default();
    (t, r, obs)
}

fn worker(check: &Check, index: usize, of: usize, out: &Path, cur: &Path) {
    let mut report = Report::default();
    let mut current = Current::open(cur);
    let base = if tier() == "thorough" { check.thorough } else { check.quick };
    for (si, s) in check.subjects.iter().enumerate() {
        if si % of != index {
            continue;
        }
        let cases = ((f64::from(base) * s.weight) as u32).max(1);
        let config = Config { cases, failure_persistence: None, max_shrink_iters: 4000, max_shrink_time: 15_000, verbose: 0, ..Config::default() };
        let mut runner = TestRunner::new_with_rng(config, rng_for(check.id, &s.name));
        let strat = strategy(check.max_focus, check.max_ops);
        let state = RefCell::new((&mut report, HashSet::<u64>::new(), &mut current, false));
        let mut kept: Vec<Case> = Vec::new();
        let kept_ref = RefCell::new(&mut kept);
        let result = runner.run(&strat, |case| {
            let mut st = state.borrow_mut();
            let (report, distinct, current, failed) = &mut *st;
            current.set(si, &case);
            let mut obs = Obs::default();
            let r = run_case(s, &case, &mut obs);
            if !*failed {
                report.evaluations += 1;
                if obs.nontrivial {
                    report.nontrivial += 1;
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    case.hash(&mut h);
                    if distinct.insert(h.finish()) && distinct.len() == 7 {
                        kept_ref.borrow_mut().push(case.clone());
                    }
                }
                for (c, n) in obs.known {
                    *report.known.entry(c.into()).or_default() += n;
                }
                for (c, n) in obs.classes {
                    *report.classes.entry(c.into()).or_default() += n;
                }
            }
            r.map_err(|e| {
                *failed = true;
                TestCaseError::fail(e)
            })
        });
        let n = state.borrow().1.len() as u64;
        report.distinct_nontrivial += n;
        for case in kept {
            if report.samples.len() < 4 {
                let (t, r, _) = traced(s, &case);
                report.samples.push(serde_json::json!({"subject": s.name, "case": t, "outcome": match r { Ok(()) => "held".to_string(), Err(e) => e }}));
            }
        }
        match result {
            Ok(()) => {}
            Err(TestError::Fail(_, case)) => {
                let (t, r, _) = traced(s, &case);
                let reason = r.err().unwrap_or_else(|| "failure did not reproduce".into());
                report.failures.push(Failure { subject: s.name.clone(), case, reason, trace: t });
                break;
            }
            Err(TestError::Abort(r)) => {
                eprintln!("{}: generation aborted: {r}", check.id);
                exit(2);
            }
        }
    }
    std::fs::write(out, serde_json::to_vec(&report).unwrap()).unwrap();
}

const CRASH_SIGNALS: &[i32] = &[4, 5, 6, 7, 8, 11]; // ILL TRAP ABRT BUS FPE SEGV

fn crashed(st: &std::process::ExitStatus) -> Option<String> {
    if let Some(s) = st.signal() {
        if CRASH_SIGNALS.contains(&s) {
            return Some(format!("the process died with signal {s}"));
        }
    }
    if st.code() == Some(86) {
        return Some("sanitizer report".into());
    }
    if st.code() == Some(HANGS) {
        return Some("the case does not come to an end".into());
    }
    None
}

fn wait_until(child: &mut Child, deadline: Instant) -> Option<std::process::ExitStatus> {
    loop {
        match child.try_wait() {
            Ok(Some(s)) => return Some(s),
            Ok(None) if Instant::now() < deadline => std::thread::sleep(Duration::from_millis(5)),
            _ => {
                let _ = child.kill();
                let _ = child.wait();
                return None;
            }
        }
    }
}

/// Run a single case in a process of its own: Some(reason) if it fails.
fn probe(check: &Check, f: &Failure, dir: &Path) -> Option<String> {
    let p = dir.join("probe.json");
    std::fs::write(&p, serde_json::to_vec(&serde_json::json!({"property": check.id, "subject": f.subject, "case": f.case})).unwrap()).unwrap();
    let mut c = Command::new(std::env::current_exe().unwrap())
        .arg("--case").arg(&p)
        .stdout(Stdio::null()).stderr(Stdio::null())
        .spawn().unwrap();
    let st = wait_until(&mut c, Instant::now() + Duration::from_secs(40))?;
    if let Some(c) = crashed(&st) {
        return Some(c);
    }
    if st.code() == Some(1) {
        return Some("the case fails".into());
    }
    None
}

/// Shrink a crashing case by deleting and simplifying its parts.
fn shrink_crash(check: &Check, mut f: Failure, dir: &Path) -> Failure {
    let end = Instant::now() + Duration::from_secs(60);
    let mut size = (f.case.ops.len() / 2).max(1);
    loop {
        let mut i = 0;
        let mut progress = false;
        while i < f.case.ops.len() && Instant::now() < end {
            let mut g = f.clone();
            let to = (i + size).min(g.case.ops.len());
            g.case.ops.drain(i..to);
            if let Some(r) = probe(check, &g, dir) {
                g.reason = r;
                f = g;
                progress = true;
            } else {
                i += size;
            }
        }
        if Instant::now() >= end || (size == 1 && !progress) {
            break;
        }
        size = (size / 2).max(1);
    }
    let mut i = 0;
    while i < f.case.focus.len() && f.case.focus.len() > 1 && Instant::now() < end {
        let mut g = f.clone();
        g.case.focus.remove(i);
        if let Some(r) = probe(check, &g, dir) {
            g.reason = r;
            f = g;
        } else {
            i += 1;
        }
    }
    f
}

fn spawn_worker(i: usize, n: usize, out: &Path, cur: &Path) -> Child {
    Command::new(std::env::current_exe().unwrap())
        .arg("--worker").arg(i.to_string()).arg(n.to_string()).arg(out).arg(cur)
        .stdout(Stdio::null())
        .spawn()
        .unwrap()
}

pub fn write_replay(id: &str, v: &serde_json::Value) -> PathBuf {
    let dir = PathBuf::from("/verif/replays");
    std::fs::create_dir_all(&dir).unwrap();
    let body = serde_json::to_string_pretty(v).unwrap();
    let p = dir.join(format!("{id}-{:016x}.json", fnv(&[&body])));
    std::fs::write(&p, body).unwrap();
    p
}

pub struct Evidence {
    pub id: &'static str,
    pub evaluations: u64,
    pub distinct_nontrivial: u64,
    pub rule: String,
    pub samples: Vec<serde_json::Value>,
    pub more: serde_json::Map<String, serde_json::Value>,
    pub assumptions: Vec<String>,
    pub violations: usize,
    pub start: Instant,
}

impl Evidence {
    pub fn write(&self) {
        let mut cov = serde_json::json!({
            "evaluations": self.evaluations,
            "distinct_nontrivial": self.distinct_nontrivial,
            "rule": self.rule,
            "samples": self.samples,
        });
        for (k, v) in &self.more {
            cov[k] = v.clone();
        }
        let v = serde_json::json!({
            "property": self.id,
            "tier": tier(),
            "seed": seed(),
            "level": "exploration",
            "coverage": cov,
            "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(),
            "violations": self.violations,
        });
        let dir = PathBuf::from("/verif/evidence");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::write(dir.join(format!("{}.json", self.id)), serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
    }
}

fn load(check: &Check, p: &str) -> (usize, Case) {
    let v: serde_json::Value = serde_json::from_slice(&std::fs::read(p).expect("replay file")).expect("replay file");
    let name = v["subject"].as_str().unwrap_or_default().to_string();
    let Some(si) = check.subjects.iter().position(|s| s.name == name) else {
        eprintln!("no subject {name} in this build (shapes depend on VERIF_SEED)");
        exit(2);
    };
    (si, serde_json::from_value(v["case"].clone()).expect("case"))
}

/// Entry point of every check.
pub fn main(check: Check) -> ! {
    let start = Instant::now();
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("--worker") => {
            quiet_panics();
            watchdog(40, None);
            worker(&check, args[2].parse().unwrap(), args[3].parse().unwrap(), Path::new(&args[4]), Path::new(&args[5]));
            exit(0);
        }
        Some("--case") => {
            quiet_panics();
            watchdog(10, None);
            let (si, case) = load(&check, &args[2]);
            let r = run_case(&check.subjects[si], &case, &mut Obs::default());
            exit(i32::from(r.is_err()));
        }
        Some("--replay") => {
            quiet_panics();
            watchdog(60, Some(format!("VIOLATION property={} replay={}", check.id, args[2])));
            let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
            if let (Some(i), Some(n)) = (v["campaign"]["worker"].as_u64(), v["campaign"]["of"].as_u64()) {
                let dir = work_dir(check.id);
                let mut c = spawn_worker(i as usize, n as usize, &dir.join("replay.out"), &dir.join("replay.cur"));
                match c.wait().ok().and_then(|st| crashed(&st)) {
                    Some(why) => {
                        println!("failed: {why}");
                        println!("VIOLATION property={} replay={}", check.id, args[2]);
                        exit(1)
                    }
                    None => {
                        println!("held");
                        exit(0)
                    }
                }
            }
            let (si, case) = load(&check, &args[2]);
            println!("subject {}", check.subjects[si].name);
            let (t, r, _) = traced(&check.subjects[si], &case);
            for l in t {
                println!("  {l}");
            }
            match r {
                Ok(()) => {
                    println!("held");
                    exit(0)
                }
                Err(e) => {
                    println!("failed: {e}");
                    println!("VIOLATION property={} replay={}", check.id, args[2]);
                    exit(1)
                }
            }
        }
        _ => {}
    }

    let dir = work_dir(check.id);
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).clamp(2, 16).min(check.subjects.len().max(1));
    let limit = Duration::from_secs(if tier() == "thorough" { 6 * 3600 } else { 700 });
    let deadline = start + limit;
    let mut children = Vec::new();
    for i in 0..n {
        let out = dir.join(format!("{i}.out"));
        let cur = dir.join(format!("{i}.cur"));
        let _ = std::fs::remove_file(&out);
        let child = spawn_worker(i, n, &out, &cur);
        children.push((child, out, cur));
    }
    let mut total = Report::default();
    let mut error = None;
    let mut crashes = 0;
    let mut campaigns: Vec<(usize, String)> = Vec::new();
    for (i, (mut child, out, cur)) in children.into_iter().enumerate() {
        let st = wait_until(&mut child, deadline);
        match st {
            None => error = Some("a worker did not finish in time".to_string()),
            Some(st) if st.success() => {
                let r: Report = serde_json::from_slice(&std::fs::read(&out).unwrap()).unwrap();
                total.evaluations += r.evaluations;
                total.nontrivial += r.nontrivial;
                total.distinct_nontrivial += r.distinct_nontrivial;
                for (c, n) in r.known {
                    *total.known.entry(c).or_default() += n;
                }
                for (c, n) in r.classes {
                    *total.classes.entry(c).or_default() += n;
                }
                total.samples.extend(r.samples.into_iter().take(2));
                total.failures.extend(r.failures);
            }
            Some(st) => match (crashed(&st), Current::read(&cur)) {
                // More of the same: those that were shrunk suffice.
                (Some(_), Some(_)) if crashes >= 2 => {}
                (Some(why), Some((si, case))) => {
                    crashes += 1;
                    let f = Failure { subject: check.subjects[si].name.clone(), case, reason: why.clone(), trace: vec![] };
                    match probe(&check, &f, &dir) {
                        Some(r) => total.failures.push(shrink_crash(&check, Failure { reason: r, ..f }, &dir)),
                        None => {
                            // Corrupted by an earlier case: the reproduction is the campaign.
                            let mut again = spawn_worker(i, n, &out, &cur);
                            match wait_until(&mut again, deadline).and_then(|st| crashed(&st)) {
                                Some(why) => campaigns.push((i, why)),
                                None => error = Some(format!("{why}, but the case does not fail on its own")),
                            }
                        }
                    }
                }
                _ => error = Some(format!("a worker ended with {st}")),
            },
        }
    }
    total.samples.truncate(8);
    let mut more = serde_json::Map::new();
    more.insert("nontrivial".into(), total.nontrivial.into());
    more.insert("subjects".into(), check.subjects.len().into());
    more.insert("classes".into(), serde_json::to_value(&total.classes).unwrap());
    more.insert("known_findings".into(), serde_json::to_value(&total.known).unwrap());
    for (k, n) in &total.known {
        if let Some(text) = known_finding(check.id, k) {
            println!("KNOWN-FINDING: property={} {text} [{n} cases]", check.id);
        }
    }
    let ev = Evidence {
        id: check.id,
        evaluations: total.evaluations,
        distinct_nontrivial: total.distinct_nontrivial,
        rule: check.rule.into(),
        samples: total.samples,
        more,
        assumptions: check.assumptions.iter().map(|s| s.to_string()).collect(),
        violations: total.failures.len() + campaigns.len(),
        start,
    };
    ev.write();
    for f in &total.failures {
        let p = write_replay(check.id, &serde_json::json!({"property": check.id, "subject": f.subject, "reason": f.reason, "trace": f.trace, "case": f.case, "seed": seed()}));
        println!("{}: {}", f.subject, f.reason);
        for l in &f.trace {
            println!("    {l}");
        }
        println!("VIOLATION property={} replay={}", check.id, p.display());
    }
    for (i, why) in &campaigns {
        let p = write_replay(check.id, &serde_json::json!({"property": check.id, "campaign": {"worker": i, "of": n}, "reason": why, "seed": seed()}));
        println!("worker {i} of {n}: {why}");
        println!("VIOLATION property={} replay={}", check.id, p.display());
    }
    let _ = std::io::stdout().flush();
    if !total.failures.is_empty() || !campaigns.is_empty() {
        exit(1);
    }
    if let Some(e) = error {
        eprintln!("{}: {e}", check.id);
        exit(2);
    }
    println!("{}: held on {} cases ({} distinct non-trivial) over {} key types in {:.1} s", check.id, total.evaluations, total.distinct_nontrivial, check.subjects.len(), start.elapsed().as_secs_f64());
    exit(0);
}
