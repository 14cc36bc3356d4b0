//! C24: behaviour does not depend on the enabled features.
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

use progs::decl::{self, Item};
use progs::report::{self, Evidence};
use progs::rustc::{self, Built};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{Strategy, ValueTree};
use serde_json::json;

const TYPES: usize = 51;
const FIXED: usize = 32;

#[derive(Clone, Copy, PartialEq, Eq)]
struct Config {
    std: bool,
    hashbrown: bool,
    serde: bool,
}

impl Config {
    fn all() -> Vec<Config> {
        // All features first: what the others are compared with.
        (0..8).rev().map(|i| Config { std: i & 1 != 0, hashbrown: i & 2 != 0, serde: i & 4 != 0 }).collect()
    }
    fn features(self) -> String {
        let mut v = Vec::new();
        for (on, n) in [(self.std, "with_std"), (self.hashbrown, "with_hashbrown"), (self.serde, "with_serde")] {
            if on {
                v.push(n);
            }
        }
        v.join(",")
    }
    fn name(self) -> String {
        match self.features().replace("with_", "") {
            n if n.is_empty() => "no features".into(),
            n => n,
        }
    }
    fn dir(self, root: &Path, what: &str) -> PathBuf {
        let n = self.features().replace("with_", "").replace(',', "-");
        root.join(format!("target/features/{what}-{}", if n.is_empty() { "none" } else { &n }))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Case {
    ty: u8,
    focus: Vec<u8>,
    ops: Vec<(u8, u8, u8)>,
}

impl Case {
    fn line(&self) -> String {
        let mut s = format!("{} ", self.ty);
        for (k, key, a) in &self.ops {
            // Histories over a few keys.
            let key = match self.focus.len() {
                0 => *key,
                n if key % 4 != 3 => self.focus[usize::from(*key >> 2) % n],
                _ => *key,
            };
            s += &format!("{k:02x}{key:02x}{a:02x}");
        }
        s
    }
}

fn case() -> impl Strategy<Value = Case> {
    (0..TYPES as u8, vec(any::<u8>(), 0..6), vec((any::<u8>(), any::<u8>(), any::<u8>()), 1..48)).prop_map(|(ty, focus, ops)| Case { ty, focus, ops })
}

/// What came of a history: digests, or how it ended.
type Trace = Result<(String, String), String>;

struct Tracer {
    config: Config,
    exe: PathBuf,
}

impl Tracer {
    fn call(&self, file: &Path, lines: &[String], full: bool) -> Result<String, String> {
        std::fs::write(file, lines.join("\n") + "\n").unwrap();
        let mut c = Command::new("sh");
        // A history which takes all memory is to end its own process only.
        c.arg("-c").arg("ulimit -v 4000000; exec \"$0\" \"$@\"").arg(&self.exe).arg(file);
        if full {
            c.arg("full");
        }
        let (st, out, err) = rustc::limited(c, Duration::from_secs(if lines.len() == 1 { 10 } else { 60 + lines.len() as u64 / 20 }));
        let _ = std::fs::remove_file(file);
        match st {
            None => Err("it does not come to an end".into()),
            Some(s) if s.success() => Ok(String::from_utf8_lossy(&out).to_string()),
            Some(s) => Err(format!("it ended with {s}: {}", String::from_utf8_lossy(&err).chars().take(300).collect::<String>())),
        }
    }
    fn traces(&self, file: &Path, lines: &[String], budget: &mut u32) -> Vec<Option<Trace>> {
        match self.call(file, lines, false) {
            Ok(out) => {
                let v: Vec<_> = out.lines().map(|l| l.split_once(' ').map(|(a, b)| Ok((a.to_string(), b.to_string())))).collect();
                assert_eq!(v.len(), lines.len(), "lines of traces");
                v
            }
            Err(e) if lines.len() == 1 => vec![Some(Err(e))],
            Err(_) if *budget == 0 => vec![None; lines.len()],
            Err(_) => {
                *budget -= 1;
                let (a, b) = lines.split_at(lines.len() / 2);
                let mut v = self.traces(file, a, budget);
                v.extend(self.traces(file, b, budget));
                v
            }
        }
    }
    fn one(&self, file: &Path, line: &str) -> Option<Trace> {
        self.traces(file, &[line.to_string()], &mut 0).pop().unwrap()
    }
}

fn differ(a: &(Config, Option<Trace>), b: &(Config, Option<Trace>)) -> bool {
    match (&a.1, &b.1) {
        (Some(Ok(x)), Some(Ok(y))) => x.0 != y.0 || (a.0.serde && b.0.serde && x.1 != y.1),
        (Some(Ok(_)), Some(Err(_))) | (Some(Err(_)), Some(Ok(_))) => true,
        _ => false,
    }
}

/// The first line where two traces differ, and what leads to it.
fn explain(a: &Tracer, b: &Tracer, file: &Path, line: &str) -> (String, String) {
    let full = |t: &Tracer| match t.call(file, &[line.to_string()], true) {
        Ok(s) => s,
        Err(e) => e,
    };
    let (x, y) = (full(a), full(b));
    let serde = a.config.serde && b.config.serde;
    let cut = |s: &str| if serde { s.to_string() } else { s.split("\n--\n").next().unwrap().to_string() };
    (cut(&x), cut(&y))
}

/// Libraries of one configuration without std.
struct Bare {
    config: Config,
    built: Built,
}

impl Bare {
    fn run(&self, dir: &Path, stem: &str, items: &[(usize, &Item)]) -> Result<Vec<(usize, Result<(), String>)>, String> {
        let src = dir.join(format!("{stem}.rs"));
        let bin = dir.join(format!("{stem}.bin"));
        std::fs::write(&src, bare_program(items)).unwrap();
        let o = rustc::rustc(
            &self.built,
            &["fixed_map", "vsupport"],
            &src,
            Some(&bin),
            &["--edition=2021", "-Cpanic=abort", "-Cdebuginfo=0", "-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Clink-arg=-lc"],
        );
        if !o.ok {
            return Err(format!("{}{}", o.broken.clone().unwrap_or_default(), o.rendered()));
        }
        let (st, out, err) = rustc::limited(Command::new(&bin), Duration::from_secs(60));
        let _ = std::fs::remove_file(&bin);
        let mut res = Vec::new();
        let mut started = None;
        let mut panic = String::new();
        for l in String::from_utf8_lossy(&out).lines() {
            let mut p = l.splitn(3, ' ');
            let (w, n) = (p.next().unwrap_or_default(), p.next().and_then(|n| n.parse::<usize>().ok()));
            match (w, n) {
                ("start", n) => started = n,
                ("ok", Some(n)) => {
                    res.push((n, Ok(())));
                    started = None;
                }
                ("fail", Some(n)) => {
                    res.push((n, Err(p.next().unwrap_or_default().to_string())));
                    started = None;
                }
                _ => panic += l,
            }
        }
        if let Some(n) = started {
            res.push((n, Err(format!("{} {panic} {}", st.map_or("it does not come to an end".into(), |s| s.to_string()), String::from_utf8_lossy(&err)))));
        }
        Ok(res)
    }
}

fn bare_program(items: &[(usize, &Item)]) -> String {
    let text = decl::program(items, false);
    let text = text.replace("::std::string::String", "::vsupport::Text").replace("::std::option", "::core::option");
    let text = text.replace("#![allow(warnings)]\n", "#![allow(warnings)]\n#![no_std]\n#![no_main]\n");
    text.replace("fn main() {\n", "#[no_mangle]\npub extern \"C\" fn main() -> i32 {\n").replace("    ]);\n}\n", "    ]);\n    0\n}\n")
}

/// The same item with the standard library and all features.
fn full_program(built: &Built, dir: &Path, stem: &str, item: &Item) -> Result<(), String> {
    let src = dir.join(format!("{stem}.rs"));
    let bin = dir.join(format!("{stem}.bin"));
    std::fs::write(&src, decl::program(&[(0, item)], false)).unwrap();
    let o = rustc::rustc(built, &["fixed_map", "vsupport"], &src, Some(&bin), &["--edition=2021", "-Cdebuginfo=0", "-Copt-level=0"]);
    if !o.ok {
        return Err(o.rendered());
    }
    let (_, out, _) = rustc::limited(Command::new(&bin), Duration::from_secs(60));
    let _ = std::fs::remove_file(&bin);
    let out = String::from_utf8_lossy(&out).to_string();
    if out.contains("ok 0") {
        Ok(())
    } else {
        Err(out)
    }
}

/// Is everything the item declares there in a configuration?
fn available(item: &Item, c: Config) -> bool {
    c.hashbrown || decl::resolve(item, "m").decls.iter().all(|d| d.1.fixed)
}

fn fail(what: &str, v: serde_json::Value) -> ! {
    let p = report::write_replay("C24", &v);
    println!("{what}\nVIOLATION property=C24 replay={}", p.display());
    exit(1)
}

fn main() {
    let start = Instant::now();
    let dir = report::work_dir("C24");
    let root = report::root();
    let args: Vec<String> = std::env::args().collect();
    let configs = Config::all();

    // Everything, in every configuration.
    let jobs: Vec<(Config, &str)> = configs.iter().map(|c| (*c, "tracer")).chain(configs.iter().filter(|c| !c.std).map(|c| (*c, "bare"))).collect();
    let made = rustc::parallel(jobs.len(), |i| {
        let (c, what) = jobs[i];
        let manifest = root.join(if what == "tracer" { "features/Cargo.toml" } else { "features/nostd/Cargo.toml" });
        rustc::cargo_build(&manifest, &c.dir(&root, what), &["--no-default-features", "--features", &c.features()])
    });
    let mut tracers = Vec::new();
    let mut bares = Vec::new();
    let mut failed: Vec<(Config, &str, String)> = Vec::new();
    for ((c, what), r) in jobs.iter().zip(made) {
        match r {
            Ok(b) if *what == "tracer" => tracers.push(Tracer { config: *c, exe: b.exes.first().expect("an executable").clone() }),
            Ok(b) => bares.push(Bare { config: *c, built: b }),
            Err(e) => failed.push((*c, what, e)),
        }
    }
    if failed.iter().any(|f| f.1 == "tracer" && f.0 == configs[0]) {
        eprintln!("C24: it does not build with all features: {}", failed[0].2);
        exit(2);
    }
    if let Some((c, what, e)) = failed.first() {
        let e: String = e.chars().take(4000).collect();
        let text = format!("with {} ({what}), it does not build, while it does with all features:\n{e}", c.name());
        fail(&text, json!({"property": "C24", "kind": "build", "features": c.name(), "reason": text}));
    }
    if args.get(1).map(String::as_str) == Some("--build") {
        let _ = std::fs::remove_dir_all(&dir);
        return;
    }
    let full = rustc::cargo_build(&root.join("progs-support/Cargo.toml"), &root.join("target/progs"), &[]).unwrap_or_else(|e| {
        eprintln!("C24: the support of generated programs does not build: {e}");
        exit(2);
    });

    if args.get(1).map(String::as_str) == Some("--replay") {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
        let bad = match v["kind"].as_str().unwrap_or_default() {
            "history" => {
                let line = v["history"].as_str().expect("history");
                let t: Vec<_> = tracers.iter().map(|t| (t.config, t.one(&dir.join("replay"), line))).collect();
                t.iter().enumerate().any(|(i, a)| t[..i].iter().any(|b| differ(a, b)))
            }
            "program" => {
                let c = v["features"].as_str().unwrap_or_default();
                let b = bares.iter().find(|b| b.config.name() == c).expect("the configuration");
                let src = dir.join("replay.rs");
                let bin = dir.join("replay.bin");
                std::fs::write(&src, v["program"].as_str().expect("program")).unwrap();
                let o = rustc::rustc(&b.built, &["fixed_map", "vsupport"], &src, Some(&bin), &["--edition=2021", "-Cpanic=abort", "-Clink-arg=-lc"]);
                !o.ok || {
                    let (_, out, _) = rustc::limited(Command::new(&bin), Duration::from_secs(60));
                    !String::from_utf8_lossy(&out).contains("ok 0")
                }
            }
            // It builds, as we got here.
            _ => false,
        };
        if bad {
            println!("failed\nVIOLATION property=C24 replay={}", args[2]);
            exit(1)
        }
        println!("held");
        exit(0)
    }

    // Histories.
    let count = if report::thorough() { 400_000 } else { 16_000 };
    let chunk = 1000;
    let strategy = case();
    let mut runner = report::runner("C24", "histories");
    let cases: Vec<Case> = (0..count).map(|_| strategy.new_tree(&mut runner).unwrap().current()).collect();
    let lines: Vec<String> = cases.iter().map(Case::line).collect();
    let chunks = count / chunk;
    let results = rustc::parallel(chunks * tracers.len(), |i| {
        let (c, t) = (i / tracers.len(), &tracers[i % tracers.len()]);
        t.traces(&dir.join(format!("h{i}")), &lines[c * chunk..(c + 1) * chunk], &mut 40)
    });
    let mut differing: Vec<(usize, usize, usize)> = Vec::new();
    let mut evaluations = 0u64;
    let mut traces = 0u64;
    let mut distinct = HashSet::new();
    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut unanswered = 0u64;
    for (n, case) in cases.iter().enumerate() {
        let of: Vec<_> = (0..tracers.len()).map(|t| (tracers[t].config, results[(n / chunk) * tracers.len() + t][n % chunk].clone())).collect();
        let got = of.iter().filter(|t| t.1.is_some()).count();
        let expect = if usize::from(case.ty) < FIXED { 8 } else { 4 };
        if got < expect {
            unanswered += 1;
        }
        traces += got as u64;
        evaluations += 1;
        *classes.entry(if expect == 8 { "fixed keys, 8 configurations".into() } else { "dynamic keys, 4 configurations".into() }).or_default() += 1;
        if case.ops.len() >= 3 {
            distinct.insert(&lines[n]);
        }
        'pairs: for (i, a) in of.iter().enumerate() {
            for (j, b) in of[..i].iter().enumerate() {
                if differ(a, b) {
                    differing.push((n, j, i));
                    break 'pairs;
                }
            }
        }
    }
    // A few, shrunk.
    let mut violations: Vec<(String, serde_json::Value)> = Vec::new();
    differing.sort_by_key(|d| cases[d.0].ops.len());
    let total = differing.len();
    let mut kinds = HashSet::new();
    let end = Instant::now() + Duration::from_secs(if report::thorough() { 300 } else { 60 });
    for (n, j, i) in differing {
        if violations.len() >= 3 || !kinds.insert((j, i)) {
            continue;
        }
        let (a, b) = (&tracers[j], &tracers[i]);
        let file = dir.join("shrink");
        let bad = |c: &Case| {
            let l = c.line();
            differ(&(a.config, a.one(&file, &l)), &(b.config, b.one(&file, &l)))
        };
        let mut runner = report::runner("C24", "histories");
        let mut tree = (0..=n).map(|_| strategy.new_tree(&mut runner).unwrap()).last().unwrap();
        let mut best = cases[n].clone();
        if tree.simplify() {
            while Instant::now() < end {
                let cur = tree.current();
                let go = if bad(&cur) {
                    best = cur;
                    tree.simplify()
                } else {
                    tree.complicate()
                };
                if !go {
                    break;
                }
            }
        }
        let line = best.line();
        let (x, y) = explain(a, b, &file, &line);
        let text = format!("the history {line} differs.\nWith {}:\n{x}\nWith {}:\n{y}", a.config.name(), b.config.name());
        violations.push((text, json!({"property": "C24", "kind": "history", "history": line, "features": [a.config.name(), b.config.name()], "traces": [x, y], "seed": report::seed()})));
    }

    // Programs without std.
    let batches = if report::thorough() { 120 } else { 8 };
    let per = 16;
    let items_of = decl::item();
    let mut runner = report::runner("C24", "programs");
    let mut items: Vec<Vec<Item>> = Vec::new();
    for b in 0..batches {
        let c = bares[b % bares.len()].config;
        let mut v = Vec::new();
        while v.len() < per {
            let i = items_of.new_tree(&mut runner).unwrap().current();
            if available(&i, c) {
                v.push(i);
            }
        }
        items.push(v);
    }
    let outcomes: Vec<Vec<(usize, usize, Option<String>)>> = rustc::parallel(batches, |b| {
        let bare = &bares[b % bares.len()];
        let list: Vec<(usize, &Item)> = items[b].iter().enumerate().collect();
        let mut out = Vec::new();
        let all = bare.run(&dir, &format!("p{b}"), &list).unwrap_or_default();
        let mut found = 0;
        for (i, item) in list {
            if let Some((_, Ok(()))) = all.iter().find(|x| x.0 == i) {
                out.push((b, i, None));
                continue;
            }
            if found >= 2 {
                continue;
            }
            let alone = match bare.run(&dir, &format!("p{b}_{i}"), &[(0, item)]) {
                Err(e) => Some(format!("it does not build: {e}")),
                Ok(r) => match r.first() {
                    Some((_, Ok(()))) => None,
                    Some((_, Err(e))) => Some(e.clone()),
                    None => Some("nothing was run".into()),
                },
            };
            match alone {
                None => out.push((b, i, None)),
                // Only if it is fine otherwise: C22 judges that.
                Some(e) => {
                    if full_program(&full, &dir, &format!("p{b}_{i}_full"), item).is_ok() {
                        found += 1;
                        out.push((b, i, Some(e)));
                    }
                }
            }
        }
        out
    });
    let mut programs = 0u64;
    let mut samples = Vec::new();
    let mut bad_items = Vec::new();
    for (b, i, e) in outcomes.into_iter().flatten() {
        programs += 1;
        *classes.entry(format!("items of programs without std: {}", bares[b % bares.len()].config.name())).or_default() += 1;
        match e {
            Some(e) => bad_items.push((b, i, e)),
            None => {
                if i == 3 && samples.len() < 2 {
                    let t = bare_program(&[(0, &items[b][i])]);
                    if t.len() < 2500 {
                        samples.push(json!({"program": t, "features": bares[b % bares.len()].config.name(), "outcome": "linked and run"}));
                    }
                }
            }
        }
    }
    let total_items = bad_items.len();
    bad_items.sort_by_key(|x| bare_program(&[(0, &items[x.0][x.1])]).len());
    if let Some((b, i, e)) = bad_items.first() {
        let bare = &bares[b % bares.len()];
        // Shrink.
        let mut runner = report::runner("C24", "programs");
        let mut tree = None;
        'find: for bb in 0..batches {
            let c = bares[bb % bares.len()].config;
            let mut n = 0;
            while n < per {
                let t = items_of.new_tree(&mut runner).unwrap();
                if available(&t.current(), c) {
                    if (bb, n) == (*b, *i) {
                        tree = Some(t);
                        break 'find;
                    }
                    n += 1;
                }
            }
        }
        let mut tree = tree.unwrap();
        let mut best = (tree.current(), e.clone());
        let end = Instant::now() + Duration::from_secs(if report::thorough() { 300 } else { 90 });
        let mut steps = 0;
        if tree.simplify() {
            while Instant::now() < end && steps < 200 {
                steps += 1;
                let cur = tree.current();
                let r = match bare.run(&dir, "shrink", &[(0, &cur)]) {
                    _ if !available(&cur, bare.config) => None,
                    Err(e) => Some(e),
                    Ok(r) => r.first().and_then(|x| x.1.clone().err()),
                };
                let go = match r {
                    Some(e) if full_program(&full, &dir, "shrink_full", &cur).is_ok() => {
                        best = (cur, e);
                        tree.simplify()
                    }
                    _ => tree.complicate(),
                };
                if !go {
                    break;
                }
            }
        }
        let program = bare_program(&[(0, &best.0)]);
        let text = format!("a program without std, with {} of the crate: {}\n{program}", bare.config.name(), best.1);
        violations.push((text, json!({"property": "C24", "kind": "program", "features": bare.config.name(), "program": program, "reason": best.1, "seed": report::seed()})));
    }

    // A look at what traces are like.
    for n in [5, 11] {
        if let Ok(t) = tracers[0].call(&dir.join("sample"), &[lines[n].clone()], true) {
            samples.push(json!({"history": lines[n], "trace with all features": t.chars().take(1500).collect::<String>()}));
        }
    }
    if unanswered * 20 > evaluations && violations.is_empty() {
        eprintln!("C24: {unanswered} of {evaluations} histories have no trace in some configuration");
        exit(2);
    }
    Evidence {
        id: "C24",
        evaluations: evaluations + programs,
        distinct_nontrivial: distinct.len() as u64 + programs,
        rule: "a history of at least three operations, run in every configuration its key type is available in (all traces compared), and generated declarations checked in programs without std; by their text",
        samples,
        more: json!({"classes": classes, "traces": traces, "configurations": configs.iter().map(|c| c.name()).collect::<Vec<_>>(), "histories": evaluations, "items_without_std": programs}),
        assumptions: vec![
            "over dynamic keys the order of iteration, which hashbrown randomizes, is not compared",
            "51 key types, 32 of them fixed; configurations are built without optimization",
            "without std is judged by linking programs with a panic handler of their own, and with an allocator only if hashbrown is enabled",
        ],
        violations: violations.len(),
        start,
    }
    .write();
    for (text, v) in &violations {
        let p = report::write_replay("C24", v);
        println!("{text}\nVIOLATION property=C24 replay={}", p.display());
    }
    if !violations.is_empty() {
        println!("C24: {total} of {evaluations} histories and {total_items} of {programs} items failed");
        exit(1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("C24: held on {evaluations} histories ({traces} traces) and {programs} items without std in {:.1} s", start.elapsed().as_secs_f64());
}
