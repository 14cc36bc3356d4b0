//! C22: the derive supports every documented enum shape.
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

use progs::decl::{self, Item};
use progs::report::{self, Evidence};
use progs::rustc::{self, Built};
use proptest::strategy::{Strategy, ValueTree};

const EDITIONS: &[&str] = &["2021", "2018", "2024"];

/// What is wrong with an item, if anything.
enum Verdict {
    Held,
    Broken(String),
    /// The item is not valid by itself.
    Generator(String),
}

struct Ctx {
    built: Built,
    dir: PathBuf,
}

impl Ctx {
    /// Compile and run items; what came of each, or nothing if they do not compile.
    fn run(&self, stem: &str, items: &[(usize, &Item)], edition: &str) -> Result<Vec<(usize, Result<(), String>)>, String> {
        let src = self.dir.join(format!("{stem}.rs"));
        let bin = self.dir.join(format!("{stem}.bin"));
        std::fs::write(&src, decl::program(items, false)).unwrap();
        let o = self.rustc(&src, Some(&bin), edition);
        if let Some(b) = o.broken {
            return Err(format!("{b}\n{}", o.errors.first().map(|e| e.rendered.clone()).unwrap_or_default()));
        }
        if !o.ok {
            return Err(o.rendered());
        }
        let (st, out, err) = rustc::limited(Command::new(&bin), Duration::from_secs(120));
        let out = String::from_utf8_lossy(&out);
        let mut res = Vec::new();
        let mut started = None;
        for l in out.lines() {
            let mut w = l.splitn(3, ' ');
            let (a, b, c) = (w.next().unwrap_or_default(), w.next().unwrap_or_default(), w.next().unwrap_or_default());
            let Ok(n) = b.parse::<usize>() else { continue };
            match a {
                "start" => started = Some(n),
                "ok" => {
                    res.push((n, Ok(())));
                    started = None;
                }
                _ => {
                    res.push((n, Err(c.to_string())));
                    started = None;
                }
            }
        }
        if let Some(n) = started {
            let how = match st {
                None => "does not come to an end".to_string(),
                Some(s) => format!("ended with {s}: {}", String::from_utf8_lossy(&err)),
            };
            res.push((n, Err(format!("the program {how}"))));
        }
        let _ = std::fs::remove_file(&bin);
        Ok(res)
    }

    fn rustc(&self, src: &Path, bin: Option<&Path>, edition: &str) -> rustc::Outcome {
        let ed = format!("--edition={edition}");
        rustc::rustc(&self.built, &["fixed_map", "vsupport"], src, bin, &[&ed, "-Cdebuginfo=0", "-Copt-level=0", "-Cdebug-assertions=on", "-Coverflow-checks=on"])
    }

    fn verdict(&self, stem: &str, item: &Item, edition: &str) -> Verdict {
        match self.run(stem, &[(0, item)], edition) {
            Ok(r) => match r.first() {
                Some((_, Ok(()))) => Verdict::Held,
                Some((_, Err(e))) if e.contains("GENERATOR") => Verdict::Generator(e.clone()),
                Some((_, Err(e))) => Verdict::Broken(e.clone()),
                None => Verdict::Generator("nothing was run".into()),
            },
            Err(e) => {
                let src = self.dir.join(format!("{stem}_guard.rs"));
                std::fs::write(&src, decl::program(&[(0, item)], true)).unwrap();
                let g = self.rustc(&src, None, edition);
                if g.ok {
                    Verdict::Broken(format!("it does not compile: {}", e.chars().take(3000).collect::<String>()))
                } else {
                    Verdict::Generator(g.rendered())
                }
            }
        }
    }
}

fn load_known(built: &Built, dir: &Path) -> Vec<(String, String)> {
    // Declarations which are listed as not supported: for each, what the
    // compiler says, if it still does.
    let probes: &[(&str, &str)] = &[
        ("derive-name-V", "#[derive(Clone, Copy, fixed_map::Key)] pub enum V { A, B }\n#[derive(Clone, Copy, fixed_map::Key)] pub enum E { A(V), B }\n"),
        ("derive-name-F", "#[derive(Clone, Copy, fixed_map::Key)] pub enum F { A, B }\n#[derive(Clone, Copy, fixed_map::Key)] pub enum E { A(F), B }\n"),
        ("derive-projected-payloads", "pub trait HasTy { type T; }\npub struct O; impl HasTy for O { type T = bool; }\n#[derive(Clone, Copy, fixed_map::Key)] pub enum E { A(Option<bool>), B(Option<<O as HasTy>::T>) }\n"),
        ("derive-name-VacantEntry", "#[derive(Clone, Copy, fixed_map::Key)] pub enum VacantEntry { A, B }\n"),
        ("derive-name-OccupiedEntry", "#[derive(Clone, Copy, fixed_map::Key)] pub enum OccupiedEntry { A, B }\n"),
        ("derive-name-SimpleVacantEntry", "#[derive(Clone, Copy, fixed_map::Key)] pub enum SimpleVacantEntry { A(bool), B }\n"),
        ("derive-name-SimpleOccupiedEntry", "#[derive(Clone, Copy, fixed_map::Key)] pub enum SimpleOccupiedEntry { A(bool), B }\n"),
    ];
    let mut bad = Vec::new();
    for (i, (id, text)) in probes.iter().enumerate() {
        let src = dir.join(format!("probe{i}.rs"));
        std::fs::write(&src, format!("#![allow(warnings)]\n{text}")).unwrap();
        let o = rustc::rustc(built, &["fixed_map"], &src, None, &["--edition=2021", "--crate-type=lib"]);
        if !o.ok {
            bad.push((id.to_string(), format!("{text}{}", o.rendered())));
        }
    }
    bad
}

fn main() {
    let start = Instant::now();
    let dir = report::work_dir("C22");
    let root = report::root();
    let built = match rustc::cargo_build(&root.join("progs-support/Cargo.toml"), &root.join("target/progs"), &[]) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("C22: the support of generated programs does not build: {e}");
            exit(2);
        }
    };
    let cx = Ctx { built, dir: dir.clone() };

    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--replay") {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
        let src = dir.join("replay.rs");
        let bin = dir.join("replay.bin");
        std::fs::write(&src, v["program"].as_str().expect("program")).unwrap();
        let o = cx.rustc(&src, Some(&bin), v["edition"].as_str().unwrap_or("2021"));
        let bad = if !o.ok {
            Some(o.rendered())
        } else {
            let (_, out, _) = rustc::limited(Command::new(&bin), Duration::from_secs(120));
            let out = String::from_utf8_lossy(&out).to_string();
            (!out.contains("ok 0")).then_some(out)
        };
        match bad {
            Some(b) => {
                println!("failed: {b}\nVIOLATION property=C22 replay={}", args[2]);
                exit(1)
            }
            None => {
                println!("held");
                exit(0)
            }
        }
    }

    let batches = if report::thorough() { 400 } else { 24 };
    let per = 20;
    let strategy = decl::item();
    let mut runner = report::runner("C22", "items");
    let trees: Vec<Vec<_>> = (0..batches).map(|_| (0..per).map(|_| strategy.new_tree(&mut runner).unwrap()).collect()).collect();
    let items: Vec<Vec<Item>> = trees.iter().map(|b| b.iter().map(|t| t.current()).collect()).collect();

    // Compile and run the batches; where one does not compile, each item.
    let results: Vec<Vec<(usize, usize, Verdict)>> = rustc::parallel(batches, |b| {
        let edition = EDITIONS[b % EDITIONS.len()];
        let list: Vec<(usize, &Item)> = items[b].iter().enumerate().collect();
        let mut out = Vec::new();
        let mut todo: Vec<usize> = Vec::new();
        match cx.run(&format!("b{b}"), &list, edition) {
            Ok(r) => {
                for i in 0..per {
                    match r.iter().find(|x| x.0 == i) {
                        Some((_, Ok(()))) => out.push((b, i, Verdict::Held)),
                        _ => todo.push(i),
                    }
                }
            }
            Err(_) => todo = (0..per).collect(),
        }
        let mut found = 0;
        for i in todo {
            if found >= 3 {
                break;
            }
            let v = cx.verdict(&format!("b{b}_i{i}"), &items[b][i], edition);
            if matches!(v, Verdict::Broken(_)) {
                found += 1;
            }
            out.push((b, i, v));
        }
        out
    });

    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut evaluations = 0u64;
    let mut invalid = 0;
    let mut distinct = HashSet::new();
    let mut samples = Vec::new();
    let mut broken: Vec<(usize, usize, String)> = Vec::new();
    for (b, i, v) in results.into_iter().flatten() {
        let item = &items[b][i];
        match v {
            Verdict::Held => {
                evaluations += 1;
                let r = decl::resolve(item, "m");
                let mut class = |s: String| *classes.entry(s).or_default() += 1;
                class(format!("scope: {}", r.scope));
                class(format!("edition {}", EDITIONS[b % EDITIONS.len()]));
                let mut nontrivial = false;
                for (t, f) in &r.decls {
                    class(format!("{} enum, {}", if f.unit { if f.bitset { "bitset" } else { "unit" } } else { "composite" }, if f.fixed { "fixed" } else { "dynamic" }));
                    if f.count == 0 {
                        class("no variants".into());
                    }
                    if f.count > 64 {
                        class("more than 64 variants".into());
                    }
                    if t.vars.iter().any(|v| !v.disc.is_empty()) {
                        class("explicit discriminants".into());
                    }
                    if f.nested {
                        class("in a nested module".into());
                    }
                    nontrivial |= f.values.len() >= 2;
                }
                if nontrivial {
                    distinct.insert(item.clone());
                }
                if samples.len() < 4 && nontrivial && evaluations % 7 == 3 {
                    let text = decl::render(item, "sample", false);
                    if text.len() < 2500 {
                        samples.push(serde_json::json!({"item": text, "outcome": "compiled and behaved"}));
                    }
                }
            }
            Verdict::Generator(e) => {
                invalid += 1;
                let what = format!("C22: an item is not valid by itself: {e}\n{}", decl::render(item, "m", true));
                if std::env::var_os("FM_STRICT").is_some() || invalid * 10 > batches * per {
                    eprintln!("{what}");
                    exit(2);
                }
            }
            Verdict::Broken(e) => broken.push((b, i, e)),
        }
    }

    // The findings which are listed.
    let known = report::known_findings("C22");
    let mut more_violations: Vec<(String, String)> = Vec::new();
    let mut seen: HashSet<String> = HashSet::new();
    for (id, what) in load_known(&cx.built, &dir) {
        match known.iter().find(|k| k.0 == id) {
            Some((_, text)) => {
                if seen.insert(id) {
                    println!("KNOWN-FINDING: property=C22 {text}");
                }
            }
            None => more_violations.push((id, what)),
        }
    }

    // Shrink the first few failures, of different kinds.
    let mut violations = Vec::new();
    broken.sort_by_key(|x| decl::render(&items[x.0][x.1], "m", false).len());
    let end = Instant::now() + Duration::from_secs(if report::thorough() { 600 } else { 150 });
    let total = broken.len();
    for (b, i, e) in broken.into_iter().take(2) {
        let edition = EDITIONS[b % EDITIONS.len()];
        let mut runner = report::runner("C22", "items");
        // The trees are not cloneable: make them again.
        let mut tree = None;
        for bb in 0..batches {
            for ii in 0..per {
                let t = strategy.new_tree(&mut runner).unwrap();
                if (bb, ii) == (b, i) {
                    tree = Some(t);
                }
            }
            if tree.is_some() {
                break;
            }
        }
        let mut tree = tree.unwrap();
        let mut best = (tree.current(), e);
        let mut steps = 0;
        if tree.simplify() {
            loop {
                if Instant::now() > end || steps > 300 {
                    break;
                }
                steps += 1;
                let cur = tree.current();
                let go = match cx.verdict("shrink", &cur, edition) {
                    Verdict::Broken(e) => {
                        best = (cur, e);
                        tree.simplify()
                    }
                    _ => tree.complicate(),
                };
                if !go {
                    break;
                }
            }
        }
        violations.push((best.0, best.1, edition));
    }

    let held = evaluations;
    Evidence {
        id: "C22",
        evaluations: evaluations + total as u64,
        distinct_nontrivial: distinct.len() as u64,
        rule: "an item (one to three declarations and a history over maps and sets of each) counts if some declaration has at least two values",
        samples,
        more: serde_json::json!({"classes": classes, "programs": batches, "items_not_valid_by_themselves": invalid}),
        assumptions: vec![
            "names which clash with the names the derive itself generates (types V, VacantEntry, ...; a listed finding), shadowed primitive types, and constants named func or f are not generated",
            "keys with dynamic parts are sampled at two to four values of each dynamic type",
        ],
        violations: total + more_violations.len(),
        start,
    }
    .write();
    let mut bad = false;
    for (id, what) in more_violations {
        let p = report::write_replay("C22", &serde_json::json!({"property": "C22", "program": format!("#![allow(warnings)]\n{what}"), "finding": id}));
        println!("{what}\nVIOLATION property=C22 replay={}", p.display());
        bad = true;
    }
    for (item, e, edition) in violations {
        let text = decl::render(&item, "item_0", false);
        let p = report::write_replay("C22", &serde_json::json!({"property": "C22", "reason": e, "edition": edition, "item": text, "program": decl::program(&[(0, &item)], false), "seed": report::seed()}));
        println!("{text}\n{e}\nVIOLATION property=C22 replay={}", p.display());
        bad = true;
    }
    if bad {
        println!("C22: {total} of {} items failed", held + total as u64);
        exit(1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("C22: held on {held} items ({} distinct non-trivial) in {:.1} s", distinct.len(), start.elapsed().as_secs_f64());
}
