//! C23: the derive rejects unsupported declarations with a diagnostic.
use std::collections::{BTreeMap, HashSet};
use std::path::{Path, PathBuf};
use std::process::exit;
use std::time::{Duration, Instant};

use progs::decl::{self, Decl, DeclText, Item};
use progs::report::{self, Evidence};
use progs::rustc::{self, Built};
use proptest::prelude::*;
use proptest::strategy::{Strategy, ValueTree};
use proptest::test_runner::TestRunner;

const EDITIONS: &[&str] = &["2021", "2018", "2024"];
const SCOPES: &[&str] = &["module", "module", "function", "macro with tokens", "macro without arguments"];

/// What is wrong with a declaration.
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Wrong {
    Struct(u8),
    Union,
    /// The variant, and what is in place of its fields.
    Fields(u8, u8),
    KeyAttr(u8),
    /// The variant, which attribute, and whether at its field.
    Misplaced(u8, u8, bool),
    BitsetTooLarge(u16),
    BitsetComposite,
    Payload(u8, u8),
    NotCopy,
    Generic(u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Case {
    scope: u8,
    decl: Decl,
    wrong: Wrong,
}

const STRUCTS: &[&str] = &[";", "(bool);", "();", "(bool, u8);", " {}", " { a: bool }", " { a: bool, b: Option<u8> }", "(Option<bool>);"];
const FIELDS: &[&str] = &["()", "(bool, bool)", "(bool, u8, ())", " {}", " { a: bool }", " { r#type: bool, b: u8 }", "(u8, ::core::option::Option<bool>,)", " { key: u8 }"];
const KEY_ATTRS: &[(&str, bool)] = &[
    // Whether it needs unit variants to be wrong for its own sake.
    ("#[key]", false),
    ("#[key = \"bitset\"]", false),
    ("#[key = 1]", false),
    ("#[key(foo)]", false),
    ("#[key(bitset, foo)]", true),
    ("#[key(foo, bitset)]", true),
    ("#[key(bitset = 1)]", true),
    ("#[key(bitset = \"true\")]", true),
    ("#[key(bitset(1))]", true),
    ("#[key(bitset())]", true),
    ("#[key(\"bitset\")]", false),
    ("#[key(Bitset)]", false),
    ("#[key(bit_set)]", false),
    ("#[key(bitset::a)]", false),
    ("#[key(bitset bitset)]", true),
    ("#[key(bitset; bitset)]", true),
    ("#[key(,)]", false),
    ("#[key(crate = \"fixed_map\")]", false),
    ("#[key(rename = \"K\")]", false),
    ("#[key(1)]", false),
    ("#[key(bitset)] #[key(foo)]", true),
    ("#[key(foo)] #[key(bitset)]", true),
    ("#[cfg_attr(all(), key(foo))]", false),
    ("#[key(not(bitset))]", false),
];
const MISPLACED: &[&str] = &["#[key(bitset)]", "#[key]", "#[key(foo)]", "#[key = \"x\"]", "#[cfg_attr(all(), key(bitset))]", "#[key()]", "#[key(skip)]"];
const PAYLOADS: &[(&str, bool)] = &[
    // Whether it is Copy.
    ("u16", true),
    ("i16", true),
    ("f32", true),
    ("f64", true),
    ("(bool, bool)", true),
    ("(bool,)", true),
    ("[bool; 2]", true),
    ("&'static u8", true),
    ("&'static bool", true),
    ("&'static [u16]", true),
    ("*const u8", true),
    ("fn() -> bool", true),
    ("NotKey", true),
    ("NotKeyEnum", true),
    ("Generic<bool>", true),
    ("::core::option::Option<u16>", true),
    ("::core::option::Option<f64>", true),
    ("::core::option::Option<NotKeyEnum>", true),
    ("::core::option::Option<::core::option::Option<(bool, bool)>>", true),
    ("::core::marker::PhantomData<bool>", true),
    ("::core::num::NonZeroU8", true),
    ("::core::num::Wrapping<u8>", true),
    ("::core::cmp::Ordering", true),
    ("::core::result::Result<bool, bool>", true),
    ("::core::time::Duration", true),
    ("::core::convert::Infallible", true),
    ("::core::any::TypeId", true),
    ("::std::string::String", false),
    ("::std::boxed::Box<bool>", false),
    ("::std::vec::Vec<bool>", false),
    ("::core::option::Option<::std::string::String>", false),
    ("::core::cell::Cell<bool>", false),
    ("&'static mut u8", false),
    ("::fixed_map::Set<bool>", true),
    ("::fixed_map::Map<bool, u8>", true),
];
const HELPERS: &str = "#[derive(Clone, Copy)] pub struct NotKey;\n#[derive(Clone, Copy)] pub enum NotKeyEnum { A, B }\n#[derive(Clone, Copy)] pub struct Generic<T>(T);\n";
const GENERICS: &[(&str, &str)] = &[
    // The parameters, and the payload of a variant which uses them.
    ("<const N: usize>", ""),
    ("<const B: bool>", ""),
    ("<T>", "(T)"),
    ("<T: ::fixed_map::Key>", "(T)"),
    ("<T: ::core::marker::Copy>", "(::core::option::Option<T>)"),
    ("<'a>", "(&'a str)"),
    ("<'a>", "(&'a [u8])"),
    ("<'a>", "(::core::option::Option<&'a str>)"),
    ("<T>", "(::core::marker::PhantomData<T>)"),
    ("<const N: usize>", "([u8; N])"),
    ("<const N: usize, const M: usize>", ""),
    ("<'v, const N: u8>", "(&'v str)"),
];

fn wrong(types: bool) -> BoxedStrategy<Wrong> {
    if types {
        prop_oneof![
            6 => (any::<u8>(), 0..PAYLOADS.len() as u8).prop_map(|(v, p)| Wrong::Payload(v, p)),
            2 => Just(Wrong::NotCopy),
            4 => (0..GENERICS.len() as u8).prop_map(Wrong::Generic),
        ]
        .boxed()
    } else {
        prop_oneof![
            2 => (0..STRUCTS.len() as u8).prop_map(Wrong::Struct),
            1 => Just(Wrong::Union),
            4 => (any::<u8>(), 0..FIELDS.len() as u8).prop_map(|(v, p)| Wrong::Fields(v, p)),
            5 => (0..KEY_ATTRS.len() as u8).prop_map(Wrong::KeyAttr),
            4 => (any::<u8>(), 0..MISPLACED.len() as u8, any::<bool>()).prop_map(|(v, p, f)| Wrong::Misplaced(v, p, f)),
            1 => (129u16..400).prop_map(Wrong::BitsetTooLarge),
            2 => Just(Wrong::BitsetComposite),
        ]
        .boxed()
    }
}

fn case(types: bool) -> impl Strategy<Value = Case> {
    (0..SCOPES.len() as u8, decl::decl(), wrong(types)).prop_map(|(scope, decl, wrong)| Case { scope, decl, wrong })
}

/// The class of what is wrong, for the counts.
fn class(w: &Wrong) -> String {
    match w {
        Wrong::Struct(_) => "struct".into(),
        Wrong::Union => "union".into(),
        Wrong::Fields(_, n) => format!("variant with fields {}", FIELDS[*n as usize]),
        Wrong::KeyAttr(n) => format!("attribute {}", KEY_ATTRS[*n as usize].0),
        Wrong::Misplaced(_, n, f) => format!("{} at a {}", MISPLACED[*n as usize], if *f { "field" } else { "variant" }),
        Wrong::BitsetTooLarge(_) => "bitset of too many variants".into(),
        Wrong::BitsetComposite => "bitset of a composite".into(),
        Wrong::Payload(_, n) => format!("payload {}", PAYLOADS[*n as usize].0),
        Wrong::NotCopy => "not Copy".into(),
        Wrong::Generic(n) => format!("parameters {}", GENERICS[*n as usize].0),
    }
}

/// A module with the declaration, and the first and last line of it therein,
/// counted from zero. `wrong` unset: without what is wrong with it. As a guard:
/// with it, but without the derive.
fn render(c: &Case, name: &str, guard: bool, with_wrong: bool) -> (String, usize, usize) {
    let mut d = c.decl.clone();
    // Without what would have to fit the rest.
    d.nested = false;
    d.default = false;
    d.discs = false;
    d.repr = 0;
    d.name = if d.name % 4 == 0 { d.name } else { 0 };
    d.derive %= 6;
    match &c.wrong {
        Wrong::BitsetTooLarge(_) => d.many = 1,
        Wrong::KeyAttr(n) if KEY_ATTRS[*n as usize].1 => {
            d.unit = true;
            d.many = 0;
        }
        Wrong::KeyAttr(_) | Wrong::Misplaced(..) | Wrong::Fields(..) | Wrong::Payload(..) | Wrong::Generic(_) | Wrong::BitsetComposite => d.many = 0,
        _ => {}
    }
    let scope = SCOPES[c.scope as usize % SCOPES.len()];
    let item = Item { scope: decl::SCOPES.iter().position(|s| *s == scope).unwrap() as u8, glob: false, decls: vec![d], seed: 0 };
    let mut t: DeclText = decl::resolve(&item, name).decls.pop().unwrap().0;
    let mut derives = vec!["#[derive(::core::clone::Clone, ::core::marker::Copy)]".to_string()];
    let mut key_derive = "#[derive(::fixed_map::Key)]".to_string();
    if t.before.iter().any(|b| b.starts_with("use ::fixed_map::Key;")) {
        key_derive = "#[derive(Key)]".into();
    }
    t.attrs.retain(|a| !a.contains("derive("));
    // The variants which are there.
    let mut on: Vec<usize> = (0..t.vars.len()).filter(|i| !t.vars[*i].off).collect();
    let bitset = "#[key(bitset)]".to_string();
    let mut body = None;
    if with_wrong {
        if on.is_empty() && matches!(c.wrong, Wrong::Fields(..) | Wrong::Misplaced(..) | Wrong::Payload(..) | Wrong::Generic(_) | Wrong::BitsetComposite | Wrong::KeyAttr(_)) {
            on.push(t.vars.len());
            t.vars.push(decl::VarText { attrs: vec![], name: "Added".into(), fields: String::new(), disc: String::new(), off: false });
        }
        match &c.wrong {
            Wrong::Struct(n) => {
                t.keyword = "struct".into();
                t.attrs.retain(|a| !a.contains("non_exhaustive"));
                t.key_attr = None;
                body = Some(STRUCTS[*n as usize].replace("Option<", "::core::option::Option<"));
            }
            Wrong::Union => {
                t.keyword = "union".into();
                t.attrs.retain(|a| !a.contains("non_exhaustive"));
                t.key_attr = None;
                body = Some(" { a: u8, b: bool }".into());
            }
            Wrong::Fields(v, n) => {
                let i = on[*v as usize % on.len()];
                t.vars[i].fields = FIELDS[*n as usize].into();
                t.key_attr = None;
            }
            Wrong::KeyAttr(n) => t.key_attr = Some(KEY_ATTRS[*n as usize].0.into()),
            Wrong::Misplaced(v, n, field) => {
                let with: Vec<usize> = on.iter().copied().filter(|i| !t.vars[*i].fields.is_empty()).collect();
                let a = MISPLACED[*n as usize].to_string();
                if *field && !with.is_empty() {
                    let i = with[*v as usize % with.len()];
                    if !guard {
                        // In front of the last field, which is the one that is there.
                        let f = t.vars[i].fields.clone();
                        t.vars[i].fields = format!("({a} {}", &f[1..]);
                        if f.contains("cfg(any())") {
                            t.vars[i].fields = format!("({a} bool)");
                        }
                    }
                } else {
                    let i = on[*v as usize % on.len()];
                    if !guard {
                        t.vars[i].attrs.push(a);
                    }
                }
            }
            Wrong::BitsetTooLarge(n) => {
                t.vars = (0..*n).map(|i| decl::VarText { attrs: vec![], name: format!("V{i}"), fields: String::new(), disc: String::new(), off: false }).collect();
                t.key_attr = Some(bitset);
            }
            Wrong::BitsetComposite => {
                if t.vars.iter().all(|v| v.off || v.fields.is_empty()) {
                    t.vars[on[0]].fields = "(bool)".into();
                }
                t.key_attr = Some(bitset);
            }
            Wrong::Payload(v, n) => {
                let i = on[*v as usize % on.len()];
                let (p, copy) = PAYLOADS[*n as usize];
                t.vars[i].fields = format!("({p})");
                t.key_attr = None;
                t.before.push(HELPERS.into());
                if !copy {
                    derives.clear();
                }
            }
            Wrong::NotCopy => {
                derives = vec!["#[derive(::core::clone::Clone)]".into()];
            }
            Wrong::Generic(n) => {
                let (p, f) = GENERICS[*n as usize];
                t.generics = p.into();
                t.key_attr = None;
                if !f.is_empty() {
                    t.vars.push(decl::VarText { attrs: vec![], name: "Uses".into(), fields: f.into(), disc: String::new(), off: false });
                }
            }
        }
    }
    if guard {
        t.key_attr = None;
        t.before.retain(|b| !b.starts_with("use ::fixed_map"));
    } else {
        derives.insert(c.decl.vis as usize % (derives.len() + 1), key_derive);
    }
    t.derives = derives;
    t.before.retain(|b| !b.ends_with("as Renamed;\n"));
    t.after.clear();
    let before = t.before.concat();
    t.before.clear();
    let generic = t.generics.clone();
    let text = match body {
        None => {
            if scope.starts_with("macro with") && (!generic.is_empty()) {
                // The macro has no place for parameters.
                t.text()
            } else {
                decl::surround(scope, &t, 0, false)
            }
        }
        Some(b) => {
            t.vars.clear();
            let s = t.text();
            format!("{}{b}\n", s.strip_suffix(" {\n}\n").expect("a declaration without variants"))
        }
    };
    let (open, close) = if scope == "function" { ("pub fn all() {\n", "}\n") } else { ("", "") };
    let head = format!("pub mod {name} {{\n{open}{before}");
    let from = head.lines().count();
    let to = from + text.lines().count() - 1;
    (format!("{head}{text}{close}}}\n"), from, to)
}

/// A file of several declarations, with the lines of each, counted from one.
fn file(cases: &[(&Case, bool)], guard: bool) -> (String, Vec<(usize, usize)>) {
    let mut s = String::from("#![allow(warnings)]\n");
    let mut lines = 1;
    let mut regions = Vec::new();
    for (n, (c, w)) in cases.iter().enumerate() {
        let (t, a, b) = render(c, &format!("case_{n}"), guard, *w);
        regions.push((lines + a + 1, lines + b + 1));
        lines += t.lines().count();
        s += &t;
    }
    (s, regions)
}

enum Verdict {
    Held,
    Broken(String),
    Invalid(String),
}

struct Ctx {
    built: Built,
    dir: PathBuf,
}

fn located(d: &rustc::Diag, r: (usize, usize)) -> bool {
    d.primary.iter().any(|p| p.0 >= r.0 && p.1 <= r.1)
}

impl Ctx {
    fn rustc(&self, src: &Path, edition: &str) -> rustc::Outcome {
        let ed = format!("--edition={edition}");
        rustc::rustc(&self.built, &["fixed_map", "vsupport"], src, None, &[&ed, "--crate-type=lib", "-Cdebuginfo=0"])
    }
    fn compile(&self, stem: &str, text: &str, edition: &str) -> rustc::Outcome {
        let src = self.dir.join(format!("{stem}.rs"));
        std::fs::write(&src, text).unwrap();
        self.rustc(&src, edition)
    }
    fn judge(&self, o: &rustc::Outcome, region: (usize, usize)) -> Verdict {
        if o.ok {
            return Verdict::Broken("it is accepted".into());
        }
        if let Some(b) = &o.broken {
            return Verdict::Invalid(b.clone());
        }
        if let Some(p) = o.errors.iter().find(|e| e.message.contains("panicked")) {
            return Verdict::Broken(format!("the macro panics: {}", p.rendered));
        }
        if !o.errors.iter().any(|e| located(e, region)) {
            return Verdict::Broken(format!("no error is reported at the declaration: {}", o.rendered().chars().take(2000).collect::<String>()));
        }
        Verdict::Held
    }
    fn alone(&self, stem: &str, c: &Case, edition: &str) -> Verdict {
        let g = self.compile(&format!("{stem}_guard"), &file(&[(c, true)], true).0, edition);
        if !g.ok {
            return Verdict::Invalid(g.rendered());
        }
        let (text, regions) = file(&[(c, true)], false);
        let o = self.compile(stem, &text, edition);
        self.judge(&o, regions[0])
    }
}

fn main() {
    let start = Instant::now();
    let dir = report::work_dir("C23");
    let root = report::root();
    let built = match rustc::cargo_build(&root.join("progs-support/Cargo.toml"), &root.join("target/progs"), &[]) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("C23: the support of generated programs does not build: {e}");
            exit(2);
        }
    };
    let cx = Ctx { built, dir: dir.clone() };
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--replay") {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
        let o = cx.compile("replay", v["program"].as_str().expect("program"), v["edition"].as_str().unwrap_or("2021"));
        let region = (v["lines"][0].as_u64().unwrap() as usize, v["lines"][1].as_u64().unwrap() as usize);
        match cx.judge(&o, region) {
            Verdict::Broken(b) => {
                println!("failed: {b}\nVIOLATION property=C23 replay={}", args[2]);
                exit(1)
            }
            _ => {
                println!("held");
                exit(0)
            }
        }
    }

    // Batches: those the macro itself has to reject, and those which the
    // compiler rejects once the macro is expanded. The former would hide the
    // latter.
    let batches = if report::thorough() { 300 } else { 16 };
    let per = 50;
    let strategies = [case(false).boxed(), case(true).boxed()];
    let make = |runner: &mut TestRunner, b: usize| strategies[b % 2].new_tree(runner).unwrap();
    let mut runner = report::runner("C23", "cases");
    let cases: Vec<Vec<Case>> = (0..batches).map(|b| (0..per).map(|_| make(&mut runner, b).current()).collect()).collect();

    let results: Vec<Vec<(usize, usize, Verdict)>> = rustc::parallel(batches, |b| {
        let edition = EDITIONS[(b / 2) % EDITIONS.len()];
        let mut out = Vec::new();
        // Those which are valid but for the derive.
        let mut list: Vec<usize> = (0..per).collect();
        for _ in 0..6 {
            let some: Vec<(&Case, bool)> = list.iter().map(|i| (&cases[b][*i], true)).collect();
            let (text, regions) = file(&some, true);
            let g = cx.compile(&format!("b{b}_guard"), &text, edition);
            if g.ok {
                break;
            }
            let bad: Vec<usize> = (0..list.len()).filter(|n| g.errors.iter().any(|e| located(e, regions[*n]))).collect();
            if bad.is_empty() {
                for i in list.drain(..) {
                    out.push((b, i, Verdict::Invalid(g.rendered())));
                }
                return out;
            }
            for n in bad.into_iter().rev() {
                let e = g.errors.iter().find(|e| located(e, regions[n])).unwrap().rendered.clone();
                out.push((b, list.remove(n), Verdict::Invalid(e)));
            }
        }
        // With declarations in between that are fine.
        let mut all: Vec<(&Case, bool)> = Vec::new();
        for (n, i) in list.iter().enumerate() {
            all.push((&cases[b][*i], true));
            if n % 10 == 4 {
                all.push((&cases[b][*i], false));
            }
        }
        let (text, regions) = file(&all, false);
        let o = cx.compile(&format!("b{b}"), &text, edition);
        let mut next = list.iter();
        let mut found = 0;
        for (n, (c, w)) in all.iter().enumerate() {
            let here: Vec<_> = o.errors.iter().filter(|e| located(e, regions[n])).collect();
            if *w {
                let i = *next.next().unwrap();
                if !here.is_empty() && here.iter().all(|e| !e.message.contains("panicked")) {
                    out.push((b, i, Verdict::Held));
                } else if found < 3 {
                    let v = cx.alone(&format!("b{b}_i{i}"), c, edition);
                    found += usize::from(matches!(v, Verdict::Broken(_)));
                    out.push((b, i, v));
                }
            } else if let Some(e) = here.first() {
                // Is it fine, alone?
                let (text, _) = file(&[(c, false)], false);
                if cx.compile(&format!("b{b}_c{n}"), &text, edition).ok {
                    let i = cases[b].iter().position(|d| d == *c).unwrap();
                    out.push((b, i, Verdict::Broken(format!("an error is reported at another declaration, which is fine: {}", e.rendered))));
                }
            }
        }
        out
    });

    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let mut evaluations = 0u64;
    let mut invalid = 0;
    let mut distinct = HashSet::new();
    let mut samples = Vec::new();
    let mut broken: Vec<(usize, usize, String)> = Vec::new();
    for (b, i, v) in results.into_iter().flatten() {
        let c = &cases[b][i];
        match v {
            Verdict::Held => {
                evaluations += 1;
                *classes.entry(class(&c.wrong)).or_default() += 1;
                *classes.entry(format!("scope: {}", SCOPES[c.scope as usize])).or_default() += 1;
                distinct.insert(c.clone());
                if samples.len() < 5 && evaluations % 11 == 3 {
                    let (text, ..) = render(c, "sample", false, true);
                    if text.len() < 1500 {
                        samples.push(serde_json::json!({"wrong": class(&c.wrong), "program": text, "outcome": "rejected, with an error at the declaration"}));
                    }
                }
            }
            Verdict::Invalid(e) => {
                invalid += 1;
                if std::env::var_os("FM_STRICT").is_some() {
                    println!("not valid but for the derive: {e}\n{}", render(c, "case", true, true).0);
                }
                if invalid * 5 > batches * per {
                    eprintln!("C23: too many declarations are not valid but for the derive: {e}");
                    exit(2);
                }
            }
            Verdict::Broken(e) => broken.push((b, i, e)),
        }
    }

    // Shrink the first few failures, of different kinds.
    broken.sort_by_key(|x| render(&cases[x.0][x.1], "m", false, true).0.len());
    let total = broken.len();
    let end = Instant::now() + Duration::from_secs(if report::thorough() { 600 } else { 150 });
    let mut kinds = HashSet::new();
    let mut violations = Vec::new();
    for (b, i, e) in broken {
        if violations.len() >= 3 || !kinds.insert(std::mem::discriminant(&cases[b][i].wrong)) {
            continue;
        }
        let edition = EDITIONS[(b / 2) % EDITIONS.len()];
        let mut runner = report::runner("C23", "cases");
        let mut tree = None;
        'all: for bb in 0..batches {
            for ii in 0..per {
                let t = make(&mut runner, bb);
                if (bb, ii) == (b, i) {
                    tree = Some(t);
                    break 'all;
                }
            }
        }
        let mut tree = tree.unwrap();
        let mut best = (tree.current(), e);
        let mut steps = 0;
        if tree.simplify() {
            while Instant::now() < end && steps < 300 {
                steps += 1;
                let cur = tree.current();
                let go = match cx.alone("shrink", &cur, edition) {
                    Verdict::Broken(e) => {
                        best = (cur, e);
                        tree.simplify()
                    }
                    _ => tree.complicate(),
                };
                if !go {
                    break;
                }
            }
        }
        violations.push((best.0, best.1, edition));
    }
    Evidence {
        id: "C23",
        evaluations: evaluations + total as u64,
        distinct_nontrivial: distinct.len() as u64,
        rule: "a generated declaration which is valid without the derive (as compiled), and unsupported in exactly one generated way; those the compiler rejects without the derive are not counted",
        samples,
        more: serde_json::json!({"classes": classes, "files": batches, "not_valid_without_the_derive": invalid}),
        assumptions: vec![
            "generic parameters with defaults are not generated",
            "that an error is at the declaration is judged by the lines of its primary spans",
        ],
        violations: total,
        start,
    }
    .write();
    for (c, e, edition) in &violations {
        let (text, regions) = file(&[(c, true)], false);
        let p = report::write_replay(
            "C23",
            &serde_json::json!({"property": "C23", "wrong": class(&c.wrong), "reason": e, "edition": edition, "program": text, "lines": [regions[0].0, regions[0].1], "seed": report::seed()}),
        );
        println!("{}: {e}\n{text}\nVIOLATION property=C23 replay={}", class(&c.wrong), p.display());
    }
    if !violations.is_empty() {
        println!("C23: {total} of {} declarations failed", evaluations + total as u64);
        exit(1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("C23: held on {evaluations} declarations ({} distinct non-trivial) in {:.1} s", distinct.len(), start.elapsed().as_secs_f64());
}
