//! C26: what programs may do with borrows of collections, and what collections
//! implement, is as for a container written in safe Rust.
use std::collections::{BTreeMap, HashSet};
use std::path::PathBuf;
use std::process::{exit, Command};
use std::time::{Duration, Instant};

use progs::report::{self, Evidence};
use progs::rustc::{self, Built};
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::strategy::{Strategy, ValueTree};

const SHIM: &str = include_str!("../shim/shim.rs");

/// Key types: the type and two values of it.
const KEYS: &[(&str, [&str; 2])] = &[
    ("U3", ["U3::A", "U3::C"]),
    ("B5", ["B5::A", "B5::E"]),
    ("Cf", ["Cf::P(true)", "Cf::R"]),
    ("Cd", ["Cd::P(1)", "Cd::S(\"x\")"]),
    ("Cn", ["Cn::P(Cf::R)", "Cn::Q(None)"]),
    ("bool", ["true", "false"]),
    ("()", ["()", "()"]),
    ("Option<U3>", ["None", "Some(U3::B)"]),
    ("u32", ["1", "2"]),
    ("&'static str", ["\"a\"", "\"b\""]),
    ("Option<u32>", ["None", "Some(1)"]),
    ("GK", ["k0", "k1"]),
];
const GENERIC_KEY: usize = 11;

/// Value types: the type, as a parameter of a program with the lifetime `'x`,
/// an expression, and what it borrows from.
const VALUES: &[(&str, &str, &str)] = &[
    ("u32", "1u32", ""),
    ("String", "String::new()", ""),
    ("&'x str", "&*s0", "let mut s0 = String::new();"),
    ("&'x mut u32", "&mut n0", "let mut n0 = 0u32;"),
    ("Rc<u32>", "Rc::new(1)", ""),
    ("Cell<u32>", "Cell::new(1)", ""),
    ("Plain", "Plain", ""),
    ("Dropped<'x>", "Dropped(&s0)", "let mut s0 = String::new();"),
    ("MutexGuard<'static, u32>", "guard()", ""),
    ("f64", "1.0f64", ""),
    ("GV", "gv()", ""),
    ("Box<dyn Fn(&u32) -> u32 + 'x>", "Box::new(|n| *n)", ""),
    ("()", "()", ""),
    ("*const u8", "std::ptr::null()", ""),
];
const GENERIC_VALUE: usize = 10;
const BOUNDS: &[&str] = &["", "Clone", "Copy", "Default", "PartialEq", "Eq", "Debug", "Send", "Sync", "Clone + PartialEq", "Copy + Send + Sync", "Default + Debug", "Ord", "Hash", "PartialOrd", "Ord + Copy"];

/// Expressions a variable is bound to; of k and v a key and a value.
const PRODUCE: &[&str] = &[
    "m.get(k)", "m.iter()", "m.values()", "m.keys()", "(&m).into_iter()", "m.iter().next()", "m.values().next()", "m.get_mut(k)", "m.iter_mut()",
    "m.values_mut()", "m.entry(k)", "m.entry(k).or_insert(v)", "m.iter_mut().next()", "(&mut m).into_iter()", "m.values_mut().next()",
    "m.entry(k).and_modify(|_| ())", "m.entry(k).or_insert_with(|| v)", "m.entry(k).or_insert_with_key(|_| v)", "m.entry(k).or_default()",
    "m.into_iter()", "m.remove(k)", "m.insert(k, v)", "m.into_iter().next()", "m.iter().map(|(k, _)| k).next()", "m.get(k).is_some()", "m.len()",
    "m.entry(k).key()", "m.clone()", "m", "&m", "&mut m", "s.iter()", "s.intersection(&t)", "(&s).into_iter()", "s.into_iter()", "s.iter().next()",
    "s.clone()", "s", "s.contains(k)", "t.intersection(&s).next()", "m.keys().next()", "m == Map::new()", "s == t",
    "match m.entry(k) { map::Entry::Occupied(e) => e.into_mut(), map::Entry::Vacant(e) => e.insert(v) }",
    "match m.entry(k) { map::Entry::Occupied(e) => Some(e.remove()), map::Entry::Vacant(_) => None }",
    "m.get(k).copied()", "m.get(k).cloned()", "|| m.len()", "|| m.clear()", "move || m.len()", "m.values().collect::<Vec<_>>()", "m.iter_mut().collect::<Vec<_>>()",
    "m.into_iter().collect::<Map<_, _>>()", "s.iter().collect::<Set<_>>()", "Set::from([k])", "&m.get(k)", "m.values_mut().zip(0..).collect::<Vec<_>>()",
    "SomeBucket::new(&mut o).unwrap()", "NoneBucket::new(&mut o).unwrap()", "OptionBucket::new(&mut o)", "SomeBucket::new(&mut o).unwrap().into_mut()", "SomeBucket::new(&mut o).unwrap().as_ref()",
    "NoneBucket::new(&mut o).unwrap().insert(v)", "SomeBucket::new(&mut o).unwrap().take()", "SomeBucket::new_unchecked(&mut o)", "NoneBucket::new_unchecked(&mut o)",
    "match OptionBucket::new(&mut o) { OptionBucket::Some(e) => e.into_mut(), OptionBucket::None(e) => e.insert(v) }",
];
const ACT: &[&str] = &[
    "m.insert(k, v);", "m.clear();", "m.remove(k);", "touch(m.get(k));", "touch(m.len());", "touch(m.iter_mut());", "drop(m);", "m = Map::new();",
    "touch(std::mem::take(&mut m));", "drop(s0);", "s0.push('x');", "n0 += 1;", "m.retain(|_, _| true);", "s.insert(k);", "t.clear();", "drop(s);", "s.retain(|_| true);",
    "touch(m.contains_key(k));", "touch(m.is_empty());", "touch(s.contains(k));", "touch(m.keys());", "touch(&m);", "touch(&mut m);", "send(m);", "m.retain(|_, _| m.len() > 0);",
    "m.retain(|_, v| { kept.push(v); true });", "for (_, v) in &mut m { touch(v); m.clear(); }", "for (_, v) in &m { touch(v); touch(m.len()); }", "s.extend_();",
    "touch(s.iter());", "stat(m);", "debug(&m);", "debug(&s);", "send(s);", "sync(&m);", "m.get_mut(k).map(|x| *x = v);", "if let Some(x) = m.get_mut(k) { *x = v; m.clear(); touch(x); }",
    "m.entry(k).and_modify(|x| *x = v).or_insert(v);", "for x in m.values_mut() { *x = v; }", "kept = m.iter().map(|x| x.1).collect();", "kept.extend(m.iter().map(|x| x.1));", "o = None;", "touch(o.as_ref());", "drop(o);",
];
const USE: &[&str] = &["touch(&x);", "touch(x);", "x.next();", "send(x);", "stat(x);", "sync(&x);", "drop(x);", "debug(&x);", "touch(x.clone());", "touch(x.next()); touch(x.next());", "let y = x.next(); touch(x.next()); touch(y);", "x();", "touch(x.as_ref());", "touch(x.as_mut());", "let y = x.as_ref(); touch(x.as_mut()); touch(y);", "touch(x.take());", "x.into_mut(); touch(x);"];
/// What is done with an occupied and a vacant entry.
const OCCUPIED: &[&str] = &["e.get()", "e.get_mut()", "e.into_mut()", "e.insert(v)", "e.remove()", "map::OccupiedEntry::key(&e)", "&e", "&mut e", "e"];
const VACANT: &[&str] = &["map::VacantEntry::key(&e)", "e.insert(v)", "&e", "e"];

/// Functions with explicit lifetimes: the receiver, the result, the expression.
const SIGNATURES: &[(&str, &str, &str)] = &[
    ("m: &'p Map<K, V>", "Option<&'r V>", "m.get(k)"),
    ("m: &'p Map<K, V>", "map::Iter<'r, K, V>", "m.iter()"),
    ("m: &'p Map<K, V>", "map::Values<'r, K, V>", "m.values()"),
    ("m: &'p Map<K, V>", "map::Keys<'r, K, V>", "m.keys()"),
    ("m: &'p Map<K, V>", "Option<(K, &'r V)>", "m.iter().next()"),
    ("m: &'p Map<K, V>", "Option<&'r V>", "m.values().next()"),
    ("m: &'p Map<K, V>", "Option<V>", "m.get(k).copied()"),
    ("m: &'p Map<K, V>", "Option<V>", "m.get(k).cloned()"),
    ("m: &'p Map<K, V>", "&'r Map<K, V>", "m"),
    ("m: &'p Map<K, V>", "impl Iterator<Item = (K, &'r V)>", "m.into_iter()"),
    ("m: &'p Map<K, V>", "Option<&'r mut V>", "m.get_mut(k)"),
    ("m: &'p mut Map<K, V>", "Option<&'r mut V>", "m.get_mut(k)"),
    ("m: &'p mut Map<K, V>", "Option<&'r V>", "m.get(k)"),
    ("m: &'p mut Map<K, V>", "map::IterMut<'r, K, V>", "m.iter_mut()"),
    ("m: &'p mut Map<K, V>", "map::ValuesMut<'r, K, V>", "m.values_mut()"),
    ("m: &'p mut Map<K, V>", "&'r mut V", "m.entry(k).or_insert(v)"),
    ("m: &'p mut Map<K, V>", "Option<V>", "m.insert(k, v)"),
    ("m: &'p mut Map<K, V>", "Option<V>", "m.remove(k)"),
    ("m: &'p mut Map<K, V>", "Option<(K, &'r mut V)>", "m.iter_mut().next()"),
    ("m: &'p mut Map<K, V>", "Option<&'r mut V>", "m.values_mut().last()"),
    ("m: &'p mut Map<K, V>", "Option<&'r mut V>", "match m.entry(k) { map::Entry::Occupied(e) => Some(e.into_mut()), _ => None }"),
    ("m: &'p mut Map<K, V>", "Option<&'r mut V>", "match m.entry(k) { map::Entry::Vacant(e) => Some(e.insert(v)), _ => None }"),
    ("m: &'p mut Map<K, V>", "Option<&'r V>", "match m.entry(k) { map::Entry::Occupied(e) => Some(e.get()), _ => None }"),
    ("m: &'p mut Map<K, V>", "Option<&'r mut V>", "match m.entry(k) { map::Entry::Occupied(mut e) => Some(e.get_mut()), _ => None }"),
    ("m: &'p mut Map<K, V>", "Option<V>", "match m.entry(k) { map::Entry::Occupied(e) => Some(e.remove()), _ => None }"),
    ("m: &'p mut Map<K, V>", "En<'r, K, V>", "m.entry(k)"),
    ("m: &'p mut Map<K, V>", "En<'r, K, V>", "m.entry(k).and_modify(|x| *x = v)"),
    ("m: &'p mut Map<K, V>", "K", "m.entry(k).key()"),
    ("m: &'p mut Map<K, V>", "&'r Map<K, V>", "{ m.clear(); m }"),
    ("m: Map<K, V>", "map::IntoIter<K, V>", "m.into_iter()"),
    ("m: Map<K, V>", "Option<(K, V)>", "m.into_iter().next()"),
    ("mut m: Map<K, V>", "Option<&'r V>", "m.get(k)"),
    ("mut m: Map<K, V>", "&'r mut V", "m.entry(k).or_insert(v)"),
    ("mut m: Map<K, V>", "map::Iter<'r, K, V>", "m.iter()"),
    ("s: &'p Set<K>, t: &'q Set<K>", "set::Intersection<'r, K>", "s.intersection(t)"),
    ("s: &'p Set<K>, t: &'q Set<K>", "set::Iter<'r, K>", "s.iter()"),
    ("s: Set<K>, t: Set<K>", "set::IntoIter<K>", "s.into_iter()"),
    ("i: map::Iter<'p, K, V>", "Option<(K, &'r V)>", "{ let mut i = i; i.next() }"),
    ("i: &'q mut map::Iter<'p, K, V>", "Option<(K, &'r V)>", "i.next()"),
    ("i: &'q mut map::IterMut<'p, K, V>", "Option<(K, &'r mut V)>", "i.next()"),
    ("i: &'q mut map::ValuesMut<'p, K, V>", "Option<&'r mut V>", "i.next()"),
    ("i: &'q mut map::Values<'p, K, V>", "Option<&'r V>", "i.next()"),
    ("i: &'q mut map::IntoIter<K, V>", "Option<(K, V)>", "i.next()"),
    ("i: &'q map::Iter<'p, K, V>", "map::Iter<'r, K, V>", "i.clone()"),
    ("i: &'q map::Values<'p, K, V>", "map::Values<'r, K, V>", "i.clone()"),
    ("e: En<'p, K, V>", "&'r mut V", "e.or_insert(v)"),
    ("e: En<'p, K, V>", "&'r mut V", "e.or_insert_with(|| v)"),
    ("e: En<'p, K, V>", "&'r mut V", "e.or_default()"),
    ("e: En<'p, K, V>", "Option<&'r mut V>", "match e { map::Entry::Occupied(e) => Some(e.into_mut()), _ => None }"),
    ("e: &'q mut En<'p, K, V>", "Option<&'r mut V>", "match e { map::Entry::Occupied(e) => Some(e.get_mut()), _ => None }"),
    ("e: &'q En<'p, K, V>", "Option<&'r V>", "match e { map::Entry::Occupied(e) => Some(e.get()), _ => None }"),
    ("o: &'p mut Option< V>", "SomeBucket<'r, V>", "SomeBucket::new(o).unwrap()"),
    ("o: &'p mut Option< V>", "NoneBucket<'r, V>", "NoneBucket::new(o).unwrap()"),
    ("o: &'p mut Option< V>", "SomeBucket<'r, V>", "SomeBucket::new_unchecked(o)"),
    ("o: &'p mut Option< V>", "NoneBucket<'r, V>", "NoneBucket::new_unchecked(o)"),
    ("b: SomeBucket<'p, V>", "&'r mut V", "b.into_mut()"),
    ("b: &'q mut SomeBucket<'p, V>", "&'r mut V", "b.as_mut()"),
    ("b: &'q SomeBucket<'p, V>", "&'r V", "b.as_ref()"),
    ("b: NoneBucket<'p, V>", "&'r mut V", "b.insert(v)"),
];
/// Types which hold a borrow 'p of values V.
const TYPES: &[&str] = &[
    "Map<K, V>", "&'p Map<K, V>", "&'p mut Map<K, V>", "map::Iter<'p, K, V>", "map::Keys<'p, K, V>", "map::Values<'p, K, V>", "map::IterMut<'p, K, V>",
    "map::ValuesMut<'p, K, V>", "map::IntoIter<K, V>", "En<'p, K, V>", "Set<K>", "set::Iter<'p, K>", "set::IntoIter<K>", "set::Intersection<'p, K>",
    "SomeBucket<'p, V>", "NoneBucket<'p, V>", "OptionBucket<'p, V>",
];
const ALL_TRAITS: &[&str] = &["Send", "Sync", "Unpin", "UnwindSafe", "RefUnwindSafe", "Clone", "Copy", "Debug", "PartialEq", "Eq", "Default", "PartialOrd", "Ord", "Hash"];
const SOME_TRAITS: &[&str] = &["Send", "Sync", "Unpin"];

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Stmt {
    Let(u8, u8, bool),
    Act(u8, u8),
    Use(u8, u8),
    /// Bind an entry, or what is got from it.
    Entry(bool, u8, u8),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Body {
    /// Statements; where the map comes from; where what values borrow from is
    /// declared; a part in a block of its own.
    Run { stmts: Vec<Stmt>, own: u8, local: u8, block: Option<(u8, u8)> },
    Signature { which: u8, lts: [u8; 3], inner: [u8; 2], outlives: bool },
    Implements { ty: u8, tr: u8 },
    Coerce { ty: u8, lts: [u8; 2], inner: [u8; 2], outlives: bool },
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Case {
    key: u8,
    value: u8,
    bound: u8,
    body: Body,
}

fn ix(n: usize) -> BoxedStrategy<u8> {
    (0..n as u8).boxed()
}

/// The n-th program: signatures with all choices of lifetimes, and all traits,
/// are gone through in turn; the rest of it is random.
fn case(n: usize) -> BoxedStrategy<Case> {
    let stmt = prop_oneof![
        5 => (ix(PRODUCE.len()), ix(2), proptest::bool::weighted(0.8)).prop_map(|(a, b, c)| Stmt::Let(a, b, c)),
        5 => (ix(ACT.len()), ix(2)).prop_map(|(a, b)| Stmt::Act(a, b)),
        5 => (ix(USE.len()), ix(4)).prop_map(|(a, b)| Stmt::Use(a, b)),
        1 => (any::<bool>(), ix(OCCUPIED.len()), ix(2)).prop_map(|(a, b, c)| Stmt::Entry(a, b, c)),
    ];
    // Mostly: what is bound, is used after something else.
    let first = (ix(PRODUCE.len()), ix(2), proptest::bool::weighted(0.8)).prop_map(|(a, b, c)| Stmt::Let(a, b, c));
    let middle = vec(stmt.clone(), 0..3);
    let last = (ix(USE.len()), ix(2)).prop_map(|(a, b)| Stmt::Use(a, b));
    let stmts = prop_oneof![
        3 => (first.clone(), middle.clone(), last).prop_map(|(a, b, c)| {
            let mut v = vec![a];
            v.extend(b);
            v.push(c);
            v
        }),
        1 => vec(stmt, 1..6),
    ];
    let run = (stmts, prop_oneof![2 => ix(3), 1 => ix(5)], ix(3), proptest::option::weighted(0.2, (ix(4), ix(4)))).prop_map(|(stmts, own, local, block)| Body::Run { stmts, own, local, block });
    let k = n / 12;
    let just = |n: usize| Just(n as u8).boxed();
    let body = match n % 12 {
        0..=3 => run.boxed(),
        i @ 4..=7 => {
            let k = k * 4 + i - 4;
            let (which, l) = (k % SIGNATURES.len(), k / SIGNATURES.len());
            (just(which), [just(l % 3), just(l / 3 % 3), just(l / 9 % 3)], [ix(3), ix(3)], any::<bool>()).prop_map(|(which, lts, inner, outlives)| Body::Signature { which, lts, inner, outlives }).boxed()
        }
        i @ 8..=10 => {
            let pairs: Vec<(usize, usize)> = (0..TYPES.len()).flat_map(|t| (0..traits_of(TYPES[t]).len()).map(move |r| (t, r))).collect();
            let (ty, tr) = pairs[(k * 3 + i - 8) % pairs.len()];
            (just(ty), just(tr)).prop_map(|(ty, tr)| Body::Implements { ty, tr }).boxed()
        }
        _ => {
            let (ty, l) = (k % TYPES.len(), k / TYPES.len());
            (just(ty), [just(l % 3), just(l / 3 % 3)], [ix(3), ix(3)], any::<bool>()).prop_map(|(ty, lts, inner, outlives)| Body::Coerce { ty, lts, inner, outlives }).boxed()
        }
    };
    let value = match n % 12 {
        8..=10 => prop_oneof![1 => Just(GENERIC_VALUE as u8), 3 => ix(VALUES.len())].boxed(),
        _ => prop_oneof![Just(0u8), Just(1), Just(2), Just(2), Just(3), Just(7), ix(VALUES.len())].boxed(),
    };
    let bound = prop_oneof![Just(0u8), ix(BOUNDS.len())];
    (ix(KEYS.len()), value, bound, body).prop_map(|(key, value, bound, body)| Case { key, value, bound, body }).boxed()
}

fn traits_of(ty: &str) -> &'static [&'static str] {
    if matches!(ty, "Map<K, V>" | "Set<K>") {
        ALL_TRAITS
    } else {
        SOME_TRAITS
    }
}

/// Which uses of what an expression gives fit: those which contain the text
/// only if true.
fn fits(e: &str) -> Vec<(&'static str, bool)> {
    let iterator = ["iter()", "values()", "keys()", "_mut()", "intersection(&t)"].iter().any(|s| e.ends_with(s)) && !e.contains("unwrap");
    let closure = e.starts_with('|') || e.starts_with("move");
    let bucket = e.starts_with("SomeBucket::new") && e.ends_with("unwrap()");
    vec![("next()", iterator), ("x()", closure), ("as_", bucket), ("take()", bucket), ("into_mut", bucket)]
}

const LTS: [&str; 3] = ["'a", "'b", "'static"];

fn render(c: &Case, n: usize) -> String {
    let (key, ks) = KEYS[c.key as usize];
    let (vt, vx, local) = VALUES[c.value as usize];
    let mut generics: Vec<String> = Vec::new();
    let gk = c.key as usize == GENERIC_KEY;
    let gv = c.value as usize == GENERIC_VALUE;
    let stated = matches!(c.body, Body::Signature { outlives: true, .. } | Body::Coerce { outlives: true, .. });
    let types = |g: &mut Vec<String>| {
        let outlives = if stated { "'static + " } else { "" };
        if gk {
            g.push(format!("GK: {outlives}Key"));
        }
        if gv {
            let b = BOUNDS[c.bound as usize];
            g.push(if b.is_empty() { format!("GV: {outlives}").trim_end_matches([' ', '+']).into() } else { format!("GV: {outlives}{b}") });
        }
    };
    let fill = |s: &str, k: usize| s.replace("(k", &format!("({}", ks[k])).replace("[k]", &format!("[{}]", ks[k])).replace(", v)", &format!(", {vx})")).replace("(v)", &format!("({vx})")).replace("| v)", &format!("| {vx})")).replace("= v)", &format!("= {vx})")).replace("= v;", &format!("= {vx};"));
    let keys = if gk { "k0: GK, k1: GK" } else { "" };
    match &c.body {
        Body::Run { stmts, own, local: at, block } => {
            types(&mut generics);
            let mut out = String::new();
            let v = vt.replace("'x", "'_");
            let params = match own % 5 {
                2 => format!("m: &mut Map<{key}, {v}>, mut s: Set<{key}>, mut t: Set<{key}>"),
                3 => format!("mut m: Map<{key}, {v}>, mut s: Set<{key}>, t: &Set<{key}>"),
                4 => format!("m: &Map<{key}, {v}>, s: &mut Set<{key}>, mut t: Set<{key}>"),
                _ => String::new(),
            };
            let params = [params.as_str(), keys].iter().filter(|p| !p.is_empty()).cloned().collect::<Vec<_>>().join(", ");
            out += &format!("fn f{n}<{}>({params}) {{\n", generics.join(", "));
            if *at == 0 {
                out += &format!("    {local}\n");
            }
            out += "    let mut kept = Vec::new();\n";
            out += &format!("    let mut o: Option<{v}> = None;\n");
            if own % 5 < 2 {
                out += &format!("    let mut m: Map<{key}, {v}> = Map::new();\n    let mut s: Set<{key}> = Set::new();\n    let mut t: Set<{key}> = Set::default();\n");
            }
            if *at == 1 || (*at == 2 && block.is_none()) {
                out += &format!("    {local}\n");
            }
            let mut x = 0;
            // Of each variable, what fits.
            let mut of: Vec<Vec<(&str, bool)>> = Vec::new();
            let (from, to) = match block {
                Some((a, b)) => (*a as usize, *a as usize + *b as usize + 1),
                None => (usize::MAX, usize::MAX),
            };
            let mut open = false;
            for (i, s) in stmts.iter().enumerate() {
                if i == from {
                    out += "    {\n";
                    open = true;
                    if *at == 2 {
                        out += &format!("    {local}\n");
                    }
                }
                match s {
                    Stmt::Let(p, k, m) => {
                        out += &format!("    let {}x{x} = {};\n", if *m { "mut " } else { "" }, fill(PRODUCE[*p as usize], *k as usize));
                        of.push(fits(PRODUCE[*p as usize]));
                        x += 1;
                    }
                    Stmt::Act(a, k) => out += &format!("    {}\n", fill(ACT[*a as usize], *k as usize)),
                    Stmt::Use(u, which) => {
                        if x > 0 {
                            let at = (x - 1usize).saturating_sub(*which as usize);
                            let name = format!("x{at}");
                            // What can be done with it, mostly.
                            let uses: Vec<&str> = USE.iter().copied().filter(|u| of[at].iter().all(|(what, yes)| u.contains(what) == *yes || !u.contains(what))).collect();
                            let t = uses[*u as usize % uses.len()].replace("(x)", &format!("({name})")).replace("&x)", &format!("&{name})")).replace("x.", &format!("{name}.")).replace("x()", &format!("{name}()"));
                            out += &format!("    {t}\n");
                        }
                    }
                    Stmt::Entry(occ, e, k) => {
                        if *occ {
                            out += &format!("    let map::Entry::Occupied(mut e) = m.entry({}) else {{ return }};\n    let x{x} = {};\n", ks[*k as usize], fill(OCCUPIED[*e as usize % OCCUPIED.len()], *k as usize));
                        } else {
                            out += &format!("    let map::Entry::Vacant(mut e) = m.entry({}) else {{ return }};\n    let x{x} = {};\n", ks[*k as usize], fill(VACANT[*e as usize % VACANT.len()], *k as usize));
                        }
                        of.push(fits(""));
                        x += 1;
                    }
                }
                if open && i + 1 == to {
                    out += "    }\n";
                    open = false;
                }
            }
            if open {
                out += "    }\n";
            }
            if own % 2 == 0 {
                out += "    touch(&m);\n";
            }
            out += "    return;\n    kept.push(panic!());\n}\n";
            out
        }
        Body::Signature { which, lts, inner, outlives } => {
            let (p, r, e) = SIGNATURES[*which as usize];
            generics.push(format!("'a, 'b{}", if *outlives { ": 'a" } else { "" }));
            types(&mut generics);
            let f = |s: &str, i: usize| {
                s.replace("'p", LTS[lts[0] as usize]).replace("'q", LTS[lts[1] as usize]).replace("'r", LTS[lts[2] as usize]).replace("K,", &format!("{key},")).replace("K>", &format!("{key}>")).replace(" V>", &format!(" {}>", vt.replace("'x", LTS[inner[i] as usize]))).replace("<V>", &format!("<{}>", vt.replace("'x", LTS[inner[i] as usize]))).replace("mut V", &format!("mut {}", vt.replace("'x", LTS[inner[i] as usize]))).replace("static V", &format!("static {}", vt.replace("'x", LTS[inner[i] as usize])))
            };
            // The references to V itself.
            let g = |s: &str, i: usize| {
                let mut t = f(s, i);
                for l in LTS {
                    t = t.replace(&format!("&{l} V"), &format!("&{l} {}", vt.replace("'x", LTS[inner[i] as usize])));
                }
                if t == "K" {
                    t = key.into();
                }
                t
            };
            let v = vt.replace("'x", LTS[inner[0] as usize]);
            let k2 = if gk { ", k1: GK" } else { "" };
            let bound = if gv && !generics.last().unwrap().contains("'r") { "" } else { "" };
            format!("fn f{n}<{}>({}, k0: {key}{k2}, v: {v}) -> {} {{{bound}\n    {}\n}}\n", generics.join(", "), g(p, 0), g(r, 1), e.replace("(k", "(k0").replace("(k00", "(k0"))
        }
        Body::Implements { ty, tr } => {
            types(&mut generics);
            let t = TYPES[*ty as usize];
            let traits = traits_of(t);
            let v = vt.replace("'x", "'static");
            let t = t.replace("'p", "'static").replace("K, V>", &format!("{key}, {v}>")).replace(" V>", &format!(" {v}>")).replace("K>", &format!("{key}>"));
            let tr = traits[*tr as usize % traits.len()];
            let g: Vec<String> = generics.iter().map(|g| if g.contains(':') { format!("{g} + 'static") } else { format!("{g}: 'static") }).collect();
            format!("fn f{n}<{}>() {{\n    fn implements<T: {tr}>() {{}}\n    implements::<{t}>();\n}}\n", g.join(", "))
        }
        Body::Coerce { ty, lts, inner, outlives } => {
            generics.push(format!("'a, 'b{}", if *outlives { ": 'a" } else { "" }));
            types(&mut generics);
            let f = |i: usize| {
                let v = vt.replace("'x", LTS[inner[i] as usize]);
                TYPES[*ty as usize].replace("'p", LTS[lts[i] as usize]).replace("K, V>", &format!("{key}, {v}>")).replace(" V>", &format!(" {v}>")).replace("K>", &format!("{key}>"))
            };
            format!("fn f{n}<{}>(x: {}) -> {} {{\n    x\n}}\n", generics.join(", "), f(0), f(1))
        }
    }
}

/// Whether the program states itself how its lifetimes relate, and does not
/// only imply it by the types it mentions: whether that is seen depends on how
/// these types are defined.
fn explicit(c: &Case) -> bool {
    let outlives = |a: u8, b: u8, stated: bool| a == b || a == 2 || (stated && a == 1 && b == 0);
    let generic = c.key as usize == GENERIC_KEY || c.value as usize == GENERIC_VALUE;
    match &c.body {
        Body::Run { .. } | Body::Implements { .. } => true,
        Body::Signature { outlives: false, .. } | Body::Coerce { outlives: false, .. } if generic => false,
        Body::Signature { lts: [p, q, r], inner: [i, j], outlives: o, .. } => outlives(*i, *p, *o) && outlives(*i, *q, *o) && outlives(*j, *r, *o) && outlives(*p, *q, *o),
        Body::Coerce { lts, inner, outlives: o, .. } => (0..2).all(|n| outlives(inner[n], lts[n], *o)),
    }
}

const ENUMS: &str = "
@ pub enum U3 { A, B, C }
@bitset pub enum B5 { A, B, C, D, E }
@ pub enum Cf { P(bool), Q(Option<U3>), R }
@ pub enum Cd { P(u32), Q, S(&'static str) }
@ pub enum Cn { P(Cf), Q(Option<Cd>), R(()) }
";

fn prelude(real: bool) -> String {
    let mut s = String::from("#![allow(warnings)]\n");
    s += if real { "use fixed_map as api;\n" } else { "use shim as api;\n" };
    s += "use api::map::{self, OccupiedEntry as _, VacantEntry as _};\nuse api::set;\nuse api::option_bucket::{NoneBucket, OptionBucket, SomeBucket};\nuse api::{Key, Map, Set};\n";
    s += "use std::{cell::Cell, fmt::Debug, hash::Hash, panic::{RefUnwindSafe, UnwindSafe}, rc::Rc, sync::MutexGuard};\n";
    for l in ENUMS.trim().lines() {
        let d = "#[derive(Clone, Copy, PartialEq, Eq, Debug";
        let d = match (real, l.starts_with("@bitset")) {
            (true, true) => format!("{d}, Key)] #[key(bitset)]"),
            (true, false) => format!("{d}, Key)]"),
            _ => format!("{d})]"),
        };
        s += &l.replace("@bitset", &d).replace("@", &d);
        s += "\n";
    }
    s += if real { "type En<'a, K, V> = map::Entry<'a, <K as Key>::MapStorage<V>, K, V>;\n" } else { "type En<'a, K, V> = map::Entry<'a, K, V>; api::keys! { unit U3, unit B5, fixed Cf, dynamic Cd, dynamic Cn }\n" };
    s += "struct Plain; struct Dropped<'a>(&'a str); impl Drop for Dropped<'_> { fn drop(&mut self) {} }\n";
    s += "fn touch<T>(_: T) {} fn send<T: Send>(_: T) {} fn sync<T: Sync>(_: &T) {} fn stat<T: 'static>(_: T) {} fn debug<T: Debug>(_: &T) {} fn gv<T>() -> T { loop {} } fn guard() -> MutexGuard<'static, u32> { loop {} }\n";
    s
}

fn file(cases: &[&Case], real: bool) -> (String, Vec<(usize, usize)>) {
    let mut out = prelude(real);
    let mut line = out.lines().count() + 1;
    let mut regions = Vec::new();
    for (n, c) in cases.iter().enumerate() {
        let t = render(c, n);
        let l = t.lines().count();
        regions.push((line, line + l - 1));
        line += l;
        out += &t;
    }
    (out, regions)
}

#[derive(Clone, Debug)]
enum Verdict {
    /// Accepted, or rejected with this error, as it has to be.
    Held(Option<String>),
    /// Neither is required.
    Open,
    Broken(String),
    Unusable(String),
}

struct Ctx {
    /// fixed-map, strict, lax.
    built: [Built; 3],
    dir: PathBuf,
}

impl Ctx {
    /// For each program the first error. Those without are compiled again
    /// until there is none: some errors keep the compiler from finding others.
    fn side(&self, stem: &str, cases: &[&Case], side: usize) -> Result<Vec<Option<String>>, String> {
        let mut out = vec![None; cases.len()];
        loop {
            let left: Vec<usize> = (0..cases.len()).filter(|i| out[*i].is_none()).collect();
            if left.is_empty() {
                return Ok(out);
            }
            let (text, regions) = file(&left.iter().map(|i| cases[*i]).collect::<Vec<_>>(), side == 0);
            let src = self.dir.join(format!("{stem}_{side}.rs"));
            std::fs::write(&src, text).unwrap();
            let o = rustc::rustc(&self.built[side], &[if side == 0 { "fixed_map" } else { "shim" }], &src, None, &["--edition=2021", "--crate-type=lib", "-Cdebuginfo=0"]);
            if let Some(b) = o.broken {
                return Err(b);
            }
            if o.ok {
                return Ok(out);
            }
            let mut more = false;
            for e in &o.errors {
                match regions.iter().position(|r| e.primary.iter().any(|p| p.0 >= r.0 && p.1 <= r.1)) {
                    Some(i) => {
                        more = true;
                        if out[left[i]].is_none() {
                            out[left[i]] = Some(e.rendered.clone());
                        }
                    }
                    None => return Err(e.rendered.clone()),
                }
            }
            if !more {
                return Err("the compiler fails without an error".into());
            }
        }
    }
    fn judge(&self, stem: &str, cases: &[&Case]) -> Vec<Verdict> {
        let mut r = Vec::new();
        for side in [0, 1, 2] {
            match self.side(stem, cases, side) {
                Ok(v) => r.push(v),
                Err(e) => return vec![Verdict::Unusable(e); cases.len()],
            }
        }
        (0..cases.len())
            .map(|i| match (&r[0][i], &r[1][i], &r[2][i]) {
                (_, None, Some(e)) => Verdict::Unusable(format!("the references disagree: {e}")),
                (None, _, None) if r[1][i].is_none() => Verdict::Held(None),
                (Some(_), _, Some(e)) => Verdict::Held(Some(e.strip_prefix("error[").and_then(|e| e.split(']').next()).unwrap_or("lifetime").into())),
                (None, _, Some(e)) => Verdict::Broken(format!("the compiler accepts it; over a container written in safe Rust it says: {e}")),
                (Some(_), None, _) if !explicit(cases[i]) => Verdict::Open,
                // A type which is to be written down concerns no borrows.
                (Some(e), None, _) if e.starts_with("error[E0282]") || e.starts_with("error[E0283]") => Verdict::Open,
                (Some(e), None, _) => Verdict::Broken(format!("the compiler rejects it, and accepts it over a container written in safe Rust: {e}")),
                _ => Verdict::Open,
            })
            .collect()
    }
}

fn kind(c: &Case) -> &'static str {
    match &c.body {
        Body::Run { .. } => "statements",
        Body::Signature { .. } => "signature with lifetimes",
        Body::Implements { .. } => "implemented traits",
        Body::Coerce { .. } => "conversion of lifetimes",
    }
}

fn shim(dir: &PathBuf, strict: bool) -> Built {
    let d = dir.join(if strict { "strict" } else { "lax" });
    std::fs::create_dir_all(&d).unwrap();
    let src = d.join("shim.rs");
    std::fs::write(&src, SHIM).unwrap();
    let lib = d.join("libshim.rlib");
    let mut c = Command::new("rustc");
    c.args(["--edition=2021", "--crate-type=lib", "--crate-name=shim", "-Cdebuginfo=0"]);
    if strict {
        c.args(["--cfg", "strict"]);
    }
    c.arg(&src).arg("-o").arg(&lib);
    let (st, _, e) = rustc::limited(c, Duration::from_secs(120));
    if !st.is_some_and(|s| s.success()) {
        eprintln!("C26: the reference does not compile: {}", String::from_utf8_lossy(&e));
        exit(2);
    }
    Built { libs: vec![("shim".into(), lib)], exes: Vec::new(), deps: d }
}

fn main() {
    let start = Instant::now();
    let id: &'static str = if std::env::args().any(|a| a == "--for-c10") { "C10" } else { "C26" };
    let dir = report::work_dir(if id == "C10" { "C10_borrows" } else { "C26" });
    let root = report::root();
    let real = match rustc::cargo_build(&root.join("progs-support/Cargo.toml"), &root.join("target/progs"), &[]) {
        Ok(b) => b,
        Err(e) => {
            eprintln!("{id}: the support of generated programs does not build: {e}");
            exit(2);
        }
    };
    let cx = Ctx { built: [real, shim(&dir, true), shim(&dir, false)], dir: dir.clone() };
    let args: Vec<String> = std::env::args().collect();
    if args.get(1).map(String::as_str) == Some("--replay") {
        let v: serde_json::Value = serde_json::from_slice(&std::fs::read(&args[2]).expect("replay file")).expect("replay file");
        let src = dir.join("replay.rs");
        std::fs::write(&src, v["program"].as_str().expect("program")).unwrap();
        let o = rustc::rustc(&cx.built[0], &["fixed_map"], &src, None, &["--edition=2021", "--crate-type=lib", "-Cdebuginfo=0"]);
        if let Some(b) = o.broken {
            eprintln!("{b}");
            exit(2);
        }
        if o.ok != v["accepted"].as_bool().expect("accepted") {
            println!("failed: {}\nVIOLATION property={id} replay={}", if o.ok { "accepted".into() } else { o.rendered() }, args[2]);
            exit(1);
        }
        println!("held");
        exit(0);
    }

    let per = 150;
    let batches = if report::thorough() { 1200 } else { 56 };
    let tree = |n: usize| case(n).new_tree(&mut report::runner(id, &format!("case {n}"))).unwrap();
    let cases: Vec<Vec<Case>> = rustc::parallel(batches, |b| (0..per).map(|i| tree(b * per + i).current()).collect());
    let results: Vec<Vec<(usize, usize, Verdict)>> = rustc::parallel(batches, |b| {
        let all: Vec<&Case> = cases[b].iter().collect();
        let vs = cx.judge(&format!("b{b}"), &all);
        let mut alone = 0;
        vs.into_iter()
            .enumerate()
            .map(|(i, v)| {
                // On its own, it has to fail as well.
                let v = match v {
                    Verdict::Held(_) | Verdict::Open => v,
                    _ if alone < 12 => {
                        alone += 1;
                        cx.judge(&format!("b{b}_i{i}"), &[&cases[b][i]]).remove(0)
                    }
                    v => v,
                };
                (b, i, v)
            })
            .collect()
    });

    let mut classes: BTreeMap<String, u64> = BTreeMap::new();
    let (mut accepted, mut rejected, mut open, mut plain, mut unusable) = (0u64, 0u64, 0u64, 0u64, 0usize);
    let mut distinct = HashSet::new();
    let mut samples = Vec::new();
    let mut broken = Vec::new();
    for (b, i, v) in results.into_iter().flatten() {
        let c = &cases[b][i];
        match v {
            // Mistakes of the generator: types which do not match, methods which are not there.
            Verdict::Held(Some(e)) if matches!(e.as_str(), "E0308" | "E0599" | "E0618" | "E0614" | "E0689") => plain += 1,
            Verdict::Held(e) => {
                let yes = e.is_none();
                *if yes { &mut accepted } else { &mut rejected } += 1;
                *classes.entry(format!("{}: {}", kind(c), if yes { "accepted" } else { "rejected" })).or_default() += 1;
                *classes.entry(format!("key {}", KEYS[c.key as usize].0)).or_default() += 1;
                if let Some(e) = e {
                    *classes.entry(format!("rejected: {e}")).or_default() += 1;
                }
                distinct.insert(c.clone());
                if samples.len() < 6 && (accepted + rejected) % 41 == 7 {
                    samples.push(serde_json::json!({"program": render(c, 0), "outcome": if yes { "accepted" } else { "rejected" }}));
                }
            }
            Verdict::Open => open += 1,
            Verdict::Unusable(e) => {
                unusable += 1;
                if std::env::var_os("FM_STRICT").is_some() {
                    println!("unusable: {e}\n{}", render(c, 0));
                }
                if unusable * 20 > batches * per {
                    eprintln!("{id}: too many programs are unusable: {e}");
                    exit(2);
                }
            }
            // Undefined behaviour is only what is accepted.
            Verdict::Broken(e) if id == "C26" || e.starts_with("the compiler accepts") => broken.push((b, i, e)),
            Verdict::Broken(_) => {}
        }
    }

    // Shrink the first few failures, of different kinds.
    broken.sort_by_key(|x| render(&cases[x.0][x.1], 0).len());
    let total = broken.len();
    if std::env::var_os("FM_STRICT").is_some() {
        for (b, i, e) in &broken {
            println!("{e}\n{}", render(&cases[*b][*i], 0));
        }
    }
    let end = Instant::now() + Duration::from_secs(if report::thorough() { 600 } else { 120 });
    let mut kinds = HashSet::new();
    let mut violations: Vec<(Case, String)> = Vec::new();
    for (b, i, e) in broken {
        if violations.len() >= 3 || !kinds.insert((kind(&cases[b][i]), e.starts_with("the compiler accepts"))) {
            continue;
        }
        let mut tree = tree(b * per + i);
        let mut best = (tree.current(), e);
        let mut steps = 0;
        if tree.simplify() {
            while Instant::now() < end && steps < 200 {
                steps += 1;
                let cur = tree.current();
                let go = match cx.judge("shrink", &[&cur]).remove(0) {
                    Verdict::Broken(e) if id == "C26" || e.starts_with("the compiler accepts") => {
                        best = (cur, e);
                        tree.simplify()
                    }
                    _ => tree.complicate(),
                };
                if !go {
                    break;
                }
            }
        }
        violations.push(best);
    }
    if id == "C26" {
        Evidence {
            id,
            evaluations: accepted + rejected + plain + total as u64,
            distinct_nontrivial: distinct.len() as u64,
            rule: "a generated program on which the two reference containers decide: rejected over the most lenient sound container, or accepted over the strict one; not counted are programs rejected as types do not match or methods are not there",
            samples: samples.clone(),
            more: serde_json::json!({"classes": &classes, "accepted": accepted, "rejected": rejected, "undecided": open, "rejected_for_mismatched_types": plain, "files": batches}),
            assumptions: vec!["the two reference containers bound what a container in safe Rust may accept", "rustc reports the errors of each function independently of the others, which is verified for each failure"],
            violations: total,
            start,
        }
        .write();
    }
    // The other part of C10 wrote the evidence.
    let path = root.join("evidence/C10.json");
    if let (true, Ok(text)) = (id == "C10", std::fs::read_to_string(&path)) {
        let mut v: serde_json::Value = serde_json::from_str(&text).expect("evidence");
        v["coverage"]["programs_type_checked"] = serde_json::json!({"accepted": accepted, "rejected": rejected, "undecided": open, "distinct": distinct.len(), "classes": classes, "samples": samples});
        let n = v["violations"].as_u64().unwrap_or(0) + total as u64;
        v["violations"] = n.into();
        std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap() + "\n").unwrap();
    }
    for (c, e) in &violations {
        let p = report::write_replay(
            id,
            &serde_json::json!({"property": id, "reason": e, "program": file(&[c], true).0, "accepted": !e.starts_with("the compiler accepts"), "seed": report::seed()}),
        );
        println!("{}: {e}\n{}VIOLATION property={id} replay={}", kind(c), render(c, 0), p.display());
    }
    if !violations.is_empty() {
        println!("{id}: {total} of {} programs failed", accepted + rejected + total as u64);
        exit(1);
    }
    let _ = std::fs::remove_dir_all(&dir);
    println!("{id}: held on {} programs ({} distinct; {accepted} accepted, {rejected} rejected, {open} undecided, {plain} of mismatched types) in {:.1} s", accepted + rejected, distinct.len(), start.elapsed().as_secs_f64());
}
