//! Generates the roster of key types which every check explores: hand chosen
//! shapes around the boundaries of the implementation plus shapes drawn from
//! VERIF_SEED.
use std::fmt::Write as _;

#[path = "src/gen.rs"]
#[allow(dead_code)]
mod gen;
use gen::*;

struct Roster {
    src: String,
    // (ident, type source, is unit enum or (), is fixed, is bitset)
    all: Vec<(String, String, bool, bool)>,
    decls: Vec<Decl>,
}

impl Roster {
    fn fixed_ty(&self, t: &Ty) -> bool {
        match t {
            Ty::Bool | Ty::Unit => true,
            Ty::Prim(_) => false,
            Ty::Opt(t) => self.fixed_ty(t),
            Ty::Enum(n) => self.fixed_decl(self.decls.iter().find(|d| &d.name == n).unwrap()),
        }
    }
    fn fixed_decl(&self, d: &Decl) -> bool {
        d.variants.iter().all(|v| v.payload.as_ref().map_or(true, |t| self.fixed_ty(t)))
    }
    fn size(&self, t: &Ty) -> usize {
        match t {
            Ty::Bool => 2,
            Ty::Unit => 1,
            Ty::Prim(_) => 20,
            Ty::Opt(t) => 1 + self.size(t),
            Ty::Enum(n) => {
                let d = self.decls.iter().find(|d| &d.name == n).unwrap();
                d.variants.iter().map(|v| v.payload.as_ref().map_or(1, |t| self.size(t))).sum()
            }
        }
    }
    fn ty(&mut self, id: &str, t: Ty) {
        let fixed = self.fixed_ty(&t);
        let _ = writeln!(self.src, "impl_meta!({}, \"{}\");", t.src(), t.src());
        self.all.push((id.into(), t.src(), false, fixed));
    }
    fn decl(&mut self, d: Decl) {
        let fixed = self.fixed_decl(&d);
        emit_decl(&mut self.src, &d, fixed);
        self.all.push((d.name.to_lowercase(), d.name.clone(), d.is_unit(), fixed));
        self.decls.push(d);
    }
}

fn emit_decl(out: &mut String, d: &Decl, fixed: bool) {
    let m = d.name.to_lowercase();
    let n = &d.name;
    let _ = writeln!(out, "pub mod {m} {{ use super::*;");
    if let Some(r) = d.repr {
        let _ = writeln!(out, "#[repr({r})]");
    }
    let _ = writeln!(out, "#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, fixed_map::Key)]");
    if d.bitset {
        let _ = writeln!(out, "#[key(bitset)]");
    }
    let _ = writeln!(out, "pub enum {n} {{");
    for v in &d.variants {
        let p = v.payload.as_ref().map_or(String::new(), |t| format!("({})", t.src()));
        let q = v.disc.map_or(String::new(), |x| format!(" = {x}"));
        let _ = writeln!(out, "    {}{p}{q},", v.name);
    }
    let _ = writeln!(out, "}}");
    let _ = writeln!(out, "impl Pool for {n} {{ const DYNAMIC: bool = {};", !fixed);
    let _ = writeln!(out, "fn pool(cap: usize, flavour: u32) -> Vec<(Self, Vec<u16>)> {{ let _ = (cap, flavour); #[allow(unused_mut)] let mut out = Vec::new();");
    for (i, v) in d.variants.iter().enumerate() {
        match &v.payload {
            None => { let _ = writeln!(out, "out.push(({n}::{}, vec![{i}u16]));", v.name); }
            Some(t) => { let _ = writeln!(out, "sub(&mut out, {i}u16, <{} as Pool>::pool(20, flavour), {n}::{});", t.src(), v.name); }
        }
    }
    let _ = writeln!(out, "out }} }}\nimpl Foot for {n} {{ const UNIT: bool = {}; const BITSET: bool = {};", d.is_unit(), d.bitset);
    let _ = writeln!(out, "fn parts<V>() -> (Vec<(usize, usize)>, Vec<(usize, usize)>) {{ (vec![");
    for v in &d.variants {
        let _ = match &v.payload {
            None => write!(out, "size::<Option<V>>(), "),
            Some(t) => write!(out, "size::<fixed_map::Map<{}, V>>(), ", t.src()),
        };
    }
    let _ = writeln!(out, "], vec![");
    for v in &d.variants {
        let _ = match &v.payload {
            None => write!(out, "size::<bool>(), "),
            Some(t) => write!(out, "size::<fixed_map::Set<{}>>(), ", t.src()),
        };
    }
    let _ = writeln!(out, "]) }} }}");
    let _ = writeln!(out, "serde_by_index!({n});\nimpl_meta!({n}, \"{n}\"); }}\npub use {m}::{n};");
}

fn units(name: &str, n: usize, bitset: bool) -> Decl {
    Decl {
        name: name.into(),
        bitset,
        repr: None,
        variants: (0..n).map(|i| Variant { name: format!("V{i}"), payload: None, disc: None }).collect(),
    }
}

fn discs(mut d: Decl, repr: &'static str, f: impl Fn(usize) -> Option<i128>) -> Decl {
    d.repr = Some(repr);
    for (i, v) in d.variants.iter_mut().enumerate() {
        v.disc = f(i);
    }
    d
}

fn comp(name: &str, ps: Vec<Option<Ty>>) -> Decl {
    Decl {
        name: name.into(),
        bitset: false,
        repr: None,
        variants: ps.into_iter().enumerate().map(|(i, p)| Variant { name: format!("V{i}"), payload: p, disc: None }).collect(),
    }
}

fn opt(t: Ty) -> Ty { Ty::Opt(Box::new(t)) }
fn e(n: &str) -> Ty { Ty::Enum(n.into()) }
fn p(n: &'static str) -> Ty { Ty::Prim(n) }

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-changed=src/gen.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let out = std::env::var("OUT_DIR").unwrap();

    let mut r = Roster { src: String::new(), all: Vec::new(), decls: Vec::new() };
    // Unit enums.
    for n in [0usize, 1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 33, 64, 65, 129, 260] {
        r.decl(units(&format!("U{n}"), n, false));
    }
    r.decl(discs(units("Ud5", 5, false), "i8", |i| Some([100, -128, 3, -1, 2][i])));
    r.decl(discs(units("Ud6", 6, false), "u64", |i| [Some(u64::MAX as i128), Some(7), None, Some(0), None, Some(1 << 40)][i]));
    r.decl(discs(units("Ud12", 12, false), "i64", |i| if i % 3 == 0 { Some(50 - 20 * i as i128) } else { None }));
    // Discriminants which could be taken for positions.
    r.decl(discs(units("Up7", 7, false), "u8", |i| Some((i as i128 * 3 + 2) % 7)));
    // Bitset enums.
    for n in [0usize, 1, 2, 3, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128] {
        r.decl(units(&format!("B{n}"), n, true));
    }
    r.decl(discs(units("Bd4", 4, true), "i32", |i| Some([1000, -5, 70000, 2][i])));
    r.decl(discs(units("Bd11", 11, true), "u8", |i| if i == 0 { Some(200) } else if i == 5 { Some(10) } else { None }));
    r.decl(discs(units("Bd40", 40, true), "i16", |i| Some(300 - 7 * i as i128)));
    r.decl(discs(units("Bp9", 9, true), "isize", |i| Some((i as i128 * 2 + 5) % 9)));
    r.decl(discs(units("Bf8", 8, true), "u8", |i| Some(1 << (7 - i))));
    // Leaves.
    r.ty("bool_", Ty::Bool);
    r.ty("unit_", Ty::Unit);
    for (i, prim) in PRIMS.iter().enumerate() {
        r.ty(&format!("prim{i}"), p(prim));
    }
    // Composite, fixed.
    r.decl(comp("Cf1", vec![Some(Ty::Bool), None]));
    r.decl(comp("Cf2", vec![None, Some(Ty::Unit), Some(opt(Ty::Bool))]));
    r.decl(comp("Cf3", vec![Some(e("U3")), None, Some(e("B9")), Some(e("U1"))]));
    r.decl(comp("Cf4", vec![Some(e("Cf1")), Some(opt(e("Cf1"))), Some(Ty::Bool), None]));
    r.decl(comp("Cf5", vec![None, None, None, Some(Ty::Bool), None, Some(e("U2")), None, None]));
    r.decl(comp("Cf6", vec![Some(e("Cf4")), Some(opt(opt(e("U3")))), Some(Ty::Unit), Some(e("Cf2"))]));
    r.decl(comp("Cf7", (0..21).map(|i| match i % 7 { 0 => None, 1 => Some(Ty::Bool), 2 => Some(Ty::Unit), 3 => Some(opt(Ty::Unit)), 4 => Some(e("U2")), 5 => Some(opt(e("U3"))), _ => Some(e("B7")) }).collect()));
    r.decl(comp("Cf8", vec![Some(e("U0")), Some(Ty::Bool), None, Some(Ty::Unit)]));
    r.decl(comp("Cf9", (0..70).map(|i| if i % 23 == 5 { Some(Ty::Bool) } else { None }).collect()));
    r.decl(comp("Cf10", vec![Some(Ty::Bool)]));
    r.decl(comp("Cf11", vec![Some(Ty::Bool), Some(Ty::Bool), Some(Ty::Bool)]));
    r.decl(discs(comp("Cf12", vec![None, Some(opt(Ty::Bool)), None, Some(e("Ud5"))]), "i16", |i| Some([9, -4, 300, 0][i])));
    // Options.
    r.ty("opt1", opt(Ty::Bool));
    r.ty("opt2", opt(opt(Ty::Bool)));
    r.ty("opt3", opt(Ty::Unit));
    r.ty("opt4", opt(opt(opt(Ty::Unit))));
    r.ty("opt5", opt(e("U3")));
    r.ty("opt6", opt(e("B17")));
    r.ty("opt7", opt(e("Cf4")));
    r.ty("opt8", opt(e("U0")));
    // Dynamic.
    r.ty("opt9", opt(p("u32")));
    r.ty("opt10", opt(p("&'static str")));
    r.ty("opt11", opt(opt(p("i8"))));
    r.decl(comp("Cd1", vec![Some(p("u32")), None, Some(Ty::Bool)]));
    r.decl(comp("Cd2", vec![Some(p("&'static str")), Some(opt(p("char"))), Some(e("Cf1")), Some(p("i128"))]));
    r.decl(comp("Cd3", vec![Some(e("Cd1")), Some(e("Cd2")), Some(opt(e("Cd1"))), None]));
    r.decl(comp("Cd4", vec![Some(p("u8")), Some(p("u8")), Some(opt(p("u8"))), Some(p("u8")), None, Some(p("i8"))]));
    r.decl(comp("Cd5", vec![None, Some(p("u64")), None, Some(p("&'static [u8]")), Some(e("U5"))]));
    // Seed dependent shapes.
    let mut rng = Rng(seed ^ 0x5EED_F00D);
    for i in 0..10 {
        let fixed = i < 7;
        let n = 1 + rng.below(7) as usize;
        let mut ps = Vec::new();
        for _ in 0..n {
            ps.push(if rng.below(3) == 0 { None } else { Some(rand_ty(&r, &mut rng, 2, fixed)) });
        }
        if ps.iter().all(|p| p.is_none()) {
            ps.push(Some(Ty::Bool));
        }
        if !fixed {
            let at = rng.below(ps.len() as u64 + 1) as usize;
            ps.insert(at, Some(p(PRIMS[rng.below(PRIMS.len() as u64) as usize])));
        }
        let mut d = comp(&format!("R{i}"), ps);
        // Keep the number of keys manageable.
        loop {
            let total: usize = d.variants.iter().map(|v| v.payload.as_ref().map_or(1, |t| r.size(t))).sum();
            if total <= 150 || d.variants.len() == 1 { break; }
            d.variants.pop();
        }
        r.decl(d);
    }
    for i in 10..13 {
        let n = 2 + rng.below(90) as usize;
        r.decl(units(&format!("R{i}"), n, i != 10));
    }

    // Registry macros.
    let mut src = r.src;
    let mac = |name: &str, src: &mut String, f: &dyn Fn(&(String, String, bool, bool)) -> bool| {
        let _ = writeln!(src, "#[macro_export] macro_rules! {name} {{ ($m:ident) => {{");
        for a in r.all.iter().filter(|a| f(a)) {
            let _ = writeln!(src, "$m! {{ {} {} }}", a.0, a.1);
        }
        let _ = writeln!(src, "}} }}");
    };
    mac("for_each_key", &mut src, &|_| true);
    mac("for_each_unit_key", &mut src, &|a| a.2);
    mac("for_each_fixed_key", &mut src, &|a| a.3);
    mac("for_each_enum", &mut src, &|a| a.0 == a.1.to_lowercase());
    mac("for_each_dyn_key", &mut src, &|a| !a.3);
    mac("for_each_some_fixed_key", &mut src, &|a| ["u0","u1","u3","u9","u65","ud5","b1","b5","b17","b33","b128","bool_","unit_","cf1","cf2","cf3","cf4","cf5","cf6","cf7","cf8","cf11","opt1","opt2","opt3","opt5","opt6","opt7","opt8","r0","r1"].contains(&a.0.as_str()));
    mac("for_each_small_key", &mut src, &|a| ["u1","u3","u9","ud5","b2","b9","b65","bool_","unit_","cf1","cf4","cf6","cf11","opt1","opt3","opt5","opt9","prim2","prim11","cd1","cd3","cd4","r0","r1","r8"].contains(&a.0.as_str()));
    std::fs::write(format!("{out}/keys.rs"), src).unwrap();

    // Twins: the same enum with and without the bitset attribute.
    let mut src = String::new();
    let mut list = Vec::new();
    let mut sizes: Vec<usize> = vec![0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128];
    for _ in 0..3 {
        sizes.push(4 + rng.below(124) as usize);
    }
    sizes.sort();
    sizes.dedup();
    for n in sizes {
        for bitset in [false, true] {
            let d = units(&format!("{}{n}", if bitset { "Tb" } else { "Tr" }), n, bitset);
            emit_decl(&mut src, &d, true);
        }
        list.push((n, format!("Tr{n}"), format!("Tb{n}")));
    }
    for (k, n) in [(1usize, 6usize), (2, 19), (3, 66), (4, 7), (5, 8), (6, 20), (7, 12)] {
        for bitset in [false, true] {
            let mut d = units(&format!("{}x{k}", if bitset { "Tb" } else { "Tr" }), n, bitset);
            d = match k {
                1 => discs(d, "i8", |i| Some([5, -1, 100, -128, 0, 64][i])),
                2 => discs(d, "u16", |i| Some(4000 - 200 * i as i128)),
                4 => discs(d, "isize", |i| Some((i as i128 * 3 + 2) % 7)),
                5 => discs(d, "u8", |i| Some(1 << (7 - i))),
                6 => discs(d, "u32", |i| Some(19 - i as i128)),
                7 => discs(d, "u16", |i| Some(1 << ((i * 5 + 3) % 12))),
                _ => discs(d, "i64", |i| if i % 9 == 0 { Some(-1000 + 37 * ((i as i128 * 5) % 66)) } else { None }),
            };
            // Avoid accidental duplicates of implicit discriminants.
            let mut seen = std::collections::BTreeSet::new();
            let mut cur: i128 = -1;
            for v in d.variants.iter_mut() {
                cur = v.disc.unwrap_or(cur + 1);
                while !seen.insert(cur) { cur += 11; v.disc = Some(cur); }
            }
            emit_decl(&mut src, &d, true);
        }
        list.push((n, format!("Trx{k}"), format!("Tbx{k}")));
    }
    let _ = writeln!(src, "#[macro_export] macro_rules! for_each_twin {{ ($m:ident) => {{");
    for (n, a, b) in &list {
        let _ = writeln!(src, "$m! {{ {n} {} {a} {b} }}", a.to_lowercase());
    }
    let _ = writeln!(src, "}} }}");
    std::fs::write(format!("{out}/twins.rs"), src).unwrap();
}

fn rand_ty(r: &Roster, rng: &mut Rng, depth: u32, fixed: bool) -> Ty {
    match rng.below(if depth == 0 { 3 } else { 8 }) {
        0 => Ty::Bool,
        1 => Ty::Unit,
        2 => {
            if !fixed && rng.below(2) == 0 {
                Ty::Prim(PRIMS[rng.below(PRIMS.len() as u64) as usize])
            } else {
                Ty::Bool
            }
        }
        3 | 4 => opt(rand_ty(r, rng, depth - 1, fixed)),
        _ => {
            // Any earlier enum which is small enough.
            let c: Vec<&Decl> = r.decls.iter().filter(|d| (!fixed || r.fixed_decl(d)) && d.variants.len() < 20 && r.size(&e(&d.name)) <= 60).collect();
            e(&c[rng.below(c.len() as u64) as usize].name)
        }
    }
}
