//! Runs histories over maps and sets and writes down all that can be observed.
//! Built once per combination of features; the traces are to be the same.
//!
//! Usage: tracer FILE [full]. Lines of the file: the index of the key type and
//! the operations, three bytes each, in hexadecimal digits. Lines of output:
//! digests of the trace, without and with what only serde adds, or the traces.
#![allow(warnings)]
use std::fmt::{Debug, Write as _};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::raw::RawStorage;
use fixed_map::{Key, Map, Set};

#[cfg(feature = "with_serde")]
#[macro_use]
mod ser;
#[cfg(not(feature = "with_serde"))]
macro_rules! by_index {
    ($n:ident) => {};
}
#[macro_use]
mod roster;
use roster::*;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug, Default)]
pub struct Val(pub u8);

/// Writes down what is hashed.
struct Rec(String);
impl Hasher for Rec {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        let _ = write!(self.0, "{b:x?}");
    }
    fn write_u8(&mut self, v: u8) {
        let _ = write!(self.0, "u8 {v} ");
    }
    fn write_u64(&mut self, v: u64) {
        let _ = write!(self.0, "u64 {v} ");
    }
    fn write_usize(&mut self, v: usize) {
        let _ = write!(self.0, "usize {v} ");
    }
    fn write_isize(&mut self, v: isize) {
        let _ = write!(self.0, "isize {v} ");
    }
}

// What only some types have, by autoref specialization.
pub struct Is<'a, T>(pub &'a T);
macro_rules! capability {
    ($yes:ident $no:ident $f:ident ($($a:ident: $at:ty),*) $b:tt, $($bound:tt)*) => {
        pub trait $yes<T> { fn $f(&self, $($a: $at),*) -> String; }
        impl<T: $($bound)*> $yes<T> for Is<'_, T> { fn $f(&self, $($a: $at),*) -> String { let x = self.0; ($b)(x, $($a),*) } }
        pub trait $no<T> { fn $f(&self, $($a: $at),*) -> String; }
        impl<T> $no<T> for &Is<'_, T> { fn $f(&self, $($a: $at),*) -> String { let _ = ($($a),*); "none".into() } }
    };
}
capability!(YesPart NoPart part(o: &T) { |x: &T, o: &T| format!("{:?} {} {} {} {}", x.partial_cmp(o), x < o, x <= o, x > o, x >= o) }, PartialOrd);
capability!(YesOrd NoOrd ord(o: &T) { |x: &T, o: &T| format!("{:?}", x.cmp(o)) }, Ord);
capability!(YesMax NoMax maxmin(o: &T) { |x: &T, o: &T| format!("{:?} {:?} {:?}", x.clone().max(o.clone()), x.clone().min(o.clone()), x.clone().clamp(o.clone().min(x.clone()), o.clone())) }, Ord + Clone + Debug);
capability!(YesHash NoHash hash_of() { |x: &T| { let mut r = Rec(String::new()); x.hash(&mut r); r.0 } }, Hash);
capability!(YesCopy NoCopy copies() { |_: &T| "copy".to_string() }, Copy);

/// Steps through an iterator from both ends, where it has them.
pub struct Ends<'a, I>(pub &'a mut Option<I>);
pub trait YesBack<I: Iterator> {
    fn back(&mut self) -> Option<Option<I::Item>>;
}
impl<I: DoubleEndedIterator> YesBack<I> for Ends<'_, I> {
    fn back(&mut self) -> Option<Option<I::Item>> {
        Some(self.0.as_mut().unwrap().next_back())
    }
}
pub trait NoBack<I: Iterator> {
    fn back(&mut self) -> Option<Option<I::Item>>;
}
impl<I: Iterator> NoBack<I> for &mut Ends<'_, I> {
    fn back(&mut self) -> Option<Option<I::Item>> {
        None
    }
}
capability!(YesLen NoLen exact_len() { |x: &T| x.len().to_string() }, ExactSizeIterator);
pub struct Clones<'a, I>(pub &'a Option<I>);
pub trait YesDup<I: Iterator> {
    fn dup(&self) -> Option<Vec<I::Item>>;
}
impl<I: Iterator + Clone> YesDup<I> for Clones<'_, I> {
    fn dup(&self) -> Option<Vec<I::Item>> {
        Some(self.0.clone().unwrap().collect())
    }
}
pub trait NoDup<I: Iterator> {
    fn dup(&self) -> Option<Vec<I::Item>>;
}
impl<I: Iterator> NoDup<I> for &Clones<'_, I> {
    fn dup(&self) -> Option<Vec<I::Item>> {
        None
    }
}

macro_rules! steps {
    ($out:expr, $a:expr, $b:expr, $it:expr) => {{
        let mut it = Some($it);
        let (mut bits, mut n) = ($a, 0);
        loop {
            let _ = write!($out, " {:?}/{}", it.as_ref().unwrap().size_hint(), (&Is(it.as_ref().unwrap())).exact_len());
            if n % 3 == usize::from($b) % 3 {
                let _ = write!($out, " dup{:?}", (&Clones(&it)).dup());
            }
            let item = match bits % 4 {
                0 => (&mut Ends(&mut it)).back().unwrap_or_else(|| it.as_mut().unwrap().next()),
                1 if $b % 5 == 0 => it.as_mut().unwrap().nth(1),
                _ => it.as_mut().unwrap().next(),
            };
            let _ = write!($out, " {item:?}");
            n += 1;
            bits = bits.rotate_right(3) ^ $b;
            if item.is_none() || n > 200 {
                break;
            }
        }
    }};
}

/// What depends on the concrete type.
pub trait Caps: Key {
    fn name() -> &'static str;
    fn sizes() -> String;
    fn dup_map(m: &Map<Self, Val>) -> Map<Self, Val>;
    fn dup_set(m: &Set<Self>) -> Set<Self>;
    fn eq_maps(a: &Map<Self, Val>, b: &Map<Self, Val>) -> bool;
    fn eq_sets(a: &Set<Self>, b: &Set<Self>) -> bool;
    fn compare_maps(a: &Map<Self, Val>, b: &Map<Self, Val>, out: &mut String);
    fn compare_sets(a: &Set<Self>, b: &Set<Self>, out: &mut String);
    fn steps_map(which: u8, m: &mut Map<Self, Val>, a: u8, b: u8, out: &mut String);
    fn steps_set(which: u8, m: &Set<Self>, o: &Set<Self>, a: u8, b: u8, out: &mut String);
    fn raw(s: &mut Set<Self>, out: &mut String);
}

pub struct RawOf<'a, K: Key>(&'a mut Set<K>);
pub trait YesRaw {
    fn raw(&mut self) -> String;
}
impl<K: Key> YesRaw for RawOf<'_, K>
where
    K::SetStorage: RawStorage,
    <K::SetStorage as RawStorage>::Value: Debug,
{
    fn raw(&mut self) -> String {
        let s = format!("{:?}", self.0.as_raw());
        *self.0 = Set::from_raw(self.0.as_raw());
        s
    }
}
pub trait NoRaw {
    fn raw(&mut self) -> String;
}
impl<K: Key> NoRaw for &mut RawOf<'_, K> {
    fn raw(&mut self) -> String {
        "none".into()
    }
}

macro_rules! caps {
    ($t:ty, $dynamic:expr) => {{
        #[allow(unused_imports, unused_mut)]
        const _: () = {
            impl Caps for $t {
                fn name() -> &'static str {
                    stringify!($t)
                }
                fn dup_map(m: &Map<Self, Val>) -> Map<Self, Val> {
                    m.clone()
                }
                fn dup_set(s: &Set<Self>) -> Set<Self> {
                    s.clone()
                }
                fn eq_maps(a: &Map<Self, Val>, b: &Map<Self, Val>) -> bool {
                    assert_eq!(a == b, !(a != b));
                    a == b
                }
                fn eq_sets(a: &Set<Self>, b: &Set<Self>) -> bool {
                    assert_eq!(a == b, !(a != b));
                    a == b
                }
                fn sizes() -> String {
                    let (m, s) = (Map::<$t, Val>::new(), Set::<$t>::new());
                    // Those of hashbrown are its own.
                    let of = |n: usize| if $dynamic { 0 } else { n };
                    format!("{} {} {} {}", of(std::mem::size_of_val(&m)), of(std::mem::size_of_val(&s)), (&Is(&m)).copies(), (&Is(&s)).copies())
                }
                fn compare_maps(a: &Map<Self, Val>, b: &Map<Self, Val>, out: &mut String) {
                    let _ = write!(out, " {} {} {} {}", (&Is(a)).part(b), (&Is(a)).ord(b), (&Is(a)).maxmin(b), (&Is(a)).hash_of());
                    let f = |m: &Map<Self, Val>| m.iter().map(|(k, v)| (k, if v.0 % 5 == 0 { f32::NAN } else { f32::from(v.0) })).collect::<Map<$t, f32>>();
                    let (a, b) = (f(a), f(b));
                    let _ = write!(out, " {} {} {}", a == b, a == a.clone(), (&Is(&a)).part(&b));
                }
                fn compare_sets(a: &Set<Self>, b: &Set<Self>, out: &mut String) {
                    let _ = write!(out, " {} {} {} {}", (&Is(a)).part(b), (&Is(a)).ord(b), (&Is(a)).maxmin(b), (&Is(a)).hash_of());
                }
                fn steps_map(which: u8, m: &mut Map<Self, Val>, a: u8, b: u8, out: &mut String) {
                    match which % 8 {
                        0 => steps!(out, a, b, m.iter()),
                        1 => steps!(out, a, b, m.keys()),
                        2 => steps!(out, a, b, m.values()),
                        3 => steps!(out, a, b, m.iter_mut()),
                        4 => steps!(out, a, b, m.values_mut()),
                        5 => steps!(out, a, b, m.clone().into_iter()),
                        6 => steps!(out, a, b, (&*m).into_iter()),
                        _ => steps!(out, a, b, (&mut *m).into_iter()),
                    }
                }
                fn steps_set(which: u8, m: &Set<Self>, o: &Set<Self>, a: u8, b: u8, out: &mut String) {
                    match which % 4 {
                        0 => steps!(out, a, b, m.iter()),
                        1 => steps!(out, a, b, m.clone().into_iter()),
                        2 => steps!(out, a, b, m.intersection(o)),
                        _ => steps!(out, a, b, (&*m).into_iter()),
                    }
                }
                fn raw(s: &mut Set<Self>, out: &mut String) {
                    let _ = write!(out, " {}", (&mut RawOf(s)).raw());
                }
            }
        };
        run::<$t> as fn(&[u8], bool, &mut Out)
    }};
}

#[derive(Default)]
pub struct Out {
    main: String,
    serde: String,
}

#[cfg(feature = "with_serde")]
use ser::all as serde_ops;
#[cfg(not(feature = "with_serde"))]
fn serde_ops<K>(_: &Map<K, Val>, _: &Set<K>, _: &[u8; 2], _: bool, _: &mut String)
where
    K: Key,
{
}

/// Of dynamic keys the order is not known.
fn sorted(mut v: Vec<String>, dynamic: bool) -> String {
    if dynamic {
        v.sort();
    }
    v.join(" ")
}

fn scrambled(s: String, dynamic: bool) -> String {
    if !dynamic {
        return s;
    }
    let mut v: Vec<char> = s.chars().collect();
    v.sort_unstable();
    v.into_iter().collect()
}

fn run<K: Caps + Pool + Debug + PartialEq + Cased>(ops: &[u8], dynamic: bool, o: &mut Out) {
    let pool = K::pool();
    let mut m: [Map<K, Val>; 2] = [Map::new(), Map::default()];
    let mut s: [Set<K>; 2] = [Set::new(), Set::default()];
    let _ = write!(o.main, "{} {}", K::name(), K::sizes());
    for op in ops.chunks_exact(3) {
        let (k, key, a) = (op[0], op[1], op[2]);
        let w = usize::from(k >= 128);
        let out = &mut o.main;
        let _ = write!(out, "\n{k},{key},{a}:");
        let at = |b: u8| pool.get(usize::from(b) * pool.len() / 256).copied();
        let _ = match (k % 128, at(key)) {
            (0..=23, Some(x)) => write!(out, " {:?}", m[w].insert(x, Val(a))),
            (24..=29, Some(x)) => write!(out, " {:?}", m[w].remove(x)),
            (30..=32, Some(x)) => write!(out, " {:?} {}", m[w].get(x), m[w].contains_key(x)),
            (33..=35, Some(x)) => {
                if let Some(v) = m[w].get_mut(x) {
                    v.0 ^= a;
                }
                write!(out, " {:?}", m[w].get(x))
            }
            (36, _) => {
                m[w].clear();
                s[w].clear();
                Ok(())
            }
            (37..=41, _) => {
                let l = m[w].iter().map(|e| format!("{e:?}")).collect();
                write!(out, " {}", sorted(l, dynamic))
            }
            (42..=45, _) => {
                for (k, v) in m[w].iter_mut() {
                    v.0 = v.0.wrapping_add(a).wrapping_add(format!("{k:?}").len() as u8);
                }
                for v in m[w].values_mut() {
                    v.0 ^= a;
                }
                let k = m[w].keys().map(|e| format!("{e:?}")).collect();
                let v = m[w].values().map(|e| format!("{e:?}")).collect();
                write!(out, " {} {}", sorted(k, dynamic), sorted(v, dynamic))
            }
            (46..=48, _) => {
                let l = K::dup_map(&m[w]).into_iter().map(|e| format!("{e:?}")).collect();
                write!(out, " {}", sorted(l, dynamic))
            }
            (49..=53, _) => {
                let mut seen = Vec::new();
                m[w].retain(|k, v| {
                    seen.push(format!("{k:?} {v:?}"));
                    v.0 ^= 1;
                    (v.0 ^ a) % 3 != 0
                });
                write!(out, " {}", sorted(seen, dynamic))
            }
            (54..=77, Some(x)) => {
                let e = m[w].entry(x);
                let _ = write!(out, " {:?}", e.key());
                match a % 12 {
                    0 => write!(out, " {:?}", e.or_insert(Val(a))),
                    1 => write!(out, " {:?}", e.or_insert_with(|| Val(a))),
                    2 => write!(out, " {:?}", e.or_insert_with_key(|k| Val(a ^ format!("{k:?}").len() as u8))),
                    3 => write!(out, " {:?}", e.or_default()),
                    4 => write!(out, " {:?}", e.and_modify(|v| v.0 ^= a).or_insert(Val(7))),
                    _ => match e {
                        Entry::Occupied(mut e) => {
                            let _ = write!(out, " occupied {:?} {:?}", e.key(), e.get());
                            match a % 4 {
                                0 => write!(out, " {:?}", e.remove()),
                                1 => write!(out, " {:?}", e.insert(Val(a))),
                                2 => {
                                    e.get_mut().0 ^= a;
                                    write!(out, " {:?}", e.get())
                                }
                                _ => {
                                    let v = e.into_mut();
                                    v.0 ^= a;
                                    write!(out, " {v:?}")
                                }
                            }
                        }
                        Entry::Vacant(e) => {
                            let _ = write!(out, " vacant {:?}", e.key());
                            match a % 3 {
                                0 => Ok(()),
                                _ => {
                                    let v = e.insert(Val(a));
                                    v.0 ^= 3;
                                    write!(out, " {v:?}")
                                }
                            }
                        }
                    },
                }
            }
            (78..=80, _) => {
                let (x, y) = (K::dup_map(&m[w]), K::dup_set(&s[w]));
                let _ = write!(out, " {} {} {} {}", K::eq_maps(&x, &m[w]), K::eq_sets(&y, &s[w]), K::eq_maps(&x, &m[1 - w]), K::eq_sets(&y, &s[1 - w]));
                m[1 - w] = x;
                s[1 - w] = y;
                Ok(())
            }
            (81..=84, _) => {
                let _ = write!(out, " {} {}", K::eq_maps(&m[0], &m[1]), K::eq_sets(&s[0], &s[1]));
                if !dynamic {
                    K::compare_maps(&m[w], &m[1 - w], out);
                    K::compare_sets(&s[w], &s[1 - w], out);
                }
                Ok(())
            }
            (85..=88, _) => {
                let t = match a % 4 {
                    0 => format!("{:?} {:?} {:?}", m[w], s[w], s[w].intersection(&s[1 - w])),
                    1 => format!("{:#?} {:#?} {:#?}", m[w], s[w], s[w].intersection(&s[1 - w])),
                    2 => format!("{:08.3?} {:4?} {:5?}", m[w], s[w], s[1 - w].intersection(&s[w])),
                    _ => format!("{:#x?} {:<9?} {:X?}", m[w], s[w], s[1 - w].intersection(&s[w])),
                };
                write!(out, " {}", scrambled(t, dynamic))
            }
            (89..=91, _) => {
                let list: Vec<(K, Val)> = (0..a % 9).filter_map(|i| Some((at(key.wrapping_mul(i | 1).rotate_left(3))?, Val(i)))).collect();
                m[w] = list.iter().copied().collect();
                s[w] = list.iter().map(|e| e.0).collect();
                if let [x, y, ..] = list[..] {
                    s[1 - w] = Set::from([x.0, y.0]);
                    m[1 - w] = [x, y].into_iter().collect();
                }
                Ok(())
            }
            (92..=97, _) => {
                if !dynamic {
                    K::steps_map(key, &mut m[w], a, key, out);
                }
                Ok(())
            }
            (98..=101, _) => {
                let [p, q] = &s;
                if !dynamic {
                    K::steps_set(key, if w == 0 { p } else { q }, q, a, key, out);
                }
                let l = s[w].iter().map(|e| format!("{e:?}")).collect();
                let i = s[w].intersection(&s[1 - w]).map(|e| format!("{e:?}")).collect();
                let both = s[w].intersection(&s[1 - w]);
                let _ = write!(out, " {} {:?}", both.clone().count(), if dynamic { None } else { both.clone().last() });
                let mut folded = both.clone().fold(Vec::new(), |mut l, k| {
                    l.push(format!("{k:?}"));
                    l
                });
                let folded = sorted(folded, dynamic);
                write!(out, " {} and {} {}", sorted(l, dynamic), sorted(i, dynamic), folded)
            }
            (102..=112, Some(x)) => write!(out, " {}", s[w].insert(x)),
            (113..=116, Some(x)) => write!(out, " {} {}", s[w].contains(x), s[w].remove(x)),
            (117..=119, _) => {
                let mut seen = Vec::new();
                s[w].retain(|k| {
                    let t = format!("{k:?}");
                    let keep = t.bytes().fold(a, |h, b| h.wrapping_mul(31) ^ b) % 3 != 0;
                    seen.push(t);
                    keep
                });
                write!(out, " {}", sorted(seen, dynamic))
            }
            (120..=122, _) => {
                K::raw(&mut s[w], out);
                Ok(())
            }
            (123..=126, _) => {
                serde_ops(&m[w], &s[w], &[a, key], dynamic, &mut o.serde);
                Ok(())
            }
            _ => Ok(()),
        };
        let _ = write!(o.main, " ={} {} {} {}", m[w].len(), m[w].is_empty(), s[w].len(), s[w].is_empty());
    }
    let l = m.iter().flat_map(|m| m.iter().map(|e| format!("{e:?}")).chain(["|".into()])).collect();
    let k = s.iter().flat_map(|s| s.iter().map(|e| format!("{e:?}")).chain(["|".into()])).collect();
    let _ = write!(o.main, "\nend {} {}", sorted(l, dynamic), sorted(k, dynamic));
    serde_ops(&m[0], &s[0], &[0, 0], dynamic, &mut o.serde);
}

/// Keys have a form in the formats of serde.
#[cfg(feature = "with_serde")]
pub trait Cased: serde::Serialize + serde::Deserialize<'static> {}
#[cfg(feature = "with_serde")]
impl<T: serde::Serialize + serde::Deserialize<'static>> Cased for T {}
#[cfg(not(feature = "with_serde"))]
pub trait Cased {}
#[cfg(not(feature = "with_serde"))]
impl<T> Cased for T {}

fn digest(s: &str) -> u128 {
    let mut h: u128 = 0x6c62272e07bb014262b821756295c58d;
    for b in s.bytes() {
        h = (h ^ u128::from(b)).wrapping_mul(0x0000000001000000000000000000013B);
    }
    h
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let full = args.get(2).map(String::as_str) == Some("full");
    let table = table!(caps);
    let text = std::fs::read_to_string(&args[1]).expect("the file of histories");
    let mut all = String::new();
    for line in text.lines() {
        let (t, ops) = line.split_once(' ').expect("a history");
        let t: usize = t.parse().expect("a type");
        let ops: Vec<u8> = ops.as_bytes().chunks_exact(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap(), 16).unwrap()).collect();
        let mut out = Out::default();
        match table.get(t) {
            None => all.push_str("-\n"),
            Some(f) => {
                if catch_unwind(AssertUnwindSafe(|| f(&ops, t >= FIXED, &mut out))).is_err() {
                    out.main.push_str("\npanicked");
                }
                if full {
                    let _ = writeln!(all, "{}\n--\n{}", out.main, out.serde);
                } else {
                    let _ = writeln!(all, "{:032x} {:032x}", digest(&out.main), digest(&out.serde));
                }
            }
        }
    }
    print!("{all}");
}
