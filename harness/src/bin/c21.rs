//! C21: fixed keys need no allocation and have the documented footprint.
#![allow(unreachable_code, unused_variables)]
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::{self, Write};
use std::hash::Hasher;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::tok::{self, Ser};
use fmcheck::world::{NoHash as _, NoPart as _, Probe, YesHash as _, YesPart as _};
use fmcheck::{ensure, for_each_dyn_key, for_each_enum, for_each_some_fixed_key};
use serde::{Deserialize, Serialize};

fmcheck::include_twins!();

struct Counting;
thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static FREES: Cell<u64> = const { Cell::new(0) };
}
// SAFETY: all calls are passed on.
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let _ = ALLOCS.try_with(|c| c.set(c.get() + 1));
        System.realloc(p, l, n)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = FREES.try_with(|c| c.set(c.get() + 1));
        System.dealloc(p, l)
    }
}
#[global_allocator]
static GLOBAL: Counting = Counting;

/// The result, allocations and deallocations of a call.
fn counted<R>(f: impl FnOnce() -> R) -> (R, u64, u64) {
    let (a, d) = (ALLOCS.with(Cell::get), FREES.with(Cell::get));
    let r = f();
    (r, ALLOCS.with(Cell::get) - a, FREES.with(Cell::get) - d)
}

type V = (u32, u64);

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
    Insert,
    Remove,
    Get,
    GetMut,
    Clear,
    New,
    Len,
    Entry,
    EntryOccupied,
    EntryVacant,
    AndModify,
    Retain,
    Iter,
    Back,
    Mixed,
    Keys,
    Values,
    IterMut,
    ValuesMut,
    IntoIter,
    SetIter,
    SetIntoIter,
    SetRetain,
    Intersection,
    Clone,
    Eq,
    Cmp,
    Hash,
    Debug,
    Collect,
    Serialize,
    Deserialize,
    Fill,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 60),
    (Do::Remove, 14),
    (Do::Get, 6),
    (Do::GetMut, 6),
    (Do::Clear, 3),
    (Do::New, 2),
    (Do::Len, 4),
    (Do::Entry, 8),
    (Do::EntryOccupied, 8),
    (Do::EntryVacant, 8),
    (Do::AndModify, 8),
    (Do::Retain, 6),
    (Do::Iter, 6),
    (Do::Back, 6),
    (Do::Mixed, 8),
    (Do::Keys, 5),
    (Do::Values, 5),
    (Do::IterMut, 5),
    (Do::ValuesMut, 5),
    (Do::IntoIter, 6),
    (Do::SetIter, 5),
    (Do::SetIntoIter, 5),
    (Do::SetRetain, 5),
    (Do::Intersection, 7),
    (Do::Clone, 6),
    (Do::Eq, 5),
    (Do::Cmp, 5),
    (Do::Hash, 5),
    (Do::Debug, 5),
    (Do::Collect, 6),
    (Do::Serialize, 4),
    (Do::Deserialize, 4),
    (Do::Fill, 6),
]);

struct Null(usize);
impl Write for Null {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}
struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31) + u64::from(*x);
        }
    }
}

/// Space for what serialization writes.
struct Room(Ser, Ser);

trait Obj {
    /// Perform an operation, allocating only what the crate allocates.
    fn op(&mut self, what: Do, k: Option<KI>, a: u32, keys: &[KI], room: &mut Room) -> usize;
    fn len(&self) -> (usize, usize);
}

struct O<K: TKey>([Map<K, V>; 2], [Set<K>; 2]);

fn occupied<'a, K: TKey, E: OccupiedEntry<'a, K, V>>(mut o: E, a: u32, v: V) -> usize {
    let k: K = o.key();
    o.get_mut().0 += u32::from(k == o.key());
    match a % 4 {
        0 => o.insert(v).0 as usize,
        1 => o.remove().0 as usize,
        2 => o.into_mut().0 as usize,
        _ => o.get().0 as usize,
    }
}

fn vacant<'a, K: TKey, E: VacantEntry<'a, K, V>>(e: E, v: V) -> usize {
    let k: K = e.key();
    e.insert(v).0 as usize + usize::from(k == K::key(0))
}

macro_rules! op {
    ($t:ty, $self:ident, $what:ident, $k:ident, $a:ident, $keys:ident, $room:ident) => {{
        let [m, m2] = &mut $self.0;
        let [s, s2] = &mut $self.1;
        let v: V = ($a, u64::from($a));
        let test = |k: $t| (k.idx().wrapping_add($a)) % 3 != 0;
        let key = $k;
        match $what {
            Do::Insert => key.map_or(0, |k| {
                s.insert(k.get());
                if $a % 2 == 0 {
                    m2.insert(k.get(), v);
                    s2.insert(k.get());
                }
                usize::from(m.insert(k.get(), v).is_some())
            }),
            Do::Remove => key.map_or(0, |k| {
                s.remove(k.get());
                usize::from(m.remove(k.get()).is_some())
            }),
            Do::Get => key.map_or(0, |k| usize::from(m.get(k.get()).is_some()) + usize::from(m.contains_key(k.get())) + usize::from(s.contains(k.get()))),
            Do::GetMut => key.map_or(0, |k| {
                if let Some(x) = m.get_mut(k.get()) {
                    *x = v;
                }
                0
            }),
            Do::Clear => {
                m.clear();
                s.clear();
                0
            }
            Do::New => {
                *m = Map::new();
                *s = Default::default();
                0
            }
            Do::Len => m.len() + s.len() + usize::from(m.is_empty()) + usize::from(s.is_empty()),
            Do::Entry => key.map_or(0, |k| match $a % 4 {
                0 => m.entry(k.get()).or_insert(v).0 as usize,
                1 => m.entry(k.get()).or_insert_with(|| v).0 as usize,
                2 => m.entry(k.get()).or_insert_with_key(|_| v).0 as usize,
                _ => m.entry(k.get()).or_default().0 as usize,
            }),
            Do::EntryOccupied => key.map_or(0, |k| match m.entry(k.get()) {
                Entry::Occupied(o) => occupied::<$t, _>(o, $a, v),
                Entry::Vacant(_) => 0,
            }),
            Do::EntryVacant => key.map_or(0, |k| match m.entry(k.get()) {
                Entry::Vacant(e) => vacant::<$t, _>(e, v),
                Entry::Occupied(_) => 0,
            }),
            Do::AndModify => key.map_or(0, |k| m.entry(k.get()).and_modify(|x| x.0 += 1).or_insert(v).0 as usize),
            Do::Retain => {
                m.retain(|k, x| {
                    x.0 += 1;
                    test(k)
                });
                0
            }
            Do::Iter => m.iter().count() + (&*m).into_iter().fold(0, |n, (_, x)| n + x.0 as usize % 2),
            Do::Back => m.iter().rev().count() + m.keys().rev().count() + m.values().rev().count() + s.iter().rev().count(),
            Do::Mixed => {
                let mut it = m.iter();
                let mut n = 0;
                for i in 0..$a % 12 {
                    n += usize::from(if ($a >> i) & 1 == 0 { it.next().is_some() } else { it.next_back().is_some() });
                    n += it.clone().size_hint().0;
                }
                n + it.count()
            }
            Do::Keys => m.keys().clone().count() + m.keys().nth(2).is_some() as usize,
            Do::Values => m.values().clone().count() + m.values().last().is_some() as usize,
            Do::IterMut => {
                m.iter_mut().for_each(|(_, x)| x.0 += 1);
                (&mut *m).into_iter().rev().count()
            }
            Do::ValuesMut => {
                m.values_mut().for_each(|x| x.0 += 1);
                m.values_mut().rev().count()
            }
            Do::IntoIter => {
                let mut it = std::mem::take(m).into_iter();
                let n = usize::from(it.next().is_some()) + usize::from(it.next_back().is_some());
                *m = it.collect();
                n
            }
            Do::SetIter => s.iter().count() + (&*s).into_iter().clone().count(),
            Do::SetIntoIter => {
                let mut it = std::mem::take(s).into_iter();
                let n = usize::from(it.next().is_some()) + usize::from(it.next_back().is_some());
                *s = it.collect();
                n
            }
            Do::SetRetain => {
                s.retain(test);
                0
            }
            Do::Intersection => s.intersection(s2).count() + s2.intersection(s).clone().fold(0, |n, _| n + 1) + s.intersection(s2).size_hint().0,
            Do::Clone => {
                *m2 = m.clone();
                s2.clone_from(s);
                m2.clone_from(m);
                0
            }
            Do::Eq => usize::from(m == m2) + usize::from(s == s2) + usize::from(m != m2) + usize::from(s != s2),
            Do::Cmp => usize::from((&Probe(&*m)).part_opt(&*m2).is_some()) + usize::from((&Probe(&*s)).part_opt(&*s2).is_some()),
            Do::Hash => {
                let mut h = Sum(1);
                (&Probe(&*m)).hash_opt(&mut h);
                (&Probe(&*s)).hash_opt(&mut h);
                h.finish() as usize
            }
            Do::Debug => {
                let mut w = Null(0);
                let _ = write!(w, "{m:?} {m:#?} {s:?} {:?} {m:#?}", s.intersection(s2));
                w.0
            }
            Do::Collect => {
                *m2 = $keys.iter().map(|k| (k.get(), v)).collect();
                *s2 = $keys.iter().map(|k| k.get()).collect();
                let one = $keys.first().map(|k| k.get());
                if let Some(k) = one {
                    *s = Set::from([k, k]);
                }
                0
            }
            Do::Serialize => {
                $room.0.out.clear();
                $room.1.out.clear();
                let m32: Map<$t, u32> = m.iter().map(|(k, v)| (k, v.0)).collect();
                usize::from(m32.serialize(&mut $room.0).is_err()) + usize::from(s.serialize(&mut $room.1).is_err())
            }
            Do::Deserialize => {
                if $room.0.out.is_empty() || $room.1.out.is_empty() {
                    return 0;
                }
                let a = Map::<$t, u32>::deserialize(&mut tok::De::new(&$room.0.out, true));
                let b = Set::<$t>::deserialize(&mut tok::De::new(&$room.1.out, true));
                match (a, b) {
                    (Ok(a), Ok(b)) => a.len() + b.len(),
                    _ => 0,
                }
            }
            Do::Fill => {
                for k in $keys {
                    m.insert(k.get(), v);
                    s.insert(k.get());
                }
                0
            }
        }
    }};
}
macro_rules! obj {
    ($id:ident $t:ty) => {
        mod $id {
        use super::*;
        impl Obj for O<$t> {
            fn op(&mut self, what: Do, k: Option<KI>, a: u32, keys: &[KI], room: &mut Room) -> usize {
                op!($t, self, what, k, a, keys, room)
            }
            fn len(&self) -> (usize, usize) {
                (self.0[0].len(), self.1[0].len())
            }
        }
        }
    };
}

for_each_some_fixed_key!(obj);

/// Build the tables of the harness, which are made on first use.
fn warm<K: TKey + Serialize + Deserialize<'static>>() {
    for k in 0..K::meta().pool.len() as u32 {
        let t = tok::tokens(&K::key(k)).unwrap();
        assert_eq!(tok::parse::<K>(&t, true).unwrap().idx(), k);
    }
}

fn room() -> Room {
    let mut r = Room(Ser::new(usize::MAX), Ser::new(usize::MAX));
    for s in [&mut r.0, &mut r.1] {
        // Both of its vectors get room.
        s.reserve(4096);
    }
    r
}

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut o = new();
    let mut room = room();
    let all: Vec<KI> = (0..info.len as u32).map(|k| KI(k, false)).collect();
    let focus: Vec<KI> = case.focused(info.len).into_iter().map(|k| KI(k, true)).collect();
    let mut most = 0;
    for (step, op) in case.ops.iter().enumerate() {
        let key = case.pick(op.key, info.len).map(|k| KI(k, op.key & OTHER != 0));
        let what = OPS.get(op.k);
        let keys = if what == Do::Fill && op.a % 2 == 0 { &all } else { &focus };
        obs.log(|| format!("{what:?} {} {}", key.map_or(String::new(), |k| (info.show)(k.0)), op.a));
        let (_, allocs, frees) = counted(|| o.op(what, key, op.a, keys, &mut room));
        ensure!(allocs == 0 && frees == 0, "step {step}: {what:?} allocated {allocs} times (and freed {frees} times)");
        most = most.max(o.len().0);
        obs.class("operation");
    }
    // The box of the object itself, unless its size is zero.
    let (_, allocs, frees) = counted(|| drop(o));
    ensure!(frees <= 1 && allocs == 0, "dropping the collections allocated {allocs} and freed {frees} times");
    obs.nontrivial = most >= 2.min(info.len) && case.ops.len() > 3;
    Ok(())
}

/// Keys with dynamic parts: clear keeps the capacity.
struct Dy<K: TKey>(Map<K, V>, Set<K>);

fn reuse<K: TKey>(case: &Case, obs: &mut Obs) -> Res {
    let info = info::<K>();
    let mut d = Dy::<K>(Map::new(), Set::new());
    let mut model = BTreeMap::new();
    let mut rounds = 0;
    let check = |d: &mut Dy<K>, model: &mut BTreeMap<u32, bool>, back: bool, obs: &mut Obs| -> Res {
        let mut keys: Vec<K> = model.iter().map(|(k, b)| if *b { K::key(*k) } else { K::key2(*k) }).collect();
        if back {
            keys.reverse();
        }
        obs.log(|| format!("clear with {} entries and insert again", keys.len()));
        let (_, allocs, frees) = counted(|| {
            d.0.clear();
            d.1.clear();
        });
        ensure!(allocs == 0 && frees == 0, "clear of {} entries allocated {allocs} and freed {frees} times", keys.len());
        ensure!(d.0.is_empty() && d.1.is_empty(), "not empty after clear");
        let (_, allocs, frees) = counted(|| {
            for k in &keys {
                d.0.insert(*k, (1, 2));
                d.1.insert(*k);
            }
        });
        ensure!(allocs == 0 && frees == 0, "inserting the {} entries again after clear allocated {allocs} and freed {frees} times", keys.len());
        obs.nontrivial |= keys.len() > 1;
        Ok(())
    };
    for op in &case.ops {
        let Some(k) = case.pick(op.key, info.len) else { continue };
        if op.k < 200 {
            obs.log(|| format!("insert({})", (info.show)(k)));
            d.0.insert(K::key(k), (op.a, 0));
            d.1.insert(K::key(k));
            model.insert(k, op.a % 2 == 0);
        } else if op.k < 240 {
            obs.log(|| format!("remove({})", (info.show)(k)));
            d.0.remove(K::key(k));
            d.1.remove(K::key(k));
            model.remove(&k);
        } else {
            rounds += 1;
            check(&mut d, &mut model, op.a % 2 == 0, obs)?;
        }
    }
    check(&mut d, &mut model, rounds % 2 == 0, obs)
}

fn round_up(n: usize, a: usize) -> usize {
    n.div_ceil(a) * a
}

fn footprint<K: TKey + Foot, V>(value: &str, obs: &mut Obs) -> Res {
    let n = K::meta().pool.len();
    let (map, set) = K::parts::<V>();
    let got = size::<Map<K, V>>();
    if K::UNIT {
        // Enums without variants have no values and keys no variants.
        let want = n * size::<Option<V>>().0;
        ensure!(got.0 == want, "the size of a map of {n} unit variants to {value} is {}, that of [Option<{value}>; {n}] {want}", got.0);
        ensure!(n == 0 || got.1 == size::<Option<V>>().1, "the alignment of a map to {value} is {}", got.1);
    } else {
        let align = map.iter().map(|p| p.1).max().unwrap_or(1);
        let want: usize = map.iter().map(|p| round_up(p.0, align)).sum();
        ensure!(got.0 <= want, "the size of the map to {value} is {}, that of its parts {want} ({map:?})", got.0);
    }
    let got = size::<Set<K>>().0;
    if K::UNIT && !K::BITSET {
        ensure!(got == n, "the size of a set of {n} unit variants is {got}");
    } else if !K::UNIT {
        let align = set.iter().map(|p| p.1).max().unwrap_or(1);
        let want: usize = set.iter().map(|p| round_up(p.0, align)).sum();
        ensure!(got <= want, "the size of the set is {got}, that of its parts {want} ({set:?})");
    }
    obs.class("footprint");
    obs.nontrivial = true;
    Ok(())
}

fn footprints<K: TKey + Foot>(case: &Case, obs: &mut Obs) -> Res {
    macro_rules! pick {
        ($($t:ty),* $(,)?) => {{
            let fs: &[(&str, fn(&str, &mut Obs) -> Res)] = &[$((stringify!($t), footprint::<K, $t>)),*];
            let (name, f) = fs[case.x as usize % fs.len()];
            obs.log(|| format!("maps to {name}"));
            f(name, obs)
        }};
    }
    pick!((), bool, u8, u16, u32, u64, u128, char, [u8; 3], [u16; 5], (u8, u64), &'static str, Box<u8>, String, std::num::NonZeroU8, std::num::NonZeroU64, Option<bool>, Option<Option<u8>>, Vec<u8>, f64, std::cmp::Ordering, [u64; 9])
}

fn main() {
    let mut c = Check::new("C21", "histories over all operations on maps, sets, entries and iterators of 31 fixed key types, generated with proptest, run under a counting allocator which must not be called; for keys with dynamic parts, generated contents are cleared and inserted again without allocations or deallocations; sizes of maps (to 22 types of values) and sets of all enums are compared with those of arrays and of their parts; non-trivial: at least two entries (or all) were present, every comparison of sizes counts");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| {
                static WARM: std::sync::Once = std::sync::Once::new();
                WARM.call_once(warm::<$t>);
                run(|| Box::new(O::<$t>(Default::default(), Default::default())), info::<$t>(), case, obs)
            });
        };
    }
    for_each_some_fixed_key!(add);
    macro_rules! add_dyn {
        ($id:ident $t:ty) => {
            c.add(concat!(stringify!($t), " (capacity)"), reuse::<$t>);
        };
    }
    for_each_dyn_key!(add_dyn);
    macro_rules! add_foot {
        ($id:ident $t:ty) => {
            c.add(concat!(stringify!($t), " (footprint)"), footprints::<$t>);
            c.subjects.last_mut().unwrap().weight = 0.1;
        };
    }
    for_each_enum!(add_foot);
    macro_rules! add_twin {
        ($n:literal $id:ident $a:ident $b:ident) => {
            c.add(concat!(stringify!($a), " (footprint)"), footprints::<twins::$a>);
            c.subjects.last_mut().unwrap().weight = 0.1;
            c.add(concat!(stringify!($b), " (footprint)"), footprints::<twins::$b>);
            c.subjects.last_mut().unwrap().weight = 0.1;
        };
    }
    for_each_twin!(add_twin);
    c.quick = 5000;
    c.thorough = 150_000;
    c.max_ops = 40;
    fmcheck::run::main(c)
}
