//! C25: the work of accesses does not depend on the contents or on the number of
//! variants, and that of whole collections is linear in their slots.
#![allow(unreachable_code, unused_variables)]
use std::arch::asm;
use std::cell::Cell;
use std::hash::Hasher;
use std::hint::black_box;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::world::{NoHash as _, NoPart as _, Probe, YesHash as _, YesPart as _};
use fmcheck::{ensure, for_each_fixed_key, for_each_unit_key};

thread_local! {
    static STEPS: Cell<u64> = const { Cell::new(0) };
    /// Where counting stops, which is slow.
    static CAP: Cell<u64> = const { Cell::new(0) };
}

/// Called by the processor after every instruction while its trap flag is set.
extern "C" fn on_step(_: libc::c_int, _: *mut libc::siginfo_t, context: *mut libc::c_void) {
    let n = STEPS.with(|s| {
        s.set(s.get() + 1);
        s.get()
    });
    if n > CAP.with(Cell::get) {
        // SAFETY: this is the context of the interrupted thread, whose trap
        // flag is cleared once more when the call has returned.
        unsafe { (*context.cast::<libc::ucontext_t>()).uc_mcontext.gregs[libc::REG_EFL as usize] &= !0x100 };
    }
}

fn install() {
    // SAFETY: the handler touches thread local cells and the context only.
    unsafe {
        let mut a: libc::sigaction = std::mem::zeroed();
        a.sa_sigaction = on_step as extern "C" fn(libc::c_int, *mut libc::siginfo_t, *mut libc::c_void) as usize;
        a.sa_flags = libc::SA_SIGINFO;
        assert_eq!(libc::sigaction(libc::SIGTRAP, &a, std::ptr::null_mut()), 0);
    }
}

/// The result of a call, and how many instructions it executes.
#[inline(never)]
fn counted<R>(f: impl FnOnce() -> R) -> (R, u64) {
    STEPS.with(|s| s.set(0));
    // SAFETY: sets and clears the trap flag only.
    unsafe { asm!("pushfq", "or qword ptr [rsp], 0x100", "popfq") };
    let r = black_box(f());
    // SAFETY: as above.
    unsafe { asm!("pushfq", "and qword ptr [rsp], 0xfffffffffffffeff", "popfq") };
    (r, STEPS.with(Cell::get))
}

type V = u32;

/// How much an operation may do.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Work {
    /// Independent of the type and of the contents.
    Constant,
    /// Linear in the number of values of the type.
    Linear,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
    Insert,
    Remove,
    Get,
    GetMut,
    ContainsKey,
    Entry,
    OrDefault,
    AndModify,
    Occupied,
    OccupiedInsert,
    OccupiedRemove,
    OccupiedIntoMut,
    Vacant,
    SetInsert,
    SetRemove,
    SetContains,
    New,
    SetNew,
    Len,
    IsEmpty,
    SetLen,
    SetIsEmpty,
    Iter,
    IterFold,
    Back,
    Alternate,
    Nth,
    Keys,
    Values,
    IterMut,
    ValuesMut,
    IntoIter,
    SetIter,
    SetBack,
    SetIntoIter,
    Intersection,
    IntersectionFold,
    Retain,
    SetRetain,
    Clear,
    SetClear,
    Clone,
    CloneFrom,
    SetClone,
    Eq,
    SetEq,
    Cmp,
    SetCmp,
    Hash,
    Collect,
    SetCollect,
    SizeHint,
    Fill,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 16),
    (Do::Remove, 10),
    (Do::Get, 8),
    (Do::GetMut, 8),
    (Do::ContainsKey, 8),
    (Do::Entry, 6),
    (Do::OrDefault, 6),
    (Do::AndModify, 6),
    (Do::Occupied, 5),
    (Do::OccupiedInsert, 5),
    (Do::OccupiedRemove, 5),
    (Do::OccupiedIntoMut, 5),
    (Do::Vacant, 5),
    (Do::SetInsert, 16),
    (Do::SetRemove, 10),
    (Do::SetContains, 8),
    (Do::New, 1),
    (Do::SetNew, 1),
    (Do::Len, 3),
    (Do::IsEmpty, 3),
    (Do::SetLen, 3),
    (Do::SetIsEmpty, 3),
    (Do::Iter, 3),
    (Do::IterFold, 3),
    (Do::Back, 3),
    (Do::Alternate, 3),
    (Do::Nth, 3),
    (Do::Keys, 3),
    (Do::Values, 3),
    (Do::IterMut, 3),
    (Do::ValuesMut, 3),
    (Do::IntoIter, 3),
    (Do::SetIter, 3),
    (Do::SetBack, 3),
    (Do::SetIntoIter, 3),
    (Do::Intersection, 4),
    (Do::IntersectionFold, 4),
    (Do::Retain, 3),
    (Do::SetRetain, 3),
    (Do::Clear, 1),
    (Do::SetClear, 1),
    (Do::Clone, 3),
    (Do::CloneFrom, 3),
    (Do::SetClone, 3),
    (Do::Eq, 4),
    (Do::SetEq, 4),
    (Do::Cmp, 3),
    (Do::SetCmp, 3),
    (Do::Hash, 3),
    (Do::Collect, 3),
    (Do::SetCollect, 3),
    (Do::SizeHint, 3),
    (Do::Fill, 12),
]);

fn work(d: Do) -> Work {
    use Do::*;
    match d {
        Insert | Remove | Get | GetMut | ContainsKey | Entry | OrDefault | AndModify | Occupied | OccupiedInsert | OccupiedRemove | OccupiedIntoMut
        | Vacant | SetInsert | SetRemove | SetContains => Work::Constant,
        _ => Work::Linear,
    }
}

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        self.0 = self.0.wrapping_add(b.len() as u64);
    }
    #[inline]
    fn write_u8(&mut self, i: u8) {
        self.0 = self.0.wrapping_add(u64::from(i));
    }
    #[inline]
    fn write_u32(&mut self, i: u32) {
        self.0 = self.0.wrapping_add(u64::from(i));
    }
    #[inline]
    fn write_usize(&mut self, i: usize) {
        self.0 = self.0.wrapping_add(i as u64);
    }
    #[inline]
    fn write_isize(&mut self, i: isize) {
        self.0 = self.0.wrapping_add(i as u64);
    }
}

trait Obj {
    /// Perform an operation, and count the instructions it executes.
    fn op(&mut self, what: Do, k: u32, a: u32, keys: &[u32]) -> u64;
    fn len(&self) -> (usize, usize);
}

struct O<K: TKey>([Map<K, V>; 2], [Set<K>; 2]);

fn occupied<'a, K: TKey, E: OccupiedEntry<'a, K, V>>(mut o: E, v: V) -> V {
    *o.get_mut() = v;
    black_box(o.key());
    *o.get()
}
fn occupied_insert<'a, K: TKey, E: OccupiedEntry<'a, K, V>>(mut o: E, v: V) -> V {
    o.insert(v)
}
fn occupied_remove<'a, K: TKey, E: OccupiedEntry<'a, K, V>>(o: E) -> V {
    o.remove()
}
fn occupied_into_mut<'a, K: TKey, E: OccupiedEntry<'a, K, V>>(o: E) -> V {
    *o.into_mut()
}
fn vacant<'a, K: TKey, E: VacantEntry<'a, K, V>>(e: E, v: V) -> V {
    black_box(e.key());
    *e.insert(v)
}

macro_rules! op {
    ($t:ty, $self:ident, $what:ident, $k:ident, $a:ident, $ks:ident) => {{
        let [m, m2] = &mut $self.0;
        let [s, s2] = &mut $self.1;
        let v: V = $a;
        let keys: Vec<$t> = $ks.iter().map(|k| <$t as TKey>::key(*k)).collect();
        let k = <$t as TKey>::key($k);
        // An occupied or a vacant entry is wanted.
        match $what {
            Do::Occupied | Do::OccupiedInsert | Do::OccupiedRemove | Do::OccupiedIntoMut | Do::AndModify => {
                m.insert(k, v);
            }
            Do::Vacant => {
                m.remove(k);
            }
            _ => {}
        }
        match $what {
            Do::Insert => counted(|| m.insert(black_box(k), v)).1,
            Do::Remove => counted(|| m.remove(black_box(k))).1,
            Do::Get => counted(|| m.get(black_box(k))).1,
            Do::GetMut => counted(|| m.get_mut(black_box(k)).map(|x| *x = v)).1,
            Do::ContainsKey => counted(|| m.contains_key(black_box(k))).1,
            Do::Entry => counted(|| *m.entry(black_box(k)).or_insert(v)).1,
            Do::OrDefault => counted(|| *m.entry(black_box(k)).or_default()).1,
            Do::AndModify => counted(|| *m.entry(black_box(k)).and_modify(|x| *x = v).or_insert_with(|| v)).1,
            Do::Occupied => counted(|| match m.entry(black_box(k)) {
                Entry::Occupied(o) => occupied::<$t, _>(o, v),
                Entry::Vacant(_) => 0,
            }).1,
            Do::OccupiedInsert => counted(|| match m.entry(black_box(k)) {
                Entry::Occupied(o) => occupied_insert::<$t, _>(o, v),
                Entry::Vacant(_) => 0,
            }).1,
            Do::OccupiedRemove => counted(|| match m.entry(black_box(k)) {
                Entry::Occupied(o) => occupied_remove::<$t, _>(o),
                Entry::Vacant(_) => 0,
            }).1,
            Do::OccupiedIntoMut => counted(|| match m.entry(black_box(k)) {
                Entry::Occupied(o) => occupied_into_mut::<$t, _>(o),
                Entry::Vacant(_) => 0,
            }).1,
            Do::Vacant => counted(|| match m.entry(black_box(k)) {
                Entry::Occupied(_) => 0,
                Entry::Vacant(e) => vacant::<$t, _>(e, v),
            }).1,
            Do::SetInsert => {
                if $a % 2 == 0 {
                    s2.insert(k);
                }
                counted(|| s.insert(black_box(k))).1
            }
            Do::SetRemove => counted(|| s.remove(black_box(k))).1,
            Do::SetContains => counted(|| s.contains(black_box(k))).1,
            Do::New => {
                let (n, c) = counted(|| black_box(Map::new()));
                *m = n;
                c
            }
            Do::SetNew => {
                let (n, c) = counted(|| black_box(Set::new()));
                *s = n;
                c
            }
            Do::Len => counted(|| m.len()).1,
            Do::IsEmpty => counted(|| m.is_empty()).1,
            Do::SetLen => counted(|| s.len()).1,
            Do::SetIsEmpty => counted(|| s.is_empty()).1,
            Do::Iter => counted(|| { let mut n = 0u32; for (_, x) in m.iter() { n = n.wrapping_add(*x) } n }).1,
            Do::IterFold => counted(|| m.iter().fold(0u32, |n, (_, x)| n.wrapping_add(*x))).1,
            Do::Back => counted(|| { let mut n = 0u32; let mut it = m.iter(); while let Some((_, x)) = it.next_back() { n = n.wrapping_add(*x) } n }).1,
            Do::Alternate => counted(|| {
                let mut it = m.iter();
                let mut n = 0;
                while it.next().is_some() {
                    n += usize::from(it.next_back().is_some());
                }
                n
            }).1,
            Do::Nth => counted(|| m.iter().nth($a as usize % 300).is_some()).1,
            Do::Keys => counted(|| m.keys().count()).1,
            Do::Values => counted(|| m.values().fold(0u32, |n, x| n.wrapping_add(*x))).1,
            Do::IterMut => counted(|| for (_, x) in m.iter_mut() { *x = x.wrapping_add(1) }).1,
            Do::ValuesMut => counted(|| for x in m.values_mut() { *x = x.wrapping_add(1) }).1,
            Do::IntoIter => {
                let n = m.clone();
                counted(move || { let mut c = 0u32; for (_, x) in n { c = c.wrapping_add(x) } c }).1
            }
            Do::SetIter => counted(|| { let mut n = 0; for x in s.iter() { n += 1 } n }).1,
            Do::SetBack => counted(|| s.iter().rev().count()).1,
            Do::SetIntoIter => {
                let n = s.clone();
                counted(move || { let mut c = 0; for _ in n { c += 1 } c }).1
            }
            Do::Intersection => counted(|| { let mut n = 0; for _ in s.intersection(s2) { n += 1 } n }).1,
            Do::IntersectionFold => counted(|| s2.intersection(s).fold(0, |n, _| n + 1)).1,
            Do::Retain => counted(|| m.retain(|_, x| *x % 5 != $a % 5)).1,
            Do::SetRetain => {
                let mut n = $a;
                counted(|| s.retain(|_| { n += 1; n % 4 != 0 })).1
            }
            Do::Clear => counted(|| m.clear()).1,
            Do::SetClear => counted(|| s.clear()).1,
            Do::Clone => {
                let (n, c) = counted(|| m.clone());
                *m2 = n;
                c
            }
            Do::CloneFrom => counted(|| m2.clone_from(m)).1,
            Do::SetClone => {
                let (n, c) = counted(|| s.clone());
                *s2 = n;
                c
            }
            Do::Eq => counted(|| m == m2).1,
            Do::SetEq => counted(|| s == s2).1,
            Do::Cmp => counted(|| (&Probe(&*m)).part_opt(&*m2)).1,
            Do::SetCmp => counted(|| (&Probe(&*s)).part_opt(&*s2)).1,
            Do::Hash => {
                let mut h = Sum(1);
                let c = counted(|| (&Probe(&*m)).hash_opt(&mut h)).1;
                c.max(counted(|| (&Probe(&*s)).hash_opt(&mut h)).1)
            }
            Do::Collect => {
                let (n, c) = counted(|| keys.iter().map(|k| (*k, v)).collect());
                *m2 = n;
                c
            }
            Do::SetCollect => {
                let (n, c) = counted(|| keys.iter().copied().collect());
                *s2 = n;
                c
            }
            Do::SizeHint => counted(|| m.iter().size_hint().0 + s.iter().size_hint().0 + m.values().size_hint().0).1,
            Do::Fill => {
                for (n, k) in keys.iter().enumerate() {
                    m.insert(*k, v);
                    s.insert(*k);
                    if n % 3 != 0 {
                        m2.insert(*k, v);
                        s2.insert(*k);
                    }
                }
                0
            }
        }
    }};
}
macro_rules! obj {
    ($id:ident $t:ty) => {
        mod $id {
        use super::*;
        impl Obj for O<$t> {
            fn op(&mut self, what: Do, k: u32, a: u32, keys: &[u32]) -> u64 {
                op!($t, self, what, k, a, keys)
            }
            fn len(&self) -> (usize, usize) {
                (self.0[0].len(), self.1[0].len())
            }
        }
        }
    };
}

for_each_fixed_key!(obj);

/// How many instructions an operation may execute on a key type with `len` values.
/// The limits are at least four times what any operation needs on any type.
fn limit(what: Do, unit: bool, len: usize) -> u64 {
    match (work(what), unit) {
        (Work::Constant, true) => 250,
        (Work::Constant, false) => 600,
        (Work::Linear, unit) => {
            // Comparisons compare pairs of entries.
            let each = if unit { 200 } else { 1500 } * if matches!(what, Do::Cmp | Do::SetCmp) { 12 } else { 1 };
            // Without optimizations the collection may be moved for each of its
            // values, as where it is collected with a fold.
            each * (len as u64 + 8) + 2 * (len * len) as u64
        }
    }
}

fn run(new: fn() -> Box<dyn Obj>, info: Info, unit: bool, case: &Case, obs: &mut Obs) -> Res {
    let mut o = new();
    let all: Vec<u32> = (0..info.len as u32).collect();
    let focus = case.focused(info.len);
    let mut most = 0;
    let mut total = 0;
    CAP.with(|c| c.set(1_000_000));
    let (_, least) = counted(|| (0..black_box(10u32)).fold(0, |n, x| black_box(n + x)));
    assert!((10..1000).contains(&least), "the processor does not count instructions: {least}");
    for (step, op) in case.ops.iter().enumerate() {
        let Some(k) = case.pick(op.key, info.len) else { continue };
        let what = OPS.get(op.k);
        let keys = if op.a % 2 == 0 { &all } else { &focus };
        obs.log(|| format!("{what:?} {} {}", (info.show)(k), op.a));
        let (before, set_before) = o.len();
        let limit = limit(what, unit, info.len);
        CAP.with(|c| c.set(limit));
        let n = o.op(what, k, op.a, keys);
        most = most.max(o.len().0);
        if what == Do::Fill {
            continue;
        }
        obs.class(if work(what) == Work::Constant { "access" } else { "operation on a whole collection" });
        ensure!(
            n <= limit,
            "step {step}: {what:?} executes more than {limit} instructions; the key has {} values, {before} are in the map, {set_before} in the set",
            info.len
        );
        total += n;
        if total > 40_000 {
            // Counting is slow.
            break;
        }
    }
    obs.nontrivial = most >= info.len.min(2) && case.ops.len() > 3;
    Ok(())
}

/// Keys with dynamic parts, of which there are many.
trait Many: Key + Eq + std::fmt::Debug + 'static {
    fn make(n: u32) -> Self;
}
macro_rules! many {
    ($($t:ty: $n:ident => $e:expr;)*) => {$(
        impl Many for $t {
            fn make($n: u32) -> Self {
                $e
            }
        }
    )*};
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Key)]
enum Mixed {
    A(u32),
    B,
    C(Option<i64>),
    D(bool),
    E(&'static str),
}
fn name(n: u32) -> &'static str {
    static NAMES: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    &NAMES.get_or_init(|| (0..5000).map(|n| format!("{n}")).collect())[n as usize]
}
many! {
    u32: n => n;
    u128: n => u128::from(n) << 50;
    i64: n => -i64::from(n);
    char: n => char::from_u32(n + 1).unwrap();
    &'static str: n => name(n);
    Option<u64>: n => if n == 0 { None } else { Some(u64::from(n)) };
    Mixed: n => match n % 5 {
        0 => Mixed::A(n),
        1 => Mixed::C(Some(i64::from(n))),
        2 => Mixed::E(name(n)),
        3 => [Mixed::B, Mixed::C(None), Mixed::D(true), Mixed::D(false)][n as usize / 5 % 4],
        _ => Mixed::A(n + 100_000),
    };
}

/// Accesses to a collection of many dynamic keys, and traversals of it.
fn many<K: Many>(case: &Case, obs: &mut Obs) -> Res {
    // Among them those one above a capacity of the tables.
    let size = [10, 100, 1000, 3000, 29, 57, 113, 225, 449, 897, 1793, 10 + case.x / 16 % 500][case.x as usize % 12];
    let mut m = Map::<K, V>::new();
    let mut s = Set::<K>::new();
    let first = case.x / 4 % 1000;
    for n in first..first + size {
        m.insert(K::make(n), n);
        s.insert(K::make(n));
    }
    obs.log(|| format!("{size} keys from {first}"));
    CAP.with(|c| c.set(1_000_000));
    for (step, op) in case.ops.iter().enumerate() {
        let n = first + u32::from(op.key) % size;
        let k = K::make(n);
        let present = m.contains_key(k);
        let name = ["get", "get_mut", "contains_key", "insert", "remove", "entry", "contains", "insert into the set", "remove from the set", "len", "iter", "retain", "remove through the entry"][op.k as usize % 13];
        obs.log(|| format!("{name} {k:?}"));
        let (n, limit) = match op.k % 13 {
            0 => (counted(|| m.get(black_box(k))).1, 2000),
            1 => (counted(|| m.get_mut(black_box(k)).map(|x| *x = 1)).1, 2000),
            2 => (counted(|| m.contains_key(black_box(k))).1, 2000),
            3 | 5 if !present => {
                // The table may be rebuilt.
                m.insert(k, 0);
                s.insert(k);
                continue;
            }
            3 => (counted(|| m.insert(black_box(k), 7)).1, 2000),
            4 => (counted(|| m.remove(black_box(k))).1, 2000),
            5 => (counted(|| *m.entry(black_box(k)).or_insert(7)).1, 2000),
            6 => (counted(|| s.contains(black_box(k))).1, 2000),
            7 if s.contains(k) => (counted(|| s.insert(black_box(k))).1, 2000),
            8 => (counted(|| s.remove(black_box(k))).1, 2000),
            12 => {
                let c = match m.entry(k) {
                    Entry::Occupied(e) => counted(|| e.remove()).1,
                    Entry::Vacant(_) => continue,
                };
                (c, 2000)
            }
            9 => (counted(|| m.len() + s.len()).1, 1000),
            10 if size < 1000 => (counted(|| m.iter().count() + s.iter().count()).1, 300 * u64::from(size + 20)),
            11 if size < 1000 => (counted(|| m.retain(|_, _| true)).1, 300 * u64::from(size + 20)),
            _ => continue,
        };
        obs.class(if limit == 2000 { "access among dynamic keys" } else { "operation on a whole collection of dynamic keys" });
        ensure!(n <= limit, "step {step}: {name} executes more than {limit} instructions; there are {} entries in the map, {} in the set", m.len(), s.len());
        obs.nontrivial |= limit == 2000;
    }
    Ok(())
}

fn main() {
    install();
    let mut c = Check::new("C25", "histories over accesses and operations on whole collections of all key types of fixed layout (and of up to 3000 keys of 7 dynamic types), generated with proptest; the instructions each operation executes are counted by single-stepping the processor, and compared with limits that are constant for accesses and linear in the number of values of the key for others; non-trivial: at least two entries (or all) were present, and for dynamic keys an access was counted");
    let mut units = std::collections::HashSet::new();
    macro_rules! unit {
        ($id:ident $t:ty) => {
            units.insert(stringify!($t));
        };
    }
    for_each_unit_key!(unit);
    macro_rules! add {
        ($id:ident $t:ty) => {
            let unit = units.contains(stringify!($t));
            c.add(stringify!($t), move |case, obs| run(|| Box::new(O::<$t>(Default::default(), Default::default())), info::<$t>(), unit, case, obs));
            // Large types show growth best.
            let n = <$t as TKey>::meta().pool.len();
            c.subjects.last_mut().unwrap().weight = if n < 20 { 0.5 } else if n < 100 { 1.0 } else { 2.0 };
        };
    }
    for_each_fixed_key!(add);
    macro_rules! add_many {
        ($($t:ty),*) => {$(
            c.add(concat!(stringify!($t), " (many)"), many::<$t>);
            c.subjects.last_mut().unwrap().weight = 2.0;
        )*};
    }
    add_many!(u32, u128, i64, char, &'static str, Option<u64>, Mixed);
    c.quick = 60;
    c.thorough = 3000;
    c.max_ops = 40;
    fmcheck::run::main(c)
}
