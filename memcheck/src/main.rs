//! Interprets cases, one per line of the file given, over maps and sets from
//! many types of keys to many types of values. It is run under Miri and
//! AddressSanitizer, which decide; the only thing it checks by itself is that
//! values are ones which were made before.
#![forbid(unsafe_code)]
#![allow(clippy::all, unused_mut)]
use std::cell::Cell;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::hint::black_box;
use std::num::NonZeroU8;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::option_bucket::{NoneBucket, OptionBucket, SomeBucket};
use fixed_map::{Key, Map, Set};

// Keys.

trait K: Key + Eq + Debug + 'static {
    fn pool() -> Vec<Self>;
}

fn wrap<T, U>(v: Vec<T>, f: impl Fn(T) -> U) -> Vec<U> {
    v.into_iter().map(f).collect()
}

macro_rules! units {
    ($(#[$m:meta])* $n:ident: $($v:ident),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Key)]
        $(#[$m])*
        enum $n { $($v),* }
        impl K for $n {
            fn pool() -> Vec<Self> { vec![$($n::$v),*] }
        }
    };
}
units!(U1: A);
units!(U3: A, B, C);
units!(U9: A, B, C, D, E, F, G, H, I);
units!(#[key(bitset)] B3: A, B, C);
units!(#[key(bitset)] B9: A, B, C, D, E, F, G, H, I);

macro_rules! comp {
    ($n:ident: $($v:ident $(($t:ty))?),* $(,)?) => {
        #[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, Key)]
        enum $n { $($v $(($t))?),* }
        impl K for $n {
            fn pool() -> Vec<Self> {
                let mut out = Vec::new();
                $(comp!(@ out $n $v $(($t))?);)*
                out
            }
        }
    };
    (@ $out:ident $n:ident $v:ident) => { $out.push($n::$v) };
    (@ $out:ident $n:ident $v:ident ($t:ty)) => { $out.extend(wrap(<$t as K>::pool(), $n::$v)) };
}
comp!(C1: A(bool), B, C(Option<()>));
comp!(C2: A, B(C1), C(Option<U3>), D(B3), E(Option<Option<bool>>));
comp!(C3: A(C2), B(()), C(U1), D(bool));
comp!(D1: A(u8), B, C(Option<&'static str>), D(C1));
comp!(D2: A(D1), B(Option<D1>), C(U3));

impl K for bool {
    fn pool() -> Vec<Self> {
        vec![true, false]
    }
}
impl K for () {
    fn pool() -> Vec<Self> {
        vec![()]
    }
}
impl<T: K> K for Option<T> {
    fn pool() -> Vec<Self> {
        let mut v = wrap(T::pool(), Some);
        v.push(None);
        v
    }
}
impl K for u8 {
    fn pool() -> Vec<Self> {
        vec![0, 1, 7, 128, 254, 255]
    }
}
impl K for u64 {
    fn pool() -> Vec<Self> {
        (0..9).map(|i| 3u64.wrapping_pow(i * 17)).collect()
    }
}
impl K for char {
    fn pool() -> Vec<Self> {
        vec!['a', 'b', '\u{10ffff}']
    }
}
impl K for &'static str {
    fn pool() -> Vec<Self> {
        vec!["", "a", "b", "a longer string"]
    }
}

// Values.

fn corrupt(what: &str) -> ! {
    println!("corrupted value: {what}");
    std::process::exit(86)
}

trait V: Sized + Clone + PartialEq + Debug + Default + PartialOrd + 'static {
    fn mk(n: u32) -> Self;
    fn see(&self) -> u64;
    fn poke(&mut self, n: u32) {
        *self = Self::mk(n);
    }
}

impl V for () {
    fn mk(_: u32) {}
    fn see(&self) -> u64 {
        0
    }
}
impl V for bool {
    fn mk(n: u32) -> bool {
        n % 2 == 0
    }
    fn see(&self) -> u64 {
        // Only true and false are values of this type.
        match black_box(*self) as u8 {
            n @ 0..=1 => n.into(),
            _ => corrupt("bool"),
        }
    }
}
impl V for u32 {
    fn mk(n: u32) -> u32 {
        n
    }
    fn see(&self) -> u64 {
        black_box(*self).into()
    }
}
impl V for Box<u32> {
    fn mk(n: u32) -> Self {
        Box::new(n)
    }
    fn see(&self) -> u64 {
        black_box(**self).into()
    }
    fn poke(&mut self, n: u32) {
        **self = n;
    }
}
impl V for String {
    fn mk(n: u32) -> Self {
        format!("{n}")
    }
    fn see(&self) -> u64 {
        match self.parse() {
            Ok(n) => n,
            Err(_) if self.is_empty() => 0,
            Err(_) => corrupt("string"),
        }
    }
    fn poke(&mut self, n: u32) {
        self.clear();
        self.push_str(&n.to_string());
    }
}
/// Large.
#[derive(Clone, PartialEq, Debug, PartialOrd, Default)]
struct Large([u64; 24], Box<u64>);
impl V for Large {
    fn mk(n: u32) -> Self {
        Large([n.into(); 24], Box::new(n.into()))
    }
    fn see(&self) -> u64 {
        if self.0.iter().any(|x| *x != *self.1) {
            corrupt("large")
        }
        *self.1
    }
}
/// With a niche.
#[derive(Clone, PartialEq, Debug, PartialOrd)]
struct Niche(NonZeroU8);
impl Default for Niche {
    fn default() -> Self {
        Self::mk(0)
    }
}
impl V for Niche {
    fn mk(n: u32) -> Self {
        Niche(NonZeroU8::new(n as u8 | 1).unwrap())
    }
    fn see(&self) -> u64 {
        match black_box(self.0.get()) {
            0 => corrupt("niche"),
            n => n.into(),
        }
    }
}
/// Nothing but a destructor.
#[derive(Clone, PartialEq, Debug, PartialOrd, Default)]
struct Zst;
thread_local!(static ZST: Cell<u64> = const { Cell::new(0) });
impl Drop for Zst {
    fn drop(&mut self) {
        ZST.with(|z| z.set(z.get() + 1));
    }
}
impl V for Zst {
    fn mk(_: u32) -> Self {
        Zst
    }
    fn see(&self) -> u64 {
        ZST.with(Cell::get)
    }
}
/// Shared, and modified through shared references.
impl V for Rc<Cell<u32>> {
    fn mk(n: u32) -> Self {
        Rc::new(Cell::new(n))
    }
    fn see(&self) -> u64 {
        self.set(self.get().wrapping_add(1));
        self.get().into()
    }
}
/// Whose destructor, clone and comparison panic when their turn comes.
#[derive(Debug, PartialOrd)]
struct Bomb(Box<u32>);
thread_local!(static FUSE: Cell<u32> = const { Cell::new(0) });
fn fuse() {
    let n = FUSE.get();
    if n > 0 && !std::thread::panicking() {
        FUSE.set(n - 1);
        if n == 1 {
            std::panic::panic_any(Fault);
        }
    }
}
impl Drop for Bomb {
    fn drop(&mut self) {
        fuse()
    }
}
impl Clone for Bomb {
    fn clone(&self) -> Self {
        fuse();
        Bomb(self.0.clone())
    }
}
impl PartialEq for Bomb {
    fn eq(&self, other: &Self) -> bool {
        fuse();
        self.0 == other.0
    }
}
impl Default for Bomb {
    fn default() -> Self {
        fuse();
        Bomb(Box::default())
    }
}
impl V for Bomb {
    fn mk(n: u32) -> Self {
        Bomb(Box::new(n))
    }
    fn see(&self) -> u64 {
        black_box(*self.0).into()
    }
    fn poke(&mut self, n: u32) {
        *self.0 = n;
    }
}
impl V for Option<Box<(u8, String)>> {
    fn mk(n: u32) -> Self {
        (n % 3 != 0).then(|| Box::new((n as u8, "x".repeat(n as usize % 20))))
    }
    fn see(&self) -> u64 {
        self.as_ref().map_or(0, |b| b.1.len() as u64)
    }
}
impl V for Vec<Option<Box<u16>>> {
    fn mk(n: u32) -> Self {
        (0..n % 4).map(|i| (i % 2 == 0).then(|| Box::new(n as u16))).collect()
    }
    fn see(&self) -> u64 {
        self.iter().flatten().map(|b| u64::from(**b)).sum()
    }
    fn poke(&mut self, n: u32) {
        self.push(Some(Box::new(n as u16)));
    }
}

/// What is specific to some types of keys.
trait Extra<T> {
    fn mixed(self, a: u32) -> u64;
}
trait Raw {
    fn raw(&mut self, a: u128);
}

macro_rules! front_back {
    ($it:expr, $a:expr, $f:expr) => {{
        let mut it = $it;
        let mut f = $f;
        for i in 0..$a % 9 {
            let x = if ($a >> (i + 4)) & 1 == 0 { it.next() } else { it.next_back() };
            if let Some(x) = x {
                f(x)
            }
        }
        match $a % 5 {
            0 => drop(it),
            1 => it.for_each(f),
            2 => it.rev().for_each(f),
            3 => std::mem::forget(it),
            _ => {
                if let Some(x) = it.nth(1) {
                    f(x)
                }
                it.rfold((), |_, x| f(x))
            }
        }
    }};
}
macro_rules! front {
    ($it:expr, $a:expr, $f:expr) => {{
        let mut it = $it;
        let mut f = $f;
        for _ in 0..$a % 7 {
            if let Some(x) = it.next() {
                f(x)
            }
        }
        match $a % 5 {
            0 | 2 => drop(it),
            1 => it.for_each(f),
            3 => std::mem::forget(it),
            _ => {
                if let Some(x) = it.nth(1) {
                    f(x)
                }
                it.fold((), |_, x| f(x))
            }
        }
    }};
}

macro_rules! extra {
    ($m:ident $t:ty) => {
        impl<W: V> Extra<$t> for (&mut Map<$t, W>, &mut Set<$t>, u8) {
            fn mixed(self, a: u32) -> u64 {
                let (m, s, what) = self;
                let mut sum = 0u64;
                match what % 8 {
                    0 => $m!(m.iter(), a, |(_, v): (_, &W)| sum += v.see()),
                    1 => $m!(m.iter_mut(), a, |(_, v): (_, &mut W)| v.poke(a)),
                    2 => $m!(m.values_mut(), a, |v: &mut W| v.poke(a)),
                    3 => $m!(m.values(), a, |v: &W| sum += v.see()),
                    4 => $m!(std::mem::take(m).into_iter(), a, |(_, v): (_, W)| sum += v.see()),
                    5 => $m!(m.keys(), a, |_| sum += 1),
                    6 => $m!(s.iter(), a, |_| sum += 1),
                    _ => $m!(std::mem::take(s).into_iter(), a, |_| sum += 1),
                }
                sum
            }
        }
    };
}
extra!(front_back U1);
extra!(front_back U3);
extra!(front_back U9);
extra!(front_back B3);
extra!(front_back B9);
extra!(front_back C1);
extra!(front_back C2);
extra!(front_back C3);
extra!(front_back bool);
extra!(front_back ());
extra!(front_back Option<bool>);
extra!(front_back Option<Option<()>>);
extra!(front_back Option<U3>);
extra!(front_back Option<C1>);
extra!(front D1);
extra!(front D2);
extra!(front u8);
extra!(front u64);
extra!(front char);
extra!(front &'static str);
extra!(front Option<u64>);

macro_rules! no_raw {
    ($($t:ty),*) => {$(
        impl Raw for Set<$t> {
            fn raw(&mut self, _: u128) {}
        }
    )*};
}
no_raw!(U1, U3, U9, C1, C2, C3, bool, (), Option<bool>, Option<Option<()>>, Option<U3>, Option<C1>, D1, D2, u8, u64, char, &'static str, Option<u64>);
macro_rules! raw {
    ($($t:ty: $u:ty),*) => {$(
        impl Raw for Set<$t> {
            fn raw(&mut self, a: u128) {
                let x = self.as_raw();
                *self = Set::from_raw(x ^ a as $u);
            }
        }
    )*};
}
raw!(B3: u8, B9: u16);

struct Sum(u64);
impl Hasher for Sum {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.rotate_left(5) ^ u64::from(*x);
        }
    }
}

struct Op {
    k: u8,
    key: u16,
    a: u32,
}

fn occupied<'a, T: K, W: V, E: OccupiedEntry<'a, T, W>>(mut e: E, a: u32) {
    let k: T = e.key();
    black_box(k == e.key());
    black_box(e.get().see());
    e.get_mut().poke(a);
    match a % 6 {
        0 => drop(black_box(e.insert(W::mk(a)))),
        1 => drop(black_box(e.remove())),
        2 => {
            let r = e.into_mut();
            r.poke(a);
            black_box(r.see());
        }
        3 => std::mem::forget(e),
        4 => {
            let old = e.insert(W::mk(a));
            black_box(e.get().see());
            let again = e.insert(old);
            black_box(again.see());
            drop(e.remove());
        }
        _ => drop(e),
    }
}

fn vacant<'a, T: K, W: V, E: VacantEntry<'a, T, W>>(e: E, a: u32) {
    black_box(e.key());
    match a % 4 {
        0 => drop(e),
        1 => std::mem::forget(e),
        _ => {
            let r = e.insert(W::mk(a));
            r.poke(a + 1);
            black_box(r.see());
        }
    }
}

/// The buckets entries are made of, which are public as well.
fn bucket<W: V>(a: u32) {
    let mut o = (a % 2 == 0).then(|| W::mk(a));
    for i in 0..6 {
        let b = a >> (i * 4);
        match OptionBucket::new(&mut o) {
            OptionBucket::Some(mut e) => {
                black_box(e.as_ref().see());
                e.as_mut().poke(b);
                match b % 4 {
                    0 => drop(e.take()),
                    1 => drop(e.replace(W::mk(b))),
                    2 => e.into_mut().poke(b),
                    _ => {}
                }
            }
            OptionBucket::None(e) => {
                if b % 3 > 0 {
                    let r = e.insert(W::mk(b));
                    r.poke(b);
                    black_box(r.see());
                }
            }
        }
        if let Some(e) = SomeBucket::new(&mut o) {
            black_box(e.as_ref().see());
            if b % 5 == 0 {
                drop(e.take());
            }
        }
        if let Some(e) = NoneBucket::new(&mut o) {
            if b % 5 == 1 {
                black_box(e.insert(W::mk(b)).see());
            }
        }
        black_box(o.as_ref().map(V::see));
    }
}

struct Fault;

fn exec<T: K, W: V>(ops: &[Op], x: u32)
where
    T::MapStorage<W>: Clone + PartialEq,
    T::SetStorage: Clone + PartialEq,
    Set<T>: Raw,
    for<'a> (&'a mut Map<T, W>, &'a mut Set<T>, u8): Extra<T>,
{
    let pool = T::pool();
    let mut m: Map<T, W> = Map::new();
    let mut m2 = m.clone();
    let mut s: Set<T> = Set::new();
    let mut s2 = s.clone();
    let mut model: BTreeMap<usize, ()> = BTreeMap::new();
    for op in ops {
        let i = (op.key as usize * pool.len()) >> 16;
        let k = pool[i];
        let a = op.a ^ (x & 0xff);
        match op.k % 24 {
            0..=5 => {
                drop(black_box(m.insert(k, W::mk(a))));
                s.insert(k);
                model.insert(i, ());
                if op.k % 2 == 0 {
                    s2.insert(k);
                }
            }
            6 => {
                drop(black_box(m.remove(k)));
                s.remove(k);
                model.remove(&i);
            }
            7 => {
                if let Some(v) = m.get_mut(k) {
                    v.poke(a);
                }
                // Shared references at the same time.
                let refs: Vec<Option<&W>> = pool.iter().map(|k| m.get(*k)).collect();
                let n: u64 = m.values().map(V::see).sum();
                black_box(refs.iter().flatten().map(|v| v.see()).sum::<u64>() + n);
                black_box(m.len() + m.contains_key(k) as usize + m.is_empty() as usize + s.len() + s.contains(k) as usize);
            }
            8..=10 => match m.entry(k) {
                Entry::Occupied(e) => occupied::<T, W, _>(e, a),
                Entry::Vacant(e) => vacant::<T, W, _>(e, a),
            },
            11 => {
                let e = m.entry(k).and_modify(|v| v.poke(a));
                let r = match a % 4 {
                    0 => e.or_insert(W::mk(a)),
                    1 => e.or_insert_with(|| W::mk(a)),
                    2 => e.or_insert_with_key(|_| W::mk(a)),
                    _ => e.or_default(),
                };
                r.poke(a);
                black_box(r.see());
            }
            12 => {
                let mut n = 0;
                let kept = |n: u32| (a >> (n % 20)) & 1 == 0;
                m.retain(|_, v| {
                    n += 1;
                    v.poke(n);
                    kept(n)
                });
                n = 0;
                s.retain(|_| {
                    n += 1;
                    kept(n)
                });
            }
            13 => {
                // All exclusive references at the same time.
                let mut refs: Vec<(T, &mut W)> = m.iter_mut().collect();
                for (_, r) in refs.iter_mut() {
                    r.poke(a);
                }
                for (_, r) in refs.iter_mut().rev() {
                    r.poke(a + 1);
                    black_box(r.see());
                }
                if let [(_, a), .., (_, b)] = &mut refs[..] {
                    std::mem::swap(*a, *b);
                }
                let mut refs: Vec<&mut W> = m.values_mut().collect();
                for r in refs.iter_mut() {
                    r.poke(a);
                }
                for r in refs {
                    black_box(r.see());
                }
            }
            14..=17 => {
                black_box((&mut m, &mut s, (op.k % 24) ^ (a as u8 & 7)).mixed(a));
            }
            18 => {
                m2 = m.clone();
                s2.clone_from(&s);
                black_box(m2 == m && s2 == s);
                m.clone_from(&m2);
                std::mem::swap(&mut m, &mut m2);
            }
            19 => match a % 6 {
                0 => m.clear(),
                1 => s.clear(),
                2 => m = Map::new(),
                3 => {
                    // Moved around.
                    let b = Box::new((std::mem::take(&mut m), std::mem::take(&mut s)));
                    let v = vec![*b];
                    let (x, y) = v.into_iter().next().unwrap();
                    m = x;
                    s = y;
                }
                4 => m = pool.iter().map(|k| (*k, W::mk(a))).collect(),
                _ => std::mem::swap(&mut m, &mut m2),
            },
            20 => {
                let mut it = s.intersection(&s2);
                black_box(it.next());
                black_box(it.clone().count() + it.fold(0, |n, _| n + 1));
                s2 = s.intersection(&s2).collect();
                for k in &s {
                    black_box(m.get(k).map(V::see));
                }
            }
            21 => {
                // Slow under Miri.
                if a % 8 == 0 {
                    black_box(format!("{m:?} {s:#?}"));
                }
                black_box(m == m2 || s == s2);
            }
            22 => {
                // A callback panics.
                let mut n = a % 5;
                let mut fuse = move || {
                    if n == 0 {
                        std::panic::panic_any(Fault);
                    }
                    n -= 1;
                    n % 2 == 0
                };
                let r = catch_unwind(AssertUnwindSafe(|| match a % 7 {
                    0 | 1 => m.retain(|_, v| {
                        v.poke(a);
                        fuse()
                    }),
                    2 => s.retain(|_| fuse()),
                    3 => {
                        m.entry(k).or_insert_with(|| std::panic::panic_any(Fault));
                    }
                    4 => {
                        let _ = m.entry(k).and_modify(|_| std::panic::panic_any(Fault));
                    }
                    5 => std::mem::take(&mut m).into_iter().for_each(|_| {
                        fuse();
                    }),
                    _ => {
                        m = pool.iter().map(|k| {
                            fuse();
                            (*k, W::mk(a))
                        }).collect()
                    }
                }));
                black_box(r.is_err());
                // Destructors, clones and comparisons of values do.
                FUSE.set(1 + (a >> 8) % 5);
                let r = catch_unwind(AssertUnwindSafe(|| match (a >> 3) % 13 {
                    0 => drop(m.insert(k, W::mk(a))),
                    1 => drop(m.remove(k)),
                    2 => m.clear(),
                    3 => m.retain(|_, v| v.see() % 3 == 0),
                    4 => drop(std::mem::take(&mut m)),
                    5 => {
                        let mut it = std::mem::take(&mut m).into_iter();
                        drop(it.next());
                        let second = it.next();
                        drop(it);
                        drop(second);
                    }
                    6 => m2 = m.clone(),
                    7 => m.clone_from(&m2),
                    8 => {
                        black_box(m == m2);
                    }
                    9 => match m.entry(k) {
                        Entry::Occupied(e) => occupied::<T, W, _>(e, a),
                        Entry::Vacant(e) => vacant::<T, W, _>(e, a),
                    },
                    10 => m = pool.iter().chain(&pool).map(|k| (*k, W::mk(a))).collect(),
                    11 => {
                        black_box(m.entry(k).or_default().see());
                    }
                    _ => {
                        // Assigned to where it is.
                        for v in m.values_mut() {
                            *v = W::mk(a);
                        }
                    }
                }));
                FUSE.set(0);
                black_box(r.is_err());
            }
            _ if a % 3 == 0 => bucket::<W>(a),
            _ => s.raw(u128::from(a) | u128::from(a) << 40 | u128::from(op.key)),
        }
        if a % 2 == 0 {
            black_box(m.iter().map(|(_, v)| v.see()).sum::<u64>());
        }
    }
    black_box((model.len(), Sum(0).finish()));
    drop(m);
    black_box(m2.values().map(V::see).sum::<u64>());
    for (_, v) in m2 {
        black_box(v.see());
    }
}

macro_rules! pairs {
    ($($k:ty => $($v:ty),*;)*) => {
        const PAIRS: &[(&str, fn(&[Op], u32))] = &[$($((concat!(stringify!($k), " => ", stringify!($v)), exec::<$k, $v>),)*)*];
    };
}
type Odd = Option<Box<(u8, String)>>;
type Multi = Vec<Option<Box<u16>>>;
type Shared = Rc<Cell<u32>>;
pairs! {
    U1 => Box<u32>, Zst;
    U3 => String, bool, Shared, Bomb;
    U9 => Large, Niche, Box<u32>, ();
    B3 => Box<u32>;
    B9 => Odd, Zst;
    C1 => Box<u32>, Niche;
    C2 => String, Large, Zst, Bomb;
    C3 => Box<u32>, Multi;
    bool => Box<u32>, Large, Bomb;
    () => String, Zst;
    Option<bool> => Box<u32>, bool;
    Option<Option<()>> => Odd;
    Option<U3> => Box<u32>, Niche, Bomb;
    Option<C1> => Shared;
    D1 => Box<u32>, Zst, Bomb;
    D2 => String, Large;
    u8 => Multi, ();
    u64 => Box<u32>;
    char => Niche, Bomb;
    &'static str => Large;
    Option<u64> => Box<u32>;
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 2 {
        for p in PAIRS {
            println!("{}", p.0);
        }
        return;
    }
    std::panic::set_hook(Box::new(|i| {
        // The crate asserts the preconditions of its unsafe functions.
        let text = i.payload().downcast_ref::<String>().map(String::as_str).or(i.payload().downcast_ref::<&str>().copied()).unwrap_or("");
        if text.contains("Undefined Behavior") {
            println!("corrupted value: {text}");
            std::process::exit(86);
        }
    }));
    let text = std::fs::read_to_string(&args[1]).unwrap();
    for (n, line) in text.lines().enumerate() {
        let mut it = line.split(' ').map(|x| x.parse::<u32>().unwrap());
        let pair = it.next().unwrap() as usize;
        let x = it.next().unwrap();
        let mut ops = Vec::new();
        while let Some(k) = it.next() {
            ops.push(Op { k: k as u8, key: it.next().unwrap() as u16, a: it.next().unwrap() });
        }
        // The line which is being run is the last one announced.
        println!("{n}");
        // Panics are not what this is about.
        let _ = catch_unwind(AssertUnwindSafe(|| (PAIRS[pair % PAIRS.len()].1)(&ops, x)));
    }
    println!("done");
}
