//! What generated programs without the standard library are linked with. There
//! is an allocator only where hashbrown needs one.
#![no_std]
use core::fmt::{self, Debug, Write};

pub use fixed_map;
use fixed_map::map::Entry;
use fixed_map::{Key, Map, Set};

extern "C" {
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn exit(code: i32) -> !;
}

pub struct Stdout;
impl Write for Stdout {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        // SAFETY: the text is there.
        unsafe { write(1, s.as_ptr(), s.len()) };
        Ok(())
    }
}

#[panic_handler]
fn panicked(p: &core::panic::PanicInfo<'_>) -> ! {
    let _ = writeln!(Stdout, "panic {p}");
    // SAFETY: it ends here.
    unsafe { exit(101) }
}

#[no_mangle]
pub extern "C" fn rust_eh_personality() {}
#[allow(non_snake_case)]
#[no_mangle]
pub extern "C" fn _Unwind_Resume() -> ! {
    // SAFETY: it ends here.
    unsafe { exit(102) }
}

#[cfg(feature = "with_hashbrown")]
mod heap {
    use core::alloc::{GlobalAlloc, Layout};
    extern "C" {
        fn aligned_alloc(a: usize, n: usize) -> *mut u8;
        fn free(p: *mut u8);
    }
    struct Heap;
    // SAFETY: as C has it.
    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            let a = l.align().max(16);
            aligned_alloc(a, (l.size() + a - 1) / a * a)
        }
        unsafe fn dealloc(&self, p: *mut u8, _: Layout) {
            free(p)
        }
    }
    #[global_allocator]
    static HEAP: Heap = Heap;
}

pub type Text = &'static str;
pub type Opt<T> = Option<T>;
pub trait HasTy {
    type T;
}

pub fn always<K>()
where
    K: Key + Debug + PartialEq + Eq,
    Map<K, u8>: Clone + Default + Debug + PartialEq + Eq + IntoIterator<Item = (K, u8)> + FromIterator<(K, u8)>,
    Set<K>: Clone + Default + Debug + PartialEq + Eq + IntoIterator<Item = K> + FromIterator<K>,
{
}

pub struct Fixed;
pub fn unit<T: Copy + Ord + core::hash::Hash>() {}
pub fn fixed<T: Copy>() {}

#[macro_export]
macro_rules! fixed_key {
    ($k:ty, unit, $set_size:expr) => {{
        $crate::unit::<$crate::fixed_map::Map<$k, u8>>();
        $crate::unit::<$crate::fixed_map::Set<$k>>();
        ::core::option::Option::Some($crate::Fixed)
    }};
    ($k:ty) => {{
        $crate::fixed::<$crate::fixed_map::Map<$k, u8>>();
        $crate::fixed::<$crate::fixed_map::Set<$k>>();
        ::core::option::Option::Some($crate::Fixed)
    }};
}

const MOST: usize = 512;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() >> 33) as usize % n.max(1)
    }
}

macro_rules! ensure {
    ($c:expr, $m:expr) => {
        if !$c {
            return Err($m);
        }
    };
}

/// Counts what is written.
struct Count(usize);
impl Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

pub fn check<K: Key + PartialEq + Debug>(_: &str, keys: &[K], fixed: Option<Fixed>, seed: u32) -> Result<(), Text>
where
    Map<K, u32>: Clone + PartialEq + Debug,
    Set<K>: Clone + PartialEq + Debug,
{
    let n = keys.len().min(MOST);
    let keys = &keys[..n];
    let (mut model, mut set_model) = ([None::<u32>; MOST], [false; MOST]);
    let (mut m, mut s) = (Map::<K, u32>::new(), Set::<K>::new());
    let mut rng = Rng(u64::from(seed));
    let at = |k: K| keys.iter().position(|x| *x == k).unwrap_or(MOST - 1);
    for step in 0..if n == 0 { 3 } else { 120 } {
        if n > 0 {
            // Keep to a few keys, for some time.
            let span = 1 + n.min(1 + step % 7);
            let i = (rng.below(span) + step / 16) % n;
            let k = keys[i];
            let v = rng.next() as u32;
            match rng.below(12) {
                0..=2 => ensure!(m.insert(k, v) == model[i].replace(v), "insert"),
                3 => ensure!(m.remove(k) == model[i].take(), "remove"),
                4 => {
                    let e = m.entry(k);
                    ensure!(e.key() == k, "the key of an entry");
                    match e {
                        Entry::Occupied(mut e) => {
                            use fixed_map::map::OccupiedEntry;
                            ensure!(Some(*e.get()) == model[i], "an occupied entry");
                            if v % 2 == 0 {
                                ensure!(Some(e.remove()) == model[i].take(), "remove of an entry");
                            } else {
                                ensure!(Some(e.insert(v)) == model[i].replace(v), "insert of an entry");
                            }
                        }
                        Entry::Vacant(e) => {
                            use fixed_map::map::VacantEntry;
                            ensure!(model[i].is_none(), "a vacant entry");
                            ensure!(*e.insert(v) == v, "insert of a vacant entry");
                            model[i] = Some(v);
                        }
                    }
                }
                5 => {
                    let r = m.entry(k).and_modify(|x| *x ^= 5).or_insert_with(|| v);
                    let e = match &mut model[i] {
                        Some(x) => {
                            *x ^= 5;
                            *x
                        }
                        e => *e.insert(v),
                    };
                    ensure!(*r == e, "or_insert_with");
                }
                6 => {
                    m.retain(|k, x| (*x ^ at(k) as u32) % 3 != 0);
                    for (i, e) in model[..n].iter_mut().enumerate() {
                        if e.is_some_and(|x| (x ^ i as u32) % 3 == 0) {
                            *e = None;
                        }
                    }
                }
                7 => {
                    for (k, x) in m.iter_mut() {
                        *x = x.wrapping_add(at(k) as u32);
                    }
                    for (i, e) in model[..n].iter_mut().enumerate() {
                        if let Some(x) = e {
                            *x = x.wrapping_add(i as u32);
                        }
                    }
                }
                8 | 9 => {
                    ensure!(s.insert(k) != set_model[i], "insert of a set");
                    set_model[i] = true;
                }
                10 => {
                    ensure!(s.remove(k) == set_model[i], "remove of a set");
                    set_model[i] = false;
                }
                _ => {
                    s.retain(|k| at(k) % 2 == v as usize % 2);
                    for (i, e) in set_model[..n].iter_mut().enumerate() {
                        *e &= i % 2 == v as usize % 2;
                    }
                }
            }
            ensure!(m.get(k).copied() == model[i] && m.contains_key(k) == model[i].is_some(), "get");
            ensure!(s.contains(k) == set_model[i], "contains");
        }
        let len = model[..n].iter().flatten().count();
        let set_len = set_model[..n].iter().filter(|b| **b).count();
        ensure!(m.len() == len && m.is_empty() == (len == 0), "len of a map");
        ensure!(s.len() == set_len && s.is_empty() == (set_len == 0), "len of a set");
        if fixed.is_some() {
            let e = || keys.iter().copied().zip(model).filter_map(|(k, v)| Some((k, v?)));
            ensure!(m.iter().map(|(k, v)| (k, *v)).eq(e()), "iter");
            ensure!(m.keys().eq(e().map(|e| e.0)), "keys");
            ensure!(m.values().copied().eq(e().map(|e| e.1)), "values");
            ensure!(m.clone().into_iter().eq(e()), "into_iter");
            ensure!(s.iter().eq(keys.iter().copied().zip(set_model).filter(|e| e.1).map(|e| e.0)), "iter of a set");
        } else {
            ensure!(m.iter().count() == len && m.iter().all(|(k, v)| model[at(k)] == Some(*v)), "iter");
            ensure!(s.iter().count() == set_len && s.iter().all(|k| set_model[at(k)]), "iter of a set");
        }
        ensure!(m == m.clone() && m.iter().map(|(k, v)| (k, *v)).collect::<Map<K, u32>>() == m, "equality of maps");
        ensure!(s == s.clone() && s.intersection(&s).collect::<Set<K>>() == s, "equality of sets");
        let mut c = Count(0);
        ensure!(write!(c, "{m:?}{s:#?}").is_ok() && c.0 >= 4, "Debug");
    }
    m.clear();
    s.clear();
    ensure!(m == Map::default() && s == Set::default() && m.is_empty() && s.is_empty(), "clear");
    Ok(())
}

pub fn run(items: &[(usize, fn() -> Result<(), Text>)]) {
    for (n, f) in items {
        let _ = writeln!(Stdout, "start {n}");
        let _ = match f() {
            Ok(()) => writeln!(Stdout, "ok {n}"),
            Err(e) => writeln!(Stdout, "fail {n} {e}"),
        };
    }
}
