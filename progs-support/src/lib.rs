//! Linked into the generated programs: checks that a `Map` and a `Set` over a
//! key are a finite map and a finite set over the values of the key given.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub use fixed_map;
use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::{Key, Map, Set};

/// What every collection implements.
pub fn always<K>()
where
    K: Key + Debug + PartialEq + Eq,
    Map<K, u8>: Clone + Default + Debug + PartialEq + Eq + IntoIterator<Item = (K, u8)> + FromIterator<(K, u8)>,
    for<'a> &'a Map<K, u8>: IntoIterator<Item = (K, &'a u8)>,
    for<'a> &'a mut Map<K, u8>: IntoIterator<Item = (K, &'a mut u8)>,
    Set<K>: Clone + Default + Debug + PartialEq + Eq + IntoIterator<Item = K> + FromIterator<K>,
    for<'a> &'a Set<K>: IntoIterator<Item = K>,
{
}

/// What collections implement over keys all parts of which are fixed.
pub fn fixed<K>()
where
    K: Key,
    Map<K, u8>: Copy,
    Set<K>: Copy,
{
}

/// What collections implement over enums of unit variants.
pub fn unit<K>()
where
    K: Key,
    Map<K, u8>: Copy + PartialOrd + Ord + Hash,
    Set<K>: Copy + PartialOrd + Ord + Hash,
{
}

pub type MapOf<K> = Map<K, u32>;

/// Functions of keys all parts of which are fixed.
pub struct Fixed<K: Key> {
    pub map_cmp: Option<fn(&MapOf<K>, &MapOf<K>) -> (Ordering, Option<Ordering>, u64, u64)>,
    pub set_cmp: Option<fn(&Set<K>, &Set<K>) -> (Ordering, Option<Ordering>, u64, u64)>,
    /// The size of a set, if documented.
    pub set_size: Option<usize>,
    /// The size of a map, if documented.
    pub map_size: bool,
}

pub fn compare<T: Ord + PartialOrd + Hash>(a: &T, b: &T) -> (Ordering, Option<Ordering>, u64, u64) {
    let h = |t: &T| {
        let mut h = DefaultHasher::new();
        t.hash(&mut h);
        h.finish()
    };
    (a.cmp(b), a.partial_cmp(b), h(a), h(b))
}

/// A unit enum of this many variants, or another fixed key.
#[macro_export]
macro_rules! fixed_key {
    ($k:ty, unit, $set_size:expr) => {{
        $crate::unit::<$k>();
        ::core::option::Option::Some($crate::Fixed::<$k> {
            map_cmp: ::core::option::Option::Some(|a, b| $crate::compare(a, b)),
            set_cmp: ::core::option::Option::Some(|a, b| $crate::compare(a, b)),
            set_size: ::core::option::Option::Some($set_size),
            map_size: true,
        })
    }};
    ($k:ty) => {{
        $crate::fixed::<$k>();
        ::core::option::Option::Some($crate::Fixed::<$k> {
            map_cmp: ::core::option::Option::None,
            set_cmp: ::core::option::Option::None,
            set_size: ::core::option::Option::None,
            map_size: false,
        })
    }};
}

/// Map operations by the index of the key.
trait M {
    fn insert(&mut self, i: usize, v: u32) -> Option<u32>;
    fn get(&self, i: usize) -> Option<u32>;
    fn get_mut(&mut self, i: usize) -> Option<&mut u32>;
    fn remove(&mut self, i: usize) -> Option<u32>;
    fn contains(&self, i: usize) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter(&self) -> Vec<(usize, u32)>;
    fn keys(&self) -> Vec<usize>;
    fn values(&self) -> Vec<u32>;
    fn iter_mut(&mut self, f: &mut dyn FnMut(usize, &mut u32));
    fn values_mut(&mut self, f: &mut dyn FnMut(&mut u32));
    fn retain(&mut self, f: &mut dyn FnMut(usize, &mut u32) -> bool);
    fn into_iter(&self) -> Vec<(usize, u32)>;
    fn recollect(&mut self);
    fn debug(&self) -> (String, String);
    /// Whether it is occupied, its key, and its value.
    fn entry(&mut self, i: usize) -> (bool, usize, Option<u32>);
    fn entry_or_insert(&mut self, i: usize, v: u32) -> u32;
    fn entry_modify(&mut self, i: usize, v: u32);
    fn entry_set(&mut self, i: usize, v: u32) -> Option<u32>;
    fn entry_remove(&mut self, i: usize) -> Option<u32>;
    fn save(&mut self);
    /// Compare with what was saved.
    fn eq_saved(&self) -> bool;
    fn cmp_saved(&self) -> Option<(Ordering, Option<Ordering>, u64, u64)>;
    fn swap_saved(&mut self);
}

struct Mo<'a, K: Key> {
    keys: &'a [K],
    map: MapOf<K>,
    saved: MapOf<K>,
    fixed: Option<&'a Fixed<K>>,
}

fn index<K: PartialEq>(keys: &[K], k: &K) -> usize {
    keys.iter().position(|x| x == k).unwrap_or(usize::MAX)
}

impl<'a, K: Key + PartialEq + Debug> M for Mo<'a, K>
where
    MapOf<K>: Clone + PartialEq + Debug,
{
    fn insert(&mut self, i: usize, v: u32) -> Option<u32> {
        self.map.insert(self.keys[i], v)
    }
    fn get(&self, i: usize) -> Option<u32> {
        self.map.get(self.keys[i]).copied()
    }
    fn get_mut(&mut self, i: usize) -> Option<&mut u32> {
        self.map.get_mut(self.keys[i])
    }
    fn remove(&mut self, i: usize) -> Option<u32> {
        self.map.remove(self.keys[i])
    }
    fn contains(&self, i: usize) -> bool {
        self.map.contains_key(self.keys[i])
    }
    fn len(&self) -> usize {
        self.map.len()
    }
    fn is_empty(&self) -> bool {
        self.map.is_empty()
    }
    fn clear(&mut self) {
        self.map.clear();
    }
    fn iter(&self) -> Vec<(usize, u32)> {
        self.map.iter().take(5000).map(|(k, v)| (index(self.keys, &k), *v)).collect()
    }
    fn keys(&self) -> Vec<usize> {
        self.map.keys().take(5000).map(|k| index(self.keys, &k)).collect()
    }
    fn values(&self) -> Vec<u32> {
        self.map.values().take(5000).copied().collect()
    }
    fn iter_mut(&mut self, f: &mut dyn FnMut(usize, &mut u32)) {
        for (k, v) in self.map.iter_mut().take(5000) {
            f(index(self.keys, &k), v);
        }
    }
    fn values_mut(&mut self, f: &mut dyn FnMut(&mut u32)) {
        for v in self.map.values_mut().take(5000) {
            f(v);
        }
    }
    fn retain(&mut self, f: &mut dyn FnMut(usize, &mut u32) -> bool) {
        let keys = self.keys;
        self.map.retain(|k, v| f(index(keys, &k), v));
    }
    fn into_iter(&self) -> Vec<(usize, u32)> {
        self.map.clone().into_iter().take(5000).map(|(k, v)| (index(self.keys, &k), v)).collect()
    }
    fn recollect(&mut self) {
        self.map = std::mem::take(&mut self.map).into_iter().take(5000).collect();
    }
    fn debug(&self) -> (String, String) {
        struct D<'a, K: Key>(&'a MapOf<K>);
        impl<K: Key + Debug> Debug for D<'_, K> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_map().entries(self.0.iter()).finish()
            }
        }
        (format!("{:?}", self.map), format!("{:?}", D(&self.map)))
    }
    fn entry(&mut self, i: usize) -> (bool, usize, Option<u32>) {
        match self.map.entry(self.keys[i]) {
            Entry::Occupied(e) => (true, index(self.keys, &e.key()), Some(*e.get())),
            Entry::Vacant(e) => (false, index(self.keys, &e.key()), None),
        }
    }
    fn entry_or_insert(&mut self, i: usize, v: u32) -> u32 {
        *self.map.entry(self.keys[i]).or_insert(v)
    }
    fn entry_modify(&mut self, i: usize, v: u32) {
        let _ = self.map.entry(self.keys[i]).and_modify(|x| *x ^= v);
    }
    fn entry_set(&mut self, i: usize, v: u32) -> Option<u32> {
        match self.map.entry(self.keys[i]) {
            Entry::Occupied(mut e) => {
                let old = e.insert(v ^ 1);
                *e.get_mut() ^= 2;
                *e.into_mut() ^= 3;
                Some(old)
            }
            Entry::Vacant(e) => {
                let r = e.insert(v ^ 1);
                *r ^= 1;
                None
            }
        }
    }
    fn entry_remove(&mut self, i: usize) -> Option<u32> {
        match self.map.entry(self.keys[i]) {
            Entry::Occupied(e) => Some(e.remove()),
            Entry::Vacant(_) => None,
        }
    }
    fn save(&mut self) {
        self.saved = self.map.clone();
    }
    fn eq_saved(&self) -> bool {
        self.map == self.saved
    }
    fn cmp_saved(&self) -> Option<(Ordering, Option<Ordering>, u64, u64)> {
        Some((self.fixed?.map_cmp?)(&self.map, &self.saved))
    }
    fn swap_saved(&mut self) {
        std::mem::swap(&mut self.map, &mut self.saved);
    }
}

/// Set operations by the index of the element.
trait S {
    fn insert(&mut self, i: usize) -> bool;
    fn remove(&mut self, i: usize) -> bool;
    fn contains(&self, i: usize) -> bool;
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn clear(&mut self);
    fn iter(&self) -> Vec<usize>;
    fn into_iter(&self) -> Vec<usize>;
    fn recollect(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool);
    fn debug(&self) -> (String, String);
    fn save(&mut self);
    fn eq_saved(&self) -> bool;
    fn intersect_saved(&self) -> Vec<usize>;
    fn cmp_saved(&self) -> Option<(Ordering, Option<Ordering>, u64, u64)>;
    fn swap_saved(&mut self);
}

struct So<'a, K: Key> {
    keys: &'a [K],
    set: Set<K>,
    saved: Set<K>,
    fixed: Option<&'a Fixed<K>>,
}

impl<'a, K: Key + PartialEq + Debug> S for So<'a, K>
where
    Set<K>: Clone + PartialEq + Debug,
{
    fn insert(&mut self, i: usize) -> bool {
        self.set.insert(self.keys[i])
    }
    fn remove(&mut self, i: usize) -> bool {
        self.set.remove(self.keys[i])
    }
    fn contains(&self, i: usize) -> bool {
        self.set.contains(self.keys[i])
    }
    fn len(&self) -> usize {
        self.set.len()
    }
    fn is_empty(&self) -> bool {
        self.set.is_empty()
    }
    fn clear(&mut self) {
        self.set.clear();
    }
    fn iter(&self) -> Vec<usize> {
        self.set.iter().take(5000).map(|k| index(self.keys, &k)).collect()
    }
    fn into_iter(&self) -> Vec<usize> {
        self.set.clone().into_iter().take(5000).map(|k| index(self.keys, &k)).collect()
    }
    fn recollect(&mut self) {
        self.set = std::mem::take(&mut self.set).into_iter().take(5000).collect();
    }
    fn retain(&mut self, f: &mut dyn FnMut(usize) -> bool) {
        let keys = self.keys;
        self.set.retain(|k| f(index(keys, &k)));
    }
    fn debug(&self) -> (String, String) {
        struct D<'a, K: Key>(&'a Set<K>);
        impl<K: Key + Debug> Debug for D<'_, K> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.debug_set().entries(self.0.iter()).finish()
            }
        }
        (format!("{:?}", self.set), format!("{:?}", D(&self.set)))
    }
    fn save(&mut self) {
        self.saved = self.set.clone();
    }
    fn eq_saved(&self) -> bool {
        self.set == self.saved
    }
    fn intersect_saved(&self) -> Vec<usize> {
        let mut v: Vec<usize> = self.set.intersection(&self.saved).take(5000).map(|k| index(self.keys, &k)).collect();
        v.sort_unstable();
        v
    }
    fn cmp_saved(&self) -> Option<(Ordering, Option<Ordering>, u64, u64)> {
        Some((self.fixed?.set_cmp?)(&self.set, &self.saved))
    }
    fn swap_saved(&mut self) {
        std::mem::swap(&mut self.set, &mut self.saved);
    }
}

struct Rng(u64);

impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n.max(1) as u64) as usize
    }
    fn shuffled(&mut self, n: usize) -> Vec<usize> {
        let mut v: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            v.swap(i, self.below(i + 1));
        }
        v
    }
}

macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

fn entries(model: &[Option<u32>]) -> Vec<(usize, u32)> {
    model.iter().enumerate().filter_map(|(i, v)| v.map(|v| (i, v))).collect()
}

/// Compare the whole map with the model.
fn look(m: &mut dyn M, model: &[Option<u32>], fixed: bool) -> Result<(), String> {
    let want = entries(model);
    ensure!(m.len() == want.len(), "len() is {} with the entries {want:?}", m.len());
    ensure!(m.is_empty() == want.is_empty(), "is_empty() is {} with the entries {want:?}", m.is_empty());
    for (i, v) in model.iter().enumerate() {
        let g = m.get(i);
        ensure!(g == *v, "get of key {i} is {g:?} with the entries {want:?}");
        ensure!(m.contains(i) == v.is_some(), "contains_key of key {i} is {} with the entries {want:?}", m.contains(i));
    }
    let it = m.iter();
    let mut sorted = it.clone();
    sorted.sort_unstable();
    ensure!(sorted == want, "iter() is {it:?} with the entries {want:?}");
    ensure!(!fixed || it == want, "iter() is {it:?}, not in declaration order, with the entries {want:?}");
    ensure!(m.keys() == it.iter().map(|e| e.0).collect::<Vec<_>>(), "keys() is {:?} when iter() is {it:?}", m.keys());
    ensure!(m.values() == it.iter().map(|e| e.1).collect::<Vec<_>>(), "values() is {:?} when iter() is {it:?}", m.values());
    let mut own = m.into_iter();
    ensure!(!fixed || own == want, "into_iter() of the clone is {own:?} with the entries {want:?}");
    own.sort_unstable();
    ensure!(own == want, "into_iter() of the clone yields {own:?} with the entries {want:?}");
    let mut seen = Vec::new();
    m.iter_mut(&mut |k, v| seen.push((k, *v)));
    ensure!(seen == it, "iter_mut() is {seen:?} when iter() is {it:?}");
    let mut seen = Vec::new();
    m.values_mut(&mut |v| seen.push(*v));
    ensure!(seen.iter().eq(it.iter().map(|e| &e.1)), "values_mut() is {seen:?} when iter() is {it:?}");
    let (a, b) = m.debug();
    ensure!(a == b, "Debug gives {a} instead of {b}");
    Ok(())
}

fn map_history(m: &mut dyn M, n: usize, fixed: bool, rng: &mut Rng, steps: usize) -> Result<(), String> {
    let mut model: Vec<Option<u32>> = vec![None; n];
    let mut saved = model.clone();
    look(m, &model, fixed)?;
    // Every key in turn, in some order.
    for (c, i) in rng.shuffled(n).into_iter().enumerate() {
        let r = m.insert(i, c as u32);
        ensure!(r.is_none(), "the first insert of key {i} returns {r:?}");
        model[i] = Some(c as u32);
        if n < 24 {
            look(m, &model, fixed)?;
        }
    }
    look(m, &model, fixed)?;
    m.save();
    saved.clone_from(&model);
    for i in rng.shuffled(n) {
        let want = model[i].take();
        let r = m.remove(i);
        ensure!(r == want, "remove of key {i} returns {r:?} instead of {want:?}");
        if n < 24 {
            look(m, &model, fixed)?;
        }
    }
    look(m, &model, fixed)?;
    for step in 0..if n == 0 { 3 } else { steps } {
        let i = rng.below(n);
        let v = rng.next() as u32 % 5;
        match if n == 0 { 12 + rng.below(8) } else { rng.below(20) } {
            0..=3 => {
                let r = m.insert(i, v);
                let want = model[i].replace(v);
                ensure!(r == want, "insert of key {i} returns {r:?} instead of {want:?}");
            }
            4 | 5 => {
                let r = m.remove(i);
                let want = model[i].take();
                ensure!(r == want, "remove of key {i} returns {r:?} instead of {want:?}");
            }
            6 => match (m.get_mut(i), &mut model[i]) {
                (None, None) => {}
                (Some(a), Some(b)) => {
                    ensure!(a == b, "get_mut of key {i} is {a} instead of {b}");
                    *a = v + 7;
                    *b = v + 7;
                }
                (a, b) => return Err(format!("get_mut of key {i} is {a:?} instead of {b:?}")),
            },
            7 => {
                let r = m.entry(i);
                ensure!(r == (model[i].is_some(), i, model[i]), "the entry of key {i} is {r:?} instead of {:?}", model[i]);
            }
            8 => {
                let want = *model[i].get_or_insert(v);
                let r = m.entry_or_insert(i, v);
                ensure!(r == want, "or_insert on key {i} is {r:?} instead of {want:?}");
            }
            9 => {
                m.entry_modify(i, v);
                if let Some(x) = &mut model[i] {
                    *x ^= v;
                }
            }
            10 => {
                let r = m.entry_set(i, v);
                let want = model[i].replace(v);
                ensure!(r == want, "insert through the entry of key {i} gives {r:?} instead of {want:?}");
            }
            11 => {
                let r = m.entry_remove(i);
                let want = model[i].take();
                ensure!(r == want, "removal through the entry of key {i} gives {r:?} instead of {want:?}");
            }
            12 => {
                let mask = rng.next();
                let mut seen = Vec::new();
                m.retain(&mut |k, x| {
                    seen.push((k, *x));
                    *x += 1;
                    (mask >> (k % 64)) & 1 == 0
                });
                seen.sort_unstable();
                ensure!(seen == entries(&model), "retain visits {seen:?} instead of {:?}", entries(&model));
                for (k, x) in model.iter_mut().enumerate() {
                    if (mask >> (k % 64)) & 1 == 1 {
                        *x = None;
                    }
                    if let Some(x) = x {
                        *x += 1;
                    }
                }
            }
            13 => {
                let d = rng.next() as u32 % 100;
                m.iter_mut(&mut |k, x| *x = *x + d + k as u32);
                for (k, x) in model.iter_mut().enumerate() {
                    if let Some(x) = x {
                        *x = *x + d + k as u32;
                    }
                }
            }
            14 => {
                m.values_mut(&mut |x| *x ^= 5);
                model.iter_mut().flatten().for_each(|x| *x ^= 5);
            }
            15 => m.recollect(),
            16 if step % 4 == 0 => {
                m.clear();
                model.iter_mut().for_each(|x| *x = None);
            }
            17 => {
                m.save();
                saved.clone_from(&model);
            }
            18 => {
                m.swap_saved();
                std::mem::swap(&mut saved, &mut model);
            }
            _ => {
                let e = m.eq_saved();
                ensure!(e == (saved == model), "== is {e} for {:?} and {:?}", entries(&model), entries(&saved));
                if let Some((c, p, ha, hb)) = m.cmp_saved() {
                    let want = entries(&model).cmp(&entries(&saved));
                    ensure!(c == want, "cmp is {c:?} for {:?} and {:?}", entries(&model), entries(&saved));
                    ensure!(p == Some(want), "partial_cmp is {p:?} for {:?} and {:?}", entries(&model), entries(&saved));
                    ensure!((ha == hb) == e, "hashes {ha:x} and {hb:x} for {:?} and {:?}", entries(&model), entries(&saved));
                }
            }
        }
        if n < 24 || step % 8 == 0 {
            look(m, &model, fixed)?;
        }
    }
    look(m, &model, fixed)
}

fn elements(model: &[bool]) -> Vec<usize> {
    model.iter().enumerate().filter_map(|(i, v)| v.then_some(i)).collect()
}

fn look_set(s: &mut dyn S, model: &[bool], fixed: bool) -> Result<(), String> {
    let want = elements(model);
    ensure!(s.len() == want.len(), "len() is {} with the elements {want:?}", s.len());
    ensure!(s.is_empty() == want.is_empty(), "is_empty() is {} with the elements {want:?}", s.is_empty());
    for (i, v) in model.iter().enumerate() {
        ensure!(s.contains(i) == *v, "contains of {i} is {} with the elements {want:?}", s.contains(i));
    }
    let it = s.iter();
    let mut sorted = it.clone();
    sorted.sort_unstable();
    ensure!(sorted == want, "iter() is {it:?} with the elements {want:?}");
    ensure!(!fixed || it == want, "iter() is {it:?}, not in declaration order, with the elements {want:?}");
    let mut own = s.into_iter();
    ensure!(!fixed || own == want, "into_iter() of the clone is {own:?} with the elements {want:?}");
    own.sort_unstable();
    ensure!(own == want, "into_iter() of the clone yields {own:?} with the elements {want:?}");
    let (a, b) = s.debug();
    ensure!(a == b, "Debug gives {a} instead of {b}");
    Ok(())
}

fn set_history(s: &mut dyn S, n: usize, fixed: bool, rng: &mut Rng, steps: usize) -> Result<(), String> {
    let mut model = vec![false; n];
    let mut saved = model.clone();
    look_set(s, &model, fixed)?;
    for i in rng.shuffled(n) {
        ensure!(s.insert(i), "the first insert of {i} returns false");
        model[i] = true;
        if n < 24 {
            look_set(s, &model, fixed)?;
        }
    }
    look_set(s, &model, fixed)?;
    s.save();
    saved.clone_from(&model);
    for i in rng.shuffled(n) {
        ensure!(s.remove(i), "remove of the element {i} returns false");
        model[i] = false;
        if n < 24 {
            look_set(s, &model, fixed)?;
        }
    }
    for step in 0..if n == 0 { 3 } else { steps } {
        let i = rng.below(n);
        match if n == 0 { 6 + rng.below(8) } else { rng.below(14) } {
            0..=3 => {
                let r = s.insert(i);
                let want = !std::mem::replace(&mut model[i], true);
                ensure!(r == want, "insert of {i} returns {r}");
            }
            4 | 5 => {
                let r = s.remove(i);
                let want = std::mem::replace(&mut model[i], false);
                ensure!(r == want, "remove of {i} returns {r}");
            }
            6 => {
                let mask = rng.next();
                let mut seen = Vec::new();
                s.retain(&mut |k| {
                    seen.push(k);
                    (mask >> (k % 64)) & 1 == 0
                });
                seen.sort_unstable();
                ensure!(seen == elements(&model), "retain visits {seen:?} instead of {:?}", elements(&model));
                for (k, x) in model.iter_mut().enumerate() {
                    *x &= (mask >> (k % 64)) & 1 == 0;
                }
            }
            7 => s.recollect(),
            8 if step % 4 == 0 => {
                s.clear();
                model.iter_mut().for_each(|x| *x = false);
            }
            9 => {
                s.save();
                saved.clone_from(&model);
            }
            10 => {
                s.swap_saved();
                std::mem::swap(&mut saved, &mut model);
            }
            11 => {
                let r = s.intersect_saved();
                let want: Vec<usize> = (0..n).filter(|i| model[*i] && saved[*i]).collect();
                ensure!(r == want, "the intersection is {r:?} instead of {want:?}");
            }
            _ => {
                let e = s.eq_saved();
                ensure!(e == (saved == model), "== is {e} for {:?} and {:?}", elements(&model), elements(&saved));
                if let Some((c, p, ha, hb)) = s.cmp_saved() {
                    let want = elements(&model).cmp(&elements(&saved));
                    ensure!(c == want, "cmp is {c:?} for {:?} and {:?}", elements(&model), elements(&saved));
                    ensure!(p == Some(want), "partial_cmp is {p:?} for {:?} and {:?}", elements(&model), elements(&saved));
                    ensure!((ha == hb) == e, "hashes {ha:x} and {hb:x} for {:?} and {:?}", elements(&model), elements(&saved));
                }
            }
        }
        if n < 24 || step % 8 == 0 {
            look_set(s, &model, fixed)?;
        }
    }
    look_set(s, &model, fixed)
}

/// Check the collections over a key the values of which, in declaration order,
/// are `keys`.
pub fn check<K: Key + PartialEq + Debug>(name: &str, keys: &[K], fixed: Option<Fixed<K>>, seed: u64) -> Result<(), String>
where
    MapOf<K>: Clone + PartialEq + Debug,
    Set<K>: Clone + PartialEq + Debug,
{
    for (i, k) in keys.iter().enumerate() {
        if index(keys, k) != i {
            return Err(format!("{name}: GENERATOR the value {k:?} is listed twice"));
        }
    }
    if let Some(f) = &fixed {
        if let Some(n) = f.set_size {
            let s = std::mem::size_of::<Set<K>>();
            ensure!(s == n, "{name}: a set takes {s} bytes instead of {n}");
        }
        if f.map_size {
            let s = std::mem::size_of::<MapOf<K>>();
            let n = keys.len() * std::mem::size_of::<Option<u32>>();
            ensure!(s == n, "{name}: a map takes {s} bytes instead of {n}");
        }
    }
    let mut rng = Rng(seed);
    let steps = if keys.len() > 60 { 60 } else { 150 };
    let mut m = Mo { keys, map: Map::new(), saved: Map::new(), fixed: fixed.as_ref() };
    map_history(&mut m, keys.len(), fixed.is_some(), &mut rng, steps).map_err(|e| format!("{name}: map: {e}"))?;
    let mut s = So { keys, set: Set::new(), saved: Set::new(), fixed: fixed.as_ref() };
    set_history(&mut s, keys.len(), fixed.is_some(), &mut rng, steps).map_err(|e| format!("{name}: set: {e}"))
}

/// Run the items of a program and print what comes of each.
pub fn run(items: &[(usize, fn() -> Result<(), String>)]) {
    std::panic::set_hook(Box::new(|_| {}));
    for (n, f) in items {
        println!("start {n}");
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(Ok(())) => println!("ok {n}"),
            Ok(Err(e)) => println!("fail {n} {}", e.replace('\n', " ")),
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                println!("fail {n} panic: {}", m.replace('\n', " "));
            }
        }
    }
}

/// Another name.
pub type Opt<T> = Option<T>;

pub trait HasTy {
    type T;
}
