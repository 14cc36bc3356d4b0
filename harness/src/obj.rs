//! Maps and sets behind key indexes, so that the checks are written (and
//! compiled) once and only thin shims are instantiated per key type.
use fixed_map::{Map, Set};

use crate::keys::TKey;
use crate::val::Val;

/// A key: its index and whether to use the separately built copy of it.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct KI(pub u32, pub bool);

impl KI {
    #[inline]
    pub fn get<K: TKey>(self) -> K {
        if self.1 {
            K::key2(self.0)
        } else {
            K::key(self.0)
        }
    }
}

pub struct M<K: TKey>(pub Map<K, Val>);
pub struct S<K: TKey>(pub Set<K>);

/// What is known about a key type, erased.
#[derive(Clone, Copy)]
pub struct Info {
    pub name: &'static str,
    pub len: usize,
    pub group: &'static [u32],
    pub dynamic: bool,
    pub show: fn(u32) -> String,
}

pub fn info<K: TKey>() -> Info {
    let m = K::meta();
    Info {
        name: m.name,
        len: m.pool.len(),
        group: &m.group,
        dynamic: m.dynamic,
        show: |i| K::meta().pool.get(i as usize).map_or_else(|| "?".to_string(), |k| short(format!("{k:?}"))),
    }
}

fn short(s: String) -> String {
    if s.chars().count() > 40 {
        s.chars().take(36).collect::<String>() + "..."
    } else {
        s
    }
}

pub trait BasicMap {
    fn insert(&mut self, k: KI, v: Val) -> Option<Val>;
    fn remove(&mut self, k: KI) -> Option<Val>;
    fn get(&self, k: KI) -> Option<&Val>;
    fn get_mut(&mut self, k: KI) -> Option<&mut Val>;
    fn contains(&self, k: KI) -> bool;
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}

/// Implemented by wrappers of maps, which get BasicMap in return.
pub trait HasMap {
    type K: TKey;
    fn map(&self) -> &Map<Self::K, Val>;
    fn map_mut(&mut self) -> &mut Map<Self::K, Val>;
}

#[macro_export]
macro_rules! has_map {
    ($w:ident) => {
        impl<K: $crate::keys::TKey> $crate::obj::HasMap for $w<K> {
            type K = K;
            fn map(&self) -> &fixed_map::Map<K, $crate::val::Val> {
                &self.0
            }
            fn map_mut(&mut self) -> &mut fixed_map::Map<K, $crate::val::Val> {
                &mut self.0
            }
        }
    };
}
has_map!(M);

impl<T: HasMap> BasicMap for T {
    fn insert(&mut self, k: KI, v: Val) -> Option<Val> {
        self.map_mut().insert(k.get(), v)
    }
    fn remove(&mut self, k: KI) -> Option<Val> {
        self.map_mut().remove(k.get())
    }
    fn get(&self, k: KI) -> Option<&Val> {
        self.map().get(k.get())
    }
    fn get_mut(&mut self, k: KI) -> Option<&mut Val> {
        self.map_mut().get_mut(k.get())
    }
    fn contains(&self, k: KI) -> bool {
        self.map().contains_key(k.get())
    }
    fn clear(&mut self) {
        self.map_mut().clear()
    }
    fn len(&self) -> usize {
        self.map().len()
    }
    fn is_empty(&self) -> bool {
        self.map().is_empty()
    }
}

pub trait BasicSet {
    fn insert(&mut self, k: KI) -> bool;
    fn remove(&mut self, k: KI) -> bool;
    fn contains(&self, k: KI) -> bool;
    fn clear(&mut self);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
}

impl<K: TKey> BasicSet for S<K> {
    fn insert(&mut self, k: KI) -> bool {
        self.0.insert(k.get())
    }
    fn remove(&mut self, k: KI) -> bool {
        self.0.remove(k.get())
    }
    fn contains(&self, k: KI) -> bool {
        self.0.contains(k.get())
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn len(&self) -> usize {
        self.0.len()
    }
    fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
}

/// Compare a map with its model key by key: (key index, payload).
pub fn same_map<M: BasicMap + ?Sized>(m: &M, model: &std::collections::BTreeMap<u32, u32>, info: &Info) -> Result<(), String> {
    for i in 0..info.len as u32 {
        let k = KI(i, i % 3 == 1);
        let want = model.get(&i).copied();
        let got = m.get(k).map(|v| {
            v.check();
            v.p
        });
        if got != want {
            return Err(format!("get({}) is {got:?}, expected {want:?}", (info.show)(i)));
        }
        let c = m.contains(k);
        if c != want.is_some() {
            return Err(format!("contains_key({}) is {c}, but get is {got:?}", (info.show)(i)));
        }
    }
    sizes(m.len(), m.is_empty(), model.len())
}

pub fn same_set<M: BasicSet + ?Sized>(m: &M, model: &std::collections::BTreeSet<u32>, info: &Info) -> Result<(), String> {
    for i in 0..info.len as u32 {
        let k = KI(i, i % 3 == 1);
        let (c, want) = (m.contains(k), model.contains(&i));
        if c != want {
            return Err(format!("contains({}) is {c}, expected {want}", (info.show)(i)));
        }
    }
    sizes(m.len(), m.is_empty(), model.len())
}

pub fn sizes(len: usize, empty: bool, want: usize) -> Result<(), String> {
    if len != want {
        return Err(format!("len is {len}, expected {want}"));
    }
    if empty != (want == 0) {
        return Err(format!("is_empty is {empty} with {want} entries"));
    }
    Ok(())
}

/// Check that a sequence of key indexes has no duplicates, that it is exactly
/// the expected set and that it follows declaration order.
pub fn sequence(what: &str, seq: &[u32], want: &mut dyn Iterator<Item = u32>, info: &Info) -> Result<(), String> {
    let want: Vec<u32> = want.collect();
    let mut sorted = seq.to_vec();
    sorted.sort_unstable();
    let show = |v: &[u32]| v.iter().take(20).map(|i| (info.show)(*i)).collect::<Vec<_>>().join(", ");
    if sorted != want {
        return Err(format!("{what} yields [{}], expected [{}]", show(seq), show(&want)));
    }
    ordered(what, seq, info)
}

pub fn ordered(what: &str, seq: &[u32], info: &Info) -> Result<(), String> {
    for w in seq.windows(2) {
        if info.group[w[0] as usize] > info.group[w[1] as usize] {
            return Err(format!("{what} yields {} before {}, against declaration order", (info.show)(w[0]), (info.show)(w[1])));
        }
    }
    Ok(())
}
