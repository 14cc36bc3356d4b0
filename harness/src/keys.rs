//! The key types the checks explore, and what is known about them: their
//! values in declaration order.
use std::collections::HashMap;
use std::hash::Hash;

use fixed_map::Key;

/// Enumeration of key values in declaration order. The path identifies a value
/// up to its dynamic parts: it lists the variant ordinals from the outside in.
pub trait Pool: Sized {
    const DYNAMIC: bool;
    fn pool(cap: usize, flavour: u32) -> Vec<(Self, Vec<u16>)>;
}

pub fn sub<T, U>(out: &mut Vec<(U, Vec<u16>)>, i: u16, pool: Vec<(T, Vec<u16>)>, f: impl Fn(T) -> U) {
    for (k, p) in pool {
        let mut path = Vec::with_capacity(p.len() + 1);
        path.push(i);
        path.extend(p);
        out.push((f(k), path));
    }
}

impl Pool for bool {
    const DYNAMIC: bool = false;
    fn pool(_: usize, _: u32) -> Vec<(Self, Vec<u16>)> {
        vec![(true, vec![0]), (false, vec![1])]
    }
}

impl Pool for () {
    const DYNAMIC: bool = false;
    fn pool(_: usize, _: u32) -> Vec<(Self, Vec<u16>)> {
        vec![((), vec![])]
    }
}

impl<T: Pool> Pool for Option<T> {
    const DYNAMIC: bool = T::DYNAMIC;
    fn pool(cap: usize, flavour: u32) -> Vec<(Self, Vec<u16>)> {
        let mut out = Vec::new();
        sub(&mut out, 0, T::pool(cap, flavour), Some);
        out.push((None, vec![1]));
        out
    }
}

fn bits(i: u64) -> u128 {
    let mut r = crate::gen::Rng(i);
    (u128::from(r.next()) << 64) | u128::from(r.next())
}

macro_rules! int_pool {
    ($($t:ty),*) => {$(
        impl Pool for $t {
            const DYNAMIC: bool = true;
            fn pool(cap: usize, _: u32) -> Vec<(Self, Vec<u16>)> {
                let mut seen = std::collections::HashSet::new();
                let mut out = Vec::new();
                let mut push = |v: $t| if seen.insert(v) { out.push((v, vec![])) };
                let mut edge: Vec<$t> = vec![0, 1, <$t>::MAX, <$t>::MIN, 2, <$t>::MAX - 1, <$t>::MAX / 2, <$t>::MIN + 1, (0 as $t).wrapping_sub(1), 3, <$t>::MAX / 2 + 1, 16, 17];
                // One bit and truncation neighbours.
                for b in 0..<$t>::BITS {
                    if b % 8 == 0 || b % 8 == 7 || b < 6 {
                        edge.push((1 as $t) << b);
                        edge.push(((1 as $t) << b).wrapping_add(1));
                        edge.push(!((1 as $t) << b));
                    }
                }
                if cap > 20 {
                    for v in edge { push(v); }
                    for i in 0..cap as u64 { push(bits(i) as $t); push(i as $t); }
                } else {
                    for v in edge.iter().take(12) { push(*v); }
                    for v in edge.iter().skip(12).step_by(3).take(8) { push(*v); }
                }
                out.truncate(cap);
                out
            }
        }
    )*};
}

int_pool!(u8, u32, u64, u128, usize, i8, i32, i64, i128, isize);

impl Pool for char {
    const DYNAMIC: bool = true;
    fn pool(cap: usize, _: u32) -> Vec<(Self, Vec<u16>)> {
        let mut seen = std::collections::HashSet::new();
        let mut out: Vec<char> = vec!['a', 'b', 'A', '\0', '\u{10ffff}', '\u{d7ff}', '\u{e000}', '\u{7f}', '\u{80}', '\u{e9}', '\u{10000}', '\u{ff}', '\u{100}', '0', '\n'];
        for i in 0..cap as u64 * 2 {
            if let Some(c) = char::from_u32((bits(i) as u32) % 0x11_0000) {
                out.push(c);
            }
        }
        out.retain(|c| seen.insert(*c));
        out.truncate(cap);
        out.into_iter().map(|c| (c, vec![])).collect()
    }
}

fn strings(cap: usize) -> Vec<String> {
    let mut seen = std::collections::HashSet::new();
    let mut out: Vec<String> = ["", "a", "b", "ab", "ba", "A", "aa", "\0", "a\0", "\u{e9}", "e\u{301}", " ", "a ", "\u{10ffff}", "0", "00", "None", "null"].iter().map(|s| s.to_string()).collect();
    out.push("x".repeat(15));
    out.push("x".repeat(16));
    out.push("x".repeat(17));
    out.push("x".repeat(300));
    for i in 0..cap as u64 {
        out.push(format!("{:x}", bits(i) as u32 % 65536));
        out.push(format!("k{i}"));
    }
    out.retain(|c| seen.insert(c.clone()));
    out.truncate(cap);
    out
}

impl Pool for &'static str {
    const DYNAMIC: bool = true;
    fn pool(cap: usize, _: u32) -> Vec<(Self, Vec<u16>)> {
        // Freshly leaked on every call: equal content at different addresses.
        strings(cap).into_iter().map(|s| (&*s.leak(), vec![])).collect()
    }
}

impl Pool for &'static [u8] {
    const DYNAMIC: bool = true;
    fn pool(cap: usize, _: u32) -> Vec<(Self, Vec<u16>)> {
        let mut v: Vec<Vec<u8>> = strings(cap).into_iter().map(String::into_bytes).collect();
        v.insert(1, vec![0xff]);
        v.insert(3, vec![0, 0]);
        v.insert(5, vec![0xff, 0xfe, 0]);
        v.truncate(cap);
        v.into_iter().map(|s| (&*s.leak(), vec![])).collect()
    }
}

/// Size and alignment of a type.
pub fn size<T>() -> (usize, usize) {
    (std::mem::size_of::<T>(), std::mem::align_of::<T>())
}

/// Of which parts the storages of an enum should consist.
pub trait Foot {
    const UNIT: bool;
    const BITSET: bool;
    /// Sizes and alignments of the storages of the variants for maps and sets.
    fn parts<V>() -> (Vec<(usize, usize)>, Vec<(usize, usize)>);
}

/// Everything the checks know about a key type.
pub struct Meta<K> {
    pub name: &'static str,
    /// Key values, in declaration order.
    pub pool: Vec<K>,
    /// The same values, built separately.
    pub alias: Vec<K>,
    /// Position of the value up to its dynamic parts, nondecreasing.
    pub group: Vec<u32>,
    pub dynamic: bool,
    index: HashMap<K, u32>,
}

pub trait TKey: Key + Pool + Eq + Hash + std::fmt::Debug + Send + Sync + 'static {
    fn meta() -> &'static Meta<Self>;
    /// The index of this value, u32::MAX if it is not one of the pool.
    #[inline]
    fn idx(self) -> u32 {
        Self::meta().index.get(&self).copied().unwrap_or(u32::MAX)
    }
    /// The value with the given index.
    #[inline]
    fn key(i: u32) -> Self {
        Self::meta().pool[i as usize]
    }
    #[inline]
    fn key2(i: u32) -> Self {
        Self::meta().alias[i as usize]
    }
}

pub fn build_meta<K: TKey>(name: &'static str) -> Meta<K> {
    let cap = 500;
    let pool = K::pool(cap, 0);
    let alias = K::pool(cap, 1);
    assert_eq!(pool.len(), alias.len());
    let mut group = Vec::new();
    let mut cur = 0;
    for (i, (_, p)) in pool.iter().enumerate() {
        if i > 0 && *p != pool[i - 1].1 {
            assert!(*p > pool[i - 1].1, "pool of {name} is not in declaration order");
            cur += 1;
        }
        group.push(cur);
    }
    let index: HashMap<K, u32> = pool.iter().enumerate().map(|(i, (k, _))| (*k, i as u32)).collect();
    assert_eq!(index.len(), pool.len());
    Meta {
        name,
        dynamic: K::DYNAMIC,
        pool: pool.into_iter().map(|p| p.0).collect(),
        alias: alias.into_iter().map(|p| p.0).collect(),
        group,
        index,
    }
}

#[macro_export]
macro_rules! impl_meta {
    ($t:ty, $n:expr) => {
        impl $crate::keys::TKey for $t {
            fn meta() -> &'static $crate::keys::Meta<Self> {
                static META: std::sync::OnceLock<$crate::keys::Meta<$t>> = std::sync::OnceLock::new();
                META.get_or_init(|| $crate::keys::build_meta::<$t>($n))
            }
        }
    };
}

#[macro_export]
macro_rules! serde_by_index {
    ($t:ident) => {
        impl serde::Serialize for $t {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.serialize_u32($crate::keys::TKey::idx(*self))
            }
        }
        impl<'de> serde::Deserialize<'de> for $t {
            fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                let i = <u32 as serde::Deserialize>::deserialize(d)?;
                <$t as $crate::keys::TKey>::meta().pool.get(i as usize).copied().ok_or_else(|| serde::de::Error::custom("no such key"))
            }
        }
    };
}

include!(concat!(env!("OUT_DIR"), "/keys.rs"));

#[macro_export]
macro_rules! include_twins {
    () => {
        #[allow(dead_code)]
        pub mod twins {
            use fmcheck::keys::*;
            use fmcheck::{impl_meta, serde_by_index};
            include!(concat!(env!("OUT_DIR"), "/twins.rs"));
        }
    };
}
