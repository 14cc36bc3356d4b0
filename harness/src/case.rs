//! Type independent cases: a choice of keys to work with and a list of raw
//! operations, which every check interprets in its own vocabulary.
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Op {
    /// Selects the operation.
    pub k: u8,
    /// Selects the key.
    pub key: u16,
    /// Argument.
    pub a: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize, Hash, PartialEq, Eq)]
pub struct Case {
    /// Selects the keys operations choose from.
    pub focus: Vec<u16>,
    /// A case wide argument.
    pub x: u32,
    pub ops: Vec<Op>,
}

pub const OTHER: u16 = 0x8000;

impl Case {
    /// Map a raw number onto a key index.
    pub fn abs(raw: u16, len: usize) -> Option<u32> {
        if len == 0 {
            return None;
        }
        Some(((raw as usize * len) >> 16) as u32)
    }

    /// The key of an operation.
    pub fn pick(&self, key: u16, len: usize) -> Option<u32> {
        let k = (key & 0x7fff) as usize;
        if self.focus.is_empty() {
            return Self::abs((k * 2) as u16, len);
        }
        Self::abs(self.focus[k % self.focus.len()], len)
    }

    /// The indexes of all keys in focus.
    pub fn focused(&self, len: usize) -> Vec<u32> {
        let mut v: Vec<u32> = self.focus.iter().filter_map(|f| Self::abs(*f, len)).collect();
        v.sort_unstable();
        v.dedup();
        v
    }
}

/// A table of weighted operations. The first one is what operations shrink to.
pub struct Table<T: Copy + 'static>(pub &'static [(T, u8)]);

impl<T: Copy> Table<T> {
    pub fn get(&self, k: u8) -> T {
        let total: u32 = self.0.iter().map(|o| u32::from(o.1)).sum();
        let mut x = (u32::from(k) * total) >> 8;
        for (t, w) in self.0 {
            if x < u32::from(*w) {
                return *t;
            }
            x -= u32::from(*w);
        }
        self.0[0].0
    }
}

pub fn strategy(max_focus: usize, max_ops: usize) -> BoxedStrategy<Case> {
    let arg = prop_oneof![6 => 0u32..10, 1 => any::<u32>()];
    let key = prop_oneof![4 => 0u16..0x7fff, 1 => any::<u16>()];
    let op = (any::<u8>(), key, arg).prop_map(|(k, key, a)| Op { k, key, a });
    let focus = prop_oneof![
        3 => proptest::collection::vec(any::<u16>(), 1..=4.min(max_focus)),
        3 => proptest::collection::vec(any::<u16>(), 1..=max_focus),
        1 => Just(vec![]),
    ];
    let ops = prop_oneof![
        1 => proptest::collection::vec(op.clone(), 0..=6.min(max_ops)),
        3 => proptest::collection::vec(op, 0..=max_ops),
    ];
    (focus, any::<u32>(), ops)
        .prop_map(|(focus, x, ops)| Case { focus, x, ops })
        .boxed()
}
