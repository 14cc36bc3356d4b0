//! C14: the bitset attribute is observationally transparent and compact.
#![allow(unreachable_code, unused_variables)]
use std::cmp::Ordering;
use std::collections::BTreeSet;
use std::fmt::Debug;

use fixed_map::{Key, Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::ensure;
use fmcheck::ents::{self, Log, Plan};
use fmcheck::gen::Rng;
use fmcheck::keys::TKey;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;

fmcheck::include_twins!();
use twins::*;

/// One of the twins: three sets and a map.
struct Side<K: TKey> {
    s: [Set<K>; 3],
    m: Map<K, Val>,
}

trait Tw {
    fn insert(&mut self, i: usize, k: KI) -> bool;
    fn remove(&mut self, i: usize, k: KI) -> bool;
    fn contains(&self, i: usize, k: KI) -> bool;
    fn clear(&mut self, i: usize);
    fn sizes(&self, i: usize) -> (usize, bool);
    fn retain(&mut self, i: usize, f: &mut dyn FnMut(u32) -> bool);
    /// Consume with next and next_back by the bits.
    fn iter(&self, i: usize, bits: u64) -> Vec<u32>;
    fn into_iter(&self, i: usize, bits: u64) -> Vec<u32>;
    fn compare(&self, i: usize, j: usize) -> (bool, bool, Ordering, Option<Ordering>, [bool; 4], Vec<u32>, Vec<u32>);
    fn debug(&self, i: usize) -> [String; 3];
    fn intersection(&self, i: usize, j: usize, skip: usize) -> (Vec<u32>, Vec<u32>, (bool, bool));
    fn json(&self, i: usize) -> String;
    fn bytes(&self, i: usize) -> Vec<u8>;
    fn read(&mut self, i: usize, json: &str) -> bool;
    fn collect(&mut self, i: usize, keys: &[KI]);
    fn dup(&mut self, i: usize, j: usize);
    fn fresh(&mut self, i: usize);
    fn map_entry(&mut self, k: KI, plan: Plan, log: &mut Log);
    fn map_insert(&mut self, k: KI, p: u32) -> Option<u32>;
    fn map_remove(&mut self, k: KI) -> Option<u32>;
    fn map_show(&self) -> (Vec<(u32, u32)>, String, usize);
    fn sizes_of(&self) -> (usize, usize, [usize; 2]);
}

fn both_ends<I: DoubleEndedIterator>(mut it: I, mut bits: u64) -> Vec<I::Item> {
    let mut out = vec![];
    loop {
        bits = bits.rotate_left(1);
        match if bits & 1 == 0 { it.next() } else { it.next_back() } {
            Some(x) => out.push(x),
            None => return out,
        }
    }
}

macro_rules! side {
    ($n:literal $id:ident $a:ident $b:ident) => {
        side!(@ $a);
        side!(@ $b);
    };
    (@ $k:ident) => {
        impl Tw for Side<$k> {
            fn insert(&mut self, i: usize, k: KI) -> bool {
                self.s[i].insert(k.get())
            }
            fn remove(&mut self, i: usize, k: KI) -> bool {
                self.s[i].remove(k.get())
            }
            fn contains(&self, i: usize, k: KI) -> bool {
                self.s[i].contains(k.get())
            }
            fn clear(&mut self, i: usize) {
                self.s[i].clear()
            }
            fn sizes(&self, i: usize) -> (usize, bool) {
                (self.s[i].len(), self.s[i].is_empty())
            }
            fn retain(&mut self, i: usize, f: &mut dyn FnMut(u32) -> bool) {
                self.s[i].retain(|k| f(k.idx()))
            }
            fn iter(&self, i: usize, bits: u64) -> Vec<u32> {
                both_ends(self.s[i].iter().map(|k| k.idx()), bits)
            }
            fn into_iter(&self, i: usize, bits: u64) -> Vec<u32> {
                both_ends(self.s[i].into_iter().map(|k| k.idx()), bits)
            }
            fn compare(&self, i: usize, j: usize) -> (bool, bool, Ordering, Option<Ordering>, [bool; 4], Vec<u32>, Vec<u32>) {
                let (a, b) = (self.s[i], self.s[j]);
                let list = |s: Set<$k>| s.iter().map(|k| k.idx()).collect();
                (a == b, a != b, a.cmp(&b), a.partial_cmp(&b), [a < b, a <= b, a > b, a >= b], list(a.min(b)), list(a.max(b)))
            }
            fn debug(&self, i: usize) -> [String; 3] {
                fn go(d: &dyn Debug) -> [String; 3] {
                    [format!("{d:?}"), format!("{d:#?}"), format!("{d:12?}")]
                }
                go(&self.s[i])
            }
            fn intersection(&self, i: usize, j: usize, skip: usize) -> (Vec<u32>, Vec<u32>, (bool, bool)) {
                let mut it = self.s[i].intersection(&self.s[j]);
                for _ in 0..skip {
                    it.next();
                }
                let (lo, hi) = it.size_hint();
                let rest: Vec<u32> = it.clone().map(|k| k.idx()).collect();
                let mut folded = vec![];
                it.for_each(|k| folded.push(k.idx()));
                let n = rest.len();
                (rest, folded, (lo <= n, hi.map_or(true, |h| h >= n)))
            }
            fn json(&self, i: usize) -> String {
                serde_json::to_string(&self.s[i]).unwrap()
            }
            fn bytes(&self, i: usize) -> Vec<u8> {
                bincode::serialize(&self.s[i]).unwrap()
            }
            fn read(&mut self, i: usize, json: &str) -> bool {
                match serde_json::from_str(json) {
                    Ok(s) => {
                        self.s[i] = s;
                        true
                    }
                    Err(_) => false,
                }
            }
            fn collect(&mut self, i: usize, keys: &[KI]) {
                self.s[i] = match *keys {
                    [] => Set::from([]),
                    [a] => Set::from([a.get::<$k>()]),
                    [a, b, c] => Set::from([a.get::<$k>(), b.get(), c.get()]),
                    _ => keys.iter().map(|k| k.get::<$k>()).collect(),
                };
            }
            fn dup(&mut self, i: usize, j: usize) {
                self.s[i] = self.s[j].clone();
            }
            fn fresh(&mut self, i: usize) {
                self.s[i] = Default::default();
            }
            fn map_entry(&mut self, k: KI, plan: Plan, log: &mut Log) {
                ents::drive(&mut self.m, k, plan, log)
            }
            fn map_insert(&mut self, k: KI, p: u32) -> Option<u32> {
                self.m.insert(k.get(), Val::new(p)).map(|v| v.p)
            }
            fn map_remove(&mut self, k: KI) -> Option<u32> {
                self.m.remove(k.get()).map(|v| v.p)
            }
            fn map_show(&self) -> (Vec<(u32, u32)>, String, usize) {
                (self.m.iter().map(|(k, v)| (k.idx(), v.p)).collect(), format!("{:?}", self.m), self.m.len())
            }
            fn sizes_of(&self) -> (usize, usize, [usize; 2]) {
                (std::mem::size_of::<Set<$k>>(), std::mem::align_of::<Set<$k>>(), [std::mem::size_of::<Map<$k, u8>>(), std::mem::size_of::<Map<$k, Box<u8>>>()])
            }
        }
    };
}
for_each_twin!(side);

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Fill,
    Clear,
    Retain,
    Iter,
    Compare,
    Debug,
    Intersection,
    Serde,
    Collect,
    Dup,
    Fresh,
    MapInsert,
    MapRemove,
    MapEntry,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 70),
    (Do::Remove, 30),
    (Do::Fill, 14),
    (Do::Clear, 3),
    (Do::Retain, 16),
    (Do::Iter, 16),
    (Do::Compare, 26),
    (Do::Debug, 8),
    (Do::Intersection, 16),
    (Do::Serde, 8),
    (Do::Collect, 12),
    (Do::Dup, 10),
    (Do::Fresh, 3),
    (Do::MapInsert, 10),
    (Do::MapRemove, 4),
    (Do::MapEntry, 10),
]);

fn run(n: usize, new: fn() -> [Box<dyn Tw>; 2], info: Info, case: &Case, obs: &mut Obs) -> Res {
    let [mut r, mut b] = new();
    let (size, align, map) = b.sizes_of();
    let want = match n {
        0..=8 => (1, std::mem::align_of::<u8>()),
        9..=16 => (2, std::mem::align_of::<u16>()),
        17..=32 => (4, std::mem::align_of::<u32>()),
        33..=64 => (8, std::mem::align_of::<u64>()),
        _ => (16, std::mem::align_of::<u128>()),
    };
    ensure!((size, align) == want, "the bitset of {n} variants has size {size} and alignment {align}, expected {want:?}");
    ensure!(map == r.sizes_of().2, "the sizes of maps are {map:?}, without the attribute {:?}", r.sizes_of().2);
    let mut model: [BTreeSet<u32>; 3] = Default::default();
    let mut nontrivial = false;
    macro_rules! same {
        ($step:expr, $what:expr, $e:ident => $x:expr) => {{
            let x = { let $e = &mut r; $x };
            let y = { let $e = &mut b; $x };
            ensure!(x == y, "step {}: {}: {:?} with the attribute, {:?} without", $step, $what, y, x);
            y
        }};
    }
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
        let i = (op.a % 3) as usize;
        let j = (op.a / 3 % 3) as usize;
        let bits = Rng(u64::from(op.a) << 16 | u64::from(op.key)).next();
        obs.log(|| format!("{d:?} #{i} {}", name()));
        match (d, key) {
            (Do::Insert, Some(k)) => {
                let x = same!(step, "insert", s => s.insert(i, k));
                let want = model[i].insert(k.0);
                ensure!(x == want, "step {step}: insert({}) is {x}", name());
            }
            (Do::Remove, Some(k)) => {
                let x = same!(step, "remove", s => s.remove(i, k));
                let want = model[i].remove(&k.0);
                ensure!(x == want, "step {step}: remove({}) is {x}", name());
            }
            (Do::Fill, _) => {
                let stride = (op.key % 5 + 1) as usize;
                for k in (op.a as usize % stride..info.len).step_by(stride) {
                    same!(step, "insert", s => s.insert(i, KI(k as u32, false)));
                    model[i].insert(k as u32);
                }
            }
            (Do::Clear, _) => {
                same!(step, "clear", s => s.clear(i));
                model[i].clear();
            }
            (Do::Retain, _) => {
                let keep = |k: u32| Rng(bits ^ u64::from(k)).next() % 3 != 0;
                same!(step, "retain", s => {
                    let mut calls = vec![];
                    s.retain(i, &mut |k| {
                        calls.push(k);
                        keep(k)
                    });
                    calls.sort_unstable();
                    calls
                });
                model[i].retain(|k| keep(*k));
            }
            (Do::Iter, _) => {
                same!(step, "iter", s => s.iter(i, bits));
                same!(step, "into_iter", s => s.into_iter(i, bits));
            }
            (Do::Compare, _) => {
                let x = same!(step, "comparison", s => s.compare(i, j));
                let want = model[i].cmp(&model[j]);
                ensure!(x.2 == want, "step {step}: cmp is {:?}, expected {want:?}", x.2);
                nontrivial |= i != j && !model[i].is_empty() && !model[j].is_empty();
            }
            (Do::Debug, _) => {
                same!(step, "Debug", s => s.debug(i));
            }
            (Do::Intersection, _) => {
                let x = same!(step, "intersection", s => s.intersection(i, j, op.key as usize % 3));
                ensure!(x.2 == (true, true), "step {step}: the size_hint of the intersection does not bound its {} elements", x.0.len());
            }
            (Do::Serde, _) => {
                let json = same!(step, "serialization", s => s.json(i));
                same!(step, "binary serialization", s => s.bytes(i));
                same!(step, "deserialization", s => s.read(j, &json));
                same!(step, "deserialization of garbage", s => s.read(j, &json[..json.len() - 1]));
                model[j] = model[i].clone();
            }
            (Do::Collect, _) => {
                let keys: Vec<KI> = (0..op.key % 7).filter_map(|x| case.pick(x * 97 ^ op.key, info.len)).map(|k| KI(k, false)).collect();
                same!(step, "collect", s => s.collect(i, &keys));
                model[i] = keys.iter().map(|k| k.0).collect();
            }
            (Do::Dup, _) => {
                same!(step, "clone", s => s.dup(i, j));
                model[i] = model[j].clone();
            }
            (Do::Fresh, _) => {
                same!(step, "default", s => s.fresh(i));
                model[i].clear();
            }
            (Do::MapInsert, Some(k)) => {
                same!(step, "Map::insert", s => s.map_insert(k, step as u32));
            }
            (Do::MapRemove, Some(k)) => {
                same!(step, "Map::remove", s => s.map_remove(k));
            }
            (Do::MapEntry, Some(k)) => {
                same!(step, "Map::entry", s => {
                    let mut log = Log::default();
                    s.map_entry(k, Plan { bits, base: step as u32 * 100 }, &mut log);
                    log.ev
                });
            }
            _ => {}
        }
        for i in 0..3 {
            let x = same!(step, "len and is_empty", s => s.sizes(i));
            ensure!(x == (model[i].len(), model[i].is_empty()), "step {step}: len and is_empty are {x:?}, expected {}", model[i].len());
        }
        if step % 4 == 3 || step + 1 == case.ops.len() {
            for i in 0..3 {
                let x = same!(step, "contains", s => (0..info.len as u32).filter(|k| s.contains(i, KI(*k, false))).collect::<Vec<_>>());
                let y = same!(step, "iter", s => s.iter(i, 0));
                ensure!(x.iter().eq(&model[i]) && x == y, "step {step}: the set contains {x:?} and iterates over {y:?}, expected {:?}", model[i]);
            }
            same!(step, "map", s => s.map_show());
        }
    }
    obs.nontrivial = nontrivial || (info.len == 0 && case.ops.len() > 3);
    Ok(())
}

fn side<K: TKey + Key>() -> Side<K> {
    Side { s: [Set::new(), Set::new(), Set::new()], m: Map::new() }
}

fn main() {
    let mut c = Check::new("C14", "proptest-generated histories run in lockstep over three sets and a map keyed by the same enum with and without the bitset attribute (22 and more numbers of variants from 0 to 128, also with explicit discriminants), comparing all results, iteration from both ends, comparisons, Debug, intersections and serializations with each other and with a BTreeSet, and the size with that of the smallest integer; non-trivial: two different non-empty sets were compared");
    macro_rules! add {
        ($n:literal $id:ident $a:ident $b:ident) => {
            c.add(format!("{}/{}", stringify!($a), stringify!($b)), |case, obs| {
                // The variants of the twins have the same names.
                run($n, || [Box::new(side::<$a>()), Box::new(side::<$b>())], info::<$b>(), case, obs)
            });
        };
    }
    for_each_twin!(add);
    c.quick = 6000;
    c.thorough = 400_000;
    c.max_focus = 20;
    c.max_ops = 50;
    c.assumptions.push("The 22 numbers of variants include both sides of every boundary between integer sizes; three of them and all histories depend on VERIF_SEED.");
    fmcheck::run::main(c)
}
