//! C15: raw bitset access round-trips.
#![allow(unreachable_code, unused_variables)]
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::Set;
use fmcheck::case::{Case, Table};
use fmcheck::ensure;
use fmcheck::gen::Rng;
use fmcheck::keys::TKey;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};

fmcheck::include_twins!();
use twins::*;

trait Raw {
    fn insert(&mut self, k: u32) -> bool;
    fn remove(&mut self, k: u32) -> bool;
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn raw(&self) -> u128;
    fn set_raw(&mut self, raw: u128);
    fn bits(&self) -> u32;
    fn list(&self) -> Vec<u32>;
    fn list_back(&self) -> Vec<u32>;
    fn contains(&self, k: u32) -> bool;
    fn sizes(&self) -> (usize, bool);
    /// Equal to, and ordered like, the set with these elements.
    fn equals(&self, keys: &[u32]) -> (bool, bool, std::cmp::Ordering, bool);
    fn debug(&self) -> String;
}

macro_rules! raw {
    ($n:literal $id:ident $a:ident $b:ident) => {
        impl Raw for S<$b> {
            fn insert(&mut self, k: u32) -> bool {
                self.0.insert(TKey::key(k))
            }
            fn remove(&mut self, k: u32) -> bool {
                self.0.remove(TKey::key(k))
            }
            fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool) {
                self.0.retain(|k| f(k.idx()))
            }
            #[allow(clippy::unnecessary_cast)]
            fn raw(&self) -> u128 {
                self.0.as_raw() as u128
            }
            fn set_raw(&mut self, raw: u128) {
                // The type of the integer is not named here.
                fn cast<T: TryFrom<u128>>(x: u128, bits: u32) -> T {
                    let x = if bits >= 128 { x } else { x & ((1u128 << bits) - 1) };
                    T::try_from(x).ok().unwrap()
                }
                self.0 = Set::from_raw(cast(raw, self.bits()));
            }
            fn bits(&self) -> u32 {
                std::mem::size_of_val(&self.0.as_raw()) as u32 * 8
            }
            fn list(&self) -> Vec<u32> {
                self.0.iter().map(|k| k.idx()).collect()
            }
            fn list_back(&self) -> Vec<u32> {
                self.0.into_iter().rev().map(|k| k.idx()).collect()
            }
            fn contains(&self, k: u32) -> bool {
                self.0.contains(TKey::key(k))
            }
            fn sizes(&self) -> (usize, bool) {
                (self.0.len(), self.0.is_empty())
            }
            fn equals(&self, keys: &[u32]) -> (bool, bool, std::cmp::Ordering, bool) {
                use std::hash::{BuildHasher, BuildHasherDefault};
                let o: Set<$b> = keys.iter().map(|k| <$b as TKey>::key(*k)).collect();
                let h = BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
                (self.0 == o, o == self.0, self.0.cmp(&o), h.hash_one(self.0) == h.hash_one(o))
            }
            fn debug(&self) -> String {
                format!("{:?}", self.0)
            }
        }
    };
}
for_each_twin!(raw);

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Fill,
    Retain,
    Round,
    FromRaw,
}

const OPS: Table<Do> = Table(&[(Do::FromRaw, 90), (Do::Insert, 70), (Do::Remove, 40), (Do::Round, 26), (Do::Fill, 20), (Do::Retain, 10)]);

fn run(n: usize, new: fn() -> Box<dyn Raw>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut s = new();
    let mut model = BTreeSet::new();
    let image = |m: &BTreeSet<u32>| m.iter().fold(0u128, |a, k| a | 1 << k);
    let valid = if n == 128 { u128::MAX } else { (1u128 << n) - 1 };
    // All the raw values seen so far, to notice different sets with the same.
    let mut seen: BTreeMap<u128, BTreeSet<u32>> = BTreeMap::new();
    let mut stray = false;
    let mut modified_after = false;
    for (step, op) in case.ops.iter().enumerate() {
        let mut rng = Rng(u64::from(op.a) << 16 | u64::from(op.key));
        let key = case.pick(op.key, info.len);
        let name = || key.map_or("-".to_string(), |k| (info.show)(k));
        match (OPS.get(op.k), key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({})", name()));
                let (got, want) = (s.insert(k), model.insert(k));
                modified_after |= stray;
                ensure!(got == want, "step {step}: insert({}) is {got}", name());
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", name()));
                let (got, want) = (s.remove(k), model.remove(&k));
                modified_after |= stray;
                ensure!(got == want, "step {step}: remove({}) is {got}", name());
            }
            (Do::Fill, _) => {
                obs.log(|| "insert all".into());
                for k in 0..info.len as u32 {
                    s.insert(k);
                    model.insert(k);
                }
            }
            (Do::Retain, _) => {
                let x = rng.next();
                let keep = |k: u32| Rng(x ^ u64::from(k)).next() % 2 == 0;
                obs.log(|| "retain(half)".into());
                s.retain(&mut |k| keep(k));
                model.retain(|k| keep(*k));
            }
            (Do::FromRaw, _) => {
                let wide = u128::from(rng.next()) << 64 | u128::from(rng.next());
                let other = u128::from(rng.next()) << 64 | u128::from(rng.next());
                let raw = match op.a % 8 {
                    0 => u128::from(op.key),
                    1 => 1u128 << (op.key % 128),
                    2 => wide & other,
                    3 => wide | other,
                    4 => u128::MAX,
                    5 => valid ^ (1u128 << (op.key % 128)),
                    _ => wide,
                };
                s.set_raw(raw);
                let bits = s.bits();
                let raw = if bits == 128 { raw } else { raw & ((1 << bits) - 1) };
                obs.log(|| format!("from_raw({raw:#x})"));
                model = (0..n as u32).filter(|k| raw >> k & 1 != 0).collect();
                if raw & !valid != 0 {
                    obs.class("from_raw with bits of no variant");
                    stray = true;
                }
            }
            _ => {
                let raw = s.raw();
                obs.log(|| format!("from_raw(as_raw() = {raw:#x})"));
                s.set_raw(raw);
                let again = s.raw();
                ensure!(again == raw, "step {step}: as_raw is {raw:#x}, and {again:#x} after from_raw of it");
            }
        }
        let raw = s.raw();
        let want = image(&model);
        ensure!(raw == want, "step {step}: as_raw is {raw:#x}, expected {want:#x}");
        let list: Vec<u32> = model.iter().copied().collect();
        let got = s.list();
        ensure!(got == list, "step {step}: the set iterates over {got:?}, expected {list:?}");
        let mut got = s.list_back();
        got.reverse();
        ensure!(got == list, "step {step}: the set iterates backwards over {got:?} (reversed), expected {list:?}");
        ensure!(s.sizes() == (list.len(), list.is_empty()), "step {step}: len and is_empty are {:?} for {list:?}", s.sizes());
        for k in 0..info.len as u32 {
            ensure!(s.contains(k) == model.contains(&k), "step {step}: contains({}) is {}", (info.show)(k), s.contains(k));
        }
        let eq = s.equals(&list);
        ensure!(eq == (true, true, std::cmp::Ordering::Equal, true), "step {step}: compared with the set of its elements {list:?}, == is {} and {}, cmp is {:?}, equal hash: {}", eq.0, eq.1, eq.2, eq.3);
        let debug = s.debug();
        let want = format!("{{{}}}", list.iter().map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", "));
        ensure!(debug == want, "step {step}: Debug is {debug}, expected {want}");
        if let Some(m) = seen.insert(raw, model.clone()) {
            ensure!(m == model, "step {step}: {m:?} and {model:?} have the same raw value");
        }
    }
    if modified_after {
        obs.class("modified after from_raw with bits of no variant");
    }
    obs.nontrivial = seen.len() > 2 || (n < 2 && case.ops.len() > 3);
    Ok(())
}

fn main() {
    let mut c = Check::new("C15", "proptest-generated histories of from_raw with arbitrary integers, inserts, removals, retain and round trips over bitset enums of 0 to 128 variants; as_raw is compared with the union of one bit per element in declaration order, and all views of the set with the set of the variants whose bits are set; non-trivial: at least three different sets (for enums with fewer than two variants: more than three operations)");
    macro_rules! add {
        ($n:literal $id:ident $a:ident $b:ident) => {
            c.add(stringify!($b), |case, obs| run($n, || Box::new(S::<$b>(Set::new())), info::<$b>(), case, obs));
        };
    }
    for_each_twin!(add);
    c.quick = 6000;
    c.thorough = 400_000;
    c.max_focus = 20;
    fmcheck::run::main(c)
}
