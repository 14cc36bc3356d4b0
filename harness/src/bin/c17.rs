//! C17: collecting equals inserting one by one.
#![allow(unreachable_code)]
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::{Key, Map, Set};
use fmcheck::case::{Case, OTHER};
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::{snapshot, Val};
use fmcheck::{ensure, for_each_key};

/// An iterator which counts how it is used and has a size hint of its own.
struct Input<I> {
    it: I,
    hint: (usize, Option<usize>),
    polls: usize,
    ended: bool,
    after_end: usize,
}

impl<I: Iterator> Iterator for &mut Input<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.polls += 1;
        if self.ended {
            self.after_end += 1;
            return None;
        }
        let x = self.it.next();
        self.ended = x.is_none();
        x
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

trait Obj {
    fn map(&mut self) -> &mut dyn BasicMap;
    fn set(&mut self) -> &mut dyn BasicSet;
    fn insert(&mut self, items: &[(KI, u32)]);
    fn collect_map(&mut self, it: &mut dyn Iterator<Item = (KI, Val)>, hint: (usize, Option<usize>)) -> (usize, usize);
    fn collect_set(&mut self, it: &mut dyn Iterator<Item = KI>, hint: (usize, Option<usize>)) -> (usize, usize);
    fn from_array(&mut self, keys: &[KI]) -> bool;
    fn recollect(&mut self, back: bool);
    /// Equal to the ones with these items.
    fn same(&self, items: &[(KI, u32)]) -> (bool, bool);
    fn list(&self) -> (Vec<(u32, u32)>, Vec<u32>);
}

struct O<K: TKey>(M<K>, S<K>);

impl<K: TKey> Obj for O<K>
where
    K::MapStorage<Val>: PartialEq,
    K::SetStorage: PartialEq,
{
    fn map(&mut self) -> &mut dyn BasicMap {
        &mut self.0
    }
    fn set(&mut self) -> &mut dyn BasicSet {
        &mut self.1
    }
    fn insert(&mut self, items: &[(KI, u32)]) {
        for (k, p) in items {
            self.0 .0.insert(k.get(), Val::new(*p));
            self.1 .0.insert(k.get());
        }
    }
    fn collect_map(&mut self, it: &mut dyn Iterator<Item = (KI, Val)>, hint: (usize, Option<usize>)) -> (usize, usize) {
        let mut i = Input { it: it.map(|(k, v)| (k.get::<K>(), v)), hint, polls: 0, ended: false, after_end: 0 };
        self.0 .0 = (&mut i).collect();
        (i.polls, i.after_end)
    }
    fn collect_set(&mut self, it: &mut dyn Iterator<Item = KI>, hint: (usize, Option<usize>)) -> (usize, usize) {
        let mut i = Input { it: it.map(|k| k.get::<K>()), hint, polls: 0, ended: false, after_end: 0 };
        self.1 .0 = (&mut i).collect();
        (i.polls, i.after_end)
    }
    fn from_array(&mut self, keys: &[KI]) -> bool {
        let k = |i: usize| keys[i].get::<K>();
        macro_rules! arr {
            ($($n:literal)*) => {
                match keys.len() {
                    $($n => Set::from(std::array::from_fn::<K, $n, _>(k)),)*
                    _ => return false,
                }
            };
        }
        self.1 .0 = arr!(0 1 2 3 4 5 6 7 8 9 12 16 20);
        true
    }
    fn recollect(&mut self, back: bool) {
        let (m, s) = (std::mem::take(&mut self.0 .0), std::mem::take(&mut self.1 .0));
        if back {
            // In the reverse order.
            let mut v: Vec<_> = m.into_iter().collect();
            v.reverse();
            self.0 .0 = v.into_iter().collect();
            let mut v: Vec<_> = s.into_iter().collect();
            v.reverse();
            self.1 .0 = v.into_iter().collect();
        } else {
            self.0 .0 = m.into_iter().collect();
            self.1 .0 = s.into_iter().collect();
        }
    }
    fn same(&self, items: &[(KI, u32)]) -> (bool, bool) {
        let mut o = O::<K>(M(Map::new()), S(Set::new()));
        o.insert(items);
        (o.0 .0 == self.0 .0, o.1 .0 == self.1 .0)
    }
    fn list(&self) -> (Vec<(u32, u32)>, Vec<u32>) {
        (self.0 .0.iter().map(|(k, v)| (k.idx(), v.p)).collect(), self.1 .0.iter().map(|k| k.idx()).collect())
    }
}

fn hint(x: u32, n: usize) -> (usize, Option<usize>) {
    match x % 6 {
        0 | 1 => (n, Some(n)),
        2 => (0, None),
        3 => (0, Some(n)),
        4 => (n / 2, Some(n * 2 + 3)),
        // Allowed: size hints must not be trusted for safety.
        _ => (n.saturating_sub(1), Some(n + 1)),
    }
}

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let items: Vec<(KI, u32)> = case.ops.iter().enumerate().filter_map(|(i, op)| case.pick(op.key, info.len).map(|k| (KI(k, op.key & OTHER != 0), i as u32 * 10 + 1))).collect();
    let model: BTreeMap<u32, u32> = items.iter().map(|(k, p)| (k.0, *p)).collect();
    let set: BTreeSet<u32> = model.keys().copied().collect();
    obs.log(|| format!("collect [{}]", items.iter().map(|(k, p)| format!("({}, {p})", (info.show)(k.0))).collect::<Vec<_>>().join(", ")));
    let mut o = new();
    let check = |o: &mut dyn Obj, what: &str| -> Res {
        same_map(o.map(), &model, &info).map_err(|e| format!("{what}: map: {e}"))?;
        same_set(o.set(), &set, &info).map_err(|e| format!("{what}: set: {e}"))?;
        let s = o.same(&items);
        ensure!(s == (true, true), "{what}: the map is equal to the one made by insert: {}, the set: {}", s.0, s.1);
        let (mut m, mut s) = o.list();
        m.sort_unstable();
        s.sort_unstable();
        ensure!(m.iter().copied().eq(model.iter().map(|(a, b)| (*a, *b))) && s.iter().eq(&set), "{what}: iteration yields {m:?} and {s:?}");
        let live = snapshot().live;
        ensure!(live == model.len(), "{what}: {live} values are alive for {} entries", model.len());
        Ok(())
    };
    o.insert(&items);
    check(&mut *o, "inserting")?;
    let n = items.len();
    let (polls, extra) = o.collect_map(&mut items.iter().map(|(k, p)| (*k, Val::new(*p))), hint(case.x, n));
    ensure!(polls == n + 1 && extra == 0, "collecting {n} pairs called next {polls} times, {extra} of them after the end");
    let (polls, extra) = o.collect_set(&mut items.iter().map(|(k, _)| *k), hint(case.x / 6, n));
    ensure!(polls == n + 1 && extra == 0, "collecting {n} elements called next {polls} times, {extra} of them after the end");
    check(&mut *o, "collecting")?;
    for back in [false, true] {
        o.recollect(back);
        check(&mut *o, if back { "collecting in reverse what into_iter yields" } else { "collecting what into_iter yields" })?;
    }
    let keys: Vec<KI> = items.iter().map(|(k, _)| *k).collect();
    if o.from_array(&keys) {
        obs.class("from an array");
        check(&mut *o, "Set::from")?;
    }
    let repeated = set.len() < n;
    if repeated {
        obs.class("repeated keys");
    }
    obs.nontrivial = (repeated && set.len() > 1) || (info.len < 2 && case.ops.len() > 1);
    Ok(())
}

fn main() {
    let mut c = Check::new("C17", "proptest-generated sequences of pairs (elements) with repeated keys and various size hints are collected into maps and sets (and converted from arrays), also after a trip through into_iter in either order, and compared with inserting one by one and with a BTreeMap; the use of the input iterator is counted; non-trivial: some key was repeated and at least two were different (for types with fewer than two values: at least two items)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(O::<$t>(M(Map::new()), S(Set::new()))), info::<$t>(), case, obs));
        };
    }
    fn _bound<K: Key>() {}
    for_each_key!(add);
    c.quick = 3000;
    c.thorough = 200_000;
    c.max_focus = 20;
    c.max_ops = 40;
    fmcheck::run::main(c)
}
