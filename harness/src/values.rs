//! The same operations over many types of values: zero-sized ones, ones with
//! niches, large and overaligned ones, with and without drop glue. What the maps
//! do must not depend on the type of the values.
use std::cell::Cell;
use std::collections::BTreeMap;
use std::num::NonZeroU8;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;

use crate::case::{Case, Table};
use crate::ensure;
use crate::keys::*;
use crate::obj::{info, Info};
use crate::run::{Check, Obs, Res};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
}

pub fn live() -> i64 {
    LIVE.with(Cell::get)
}

pub trait AnyV: Clone + PartialEq + Default + std::fmt::Debug + 'static {
    /// Whether its instances are counted.
    const COUNTED: bool = false;
    fn make(n: u32) -> Self;
    /// Identifies the value; garbage is reported.
    fn tag(&self) -> Result<u32, String>;
}

fn tag_of<V: AnyV>(n: u32) -> u32 {
    V::make(n).tag().unwrap_or(u32::MAX)
}

macro_rules! plain {
    ($($t:ty, $n:ident => $make:expr, $v:ident => $tag:expr;)*) => {$(
        impl AnyV for $t {
            fn make($n: u32) -> Self { $make }
            fn tag(&self) -> Result<u32, String> { let $v = self; $tag }
        }
    )*};
}

const WORDS: [&str; 5] = ["", "one", "two", "three", "a somewhat longer string"];

#[derive(Clone, Debug, PartialEq)]
pub struct Big([u64; 20]);

impl Default for Big {
    fn default() -> Self {
        Big::make(0)
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
#[repr(align(64))]
pub struct Aligned(u8);

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Nz(NonZeroU8);

impl Default for Nz {
    fn default() -> Self {
        Nz::make(0)
    }
}

plain! {
    (), _n => (), _v => Ok(0);
    u128, n => u128::from(n) << 77 | 5, v => if *v == 0 { Ok(u32::MAX - 1) } else if *v & ((1 << 77) - 1) == 5 { Ok((*v >> 77) as u32) } else { Err(format!("{v:x}")) };
    Nz, n => Nz(NonZeroU8::new((n % 255 + 1) as u8).unwrap()), v => Ok(u32::from(v.0.get()) - 1);
    Option<Option<bool>>, n => match n % 4 { 0 => None, 1 => Some(None), 2 => Some(Some(false)), _ => Some(Some(true)) },
        v => Ok(match v { None => 0, Some(None) => 1, Some(Some(false)) => 2, Some(Some(true)) => 3 });
    &'static str, n => WORDS[n as usize % 5], v => WORDS.iter().position(|w| w == v).map(|p| p as u32).ok_or_else(|| "a str".to_string());
    Big, n => { let mut b = [0; 20]; for (i, x) in b.iter_mut().enumerate() { *x = u64::from(n) * 31 + i as u64; } Big(b) },
        v => {
            let n = v.0[0] / 31;
            if v.0.iter().enumerate().all(|(i, x)| *x == n * 31 + i as u64) { Ok(n as u32) } else { Err(format!("{v:?}")) }
        };
    u8, n => n as u8, v => Ok(u32::from(*v));
    Aligned, n => Aligned(n as u8), v => if v as *const Aligned as usize % 64 == 0 { Ok(u32::from(v.0)) } else { Err("a misaligned value".into()) };
    Option<Box<u32>>, n => if n % 3 == 0 { None } else { Some(Box::new(n)) }, v => Ok(v.as_ref().map_or(u32::MAX - 1, |b| **b));
    Map<bool, u8>, n => { let mut m = Map::new(); if n % 2 == 1 { m.insert(true, n as u8); } if n % 3 == 1 { m.insert(false, 7); } m },
        v => Ok(v.get(true).map_or(0, |x| u32::from(*x) + 1) * 2 + u32::from(v.get(false) == Some(&7)));
}

/// Counts its instances.
#[derive(Debug, PartialEq)]
pub struct Counted<T>(T);

impl<T> Counted<T> {
    fn new(t: T) -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Counted(t)
    }
}

impl<T: Clone> Clone for Counted<T> {
    fn clone(&self) -> Self {
        Counted::new(self.0.clone())
    }
}

impl<T: Default> Default for Counted<T> {
    fn default() -> Self {
        Counted::new(T::default())
    }
}

impl<T> Drop for Counted<T> {
    fn drop(&mut self) {
        LIVE.with(|l| l.set(l.get() - 1));
    }
}

impl<T: AnyV> AnyV for Counted<T> {
    const COUNTED: bool = true;
    fn make(n: u32) -> Self {
        Counted::new(T::make(n))
    }
    fn tag(&self) -> Result<u32, String> {
        self.0.tag()
    }
}

/// Which property the operations are for.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Part {
    Basic,
    Views,
    Entry,
    Retain,
    Drops,
    Clones,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Do {
    Insert,
    Remove,
    GetMut,
    Clear,
    Fill,
    OrInsert,
    OrInsertWith,
    OrDefault,
    AndModify,
    EntryInsert,
    EntryRemove,
    EntrySwap,
    Retain,
    RetainSome,
    IterMut,
    ValuesMut,
    IntoIter,
    Collect,
    Clone,
    CloneFrom,
    Compare,
    Take,
}

const BASIC: Table<Do> = Table(&[(Do::Insert, 60), (Do::Remove, 40), (Do::GetMut, 20), (Do::Clear, 4), (Do::Fill, 10), (Do::Take, 6), (Do::Clone, 6)]);
const VIEWS: Table<Do> = Table(&[(Do::Insert, 40), (Do::Remove, 20), (Do::IterMut, 20), (Do::ValuesMut, 20), (Do::IntoIter, 15), (Do::Collect, 15), (Do::Fill, 10), (Do::Clear, 3)]);
const ENTRY: Table<Do> = Table(&[(Do::OrInsert, 30), (Do::OrInsertWith, 20), (Do::OrDefault, 20), (Do::AndModify, 20), (Do::EntryInsert, 30), (Do::EntryRemove, 25), (Do::EntrySwap, 20), (Do::Remove, 15), (Do::Insert, 10), (Do::Clear, 3)]);
const RETAIN: Table<Do> = Table(&[(Do::Insert, 40), (Do::Retain, 20), (Do::RetainSome, 20), (Do::Fill, 20), (Do::Remove, 10), (Do::Clear, 2)]);
const DROPS: Table<Do> = Table(&[
    (Do::Insert, 40), (Do::Remove, 15), (Do::EntryInsert, 15), (Do::EntryRemove, 12), (Do::EntrySwap, 12), (Do::OrInsert, 12), (Do::OrDefault, 8), (Do::Retain, 12), (Do::RetainSome, 8),
    (Do::IntoIter, 14), (Do::Collect, 8), (Do::Clone, 10), (Do::CloneFrom, 10), (Do::Clear, 8), (Do::Fill, 10), (Do::Take, 6), (Do::GetMut, 8), (Do::Compare, 3),
]);
const CLONES: Table<Do> = Table(&[(Do::Insert, 40), (Do::Remove, 20), (Do::Clone, 20), (Do::CloneFrom, 20), (Do::Compare, 30), (Do::GetMut, 10), (Do::Fill, 8), (Do::Clear, 3), (Do::Take, 6)]);

type Model = BTreeMap<u32, u32>;

type R<T> = Result<T, String>;

/// A map of some type of keys and values behind indexes of keys and numbers of
/// values. Values come back as tags.
trait Obj {
    fn insert(&mut self, k: u32, n: u32) -> R<Option<u32>>;
    fn remove(&mut self, k: u32) -> R<Option<u32>>;
    fn get(&self, k: u32) -> R<Option<u32>>;
    fn contains(&self, k: u32) -> bool;
    /// Writes n if there is a value.
    fn get_mut(&mut self, k: u32, n: u32) -> R<Option<u32>>;
    fn clear(&mut self);
    fn len(&self) -> (usize, bool);
    fn or_insert(&mut self, k: u32, n: u32) -> R<u32>;
    fn or_insert_with(&mut self, k: u32, n: u32, calls: &mut u32) -> R<u32>;
    fn or_default(&mut self, k: u32) -> R<u32>;
    /// Modifies to n, or inserts n + 1.
    fn and_modify(&mut self, k: u32, n: u32, saw: &mut Option<R<u32>>) -> R<u32>;
    fn entry_insert(&mut self, k: u32, n: u32) -> R<(Option<u32>, u32)>;
    fn entry_remove(&mut self, k: u32) -> R<Option<u32>>;
    /// Writes n and back what there was.
    fn entry_swap(&mut self, k: u32, n: u32) -> R<Option<(u32, u32, u32)>>;
    fn retain(&mut self, f: &mut dyn FnMut(u32, R<u32>) -> (bool, Option<u32>));
    fn iter(&self) -> R<Vec<(u32, u32)>>;
    fn keys(&self) -> Vec<u32>;
    fn values(&self) -> R<Vec<u32>>;
    fn iter_mut(&mut self, f: &mut dyn FnMut(u32, R<u32>) -> Option<u32>);
    fn values_mut(&mut self, f: &mut dyn FnMut(R<u32>) -> Option<u32>);
    fn into_iter(&mut self, stop: usize) -> R<Vec<(u32, u32)>>;
    fn collect(&mut self);
    fn dup(&self) -> Box<dyn Obj>;
    fn dup_from(&mut self, from: &dyn Obj);
    fn same_as(&self, other: &dyn Obj) -> bool;
    fn differs_from(&self, other: &dyn Obj) -> bool;
    fn take(&mut self) -> Box<dyn Obj>;
    fn any(&self) -> &dyn std::any::Any;
}

struct X<K: TKey, V: AnyV>(Map<K, V>);

fn tagged<V: AnyV>(v: Option<V>) -> R<Option<u32>> {
    match v {
        None => Ok(None),
        Some(v) => v.tag().map(Some),
    }
}

impl<K: TKey, V: AnyV> Obj for X<K, V>
where
    K::MapStorage<V>: Clone + PartialEq,
{
    fn insert(&mut self, k: u32, n: u32) -> R<Option<u32>> {
        tagged(self.0.insert(K::key(k), V::make(n)))
    }
    fn remove(&mut self, k: u32) -> R<Option<u32>> {
        tagged(self.0.remove(K::key(k)))
    }
    fn get(&self, k: u32) -> R<Option<u32>> {
        self.0.get(K::key(k)).map(V::tag).transpose()
    }
    fn contains(&self, k: u32) -> bool {
        self.0.contains_key(K::key2(k))
    }
    fn get_mut(&mut self, k: u32, n: u32) -> R<Option<u32>> {
        match self.0.get_mut(K::key(k)) {
            None => Ok(None),
            Some(v) => {
                let t = v.tag();
                *v = V::make(n);
                t.map(Some)
            }
        }
    }
    fn clear(&mut self) {
        self.0.clear()
    }
    fn len(&self) -> (usize, bool) {
        (self.0.len(), self.0.is_empty())
    }
    fn or_insert(&mut self, k: u32, n: u32) -> R<u32> {
        self.0.entry(K::key(k)).or_insert(V::make(n)).tag()
    }
    fn or_insert_with(&mut self, k: u32, n: u32, calls: &mut u32) -> R<u32> {
        self.0.entry(K::key(k)).or_insert_with_key(|_| { *calls += 1; V::make(n) }).tag()
    }
    fn or_default(&mut self, k: u32) -> R<u32> {
        self.0.entry(K::key(k)).or_default().tag()
    }
    fn and_modify(&mut self, k: u32, n: u32, saw: &mut Option<R<u32>>) -> R<u32> {
        self.0.entry(K::key(k)).and_modify(|v| { *saw = Some(v.tag()); *v = V::make(n) }).or_insert_with(|| V::make(n + 1)).tag()
    }
    fn entry_insert(&mut self, k: u32, n: u32) -> R<(Option<u32>, u32)> {
        match self.0.entry(K::key(k)) {
            Entry::Occupied(mut o) => {
                let a = o.get().tag()?;
                let b = o.insert(V::make(n)).tag()?;
                if a != b {
                    return Err(format!("OccupiedEntry::insert returns {b}, get {a}"));
                }
                Ok((Some(b), o.get().tag()?))
            }
            Entry::Vacant(v) => Ok((None, v.insert(V::make(n)).tag()?)),
        }
    }
    fn entry_remove(&mut self, k: u32) -> R<Option<u32>> {
        match self.0.entry(K::key(k)) {
            Entry::Occupied(o) => o.remove().tag().map(Some),
            Entry::Vacant(_) => Ok(None),
        }
    }
    fn entry_swap(&mut self, k: u32, n: u32) -> R<Option<(u32, u32, u32)>> {
        match self.0.entry(K::key(k)) {
            Entry::Occupied(mut o) => {
                let a = o.get().tag()?;
                let old = std::mem::replace(o.get_mut(), V::make(n));
                let r = o.into_mut();
                let c = r.tag()?;
                let b = old.tag()?;
                *r = old;
                Ok(Some((a, b, c)))
            }
            Entry::Vacant(_) => Ok(None),
        }
    }
    fn retain(&mut self, f: &mut dyn FnMut(u32, R<u32>) -> (bool, Option<u32>)) {
        self.0.retain(|k, v| {
            let (keep, w) = f(k.idx(), v.tag());
            if let Some(n) = w {
                *v = V::make(n);
            }
            keep
        })
    }
    fn iter(&self) -> R<Vec<(u32, u32)>> {
        let mut out = vec![];
        for (k, v) in self.0.iter().take(3000) {
            out.push((k.idx(), v.tag()?));
        }
        Ok(out)
    }
    fn keys(&self) -> Vec<u32> {
        self.0.keys().take(3000).map(|k| k.idx()).collect()
    }
    fn values(&self) -> R<Vec<u32>> {
        let mut out = vec![];
        for v in self.0.values().take(3000) {
            out.push(v.tag()?);
        }
        Ok(out)
    }
    fn iter_mut(&mut self, f: &mut dyn FnMut(u32, R<u32>) -> Option<u32>) {
        for (k, v) in self.0.iter_mut().take(3000) {
            if let Some(n) = f(k.idx(), v.tag()) {
                *v = V::make(n);
            }
        }
    }
    fn values_mut(&mut self, f: &mut dyn FnMut(R<u32>) -> Option<u32>) {
        for v in self.0.values_mut().take(3000) {
            if let Some(n) = f(v.tag()) {
                std::mem::swap(v, &mut V::make(n));
            }
        }
    }
    fn into_iter(&mut self, stop: usize) -> R<Vec<(u32, u32)>> {
        let mut out = vec![];
        for (k, v) in std::mem::take(&mut self.0).into_iter().take(stop) {
            out.push((k.idx(), v.tag()?));
        }
        Ok(out)
    }
    fn collect(&mut self) {
        self.0 = std::mem::take(&mut self.0).into_iter().collect();
    }
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(X(self.0.clone()))
    }
    fn dup_from(&mut self, from: &dyn Obj) {
        self.0.clone_from(&from.any().downcast_ref::<Self>().unwrap().0)
    }
    fn same_as(&self, other: &dyn Obj) -> bool {
        self.0 == other.any().downcast_ref::<Self>().unwrap().0
    }
    fn differs_from(&self, other: &dyn Obj) -> bool {
        self.0 != other.any().downcast_ref::<Self>().unwrap().0
    }
    fn take(&mut self) -> Box<dyn Obj> {
        Box::new(X(std::mem::take(&mut self.0)))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

/// What is known about a type of values.
#[derive(Clone, Copy)]
struct Values {
    counted: bool,
    /// The tag of a number; of the default value.
    tag: fn(u32) -> u32,
    default: fn() -> u32,
}

/// The contents of the map, by several ways, against the model.
fn same(m: &dyn Obj, model: &Model, focus: &[u32], info: &Info) -> Res {
    let (len, empty) = m.len();
    ensure!(len == model.len() && empty == model.is_empty(), "len is {len} (is_empty {empty}), expected {}", model.len());
    for i in focus {
        let g = m.get(*i)?;
        ensure!(g == model.get(i).copied(), "get({}) is {g:?}, expected {:?}", (info.show)(*i), model.get(i));
        ensure!(m.contains(*i) == g.is_some(), "contains_key({}) is {}", (info.show)(*i), g.is_none());
    }
    let mut seen = m.iter()?;
    ensure!(m.keys().iter().eq(seen.iter().map(|s| &s.0)), "keys are {:?}, iter yields {seen:?}", m.keys());
    ensure!(m.values()?.iter().eq(seen.iter().map(|s| &s.1)), "values are {:?}, iter yields {seen:?}", m.values());
    if info.dynamic {
        seen.sort_unstable();
    }
    ensure!(seen.iter().copied().eq(model.iter().map(|(k, v)| (*k, *v))), "iter yields {seen:?}, expected {model:?}");
    Ok(())
}

fn run(part: Part, new: fn() -> Box<dyn Obj>, info: Info, vals: Values, case: &Case, obs: &mut Obs) -> Res {
    LIVE.with(|l| l.set(0));
    let table = match part {
        Part::Basic => &BASIC,
        Part::Views => &VIEWS,
        Part::Entry => &ENTRY,
        Part::Retain => &RETAIN,
        Part::Drops => &DROPS,
        Part::Clones => &CLONES,
    };
    let focus = case.focused(info.len);
    let mut maps = [new(), new()];
    let mut models: [Model; 2] = Default::default();
    let mut hits = 0;
    for (step, op) in case.ops.iter().enumerate() {
        let d = table.get(op.k);
        let at = (op.a >> 1) as usize % 2;
        let Some(i) = case.pick(op.key, info.len) else { continue };
        let n = op.a.wrapping_mul(7).wrapping_add(step as u32) % 1000;
        let t = (vals.tag)(n);
        obs.log(|| format!("map{at}: {d:?} {} {n}", (info.show)(i)));
        let fail = |e: String| format!("step {step}: {d:?} {} (value {n}): {e}", (info.show)(i));
        let had = models[at].get(&i).copied();
        hits += usize::from(had.is_some());
        let m = &mut *maps[at];
        let model = &mut models[at];
        let check = |what: &str, g: Option<u32>, w: Option<u32>| -> Res {
            ensure!(g == w, "{}", fail(format!("{what} is {g:?}, expected {w:?}")));
            Ok(())
        };
        match d {
            Do::Insert => {
                check("insert", m.insert(i, n).map_err(fail)?, had)?;
                model.insert(i, t);
            }
            Do::Remove => {
                check("remove", m.remove(i).map_err(fail)?, had)?;
                model.remove(&i);
            }
            Do::GetMut => {
                check("get_mut", m.get_mut(i, n).map_err(fail)?, had)?;
                if had.is_some() {
                    model.insert(i, t);
                }
            }
            Do::Clear => {
                m.clear();
                model.clear();
            }
            Do::Fill => {
                for j in focus.iter().take(8) {
                    m.insert(*j, n + j).map_err(fail)?;
                    model.insert(*j, (vals.tag)(n + j));
                }
            }
            Do::OrInsert => {
                check("or_insert", Some(m.or_insert(i, n).map_err(fail)?), Some(had.unwrap_or(t)))?;
                model.entry(i).or_insert(t);
            }
            Do::OrInsertWith => {
                let mut calls = 0;
                check("or_insert_with_key", Some(m.or_insert_with(i, n, &mut calls).map_err(fail)?), Some(had.unwrap_or(t)))?;
                check("the number of calls", Some(calls), Some(u32::from(had.is_none())))?;
                model.entry(i).or_insert(t);
            }
            Do::OrDefault => {
                let t = (vals.default)();
                check("or_default", Some(m.or_default(i).map_err(fail)?), Some(had.unwrap_or(t)))?;
                model.entry(i).or_insert(t);
            }
            Do::AndModify => {
                let mut saw = None;
                let g = m.and_modify(i, n, &mut saw).map_err(fail)?;
                check("what and_modify sees", saw.transpose().map_err(fail)?, had)?;
                let w = if had.is_some() { t } else { (vals.tag)(n + 1) };
                check("and_modify().or_insert_with()", Some(g), Some(w))?;
                model.insert(i, w);
            }
            Do::EntryInsert => {
                let (old, new) = m.entry_insert(i, n).map_err(fail)?;
                check("what the entry had", old, had)?;
                check("what was inserted", Some(new), Some(t))?;
                model.insert(i, t);
            }
            Do::EntryRemove => {
                check("OccupiedEntry::remove", m.entry_remove(i).map_err(fail)?, had)?;
                model.remove(&i);
            }
            Do::EntrySwap => {
                let g = m.entry_swap(i, n).map_err(fail)?;
                ensure!(g == had.map(|h| (h, h, t)), "{}", fail(format!("get, get_mut and into_mut give {g:?}, expected {had:?} twice and {t}")));
            }
            Do::Retain | Do::RetainSome => {
                let mut seen = BTreeMap::new();
                let mut bad = None;
                let mut calls = 0u32;
                let keep = |k: u32| if d == Do::Retain { (k ^ op.a) & 1 == 0 } else { k != i };
                let write = |k: u32| (n % 3 == 0).then_some(n + k);
                m.retain(&mut |k, v| {
                    calls += 1;
                    match v {
                        Ok(t) => {
                            seen.insert(k, t);
                        }
                        Err(e) => bad = Some(e),
                    }
                    (keep(k), write(k))
                });
                ensure!(bad.is_none(), "{}", fail(format!("the predicate gets {bad:?}")));
                ensure!(seen == *model && calls as usize == model.len(), "{}", fail(format!("the predicate is called {calls} times and gets {seen:?}, expected {model:?}")));
                model.retain(|k, v| {
                    if let Some(n) = write(*k) {
                        *v = (vals.tag)(n);
                    }
                    keep(*k)
                });
            }
            Do::IterMut => {
                let mut res = Ok(());
                let mut calls = 0;
                let len = model.len();
                m.iter_mut(&mut |k, v| {
                    calls += 1;
                    if res.is_ok() {
                        res = v.map_err(fail).and_then(|v| check("a value of iter_mut", Some(v), model.get(&k).copied()));
                    }
                    model.insert(k, (vals.tag)(n + k));
                    Some(n + k)
                });
                res?;
                check("the number of entries of iter_mut", Some(calls), Some(len as u32))?;
            }
            Do::ValuesMut => {
                let keys = m.keys();
                let mut res = Ok(());
                let mut calls = 0;
                m.values_mut(&mut |v| {
                    calls += 1;
                    let k = *keys.get(calls - 1)?;
                    if res.is_ok() {
                        res = v.map_err(fail).and_then(|v| check("a value of values_mut", Some(v), model.get(&k).copied()));
                    }
                    if op.a % 4 == 3 && calls % 2 == 1 {
                        return None;
                    }
                    model.insert(k, (vals.tag)(n + k));
                    Some(n + k)
                });
                res?;
                check("the number of entries of values_mut", Some(calls as u32), Some(keys.len() as u32))?;
            }
            Do::IntoIter => {
                // The map is consumed, partly.
                let stop = if op.a % 3 == 0 { 3000 } else { op.a as usize % 5 };
                let seen = m.into_iter(stop).map_err(fail)?;
                let set: BTreeMap<u32, u32> = seen.iter().copied().collect();
                let ok = seen.len() == stop.min(model.len()) && set.len() == seen.len() && set.iter().all(|(k, v)| model.get(k) == Some(v));
                ensure!(ok, "{}", fail(format!("into_iter yields {seen:?}, expected {} of {model:?}", stop.min(model.len()))));
                model.clear();
            }
            Do::Collect => m.collect(),
            Do::Clone => {
                maps[1 - at] = m.dup();
                models[1 - at] = models[at].clone();
            }
            Do::CloneFrom => {
                let (a, b) = maps.split_at_mut(1);
                let (to, from) = if at == 0 { (&mut b[0], &a[0]) } else { (&mut a[0], &b[0]) };
                to.dup_from(&**from);
                models[1 - at] = models[at].clone();
            }
            Do::Compare => {
                let eq = maps[0].same_as(&*maps[1]);
                let w = models[0] == models[1];
                ensure!(eq == w && maps[0].differs_from(&*maps[1]) != w, "{}", fail(format!("== is {eq} of {:?} and {:?}", models[0], models[1])));
                ensure!(maps[at].same_as(&*maps[at].dup()), "{}", fail("a clone is not equal".into()));
            }
            Do::Take => {
                maps[1 - at] = m.take();
                models[1 - at] = std::mem::take(&mut models[at]);
            }
        }
        for x in 0..2 {
            same(&*maps[x], &models[x], &focus, &info).map_err(|e| format!("step {step}, after {d:?} {} (value {n}): map{x}: {e}", (info.show)(i)))?;
        }
        if vals.counted {
            let want = models[0].len() + models[1].len();
            ensure!(live() == want as i64, "step {step}, after {d:?} {}: {} values are alive, expected {want}", (info.show)(i), live());
        }
    }
    drop(maps);
    ensure!(live() == 0, "finally: {} values are alive after everything was dropped", live());
    obs.nontrivial = hits > 1;
    obs.class("other types of values");
    Ok(())
}

/// Add subjects of the given property.
pub fn add(c: &mut Check, part: Part) {
    c.rule = format!("{}; for subjects with other types of values: at least two operations were on present keys", c.rule).leak();
    macro_rules! key {
        ($($k:ty),*) => {$( key!(@ $k: (), u128, Nz, Option<Option<bool>>, &'static str, Big, Aligned, Option<Box<u32>>, Map<bool, u8>, Counted<()>, Counted<u8>, Counted<Big>, Counted<Aligned>); )*};
        (@ $k:ty: $($v:ty),*) => {$(
            c.add(concat!(stringify!($k), " with values ", stringify!($v)), move |case, obs| {
                let vals = Values { counted: <$v>::COUNTED, tag: tag_of::<$v>, default: || <$v>::default().tag().unwrap_or(u32::MAX) };
                run(part, || Box::new(X::<$k, $v>(Map::new())), info::<$k>(), vals, case, obs)
            });
            c.subjects.last_mut().unwrap().weight = 0.15;
        )*};
    }
    key!(U5, bool, (), Option<bool>, Cf3, Cd1);
}
