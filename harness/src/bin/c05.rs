//! C05: iterators honour the Iterator contracts at every state.
#![allow(unreachable_code)]
use fixed_map::{Map, Set};
use fmcheck::case::Case;
use fmcheck::drive::{drive, WRONG};
use fmcheck::it::It;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;
use fmcheck::{boxed_it, ensure, for_each_key};

/// Written to values through mutable views.
const MARK: u32 = 0x1000_0000;

const VIEWS: &[&str] = &["iter", "keys", "values", "iter_mut", "values_mut", "into_iter", "set iter", "set into_iter", "&map", "&mut map", "&set", "intersection"];

trait Host {
    fn insert(&mut self, i: u32);
    /// Forward sequence of the view, by next only.
    fn forward(&self) -> Vec<u32>;
    fn with<'s>(&'s mut self, view: usize, f: &mut dyn FnMut(Box<dyn It<'s> + 's>) -> Res) -> Res;
    /// The number of values with the mark.
    fn marked(&self) -> usize;
}

struct H<K: TKey> {
    map: Map<K, Val>,
    set: Set<K>,
}

fn entry(k: u32, p: u32) -> u32 {
    if k == p {
        k
    } else {
        WRONG + k
    }
}

fn mark(v: &mut Val) {
    v.p |= MARK;
}

macro_rules! host {
    ($id:ident $t:ty) => {
        impl Host for H<$t> {
            fn insert(&mut self, i: u32) {
                self.map.insert(TKey::key(i), Val::new(i));
                self.set.insert(TKey::key(i));
            }
            fn forward(&self) -> Vec<u32> {
                let mut it = self.map.iter();
                let mut out = vec![];
                while let Some((k, _)) = it.next() {
                    out.push(k.idx());
                    if out.len() > 2000 {
                        break;
                    }
                }
                out
            }
            fn with<'s>(&'s mut self, view: usize, f: &mut dyn FnMut(Box<dyn It<'s> + 's>) -> Res) -> Res {
                match view {
                    0 => f(boxed_it!(self.map.iter(), |(k, v)| entry(k.idx(), v.p))),
                    1 => f(boxed_it!(self.map.keys(), |k| k.idx())),
                    2 => f(boxed_it!(self.map.values(), |v| v.p)),
                    3 => f(boxed_it!(self.map.iter_mut(), |(k, v)| {
                        let r = entry(k.idx(), v.p);
                        mark(v);
                        r
                    })),
                    4 => f(boxed_it!(self.map.values_mut(), |v| {
                        let r = v.p;
                        mark(v);
                        r
                    })),
                    5 => f(boxed_it!(std::mem::take(&mut self.map).into_iter(), |(k, v)| entry(k.idx(), v.p))),
                    6 => f(boxed_it!(self.set.iter(), |k| k.idx())),
                    7 => f(boxed_it!(std::mem::take(&mut self.set).into_iter(), |k| k.idx())),
                    8 => f(boxed_it!((&self.map).into_iter(), |(k, v)| entry(k.idx(), v.p))),
                    9 => f(boxed_it!((&mut self.map).into_iter(), |(k, v)| {
                        let r = entry(k.idx(), v.p);
                        mark(v);
                        r
                    })),
                    10 => f(boxed_it!((&self.set).into_iter(), |k| k.idx())),
                    _ => f(boxed_it!(self.set.intersection(&self.set), |k| k.idx())),
                }
            }
            fn marked(&self) -> usize {
                <$t as TKey>::meta().pool.iter().filter(|k| self.map.get(**k).is_some_and(|v| v.p & MARK != 0)).count()
            }
        }
    };
}
for_each_key!(host);

fn run(mut h: Box<dyn Host>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let x = case.x;
    let mut keys = case.focused(info.len);
    match x % 8 {
        0 => keys = (0..info.len as u32).collect(),
        1 => keys = (0..info.len as u32).filter(|i| fmcheck::gen::Rng(u64::from(x) << 32 | u64::from(*i)).next() % 2 == 0).collect(),
        2 => keys = (0..info.len as u32).filter(|i| fmcheck::gen::Rng(u64::from(x) << 32 | u64::from(*i)).next() % 4 != 0).collect(),
        _ => {}
    }
    for k in &keys {
        h.insert(*k);
    }
    let view = (x / 8) as usize % VIEWS.len();
    obs.class(VIEWS[view]);
    obs.log(|| format!("{} over {{{}}}", VIEWS[view], keys.iter().take(30).map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", ")));
    let mut fwd = if info.dynamic { h.forward() } else { keys.clone() };
    if info.dynamic {
        let mut sorted = fwd.clone();
        sorted.sort_unstable();
        ensure!(sorted == keys, "iter yields {fwd:?}, expected {keys:?} in some order");
        if [6, 7, 10, 11].contains(&view) {
            // The order of a set is its own.
            fwd.clear();
            h.with(6, &mut |mut it| {
                while let Some(k) = it.next() {
                    fwd.push(k);
                    if fwd.len() > 2000 {
                        break;
                    }
                }
                Ok(())
            })?;
            let mut sorted = fwd.clone();
            sorted.sort_unstable();
            ensure!(sorted == keys, "set iter yields {fwd:?}, expected {keys:?} in some order");
        }
    }
    h.with(view, &mut |it| drive(it, &fwd, !info.dynamic, &info, case, obs)).map_err(|e| format!("{}: {e}", VIEWS[view]))?;
    if view == 3 || view == 4 || view == 9 {
        // Every item was a different value (nth and others may not reveal
        // all of them to the encoder).
        let m = h.marked();
        ensure!(m <= keys.len(), "{m} values were written through a view of {} entries", keys.len());
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C05", "contents and sequences of next, next_back, nth, nth_back, try_fold, find, position, take, clone and terminal traversals are generated by proptest and applied to one view of a map or set, comparing every result and size_hint with a deque; non-trivial: more than one entry and more than one iterator call");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(Box::new(H::<$t> { map: Map::new(), set: Set::new() }), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 20000;
    c.thorough = 400_000;
    c.max_ops = 30;
    c.max_focus = 20;
    fmcheck::run::main(c)
}
