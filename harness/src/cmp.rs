//! Maps and sets to be compared: three collections with different histories
//! which often have the same contents.
use std::any::Any;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::hash::Hasher;

use crate::case::{Case, Op, Table};
use crate::gen::Rng;
use crate::obj::*;
use crate::run::{Obs, Res};
use crate::world::Part;

/// Value types of the compared maps; sets use ().
pub trait Scalar: Copy + 'static {
    fn make(p: u32) -> Self;
    fn back(self) -> u32;
    fn eq(a: u32, b: u32) -> bool {
        a == b
    }
    fn part(a: u32, b: u32) -> Option<Ordering> {
        Some(a.cmp(&b))
    }
}

impl Scalar for u32 {
    fn make(p: u32) -> u32 {
        p
    }
    fn back(self) -> u32 {
        self
    }
}

impl Scalar for () {
    fn make(_: u32) {}
    fn back(self) -> u32 {
        0
    }
}

const FLOATS: [f64; 8] = [1.0, 0.0, -0.0, 2.0, f64::NAN, f64::INFINITY, -1.0, 1.5];

impl Scalar for f64 {
    fn make(p: u32) -> f64 {
        FLOATS[(p % 8) as usize]
    }
    fn back(self) -> u32 {
        FLOATS.iter().position(|f| f.to_bits() == self.to_bits()).map_or(u32::MAX, |i| i as u32)
    }
    #[allow(clippy::float_cmp)]
    fn eq(a: u32, b: u32) -> bool {
        Self::make(a) == Self::make(b)
    }
    fn part(a: u32, b: u32) -> Option<Ordering> {
        Self::make(a).partial_cmp(&Self::make(b))
    }
}

#[derive(Clone, Copy)]
pub struct Scale {
    pub norm: fn(u32) -> u32,
    pub eq: fn(u32, u32) -> bool,
    pub part: fn(u32, u32) -> Option<Ordering>,
}

pub fn scale<V: Scalar>() -> Scale {
    Scale { norm: |p| V::make(p).back(), eq: V::eq, part: V::part }
}

pub type Model = BTreeMap<u32, u32>;

pub trait Coll {
    fn any(&self) -> &dyn Any;
    fn into_any(self: Box<Self>) -> Box<dyn Any>;
    /// 0: new, 1: default, 2: the default of the type.
    fn fresh(&self, how: u32) -> Box<dyn Coll>;
    fn put(&mut self, k: KI, v: u32);
    fn del(&mut self, k: KI);
    fn clear(&mut self);
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn len(&self) -> usize;
    fn is_empty(&self) -> bool;
    fn contents(&self) -> Vec<(u32, u32)>;
    fn dup(&self) -> Box<dyn Coll>;
    fn dup_from(&mut self, o: &dyn Coll);
    fn copied(&self) -> Option<Box<dyn Coll>>;
    fn eq(&self, o: &dyn Coll) -> (bool, bool);
    fn part(&self, o: &dyn Coll) -> Option<Part>;
    fn cmp(&self, o: &dyn Coll) -> Option<Ordering>;
    fn extreme(&self, what: u32, o: &dyn Coll, p: &dyn Coll) -> Option<Box<dyn Coll>>;
    fn hash(&self, h: &mut dyn Hasher) -> bool;
}

pub trait YesCopy<T> {
    fn copy_opt(&self) -> Option<T>;
}
impl<T: Copy> YesCopy<T> for crate::world::Probe<'_, T> {
    fn copy_opt(&self) -> Option<T> {
        Some(*self.0)
    }
}
pub trait NoCopy<T> {
    fn copy_opt(&self) -> Option<T>;
}
impl<T> NoCopy<T> for &crate::world::Probe<'_, T> {
    fn copy_opt(&self) -> Option<T> {
        None
    }
}

#[macro_export]
macro_rules! coll {
    ($ty:ty, $k:ty, |$s:ident, $key:ident, $v:ident| $put:expr, |$rs:ident, $f:ident| $retain:expr, |$cs:ident| $contents:expr) => {
        impl $crate::cmp::Coll for C<$ty> {
            fn any(&self) -> &dyn std::any::Any {
                self
            }
            fn into_any(self: Box<Self>) -> Box<dyn std::any::Any> {
                self
            }
            fn fresh(&self, how: u32) -> Box<dyn $crate::cmp::Coll> {
                Box::new(C(match how % 3 {
                    0 => <$ty>::new(),
                    1 => <$ty as Default>::default(),
                    _ => {
                        let mut c = self.0.clone();
                        std::mem::take(&mut c);
                        c
                    }
                }))
            }
            fn put(&mut self, k: $crate::obj::KI, $v: u32) {
                let ($s, $key) = (&mut self.0, k.get::<$k>());
                $put;
            }
            fn del(&mut self, k: $crate::obj::KI) {
                self.0.remove(k.get::<$k>());
            }
            fn clear(&mut self) {
                self.0.clear()
            }
            fn retain(&mut self, $f: &mut dyn FnMut(u32) -> bool) {
                let $rs = &mut self.0;
                $retain;
            }
            fn len(&self) -> usize {
                self.0.len()
            }
            fn is_empty(&self) -> bool {
                self.0.is_empty()
            }
            fn contents(&self) -> Vec<(u32, u32)> {
                let $cs = &self.0;
                let mut c: Vec<(u32, u32)> = $contents;
                c.sort_unstable();
                c
            }
            fn dup(&self) -> Box<dyn $crate::cmp::Coll> {
                Box::new(C(self.0.clone()))
            }
            fn dup_from(&mut self, o: &dyn $crate::cmp::Coll) {
                self.0.clone_from(&o.any().downcast_ref::<Self>().unwrap().0)
            }
            fn copied(&self) -> Option<Box<dyn $crate::cmp::Coll>> {
                #[allow(unused_imports)]
                use $crate::cmp::{NoCopy, YesCopy};
                (&$crate::world::Probe(&self.0)).copy_opt().map(|c| -> Box<dyn $crate::cmp::Coll> { Box::new(C(c)) })
            }
            fn eq(&self, o: &dyn $crate::cmp::Coll) -> (bool, bool) {
                let o = &o.any().downcast_ref::<Self>().unwrap().0;
                (self.0 == *o, self.0 != *o)
            }
            fn part(&self, o: &dyn $crate::cmp::Coll) -> Option<$crate::world::Part> {
                #[allow(unused_imports)]
                use $crate::world::{NoPart, YesPart};
                (&$crate::world::Probe(&self.0)).part_opt(&o.any().downcast_ref::<Self>().unwrap().0)
            }
            fn cmp(&self, o: &dyn $crate::cmp::Coll) -> Option<std::cmp::Ordering> {
                #[allow(unused_imports)]
                use $crate::world::{NoOrd, YesOrd};
                (&$crate::world::Probe(&self.0)).cmp_opt(&o.any().downcast_ref::<Self>().unwrap().0)
            }
            fn extreme(&self, what: u32, o: &dyn $crate::cmp::Coll, p: &dyn $crate::cmp::Coll) -> Option<Box<dyn $crate::cmp::Coll>> {
                #[allow(unused_imports)]
                use $crate::world::{NoOrd, YesOrd};
                let (min, max, clamp) = (&$crate::world::Probe(&self.0)).minmax()?;
                let o = &o.any().downcast_ref::<Self>().unwrap().0;
                let p = &p.any().downcast_ref::<Self>().unwrap().0;
                Some(Box::new(C(match what {
                    0 => min(self.0.clone(), o.clone()),
                    1 => max(self.0.clone(), o.clone()),
                    _ => clamp(self.0.clone(), o.clone(), p.clone()),
                })))
            }
            fn hash(&self, h: &mut dyn std::hash::Hasher) -> bool {
                #[allow(unused_imports)]
                use $crate::world::{NoHash, YesHash};
                (&$crate::world::Probe(&self.0)).hash_opt(h)
            }
        }
    };
}

/// Defines the wrapper and its instances for all keys: maps of the given value
/// types, and sets.
#[macro_export]
macro_rules! colls {
    ($($v:ty),*) => {
        pub struct C<T>(pub T);
        macro_rules! each {
            ($id:ident $t:ty) => {
                $($crate::coll!(fixed_map::Map<$t, $v>, $t,
                    |s, k, v| s.insert(k, <$v as $crate::cmp::Scalar>::make(v)),
                    |s, f| s.retain(|k, _| f($crate::keys::TKey::idx(k))),
                    |s| s.iter().map(|(k, v)| ($crate::keys::TKey::idx(k), $crate::cmp::Scalar::back(*v))).collect()
                );)*
                $crate::coll!(fixed_map::Set<$t>, $t,
                    |s, k, _v| s.insert(k),
                    |s, f| s.retain(|k| f($crate::keys::TKey::idx(k))),
                    |s| s.iter().map(|k| ($crate::keys::TKey::idx(k), 0)).collect()
                );
            };
        }
        $crate::for_each_key!(each);
    };
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Put,
    Del,
    Clear,
    Fill,
    Retain,
    Converge,
    Near,
    Clone,
    CloneFrom,
    Copy,
    Fresh,
    Switch,
}

const OPS: Table<Do> = Table(&[
    (Do::Put, 66),
    (Do::Del, 28),
    (Do::Clear, 3),
    (Do::Fill, 8),
    (Do::Retain, 6),
    (Do::Converge, 34),
    (Do::Near, 34),
    (Do::Clone, 8),
    (Do::CloneFrom, 6),
    (Do::Copy, 8),
    (Do::Fresh, 3),
    (Do::Switch, 40),
]);

/// What is in the world of the generated cases.
pub struct Colls {
    pub c: Vec<Box<dyn Coll>>,
    pub m: Vec<Model>,
}

/// Make collection i have the contents of collection j by its own means.
fn converge(w: &mut Colls, i: usize, j: usize, rng: &mut Rng) {
    let want: Vec<(u32, u32)> = w.m[j].iter().map(|(a, b)| (*a, *b)).collect();
    let mut steps: Vec<(u32, Option<u32>)> = want.iter().map(|(k, v)| (*k, Some(*v))).collect();
    steps.extend(w.m[i].keys().filter(|k| !w.m[j].contains_key(k)).map(|k| (*k, None)));
    for n in (1..steps.len()).rev() {
        steps.swap(n, rng.below(n as u64 + 1) as usize);
    }
    for (k, v) in steps {
        let ki = KI(k, rng.below(2) == 0);
        match v {
            Some(v) => {
                if rng.below(4) == 0 {
                    w.c[i].put(ki, v + 1);
                }
                if rng.below(6) == 0 {
                    w.c[i].del(ki);
                }
                w.c[i].put(ki, v);
                w.m[i].insert(k, v);
            }
            None => {
                w.c[i].del(ki);
                w.m[i].remove(&k);
            }
        }
    }
}

/// Run a case over three collections; the check looks at them after every
/// step which made some of them equal or almost equal, and finally.
pub fn drive(new: &dyn Fn() -> Box<dyn Coll>, scale: Scale, info: &Info, case: &Case, obs: &mut Obs, check: &mut dyn FnMut(&Colls, &mut Obs) -> Res) -> Res {
    let mut w = Colls { c: vec![new(), new(), new()], m: vec![Model::new(); 3] };
    let mut at = 0;
    for (step, op) in case.ops.iter().enumerate() {
        let look = apply(&mut w, &mut at, scale, info, case, *op, obs)?;
        if look {
            check(&w, obs).map_err(|e| format!("step {step}: {e}"))?;
        }
    }
    for i in 0..3 {
        let (got, want) = (w.c[i].contents(), w.m[i].iter().map(|(a, b)| (*a, *b)).collect::<Vec<_>>());
        if got != want || w.c[i].len() != want.len() || w.c[i].is_empty() != want.is_empty() {
            return Err(format!("collection {i} contains {got:?}, expected {want:?}; len is {}, is_empty is {}", w.c[i].len(), w.c[i].is_empty()));
        }
    }
    check(&w, obs).map_err(|e| format!("finally: {e}"))
}

fn apply(w: &mut Colls, at: &mut usize, scale: Scale, info: &Info, case: &Case, op: Op, obs: &mut Obs) -> Result<bool, String> {
    let d = OPS.get(op.k);
    let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & 0x8000 != 0));
    let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
    // Small values, so that equal ones are frequent.
    let v = (scale.norm)(if op.a % 7 < 3 { 0 } else { op.a % 8 });
    let mut rng = Rng(u64::from(op.a) << 16 | u64::from(op.key));
    let i = *at;
    let j = (i + 1 + (op.a & 1) as usize) % 3;
    match (d, key) {
        (Do::Put, Some(k)) => {
            obs.log(|| format!("#{i}.insert({}, {v})", name()));
            w.c[i].put(k, v);
            w.m[i].insert(k.0, v);
        }
        (Do::Del, Some(k)) => {
            obs.log(|| format!("#{i}.remove({})", name()));
            w.c[i].del(k);
            w.m[i].remove(&k.0);
        }
        (Do::Clear, _) => {
            obs.log(|| format!("#{i}.clear()"));
            w.c[i].clear();
            w.m[i].clear();
        }
        (Do::Fill, _) => {
            let stride = (op.a % 4 + 1) as usize;
            obs.log(|| format!("#{i}: insert every {stride}th key"));
            for k in (op.key as usize % stride..info.len.min(60)).step_by(stride) {
                w.c[i].put(KI(k as u32, true), v);
                w.m[i].insert(k as u32, v);
            }
        }
        (Do::Retain, _) => {
            obs.log(|| format!("#{i}.retain(some)"));
            let keep = |k: u32| Rng(u64::from(op.a) << 32 | u64::from(k)).next() % 3 != 0;
            w.c[i].retain(&mut |k| keep(k));
            w.m[i].retain(|k, _| keep(*k));
        }
        (Do::Converge, _) => {
            obs.log(|| format!("#{j}: remove and insert until it equals #{i}"));
            converge(w, j, i, &mut rng);
            return Ok(true);
        }
        (Do::Near, Some(k)) => {
            // Equal but for one entry.
            obs.log(|| format!("#{j}: make it equal to #{i} except at {}", name()));
            converge(w, j, i, &mut rng);
            if w.m[j].contains_key(&k.0) && op.a % 3 == 0 {
                w.c[j].del(k);
                w.m[j].remove(&k.0);
            } else {
                w.c[j].put(k, v);
                w.m[j].insert(k.0, v);
            }
            return Ok(true);
        }
        (Do::Clone, _) => {
            obs.log(|| format!("#{j} = #{i}.clone()"));
            w.c[j] = w.c[i].dup();
            w.m[j] = w.m[i].clone();
            return Ok(true);
        }
        (Do::CloneFrom, _) => {
            obs.log(|| format!("#{j}.clone_from(&#{i})"));
            let from = w.c[i].dup();
            w.c[j].dup_from(&*from);
            w.m[j] = w.m[i].clone();
            return Ok(true);
        }
        (Do::Copy, _) => {
            if let Some(c) = w.c[i].copied() {
                obs.log(|| format!("#{j} = #{i} (copied)"));
                obs.class("copy");
                w.c[j] = c;
                w.m[j] = w.m[i].clone();
            }
        }
        (Do::Fresh, _) => {
            obs.log(|| format!("#{i} = {}", ["new()", "default()", "default()"][(op.a % 3) as usize]));
            w.c[i] = w.c[i].fresh(op.a);
            w.m[i].clear();
            return Ok(true);
        }
        (Do::Switch, _) => {
            *at = (op.a % 3) as usize;
        }
        _ => {}
    }
    Ok(false)
}

pub fn model_eq(a: &Model, b: &Model, s: Scale) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|((k, v), (l, w))| k == l && (s.eq)(*v, *w))
}

/// Lexicographic comparison of the entries.
pub fn model_part(a: &Model, b: &Model, s: Scale) -> Option<Ordering> {
    let (mut x, mut y) = (a.iter(), b.iter());
    loop {
        match (x.next(), y.next()) {
            (None, None) => return Some(Ordering::Equal),
            (None, Some(_)) => return Some(Ordering::Less),
            (Some(_), None) => return Some(Ordering::Greater),
            (Some((k, v)), Some((l, w))) => {
                if k != l {
                    return Some(k.cmp(l));
                }
                match (s.part)(*v, *w) {
                    Some(Ordering::Equal) => {}
                    o => return o,
                }
            }
        }
    }
}

pub fn show(m: &Model, info: &Info) -> String {
    format!("{{{}}}", m.iter().take(30).map(|(k, v)| format!("{}: {v}", (info.show)(*k))).collect::<Vec<_>>().join(", "))
}
