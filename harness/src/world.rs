//! Maps with every operation which touches values, behind key indexes.
use std::any::Any;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};

use crate::ents::{Log, Plan};
use crate::it::It;
use crate::obj::*;
use crate::val::Val;

pub trait World: BasicMap {
    fn any(&self) -> &dyn Any;
    fn create(&self) -> Box<dyn World>;
    fn entry(&mut self, k: KI, plan: Plan, log: &mut Log);
    fn retain(&mut self, f: &mut dyn FnMut(u32, &mut Val) -> bool);
    fn visit(&self, f: &mut dyn FnMut(u32, &Val));
    fn iter_mut(&mut self, f: &mut dyn FnMut(u32, &mut Val));
    fn values_mut(&mut self, f: &mut dyn FnMut(&mut Val));
    /// Items are dropped as they are yielded.
    fn into_it(&mut self) -> Box<dyn It<'static>>;
    /// The consumer of a fold which takes the values.
    fn into_fold(&mut self, f: &mut dyn FnMut(u32, Val));
    fn dup(&self) -> Box<dyn World>;
    fn dup_from(&mut self, o: &dyn World);
    fn take(&mut self) -> Box<dyn World>;
    fn collect(&self, it: &mut dyn Iterator<Item = (KI, Val)>) -> Box<dyn World>;
    fn same(&self, o: &dyn World) -> bool;
    fn debug(&self, alternate: bool) -> String;
    fn hash(&self, h: &mut dyn Hasher) -> bool;
    fn partial_cmp(&self, o: &dyn World) -> Option<Option<Ordering>>;
}

pub struct Probe<'a, T>(pub &'a T);

pub trait YesHash {
    fn hash_opt(&self, h: &mut dyn Hasher) -> bool;
}
impl<T: Hash> YesHash for Probe<'_, T> {
    fn hash_opt(&self, mut h: &mut dyn Hasher) -> bool {
        self.0.hash(&mut h);
        true
    }
}
pub trait NoHash {
    fn hash_opt(&self, h: &mut dyn Hasher) -> bool;
}
impl<T> NoHash for &Probe<'_, T> {
    fn hash_opt(&self, _: &mut dyn Hasher) -> bool {
        false
    }
}

/// All comparisons: partial_cmp, lt, le, gt, ge.
pub type Part = (Option<Ordering>, [bool; 4]);
pub trait YesPart<T> {
    fn part_opt(&self, o: &T) -> Option<Part>;
}
impl<T: PartialOrd> YesPart<T> for Probe<'_, T> {
    fn part_opt(&self, o: &T) -> Option<Part> {
        let a = self.0;
        Some((a.partial_cmp(o), [a < o, a <= o, a > o, a >= o]))
    }
}
pub trait NoPart<T> {
    fn part_opt(&self, o: &T) -> Option<Part>;
}
impl<T> NoPart<T> for &Probe<'_, T> {
    fn part_opt(&self, _: &T) -> Option<Part> {
        None
    }
}

pub trait YesOrd<T> {
    fn cmp_opt(&self, o: &T) -> Option<Ordering>;
    fn minmax(&self) -> Option<(fn(T, T) -> T, fn(T, T) -> T, fn(T, T, T) -> T)>;
}
impl<T: Ord> YesOrd<T> for Probe<'_, T> {
    fn cmp_opt(&self, o: &T) -> Option<Ordering> {
        Some(self.0.cmp(o))
    }
    fn minmax(&self) -> Option<(fn(T, T) -> T, fn(T, T) -> T, fn(T, T, T) -> T)> {
        Some((|a, b| a.min(b), |a, b| a.max(b), |a, b, c| a.clamp(b, c)))
    }
}
pub trait NoOrd<T> {
    fn cmp_opt(&self, o: &T) -> Option<Ordering>;
    fn minmax(&self) -> Option<(fn(T, T) -> T, fn(T, T) -> T, fn(T, T, T) -> T)>;
}
impl<T> NoOrd<T> for &Probe<'_, T> {
    fn cmp_opt(&self, _: &T) -> Option<Ordering> {
        None
    }
    fn minmax(&self) -> Option<(fn(T, T) -> T, fn(T, T) -> T, fn(T, T, T) -> T)> {
        None
    }
}

#[macro_export]
macro_rules! world {
    ($id:ident $t:ty) => {
        impl $crate::world::World for W<$t> {
            fn any(&self) -> &dyn std::any::Any {
                self
            }
            fn create(&self) -> Box<dyn $crate::world::World> {
                Box::new(W(fixed_map::Map::<$t, $crate::val::Val>::new()))
            }
            fn entry(&mut self, k: $crate::obj::KI, plan: $crate::ents::Plan, log: &mut $crate::ents::Log) {
                $crate::ents::drive(&mut self.0, k, plan, log)
            }
            fn retain(&mut self, f: &mut dyn FnMut(u32, &mut $crate::val::Val) -> bool) {
                self.0.retain(|k, v| f($crate::keys::TKey::idx(k), v))
            }
            fn visit(&self, f: &mut dyn FnMut(u32, &$crate::val::Val)) {
                self.0.iter().for_each(|(k, v)| f($crate::keys::TKey::idx(k), v))
            }
            fn iter_mut(&mut self, f: &mut dyn FnMut(u32, &mut $crate::val::Val)) {
                self.0.iter_mut().for_each(|(k, v)| f($crate::keys::TKey::idx(k), v))
            }
            fn values_mut(&mut self, f: &mut dyn FnMut(&mut $crate::val::Val)) {
                self.0.values_mut().for_each(f)
            }
            fn into_it(&mut self) -> Box<dyn $crate::it::It<'static>> {
                $crate::boxed_it!(std::mem::take(&mut self.0).into_iter(), |(k, v)| {
                    v.check();
                    $crate::keys::TKey::idx(k)
                })
            }
            fn into_fold(&mut self, f: &mut dyn FnMut(u32, $crate::val::Val)) {
                std::mem::take(&mut self.0).into_iter().fold((), |(), (k, v)| f($crate::keys::TKey::idx(k), v))
            }
            fn dup(&self) -> Box<dyn $crate::world::World> {
                Box::new(W(self.0.clone()))
            }
            fn dup_from(&mut self, o: &dyn $crate::world::World) {
                self.0.clone_from(&o.any().downcast_ref::<Self>().unwrap().0)
            }
            fn take(&mut self) -> Box<dyn $crate::world::World> {
                Box::new(W(std::mem::take(&mut self.0)))
            }
            fn collect(&self, it: &mut dyn Iterator<Item = ($crate::obj::KI, $crate::val::Val)>) -> Box<dyn $crate::world::World> {
                Box::new(W(it.map(|(k, v)| (k.get::<$t>(), v)).collect::<fixed_map::Map<$t, $crate::val::Val>>()))
            }
            fn same(&self, o: &dyn $crate::world::World) -> bool {
                self.0 == o.any().downcast_ref::<Self>().unwrap().0
            }
            fn debug(&self, alternate: bool) -> String {
                if alternate {
                    format!("{:#?}", self.0)
                } else {
                    format!("{:?}", self.0)
                }
            }
            fn hash(&self, h: &mut dyn std::hash::Hasher) -> bool {
                #[allow(unused_imports)]
                use $crate::world::{NoHash, YesHash};
                (&$crate::world::Probe(&self.0)).hash_opt(h)
            }
            fn partial_cmp(&self, o: &dyn $crate::world::World) -> Option<Option<std::cmp::Ordering>> {
                #[allow(unused_imports)]
                use $crate::world::{NoPart, YesPart};
                (&$crate::world::Probe(&self.0)).part_opt(&o.any().downcast_ref::<Self>().unwrap().0).map(|p| p.0)
            }
        }
    };
}

#[macro_export]
macro_rules! worlds {
    () => {
        pub struct W<K: $crate::keys::TKey>(pub fixed_map::Map<K, $crate::val::Val>);
        $crate::has_map!(W);
        $crate::for_each_key!(world);
    };
}
