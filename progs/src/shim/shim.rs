// The interface of fixed-map over types of which only the signatures matter:
// which borrows they hold and what they implement. With `strict` they hold and
// require as much as fixed-map does; without, as little as would be sound.
#![allow(warnings)]
use std::cmp::Ordering;
use std::fmt;
use std::hash::{Hash, Hasher};
use std::marker::PhantomData;

type Ph<T> = PhantomData<fn() -> T>;

pub trait Key: Copy {
    type M<V>;
    type S;
    /// What iterators and entries hold: invariant, and nothing is known of it
    /// where the key is not known.
    type B<'a, V>;
}
pub struct Inv<'a, V>(PhantomData<(fn(&'a ()) -> &'a (), fn(V) -> V)>);
impl<'a, V> Clone for Inv<'a, V> { fn clone(&self) -> Self { loop {} } }
impl<'a, V> Drop for Inv<'a, V> { fn drop(&mut self) {} }

#[derive(Clone, Copy, PartialEq, Eq)]
pub struct FixM<V>(Option<V>);
#[derive(Clone, PartialEq, Eq)]
pub struct DynM<V>(Vec<V>, Dropping<V>);
#[derive(Clone, PartialEq, Eq)]
pub struct Dropping<V>(PhantomData<V>);
impl<V> Drop for Dropping<V> { fn drop(&mut self) {} }
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct FixS;
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct UnitM<V>(Option<V>);
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct UnitS;
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct OptM<M>(M);
#[derive(Clone, PartialEq, Eq)]
pub struct DynS(Vec<u8>);

#[macro_export]
macro_rules! keys {
    ($($kind:ident $t:ty),* $(,)?) => { $($crate::keys! { @ $kind $t })* };
    (@ fixed $t:ty) => { impl $crate::Key for $t { type M<V> = $crate::FixM<V>; type S = $crate::FixS; type B<'a, V> = $crate::Inv<'a, V>; } };
    (@ unit $t:ty) => { impl $crate::Key for $t { type M<V> = $crate::UnitM<V>; type S = $crate::UnitS; type B<'a, V> = $crate::Inv<'a, V>; } };
    (@ dynamic $t:ty) => { impl $crate::Key for $t { type M<V> = $crate::DynM<V>; type S = $crate::DynS; type B<'a, V> = $crate::Inv<'a, V>; } };
}

keys! { fixed bool, fixed (), dynamic u32, dynamic &'static str }
impl<K: Key> Key for Option<K> {
    type M<V> = OptM<K::M<V>>;
    type S = OptM<K::S>;
    type B<'a, V> = K::B<'a, V>;
}

#[cfg(strict)]
pub struct Map<K: Key, V>(K::M<V>);
#[cfg(not(strict))]
pub struct Map<K, V>(Ph<K>, Option<V>);
#[cfg(strict)]
pub struct Set<K: Key>(K::S);
#[cfg(not(strict))]
pub struct Set<K>(Ph<K>);

#[cfg(strict)]
mod caps {
    use super::*;
    impl<K: Key, V> Clone for Map<K, V> where K::M<V>: Clone { fn clone(&self) -> Self { loop {} } }
    impl<K: Key, V> Copy for Map<K, V> where K::M<V>: Copy {}
    impl<K: Key, V> PartialEq for Map<K, V> where K::M<V>: PartialEq { fn eq(&self, _: &Self) -> bool { loop {} } }
    impl<K: Key, V> Eq for Map<K, V> where K::M<V>: Eq {}
    impl<K: Key + fmt::Debug, V: fmt::Debug> fmt::Debug for Map<K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
    impl<K: Key> Clone for Set<K> where K::S: Clone { fn clone(&self) -> Self { loop {} } }
    impl<K: Key> Copy for Set<K> where K::S: Copy {}
    impl<K: Key> PartialEq for Set<K> where K::S: PartialEq { fn eq(&self, _: &Self) -> bool { loop {} } }
    impl<K: Key> Eq for Set<K> where K::S: Eq {}
    impl<K: Key, V> PartialOrd for Map<K, V> where K::M<V>: PartialOrd { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { loop {} } }
    impl<K: Key, V> Ord for Map<K, V> where K::M<V>: Ord { fn cmp(&self, _: &Self) -> Ordering { loop {} } }
    impl<K: Key, V> Hash for Map<K, V> where K::M<V>: Hash { fn hash<H: Hasher>(&self, _: &mut H) { loop {} } }
    impl<K: Key> PartialOrd for Set<K> where K::S: PartialOrd { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { loop {} } }
    impl<K: Key> Ord for Set<K> where K::S: Ord { fn cmp(&self, _: &Self) -> Ordering { loop {} } }
    impl<K: Key> Hash for Set<K> where K::S: Hash { fn hash<H: Hasher>(&self, _: &mut H) { loop {} } }
    impl<K: Key + fmt::Debug> fmt::Debug for Set<K> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
}
#[cfg(not(strict))]
mod caps {
    use super::*;
    impl<K: Key, V: Clone> Clone for Map<K, V> { fn clone(&self) -> Self { loop {} } }
    impl<K: Key, V: Copy> Copy for Map<K, V> {}
    impl<K: Key, V: PartialEq> PartialEq for Map<K, V> { fn eq(&self, _: &Self) -> bool { loop {} } }
    impl<K: Key, V: Eq> Eq for Map<K, V> {}
    impl<K: Key, V: fmt::Debug> fmt::Debug for Map<K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
    impl<K: Key> Clone for Set<K> { fn clone(&self) -> Self { loop {} } }
    impl<K: Key> Copy for Set<K> {}
    impl<K: Key> PartialEq for Set<K> { fn eq(&self, _: &Self) -> bool { loop {} } }
    impl<K: Key> Eq for Set<K> {}
    impl<K: Key, V: PartialOrd> PartialOrd for Map<K, V> { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { loop {} } }
    impl<K: Key, V: Ord> Ord for Map<K, V> { fn cmp(&self, _: &Self) -> Ordering { loop {} } }
    impl<K: Key, V: Hash> Hash for Map<K, V> { fn hash<H: Hasher>(&self, _: &mut H) { loop {} } }
    impl<K: Key> PartialOrd for Set<K> { fn partial_cmp(&self, _: &Self) -> Option<Ordering> { loop {} } }
    impl<K: Key> Ord for Set<K> { fn cmp(&self, _: &Self) -> Ordering { loop {} } }
    impl<K: Key> Hash for Set<K> { fn hash<H: Hasher>(&self, _: &mut H) { loop {} } }
    impl<K: Key> fmt::Debug for Set<K> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
}
impl<K: Key, V> Default for Map<K, V> { fn default() -> Self { loop {} } }
impl<K: Key> Default for Set<K> { fn default() -> Self { loop {} } }

macro_rules! iterators {
    ($($n:ident [$($g:tt)*] $([$($b:tt)*])? = $item:ty;)*) => {$(
        impl<$($g)*> Iterator for $n<$($g)*> $(where $($b)*)? { type Item = $item; fn next(&mut self) -> Option<$item> { loop {} } }
    )*};
}

pub mod map {
    use super::*;
    #[cfg(strict)]
    mod types {
        use super::*;
        pub struct Iter<'a, K: Key, V>(pub &'a K::M<V>, pub K::B<'a, V>);
        pub struct Keys<'a, K: Key, V>(pub &'a K::M<V>, pub K::B<'a, V>);
        pub struct Values<'a, K: Key, V>(pub &'a K::M<V>, pub K::B<'a, V>);
        pub struct IterMut<'a, K: Key, V>(pub &'a mut K::M<V>, pub K::B<'a, V>);
        pub struct ValuesMut<'a, K: Key, V>(pub &'a mut K::M<V>, pub K::B<'a, V>);
        pub struct IntoIter<K: Key, V>(pub K::M<V>, pub K::B<'static, V>);
        pub struct Occupied<'a, K: Key, V>(pub &'a mut K::M<V>, pub K::B<'a, V>);
        pub struct Vacant<'a, K: Key, V>(pub &'a mut K::M<V>, pub K::B<'a, V>);
        impl<'a, K: Key, V> Clone for Iter<'a, K, V> where K::B<'a, V>: Clone { fn clone(&self) -> Self { loop {} } }
        impl<'a, K: Key, V> Clone for Keys<'a, K, V> where K::B<'a, V>: Clone { fn clone(&self) -> Self { loop {} } }
        impl<'a, K: Key, V> Clone for Values<'a, K, V> where K::B<'a, V>: Clone { fn clone(&self) -> Self { loop {} } }
    }
    #[cfg(not(strict))]
    mod types {
        use super::*;
        pub struct Iter<'a, K, V>(pub PhantomData<&'a V>, pub Ph<K>);
        pub trait KeysOf<V> {
            type T<'a>;
        }
        impl<K: Key, V> KeysOf<V> for K {
            type T<'a> = set::IntoIter<K>;
        }
        pub type Keys<'a, K, V> = <K as KeysOf<V>>::T<'a>;
        pub struct Values<'a, K, V>(pub PhantomData<&'a V>, pub Ph<K>);
        pub struct IterMut<'a, K, V>(pub PhantomData<&'a mut V>, pub Ph<K>);
        pub struct ValuesMut<'a, K, V>(pub PhantomData<&'a mut V>, pub Ph<K>);
        pub struct IntoIter<K, V>(pub Option<V>, pub Ph<K>);
        pub struct Occupied<'a, K, V>(pub PhantomData<&'a mut V>, pub Ph<K>);
        pub struct Vacant<'a, K, V>(pub PhantomData<&'a mut V>, pub Ph<K>);
        impl<'a, K: Key, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { loop {} } }
        impl<'a, K: Key, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { loop {} } }
        impl<'a, K, V> fmt::Debug for Occupied<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<'a, K, V> fmt::Debug for Vacant<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<'a, K: Key, V> fmt::Debug for super::Entry<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<K: Key, V: Clone> Clone for IntoIter<K, V> { fn clone(&self) -> Self { loop {} } }
        impl<'a, K: Key, V> Copy for Iter<'a, K, V> {}
        impl<'a, K: Key, V> Copy for Values<'a, K, V> {}
        impl<'a, K: Key, V: fmt::Debug> fmt::Debug for Iter<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<'a, K: Key, V: fmt::Debug> fmt::Debug for IterMut<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<'a, K: Key, V: fmt::Debug> fmt::Debug for Values<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<'a, K: Key, V: fmt::Debug> fmt::Debug for ValuesMut<'a, K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
        impl<K: Key, V: fmt::Debug> fmt::Debug for IntoIter<K, V> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
    }
    pub use types::*;

    pub enum Entry<'a, K: Key, V> {
        Occupied(Occupied<'a, K, V>),
        Vacant(Vacant<'a, K, V>),
    }
    impl<'a, K: Key, V> Entry<'a, K, V> {
        pub fn or_insert(self, _: V) -> &'a mut V { loop {} }
        pub fn or_insert_with<F: FnOnce() -> V>(self, _: F) -> &'a mut V { loop {} }
        pub fn or_insert_with_key<F: FnOnce(K) -> V>(self, _: F) -> &'a mut V { loop {} }
        pub fn key(&self) -> K { loop {} }
        pub fn and_modify<F: FnOnce(&mut V)>(self, _: F) -> Self { loop {} }
        pub fn or_default(self) -> &'a mut V where V: Default { loop {} }
    }
    pub trait OccupiedEntry<'a, K, V> {
        fn key(&self) -> K;
        fn get(&self) -> &V;
        fn get_mut(&mut self) -> &mut V;
        fn into_mut(self) -> &'a mut V;
        fn insert(&mut self, value: V) -> V;
        fn remove(self) -> V;
    }
    pub trait VacantEntry<'a, K, V> {
        fn key(&self) -> K;
        fn insert(self, value: V) -> &'a mut V;
    }
    impl<'a, K: Key, V> OccupiedEntry<'a, K, V> for Occupied<'a, K, V> {
        fn key(&self) -> K { loop {} }
        fn get(&self) -> &V { loop {} }
        fn get_mut(&mut self) -> &mut V { loop {} }
        fn into_mut(self) -> &'a mut V { loop {} }
        fn insert(&mut self, value: V) -> V { loop {} }
        fn remove(self) -> V { loop {} }
    }
    impl<'a, K: Key, V> VacantEntry<'a, K, V> for Vacant<'a, K, V> {
        fn key(&self) -> K { loop {} }
        fn insert(self, value: V) -> &'a mut V { loop {} }
    }
    iterators! {
        Iter['a, K, V][K: Key, V: 'a] = (K, &'a V);
        Values['a, K, V][K: Key, V: 'a] = &'a V;
        IterMut['a, K, V][K: Key, V: 'a] = (K, &'a mut V);
        ValuesMut['a, K, V][K: Key, V: 'a] = &'a mut V;
        IntoIter[K, V][K: Key] = (K, V);
    }
    #[cfg(strict)]
    iterators! {
        Keys['a, K, V][K: Key, V: 'a] = K;
    }
}

pub mod set {
    use super::{fmt, Key, Ph, PhantomData, Set};
    #[cfg(strict)]
    mod types {
        use super::{fmt, Key, Ph};
        pub struct Iter<'a, K: Key>(pub &'a K::S, pub K::B<'a, ()>);
        pub struct IntoIter<K: Key>(pub K::S, pub K::B<'static, ()>);
        pub struct Intersection<'a, K: Key>(pub &'a K::S, pub &'a K::S, pub K::B<'a, ()>);
    }
    #[cfg(not(strict))]
    mod types {
        use super::{fmt, Key, Ph};
        pub struct IntoIter<K>(pub Ph<K>);
        pub trait IterOf {
            type T<'a>;
        }
        impl<K: Key> IterOf for K {
            type T<'a> = IntoIter<K>;
        }
        pub type Iter<'a, K> = <K as IterOf>::T<'a>;
        pub type Intersection<'a, K> = <K as IterOf>::T<'a>;
        impl<K: Key> Clone for IntoIter<K> { fn clone(&self) -> Self { loop {} } }
        impl<K: Key> Copy for IntoIter<K> {}
        impl<K> fmt::Debug for IntoIter<K> { fn fmt(&self, _: &mut fmt::Formatter<'_>) -> fmt::Result { loop {} } }
    }
    pub use types::*;
    #[cfg(strict)]
    impl<'a, K: Key> Clone for Iter<'a, K> { fn clone(&self) -> Self { loop {} } }
    #[cfg(strict)]
    impl<'a, K: Key> Clone for Intersection<'a, K> where K::B<'a, ()>: Clone { fn clone(&self) -> Self { loop {} } }
    #[cfg(strict)]
    iterators! {
        Iter['a, K][K: Key] = K;
        Intersection['a, K][K: Key] = K;
    }
    iterators! {
        IntoIter[K][K: Key] = K;
    }
}

use map::{Entry, IntoIter, Iter, IterMut, Keys, Values, ValuesMut};
impl<K: Key, V> Map<K, V> {
    pub fn new() -> Self { loop {} }
    pub fn iter(&self) -> Iter<'_, K, V> { loop {} }
    #[cfg(strict)]
    pub fn keys(&self) -> Keys<'_, K, V> { loop {} }
    #[cfg(not(strict))]
    pub fn keys(&self) -> set::IntoIter<K> { loop {} }
    pub fn values(&self) -> Values<'_, K, V> { loop {} }
    pub fn iter_mut(&mut self) -> IterMut<'_, K, V> { loop {} }
    pub fn values_mut(&mut self) -> ValuesMut<'_, K, V> { loop {} }
    pub fn contains_key(&self, key: K) -> bool { loop {} }
    pub fn get(&self, key: K) -> Option<&V> { loop {} }
    pub fn get_mut(&mut self, key: K) -> Option<&mut V> { loop {} }
    pub fn insert(&mut self, key: K, value: V) -> Option<V> { loop {} }
    pub fn remove(&mut self, key: K) -> Option<V> { loop {} }
    pub fn retain<F: FnMut(K, &mut V) -> bool>(&mut self, f: F) { loop {} }
    pub fn clear(&mut self) { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn len(&self) -> usize { loop {} }
    pub fn entry(&mut self, key: K) -> Entry<'_, K, V> { loop {} }
}
impl<K: Key> Set<K> {
    pub fn new() -> Self { loop {} }
    #[cfg(strict)]
    pub fn iter(&self) -> set::Iter<'_, K> { loop {} }
    #[cfg(not(strict))]
    pub fn iter(&self) -> set::IntoIter<K> { loop {} }
    pub fn contains(&self, value: K) -> bool { loop {} }
    pub fn insert(&mut self, value: K) -> bool { loop {} }
    pub fn remove(&mut self, value: K) -> bool { loop {} }
    pub fn retain<F: FnMut(K) -> bool>(&mut self, f: F) { loop {} }
    pub fn clear(&mut self) { loop {} }
    pub fn is_empty(&self) -> bool { loop {} }
    pub fn len(&self) -> usize { loop {} }
    #[cfg(strict)]
    pub fn intersection<'a>(&'a self, other: &'a Set<K>) -> set::Intersection<'a, K> { loop {} }
    #[cfg(not(strict))]
    pub fn intersection(&self, other: &Set<K>) -> set::IntoIter<K> { loop {} }
}
impl<'a, K: Key, V> IntoIterator for &'a Map<K, V> { type Item = (K, &'a V); type IntoIter = Iter<'a, K, V>; fn into_iter(self) -> Iter<'a, K, V> { loop {} } }
impl<'a, K: Key, V> IntoIterator for &'a mut Map<K, V> { type Item = (K, &'a mut V); type IntoIter = IterMut<'a, K, V>; fn into_iter(self) -> IterMut<'a, K, V> { loop {} } }
impl<K: Key, V> IntoIterator for Map<K, V> { type Item = (K, V); type IntoIter = IntoIter<K, V>; fn into_iter(self) -> IntoIter<K, V> { loop {} } }
#[cfg(strict)]
impl<'a, K: Key> IntoIterator for &'a Set<K> { type Item = K; type IntoIter = set::Iter<'a, K>; fn into_iter(self) -> set::Iter<'a, K> { loop {} } }
#[cfg(not(strict))]
impl<'a, K: Key> IntoIterator for &'a Set<K> { type Item = K; type IntoIter = set::IntoIter<K>; fn into_iter(self) -> set::IntoIter<K> { loop {} } }
impl<K: Key> IntoIterator for Set<K> { type Item = K; type IntoIter = set::IntoIter<K>; fn into_iter(self) -> set::IntoIter<K> { loop {} } }
impl<K: Key, V> FromIterator<(K, V)> for Map<K, V> { fn from_iter<I: IntoIterator<Item = (K, V)>>(_: I) -> Self { loop {} } }
impl<K: Key> FromIterator<K> for Set<K> { fn from_iter<I: IntoIterator<Item = K>>(_: I) -> Self { loop {} } }
impl<K: Key, const N: usize> From<[K; N]> for Set<K> { fn from(_: [K; N]) -> Self { loop {} } }

pub mod option_bucket {
    use super::PhantomData;
    pub struct SomeBucket<'a, T>(PhantomData<&'a mut Option<T>>);
    pub struct NoneBucket<'a, T>(PhantomData<&'a mut Option<T>>);
    pub enum OptionBucket<'a, T> { Some(SomeBucket<'a, T>), None(NoneBucket<'a, T>) }
    impl<'a, T> SomeBucket<'a, T> {
        pub unsafe fn new_unchecked(_: &'a mut Option<T>) -> Self { loop {} }
        pub fn new(_: &'a mut Option<T>) -> Option<Self> { loop {} }
        pub fn as_ref(&self) -> &T { loop {} }
        pub fn as_mut(&mut self) -> &mut T { loop {} }
        pub fn into_mut(self) -> &'a mut T { loop {} }
        pub fn replace(&mut self, _: T) -> T { loop {} }
        pub fn take(self) -> T { loop {} }
    }
    impl<'a, T> NoneBucket<'a, T> {
        pub unsafe fn new_unchecked(_: &'a mut Option<T>) -> Self { loop {} }
        pub fn new(_: &'a mut Option<T>) -> Option<Self> { loop {} }
        pub fn insert(self, _: T) -> &'a mut T { loop {} }
    }
    impl<'a, T> OptionBucket<'a, T> {
        pub fn new(_: &'a mut Option<T>) -> Self { loop {} }
    }
}
