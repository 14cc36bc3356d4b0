//! All iteration views of maps and sets, behind key indexes.
use fixed_map::Key;

use crate::keys::TKey;
use crate::obj::*;
use crate::val::Val;

pub type Seq = Vec<(u32, u32)>;

/// Views are cut off after this many items, so that a view which never ends
/// is noticed.
pub const BOUND: usize = 3000;

pub trait ViewMap: BasicMap {
    fn iter(&self) -> Seq;
    fn ref_into_iter(&self) -> Seq;
    fn keys(&self) -> Vec<u32>;
    fn values(&self) -> Vec<u32>;
    fn iter_mut(&mut self, f: &mut dyn FnMut(u32, &mut Val));
    fn mut_into_iter(&mut self, f: &mut dyn FnMut(u32, &mut Val));
    fn values_mut(&mut self, f: &mut dyn FnMut(&mut Val));
    fn into_iter(&mut self) -> Seq;
    fn iter_internal(&self) -> Seq;
    fn dup(&self) -> Box<dyn ViewMap>;
}

impl<K: TKey> ViewMap for M<K>
where
    <K as Key>::MapStorage<Val>: Clone,
{
    fn iter(&self) -> Seq {
        self.0.iter().take(BOUND).map(|(k, v)| (k.idx(), v.p)).collect()
    }
    fn ref_into_iter(&self) -> Seq {
        let mut out = vec![];
        for (k, v) in &self.0 {
            out.push((k.idx(), v.p));
            if out.len() > BOUND {
                break;
            }
        }
        out
    }
    fn keys(&self) -> Vec<u32> {
        self.0.keys().take(BOUND).map(|k| k.idx()).collect()
    }
    fn values(&self) -> Vec<u32> {
        self.0.values().take(BOUND).map(|v| v.p).collect()
    }
    fn iter_mut(&mut self, f: &mut dyn FnMut(u32, &mut Val)) {
        for (k, v) in self.0.iter_mut().take(BOUND) {
            f(k.idx(), v)
        }
    }
    fn mut_into_iter(&mut self, f: &mut dyn FnMut(u32, &mut Val)) {
        let mut n = 0;
        for (k, v) in &mut self.0 {
            f(k.idx(), v);
            n += 1;
            if n > BOUND {
                break;
            }
        }
    }
    fn values_mut(&mut self, f: &mut dyn FnMut(&mut Val)) {
        for v in self.0.values_mut().take(BOUND) {
            f(v)
        }
    }
    fn into_iter(&mut self) -> Seq {
        std::mem::take(&mut self.0).into_iter().take(BOUND).map(|(k, v)| (k.idx(), v.p)).collect()
    }
    fn iter_internal(&self) -> Seq {
        let mut out = vec![];
        self.0.iter().for_each(|(k, v)| {
            out.push((k.idx(), v.p));
            assert!(out.len() <= BOUND, "iter does not end");
        });
        out
    }
    fn dup(&self) -> Box<dyn ViewMap> {
        Box::new(M(self.0.clone()))
    }
}

pub trait ViewSet: BasicSet {
    fn iter(&self) -> Vec<u32>;
    fn ref_into_iter(&self) -> Vec<u32>;
    fn iter_internal(&self) -> Vec<u32>;
    fn into_iter(&mut self) -> Vec<u32>;
    fn dup(&self) -> Box<dyn ViewSet>;
}

impl<K: TKey> ViewSet for S<K>
where
    <K as Key>::SetStorage: Clone,
{
    fn iter(&self) -> Vec<u32> {
        self.0.iter().take(BOUND).map(|k| k.idx()).collect()
    }
    fn ref_into_iter(&self) -> Vec<u32> {
        let mut out = vec![];
        for k in &self.0 {
            out.push(k.idx());
            if out.len() > BOUND {
                break;
            }
        }
        out
    }
    fn iter_internal(&self) -> Vec<u32> {
        let mut out = vec![];
        self.0.iter().for_each(|k| {
            out.push(k.idx());
            assert!(out.len() <= BOUND, "iter does not end");
        });
        out
    }
    fn into_iter(&mut self) -> Vec<u32> {
        std::mem::take(&mut self.0).into_iter().take(BOUND).map(|k| k.idx()).collect()
    }
    fn dup(&self) -> Box<dyn ViewSet> {
        Box::new(S(self.0.clone()))
    }
}

