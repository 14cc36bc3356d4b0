//! C16: set intersection yields exactly the common elements.
#![allow(unreachable_code)]
use std::collections::BTreeSet;

use fixed_map::Set;
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::drive::drive;
use fmcheck::gen::Rng;
use fmcheck::it::It;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::{boxed_it, ensure, for_each_key};

trait Obj: BasicSet {
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn common<'s>(&'s self, o: &'s dyn Obj) -> Box<dyn It<'s> + 's>;
    fn list(&self) -> Vec<u32>;
    fn any(&self) -> &dyn std::any::Any;
    fn debug(&self, o: &dyn Obj) -> String;
}

macro_rules! obj {
    ($id:ident $t:ty) => {
        impl Obj for S<$t> {
            fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool) {
                self.0.retain(|k| f(k.idx()))
            }
            fn common<'s>(&'s self, o: &'s dyn Obj) -> Box<dyn It<'s> + 's> {
                let o: &'s S<$t> = o.any().downcast_ref().unwrap();
                boxed_it!(self.0.intersection(&o.0), |k| k.idx())
            }
            fn list(&self) -> Vec<u32> {
                self.0.iter().map(|k| k.idx()).collect()
            }
            fn any(&self) -> &dyn std::any::Any {
                self
            }
            fn debug(&self, o: &dyn Obj) -> String {
                let o: &S<$t> = o.any().downcast_ref().unwrap();
                format!("{:?}", self.0.intersection(&o.0))
            }
        }
    };
}
for_each_key!(obj);

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Fill,
    Retain,
    Clear,
}

const OPS: Table<Do> = Table(&[(Do::Insert, 140), (Do::Remove, 30), (Do::Fill, 60), (Do::Retain, 20), (Do::Clear, 3)]);

fn run(new: fn() -> [Box<dyn Obj>; 2], info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut s = new();
    let mut m: [BTreeSet<u32>; 2] = Default::default();
    // The first half of the operations builds the sets, the second half drives
    // the iterator.
    let (build, rest) = case.ops.split_at(case.ops.len() / 2);
    for op in build {
        let i = (op.a & 1) as usize;
        let key = case.pick(op.key, info.len).map(|k| KI(k, op.key & OTHER != 0));
        match (OPS.get(op.k), key) {
            (Do::Insert, Some(k)) => {
                s[i].insert(k);
                m[i].insert(k.0);
                if op.a & 6 == 6 {
                    s[1 - i].insert(k);
                    m[1 - i].insert(k.0);
                }
            }
            (Do::Remove, Some(k)) => {
                s[i].remove(k);
                m[i].remove(&k.0);
            }
            (Do::Fill, _) => {
                let stride = (op.key % 4 + 1) as usize;
                for k in (op.a as usize / 2 % stride..info.len.min(200)).step_by(stride) {
                    s[i].insert(KI(k as u32, true));
                    m[i].insert(k as u32);
                }
            }
            (Do::Retain, _) => {
                let keep = |k: u32| Rng(u64::from(op.a) << 32 | u64::from(k)).next() % 3 != 0;
                s[i].retain(&mut |k| keep(k));
                m[i].retain(|k| keep(*k));
            }
            _ => {
                s[i].clear();
                m[i].clear();
            }
        }
    }
    let show = |v: &BTreeSet<u32>| v.iter().take(20).map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", ");
    let (x, y) = match case.x % 8 {
        0 => (0, 0),
        n => ((n % 2) as usize, 1 - (n % 2) as usize),
    };
    obs.log(|| format!("{{{}}} and {{{}}}", show(&m[x]), show(&m[y])));
    let want: BTreeSet<u32> = m[x].intersection(&m[y]).copied().collect();
    let mut fwd = vec![];
    let mut it = s[x].common(&*s[y]);
    while let Some(k) = it.next() {
        fwd.push(k);
        ensure!(fwd.len() <= want.len(), "the intersection of {{{}}} and {{{}}} yields {} and more", show(&m[x]), show(&m[y]), fwd.iter().map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", "));
    }
    let got: BTreeSet<u32> = fwd.iter().copied().collect();
    ensure!(got == want && got.len() == fwd.len(), "the intersection of {{{}}} and {{{}}} yields {}", show(&m[x]), show(&m[y]), fwd.iter().map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", "));
    let inner = Case { focus: case.focus.clone(), x: case.x, ops: rest.to_vec() };
    drive(s[x].common(&*s[y]), &fwd, false, &info, &inner, obs)?;
    let debug = s[x].debug(&*s[y]);
    let n = debug.len();
    ensure!(n > 0, "Debug of the intersection is empty");
    for i in 0..2 {
        same_set(&*s[i], &m[i], &info).map_err(|e| format!("after the intersection: {e}"))?;
        let mut list = s[i].list();
        list.sort_unstable();
        ensure!(list.iter().eq(&m[i]), "after the intersection, the operand iterates over {list:?}");
    }
    let proper = x != y && !want.is_empty() && want.len() < m[x].len() && want.len() < m[y].len();
    if proper {
        obs.class("sets which overlap without inclusion");
    }
    if want.is_empty() && !m[x].is_empty() && !m[y].is_empty() {
        obs.class("disjoint and non-empty");
    }
    obs.nontrivial = !want.is_empty() && (proper || want.len() < m[x].len().max(m[y].len())) || (info.len < 2 && !case.ops.is_empty());
    Ok(())
}

fn main() {
    let mut c = Check::new("C16", "pairs of sets built by proptest-generated histories; the intersection is traversed by next, and by generated sequences of next, nth, try_fold, find, take, clone, fold, collect, count, last and others with a deque as reference, and both operands are checked afterwards; non-trivial: the intersection is not empty and differs from one of the sets (for types with fewer than two values: any operation)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| [Box::new(S::<$t>(Set::new())), Box::new(S::<$t>(Set::new()))], info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 6000;
    c.thorough = 400_000;
    c.max_focus = 20;
    c.max_ops = 36;
    fmcheck::run::main(c)
}
