//! C02: a Set is a finite set over any operation history.
use std::collections::BTreeSet;

use fixed_map::{Key, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::keys::TKey;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::{ensure, for_each_key};

trait Obj: BasicSet {
    fn dup(&self) -> Box<dyn Obj>;
    fn dup_from(&mut self, from: &dyn Obj);
    fn take(&mut self) -> Box<dyn Obj>;
    fn any(&self) -> &dyn std::any::Any;
}

impl<K: TKey> Obj for S<K>
where
    <K as Key>::SetStorage: Clone,
{
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(S(self.0.clone()))
    }
    fn dup_from(&mut self, from: &dyn Obj) {
        let from: &S<K> = from.any().downcast_ref().unwrap();
        self.0.clone_from(&from.0);
    }
    fn take(&mut self) -> Box<dyn Obj> {
        Box::new(S(std::mem::take(&mut self.0)))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Contains,
    Sizes,
    Clear,
    Fill,
    Drain,
    Clone,
    CloneFrom,
    Switch,
    Move,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 60),
    (Do::Remove, 40),
    (Do::Contains, 10),
    (Do::Sizes, 4),
    (Do::Clear, 3),
    (Do::Fill, 6),
    (Do::Drain, 6),
    (Do::Clone, 5),
    (Do::CloneFrom, 4),
    (Do::Switch, 8),
    (Do::Move, 6),
]);

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut sets = [new(), new()];
    let mut models: [BTreeSet<u32>; 2] = Default::default();
    let mut at = 0usize;
    let (mut dup_insert, mut hit_remove, mut miss_remove) = (false, false, false);
    let focus = case.focused(info.len);
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
        let (s, model) = (&mut sets[at], &mut models[at]);
        match (d, key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("set{at}.insert({})", name()));
                let got = s.insert(k);
                let want = model.insert(k.0);
                dup_insert |= !want;
                ensure!(got == want, "step {step}: insert({}) returned {got}, expected {want}", name());
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("set{at}.remove({})", name()));
                let got = s.remove(k);
                let want = model.remove(&k.0);
                hit_remove |= want;
                miss_remove |= !want && !model.is_empty();
                ensure!(got == want, "step {step}: remove({}) returned {got}, expected {want}", name());
            }
            (Do::Contains, Some(k)) => {
                obs.log(|| format!("set{at}.contains({})", name()));
                let (got, want) = (s.contains(k), model.contains(&k.0));
                ensure!(got == want, "step {step}: contains({}) returned {got}, expected {want}", name());
            }
            (Do::Clear, _) => {
                obs.log(|| format!("set{at}.clear()"));
                s.clear();
                model.clear();
            }
            (Do::Fill, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("set{at}: insert every {stride}th element from {from}"));
                for i in (from..info.len).step_by(stride) {
                    let got = s.insert(KI(i as u32, false));
                    let want = model.insert(i as u32);
                    ensure!(got == want, "step {step}: insert({}) returned {got}, expected {want}", (info.show)(i as u32));
                }
                if model.len() == info.len && info.len > 0 {
                    obs.class("full set");
                }
            }
            (Do::Drain, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("set{at}: remove every {stride}th element from {from}"));
                for i in (from..info.len).step_by(stride) {
                    let got = s.remove(KI(i as u32, true));
                    let want = model.remove(&(i as u32));
                    ensure!(got == want, "step {step}: remove({}) returned {got}, expected {want}", (info.show)(i as u32));
                }
            }
            (Do::Clone, _) => {
                obs.log(|| format!("set{} = set{at}.clone()", 1 - at));
                sets[1 - at] = sets[at].dup();
                models[1 - at] = models[at].clone();
            }
            (Do::CloneFrom, _) => {
                obs.log(|| format!("set{}.clone_from(&set{at})", 1 - at));
                let (a, b) = sets.split_at_mut(1);
                if at == 0 {
                    b[0].dup_from(&*a[0]);
                } else {
                    a[0].dup_from(&*b[0]);
                }
                models[1 - at] = models[at].clone();
            }
            (Do::Switch, _) => {
                at = 1 - at;
                obs.log(|| format!("continue on set{at}"));
            }
            (Do::Move, _) => {
                obs.log(|| format!("set{at} = take(&mut set{at})"));
                let moved = s.take();
                ensure!(s.is_empty() && s.len() == 0, "step {step}: taking a set leaves {} elements", s.len());
                *s = moved;
            }
            (Do::Sizes, _) | (_, None) => {
                obs.log(|| format!("set{at}.len(), set{at}.is_empty()"));
            }
        }
        let (s, model) = (&*sets[at], &models[at]);
        sizes(s.len(), s.is_empty(), model.len()).map_err(|e| format!("step {step}: {e}"))?;
        for i in &focus {
            let (got, want) = (s.contains(KI(*i, step % 2 == 0)), model.contains(i));
            ensure!(got == want, "step {step}: contains({}) is {got}, expected {want}", (info.show)(*i));
        }
        if info.len <= 40 || step % 7 == 6 {
            same_set(s, model, &info).map_err(|e| format!("step {step}: {e}"))?;
        }
    }
    for i in 0..2 {
        same_set(&*sets[i], &models[i], &info).map_err(|e| format!("finally, set{i}: {e}"))?;
    }
    obs.nontrivial = (dup_insert && hit_remove) || (info.len == 0 && case.ops.len() > 2);
    if dup_insert {
        obs.class("insert of a present element");
    }
    if hit_remove {
        obs.class("remove of a present element");
    }
    if miss_remove {
        obs.class("remove of an absent element from a non-empty set");
    }
    if models.iter().any(|m| m.len() > 100) {
        obs.class("more than 100 elements");
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C02", "proptest-generated histories over insert, remove, contains, clear, clone, clone_from, take and bulk fills, run against every element type of the roster (bitset and not) and compared call by call with a BTreeSet; non-trivial: some insert of a present element and some remove of a present element");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(S::<$t>(Set::new())), info::<$t>(), case, obs));
        };
    }
    use fmcheck::keys::*;
    for_each_key!(add);
    c.quick = 8000;
    c.thorough = 400_000;
    fmcheck::run::main(c)
}
