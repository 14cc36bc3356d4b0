//! C01: a Map is a finite map over any operation history.
use std::collections::BTreeMap;

use fmcheck::case::{Case, Table, OTHER};
use fmcheck::keys::TKey;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;
use fmcheck::{ensure, for_each_key};
use fixed_map::{Key, Map};

trait Obj: BasicMap {
    fn dup(&self) -> Box<dyn Obj>;
    fn dup_from(&mut self, from: &dyn Obj);
    fn take(&mut self) -> Box<dyn Obj>;
    fn any(&self) -> &dyn std::any::Any;
}

impl<K: TKey> Obj for M<K>
where
    <K as Key>::MapStorage<Val>: Clone,
{
    fn dup(&self) -> Box<dyn Obj> {
        Box::new(M(self.0.clone()))
    }
    fn dup_from(&mut self, from: &dyn Obj) {
        let from: &M<K> = from.any().downcast_ref().unwrap();
        self.0.clone_from(&from.0);
    }
    fn take(&mut self) -> Box<dyn Obj> {
        Box::new(M(std::mem::take(&mut self.0)))
    }
    fn any(&self) -> &dyn std::any::Any {
        self
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Get,
    GetMut,
    Contains,
    Sizes,
    Clear,
    Fill,
    Drain,
    Clone,
    CloneFrom,
    Switch,
    Move,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 60),
    (Do::Remove, 34),
    (Do::Get, 12),
    (Do::GetMut, 16),
    (Do::Contains, 8),
    (Do::Sizes, 4),
    (Do::Clear, 3),
    (Do::Fill, 6),
    (Do::Drain, 6),
    (Do::Clone, 5),
    (Do::CloneFrom, 4),
    (Do::Switch, 8),
    (Do::Move, 6),
]);

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut maps = [new(), new()];
    let mut models: [BTreeMap<u32, u32>; 2] = Default::default();
    let mut at = 0usize;
    let mut next = 1u32;
    let mut fresh = || {
        next += 1;
        next
    };
    let (mut hit_insert, mut hit_remove) = (false, false);
    let focus = case.focused(info.len);
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
        let (m, model) = (&mut maps[at], &mut models[at]);
        match (d, key) {
            (Do::Insert, Some(k)) => {
                let p = fresh();
                obs.log(|| format!("map{at}.insert({}, {p})", name()));
                let got = m.insert(k, Val::new(p)).map(|v| v.p);
                let want = model.insert(k.0, p);
                hit_insert |= want.is_some();
                ensure!(got == want, "step {step}: insert({}) returned {got:?}, expected {want:?}", name());
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("map{at}.remove({})", name()));
                let got = m.remove(k).map(|v| v.p);
                let want = model.remove(&k.0);
                hit_remove |= want.is_some();
                ensure!(got == want, "step {step}: remove({}) returned {got:?}, expected {want:?}", name());
            }
            (Do::Get, Some(k)) => {
                obs.log(|| format!("map{at}.get({})", name()));
                let got = m.get(k).map(|v| v.p);
                let want = model.get(&k.0).copied();
                ensure!(got == want, "step {step}: get({}) returned {got:?}, expected {want:?}", name());
            }
            (Do::GetMut, Some(k)) => {
                let p = fresh();
                obs.log(|| format!("map{at}.get_mut({}).map(|v| replace(v, {p}))", name()));
                let got = m.get_mut(k).map(|v| std::mem::replace(v, Val::new(p)).p);
                let want = model.get_mut(&k.0).map(|v| std::mem::replace(v, p));
                ensure!(got == want, "step {step}: get_mut({}) returned {got:?}, expected {want:?}", name());
            }
            (Do::Contains, Some(k)) => {
                obs.log(|| format!("map{at}.contains_key({})", name()));
                let (got, want) = (m.contains(k), model.contains_key(&k.0));
                ensure!(got == want, "step {step}: contains_key({}) returned {got}, expected {want}", name());
            }
            (Do::Clear, _) => {
                obs.log(|| format!("map{at}.clear()"));
                if !model.is_empty() {
                    obs.class("clear of a non-empty map");
                }
                m.clear();
                model.clear();
            }
            (Do::Fill, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("map{at}: insert every {stride}th key from {from}"));
                for i in (from..info.len).step_by(stride) {
                    let p = fresh();
                    let got = m.insert(KI(i as u32, false), Val::new(p)).map(|v| v.p);
                    let want = model.insert(i as u32, p);
                    ensure!(got == want, "step {step}: insert({}) returned {got:?}, expected {want:?}", (info.show)(i as u32));
                }
                if model.len() == info.len && info.len > 0 {
                    obs.class("full map");
                }
            }
            (Do::Drain, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("map{at}: remove every {stride}th key from {from}"));
                for i in (from..info.len).step_by(stride) {
                    let got = m.remove(KI(i as u32, true)).map(|v| v.p);
                    let want = model.remove(&(i as u32));
                    ensure!(got == want, "step {step}: remove({}) returned {got:?}, expected {want:?}", (info.show)(i as u32));
                }
            }
            (Do::Clone, _) => {
                obs.log(|| format!("map{} = map{at}.clone()", 1 - at));
                maps[1 - at] = maps[at].dup();
                models[1 - at] = models[at].clone();
            }
            (Do::CloneFrom, _) => {
                obs.log(|| format!("map{}.clone_from(&map{at})", 1 - at));
                let (a, b) = maps.split_at_mut(1);
                if at == 0 {
                    b[0].dup_from(&*a[0]);
                } else {
                    a[0].dup_from(&*b[0]);
                }
                models[1 - at] = models[at].clone();
            }
            (Do::Switch, _) => {
                at = 1 - at;
                obs.log(|| format!("continue on map{at}"));
            }
            (Do::Move, _) => {
                obs.log(|| format!("map{at} = take(&mut map{at})"));
                let moved = m.take();
                ensure!(m.is_empty() && m.len() == 0, "step {step}: taking a map leaves {} entries", m.len());
                *m = moved;
            }
            (Do::Sizes, _) | (_, None) => {
                obs.log(|| format!("map{at}.len(), map{at}.is_empty()"));
            }
        }
        // Cheap check after every step, full check now and then.
        let (m, model) = (&*maps[at], &models[at]);
        sizes(m.len(), m.is_empty(), model.len()).map_err(|e| format!("step {step}: {e}"))?;
        for i in &focus {
            let got = m.get(KI(*i, step % 2 == 0)).map(|v| v.p);
            let want = model.get(i).copied();
            ensure!(got == want, "step {step}: get({}) is {got:?}, expected {want:?}", (info.show)(*i));
        }
        if info.len <= 40 || step % 7 == 6 {
            same_map(m, model, &info).map_err(|e| format!("step {step}: {e}"))?;
        }
    }
    for i in 0..2 {
        same_map(&*maps[i], &models[i], &info).map_err(|e| format!("finally, map{i}: {e}"))?;
    }
    obs.nontrivial = hit_insert && hit_remove;
    if info.len == 0 {
        obs.nontrivial = case.ops.len() > 2;
    }
    if hit_insert {
        obs.class("insert replaced a value");
    }
    if hit_remove {
        obs.class("remove of a present key");
    }
    if models.iter().any(|m| m.len() > 100) {
        obs.class("more than 100 entries");
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C01", "proptest-generated histories over insert, remove, get, get_mut, contains_key, clear, clone, clone_from, take and bulk fills, run against every key type of the roster and compared call by call with a BTreeMap; non-trivial: some insert replaced a present value and some remove hit a present key");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(M::<$t>(Map::new())), info::<$t>(), case, obs));
        };
    }
    use fmcheck::keys::*;
    for_each_key!(add);
    c.quick = 8000;
    c.thorough = 400000;
    fmcheck::values::add(&mut c, fmcheck::values::Part::Basic);
    fmcheck::run::main(c)
}
