//! C04: iteration follows declaration order whatever the history.
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table};
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;
use fmcheck::views::*;
use fmcheck::{ensure, for_each_key};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Do {
    Insert,
    Remove,
    Fill,
    Drain,
    Clone,
    Observe,
}

const OPS: Table<Do> = Table(&[(Do::Insert, 60), (Do::Remove, 25), (Do::Fill, 8), (Do::Drain, 8), (Do::Clone, 3), (Do::Observe, 8)]);

/// The keys touched by a bulk operation, in an order drawn from the argument.
fn bulk(op: &fmcheck::case::Op, len: usize) -> Vec<u32> {
    let stride = (op.a % 5 + 1) as usize;
    let mut v: Vec<u32> = (op.key as usize % stride..len).step_by(stride).map(|i| i as u32).collect();
    match op.a / 5 % 3 {
        0 => {}
        1 => v.reverse(),
        _ => {
            let mut r = fmcheck::gen::Rng(u64::from(op.a) << 16 | u64::from(op.key));
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i as u64 + 1) as usize);
            }
        }
    }
    v
}

fn run(new: fn() -> Box<dyn ViewMap>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut m = new();
    let mut model: BTreeMap<u32, u32> = BTreeMap::new();
    let mut observed = false;
    let mut inserted: Vec<u32> = vec![];
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len);
        match (d, key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({})", (info.show)(k)));
                m.insert(KI(k, false), Val::new(k));
                model.insert(k, k);
                inserted.push(k);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", (info.show)(k)));
                m.remove(KI(k, false));
                model.remove(&k);
            }
            (Do::Fill, _) => {
                let v = bulk(op, info.len);
                obs.log(|| format!("insert {} keys from {:?}", v.len(), v.first()));
                for k in v {
                    m.insert(KI(k, false), Val::new(k));
                    model.insert(k, k);
                    inserted.push(k);
                }
            }
            (Do::Drain, _) => {
                let v = bulk(op, info.len);
                obs.log(|| format!("remove {} keys from {:?}", v.len(), v.first()));
                for k in v {
                    m.remove(KI(k, false));
                    model.remove(&k);
                }
            }
            (Do::Clone, _) => m = m.dup(),
            (Do::Observe, _) | (_, None) => {}
        }
        if d == Do::Observe || step + 1 == case.ops.len() || info.len < 8 {
            let at = |e: String| format!("step {step}: {e}");
            // Values carry the index of their key.
            let iter = m.iter();
            let ks: Vec<u32> = iter.iter().map(|x| x.0).collect();
            sequence("iter", &ks, &mut model.keys().copied(), &info).map_err(at)?;
            sequence("keys", &m.keys(), &mut model.keys().copied(), &info).map_err(at)?;
            sequence("values", &m.values(), &mut model.keys().copied(), &info).map_err(at)?;
            let mut seen = vec![];
            m.iter_mut(&mut |k, _| seen.push(k));
            sequence("iter_mut", &seen, &mut model.keys().copied(), &info).map_err(at)?;
            seen.clear();
            m.mut_into_iter(&mut |k, _| seen.push(k));
            sequence("&mut map", &seen, &mut model.keys().copied(), &info).map_err(at)?;
            seen.clear();
            m.values_mut(&mut |v| seen.push(v.p));
            sequence("values_mut", &seen, &mut model.keys().copied(), &info).map_err(at)?;
            let own: Vec<u32> = m.dup().into_iter().iter().map(|x| x.0).collect();
            sequence("into_iter", &own, &mut model.keys().copied(), &info).map_err(at)?;
            let r: Vec<u32> = m.ref_into_iter().iter().map(|x| x.0).collect();
            sequence("&map", &r, &mut model.keys().copied(), &info).map_err(at)?;
            if !info.dynamic {
                ensure!(ks.windows(2).all(|w| w[0] < w[1]), "step {step}: iter is not in declaration order");
            }
            observed |= model.len() > 1 && inserted.windows(2).any(|w| w[0] > w[1]);
        }
    }
    // Rebuilt with another history, the order is the same (fixed parts).
    let mut other = new();
    for k in model.keys().rev() {
        other.insert(KI(*k, true), Val::new(*k));
    }
    if !info.dynamic {
        ensure!(other.iter() == m.iter(), "the order of iter depends on the history");
        ensure!(other.keys() == m.keys(), "the order of keys depends on the history");
    }
    obs.nontrivial = observed || (info.len < 2 && case.ops.len() > 2);
    Ok(())
}

fn run_set(new: fn() -> Box<dyn ViewSet>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut s = new();
    let mut model: BTreeSet<u32> = BTreeSet::new();
    let mut observed = false;
    let mut inserted: Vec<u32> = vec![];
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len);
        match (d, key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({})", (info.show)(k)));
                s.insert(KI(k, false));
                model.insert(k);
                inserted.push(k);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", (info.show)(k)));
                s.remove(KI(k, false));
                model.remove(&k);
            }
            (Do::Fill, _) => {
                let v = bulk(op, info.len);
                obs.log(|| format!("insert {} elements from {:?}", v.len(), v.first()));
                for k in v {
                    s.insert(KI(k, false));
                    model.insert(k);
                    inserted.push(k);
                }
            }
            (Do::Drain, _) => {
                let v = bulk(op, info.len);
                obs.log(|| format!("remove {} elements from {:?}", v.len(), v.first()));
                for k in v {
                    s.remove(KI(k, false));
                    model.remove(&k);
                }
            }
            (Do::Clone, _) => s = s.dup(),
            (Do::Observe, _) | (_, None) => {}
        }
        if d == Do::Observe || step + 1 == case.ops.len() || info.len < 8 {
            let at = |e: String| format!("step {step}: {e}");
            sequence("iter", &s.iter(), &mut model.iter().copied(), &info).map_err(at)?;
            sequence("&set", &s.ref_into_iter(), &mut model.iter().copied(), &info).map_err(at)?;
            sequence("into_iter", &s.dup().into_iter(), &mut model.iter().copied(), &info).map_err(at)?;
            observed |= model.len() > 1 && inserted.windows(2).any(|w| w[0] > w[1]);
        }
    }
    let mut other = new();
    for k in model.iter().rev() {
        other.insert(KI(*k, true));
    }
    if !info.dynamic {
        ensure!(other.iter() == s.iter(), "the order of iter depends on the history");
    }
    obs.nontrivial = observed || (info.len < 2 && case.ops.len() > 2);
    Ok(())
}

fn main() {
    let mut c = Check::new("C04", "proptest-generated insertion and removal histories (also in reverse and shuffled order) after which every view is compared with the declaration order known from the generator of the key type; non-trivial: a view with at least two entries was compared after insertions against declaration order");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("Map of ", stringify!($t)), |case, obs| run(|| Box::new(M::<$t>(Map::new())), info::<$t>(), case, obs));
            c.add(concat!("Set of ", stringify!($t)), |case, obs| run_set(|| Box::new(S::<$t>(Set::new())), info::<$t>(), case, obs));
        };
    }
    use fmcheck::keys::*;
    for_each_key!(add);
    c.quick = 2000;
    c.thorough = 100_000;
    fmcheck::run::main(c)
}
