//! C03: every iteration view yields exactly the contents.
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table};
use fmcheck::obj::*;
use fmcheck::views::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;
use fmcheck::{ensure, for_each_key};

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Clear,
    Fill,
    Drain,
    Retain,
    Views,
    IterMut,
    MutIntoIter,
    ValuesMut,
    PartialMut,
    IntoIter,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 50),
    (Do::Remove, 20),
    (Do::Clear, 1),
    (Do::Fill, 6),
    (Do::Drain, 5),
    (Do::Retain, 2),
    (Do::Views, 6),
    (Do::IterMut, 6),
    (Do::MutIntoIter, 5),
    (Do::ValuesMut, 6),
    (Do::PartialMut, 4),
    (Do::IntoIter, 4),
]);

fn same(what: &str, seq: &Seq, model: &BTreeMap<u32, u32>, info: &Info) -> Res {
    let show = |v: &mut dyn Iterator<Item = (u32, u32)>| v.take(20).map(|(k, p)| format!("{}: {p}", (info.show)(k))).collect::<Vec<_>>().join(", ");
    let mut sorted = seq.clone();
    sorted.sort_unstable();
    let want: Seq = model.iter().map(|(a, b)| (*a, *b)).collect();
    ensure!(sorted == want, "{what} yields [{}], expected [{}]", show(&mut seq.iter().copied()), show(&mut want.iter().copied()));
    Ok(())
}

fn views(m: &dyn ViewMap, model: &BTreeMap<u32, u32>, info: &Info) -> Result<Seq, String> {
    let iter = m.iter();
    same("iter", &iter, model, info)?;
    let other = m.ref_into_iter();
    ensure!(other == iter, "iterating over a reference differs from iter: {} and {} items", other.len(), iter.len());
    let other = m.iter_internal();
    ensure!(other == iter, "for_each differs from next: {other:?} and {iter:?}");
    let keys = m.keys();
    ensure!(
        keys.iter().eq(iter.iter().map(|(k, _)| k)),
        "keys yields [{}], but iter yields [{}]",
        keys.iter().take(20).map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", "),
        iter.iter().take(20).map(|(k, _)| (info.show)(*k)).collect::<Vec<_>>().join(", ")
    );
    let values = m.values();
    ensure!(values.iter().eq(iter.iter().map(|(_, v)| v)), "values yields {values:?}, but iter yields {iter:?}");
    Ok(iter)
}

fn run(new: fn() -> Box<dyn ViewMap>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut m = new();
    let mut model: BTreeMap<u32, u32> = BTreeMap::new();
    let mut next = 1u32;
    let mut checked = 0;
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len);
        next += 1;
        let base = next * 10_000;
        match (d, key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({}, {base})", (info.show)(k)));
                m.insert(KI(k, false), Val::new(base));
                model.insert(k, base);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", (info.show)(k)));
                m.remove(KI(k, true));
                model.remove(&k);
            }
            (Do::Clear, _) => {
                obs.log(|| "clear()".into());
                m.clear();
                model.clear();
            }
            (Do::Fill, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("insert every {stride}th key from {from}"));
                for i in (from..info.len).step_by(stride) {
                    m.insert(KI(i as u32, false), Val::new(base + i as u32));
                    model.insert(i as u32, base + i as u32);
                }
            }
            (Do::Drain, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("remove every {stride}th key from {from}"));
                for i in (from..info.len).step_by(stride) {
                    m.remove(KI(i as u32, false));
                    model.remove(&(i as u32));
                }
            }
            (Do::Retain, _) => {
                // Through a clone, to iterate over clones as well.
                obs.log(|| "continue on a clone".into());
                m = m.dup();
            }
            (Do::IterMut | Do::MutIntoIter, _) => {
                let refd = matches!(d, Do::MutIntoIter);
                obs.log(|| format!("write through {}", if refd { "&mut map" } else { "iter_mut" }));
                let before = views(&*m, &model, &info).map_err(|e| format!("step {step}: {e}"))?;
                let mut seen: Seq = vec![];
                let mut f = |k: u32, v: &mut Val| {
                    seen.push((k, v.p));
                    *v = Val::new(base + seen.len() as u32);
                };
                if refd {
                    m.mut_into_iter(&mut f)
                } else {
                    m.iter_mut(&mut f)
                }
                ensure!(seen == before, "step {step}: {d:?} yields {seen:?}, but iter yields {before:?}");
                for (n, (k, _)) in seen.iter().enumerate() {
                    model.insert(*k, base + n as u32 + 1);
                }
            }
            (Do::ValuesMut, _) => {
                obs.log(|| "write through values_mut".into());
                let before = views(&*m, &model, &info).map_err(|e| format!("step {step}: {e}"))?;
                let mut seen = vec![];
                m.values_mut(&mut |v| {
                    seen.push(v.p);
                    v.p = base + seen.len() as u32;
                });
                ensure!(seen.iter().eq(before.iter().map(|(_, v)| v)), "step {step}: values_mut yields {seen:?}, but iter yields {before:?}");
                for (n, (k, _)) in before.iter().enumerate() {
                    model.insert(*k, base + n as u32 + 1);
                }
            }
            (Do::PartialMut, _) => {
                // Only some of the yielded values are written.
                let bits = op.a.rotate_left(u32::from(op.key)) ^ u32::from(op.key);
                obs.log(|| format!("write through iter_mut where {bits:x}"));
                let mut n = 0;
                let mut written = vec![];
                m.iter_mut(&mut |k, v| {
                    if bits >> (n % 32) & 1 != 0 {
                        v.p = base + n;
                        written.push((k, base + n));
                    }
                    n += 1;
                });
                for (k, p) in written {
                    ensure!(model.contains_key(&k), "step {step}: iter_mut yields an absent key");
                    model.insert(k, p);
                }
            }
            (Do::IntoIter, _) => {
                obs.log(|| "into_iter".into());
                let before = views(&*m, &model, &info).map_err(|e| format!("step {step}: {e}"))?;
                let owned = if op.a % 2 == 0 {
                    let o = m.into_iter();
                    model.clear();
                    o
                } else {
                    m.dup().into_iter()
                };
                if info.dynamic && op.a % 2 != 0 {
                    // A clone may use another order for its dynamic parts.
                    same("into_iter", &owned, &before.iter().copied().collect(), &info)?;
                } else {
                    ensure!(owned == before, "step {step}: into_iter yields {owned:?}, but iter yields {before:?}");
                }
            }
            (Do::Views, _) | (_, None) => {
                obs.log(|| "compare views".into());
            }
        }
        if matches!(d, Do::Views) || info.len <= 12 || step % 4 == 3 || step + 1 == case.ops.len() {
            views(&*m, &model, &info).map_err(|e| format!("step {step}: {e}"))?;
            if !model.is_empty() {
                checked += 1;
                if model.len() == info.len {
                    obs.class("views of a full map");
                }
            }
        }
    }
    views(&*m, &model, &info).map_err(|e| format!("finally: {e}"))?;
    same_map(&*m, &model, &info).map_err(|e| format!("finally: {e}"))?;
    obs.nontrivial = checked >= 2 || (info.len == 0 && case.ops.len() > 2);
    Ok(())
}

fn set_views(s: &dyn ViewSet, model: &BTreeSet<u32>, info: &Info) -> Result<Vec<u32>, String> {
    let iter = s.iter();
    let show = |v: &mut dyn Iterator<Item = u32>| v.take(20).map(|k| (info.show)(k)).collect::<Vec<_>>().join(", ");
    let mut sorted = iter.clone();
    sorted.sort_unstable();
    ensure!(sorted.iter().eq(model.iter()), "iter yields {{{}}}, expected {{{}}}", show(&mut iter.iter().copied()), show(&mut model.iter().copied()));
    let other = s.ref_into_iter();
    ensure!(other == iter, "iterating over a reference differs from iter: {other:?} and {iter:?}");
    let other = s.iter_internal();
    ensure!(other == iter, "for_each differs from next: {other:?} and {iter:?}");
    Ok(iter)
}

fn run_set(new: fn() -> Box<dyn ViewSet>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut s = new();
    let mut model: BTreeSet<u32> = BTreeSet::new();
    let mut checked = 0;
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len);
        match (d, key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({})", (info.show)(k)));
                s.insert(KI(k, false));
                model.insert(k);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", (info.show)(k)));
                s.remove(KI(k, true));
                model.remove(&k);
            }
            (Do::Clear, _) => {
                obs.log(|| "clear()".into());
                s.clear();
                model.clear();
            }
            (Do::Fill | Do::ValuesMut, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("insert every {stride}th element from {from}"));
                for i in (from..info.len).step_by(stride) {
                    s.insert(KI(i as u32, false));
                    model.insert(i as u32);
                }
            }
            (Do::Drain, _) => {
                let stride = (op.a % 5 + 1) as usize;
                let from = op.key as usize % stride;
                obs.log(|| format!("remove every {stride}th element from {from}"));
                for i in (from..info.len).step_by(stride) {
                    s.remove(KI(i as u32, false));
                    model.remove(&(i as u32));
                }
            }
            (Do::Retain, _) => {
                obs.log(|| "continue on a clone".into());
                s = s.dup();
            }
            (Do::IntoIter | Do::IterMut, _) => {
                obs.log(|| "into_iter".into());
                let before = set_views(&*s, &model, &info).map_err(|e| format!("step {step}: {e}"))?;
                let mut owned = if op.a % 2 == 0 {
                    let o = s.into_iter();
                    model.clear();
                    o
                } else {
                    s.dup().into_iter()
                };
                let mut before = before;
                if info.dynamic && op.a % 2 != 0 {
                    owned.sort_unstable();
                    before.sort_unstable();
                }
                ensure!(owned == before, "step {step}: into_iter yields {owned:?}, but iter yields {before:?}");
            }
            _ => obs.log(|| "compare views".into()),
        }
        if matches!(d, Do::Views) || info.len <= 12 || step % 4 == 3 || step + 1 == case.ops.len() {
            set_views(&*s, &model, &info).map_err(|e| format!("step {step}: {e}"))?;
            if !model.is_empty() {
                checked += 1;
                if model.len() == info.len {
                    obs.class("views of a full set");
                }
            }
        }
    }
    set_views(&*s, &model, &info).map_err(|e| format!("finally: {e}"))?;
    same_set(&*s, &model, &info).map_err(|e| format!("finally: {e}"))?;
    obs.nontrivial = checked >= 2 || (info.len == 0 && case.ops.len() > 2);
    Ok(())
}

fn main() {
    let mut c = Check::new("C03", "proptest-generated histories after whose steps all views of the map or set are read (and written through) and compared with each other and with a BTreeMap or BTreeSet model; non-trivial: the views were compared at least twice on non-empty contents");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("Map of ", stringify!($t)), |case, obs| run(|| Box::new(M::<$t>(Map::new())), info::<$t>(), case, obs));
            c.add(concat!("Set of ", stringify!($t)), |case, obs| run_set(|| Box::new(S::<$t>(Set::new())), info::<$t>(), case, obs));
        };
    }
    use fmcheck::keys::*;
    for_each_key!(add);
    c.quick = 3000;
    c.thorough = 150_000;
    fmcheck::values::add(&mut c, fmcheck::values::Part::Views);
    fmcheck::run::main(c)
}
