//! C08: every stored value is owned once and dropped exactly once.
#![allow(unreachable_code)]
use std::collections::{BTreeMap, VecDeque};

use fixed_map::Map;
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::ents::{self, Log, Plan};
use fmcheck::gen::Rng;
use fmcheck::it::It;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::{snapshot, Val};
use fmcheck::world::World;
use fmcheck::{ensure, for_each_key, world};

fmcheck::worlds!();

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Replace,
    Entry,
    Fill,
    Drain,
    Retain,
    Clear,
    Clone,
    CloneFrom,
    Take,
    Drop,
    Collect,
    Switch,
    IterMut,
    IntoIter,
    Pull,
    DropIter,
    IntoFold,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 50),
    (Do::Remove, 18),
    (Do::Replace, 10),
    (Do::Entry, 30),
    (Do::Fill, 14),
    (Do::Drain, 5),
    (Do::Retain, 12),
    (Do::Clear, 6),
    (Do::Clone, 10),
    (Do::CloneFrom, 8),
    (Do::Take, 4),
    (Do::Drop, 6),
    (Do::Collect, 8),
    (Do::Switch, 10),
    (Do::IterMut, 6),
    (Do::IntoIter, 18),
    (Do::Pull, 26),
    (Do::DropIter, 8),
    (Do::IntoFold, 6),
]);

struct Owning {
    it: Box<dyn It<'static>>,
    left: usize,
    /// Known for fixed keys.
    order: Option<VecDeque<u32>>,
}

fn run(new: fn() -> Box<dyn World>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut maps = vec![new(), new()];
    let mut models: Vec<BTreeMap<u32, u32>> = vec![BTreeMap::new(); 2];
    let mut hand: Vec<Val> = vec![];
    let mut its: Vec<Owning> = vec![];
    let mut at = 0;
    let (mut partial, mut overwritten) = (false, false);
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
        let base = (step as u32 + 1) * 1000;
        let stride = (op.a % 4 + 1) as usize;
        let (m, model) = (&mut maps[at], &mut models[at]);
        match (d, key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("map{at}.insert({}, {base})", name()));
                let old = m.insert(k, Val::new(base));
                overwritten |= old.is_some();
                model.insert(k.0, base);
                if op.a % 3 == 0 {
                    hand.extend(old);
                }
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("map{at}.remove({})", name()));
                let old = m.remove(k);
                model.remove(&k.0);
                if op.a % 2 == 0 {
                    hand.extend(old);
                }
            }
            (Do::Replace, Some(k)) => {
                obs.log(|| format!("map{at}.get_mut({}), swapping with another value", name()));
                if let Some(v) = m.get_mut(k) {
                    if hand.is_empty() {
                        hand.push(Val::new(base));
                    }
                    let h = hand.last_mut().unwrap();
                    model.insert(k.0, h.p);
                    std::mem::swap(v, h);
                }
            }
            (Do::Entry, Some(k)) => {
                let plan = Plan { bits: Rng(u64::from(op.a) << 8 | u64::from(op.k)).next(), base };
                let mut want = Log::default();
                ents::model(model, k.0, plan, &mut want);
                obs.log(|| format!("map{at}.entry({}): {:?}", name(), want.ev));
                m.entry(k, plan, &mut Log::default());
            }
            (Do::Fill, _) => {
                obs.log(|| format!("map{at}: insert every {stride}th key"));
                for i in (op.key as usize % stride..info.len.min(60)).step_by(stride) {
                    m.insert(KI(i as u32, false), Val::new(base));
                    model.insert(i as u32, base);
                }
            }
            (Do::Drain, _) => {
                obs.log(|| format!("map{at}: remove every {stride}th key"));
                for i in (op.key as usize % stride..info.len).step_by(stride) {
                    m.remove(KI(i as u32, false));
                    model.remove(&(i as u32));
                }
            }
            (Do::Retain, _) => {
                let keep = |k: u32| Rng(u64::from(op.a) << 32 | u64::from(k)).next() % 3 != 0;
                obs.log(|| format!("map{at}.retain(some keys), replacing values: {}", op.key % 2 == 0));
                m.retain(&mut |k, v| {
                    if op.key % 2 == 0 {
                        *v = Val::new(base);
                    }
                    keep(k)
                });
                model.retain(|k, v| {
                    if op.key % 2 == 0 {
                        *v = base;
                    }
                    keep(*k)
                });
            }
            (Do::Clear, _) => {
                obs.log(|| format!("map{at}.clear()"));
                m.clear();
                model.clear();
            }
            (Do::Clone, _) => {
                obs.log(|| format!("map{} = map{at}.clone()", 1 - at));
                maps[1 - at] = maps[at].dup();
                models[1 - at] = models[at].clone();
            }
            (Do::CloneFrom, _) => {
                obs.log(|| format!("map{}.clone_from(&map{at})", 1 - at));
                let (a, b) = maps.split_at_mut(1);
                let (from, to) = if at == 0 { (&a[0], &mut b[0]) } else { (&b[0], &mut a[0]) };
                to.dup_from(&**from);
                models[1 - at] = models[at].clone();
            }
            (Do::Take, _) => {
                obs.log(|| format!("map{} = take(map{at})", 1 - at));
                let t = maps[at].take();
                maps[1 - at] = t;
                models[1 - at] = std::mem::take(&mut models[at]);
            }
            (Do::Drop, _) => {
                obs.log(|| format!("drop(map{at})"));
                maps[at] = new();
                models[at].clear();
            }
            (Do::Collect, _) => {
                let n = (op.key % 12) as usize;
                let keys: Vec<u32> = (0..n).filter_map(|i| case.pick((i * 37) as u16 ^ op.key, info.len)).collect();
                obs.log(|| format!("map{at} = [{}].into_iter().collect()", keys.iter().map(|k| (info.show)(*k)).collect::<Vec<_>>().join(", ")));
                let c = m.collect(&mut keys.iter().enumerate().map(|(i, k)| (KI(*k, i % 2 == 0), Val::new(base + i as u32))));
                *m = c;
                *model = keys.iter().enumerate().map(|(i, k)| (*k, base + i as u32)).collect();
            }
            (Do::Switch, _) => at = 1 - at,
            (Do::IterMut, _) => {
                obs.log(|| format!("map{at}.iter_mut(), replacing values"));
                let mut i = 0;
                m.iter_mut(&mut |k, v| {
                    i += 1;
                    if i % stride == 0 {
                        *v = Val::new(base + k);
                        model.insert(k, base + k);
                    }
                });
            }
            (Do::IntoIter, _) => {
                if its.len() < 3 {
                    obs.log(|| format!("it{} = map{at}.into_iter()", its.len()));
                    let it = m.into_it();
                    let keys: VecDeque<u32> = model.keys().copied().collect();
                    model.clear();
                    its.push(Owning { it, left: keys.len(), order: (!info.dynamic).then_some(keys) });
                }
            }
            (Do::Pull, _) => {
                let n = its.len();
                if n > 0 {
                    let i = op.key as usize % n;
                    let o = &mut its[i];
                    let k = (op.a % 3) as usize;
                    let back = o.it.has_back() && op.a % 2 == 1;
                    obs.log(|| format!("it{i}.{}({k})", if back { "nth_back" } else { "nth" }));
                    let got = match (back, k) {
                        (true, 0) => o.it.next_back(),
                        (false, 0) => o.it.next(),
                        (true, _) => o.it.nth_back(k),
                        (false, _) => o.it.nth(k),
                    };
                    let some = o.left > k;
                    ensure!(got.is_some() == some, "step {step}: it{i} with {} items left yields {got:?}", o.left);
                    o.left = o.left.saturating_sub(k + 1);
                    if let Some(q) = &mut o.order {
                        let mut want = None;
                        for _ in 0..=k {
                            want = if back { q.pop_back() } else { q.pop_front() };
                        }
                        ensure!(got == want, "step {step}: it{i} yields {got:?}, expected {want:?}");
                    }
                    partial |= o.left > 0;
                }
            }
            (Do::DropIter, _) => {
                if !its.is_empty() {
                    let i = op.key as usize % its.len();
                    let o = its.remove(i);
                    match op.a % 5 {
                        0 | 1 => {
                            obs.log(|| format!("drop(it{i})"));
                            drop(o);
                        }
                        2 => {
                            obs.log(|| format!("it{i}.count()"));
                            let n = o.it.count();
                            ensure!(n == o.left, "step {step}: it{i} with {} items left counts {n}", o.left);
                        }
                        3 => {
                            obs.log(|| format!("it{i}.last()"));
                            let l = o.it.last();
                            ensure!(l.is_some() == (o.left > 0), "step {step}: it{i} with {} items left has a last item: {}", o.left, l.is_some());
                        }
                        _ => {
                            obs.log(|| format!("it{i}.clone() and fold"));
                            if let Some(c) = o.it.dup() {
                                its.push(Owning { it: c, left: o.left, order: o.order.clone() });
                            }
                            let mut n = 0;
                            o.it.fold(&mut |_| n += 1);
                            ensure!(n == o.left, "step {step}: it{i} with {} items left folds over {n}", o.left);
                        }
                    }
                }
            }
            (Do::IntoFold, _) => {
                obs.log(|| format!("map{at}.into_iter().for_each(keep some)"));
                let n = model.len();
                let mut seen = 0;
                m.into_fold(&mut |_, v| {
                    v.check();
                    seen += 1;
                    if seen % 2 == 0 {
                        hand.push(v);
                    }
                });
                model.clear();
                ensure!(seen == n, "step {step}: into_iter yields {seen} of {n} entries");
            }
            _ => {}
        }
        if hand.len() > 20 {
            hand.clear();
        }
        for v in &hand {
            v.check();
        }
        let want = models.iter().map(BTreeMap::len).sum::<usize>() + hand.len() + its.iter().map(|i| i.left).sum::<usize>();
        let live = snapshot().live;
        ensure!(live == want, "step {step}: {live} values are alive, expected {want} (maps {}, iterators {}, handed back {})", models.iter().map(BTreeMap::len).sum::<usize>(), its.iter().map(|i| i.left).sum::<usize>(), hand.len());
        let errs = fmcheck::val::errors();
        ensure!(errs.is_empty(), "step {step}: {}", errs.join("; "));
    }
    for i in 0..2 {
        same_map(&*maps[i], &models[i], &info).map_err(|e| format!("finally, map{i}: {e}"))?;
    }
    obs.log(|| "drop everything".into());
    drop(maps);
    drop(its);
    drop(hand);
    let live = snapshot().live;
    ensure!(live == 0, "finally: {live} values are alive after everything was dropped");
    if partial {
        obs.class("partially consumed owning iterator");
    }
    obs.nontrivial = overwritten && (partial || snapshot().drops > 5);
    if info.len == 0 {
        obs.nontrivial = case.ops.len() > 3;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C08", "proptest-generated histories of inserts, removals, swaps, entry operations, retain, clear, clone, clone_from, take, collect, drops and partially consumed (and cloned) owning iterators over values which register their construction and drop; after every call the live values are counted against the model and every access checks that the value is alive; non-trivial: some insert overwrote a value and either an owning iterator was left partially consumed or more than five values were dropped (for types without values: more than three operations)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(W(Map::<$t, Val>::new())), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 9000;
    c.thorough = 300_000;
    c.max_focus = 16;
    c.max_ops = 50;
    fmcheck::values::add(&mut c, fmcheck::values::Part::Drops);
    fmcheck::run::main(c)
}
