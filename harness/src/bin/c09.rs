//! C09: a panicking callback leaves collections usable.
#![allow(unreachable_code)]
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::ents::{self, Log, Plan};
use fmcheck::gen::Rng;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{known_finding, last_panic, Check, Obs, Res};
use fmcheck::val::{arm, disarm, snapshot, tick, Injected, Snapshot, Val};
use fmcheck::world::World;
use fmcheck::{ensure, for_each_key, world};

fmcheck::worlds!();

/// Sets with operations which call back.
trait Sets: BasicSet {
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool);
    fn visit(&self, f: &mut dyn FnMut(u32));
    fn into_visit(&mut self, f: &mut dyn FnMut(u32));
    fn collect(&mut self, it: &mut dyn Iterator<Item = KI>);
    fn common(&self, f: &mut dyn FnMut(u32));
}
impl<K: TKey> Sets for S<K> {
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool) {
        self.0.retain(|k| f(k.idx()))
    }
    fn visit(&self, f: &mut dyn FnMut(u32)) {
        self.0.iter().for_each(|k| f(k.idx()))
    }
    fn into_visit(&mut self, f: &mut dyn FnMut(u32)) {
        std::mem::take(&mut self.0).into_iter().for_each(|k| f(k.idx()))
    }
    fn collect(&mut self, it: &mut dyn Iterator<Item = KI>) {
        self.0 = it.map(|k| k.get::<K>()).collect();
    }
    fn common(&self, f: &mut dyn FnMut(u32)) {
        self.0.intersection(&self.0).for_each(|k| f(k.idx()))
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Fill,
    Clear,
    Entry,
    Retain,
    Clone,
    CloneFrom,
    Same,
    Debug,
    Hash,
    PartialCmp,
    Collect,
    Visit,
    IterMut,
    ValuesMut,
    IntoFold,
    SetRetain,
    SetVisit,
    SetIntoVisit,
    SetCollect,
    SetCommon,
}

const OPS: Table<Do> = Table(&[
    (Do::Insert, 50),
    (Do::Remove, 12),
    (Do::Fill, 20),
    (Do::Clear, 2),
    (Do::Entry, 30),
    (Do::Retain, 26),
    (Do::Clone, 14),
    (Do::CloneFrom, 10),
    (Do::Same, 8),
    (Do::Debug, 6),
    (Do::Hash, 6),
    (Do::PartialCmp, 6),
    (Do::Collect, 12),
    (Do::Visit, 6),
    (Do::IterMut, 8),
    (Do::ValuesMut, 6),
    (Do::IntoFold, 10),
    (Do::SetRetain, 10),
    (Do::SetVisit, 4),
    (Do::SetIntoVisit, 4),
    (Do::SetCollect, 5),
    (Do::SetCommon, 3),
]);

/// Payloads an operation may have stored, besides those stored before.
type New = BTreeSet<(u32, u32)>;

/// Everything the map shows must agree with itself: returns the contents.
fn coherent(m: &dyn World, info: &Info) -> Result<BTreeMap<u32, u32>, String> {
    let mut seen = BTreeMap::new();
    for i in 0..info.len as u32 {
        if let Some(v) = m.get(KI(i, false)) {
            v.check();
            seen.insert(i, v.p);
        }
    }
    same_map(m, &seen, info)?;
    let mut it = BTreeMap::new();
    let mut n = 0;
    m.visit(&mut |k, v| {
        v.check();
        it.insert(k, v.p);
        n += 1;
    });
    ensure!(it == seen && n == seen.len(), "iter shows {it:?}, but get shows {seen:?}");
    Ok(seen)
}

/// The id of the listed finding.
const LEAK: &str = "hashbrown-clone-panic-leak";
thread_local! {
    static KNOWN: bool = known_finding("C09", LEAK).is_some();
}

fn clones_of(before: &Snapshot) -> usize {
    (snapshot().clones - before.clones) as usize
}

fn run(new: fn() -> (Box<dyn World>, Box<dyn Sets>), info: Info, case: &Case, obs: &mut Obs) -> Res {
    let (mut a, mut s) = new();
    let (mut b, _) = new();
    let mut ma: BTreeMap<u32, u32> = BTreeMap::new();
    let mut mb: BTreeMap<u32, u32> = BTreeMap::new();
    let mut ms: BTreeSet<u32> = BTreeSet::new();
    let mut fired_total = 0;
    let mut after = 0;
    // Values lost to the listed finding.
    let mut leaked = 0;
    let listed = KNOWN.with(|k| *k);
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
        let base = (step as u32 + 1) * 1000;
        // The number of the callback which panics; 0 for none.
        let fuse = match op.a % 10 {
            n @ 1..=4 => u64::from(n),
            5 | 6 => Rng(u64::from(op.a ^ case.x)).next() % (info.len as u64 + 2),
            _ => 0,
        };
        let (before_a, before_b, before_s) = (ma.clone(), mb.clone(), ms.clone());
        let mut new_a: New = New::new();
        let mut new_s: BTreeSet<u32> = BTreeSet::new();
        // Whether the operation may change a and b at all.
        let mut writes = (false, false, false);
        let keys: Vec<u32> = (0..(op.key % 9) as usize).filter_map(|i| case.pick((i * 71) as u16 ^ op.key, info.len)).collect();
        let keep = |k: u32| Rng(u64::from(op.a) << 32 | u64::from(k)).next() % 3 != 0;
        let changed = |p: u32, i: u32| base + 20 + (p ^ i) % 17;
        let before = snapshot();
        arm(fuse);
        let r = catch_unwind(AssertUnwindSafe(|| match (d, key) {
            (Do::Insert, Some(k)) => {
                new_a.insert((k.0, base));
                writes.0 = true;
                a.insert(k, Val::new(base));
                ma.insert(k.0, base);
                s.insert(k);
                ms.insert(k.0);
                writes.2 = true;
                new_s.insert(k.0);
            }
            (Do::Remove, Some(k)) => {
                writes = (true, false, true);
                a.remove(k);
                ma.remove(&k.0);
                s.remove(k);
                ms.remove(&k.0);
            }
            (Do::Fill, _) => {
                let stride = (op.a % 4 + 1) as usize;
                writes = (true, false, true);
                for i in (op.key as usize % stride..info.len.min(50)).step_by(stride) {
                    let i = i as u32;
                    new_a.insert((i, base + i));
                    new_s.insert(i);
                    a.insert(KI(i, false), Val::new(base + i));
                    ma.insert(i, base + i);
                    s.insert(KI(i, false));
                    ms.insert(i);
                }
            }
            (Do::Clear, _) => {
                writes = (true, false, true);
                a.clear();
                ma.clear();
                s.clear();
                ms.clear();
            }
            (Do::Entry, Some(k)) => {
                let plan = Plan { bits: Rng(u64::from(op.a) << 8 | u64::from(op.k)).next(), base };
                writes.0 = true;
                for i in 0..20 {
                    new_a.insert((k.0, base + i));
                }
                new_a.insert((k.0, 0));
                a.entry(k, plan, &mut Log::default());
                ents::model(&mut ma, k.0, plan, &mut Log::default());
            }
            (Do::Retain, _) => {
                writes.0 = true;
                let mut calls = 0;
                for (k, p) in &ma {
                    new_a.insert((*k, changed(*p, *k)));
                }
                a.retain(&mut |k, v| {
                    calls += 1;
                    if op.key % 3 == 0 {
                        *v = Val::new(changed(v.p, k));
                    }
                    tick();
                    keep(k)
                });
                ma.retain(|k, v| {
                    if op.key % 3 == 0 {
                        *v = changed(*v, *k);
                    }
                    keep(*k)
                });
            }
            (Do::Clone, _) => {
                // The new map only replaces the old one when it is complete.
                b = a.dup();
                mb = ma.clone();
            }
            (Do::CloneFrom, _) => {
                writes.1 = true;
                b.dup_from(&*a);
                mb = ma.clone();
            }
            (Do::Same, _) => {
                let same = a.same(&*b);
                assert_eq!(same, ma == mb, "result of ==");
            }
            (Do::Debug, _) => {
                a.debug(op.key % 2 == 0);
            }
            (Do::Hash, _) => {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                a.hash(&mut h);
            }
            (Do::PartialCmp, _) => {
                a.partial_cmp(&*b);
            }
            (Do::Collect, _) => {
                let mut it = keys.iter().enumerate().map(|(i, k)| {
                    tick();
                    (KI(*k, i % 2 == 0), Val::new(base + i as u32))
                });
                let c = a.collect(&mut it);
                a = c;
                ma = keys.iter().enumerate().map(|(i, k)| (*k, base + i as u32)).collect();
            }
            (Do::Visit, _) => a.visit(&mut |_, v| {
                v.check();
                tick()
            }),
            (Do::IterMut, _) => {
                writes.0 = true;
                for (k, p) in &ma {
                    new_a.insert((*k, changed(*p, *k)));
                }
                a.iter_mut(&mut |k, v| {
                    *v = Val::new(changed(v.p, k));
                    tick();
                });
                for (k, v) in &mut ma {
                    *v = changed(*v, *k);
                }
            }
            (Do::ValuesMut, _) => {
                writes.0 = true;
                for (k, p) in &ma {
                    new_a.insert((*k, changed(*p, 0)));
                }
                a.values_mut(&mut |v| {
                    tick();
                    v.p = changed(v.p, 0);
                });
                for v in ma.values_mut() {
                    *v = changed(*v, 0);
                }
            }
            (Do::IntoFold, _) => {
                writes.0 = true;
                let mut hand = vec![];
                a.into_fold(&mut |_, v| {
                    v.check();
                    if op.key % 2 == 0 {
                        hand.push(v);
                    }
                    tick();
                });
                ma.clear();
            }
            (Do::SetRetain, _) => {
                writes.2 = true;
                s.retain(&mut |k| {
                    tick();
                    keep(k)
                });
                ms.retain(|k| keep(*k));
            }
            (Do::SetVisit, _) => s.visit(&mut |_| tick()),
            (Do::SetCommon, _) => s.common(&mut |_| tick()),
            (Do::SetIntoVisit, _) => {
                writes.2 = true;
                s.into_visit(&mut |_| tick());
                ms.clear();
            }
            (Do::SetCollect, _) => {
                s.collect(&mut keys.iter().map(|k| {
                    tick();
                    KI(*k, false)
                }));
                ms = keys.iter().copied().collect();
            }
            _ => {}
        }));
        let fired = disarm();
        obs.log(|| format!("{d:?} {}{}", name(), if fired { format!(", the {fuse}th callback panics") } else { String::new() }));
        match r {
            Ok(()) => {
                ensure!(!fired, "step {step}: {d:?}: a panic in a callback was swallowed");
                after += usize::from(fired_total > 0);
                coherent(&*a, &info).and_then(|_| same_map(&*a, &ma, &info)).map_err(|e| format!("step {step}: after {d:?} (earlier panics: {fired_total}): {e}"))?;
                if matches!(d, Do::Clone | Do::CloneFrom) {
                    same_map(&*b, &mb, &info).map_err(|e| format!("step {step}: after {d:?}: {e}"))?;
                }
                same_set(&*s, &ms, &info).map_err(|e| format!("step {step}: after {d:?}: {e}"))?;
            }
            Err(p) => {
                ensure!(p.is::<Injected>(), "step {step}: {d:?} panicked: {}", last_panic());
                fired_total += 1;
                obs.class(match d {
                    Do::Entry => "panic in an entry closure or Default",
                    Do::Retain => "panic in the predicate of retain",
                    Do::Clone | Do::CloneFrom => "panic in Clone",
                    Do::Same => "panic in PartialEq",
                    Do::Debug => "panic in Debug",
                    Do::Hash => "panic in Hash",
                    Do::PartialCmp => "panic in PartialOrd",
                    Do::Collect => "panic in the collected iterator",
                    Do::Visit | Do::IterMut | Do::ValuesMut => "panic while visiting",
                    Do::IntoFold => "panic while consuming",
                    _ => "panic in a set operation",
                });
                // The map and the set need not be what they were, but they
                // hold nothing which was not put there, and agree with
                // themselves.
                let what = |e: String| format!("step {step}: after a panic in {d:?}: {e}");
                ma = coherent(&*a, &info).map_err(what)?;
                for (k, p) in &ma {
                    let old = before_a.get(k) == Some(p);
                    ensure!(old || (writes.0 && new_a.contains(&(*k, *p))), "{}", what(format!("the map contains {}: {p}", (info.show)(*k))));
                }
                if !writes.0 {
                    ensure!(ma == before_a, "{}", what("a map which was only read has changed".into()));
                }
                mb = coherent(&*b, &info).map_err(what)?;
                for (k, p) in &mb {
                    ensure!(before_b.get(k) == Some(p) || (writes.1 && before_a.get(k) == Some(p)), "{}", what(format!("the clone contains {}: {p}", (info.show)(*k))));
                }
                if !writes.1 {
                    ensure!(mb == before_b, "{}", what("an unrelated map has changed".into()));
                }
                ms = (0..info.len as u32).filter(|i| s.contains(KI(*i, false))).collect();
                same_set(&*s, &ms, &info).map_err(what)?;
                let mut it = BTreeSet::new();
                let mut n = 0;
                s.visit(&mut |k| {
                    it.insert(k);
                    n += 1;
                });
                ensure!(it == ms && n == ms.len(), "{}", what("iter of the set does not agree with contains".into()));
                for k in &ms {
                    ensure!(before_s.contains(k) || new_s.contains(k), "{}", what(format!("the set contains {}", (info.show)(*k))));
                }
                if !writes.2 {
                    ensure!(ms == before_s, "{}", what("a set which was only read has changed".into()));
                }
            }
        }
        let surplus = snapshot().live.wrapping_sub(ma.len() + mb.len() + leaked);
        if fired && info.dynamic && listed && matches!(d, Do::Clone | Do::CloneFrom) && (1..=clones_of(&before)).contains(&surplus) {
            leaked += surplus;
            obs.known(LEAK);
        }
        let live = snapshot().live - leaked;
        ensure!(live == ma.len() + mb.len(), "step {step}: after {d:?}{}: {live} values are alive, the maps hold {}", if fired { " with a panic" } else { "" }, ma.len() + mb.len());
        let errs = fmcheck::val::errors();
        ensure!(errs.is_empty(), "step {step}: after {d:?}{}: {}", if fired { " with a panic" } else { "" }, errs.join("; "));
    }
    drop(a);
    drop(b);
    ensure!(snapshot().live == leaked, "finally: {} values are alive after everything was dropped", snapshot().live - leaked);
    obs.nontrivial = fired_total > 0 && after > 0;
    Ok(())
}

fn main() {
    let mut c = Check::new("C09", "proptest-generated histories in which the n-th callback of generated operations panics (retain predicates, entry closures, Default, Clone, PartialEq, PartialOrd, Hash, Debug, collected iterators, visits and folds); afterwards contents, views and live values must agree with each other, hold nothing foreign, and the history continues under exact comparison; non-trivial: some callback panicked and some operation followed");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| (Box::new(W(Map::<$t, Val>::new())), Box::new(S(Set::<$t>::new()))), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 2000;
    c.thorough = 200_000;
    c.max_focus = 16;
    fmcheck::run::main(c)
}
