//! C07: retain keeps exactly the accepted entries.
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::gen::Rng;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;
use fmcheck::{ensure, for_each_key};

trait ObjMap: BasicMap {
    fn retain(&mut self, f: &mut dyn FnMut(u32, &mut Val) -> bool);
}
impl<K: TKey> ObjMap for M<K> {
    fn retain(&mut self, f: &mut dyn FnMut(u32, &mut Val) -> bool) {
        self.0.retain(|k, v| f(k.idx(), v))
    }
}
trait ObjSet: BasicSet {
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool);
}
impl<K: TKey> ObjSet for S<K> {
    fn retain(&mut self, f: &mut dyn FnMut(u32) -> bool) {
        self.0.retain(|k| f(k.idx()))
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Fill,
    Retain,
    Clear,
}

const OPS: Table<Do> = Table(&[(Do::Insert, 110), (Do::Remove, 40), (Do::Fill, 26), (Do::Retain, 76), (Do::Clear, 4)]);

/// A generated predicate: it may depend on the key, the value and on how
/// often it was called.
struct Pred {
    kind: u32,
    a: u32,
    calls: u32,
}

impl Pred {
    fn new(a: u32) -> Pred {
        Pred { kind: a % 8, a: Rng(u64::from(a)).next() as u32, calls: 0 }
    }
    fn name(&self) -> &'static str {
        ["some keys", "all", "none", "one key", "all but one key", "by value", "every n-th call", "only the first calls"][self.kind as usize]
    }
    fn accept(&mut self, k: u32, p: u32) -> bool {
        self.calls += 1;
        let h = |x: u32| Rng(u64::from(self.a) << 32 | u64::from(x)).next() % 2 == 0;
        match self.kind {
            0 => h(k),
            1 => true,
            2 => false,
            3 => k % 7 == self.a % 7,
            4 => k % 7 != self.a % 7,
            5 => h(p),
            6 => self.calls % (self.a % 3 + 2) == 0,
            _ => self.calls <= self.a % 5,
        }
    }
}

fn run(new: fn() -> (Box<dyn ObjMap>, Box<dyn ObjSet>), info: Info, case: &Case, obs: &mut Obs) -> Res {
    let (mut m, mut s) = new();
    let mut model: BTreeMap<u32, u32> = BTreeMap::new();
    let mut set: BTreeSet<u32> = BTreeSet::new();
    let mut mixed = false;
    for (step, op) in case.ops.iter().enumerate() {
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let base = (step as u32 + 1) * 1000;
        match (OPS.get(op.k), key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({}, {base})", (info.show)(k.0)));
                m.insert(k, Val::new(base));
                model.insert(k.0, base);
                s.insert(k);
                set.insert(k.0);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", (info.show)(k.0)));
                m.remove(k);
                model.remove(&k.0);
                s.remove(k);
                set.remove(&k.0);
            }
            (Do::Fill, _) => {
                let stride = (op.a % 4 + 1) as usize;
                obs.log(|| format!("insert every {stride}th key"));
                for i in (op.key as usize % stride..info.len.min(300)).step_by(stride) {
                    let k = KI(i as u32, true);
                    m.insert(k, Val::new(base + i as u32));
                    model.insert(k.0, base + i as u32);
                    s.insert(k);
                    set.insert(k.0);
                }
            }
            (Do::Clear, _) => {
                obs.log(|| "clear()".into());
                m.clear();
                model.clear();
                s.clear();
                set.clear();
            }
            _ => {
                let mut pred = Pred::new(op.a);
                let writes = (op.key >> 1) % 3;
                obs.log(|| format!("map.retain({}{})", pred.name(), ["", ", writing to the value", ", replacing the value"][writes as usize]));
                obs.class(pred.name());
                let mut seen: BTreeMap<u32, u32> = BTreeMap::new();
                let mut twice = None;
                let mut kept: BTreeMap<u32, u32> = BTreeMap::new();
                let mut calls = 0usize;
                let limit = info.len + 10;
                m.retain(&mut |k, v| {
                    v.check();
                    calls += 1;
                    assert!(calls <= limit, "retain does not end");
                    let p = v.p;
                    if seen.insert(k, p).is_some() {
                        twice = Some(k);
                    }
                    match writes {
                        1 => v.p = base + calls as u32,
                        2 => *v = Val::new(base + calls as u32),
                        _ => {}
                    }
                    let r = pred.accept(k, p);
                    if r {
                        kept.insert(k, v.p);
                    }
                    r
                });
                ensure!(twice.is_none(), "step {step}: retain visits {} twice", twice.map_or(String::new(), |k| (info.show)(k)));
                if seen != model {
                    for (k, p) in &seen {
                        ensure!(model.contains_key(k), "step {step}: retain visits {}, which is absent", (info.show)(*k));
                        ensure!(model[k] == *p, "step {step}: retain visits {} with {p}, but its value is {}", (info.show)(*k), model[k]);
                    }
                    for k in model.keys() {
                        ensure!(seen.contains_key(k), "step {step}: retain does not visit {}", (info.show)(*k));
                    }
                }
                mixed |= !kept.is_empty() && kept.len() < seen.len();
                model = kept;
                same_map(&*m, &model, &info).map_err(|e| format!("step {step}: after retain: {e}"))?;
                let live = fmcheck::val::snapshot().live;
                ensure!(live == model.len(), "step {step}: {live} values are alive after retain kept {}", model.len());

                let mut pred = Pred::new(op.a.rotate_left(7) ^ step as u32);
                obs.log(|| format!("set.retain({})", pred.name()));
                let mut seen: BTreeSet<u32> = BTreeSet::new();
                let mut twice = None;
                let mut kept: BTreeSet<u32> = BTreeSet::new();
                let mut calls = 0usize;
                s.retain(&mut |k| {
                    calls += 1;
                    assert!(calls <= limit, "retain does not end");
                    if !seen.insert(k) {
                        twice = Some(k);
                    }
                    let r = pred.accept(k, k.wrapping_mul(7));
                    if r {
                        kept.insert(k);
                    }
                    r
                });
                ensure!(twice.is_none(), "step {step}: Set::retain visits {} twice", twice.map_or(String::new(), |k| (info.show)(k)));
                for k in &seen {
                    ensure!(set.contains(k), "step {step}: Set::retain visits {}, which is absent", (info.show)(*k));
                }
                for k in &set {
                    ensure!(seen.contains(k), "step {step}: Set::retain does not visit {}", (info.show)(*k));
                }
                mixed |= !kept.is_empty() && kept.len() < seen.len();
                set = kept;
                same_set(&*s, &set, &info).map_err(|e| format!("step {step}: after Set::retain: {e}"))?;
            }
        }
    }
    same_map(&*m, &model, &info).map_err(|e| format!("finally: {e}"))?;
    same_set(&*s, &set, &info).map_err(|e| format!("finally, set: {e}"))?;
    if mixed {
        obs.class("some entries kept, others removed");
    }
    obs.nontrivial = mixed || (info.len < 2 && case.ops.len() > 3);
    Ok(())
}

fn main() {
    let mut c = Check::new("C07", "proptest-generated histories of inserts, removals and retain calls on maps and sets with predicates depending on the key, the value and the number of calls, which also write to the values; the calls of the predicate and the contents afterwards are compared with a model; non-trivial: some retain kept some entries and removed others (for types with fewer than two values: more than three operations)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| (Box::new(M::<$t>(Map::new())), Box::new(S::<$t>(Set::new()))), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 4000;
    c.thorough = 400_000;
    c.max_focus = 16;
    fmcheck::values::add(&mut c, fmcheck::values::Part::Retain);
    fmcheck::run::main(c)
}
