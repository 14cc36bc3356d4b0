//! C06: the Entry API is equivalent to lookups, inserts and removals.
use std::collections::BTreeMap;

use fixed_map::Map;
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::ents::{self, Ev, Log, Plan};
use fmcheck::gen::Rng;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::val::Val;
use fmcheck::{ensure, for_each_key};

trait Obj: BasicMap {
    fn entry(&mut self, k: KI, plan: Plan, log: &mut Log);
}

impl<K: TKey> Obj for M<K> {
    fn entry(&mut self, k: KI, plan: Plan, log: &mut Log) {
        ents::drive(&mut self.0, k, plan, log)
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Entry,
    Insert,
    Remove,
    Clear,
    Fill,
}

const OPS: Table<Do> = Table(&[(Do::Entry, 180), (Do::Insert, 40), (Do::Remove, 26), (Do::Clear, 2), (Do::Fill, 8)]);

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut m = new();
    let mut model: BTreeMap<u32, u32> = BTreeMap::new();
    let (mut occupied, mut vacant) = (0, 0);
    for (step, op) in case.ops.iter().enumerate() {
        let key = case.pick(op.key, info.len).map(|i| KI(i, op.key & OTHER != 0));
        let name = || key.map_or("-".to_string(), |k| (info.show)(k.0));
        let base = (step as u32 + 1) * 100;
        match (OPS.get(op.k), key) {
            (Do::Entry, Some(k)) => {
                let plan = Plan { bits: Rng(u64::from(op.a) << 8 | u64::from(op.k)).next(), base };
                let before = model.contains_key(&k.0);
                let mut want = Log::default();
                ents::model(&mut model, k.0, plan, &mut want);
                let mut got = Log::default();
                m.entry(k, plan, &mut got);
                obs.log(|| format!("entry({}) with [{}]: {:?}", name(), if before { "occupied" } else { "vacant" }, want.ev));
                ensure!(got.ev == want.ev, "step {step}: entry({}) observes {:?}, expected {:?}", name(), got.ev, want.ev);
                if let Some(at) = got.at {
                    let stored = m.get(k).map(|v| v as *const Val as usize);
                    ensure!(stored == Some(at), "step {step}: entry({}) returned a reference to something other than the stored value", name());
                }
                for e in &want.ev {
                    match e {
                        Ev::Saw(w, _) | Ev::Out(w, _) => obs.class(w),
                        Ev::Called("and_modify", _) => obs.class("and_modify called"),
                        _ => {}
                    }
                }
                if before {
                    occupied += 1
                } else {
                    vacant += 1
                }
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", name()));
                let (got, want) = (m.remove(k).map(|v| v.p), model.remove(&k.0));
                ensure!(got == want, "step {step}: remove({}) returned {got:?}, expected {want:?}", name());
            }
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({}, {base})", name()));
                let (got, want) = (m.insert(k, Val::new(base)).map(|v| v.p), model.insert(k.0, base));
                ensure!(got == want, "step {step}: insert({}) returned {got:?}, expected {want:?}", name());
            }
            (Do::Fill, _) => {
                obs.log(|| "insert every second key".into());
                for i in (op.a as usize % 2..info.len.min(130)).step_by(2) {
                    m.insert(KI(i as u32, false), Val::new(base));
                    model.insert(i as u32, base);
                }
            }
            _ => {
                obs.log(|| "clear()".into());
                m.clear();
                model.clear();
            }
        }
        sizes(m.len(), m.is_empty(), model.len()).map_err(|e| format!("step {step}: {e}"))?;
        if info.len <= 24 || step % 8 == 7 {
            same_map(&*m, &model, &info).map_err(|e| format!("after step {step}: {e}"))?;
        } else if let Some(k) = key {
            let (got, want) = (m.get(k).map(|v| v.p), model.get(&k.0).copied());
            ensure!(got == want, "after step {step}: get({}) is {got:?}, expected {want:?}", name());
        }
    }
    same_map(&*m, &model, &info).map_err(|e| format!("finally: {e}"))?;
    obs.nontrivial = occupied > 0 && vacant > 0;
    Ok(())
}

fn main() {
    let mut c = Check::new("C06", "proptest-generated histories of entry calls (key, and_modify chains, or_insert*, or_default, all methods of OccupiedEntry and VacantEntry in generated sequences, writes through the returned references) mixed with inserts and removals, compared event by event (values seen, closures called, keys) with a BTreeMap; non-trivial: entries of both kinds were used");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(M::<$t>(Map::new())), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 10000;
    c.thorough = 400_000;
    fmcheck::values::add(&mut c, fmcheck::values::Part::Entry);
    fmcheck::run::main(c)
}
