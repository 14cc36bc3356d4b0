//! Generated uses of the entry API and their model.
use std::collections::BTreeMap;

use fixed_map::map::{Entry, OccupiedEntry, VacantEntry};
use fixed_map::Map;

use crate::keys::TKey;
use crate::obj::KI;
use crate::val::{tick, Val};

/// A script for one entry: decisions are read off the bits.
#[derive(Clone, Copy, Debug)]
pub struct Plan {
    pub bits: u64,
    /// Payloads are counted from here; at most 16 are used.
    pub base: u32,
}

struct Dice(u64, u32);

impl Dice {
    fn pick(&mut self, n: u64) -> u64 {
        let r = self.0 % n;
        self.0 /= n;
        r
    }
    fn fresh(&mut self) -> u32 {
        self.1 += 1;
        self.1
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    /// The key of the entry.
    Key(u32),
    /// The entry is occupied.
    Occupied(bool),
    /// A closure was called: with this value or key.
    Called(&'static str, u32),
    /// A value was seen through a reference.
    Saw(&'static str, u32),
    /// A value was moved out.
    Out(&'static str, u32),
}

#[derive(Default, Debug)]
pub struct Log {
    pub ev: Vec<Ev>,
    /// The address of the stored value according to the last reference which
    /// outlived the entry.
    pub at: Option<usize>,
}

fn write(v: &mut Val, d: &mut Dice) {
    match d.pick(3) {
        0 => {}
        1 => v.p = d.fresh(),
        _ => {
            let n = Val::new(d.fresh());
            drop(std::mem::replace(v, n));
        }
    }
}

pub fn drive<K: TKey>(map: &mut Map<K, Val>, k: KI, plan: Plan, log: &mut Log) {
    let d = &mut Dice(plan.bits, plan.base);
    let ev = &mut log.ev;
    let mut e = map.entry(k.get());
    if d.pick(2) == 0 {
        ev.push(Ev::Key(e.key().idx()));
    }
    for _ in 0..d.pick(4).saturating_sub(1) {
        e = e.and_modify(|v| {
            tick();
            ev.push(Ev::Called("and_modify", v.p));
            write(v, &mut Dice(plan.bits >> 3, plan.base + 8));
        });
    }
    let mut seen = |what, v: &mut Val, d: &mut Dice| {
        v.check();
        ev.push(Ev::Saw(what, v.p));
        log.at = Some(v as *const Val as usize);
        write(v, d);
    };
    match d.pick(8) {
        0 => {
            let v = e.or_insert(Val::new(d.fresh()));
            seen("or_insert", v, d)
        }
        1 => {
            let p = d.fresh();
            let mut calls = 0;
            let v = e.or_insert_with(|| {
                calls += 1;
                tick();
                Val::new(p)
            });
            seen("or_insert_with", v, d);
            ev.push(Ev::Called("or_insert_with", calls));
        }
        2 => {
            let p = d.fresh();
            let mut calls = vec![];
            let v = e.or_insert_with_key(|k| {
                calls.push(k.idx());
                tick();
                Val::new(p)
            });
            seen("or_insert_with_key", v, d);
            ev.extend(calls.into_iter().map(|k| Ev::Called("or_insert_with_key", k)));
        }
        3 => {
            let v = e.or_default();
            seen("or_default", v, d)
        }
        4 => {}
        _ => match e {
            Entry::Occupied(mut o) => {
                ev.push(Ev::Occupied(true));
                for _ in 0..d.pick(5) {
                    match d.pick(5) {
                        0 => ev.push(Ev::Key(o.key().idx())),
                        1 => {
                            o.get().check();
                            ev.push(Ev::Saw("get", o.get().p))
                        }
                        2 => {
                            let v = o.get_mut();
                            ev.push(Ev::Saw("get_mut", v.p));
                            write(v, d)
                        }
                        _ => {
                            let v = o.insert(Val::new(d.fresh()));
                            v.check();
                            ev.push(Ev::Out("OccupiedEntry::insert", v.p));
                        }
                    }
                }
                match d.pick(4) {
                    0 => {}
                    1 => {
                        let v = o.into_mut();
                        v.check();
                        ev.push(Ev::Saw("into_mut", v.p));
                        log.at = Some(v as *const Val as usize);
                        write(v, d);
                    }
                    _ => {
                        let v = o.remove();
                        v.check();
                        ev.push(Ev::Out("OccupiedEntry::remove", v.p));
                    }
                }
            }
            Entry::Vacant(o) => {
                ev.push(Ev::Occupied(false));
                for _ in 0..d.pick(3) {
                    ev.push(Ev::Key(o.key().idx()));
                }
                if d.pick(4) != 0 {
                    let v = o.insert(Val::new(d.fresh()));
                    v.check();
                    ev.push(Ev::Saw("VacantEntry::insert", v.p));
                    log.at = Some(v as *const Val as usize);
                    write(v, d);
                }
            }
        },
    }
}

fn model_write(v: &mut u32, d: &mut Dice) {
    match d.pick(3) {
        0 => {}
        _ => *v = d.fresh(),
    }
}

pub fn model(map: &mut BTreeMap<u32, u32>, k: u32, plan: Plan, log: &mut Log) {
    let d = &mut Dice(plan.bits, plan.base);
    let ev = &mut log.ev;
    if d.pick(2) == 0 {
        ev.push(Ev::Key(k));
    }
    for _ in 0..d.pick(4).saturating_sub(1) {
        if let Some(v) = map.get_mut(&k) {
            ev.push(Ev::Called("and_modify", *v));
            model_write(v, &mut Dice(plan.bits >> 3, plan.base + 8));
        }
    }
    let occupied = map.contains_key(&k);
    let kind = d.pick(8);
    match kind {
        0..=3 => {
            let p = if kind == 3 { 0 } else { d.fresh() };
            let v = map.entry(k).or_insert(p);
            let what = ["or_insert", "or_insert_with", "or_insert_with_key", "or_default"][kind as usize];
            ev.push(Ev::Saw(what, *v));
            model_write(v, d);
            if kind == 1 {
                ev.push(Ev::Called(what, u32::from(!occupied)));
            }
            if kind == 2 && !occupied {
                ev.push(Ev::Called(what, k));
            }
        }
        4 => {}
        _ => {
            ev.push(Ev::Occupied(occupied));
            if let Some(v) = map.get_mut(&k) {
                for _ in 0..d.pick(5) {
                    match d.pick(5) {
                        0 => ev.push(Ev::Key(k)),
                        1 => ev.push(Ev::Saw("get", *v)),
                        2 => {
                            ev.push(Ev::Saw("get_mut", *v));
                            model_write(v, d);
                        }
                        _ => {
                            let n = d.fresh();
                            ev.push(Ev::Out("OccupiedEntry::insert", std::mem::replace(v, n)));
                        }
                    }
                }
                match d.pick(4) {
                    0 => {}
                    1 => {
                        ev.push(Ev::Saw("into_mut", *v));
                        model_write(v, d);
                    }
                    _ => ev.push(Ev::Out("OccupiedEntry::remove", map.remove(&k).unwrap())),
                }
            } else {
                for _ in 0..d.pick(3) {
                    ev.push(Ev::Key(k));
                }
                if d.pick(4) != 0 {
                    let n = d.fresh();
                    ev.push(Ev::Saw("VacantEntry::insert", n));
                    let v = map.entry(k).or_insert(n);
                    model_write(v, d);
                }
            }
        }
    }
}
