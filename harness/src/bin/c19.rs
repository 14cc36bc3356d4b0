//! C19: serialization round-trips in every format.
use std::collections::{BTreeMap, BTreeSet};

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::tok::{self, RefMap, RefSet, Ser, Tok};
use fmcheck::val::{snapshot, Val};
use fmcheck::{ensure, for_each_key, for_each_small_key};
use serde::de::DeserializeSeed as _;
use serde::{Deserialize, Serialize};

trait SKey: TKey + Serialize + Deserialize<'static> {}
impl<K: TKey + Serialize + Deserialize<'static>> SKey for K {}

trait Obj {
    fn map(&mut self) -> &mut dyn BasicMap;
    fn set(&mut self) -> &mut dyn BasicSet;
    fn lists(&self) -> (Vec<(u32, u32)>, Vec<u32>);
    fn key_toks(&self, k: u32) -> Vec<Tok>;
    fn ser_map(&self, s: &mut Ser) -> Result<(), tok::Error>;
    fn ser_set(&self, s: &mut Ser) -> Result<(), tok::Error>;
    /// What is read back, and whether it is equal to the original.
    fn de_map(&self, t: &[Tok], strict: bool) -> Result<(Box<dyn Obj>, bool), tok::Error>;
    fn de_set(&self, t: &[Tok], strict: bool) -> Result<(Box<dyn Obj>, bool), tok::Error>;
    /// Read into a collection with other contents.
    fn in_place(&self, t: &[Tok], u: &[Tok], other: &[u32]) -> Result<(Box<dyn Obj>, bool), tok::Error>;
}

struct O<K: TKey>(M<K>, S<K>);

struct InPlace<'a, T>(&'a mut T);
impl<'a, T: Deserialize<'static>> serde::de::DeserializeSeed<'static> for InPlace<'a, T> {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'static>>(self, d: D) -> Result<(), D::Error> {
        T::deserialize_in_place(d, self.0)
    }
}

impl<K: SKey> Obj for O<K>
where
    K::MapStorage<Val>: PartialEq,
    K::SetStorage: PartialEq,
{
    fn map(&mut self) -> &mut dyn BasicMap {
        &mut self.0
    }
    fn set(&mut self) -> &mut dyn BasicSet {
        &mut self.1
    }
    fn lists(&self) -> (Vec<(u32, u32)>, Vec<u32>) {
        (self.0 .0.iter().map(|(k, v)| (k.idx(), v.p)).collect(), self.1 .0.iter().map(|k| k.idx()).collect())
    }
    fn key_toks(&self, k: u32) -> Vec<Tok> {
        tok::tokens(&K::key(k)).unwrap()
    }
    fn ser_map(&self, s: &mut Ser) -> Result<(), tok::Error> {
        self.0 .0.serialize(s)
    }
    fn ser_set(&self, s: &mut Ser) -> Result<(), tok::Error> {
        self.1 .0.serialize(s)
    }
    fn de_map(&self, t: &[Tok], strict: bool) -> Result<(Box<dyn Obj>, bool), tok::Error> {
        let m: Map<K, Val> = tok::parse(t, strict)?;
        let eq = m == self.0 .0;
        Ok((Box::new(O(M(m), S(Set::new()))), eq))
    }
    fn de_set(&self, t: &[Tok], strict: bool) -> Result<(Box<dyn Obj>, bool), tok::Error> {
        let s: Set<K> = tok::parse(t, strict)?;
        let eq = s == self.1 .0;
        Ok((Box::new(O(M(Map::new()), S(s))), eq))
    }
    fn in_place(&self, t: &[Tok], u: &[Tok], other: &[u32]) -> Result<(Box<dyn Obj>, bool), tok::Error> {
        let mut m: Map<K, Val> = other.iter().map(|k| (K::key(*k), Val::new(7))).collect();
        let mut s: Set<K> = other.iter().map(|k| K::key(*k)).collect();
        InPlace(&mut m).deserialize(&mut tok::De::new(t, true))?;
        InPlace(&mut s).deserialize(&mut tok::De::new(u, true))?;
        let eq = m == self.0 .0 && s == self.1 .0;
        Ok((Box::new(O(M(m), S(s))), eq))
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Check,
    Full,
    Fill,
    Clear,
}

const OPS: Table<Do> = Table(&[(Do::Check, 60), (Do::Insert, 140), (Do::Remove, 30), (Do::Full, 30), (Do::Fill, 4), (Do::Clear, 3)]);

type Model = BTreeMap<u32, u32>;

fn history(o: &mut dyn Obj, info: &Info, case: &Case, obs: &mut Obs, mut check: impl FnMut(&mut dyn Obj, &Model, u32, &mut Obs) -> Res) -> Res {
    let mut model = Model::new();
    let mut p = 0;
    for (step, op) in case.ops.iter().enumerate() {
        let key = case.pick(op.key, info.len).map(|k| KI(k, op.key & OTHER != 0));
        let mut put = |o: &mut dyn Obj, model: &mut Model, k: KI| {
            p += 1;
            o.map().insert(k, Val::new(p * 1000 + step as u32));
            o.set().insert(k);
            model.insert(k.0, p * 1000 + step as u32);
        };
        match (OPS.get(op.k), key) {
            (Do::Insert, Some(k)) => {
                obs.log(|| format!("insert({})", (info.show)(k.0)));
                put(o, &mut model, k);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("remove({})", (info.show)(k.0)));
                o.map().remove(k);
                o.set().remove(k);
                model.remove(&k.0);
            }
            (Do::Fill, Some(_)) => {
                obs.log(|| "insert all".to_string());
                for i in 0..info.len.min(150) as u32 {
                    put(o, &mut model, KI(i, false));
                }
            }
            (Do::Clear, _) => {
                o.map().clear();
                o.set().clear();
                model.clear();
            }
            (Do::Check, _) => {
                obs.log(|| format!("serialize with {} entries", model.len()));
                check(o, &model, op.a, obs).map_err(|e| format!("step {step}: {e}"))?;
                obs.nontrivial |= model.len() >= 2.min(info.len);
            }
            _ => {}
        }
    }
    obs.log(|| format!("serialize with {} entries", model.len()));
    obs.nontrivial |= model.len() >= 2.min(info.len);
    check(o, &model, case.x, obs).map_err(|e| format!("at the end: {e}"))
}

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut o = new();
    history(&mut *o, &info, case, obs, |o, model, a, obs| {
        let keys: BTreeSet<u32> = model.keys().copied().collect();
        let (pairs, elems) = o.lists();
        let mut sorted = pairs.clone();
        sorted.sort_unstable();
        ensure!(sorted.iter().copied().eq(model.iter().map(|(a, b)| (*a, *b))), "the map iterates over {pairs:?}");
        let (mut s, mut u) = (Ser::new(usize::MAX), Ser::new(usize::MAX));
        o.ser_map(&mut s).map_err(|e| format!("serializing the map: {}", e.0))?;
        o.ser_set(&mut u).map_err(|e| format!("serializing the set: {}", e.0))?;
        let mut want = vec![Tok::Map(Some(model.len()))];
        for (k, p) in &pairs {
            want.extend(o.key_toks(*k));
            want.push(Tok::U(u128::from(*p)));
        }
        want.push(Tok::End);
        ensure!(s.out == want && s.wrong.is_empty(), "the map serializes as {:?} {:?}, expected {want:?}", s.out, s.wrong);
        let mut want = vec![Tok::Seq(Some(keys.len()))];
        for k in &elems {
            want.extend(o.key_toks(*k));
        }
        want.push(Tok::End);
        ensure!(u.out == want && u.wrong.is_empty(), "the set serializes as {:?} {:?}, expected {want:?}", u.out, u.wrong);
        // Errors of the format come through.
        let limit = a as usize % s.out.len();
        ensure!(o.ser_map(&mut Ser::new(limit)).is_err(), "serializing the map ignores an error after {limit} tokens");
        let limit = a as usize % u.out.len();
        ensure!(o.ser_set(&mut Ser::new(limit)).is_err(), "serializing the set ignores an error after {limit} tokens");
        let live = snapshot().live;
        for strict in [true, false] {
            let (mut m, eq) = o.de_map(&s.out, strict).map_err(|e| format!("reading the map back: {}", e.0))?;
            same_map(m.map(), model, &info).map_err(|e| format!("the map read back: {e}"))?;
            ensure!(eq, "the map read back is not equal");
            let got = m.lists().0;
            ensure!(info.dynamic || got == pairs, "the map read back iterates over {got:?}");
            let (mut m, eq) = o.de_set(&u.out, strict).map_err(|e| format!("reading the set back: {}", e.0))?;
            same_set(m.set(), &keys, &info).map_err(|e| format!("the set read back: {e}"))?;
            ensure!(eq, "the set read back is not equal");
        }
        let other: Vec<u32> = (0..info.len.min(40) as u32).filter(|k| (k + a) % 3 == 0).collect();
        let (mut m, eq) = o.in_place(&s.out, &u.out, &other).map_err(|e| format!("reading in place: {}", e.0))?;
        same_map(m.map(), model, &info).map_err(|e| format!("the map read in place: {e}"))?;
        same_set(m.set(), &keys, &info).map_err(|e| format!("the set read in place: {e}"))?;
        ensure!(eq, "what is read in place is not equal");
        drop(m);
        ensure!(snapshot().live == live, "{} values are alive, not {live}", snapshot().live);
        obs.class("token format");
        Ok(())
    })
}

/// Formats in use, for some key types: compared with a list of the entries
/// which serializes as a map.
fn formats<K: SKey>(case: &Case, obs: &mut Obs) -> Res
where
    K::MapStorage<Val>: PartialEq,
    K::SetStorage: PartialEq,
    K::MapStorage<u32>: PartialEq,
{
    struct F<K: TKey>(O<K>);
    let info = info::<K>();
    let mut f = F(O::<K>(M(Map::new()), S(Set::new())));
    history(&mut f.0, &info, case, obs, |o, model, _, obs| {
        let (pairs, elems) = o.lists();
        let map: Map<K, u32> = model.iter().map(|(k, v)| (K::key(*k), *v)).collect();
        let set: Set<K> = elems.iter().map(|k| K::key(*k)).collect();
        let rmap = RefMap(map.iter().map(|(k, v)| (k, *v)).collect());
        let rset = RefSet(set.iter().collect());
        ensure!(pairs.len() == model.len() && elems.len() == model.len(), "iteration yields {pairs:?} and {elems:?}");
        // Binary.
        let b = bincode::serialize(&map).map_err(|e| format!("bincode: {e}"))?;
        ensure!(b == bincode::serialize(&rmap).unwrap(), "bincode writes a map of {} entries as {b:?}", model.len());
        let back: Map<K, u32> = bincode::deserialize(unsafe { tok::forever(&b) }).map_err(|e| format!("bincode reading the map back: {e}"))?;
        ensure!(back == map, "bincode: the map read back is not equal");
        let b = bincode::serialize(&set).map_err(|e| format!("bincode: {e}"))?;
        ensure!(b == bincode::serialize(&rset).unwrap(), "bincode writes a set of {} elements as {b:?}", model.len());
        let back: Set<K> = bincode::deserialize(unsafe { tok::forever(&b) }).map_err(|e| format!("bincode reading the set back: {e}"))?;
        ensure!(back == set, "bincode: the set read back is not equal");
        // Self-describing.
        match (serde_json::to_string(&map), serde_json::to_string(&rmap)) {
            (Ok(a), Ok(b)) => {
                ensure!(a == b, "JSON of a map is {a}, expected {b}");
                obs.class("JSON map");
                // SAFETY: what borrows from the text does not outlive it.
                let text = std::str::from_utf8(unsafe { tok::forever(a.as_bytes()) }).unwrap();
                let (back, want) = (serde_json::from_str::<Map<K, u32>>(text), serde_json::from_str::<RefMap<K, u32>>(text));
                match (back, want) {
                    (Ok(m), Ok(w)) => ensure!(m == w.0.into_iter().collect(), "the map read back from {text} is not equal"),
                    (Err(_), Err(_)) => obs.class("JSON keys which do not read back"),
                    (m, w) => return Err(format!("reading {text}: {:?}, but as a list: {:?}", m.err(), w.err())),
                }
                let (v, want) = (serde_json::to_value(&map), serde_json::to_value(&rmap));
                ensure!(v.is_ok() == want.is_ok(), "to_value of the map is {v:?}, expected {want:?}");
                if let (Ok(v), Ok(w)) = (v, want) {
                    ensure!(v == w, "to_value of the map is {v}, expected {w}");
                    if let Ok(m) = Map::<K, u32>::deserialize(v) {
                        ensure!(m == map, "the map read back from a value is not equal");
                        obs.class("JSON value");
                    }
                }
            }
            (Err(_), Err(_)) => obs.class("keys JSON does not support"),
            (a, b) => return Err(format!("JSON of the map is {a:?}, expected {b:?}")),
        }
        let (a, b) = (serde_json::to_string(&set).map_err(|e| format!("JSON of a set: {e}"))?, serde_json::to_string(&rset).unwrap());
        ensure!(a == b, "JSON of a set is {a}, expected {b}");
        // SAFETY: what borrows from the text does not outlive it.
                let text = std::str::from_utf8(unsafe { tok::forever(a.as_bytes()) }).unwrap();
        let (back, want) = (serde_json::from_str::<Set<K>>(text), serde_json::from_str::<RefSet<K>>(text));
        match (back, want) {
            (Ok(m), Ok(w)) => ensure!(m == w.0.into_iter().collect(), "the set read back from {text} is not equal"),
            (Err(_), Err(_)) => obs.class("JSON elements which do not read back"),
            (m, w) => return Err(format!("reading {text}: {:?}, but as a list: {:?}", m.err(), w.err())),
        }
        obs.class("bincode and JSON");
        Ok(())
    })
}

fn main() {
    let mut c = Check::new("C19", "maps and sets built by proptest-generated histories are written to a token format (checking shape, announced length, order and passing on of errors) and read back in self-describing and strict mode and in place; for 25 key types also bincode and JSON, compared with a list of the same entries and read back; non-trivial: a collection of at least two entries (or all, if there are fewer) was written");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(O::<$t>(M(Map::new()), S(Set::new()))), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    macro_rules! add_formats {
        ($id:ident $t:ty) => {
            c.add(concat!(stringify!($t), " (bincode, JSON)"), formats::<$t>);
        };
    }
    for_each_small_key!(add_formats);
    c.quick = 1500;
    c.thorough = 60_000;
    c.max_ops = 25;
    fmcheck::run::main(c)
}
