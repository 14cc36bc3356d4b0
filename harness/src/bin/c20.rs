//! C20: deserialization of arbitrary input is total and faithful.
use std::collections::BTreeMap;

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::gen::Rng;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::tok::{self, RefMap, RefSet, Tok};
use fmcheck::val::{snapshot, Val};
use fmcheck::{ensure, for_each_key, for_each_small_key};
use serde::{Deserialize, Serialize};

trait SKey: TKey + Serialize + Deserialize<'static> {}
impl<K: TKey + Serialize + Deserialize<'static>> SKey for K {}

trait Obj {
    fn map(&mut self) -> &mut dyn BasicMap;
    fn set(&mut self) -> &mut dyn BasicSet;
    fn key_toks(&self, k: KI) -> Vec<Tok>;
    /// Whether these are exactly the tokens of a key: which one.
    fn key(&self, t: &[Tok], strict: bool) -> Option<u32>;
    fn de_map(&mut self, t: &[Tok], strict: bool) -> Result<(), tok::Error>;
    fn de_set(&mut self, t: &[Tok], strict: bool) -> Result<(), tok::Error>;
    fn lists(&self) -> (Vec<(u32, u32)>, Vec<u32>);
}

struct O<K: TKey>(M<K>, S<K>);

impl<K: SKey> Obj for O<K> {
    fn map(&mut self) -> &mut dyn BasicMap {
        &mut self.0
    }
    fn set(&mut self) -> &mut dyn BasicSet {
        &mut self.1
    }
    fn key_toks(&self, k: KI) -> Vec<Tok> {
        tok::tokens(&k.get::<K>()).unwrap()
    }
    fn key(&self, t: &[Tok], strict: bool) -> Option<u32> {
        tok::parse::<K>(t, strict).ok().map(|k| k.idx())
    }
    fn de_map(&mut self, t: &[Tok], strict: bool) -> Result<(), tok::Error> {
        self.0 .0 = tok::parse(t, strict)?;
        Ok(())
    }
    fn de_set(&mut self, t: &[Tok], strict: bool) -> Result<(), tok::Error> {
        self.1 .0 = tok::parse(t, strict)?;
        Ok(())
    }
    fn lists(&self) -> (Vec<(u32, u32)>, Vec<u32>) {
        (self.0 .0.iter().map(|(k, v)| (k.idx(), v.p)).collect(), self.1 .0.iter().map(|k| k.idx()).collect())
    }
}

#[derive(Clone, Copy, Debug)]
enum Do {
    Entry,
    BadKey,
    OddKey,
    BadValue,
    OddValue,
    NoValue,
}

const OPS: Table<Do> = Table(&[(Do::Entry, 246), (Do::BadKey, 2), (Do::OddKey, 2), (Do::BadValue, 2), (Do::OddValue, 2), (Do::NoValue, 2)]);

const ODD: &[&[Tok]] = &[
    &[Tok::Unit],
    &[Tok::Bool(true)],
    &[Tok::Char('x')],
    &[Tok::U(4_000_000_000)],
    &[Tok::U(u128::MAX)],
    &[Tok::I(-1)],
    &[Tok::I(i128::MIN)],
    &[Tok::Str("x")],
    &[Tok::Bytes(b"x")],
    &[Tok::None],
    &[Tok::Some, Tok::None],
    &[Tok::Some, Tok::Bool(false)],
    &[Tok::Some, Tok::Some, Tok::Unit],
    &[Tok::Seq(Some(0)), Tok::End],
    &[Tok::Map(None), Tok::End],
    &[Tok::Seq(None), Tok::U(1), Tok::U(1), Tok::End],
    &[Tok::Odd],
];

fn hint(x: u32, n: usize) -> Option<usize> {
    match x % 8 {
        0 | 1 => Some(n),
        2 => None,
        3 => Some(0),
        4 => Some(usize::MAX),
        5 => Some(n + 1),
        6 => Some(1 << 40),
        _ => Some(n / 2),
    }
}

/// Run one input through the map or the set and compare.
fn probe(o: &mut dyn Obj, info: &Info, toks: &[Tok], strict: bool, want: Option<&BTreeMap<u32, u32>>, map: bool, obs: &mut Obs) -> Res {
    // What is there before must not matter, or be kept.
    let before = snapshot().live;
    let held = o.map().len();
    let what = if map { "the map" } else { "the set" };
    let show = || format!("{toks:?}{}", if strict { " (strict)" } else { "" });
    let r = if map { o.de_map(toks, strict) } else { o.de_set(toks, strict) };
    match (r, want) {
        (Ok(()), Some(model)) => {
            if map {
                same_map(o.map(), model, info).map_err(|e| format!("{what} read from {}: {e}", show()))?;
                let live = snapshot().live;
                ensure!(live == before - held + model.len(), "{live} values are alive after reading a map of {} from {}", model.len(), show());
            } else {
                same_set(o.set(), &model.keys().copied().collect(), info).map_err(|e| format!("{what} read from {}: {e}", show()))?;
            }
            let (m, s) = o.lists();
            if map {
                ensure!(m.len() == model.len(), "iteration over the map read yields {m:?}");
            } else {
                ensure!(s.len() == model.len(), "iteration over the set read yields {s:?}");
            }
            obs.class(if map { "map read" } else { "set read" });
            Ok(())
        }
        (Err(_), None) => {
            let live = snapshot().live;
            ensure!(live == before, "{live} values are alive instead of {before} after a failed read of {}", show());
            obs.class(if map { "map error" } else { "set error" });
            Ok(())
        }
        (Ok(()), None) => Err(format!("{what} is read from malformed {}", show())),
        (Err(e), Some(_)) => Err(format!("{what} is not read from {}: {}", show(), e.0)),
    }
}

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut o = new();
    for strict in [false, true] {
        // Entries, and the contents if they are all well-formed.
        let (mut mt, mut st) = (Vec::new(), Vec::new());
        let (mut map, mut set) = (Some(BTreeMap::new()), Some(BTreeMap::new()));
        let (mut n, mut repeated) = (0, false);
        let mut r = Rng(u64::from(case.x));
        // Malformed entries are placed in half of the cases.
        let tame = case.x & 1 == 0;
        for (i, op) in case.ops.iter().enumerate() {
            let key = case.pick(op.key, info.len).map(|k| KI(k, op.key & OTHER != 0));
            let p = i as u32 * 3 + 1;
            let mut k: Vec<Tok> = key.map_or(vec![Tok::Odd], |k| o.key_toks(k));
            let mut v = vec![Tok::U(u128::from(p))];
            let what = if tame { Do::Entry } else { OPS.get(op.k) };
            match what {
                Do::Entry => {}
                Do::BadKey => k = vec![Tok::Bad],
                Do::OddKey => k = ODD[op.a as usize % ODD.len()].to_vec(),
                Do::BadValue => v = vec![Tok::Bad],
                Do::OddValue => v = ODD[op.a as usize % ODD.len()].to_vec(),
                Do::NoValue => v.clear(),
            }
            if key.is_none() && matches!(what, Do::Entry) {
                continue;
            }
            n += 1;
            obs.class(match what {
                Do::Entry => "entry",
                _ => "odd entry",
            });
            let kk = o.key(&k, strict);
            let vv = tok::parse::<u32>(&v, strict).ok();
            match (kk, &mut set) {
                (Some(k), Some(s)) => repeated |= s.insert(k, 0).is_some(),
                _ => set = None,
            }
            match (kk, vv, &mut map) {
                (Some(k), Some(v), Some(m)) => {
                    m.insert(k, v);
                }
                _ => map = None,
            }
            st.extend(k.iter().copied());
            mt.extend(k);
            mt.extend(&v);
            if matches!(what, Do::NoValue) {
                // Otherwise the next key is the value.
                break;
            }
        }
        // Keys outside of the pool have no index to compare.
        let outside = |m: &Option<BTreeMap<u32, u32>>| m.as_ref().is_some_and(|m| m.contains_key(&u32::MAX));
        if outside(&map) || outside(&set) {
            obs.class("key which is not tracked");
            return Ok(());
        }
        obs.log(|| format!("{n} entries: {mt:?}"));
        let (mh, sh) = (hint(r.next() as u32, n), hint(r.next() as u32, n));
        let wrap = |head: Tok, body: &[Tok]| {
            let mut t = vec![head];
            t.extend_from_slice(body);
            t.push(Tok::End);
            t
        };
        let (m, s) = (wrap(Tok::Map(mh), &mt), wrap(Tok::Seq(sh), &st));
        probe(&mut *o, &info, &m, strict, map.as_ref(), true, obs)?;
        probe(&mut *o, &info, &s, strict, set.as_ref(), false, obs)?;
        obs.nontrivial |= repeated || map.is_none() || (info.len < 2 && case.ops.len() > 1);
        // Truncated.
        let cut = r.below(m.len() as u64) as usize;
        probe(&mut *o, &info, &m[..cut], strict, None, true, obs)?;
        let cut = r.below(s.len() as u64) as usize;
        probe(&mut *o, &info, &s[..cut], strict, None, false, obs)?;
        // An error where the end should be.
        let mut t = m.clone();
        *t.last_mut().unwrap() = Tok::Bad;
        probe(&mut *o, &info, &t, strict, None, true, obs)?;
        let mut t = s.clone();
        *t.last_mut().unwrap() = Tok::Bad;
        probe(&mut *o, &info, &t, strict, None, false, obs)?;
        // Other shapes.
        probe(&mut *o, &info, &wrap(Tok::Seq(mh), &mt), strict, None, true, obs)?;
        probe(&mut *o, &info, &wrap(Tok::Map(sh), &mt), strict, None, false, obs)?;
        let odd = ODD[r.below(ODD.len() as u64) as usize];
        if !matches!(odd[0], Tok::Map(_)) {
            probe(&mut *o, &info, odd, strict, None, true, obs)?;
        }
        if !matches!(odd[0], Tok::Seq(_)) {
            probe(&mut *o, &info, odd, strict, None, false, obs)?;
        }
        let mut t = vec![Tok::Some];
        t.extend(&m);
        probe(&mut *o, &info, &t, strict, None, true, obs)?;
        let mut t = vec![Tok::Some];
        t.extend(&s);
        probe(&mut *o, &info, &t, strict, None, false, obs)?;
    }
    Ok(())
}

/// Mutate some bytes.
fn mutate(b: &mut Vec<u8>, r: &mut Rng, alphabet: &[u8]) {
    for _ in 0..r.below(4) {
        let at = r.below(b.len() as u64 + 1) as usize;
        let byte = |r: &mut Rng| if alphabet.is_empty() { (r.next() >> 9) as u8 } else { alphabet[r.below(alphabet.len() as u64) as usize] };
        match r.below(7) {
            0 => b.truncate(at),
            1 => b.insert(at, byte(r)),
            2 if at < b.len() => b[at] ^= 1 << r.below(8),
            3 if at < b.len() => b[at] = byte(r),
            4 if at < b.len() => {
                b.remove(at);
            }
            5 => {
                let to = (at + r.below(12) as usize).min(b.len());
                let part = b[at..to].to_vec();
                b.splice(at..at, part);
            }
            _ => {
                let to = (at + r.below(6) as usize).min(b.len());
                b.drain(at..to);
            }
        }
    }
}

/// JSON and bincode, mutated, compared with a list read from the same input.
fn formats<K: SKey>(case: &Case, obs: &mut Obs) -> Res
where
    K::MapStorage<Val>: PartialEq,
    K::SetStorage: PartialEq,
{
    let info = info::<K>();
    let mut r = Rng(u64::from(case.x));
    let entries: Vec<(K, Val)> = case.ops.iter().enumerate().filter_map(|(i, op)| case.pick(op.key, info.len).map(|k| (K::key(k), Val::new(i as u32 * 3)))).collect();
    let n = entries.len();
    let keys = RefSet(entries.iter().map(|e| e.0).collect());
    let entries = RefMap(entries);
    // Elements without any bytes make inputs of any length well-formed.
    let sized = info.len == 0 || bincode::serialized_size(&K::key(0)).unwrap() > 0;
    macro_rules! compare {
        ($what:expr, $get:expr, $want:expr, $show:expr) => {
            match ($get, $want) {
                (Ok(m), Ok(w)) => {
                    let m = m;
                    let n = w.0.len();
                    ensure!(m == w.0.into_iter().collect(), "{} read from {} differs from its {n} entries inserted in order", $what, $show);
                    obs.class(concat!($what, " read"));
                    obs.nontrivial |= n > 1;
                }
                (Err(_), Err(_)) => {
                    obs.class(concat!($what, " error"));
                    obs.nontrivial |= n > 1;
                }
                (Ok(_), Err(e)) => return Err(format!("{} is read from malformed {}: {e}", $what, $show)),
                (Err(e), Ok(_)) => return Err(format!("{} is not read from {}: {e}", $what, $show)),
            }
        };
    }
    for round in 0..4 {
        let live = snapshot().live;
        // SAFETY: what is read does not outlive the input.
        let mut b = bincode::serialize(&entries).unwrap();
        if round > 0 { mutate(&mut b, &mut r, &[]) }
        let input = unsafe { tok::forever(&b) };
        compare!("bincode map", bincode::deserialize::<Map<K, Val>>(input), bincode::deserialize::<RefMap<K, Val>>(input), format!("{b:?}"));
        if sized {
            let mut b = bincode::serialize(&keys).unwrap();
            if round > 0 { mutate(&mut b, &mut r, &[]) }
            let input = unsafe { tok::forever(&b) };
            compare!("bincode set", bincode::deserialize::<Set<K>>(input), bincode::deserialize::<RefSet<K>>(input), format!("{b:?}"));
        }
        if let Ok(mut b) = serde_json::to_vec(&entries) {
            if round > 0 { mutate(&mut b, &mut r, b"\"{}[]:,0123456789.-eE \\untrefals") }
            let input = unsafe { tok::forever(&b) };
            compare!("JSON map", serde_json::from_slice::<Map<K, Val>>(input), serde_json::from_slice::<RefMap<K, Val>>(input), String::from_utf8_lossy(&b));
        }
        let mut b = serde_json::to_vec(&keys).unwrap();
        if round > 0 { mutate(&mut b, &mut r, b"\"{}[]:,0123456789.-eE \\untrefals") }
        let input = unsafe { tok::forever(&b) };
        compare!("JSON set", serde_json::from_slice::<Set<K>>(input), serde_json::from_slice::<RefSet<K>>(input), String::from_utf8_lossy(&b));
        ensure!(snapshot().live == live, "{} values are alive instead of {live}", snapshot().live);
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C20", "token inputs built by proptest from well-formed, malformed and incomplete entries, with any size hint, truncated, wrapped and of other shapes are read as maps and sets, in self-describing and strict mode, and compared with inserting the entries in order, or required to fail without leaking values; for 25 key types also mutated bincode and JSON, compared with reading a list of entries; non-trivial: a key was repeated or an entry malformed (mutated inputs: made from at least two entries)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(O::<$t>(M(Map::new()), S(Set::new()))), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    macro_rules! add_formats {
        ($id:ident $t:ty) => {
            c.add(concat!(stringify!($t), " (bincode, JSON)"), formats::<$t>);
        };
    }
    for_each_small_key!(add_formats);
    c.quick = 3000;
    c.thorough = 150_000;
    c.max_ops = 25;
    fmcheck::run::main(c)
}
