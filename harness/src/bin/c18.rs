//! C18: Debug output lists exactly the entries like standard collections.
#![allow(unreachable_code, unused_variables)]
use std::collections::BTreeMap;
use std::fmt::{self, Debug, Write};

use fixed_map::{Map, Set};
use fmcheck::case::{Case, Table, OTHER};
use fmcheck::gen::Rng;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::{ensure, for_each_key};

/// A value with a Debug of many colours.
#[derive(Clone, PartialEq)]
enum Value {
    Int(u32),
    Float(f64),
    Text(String),
    Nested(Vec<Option<i8>>),
    Struct { a: u8, b: (bool, char) },
}

impl Debug for Value {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Value::Int(x) => Debug::fmt(x, f),
            Value::Float(x) => Debug::fmt(x, f),
            Value::Text(x) => Debug::fmt(x, f),
            Value::Nested(x) => Debug::fmt(x, f),
            Value::Struct { a, b } => f.debug_struct("Struct").field("a", a).field("b", b).finish(),
        }
    }
}

fn value(a: u32) -> Value {
    let mut r = Rng(u64::from(a));
    match a % 5 {
        0 => Value::Int(a),
        1 => Value::Float(f64::from(a) / 7.0),
        2 => Value::Text(["", "a\nb", "\"q\"", "\u{1f600}\0"][r.below(4) as usize].to_string()),
        3 => Value::Nested((0..r.below(3)).map(|i| if i == 1 { None } else { Some(r.next() as i8) }).collect()),
        _ => Value::Struct { a: r.next() as u8, b: (r.below(2) == 0, '\'') },
    }
}

/// The entries as a standard map or set, or list, in the given order.
struct AsMap<K>(Vec<(K, Value)>);
impl<K: Debug> Debug for AsMap<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_map().entries(self.0.iter().map(|(k, v)| (k, v))).finish()
    }
}
struct AsSet<K>(Vec<K>);
impl<K: Debug> Debug for AsSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_set().entries(self.0.iter()).finish()
    }
}

/// The elements as a list.
struct AsList<K>(Vec<K>);
impl<K: Debug> Debug for AsList<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_list().entries(self.0.iter()).finish()
    }
}

/// A writer which fails after some characters, however they are cut into
/// pieces.
struct Limited(String, usize);
impl Write for Limited {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        for c in s.chars() {
            if self.1 == 0 {
                return Err(fmt::Error);
            }
            self.1 -= 1;
            self.0.push(c);
        }
        Ok(())
    }
}

const FORMATS: usize = 14;

fn render(d: &dyn Debug, how: usize, limit: usize) -> String {
    match how {
        0 => format!("{d:?}"),
        1 => format!("{d:#?}"),
        2 => format!("{d:5?}"),
        3 => format!("{d:<8?}"),
        4 => format!("{d:^+09.3?}"),
        5 => format!("{d:#06x?}"),
        6 => format!("{d:X?}"),
        7 => format!("{d:#X?}"),
        8 => format!("{d:+?}"),
        9 => format!("{d:*>7?}"),
        10 => format!("{d:.0?}"),
        11 => format!("{:?}", Some((1, d))),
        12 => format!("{:#?}", vec![d, d]),
        _ => {
            let mut w = Limited(String::new(), limit);
            let r = write!(w, "{d:#?}");
            format!("{} {r:?}", w.0)
        }
    }
}

trait Obj {
    fn insert(&mut self, i: usize, k: KI, v: Value);
    fn remove(&mut self, i: usize, k: KI);
    /// The object and the reference, rendered.
    fn show(&self, what: usize, how: usize, limit: usize) -> (String, String);
    fn order(&self, i: usize) -> Vec<u32>;
}

struct O<K: TKey>([Map<K, Value>; 2], [Set<K>; 2]);

macro_rules! obj {
    ($id:ident $t:ty) => {
        impl Obj for O<$t> {
            fn insert(&mut self, i: usize, k: KI, v: Value) {
                self.0[i].insert(k.get(), v);
                self.1[i].insert(k.get());
            }
            fn remove(&mut self, i: usize, k: KI) {
                self.0[i].remove(k.get());
                self.1[i].remove(k.get());
            }
            fn show(&self, what: usize, how: usize, limit: usize) -> (String, String) {
                match what {
                    0 => (render(&self.0[0], how, limit), render(&AsMap(self.0[0].iter().map(|(k, v)| (k, v.clone())).collect()), how, limit)),
                    1 => (render(&self.1[0], how, limit), render(&AsSet(self.1[0].iter().collect()), how, limit)),
                    _ => {
                        let mut it = self.1[0].intersection(&self.1[1]);
                        for _ in 0..(limit % 5).saturating_sub(2) {
                            it.next();
                        }
                        let list: Vec<$t> = it.clone().collect();
                        (render(&it, how, limit), render(&AsList(list), how, limit))
                    }
                }
            }
            fn order(&self, i: usize) -> Vec<u32> {
                self.0[i].keys().map(|k| k.idx()).collect()
            }
        }
    };
}
for_each_key!(obj);

#[derive(Clone, Copy, Debug)]
enum Do {
    Insert,
    Remove,
    Show,
    Fill,
}

const OPS: Table<Do> = Table(&[(Do::Show, 120), (Do::Insert, 110), (Do::Remove, 20), (Do::Fill, 6)]);

fn run(new: fn() -> Box<dyn Obj>, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let mut o = new();
    let mut model: [BTreeMap<u32, Value>; 2] = Default::default();
    for (step, op) in case.ops.iter().enumerate() {
        let key = case.pick(op.key, info.len).map(|k| KI(k, op.key & OTHER != 0));
        let i = usize::from(op.a % 3 == 0);
        match (OPS.get(op.k), key) {
            (Do::Insert, Some(k)) => {
                let v = value(op.a.wrapping_mul(31).wrapping_add(u32::from(op.key)));
                obs.log(|| format!("#{i}.insert({}, {v:?})", (info.show)(k.0)));
                o.insert(i, k, v.clone());
                model[i].insert(k.0, v);
            }
            (Do::Remove, Some(k)) => {
                obs.log(|| format!("#{i}.remove({})", (info.show)(k.0)));
                o.remove(i, k);
                model[i].remove(&k.0);
            }
            (Do::Fill, _) => {
                for k in (0..info.len.min(60)).step_by(2) {
                    let v = value(k as u32);
                    o.insert(i, KI(k as u32, false), v.clone());
                    model[i].insert(k as u32, v);
                }
            }
            _ => {
                let what = (op.a % 3) as usize;
                let how = (op.key as usize) % FORMATS;
                let limit = (op.a / 3 % 60) as usize;
                let mut order = o.order(0);
                order.sort_unstable();
                ensure!(order.iter().eq(model[0].keys()), "step {step}: the map has the keys {order:?}, expected {:?}", model[0].keys());
                let (got, want) = o.show(what, how, limit);
                let name = ["map", "set", "intersection"][what];
                obs.log(|| format!("Debug of the {name}, format {how}: {got}"));
                obs.class(["map", "set", "intersection"][what]);
                ensure!(got == want, "step {step}: Debug of the {name} (format {how}) is\n{got}\nexpected\n{want}");
                obs.nontrivial |= what < 2 && model[0].len() > 1;
            }
        }
    }
    if info.len < 2 {
        obs.nontrivial = case.ops.len() > 1;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C18", "maps (to values with several kinds of Debug output), sets and intersections built by proptest-generated histories are formatted with 14 sets of formatting flags, nesting and failing writers, and compared with debug_map, debug_set and debug_list of the std over the same entries in iteration order; non-trivial: a collection of at least two entries was formatted (for types with fewer than two values: any)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(stringify!($t), |case, obs| run(|| Box::new(O::<$t>([Map::new(), Map::new()], [Set::new(), Set::new()])), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 8000;
    c.thorough = 60_000;
    c.max_ops = 30;
    fmcheck::run::main(c)
}
