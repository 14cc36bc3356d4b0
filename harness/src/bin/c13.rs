//! C13: hashing agrees with equality and separates different contents.
use std::collections::HashMap;
use std::hash::{Hash, Hasher};

use fixed_map::{Map, Set};
use fmcheck::case::Case;
use fmcheck::cmp::*;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::{ensure, for_each_fixed_key, for_each_unit_key};

fmcheck::colls!(u32);

/// Records everything it is fed, as single bytes and as calls.
#[derive(Default)]
struct Recorder {
    bytes: Vec<u8>,
    calls: Vec<usize>,
}

impl Hasher for Recorder {
    fn write(&mut self, b: &[u8]) {
        self.bytes.extend_from_slice(b);
        self.calls.push(b.len());
    }
    fn finish(&self) -> u64 {
        0
    }
}

struct Key(u64, Box<dyn Coll>);
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.1.eq(&*o.1).0
    }
}
impl Eq for Key {}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.1.hash(h);
    }
}

fn run(new: &dyn Fn() -> Box<dyn Coll>, scale: Scale, required: bool, info: Info, case: &Case, obs: &mut Obs) -> Res {
    if !new().hash(&mut Recorder::default()) {
        ensure!(!required, "Hash is not implemented");
        obs.class("not hashable");
        return Ok(());
    }
    let (mut equal, mut near) = (false, false);
    let mut table: HashMap<Key, Model> = HashMap::new();
    let mut n = 0;
    drive(new, scale, &info, case, obs, &mut |w, _| {
        let fed: Vec<Recorder> = w
            .c
            .iter()
            .map(|c| {
                let mut h = Recorder::default();
                c.hash(&mut h);
                h
            })
            .collect();
        let name = |i: usize| show(&w.m[i], &info);
        for i in 0..3 {
            for j in 0..i {
                if w.m[i] == w.m[j] {
                    ensure!(fed[i].bytes == fed[j].bytes && fed[i].calls == fed[j].calls, "two collections equal to {} are hashed differently: {:?} and {:?}", name(i), fed[i].bytes, fed[j].bytes);
                    equal |= !w.m[i].is_empty();
                } else {
                    ensure!(fed[i].bytes != fed[j].bytes || fed[i].calls != fed[j].calls, "{} and {} feed the same data to the hasher", name(i), name(j));
                    near |= w.m[i].len().abs_diff(w.m[j].len()) < 2;
                }
            }
        }
        n += 1;
        if n % 3 == 1 {
            for i in 0..3 {
                let k = Key(0, w.c[i].dup());
                let _ = k.0;
                if let Some(m) = table.insert(k, w.m[i].clone()) {
                    ensure!(m == w.m[i], "as keys of a HashMap, {} and {} are the same", name(i), show(&m, &info));
                }
                let k = Key(0, w.c[(i + 1) % 3].dup());
                let found = table.get(&k).is_some();
                let want = table.values().any(|m| *m == w.m[(i + 1) % 3]);
                ensure!(found == want, "as key of a HashMap, {} is found: {found}", name((i + 1) % 3));
            }
        }
        Ok(())
    })?;
    if near {
        obs.class("different in about one entry");
    }
    obs.nontrivial = equal && near;
    if info.len < 2 {
        obs.nontrivial = case.ops.len() > 3;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C13", "proptest-generated histories over three collections (maps to u32, and sets, regular and bitset) which are driven to equal and almost equal contents; what they feed to a recording hasher is equal exactly if their contents are, and they are found as keys of a HashMap; non-trivial: both equal non-empty and almost equal collections were hashed (for types with fewer than two values: more than three operations)");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("Map<", stringify!($t), ", u32>"), |case, obs| run(&|| Box::new(C(Map::<$t, u32>::new())), scale::<u32>(), true, info::<$t>(), case, obs));
            c.add(concat!("Set<", stringify!($t), ">"), |case, obs| run(&|| Box::new(C(Set::<$t>::new())), scale::<()>(), true, info::<$t>(), case, obs));
        };
    }
    for_each_unit_key!(add);
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("optional Map<", stringify!($t), ", u32>"), |case, obs| run(&|| Box::new(C(Map::<$t, u32>::new())), scale::<u32>(), false, info::<$t>(), case, obs));
            c.add(concat!("optional Set<", stringify!($t), ">"), |case, obs| run(&|| Box::new(C(Set::<$t>::new())), scale::<()>(), false, info::<$t>(), case, obs));
            for s in c.subjects.iter_mut().rev().take(2) {
                s.weight = 0.1;
            }
        };
    }
    for_each_fixed_key!(add);
    c.quick = 4000;
    c.thorough = 200_000;
    c.max_focus = 8;
    c.max_ops = 30;
    fmcheck::run::main(c)
}
