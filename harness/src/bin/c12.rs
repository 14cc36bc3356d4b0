//! C12: collections order lexicographically in key order.
use std::cmp::Ordering;

use fixed_map::{Map, Set};
use fmcheck::case::Case;
use fmcheck::cmp::*;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::{ensure, for_each_fixed_key, for_each_unit_key};

fmcheck::colls!(f64, u32);

fn run(new: &dyn Fn() -> Box<dyn Coll>, scale: Scale, total: bool, required: bool, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let empty = new();
    let (partial, full) = (empty.part(&*empty).is_some(), empty.cmp(&*empty).is_some());
    ensure!(!required || partial, "PartialOrd is not implemented");
    ensure!(!required || !total || full, "Ord is not implemented");
    if !partial && !full {
        obs.class("not ordered");
        return Ok(());
    }
    let (mut less, mut none, mut deep) = (false, false, false);
    drive(new, scale, &info, case, obs, &mut |w, _| {
        let name = |i: usize| show(&w.m[i], &info);
        for i in 0..3 {
            for j in 0..3 {
                let want = model_part(&w.m[i], &w.m[j], scale);
                let (a, b) = (&w.c[i], &w.c[j]);
                if let Some((part, ops)) = a.part(&**b) {
                    ensure!(part == want, "partial_cmp is {part:?} for {} and {}, expected {want:?}", name(i), name(j));
                    let is = [want == Some(Ordering::Less), matches!(want, Some(Ordering::Less | Ordering::Equal)), want == Some(Ordering::Greater), matches!(want, Some(Ordering::Greater | Ordering::Equal))];
                    ensure!(ops == is, "<, <=, >, >= are {ops:?} for {} and {}, expected {is:?}", name(i), name(j));
                    ensure!((part == Some(Ordering::Equal)) == a.eq(&**b).0, "partial_cmp is {part:?} but == is {} for {} and {}", a.eq(&**b).0, name(i), name(j));
                }
                if let Some(c) = a.cmp(&**b) {
                    ensure!(Some(c) == want, "cmp is {c:?} for {} and {}, expected {want:?}", name(i), name(j));
                    for what in 0..2 {
                        let e = a.extreme(what, &**b, &**b).unwrap();
                        // The greater one for max, and either if they are equal.
                        let want = if (c == Ordering::Less) == (what == 0) { &w.m[i] } else { &w.m[j] };
                        ensure!(e.contents().iter().copied().eq(want.iter().map(|(a, b)| (*a, *b))) || (c == Ordering::Equal && e.eq(&**a).0), "{} of {} and {} is {:?}", ["min", "max"][what as usize], name(i), name(j), e.contents());
                    }
                    let k = 3usize.wrapping_sub(i + j);
                    if i != j && k < 3 && c != Ordering::Greater {
                        // Clamp the third between these.
                        let e = w.c[k].extreme(2, &**a, &**b).unwrap();
                        let x = model_part(&w.m[k], &w.m[i], scale);
                        let y = model_part(&w.m[k], &w.m[j], scale);
                        let want = if x == Some(Ordering::Less) { i } else if y == Some(Ordering::Greater) { j } else { k };
                        ensure!(e.contents().iter().copied().eq(w.m[want].iter().map(|(a, b)| (*a, *b))), "{}.clamp({}, {}) is {:?}", name(k), name(i), name(j), e.contents());
                    }
                }
                less |= want == Some(Ordering::Less);
                none |= want.is_none();
                deep |= i != j && want != Some(Ordering::Equal) && w.m[i].len() > 1 && w.m[j].len() > 1 && w.m[i].keys().next() == w.m[j].keys().next();
            }
        }
        Ok(())
    })?;
    if deep {
        obs.class("decided after a common first key");
    }
    if none {
        obs.class("incomparable");
    }
    obs.nontrivial = less;
    if info.len == 0 {
        obs.nontrivial = case.ops.len() > 3;
    }
    Ok(())
}

fn main() {
    let mut c = Check::new("C12", "proptest-generated histories over three collections (maps to f64, including NaN, maps to u32, and sets, regular and bitset) which are driven to equal and almost equal contents; partial_cmp, cmp, the four comparison operators, min, max and clamp are compared with the lexicographic comparison of the model's entries; non-trivial: some collection was less than another");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("Map<", stringify!($t), ", f64>"), |case, obs| run(&|| Box::new(C(Map::<$t, f64>::new())), scale::<f64>(), false, true, info::<$t>(), case, obs));
            c.add(concat!("Map<", stringify!($t), ", u32>"), |case, obs| run(&|| Box::new(C(Map::<$t, u32>::new())), scale::<u32>(), true, true, info::<$t>(), case, obs));
            c.add(concat!("Set<", stringify!($t), ">"), |case, obs| run(&|| Box::new(C(Set::<$t>::new())), scale::<()>(), true, true, info::<$t>(), case, obs));
        };
    }
    for_each_unit_key!(add);
    // Whatever else is ordered. Few cases where nothing is.
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("optional Map<", stringify!($t), ", f64>"), |case, obs| run(&|| Box::new(C(Map::<$t, f64>::new())), scale::<f64>(), false, false, info::<$t>(), case, obs));
            c.add(concat!("optional Map<", stringify!($t), ", u32>"), |case, obs| run(&|| Box::new(C(Map::<$t, u32>::new())), scale::<u32>(), true, false, info::<$t>(), case, obs));
            c.add(concat!("optional Set<", stringify!($t), ">"), |case, obs| run(&|| Box::new(C(Set::<$t>::new())), scale::<()>(), true, false, info::<$t>(), case, obs));
            for s in c.subjects.iter_mut().rev().take(3) {
                s.weight = 0.1;
            }
        };
    }
    for_each_fixed_key!(add);
    c.quick = 2500;
    c.thorough = 200_000;
    c.max_focus = 8;
    c.max_ops = 30;
    fmcheck::run::main(c)
}
