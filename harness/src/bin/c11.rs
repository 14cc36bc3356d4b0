//! C11: clones, equality and defaults are structural.
use fixed_map::{Map, Set};
use fmcheck::case::Case;
use fmcheck::cmp::*;
use fmcheck::keys::*;
use fmcheck::obj::*;
use fmcheck::run::{Check, Obs, Res};
use fmcheck::{ensure, for_each_key};

fmcheck::colls!(f64, u32);

fn run(new: &dyn Fn() -> Box<dyn Coll>, scale: Scale, info: Info, case: &Case, obs: &mut Obs) -> Res {
    let (mut equal, mut unequal) = (false, false);
    drive(new, scale, &info, case, obs, &mut |w, _| {
        for i in 0..3 {
            for j in 0..3 {
                let (eq, ne) = w.c[i].eq(&*w.c[j]);
                let want = model_eq(&w.m[i], &w.m[j], scale);
                ensure!(eq == want, "== is {eq} for {} and {}", show(&w.m[i], &info), show(&w.m[j], &info));
                ensure!(ne != eq, "!= is {ne} for {} and {}, and so is ==", show(&w.m[i], &info), show(&w.m[j], &info));
                if i != j && !w.m[i].is_empty() {
                    equal |= eq;
                    unequal |= !eq && w.m[i].len() == w.m[j].len();
                }
            }
            let got = w.c[i].contents();
            ensure!(got.iter().copied().eq(w.m[i].iter().map(|(a, b)| (*a, *b))), "#{i} contains {got:?}, expected {}", show(&w.m[i], &info));
        }
        for how in 0..3 {
            let e = w.c[0].fresh(how);
            ensure!(e.len() == 0 && e.is_empty() && e.contents().is_empty(), "a new collection contains {:?}", e.contents());
            for i in 0..3 {
                let want = w.m[i].is_empty();
                ensure!(e.eq(&*w.c[i]).0 == want && w.c[i].eq(&*e).0 == want, "an empty collection and {}: == is not {want}", show(&w.m[i], &info));
            }
        }
        Ok(())
    })?;
    if equal {
        obs.class("equal and non-empty with different histories");
    }
    if unequal {
        obs.class("different with equal sizes");
    }
    obs.nontrivial = equal || (info.len == 0 && case.ops.len() > 3);
    Ok(())
}

fn main() {
    let mut c = Check::new("C11", "proptest-generated histories over three collections (maps to f64, including NaN and -0.0, maps to u32, and sets) which are driven to equal and almost equal contents by different histories, clone, clone_from, copy, new and default; ==, != and contents are compared with a model after each of these; non-trivial: two non-empty collections were equal");
    macro_rules! add {
        ($id:ident $t:ty) => {
            c.add(concat!("Map<", stringify!($t), ", f64>"), |case, obs| run(&|| Box::new(C(Map::<$t, f64>::new())), scale::<f64>(), info::<$t>(), case, obs));
            c.add(concat!("Map<", stringify!($t), ", u32>"), |case, obs| run(&|| Box::new(C(Map::<$t, u32>::new())), scale::<u32>(), info::<$t>(), case, obs));
            c.add(concat!("Set<", stringify!($t), ">"), |case, obs| run(&|| Box::new(C(Set::<$t>::new())), scale::<()>(), info::<$t>(), case, obs));
        };
    }
    for_each_key!(add);
    c.quick = 2000;
    c.thorough = 100_000;
    c.max_focus = 8;
    c.max_ops = 30;
    fmcheck::values::add(&mut c, fmcheck::values::Part::Clones);
    fmcheck::run::main(c)
}
