//! Generated uses of a single iterator, compared with a deque.
use std::collections::VecDeque;

use crate::case::{Case, Table};
use crate::ensure;
use crate::it::It;
use crate::obj::Info;
use crate::run::{Obs, Res};

/// Marks items whose value does not belong to their key.
pub const WRONG: u32 = 0x4000_0000;

#[derive(Clone, Copy, Debug)]
enum Do {
    Next,
    NextBack,
    Nth,
    NthBack,
    TryFold,
    TryRfold,
    Find,
    Position,
    Take,
    Clone,
    Switch,
    Terminal,
}

const OPS: Table<Do> = Table(&[
    (Do::Next, 60),
    (Do::NextBack, 60),
    (Do::Nth, 10),
    (Do::NthBack, 12),
    (Do::TryFold, 8),
    (Do::TryRfold, 8),
    (Do::Find, 4),
    (Do::Position, 4),
    (Do::Take, 5),
    (Do::Clone, 12),
    (Do::Switch, 14),
    (Do::Terminal, 16),
]);

struct Slot<'s> {
    it: Box<dyn It<'s> + 's>,
    rest: VecDeque<u32>,
    /// Must not be polled any more.
    done: bool,
}

fn hints(s: &Slot<'_>) -> Res {
    let n = s.rest.len();
    let (lo, hi) = s.it.size_hint();
    ensure!(lo <= n, "size_hint is ({lo}, {hi:?}) with {n} items remaining");
    ensure!(hi.map_or(true, |h| h >= n), "size_hint is ({lo}, {hi:?}) with {n} items remaining");
    if let Some(e) = s.it.exact() {
        ensure!(e == n, "len is {e} with {n} items remaining");
    }
    Ok(())
}

fn show(info: &Info, x: Option<u32>) -> String {
    match x {
        None => "None".into(),
        Some(x) if x & WRONG != 0 => format!("{} with a wrong value", (info.show)(x & !WRONG)),
        Some(x) => (info.show)(x),
    }
}

fn terminal<'s>(it: Box<dyn It<'s> + 's>, rest: &VecDeque<u32>, a: u32, obs: &mut Obs) -> Res {
    let back = it.has_back();
    let n = rest.len();
    let want: Vec<u32> = rest.iter().copied().collect();
    let rev: Vec<u32> = rest.iter().rev().copied().collect();
    let collect = |f: &mut dyn FnMut(&mut dyn FnMut(u32))| -> Result<Vec<u32>, String> {
        let mut out = vec![];
        f(&mut |x| {
            out.push(x);
            assert!(out.len() <= n + 3, "the iterator yields more than its {n} items");
        });
        Ok(out)
    };
    let kind = a % 10;
    let mut it = Some(it);
    obs.log(|| format!("  terminal {}", ["fold", "collect", "count", "last", "max", "rfold", "rev", "skip", "step_by", "try_fold"][kind as usize]));
    let (got, want, what) = match kind {
        0 => (collect(&mut |f| it.take().unwrap().fold(f))?, want, "fold"),
        1 => (it.take().unwrap().collect(), want, "collect"),
        2 => (vec![it.take().unwrap().count() as u32], vec![n as u32], "count"),
        3 => (it.take().unwrap().last().into_iter().collect(), want.last().copied().into_iter().collect(), "last"),
        4 => (it.take().unwrap().max().into_iter().collect(), want.iter().max().copied().into_iter().collect(), "max"),
        5 if back => (collect(&mut |f| it.take().unwrap().rfold(f))?, rev, "rfold"),
        6 if back => {
            let mut out = vec![];
            it.take().unwrap().rev_next(&mut |x| {
                out.push(x);
                out.len() <= n + 3
            });
            (out, rev, "rev")
        }
        7 => {
            let k = (a / 10) as usize % 4;
            (it.take().unwrap().skip_collect(k), want.into_iter().skip(k).collect(), "skip")
        }
        8 => {
            let k = 1 + (a / 10) as usize % 3;
            (it.take().unwrap().step_by_collect(k), want.into_iter().step_by(k).collect(), "step_by")
        }
        _ => {
            let mut out = vec![];
            it.as_mut().unwrap().try_fold(&mut |x| {
                out.push(x);
                out.len() <= n + 3
            });
            (out, want, "try_fold")
        }
    };
    ensure!(got == want, "{what} gives {got:?}, expected {want:?}");
    Ok(())
}

/// Apply the operations of the case to an iterator which must yield the given
/// sequence. Exhausted iterators are polled again if they are fused.
pub fn drive<'s>(it: Box<dyn It<'s> + 's>, fwd: &[u32], fused: bool, info: &Info, case: &Case, obs: &mut Obs) -> Res {
    let fwd: VecDeque<u32> = fwd.iter().copied().collect();
    // Marks are only written by the view they belong to.
    let total = fwd.len();
    let mut slots = vec![Slot { it, rest: fwd, done: false }];
    hints(&slots[0])?;
    let mut at = 0;
    let (mut front, mut back, mut cloned_partial) = (0, 0, false);
    for (step, op) in case.ops.iter().enumerate() {
        let d = OPS.get(op.k);
        let nslots = slots.len();
        let s = &mut slots[at];
        if s.done {
            if nslots == 1 {
                break;
            }
            at = (at + 1) % nslots;
            continue;
        }
        let n = (op.a % 4) as usize;
        match d {
            Do::NextBack if s.it.has_back() => {
                let (got, want) = (s.it.next_back(), s.rest.pop_back());
                obs.log(|| format!("#{at}.next_back() = {}", show(info, got)));
                ensure!(got == want, "step {step}: next_back returned {}, expected {}", show(info, got), show(info, want));
                back += usize::from(want.is_some());
            }
            Do::Nth => {
                let got = s.it.nth(n);
                obs.log(|| format!("#{at}.nth({n}) = {}", show(info, got)));
                for _ in 0..n {
                    s.rest.pop_front();
                }
                let want = s.rest.pop_front();
                ensure!(got == want, "step {step}: nth({n}) returned {}, expected {}", show(info, got), show(info, want));
                front += usize::from(want.is_some());
            }
            Do::NthBack if s.it.has_back() => {
                let got = s.it.nth_back(n);
                obs.log(|| format!("#{at}.nth_back({n}) = {}", show(info, got)));
                for _ in 0..n {
                    s.rest.pop_back();
                }
                let want = s.rest.pop_back();
                ensure!(got == want, "step {step}: nth_back({n}) returned {}, expected {}", show(info, got), show(info, want));
                back += usize::from(want.is_some());
            }
            Do::TryFold => {
                let stop = n + (op.a / 4 % 5) as usize;
                let mut got = vec![];
                s.it.try_fold(&mut |x| {
                    got.push(x);
                    got.len() <= stop
                });
                obs.log(|| format!("#{at}.try_fold stopping after {} items", stop + 1));
                let want: Vec<u32> = (0..=stop).map_while(|_| s.rest.pop_front()).collect();
                ensure!(got == want, "step {step}: try_fold gives {got:?}, expected {want:?}");
                front += want.len();
            }
            Do::TryRfold if s.it.has_back() => {
                let stop = n + (op.a / 4 % 5) as usize;
                let mut got = vec![];
                s.it.try_rfold(&mut |x| {
                    got.push(x);
                    got.len() <= stop
                });
                obs.log(|| format!("#{at}.try_rfold stopping after {} items", stop + 1));
                let want: Vec<u32> = (0..=stop).map_while(|_| s.rest.pop_back()).collect();
                ensure!(got == want, "step {step}: try_rfold gives {got:?}, expected {want:?}");
                back += want.len();
            }
            Do::Find => {
                let got = s.it.find_nth(n);
                obs.log(|| format!("#{at}.find(the {n}th) = {}", show(info, got)));
                for _ in 0..n {
                    s.rest.pop_front();
                }
                let want = s.rest.pop_front();
                ensure!(got == want, "step {step}: find returned {}, expected {}", show(info, got), show(info, want));
            }
            Do::Position => {
                let target = s.rest.get(n).copied().unwrap_or(u32::MAX - 1);
                let got = s.it.position(target);
                obs.log(|| format!("#{at}.position({target}) = {got:?}"));
                let want = s.rest.iter().position(|x| *x == target);
                for _ in 0..want.map_or(s.rest.len(), |w| w + 1) {
                    s.rest.pop_front();
                }
                ensure!(got == want, "step {step}: position returned {got:?}, expected {want:?}");
            }
            Do::Take => {
                let got = s.it.take(n);
                obs.log(|| format!("#{at}.by_ref().take({n}) = {got:?}"));
                let want: Vec<u32> = (0..n).map_while(|_| s.rest.pop_front()).collect();
                ensure!(got == want, "step {step}: take({n}) gives {got:?}, expected {want:?}");
            }
            Do::Clone => {
                if nslots < 4 {
                    if let Some(it) = s.it.dup() {
                        obs.log(|| format!("#{} = #{at}.clone()", "n"));
                        cloned_partial |= s.rest.len() < total && !s.rest.is_empty();
                        let rest = s.rest.clone();
                        slots.push(Slot { it, rest, done: false });
                    }
                }
            }
            Do::Switch => {
                at = (at + 1) % nslots;
                obs.log(|| format!("continue on #{at}"));
            }
            Do::Terminal => {
                if let Some(it) = s.it.dup() {
                    terminal(it, &s.rest, op.a, obs).map_err(|e| format!("step {step}: {e}"))?;
                } else if op.a % 8 == 7 {
                    let s = slots.remove(at);
                    terminal(s.it, &s.rest, op.a / 8, obs).map_err(|e| format!("step {step}: {e}"))?;
                    if slots.is_empty() {
                        obs.class("consumed by a terminal operation");
                        obs.nontrivial = total > 1;
                        return Ok(());
                    }
                    at = 0;
                }
            }
            Do::Next | Do::NextBack | Do::NthBack | Do::TryRfold => {
                let (got, want) = (s.it.next(), s.rest.pop_front());
                obs.log(|| format!("#{at}.next() = {}", show(info, got)));
                ensure!(got == want, "step {step}: next returned {}, expected {}", show(info, got), show(info, want));
                front += usize::from(want.is_some());
            }
        }
        if !fused {
            // The end may have been seen.
            for s in &mut slots {
                s.done |= s.rest.is_empty() && !matches!(d, Do::Next | Do::NextBack);
            }
        }
        for s in &slots {
            hints(s).map_err(|e| format!("step {step}: {e}"))?;
        }
    }
    // Drain what is left, alternating directions by the case argument.
    for (i, s) in slots.iter_mut().enumerate() {
        if s.done {
            continue;
        }
        let mut bits = case.x.rotate_right(i as u32 * 5);
        loop {
            bits = bits.rotate_left(1);
            let from_back = bits & 1 != 0 && s.it.has_back();
            let (got, want) = if from_back { (s.it.next_back(), s.rest.pop_back()) } else { (s.it.next(), s.rest.pop_front()) };
            ensure!(got == want, "draining #{i}: {} returned {}, expected {}", if from_back { "next_back" } else { "next" }, show(info, got), show(info, want));
            hints(s).map_err(|e| format!("draining #{i}: {e}"))?;
            if want.is_none() {
                break;
            }
        }
        if fused {
            for _ in 0..2 {
                let got = s.it.next();
                ensure!(got.is_none(), "exhausted #{i}: next returned {}", show(info, got));
                if s.it.has_back() {
                    let got = s.it.next_back();
                    ensure!(got.is_none(), "exhausted #{i}: next_back returned {}", show(info, got));
                }
            }
        }
        s.done = true;
    }
    if front > 0 && back > 0 {
        obs.class("consumed from both ends");
    }
    if cloned_partial {
        obs.class("cloned while partially consumed");
    }
    obs.nontrivial = total > 1 && case.ops.len() > 1;
    Ok(())
}

