//! What serde adds.
use std::fmt::{Debug, Write as _};

use fixed_map::{Key, Map, Set};
use serde::de::{Deserialize, Deserializer};
use serde::ser::{Serialize, Serializer};

use crate::{scrambled, sorted, Cased, Val};

#[path = "../../harness/src/tok.rs"]
#[allow(dead_code)]
mod tok;
use tok::Tok;

impl Serialize for Val {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_u8(self.0)
    }
}
impl<'de> Deserialize<'de> for Val {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        u8::deserialize(d).map(Val)
    }
}

#[macro_export]
macro_rules! by_index {
    ($n:ident) => {
        #[cfg(feature = "with_serde")]
        const _: () = {
            impl serde::Serialize for $n {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    s.serialize_u32(<$n as Pool>::pool().iter().position(|k| k == self).unwrap_or(999) as u32)
                }
            }
            impl<'de> serde::Deserialize<'de> for $n {
                fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    let i = <u32 as serde::Deserialize>::deserialize(d)?;
                    <$n as Pool>::pool().get(i as usize).copied().ok_or_else(|| serde::de::Error::custom("no such key"))
                }
            }
        };
    };
}

fn read<T: Deserialize<'static>>(toks: &[Tok], strict: bool, show: impl Fn(T) -> String) -> String {
    match tok::parse::<T>(toks, strict) {
        Ok(t) => show(t),
        Err(e) => e.0,
    }
}

/// The input, in ways which are more or less wrong.
fn changed(mut toks: Vec<Tok>, a: u8, at: u8) -> Vec<Tok> {
    let n = toks.len();
    let i = usize::from(at) * n / 256;
    match a % 12 {
        0 => {
            toks.remove(i);
        }
        1 => toks[i] = Tok::Bad,
        2 => toks[i] = Tok::Unit,
        3 => toks[i] = Tok::U(u128::from(at)),
        4 => toks[i] = Tok::Map(None),
        5 => toks[i] = Tok::Seq(Some(usize::from(a))),
        6 => toks.truncate(i),
        7 if n > 2 => {
            // An entry again.
            let more: Vec<Tok> = toks[1..n - 1].iter().rev().take(2).rev().copied().collect();
            toks.splice(n - 1..n - 1, more);
        }
        8 => toks[0] = Tok::Map(Some(usize::MAX)),
        9 => toks[0] = Tok::Seq(None),
        10 => toks.push(Tok::End),
        _ => toks.insert(i, Tok::U(u128::from(at / 3))),
    }
    toks
}

pub fn all<K: Key + Cased + Debug>(m: &Map<K, Val>, s: &Set<K>, op: &[u8; 2], dynamic: bool, out: &mut String) {
    let show_m = |m: Map<K, Val>| {
        let l = m.iter().map(|e| format!("{e:?}")).collect();
        sorted(l, dynamic)
    };
    let show_s = |m: Set<K>| {
        let l = m.iter().map(|e| format!("{e:?}")).collect();
        sorted(l, dynamic)
    };
    let (tm, ts) = (tok::tokens(m), tok::tokens(s));
    let _ = write!(out, "\n{} {}", scrambled(format!("{tm:?}"), dynamic), scrambled(format!("{ts:?}"), dynamic));
    if let (Ok(tm), Ok(ts)) = (tm, ts) {
        for strict in [false, true] {
            let _ = write!(out, "\n{} | {}", read(&tm, strict, show_m), read(&ts, strict, show_s));
            if !dynamic {
                let (tm, ts) = (changed(tm.clone(), op[0], op[1]), changed(ts.clone(), op[0], op[1]));
                let _ = write!(out, "\n{} | {}", read(&tm, strict, show_m), read(&ts, strict, show_s));
                let _ = write!(out, "\n{} | {}", read(&ts, strict, show_m), read(&tm, strict, show_s));
            }
        }
    }
}
