//! A serialization format of tokens, whose length announcements, size hints
//! and errors are under control.
use std::cell::RefCell;
use std::collections::HashSet;
use std::fmt;

use serde::de::{self, DeserializeSeed, Visitor};
use serde::ser::{self, Serialize};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok {
    Unit,
    Bool(bool),
    Char(char),
    U(u128),
    I(i128),
    Str(&'static str),
    Bytes(&'static [u8]),
    None,
    Some,
    Map(Option<usize>),
    Seq(Option<usize>),
    End,
    /// Reading it is an error.
    Bad,
    /// Some other shape.
    Odd,
}

#[derive(Debug, PartialEq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}
impl std::error::Error for Error {}
impl de::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(m: T) -> Self {
        Error(m.to_string())
    }
}

type R<T> = Result<T, Error>;

fn intern(s: &str) -> &'static str {
    thread_local!(static SEEN: RefCell<HashSet<&'static str>> = RefCell::default());
    SEEN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s) {
            return *x;
        }
        let x: &'static str = s.to_string().leak();
        m.insert(x);
        x
    })
}

fn intern_bytes(s: &[u8]) -> &'static [u8] {
    thread_local!(static SEEN: RefCell<HashSet<&'static [u8]>> = RefCell::default());
    SEEN.with(|m| {
        let mut m = m.borrow_mut();
        if let Some(x) = m.get(s) {
            return *x;
        }
        let x: &'static [u8] = s.to_vec().leak();
        m.insert(x);
        x
    })
}

/// The writer. It fails when more than `limit` tokens are written.
pub struct Ser {
    pub out: Vec<Tok>,
    pub limit: usize,
    /// Lengths announced for which a different number of items followed.
    pub wrong: Vec<String>,
    open: Vec<(Option<usize>, usize)>,
}

impl Ser {
    pub fn new(limit: usize) -> Ser {
        Ser { out: Vec::new(), limit, wrong: Vec::new(), open: Vec::new() }
    }
    /// Make room, so that writing does not allocate.
    pub fn reserve(&mut self, n: usize) {
        self.out.reserve(n);
        self.open.reserve(16);
    }
    fn put(&mut self, t: Tok) -> R<()> {
        if self.out.len() >= self.limit {
            return Err(Error("full".into()));
        }
        self.out.push(t);
        Ok(())
    }
    fn start(&mut self, len: Option<usize>) {
        self.open.push((len, 0));
    }
    fn item(&mut self) {
        if let Some(o) = self.open.last_mut() {
            o.1 += 1;
        }
    }
    fn finish(&mut self) -> R<()> {
        if let Some((len, n)) = self.open.pop() {
            if len.is_some_and(|l| l != n) {
                self.wrong.push(format!("announced {} items, wrote {n}", len.unwrap()));
            }
        }
        self.put(Tok::End)
    }
}

macro_rules! ser_int {
    ($($f:ident $t:ident $v:ident $w:ident,)*) => {$(
        fn $f(self, v: $t) -> R<()> { self.put(Tok::$v(v as $w)) }
    )*};
}
type No = ser::Impossible<(), Error>;

impl<'a> ser::Serializer for &'a mut Ser {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = No;
    type SerializeTupleStruct = No;
    type SerializeTupleVariant = No;
    type SerializeMap = Self;
    type SerializeStruct = No;
    type SerializeStructVariant = No;
    ser_int! {
        serialize_u8 u8 U u128, serialize_u16 u16 U u128, serialize_u32 u32 U u128, serialize_u64 u64 U u128, serialize_u128 u128 U u128,
        serialize_i8 i8 I i128, serialize_i16 i16 I i128, serialize_i32 i32 I i128, serialize_i64 i64 I i128, serialize_i128 i128 I i128,
    }
    fn serialize_bool(self, v: bool) -> R<()> {
        self.put(Tok::Bool(v))
    }
    fn serialize_f32(self, _: f32) -> R<()> {
        self.put(Tok::Odd)
    }
    fn serialize_f64(self, _: f64) -> R<()> {
        self.put(Tok::Odd)
    }
    fn serialize_char(self, v: char) -> R<()> {
        self.put(Tok::Char(v))
    }
    fn serialize_str(self, v: &str) -> R<()> {
        self.put(Tok::Str(intern(v)))
    }
    fn collect_str<T: fmt::Display + ?Sized>(self, v: &T) -> R<()> {
        self.put(Tok::Str(intern(&v.to_string())))
    }
    fn serialize_bytes(self, v: &[u8]) -> R<()> {
        self.put(Tok::Bytes(intern_bytes(v)))
    }
    fn serialize_none(self) -> R<()> {
        self.put(Tok::None)
    }
    fn serialize_some<T: Serialize + ?Sized>(self, v: &T) -> R<()> {
        self.put(Tok::Some)?;
        v.serialize(self)
    }
    fn serialize_unit(self) -> R<()> {
        self.put(Tok::Unit)
    }
    fn serialize_unit_struct(self, _: &'static str) -> R<()> {
        self.put(Tok::Odd)
    }
    fn serialize_unit_variant(self, _: &'static str, _: u32, _: &'static str) -> R<()> {
        self.put(Tok::Odd)
    }
    fn serialize_newtype_struct<T: Serialize + ?Sized>(self, _: &'static str, v: &T) -> R<()> {
        self.put(Tok::Odd)?;
        v.serialize(self)
    }
    fn serialize_newtype_variant<T: Serialize + ?Sized>(self, _: &'static str, _: u32, _: &'static str, v: &T) -> R<()> {
        self.put(Tok::Odd)?;
        v.serialize(self)
    }
    fn serialize_seq(self, len: Option<usize>) -> R<Self> {
        self.put(Tok::Seq(len))?;
        self.start(len);
        Ok(self)
    }
    fn serialize_tuple(self, _: usize) -> R<No> {
        Err(Error("tuple".into()))
    }
    fn serialize_tuple_struct(self, _: &'static str, _: usize) -> R<No> {
        Err(Error("tuple struct".into()))
    }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<No> {
        Err(Error("tuple variant".into()))
    }
    fn serialize_map(self, len: Option<usize>) -> R<Self> {
        self.put(Tok::Map(len))?;
        self.start(len);
        Ok(self)
    }
    fn serialize_struct(self, _: &'static str, _: usize) -> R<No> {
        Err(Error("struct".into()))
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> R<No> {
        Err(Error("struct variant".into()))
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

impl ser::SerializeSeq for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        self.item();
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        self.finish()
    }
}

impl ser::SerializeMap for &mut Ser {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        self.item();
        v.serialize(&mut **self)
    }
    fn serialize_value<T: Serialize + ?Sized>(&mut self, v: &T) -> R<()> {
        v.serialize(&mut **self)
    }
    fn end(self) -> R<()> {
        self.finish()
    }
}

/// The reader.
pub struct De<'a> {
    pub toks: &'a [Tok],
    pub at: usize,
    /// Not self-describing: what is read must be asked for.
    pub strict: bool,
}

impl<'a> De<'a> {
    pub fn new(toks: &'a [Tok], strict: bool) -> De<'a> {
        De { toks, at: 0, strict }
    }
    fn peek(&self) -> R<Tok> {
        self.toks.get(self.at).copied().ok_or_else(|| Error("end of input".into()))
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.peek()?;
        self.at += 1;
        Ok(t)
    }
    fn value<V: Visitor<'static>>(&mut self, v: V) -> R<V::Value> {
        match self.next()? {
            Tok::Unit => v.visit_unit(),
            Tok::Bool(b) => v.visit_bool(b),
            Tok::Char(c) => v.visit_char(c),
            Tok::U(x) => match u64::try_from(x) {
                Ok(x) => v.visit_u64(x),
                Err(_) => v.visit_u128(x),
            },
            Tok::I(x) => match i64::try_from(x) {
                Ok(x) => v.visit_i64(x),
                Err(_) => v.visit_i128(x),
            },
            Tok::Str(s) => v.visit_borrowed_str(s),
            Tok::Bytes(s) => v.visit_borrowed_bytes(s),
            Tok::None => v.visit_none(),
            Tok::Some => v.visit_some(self),
            Tok::Map(hint) => {
                let r = v.visit_map(Access { de: self, hint })?;
                self.close()?;
                Ok(r)
            }
            Tok::Seq(hint) => {
                let r = v.visit_seq(Access { de: self, hint })?;
                self.close()?;
                Ok(r)
            }
            t => Err(Error(format!("cannot read {t:?}"))),
        }
    }
    fn close(&mut self) -> R<()> {
        match self.next()? {
            Tok::End => Ok(()),
            t => Err(Error(format!("not read to the end: {t:?}"))),
        }
    }
    fn only<V: Visitor<'static>>(&mut self, v: V, ok: fn(&Tok) -> bool) -> R<V::Value> {
        let t = self.peek()?;
        if self.strict && !ok(&t) {
            return Err(Error(format!("found {t:?}")));
        }
        self.value(v)
    }
}

macro_rules! de_any {
    ($($f:ident)*) => {$(
        fn $f<V: Visitor<'static>>(self, v: V) -> R<V::Value> { self.value(v) }
    )*};
}

impl de::Deserializer<'static> for &mut De<'_> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'static>>(self, v: V) -> R<V::Value> {
        if self.strict {
            return Err(Error("not self-describing".into()));
        }
        self.value(v)
    }
    de_any! {
        deserialize_bool deserialize_i8 deserialize_i16 deserialize_i32 deserialize_i64 deserialize_i128
        deserialize_u8 deserialize_u16 deserialize_u32 deserialize_u64 deserialize_u128 deserialize_f32 deserialize_f64
        deserialize_char deserialize_str deserialize_string deserialize_option deserialize_unit deserialize_identifier
    }
    fn deserialize_bytes<V: Visitor<'static>>(self, v: V) -> R<V::Value> {
        // Byte slices serialize as sequences of numbers.
        if matches!(self.peek()?, Tok::Seq(_)) {
            self.at += 1;
            let mut out = Vec::new();
            loop {
                match self.next()? {
                    Tok::U(x) if x < 256 => out.push(x as u8),
                    Tok::End => return v.visit_borrowed_bytes(intern_bytes(&out)),
                    t => return Err(Error(format!("byte {t:?}"))),
                }
            }
        }
        self.value(v)
    }
    fn deserialize_byte_buf<V: Visitor<'static>>(self, v: V) -> R<V::Value> {
        self.deserialize_bytes(v)
    }
    fn deserialize_unit_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> R<V::Value> {
        self.value(v)
    }
    fn deserialize_newtype_struct<V: Visitor<'static>>(self, _: &'static str, v: V) -> R<V::Value> {
        self.only(v, |_| false)
    }
    fn deserialize_seq<V: Visitor<'static>>(self, v: V) -> R<V::Value> {
        self.only(v, |t| matches!(t, Tok::Seq(_)))
    }
    fn deserialize_tuple<V: Visitor<'static>>(self, _: usize, v: V) -> R<V::Value> {
        self.only(v, |_| false)
    }
    fn deserialize_tuple_struct<V: Visitor<'static>>(self, _: &'static str, _: usize, v: V) -> R<V::Value> {
        self.only(v, |_| false)
    }
    fn deserialize_map<V: Visitor<'static>>(self, v: V) -> R<V::Value> {
        self.only(v, |t| matches!(t, Tok::Map(_)))
    }
    fn deserialize_struct<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], v: V) -> R<V::Value> {
        self.only(v, |_| false)
    }
    fn deserialize_enum<V: Visitor<'static>>(self, _: &'static str, _: &'static [&'static str], _: V) -> R<V::Value> {
        Err(Error("enum".into()))
    }
    fn deserialize_ignored_any<V: Visitor<'static>>(self, v: V) -> R<V::Value> {
        self.value(v)
    }
    fn is_human_readable(&self) -> bool {
        false
    }
}

struct Access<'b, 'a> {
    de: &'b mut De<'a>,
    hint: Option<usize>,
}

impl Access<'_, '_> {
    fn item<T: DeserializeSeed<'static>>(&mut self, seed: T) -> R<Option<T::Value>> {
        if self.de.peek()? == Tok::End {
            return Ok(None);
        }
        seed.deserialize(&mut *self.de).map(Some)
    }
}

impl de::SeqAccess<'static> for Access<'_, '_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> R<Option<T::Value>> {
        self.item(seed)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

impl de::MapAccess<'static> for Access<'_, '_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> R<Option<T::Value>> {
        self.item(seed)
    }
    fn next_value_seed<T: DeserializeSeed<'static>>(&mut self, seed: T) -> R<T::Value> {
        if self.de.peek()? == Tok::End {
            return Err(Error("no value".into()));
        }
        seed.deserialize(&mut *self.de)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}

/// The tokens of a value.
pub fn tokens<T: Serialize>(t: &T) -> R<Vec<Tok>> {
    let mut s = Ser::new(usize::MAX);
    t.serialize(&mut s)?;
    Ok(s.out)
}

/// Read a value; all of the input must be used.
pub fn parse<T: de::Deserialize<'static>>(toks: &[Tok], strict: bool) -> R<T> {
    let mut d = De::new(toks, strict);
    let r = T::deserialize(&mut d)?;
    if d.at != toks.len() {
        return Err(Error(format!("{} tokens left", toks.len() - d.at)));
    }
    Ok(r)
}

/// Entries, as read from a map.
pub struct RefMap<K, V>(pub Vec<(K, V)>);
/// Elements, as read from a sequence.
pub struct RefSet<K>(pub Vec<K>);

impl<K: Serialize, V: Serialize> Serialize for RefMap<K, V> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_map(self.0.iter().map(|(k, v)| (k, v)))
    }
}
impl<K: Serialize> Serialize for RefSet<K> {
    fn serialize<S: ser::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_seq(&self.0)
    }
}
impl<'de, K: de::Deserialize<'de>, V: de::Deserialize<'de>> de::Deserialize<'de> for RefMap<K, V> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K, V>(std::marker::PhantomData<(K, V)>);
        impl<'de, K: de::Deserialize<'de>, V: de::Deserialize<'de>> Visitor<'de> for Vis<K, V> {
            type Value = RefMap<K, V>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a map")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut out = Vec::new();
                while let Some(e) = a.next_entry()? {
                    out.push(e);
                }
                Ok(RefMap(out))
            }
        }
        d.deserialize_map(Vis(std::marker::PhantomData))
    }
}
impl<'de, K: de::Deserialize<'de>> de::Deserialize<'de> for RefSet<K> {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct Vis<K>(std::marker::PhantomData<K>);
        impl<'de, K: de::Deserialize<'de>> Visitor<'de> for Vis<K> {
            type Value = RefSet<K>;
            fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str("a sequence")
            }
            fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                let mut out = Vec::new();
                while let Some(e) = a.next_element()? {
                    out.push(e);
                }
                Ok(RefSet(out))
            }
        }
        d.deserialize_seq(Vis(std::marker::PhantomData))
    }
}

/// # Safety
/// Nothing may keep what was read from the buffer for longer than it exists.
pub unsafe fn forever(b: &[u8]) -> &'static [u8] {
    std::slice::from_raw_parts(b.as_ptr(), b.len())
}
