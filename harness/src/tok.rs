//! A serde format of our own: the serializer records every data-model call, the deserializer
//! plays back a value tree and can lie, fail and be strict about the types it is asked for.
use serde::de::{self, DeserializeSeed, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use std::cell::{Cell, RefCell};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub struct Error(pub String);
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result { f.write_str(&self.0) }
}
impl std::error::Error for Error {}
impl ser::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Self { Error(t.to_string()) }
}
impl de::Error for Error {
    fn custom<T: fmt::Display>(t: T) -> Self { Error(t.to_string()) }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Bool(bool), I(i128, u32), U(u128, u32), F(f64), Char(char), Str(String), Bytes(Vec<u8>), Unit, None, Some,
    UnitVariant(&'static str, u32, &'static str), Named(&'static str),
    Seq(Option<usize>), SeqEnd, Tuple(usize), TupleEnd, Map(Option<usize>), MapEnd, Struct(&'static str, usize), StructEnd,
}

/// Serializer: a log of calls, failing at call number `fail_at`.
pub struct Rec {
    pub toks: RefCell<Vec<Tok>>,
    pub human: bool,
    pub fail_at: usize,
    calls: Cell<usize>,
}
impl Rec {
    pub fn new(human: bool) -> Rec { Rec { toks: RefCell::new(vec![]), human, fail_at: usize::MAX, calls: Cell::new(0) } }
    fn put(&self, t: Tok) -> Result<(), Error> {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if n == self.fail_at { return Err(Error(format!("injected #{}", n))); }
        self.toks.borrow_mut().push(t);
        Ok(())
    }
    pub fn record<T: Serialize>(t: &T, human: bool) -> Result<Vec<Tok>, Error> {
        let r = Rec::new(human);
        t.serialize(&r)?;
        Ok(r.toks.into_inner())
    }
}
macro_rules! put {
    ($($f:ident($t:ty) $e:expr;)*) => { $(fn $f(self, v: $t) -> Result<(), Error> { let f: fn($t) -> Tok = $e; self.put(f(v)) })* };
}
impl<'a> ser::Serializer for &'a Rec {
    type Ok = (); type Error = Error;
    type SerializeSeq = Self; type SerializeTuple = Self; type SerializeTupleStruct = Self; type SerializeTupleVariant = Self;
    type SerializeMap = Self; type SerializeStruct = Self; type SerializeStructVariant = Self;
    put! {
        serialize_bool(bool) |v| Tok::Bool(v);
        serialize_i8(i8) |v| Tok::I(v as i128, 8); serialize_i16(i16) |v| Tok::I(v as i128, 16);
        serialize_i32(i32) |v| Tok::I(v as i128, 32); serialize_i64(i64) |v| Tok::I(v as i128, 64);
        serialize_i128(i128) |v| Tok::I(v, 128);
        serialize_u8(u8) |v| Tok::U(v as u128, 8); serialize_u16(u16) |v| Tok::U(v as u128, 16);
        serialize_u32(u32) |v| Tok::U(v as u128, 32); serialize_u64(u64) |v| Tok::U(v as u128, 64);
        serialize_u128(u128) |v| Tok::U(v, 128);
        serialize_f32(f32) |v| Tok::F(v as f64); serialize_f64(f64) |v| Tok::F(v);
        serialize_char(char) |v| Tok::Char(v); serialize_str(&str) |v| Tok::Str(v.to_string());
        serialize_bytes(&[u8]) |v| Tok::Bytes(v.to_vec());
    }
    fn serialize_none(self) -> Result<(), Error> { self.put(Tok::None) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> Result<(), Error> { self.put(Tok::Some)?; v.serialize(self) }
    fn serialize_unit(self) -> Result<(), Error> { self.put(Tok::Unit) }
    fn serialize_unit_struct(self, n: &'static str) -> Result<(), Error> { self.put(Tok::Named(n)) }
    fn serialize_unit_variant(self, n: &'static str, i: u32, v: &'static str) -> Result<(), Error> { self.put(Tok::UnitVariant(n, i, v)) }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, n: &'static str, v: &T) -> Result<(), Error> { self.put(Tok::Named(n))?; v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, n: &'static str, _: u32, _: &'static str, v: &T) -> Result<(), Error> { self.put(Tok::Named(n))?; v.serialize(self) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> { self.put(Tok::Seq(n))?; Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Self, Error> { self.put(Tok::Tuple(n))?; Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Error> { self.put(Tok::Tuple(n))?; Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, Error> { self.put(Tok::Tuple(n))?; Ok(self) }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Error> { self.put(Tok::Map(n))?; Ok(self) }
    fn serialize_struct(self, s: &'static str, n: usize) -> Result<Self, Error> { self.put(Tok::Struct(s, n))?; Ok(self) }
    fn serialize_struct_variant(self, s: &'static str, _: u32, _: &'static str, n: usize) -> Result<Self, Error> { self.put(Tok::Struct(s, n))?; Ok(self) }
    fn is_human_readable(&self) -> bool { self.human }
}
macro_rules! compound {
    ($($tr:ident $f:ident $end:ident;)*) => { $(impl<'a> ser::$tr for &'a Rec {
        type Ok = (); type Error = Error;
        fn $f<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&**self) }
        fn end(self) -> Result<(), Error> { self.put(Tok::$end) }
    })* };
}
compound! { SerializeSeq serialize_element SeqEnd; SerializeTuple serialize_element TupleEnd; SerializeTupleStruct serialize_field TupleEnd; SerializeTupleVariant serialize_field TupleEnd; }
impl<'a> ser::SerializeMap for &'a Rec {
    type Ok = (); type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&**self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> Result<(), Error> { v.serialize(&**self) }
    fn end(self) -> Result<(), Error> { self.put(Tok::MapEnd) }
}
impl<'a> ser::SerializeStruct for &'a Rec {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(&**self) }
    fn end(self) -> Result<(), Error> { self.put(Tok::StructEnd) }
}
impl<'a> ser::SerializeStructVariant for &'a Rec {
    type Ok = (); type Error = Error;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, v: &T) -> Result<(), Error> { v.serialize(&**self) }
    fn end(self) -> Result<(), Error> { self.put(Tok::StructEnd) }
}

/// A document.
#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Bool(bool), I(i128, u32), U(u128, u32), F(f64), Char(char), Str(String), Bytes(Vec<u8>), Unit, None, Some(Box<Val>),
    Variant(u32, String), Newtype(Box<Val>), Seq(Vec<Val>), Map(Vec<(Val, Val)>),
    /// The format fails here.
    Fail(u32),
}

/// How documents are presented.
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Mode {
    /// Only give a value to a caller that asks for exactly its type.
    pub strict: bool,
    pub human: bool,
    /// 0: true length, 1: no hint, 2: zero, 3: huge
    pub hint: u8,
}
pub struct De<'a> { pub v: &'a Val, pub mode: Mode }

impl Mode {
    pub fn read<T: for<'d> serde::Deserialize<'d>>(self, v: &Val) -> Result<T, Error> {
        T::deserialize(De { v, mode: self })
    }
    fn hint(self, n: usize) -> Option<usize> {
        match self.hint { 0 => Some(n), 1 => None, 2 => Some(0), _ => Some(usize::MAX) }
    }
}

/// Documents equal to what was recorded.
pub fn replay(toks: &[Tok]) -> Option<Val> {
    fn one(t: &[Tok], p: &mut usize) -> Option<Val> {
        let x = t.get(*p)?;
        *p += 1;
        Some(match x {
            Tok::Bool(b) => Val::Bool(*b), Tok::I(v, b) => Val::I(*v, *b), Tok::U(v, b) => Val::U(*v, *b), Tok::F(f) => Val::F(*f),
            Tok::Char(c) => Val::Char(*c), Tok::Str(s) => Val::Str(s.clone()), Tok::Bytes(b) => Val::Bytes(b.clone()),
            Tok::Unit => Val::Unit, Tok::None => Val::None, Tok::Some => Val::Some(Box::new(one(t, p)?)),
            Tok::UnitVariant(_, i, n) => Val::Variant(*i, n.to_string()), Tok::Named(_) => Val::Newtype(Box::new(one(t, p)?)),
            Tok::Seq(_) | Tok::Tuple(_) => { let mut v = vec![]; while !matches!(t.get(*p)?, Tok::SeqEnd | Tok::TupleEnd) { v.push(one(t, p)?); } *p += 1; Val::Seq(v) }
            Tok::Map(_) => { let mut v = vec![]; while !matches!(t.get(*p)?, Tok::MapEnd) { v.push((one(t, p)?, one(t, p)?)); } *p += 1; Val::Map(v) }
            _ => return None,
        })
    }
    let mut p = 0;
    let v = one(toks, &mut p)?;
    if p == toks.len() { Some(v) } else { None }
}

fn err<T>(s: impl fmt::Display) -> Result<T, Error> { Err(Error(s.to_string())) }

impl<'a> De<'a> {
    fn sub(&self, v: &'a Val) -> De<'a> { De { v, mode: self.mode } }
    fn any<'de, V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        match self.v {
            Val::Bool(b) => vis.visit_bool(*b),
            Val::I(v, b) => match b { 8 => vis.visit_i8(*v as i8), 16 => vis.visit_i16(*v as i16), 32 => vis.visit_i32(*v as i32), 64 => vis.visit_i64(*v as i64), _ => vis.visit_i128(*v) },
            Val::U(v, b) => match b { 8 => vis.visit_u8(*v as u8), 16 => vis.visit_u16(*v as u16), 32 => vis.visit_u32(*v as u32), 64 => vis.visit_u64(*v as u64), _ => vis.visit_u128(*v) },
            Val::F(f) => vis.visit_f64(*f),
            Val::Char(c) => vis.visit_char(*c),
            Val::Str(s) => if self.mode.hint == 1 { vis.visit_string(s.clone()) } else { vis.visit_str(s) },
            Val::Bytes(b) => vis.visit_bytes(b),
            Val::Unit => vis.visit_unit(),
            Val::None => vis.visit_none(),
            Val::Some(x) => { let d = self.sub(x); vis.visit_some(d) }
            Val::Newtype(x) => { let d = self.sub(x); vis.visit_newtype_struct(d) }
            Val::Variant(_, n) => vis.visit_str(n),
            Val::Seq(v) => {
                let mut acc = Acc { it: v.iter(), mode: self.mode };
                let r = vis.visit_seq(&mut acc)?;
                if acc.it.len() > 0 { return err("elements left over"); }
                Ok(r)
            }
            Val::Map(v) => {
                let mut acc = MAcc { it: v.iter(), val: None, mode: self.mode };
                let r = vis.visit_map(&mut acc)?;
                if acc.it.len() > 0 || acc.val.is_some() { return err("entries left over"); }
                Ok(r)
            }
            Val::Fail(n) => err(format!("injected #{}", n)),
        }
    }
}
struct Acc<'a> { it: std::slice::Iter<'a, Val>, mode: Mode }
impl<'de, 'a, 'b> SeqAccess<'de> for &'b mut Acc<'a> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.it.next() { None => Ok(None), Some(v) => s.deserialize(De { v, mode: self.mode }).map(Some) }
    }
    fn size_hint(&self) -> Option<usize> { self.mode.hint(self.it.len()) }
}
struct MAcc<'a> { it: std::slice::Iter<'a, (Val, Val)>, val: Option<&'a Val>, mode: Mode }
impl<'de, 'a, 'b> MapAccess<'de> for &'b mut MAcc<'a> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.it.next() { None => Ok(None), Some((k, v)) => { self.val = Some(v); s.deserialize(De { v: k, mode: self.mode }).map(Some) } }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        match self.val.take() { None => err("value without a key"), Some(v) => s.deserialize(De { v, mode: self.mode }) }
    }
    fn size_hint(&self) -> Option<usize> { self.mode.hint(self.it.len()) }
}
macro_rules! typed {
    ($($f:ident ($($p:tt)*);)*) => { $(fn $f<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        if self.mode.strict && !matches!(self.v, $($p)* | Val::Fail(_)) { return err(concat!("asked by ", stringify!($f))); }
        self.any(vis)
    })* };
}
impl<'de, 'a> de::Deserializer<'de> for De<'a> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> {
        if self.mode.strict { return err("not self-describing"); }
        self.any(vis)
    }
    typed! {
        deserialize_bool (Val::Bool(_)); deserialize_i8 (Val::I(_, 8)); deserialize_i16 (Val::I(_, 16)); deserialize_i32 (Val::I(_, 32));
        deserialize_i64 (Val::I(_, 64)); deserialize_i128 (Val::I(_, 128)); deserialize_u8 (Val::U(_, 8)); deserialize_u16 (Val::U(_, 16));
        deserialize_u32 (Val::U(_, 32)); deserialize_u64 (Val::U(_, 64)); deserialize_u128 (Val::U(_, 128));
        deserialize_f32 (Val::F(_)); deserialize_f64 (Val::F(_)); deserialize_char (Val::Char(_)); deserialize_str (Val::Str(_)); deserialize_string (Val::Str(_));
        deserialize_bytes (Val::Bytes(_)); deserialize_byte_buf (Val::Bytes(_)); deserialize_unit (Val::Unit);
        deserialize_seq (Val::Seq(_)); deserialize_map (Val::Map(_));
        deserialize_identifier (Val::Str(_) | Val::Variant(..)); deserialize_option (Val::None | Val::Some(_));
    }
    fn deserialize_unit_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> { self.any(vis) }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, vis: V) -> Result<V::Value, Error> { self.any(vis) }
    fn deserialize_tuple<V: Visitor<'de>>(self, n: usize, vis: V) -> Result<V::Value, Error> {
        if let (true, Val::Seq(v)) = (self.mode.strict, self.v) { if v.len() != n { return err("asked for a tuple of another length"); } }
        self.any(vis)
    }
    fn deserialize_tuple_struct<V: Visitor<'de>>(self, _: &'static str, _: usize, vis: V) -> Result<V::Value, Error> { self.any(vis) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, Error> { self.any(vis) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], vis: V) -> Result<V::Value, Error> {
        match self.v {
            Val::Variant(i, n) => vis.visit_enum(EAcc { idx: *i, name: n, by_index: self.mode.strict }),
            Val::Str(s) if !self.mode.strict => vis.visit_enum(EAcc { idx: 0, name: s, by_index: false }),
            Val::Fail(n) => err(format!("injected #{}", n)),
            _ => err("not a variant"),
        }
    }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, vis: V) -> Result<V::Value, Error> { self.any(vis) }
    fn is_human_readable(&self) -> bool { self.mode.human }
}
struct EAcc<'a> { idx: u32, name: &'a str, by_index: bool }
impl<'de, 'a> EnumAccess<'de> for EAcc<'a> {
    type Error = Error;
    type Variant = Unit;
    fn variant_seed<V: DeserializeSeed<'de>>(self, s: V) -> Result<(V::Value, Unit), Error> {
        if self.by_index {
            let d: de::value::U32Deserializer<Error> = self.idx.into_deserializer();
            Ok((s.deserialize(d)?, Unit))
        } else {
            let d: de::value::StrDeserializer<Error> = self.name.into_deserializer();
            Ok((s.deserialize(d)?, Unit))
        }
    }
}
pub struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Error> { err("a unit variant") }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> { err("a unit variant") }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> { err("a unit variant") }
}

pub fn modes() -> Vec<Mode> {
    let mut v = vec![];
    for strict in [false, true] {
        for human in [false, true] {
            v.push(Mode { strict, human, hint: 0 });
        }
    }
    for hint in 1..4 {
        v.push(Mode { strict: hint == 2, human: hint == 1, hint });
    }
    v
}
