//! A serde data format over a byte buffer.  Tokens:
//!   B bool, u1/u2/u4/u8, i1/i2/i4/i8 integers (kind 'u'|'i', width, value)
//!   S str, N none, O some, U unit, V unit variant (index, name)
//!   T struct (name, field count) { F key value }* E    (compact: T (count) value*)
//!   M map { key value }* E,  [ sequence (hint, 255 = none) value* ]
//!   X newtype struct (name) value
use core::fmt::{self, Display};
use serde::de::{self, DeserializeSeed, EnumAccess, Expected, MapAccess, SeqAccess, Unexpected, VariantAccess, Visitor};
use serde::ser::{self, Serialize};
use serde::{forward_to_deserialize_any, Deserializer, Serializer};

/// the kind of an error; messages are not kept
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Er(pub u8);
impl fmt::Debug for Er { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl Display for Er { fn fmt(&self, _: &mut fmt::Formatter) -> fmt::Result { Ok(()) } }
impl std::error::Error for Er {}
impl ser::Error for Er { fn custom<T: Display>(_: T) -> Er { Er(1) } }
impl de::Error for Er {
    fn custom<T: Display>(_: T) -> Er { Er(1) }
    fn invalid_type(_: Unexpected, _: &dyn Expected) -> Er { Er(2) }
    fn invalid_value(_: Unexpected, _: &dyn Expected) -> Er { Er(3) }
    fn invalid_length(_: usize, _: &dyn Expected) -> Er { Er(4) }
    fn unknown_variant(_: &str, _: &'static [&'static str]) -> Er { Er(5) }
    fn unknown_field(_: &str, _: &'static [&'static str]) -> Er { Er(6) }
    fn missing_field(_: &'static str) -> Er { Er(7) }
    fn duplicate_field(_: &'static str) -> Er { Er(8) }
}
pub const EOF: Er = Er(9);
pub const SYNTAX: Er = Er(10);

/// flags
pub const COMPACT: u32 = 1;   // like bincode: no keys, no self description, not human readable
pub const KEYS: u32 = 6;      // how identifiers are presented: 0 str, 2 borrowed str, 4 String, 6 bytes
pub const INDEX: u32 = 8;     // field identifiers presented by their number
pub const STRS: u32 = 0x30;   // how strings are presented: 0 str, 0x10 borrowed, 0x20 String
pub const WIDE: u32 = 0x40;   // integers presented as u64
pub const WIDEI: u32 = 0x80;  // integers presented as i64
pub const VINDEX: u32 = 0x100; // enum variants presented by their number

pub struct W { pub p: *mut u8, pub n: usize, pub flags: u32 }
impl W {
    #[inline(always)]
    fn b(&mut self, x: u8) { unsafe { self.p.add(self.n).write(x) } self.n += 1; }
    fn num(&mut self, k: u8, w: usize, v: u64) {
        self.b(k);
        self.b(w as u8);
        let mut v = v;
        for _ in 0..w { self.b(v as u8); v >>= 8; }
    }
    fn raw(&mut self, s: &str) {
        self.b(s.len() as u8);
        let s = s.as_bytes();
        let mut i = 0;
        while i < s.len() { self.b(s[i]); i += 1; }
    }
    fn compact(&self) -> bool { self.flags & COMPACT != 0 }
}
type R = Result<(), Er>;
impl<'a> Serializer for &'a mut W {
    type Ok = ();
    type Error = Er;
    type SerializeSeq = Self;
    type SerializeTuple = Self;
    type SerializeTupleStruct = Self;
    type SerializeTupleVariant = Self;
    type SerializeMap = Self;
    type SerializeStruct = Self;
    type SerializeStructVariant = Self;
    fn is_human_readable(&self) -> bool { !self.compact() }
    fn serialize_bool(self, v: bool) -> R { self.b(b'B'); self.b(v as u8); Ok(()) }
    fn serialize_i8(self, v: i8) -> R { self.num(b'i', 1, v as u64); Ok(()) }
    fn serialize_i16(self, v: i16) -> R { self.num(b'i', 2, v as u64); Ok(()) }
    fn serialize_i32(self, v: i32) -> R { self.num(b'i', 4, v as u64); Ok(()) }
    fn serialize_i64(self, v: i64) -> R { self.num(b'i', 8, v as u64); Ok(()) }
    fn serialize_u8(self, v: u8) -> R { self.num(b'u', 1, v as u64); Ok(()) }
    fn serialize_u16(self, v: u16) -> R { self.num(b'u', 2, v as u64); Ok(()) }
    fn serialize_u32(self, v: u32) -> R { self.num(b'u', 4, v as u64); Ok(()) }
    fn serialize_u64(self, v: u64) -> R { self.num(b'u', 8, v); Ok(()) }
    fn serialize_f32(self, _: f32) -> R { Err(SYNTAX) }
    fn serialize_f64(self, _: f64) -> R { Err(SYNTAX) }
    fn serialize_char(self, _: char) -> R { Err(SYNTAX) }
    fn serialize_str(self, v: &str) -> R { self.b(b'S'); self.raw(v); Ok(()) }
    fn serialize_bytes(self, _: &[u8]) -> R { Err(SYNTAX) }
    fn serialize_none(self) -> R { self.b(b'N'); Ok(()) }
    fn serialize_some<T: ?Sized + Serialize>(self, v: &T) -> R { self.b(b'O'); v.serialize(self) }
    fn serialize_unit(self) -> R { self.b(b'U'); Ok(()) }
    fn serialize_unit_struct(self, _: &'static str) -> R { self.b(b'U'); Ok(()) }
    fn serialize_unit_variant(self, _: &'static str, i: u32, s: &'static str) -> R {
        self.b(b'V'); self.b(i as u8); self.raw(s); Ok(())
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, v: &T) -> R { v.serialize(self) }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> R { Err(SYNTAX) }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Er> { self.b(b'['); self.b(n.unwrap_or(255) as u8); Ok(self) }
    fn serialize_tuple(self, n: usize) -> Result<Self, Er> { self.b(b'['); self.b(n as u8); Ok(self) }
    fn serialize_tuple_struct(self, _: &'static str, n: usize) -> Result<Self, Er> { self.b(b'['); self.b(n as u8); Ok(self) }
    fn serialize_tuple_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, Er> { Err(SYNTAX) }
    fn serialize_map(self, _: Option<usize>) -> Result<Self, Er> { self.b(b'M'); Ok(self) }
    fn serialize_struct(self, name: &'static str, n: usize) -> Result<Self, Er> {
        self.b(b'T');
        if !self.compact() { self.raw(name); }
        self.b(n as u8);
        Ok(self)
    }
    fn serialize_struct_variant(self, _: &'static str, _: u32, _: &'static str, _: usize) -> Result<Self, Er> { Err(SYNTAX) }
}
impl<'a> ser::SerializeSeq for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { self.b(b']'); Ok(()) }
}
impl<'a> ser::SerializeTuple for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { self.b(b']'); Ok(()) }
}
impl<'a> ser::SerializeTupleStruct for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { self.b(b']'); Ok(()) }
}
impl<'a> ser::SerializeTupleVariant for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { Ok(()) }
}
impl<'a> ser::SerializeMap for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, v: &T) -> R { v.serialize(&mut **self) }
    fn end(self) -> R { self.b(b'E'); Ok(()) }
}
impl<'a> ser::SerializeStruct for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, k: &'static str, v: &T) -> R {
        if !self.compact() { self.b(b'F'); self.raw(k); }
        v.serialize(&mut **self)
    }
    fn end(self) -> R { if !self.compact() { self.b(b'E'); } Ok(()) }
}
impl<'a> ser::SerializeStructVariant for &'a mut W {
    type Ok = ();
    type Error = Er;
    fn serialize_field<T: ?Sized + Serialize>(&mut self, _: &'static str, _: &T) -> R { Err(SYNTAX) }
    fn end(self) -> R { Err(SYNTAX) }
}

// ---------------------------------------------------------------------------
#[derive(Clone, Copy)]
pub struct Rd { pub p: *const u8, pub n: usize, pub at: usize, pub flags: u32 }
impl Rd {
    #[inline(always)]
    fn b(&mut self) -> Result<u8, Er> {
        if self.at >= self.n { return Err(EOF) }
        let x = unsafe { self.p.add(self.at).read() };
        self.at += 1;
        Ok(x)
    }
    fn peek(&self) -> Result<u8, Er> {
        if self.at >= self.n { return Err(EOF) }
        Ok(unsafe { self.p.add(self.at).read() })
    }
    fn num(&mut self, w: u8) -> Result<u64, Er> {
        let mut v = 0;
        let mut i = 0;
        while i < w { v |= (self.b()? as u64) << (8 * i as u32); i += 1; }
        Ok(v)
    }
    fn raw<'de>(&mut self) -> Result<&'de [u8], Er> {
        let k = self.b()? as usize;
        if self.at + k > self.n { return Err(EOF) }
        let s = unsafe { core::slice::from_raw_parts(self.p.add(self.at), k) };
        self.at += k;
        Ok(s)
    }
    fn s<'de>(&mut self) -> Result<&'de str, Er> { Ok(unsafe { core::str::from_utf8_unchecked(self.raw()?) }) }
    fn compact(&self) -> bool { self.flags & COMPACT != 0 }
    fn expect(&mut self, k: u8) -> R { if self.b()? == k { Ok(()) } else { Err(SYNTAX) } }
    fn give<'de, V: Visitor<'de>>(&self, s: &'de str, how: u32, v: V) -> Result<V::Value, Er> {
        match how {
            0 => v.visit_str(s),
            1 => v.visit_borrowed_str(s),
            2 => v.visit_string(s.into()),
            _ => v.visit_bytes(s.as_bytes()),
        }
    }
}

pub struct Seq<'a> { r: &'a mut Rd, left: usize, hint: Option<usize>, close: bool }
impl<'de, 'a> SeqAccess<'de> for Seq<'a> {
    type Error = Er;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<Option<T::Value>, Er> {
        if self.close {
            if self.r.peek()? == b']' { return Ok(None) }
        } else {
            if self.left == 0 { return Ok(None) }
            self.left -= 1;
        }
        if let Some(h) = self.hint.as_mut() { *h = h.wrapping_sub(1) }
        seed.deserialize(&mut *self.r).map(Some)
    }
    fn size_hint(&self) -> Option<usize> { if self.close { self.hint } else { Some(self.left) } }
}
pub struct Map<'a> { r: &'a mut Rd, fields: &'static [&'static str], skeys: bool }
pub struct Key<'de> { s: &'de str, r: Rd, fields: &'static [&'static str] }
impl<'de> Deserializer<'de> for Key<'de> {
    type Error = Er;
    fn is_human_readable(&self) -> bool { !self.r.compact() }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        if self.r.flags & INDEX != 0 && self.fields.len() == 18 {
            let mut i = 0;
            while i < self.fields.len() {
                if self.fields[i] == self.s { return v.visit_u64(i as u64) }
                i += 1;
            }
            return v.visit_u64(self.fields.len() as u64)
        }
        self.r.give(self.s, (self.r.flags & KEYS) >> 1, v)
    }
    forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}
impl<'de, 'a> MapAccess<'de> for Map<'a> {
    type Error = Er;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, seed: K) -> Result<Option<K::Value>, Er> {
        if self.r.peek()? == b'E' { return Ok(None) }
        self.r.expect(if self.skeys { b'F' } else { b'S' })?;
        let s = self.r.s()?;
        seed.deserialize(Key { s, r: *self.r, fields: self.fields }).map(Some)
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, seed: T) -> Result<T::Value, Er> { seed.deserialize(&mut *self.r) }
}
pub struct Var<'de> { i: u8, s: &'de str, r: Rd }
impl<'de> EnumAccess<'de> for Var<'de> {
    type Error = Er;
    type Variant = Self;
    fn variant_seed<V: DeserializeSeed<'de>>(self, seed: V) -> Result<(V::Value, Self), Er> {
        let v = if self.r.flags & VINDEX != 0 || self.r.compact() {
            seed.deserialize(de::value::U32Deserializer::<Er>::new(self.i as u32))?
        } else {
            let mut r = self.r;
            r.flags &= !INDEX;
            seed.deserialize(Key { s: self.s, r, fields: &[] })?
        };
        Ok((v, self))
    }
}
impl<'de> VariantAccess<'de> for Var<'de> {
    type Error = Er;
    fn unit_variant(self) -> R { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Er> { Err(Er(2)) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Er> { Err(Er(2)) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Er> { Err(Er(2)) }
}
impl Rd {
    fn any<'de, V: Visitor<'de>>(&mut self, fields: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        let k = self.b()?;
        match k {
            b'B' => { let x = self.b()?; v.visit_bool(x != 0) }
            b'u' | b'i' => {
                let w = self.b()?;
                let x = self.num(w)?;
                let s = k == b'i';
                if self.flags & WIDEI != 0 {
                    return v.visit_i64(if s && w == 1 { x as i8 as i64 } else if s && w == 2 { x as i16 as i64 } else if s && w == 4 { x as i32 as i64 } else { x as i64 })
                }
                if self.flags & WIDE != 0 && !s { return v.visit_u64(x) }
                match (s, w) {
                    (false, 1) => v.visit_u8(x as u8),
                    (false, 2) => v.visit_u16(x as u16),
                    (false, 4) => v.visit_u32(x as u32),
                    (false, _) => v.visit_u64(x),
                    (true, 1) => v.visit_i8(x as i8),
                    (true, 2) => v.visit_i16(x as i16),
                    (true, 4) => v.visit_i32(x as i32),
                    (true, _) => v.visit_i64(x as i64),
                }
            }
            b'S' => { let s = self.s()?; self.give(s, (self.flags & STRS) >> 4, v) }
            b'N' => v.visit_unit(),
            b'O' => self.any(fields, v),
            b'U' => v.visit_unit(),
            b'V' => { let _ = self.b()?; let s = self.s()?; self.give(s, (self.flags & STRS) >> 4, v) }
            b'T' => {
                if self.compact() {
                    let n = self.b()? as usize;
                    return v.visit_seq(Seq { r: self, left: n, hint: None, close: false })
                }
                let _ = self.s()?;
                let _ = self.b()?;
                let x = v.visit_map(Map { r: &mut *self, fields, skeys: true })?;
                self.expect(b'E')?;
                Ok(x)
            }
            b'M' => {
                let x = v.visit_map(Map { r: &mut *self, fields, skeys: false })?;
                self.expect(b'E')?;
                Ok(x)
            }
            b'[' => {
                let h = self.b()?;
                let x = v.visit_seq(Seq { r: &mut *self, left: 0, hint: if h == 255 { None } else { Some(h as usize) }, close: true })?;
                self.expect(b']')?;
                Ok(x)
            }
            _ => Err(SYNTAX),
        }
    }
}
impl<'de, 'a> Deserializer<'de> for &'a mut Rd {
    type Error = Er;
    fn is_human_readable(&self) -> bool { !self.compact() }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        if self.compact() { return Err(Er(11)) }        // such a format cannot
        self.any(&[], v)
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> {
        match self.peek()? {
            b'N' | b'U' => { let _ = self.b(); v.visit_none() }
            b'O' => { let _ = self.b(); v.visit_some(self) }
            _ if self.compact() => Err(SYNTAX),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        if self.compact() {
            self.expect(b'T')?;
            let _ = self.b()?;
            return v.visit_seq(Seq { r: self, left: f.len(), hint: None, close: false })
        }
        self.any(f, v)
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Er> { v.visit_newtype_struct(self) }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, _: &'static [&'static str], v: V) -> Result<V::Value, Er> {
        match self.b()? {
            b'V' => { let i = self.b()?; let s = self.s()?; v.visit_enum(Var { i, s, r: *self }) }
            b'S' if !self.compact() => { let s = self.s()?; v.visit_enum(Var { i: 0, s, r: *self }) }
            _ => Err(Er(2)),
        }
    }
    fn deserialize_bool<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { if self.compact() && self.peek()? != b'B' { return Err(SYNTAX) } self.any(&[], v) }
    fn deserialize_u8<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_u16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_u32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_u64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_i16<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_i32<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_i64<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_str<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_string<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_map<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    fn deserialize_ignored_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Er> { self.any(&[], v) }
    forward_to_deserialize_any! { i8 i128 u128 f32 f64 char bytes byte_buf unit unit_struct seq tuple tuple_struct identifier }
}
