//! A configurable serde data format over JSON values: the liberties real formats take (integers always handed over as
//! i64 or u64, keys as borrowed or owned text, bytes or indices, structures as maps or sequences with or without a
//! known length, readable or not).
use serde::de::{self, value::Error, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde_json::Value;

#[derive(Clone, Copy, Debug)]
pub struct Opt { pub readable: bool, pub int: u8, pub key: u8, pub seq: bool, pub hint: bool, pub rev: bool }

impl Opt {
    pub fn all() -> Vec<Opt> {
        let mut v = vec![];
        for i in 0..2 * 4 * 4 * 8u32 {
            let o = Opt { readable: i & 1 != 0, int: (i >> 1 & 3) as u8, key: (i >> 3 & 3) as u8, seq: i >> 5 & 1 != 0, hint: i >> 6 & 1 != 0, rev: i >> 7 & 1 != 0 };
            if o.seq && (o.rev || o.key == 3) { continue }
            v.push(o);
        }
        v
    }
}

#[derive(Clone, Copy)]
pub struct D<'a> { pub v: &'a Value, pub o: Opt }

struct Text<'a> { s: &'a str, i: usize, k: u8 }
impl<'de> Deserializer<'de> for Text<'de> {
    type Error = Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.k { 0 => v.visit_borrowed_str(self.s), 1 => v.visit_string(self.s.to_string()), 2 => v.visit_bytes(self.s.as_bytes()), _ => v.visit_u64(self.i as u64) }
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}

struct Vals<'a> { v: std::vec::IntoIter<&'a Value>, o: Opt }
impl<'de> SeqAccess<'de> for Vals<'de> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<Option<T::Value>, Error> {
        match self.v.next() { Some(v) => s.deserialize(D { v, o: self.o }).map(Some), None => Ok(None) }
    }
    fn size_hint(&self) -> Option<usize> { if self.o.hint { Some(self.v.len()) } else { None } }
}

struct Pairs<'a> { v: std::vec::IntoIter<(usize, &'a str, &'a Value)>, cur: Option<&'a Value>, o: Opt }
impl<'de> MapAccess<'de> for Pairs<'de> {
    type Error = Error;
    fn next_key_seed<K: DeserializeSeed<'de>>(&mut self, s: K) -> Result<Option<K::Value>, Error> {
        match self.v.next() {
            Some((i, k, v)) => { self.cur = Some(v); s.deserialize(Text { s: k, i, k: self.o.key }).map(Some) }
            None => Ok(None)
        }
    }
    fn next_value_seed<T: DeserializeSeed<'de>>(&mut self, s: T) -> Result<T::Value, Error> {
        s.deserialize(D { v: self.cur.take().expect("value"), o: self.o })
    }
}

struct Var<'a>(Text<'a>);
impl<'de> EnumAccess<'de> for Var<'de> {
    type Error = Error;
    type Variant = Unit;
    fn variant_seed<T: DeserializeSeed<'de>>(self, s: T) -> Result<(T::Value, Unit), Error> { Ok((s.deserialize(self.0)?, Unit)) }
}
struct Unit;
impl<'de> VariantAccess<'de> for Unit {
    type Error = Error;
    fn unit_variant(self) -> Result<(), Error> { Ok(()) }
    fn newtype_variant_seed<T: DeserializeSeed<'de>>(self, _: T) -> Result<T::Value, Error> { Err(de::Error::custom("unit variant")) }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, _: V) -> Result<V::Value, Error> { Err(de::Error::custom("unit variant")) }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], _: V) -> Result<V::Value, Error> { Err(de::Error::custom("unit variant")) }
}

impl<'de> Deserializer<'de> for D<'de> {
    type Error = Error;
    fn is_human_readable(&self) -> bool { self.o.readable }
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.v {
            Value::Null => v.visit_unit(),
            Value::Bool(b) => v.visit_bool(*b),
            Value::Number(n) => match (n.as_i64(), self.o.int) {
                (Some(i), 1) => v.visit_i64(i),
                (Some(i), 2) if i as i32 as i64 == i => v.visit_i32(i as i32),
                (Some(i), 3) if i as u8 as i64 == i => v.visit_u8(i as u8),
                (Some(i), 3) if i as u16 as i64 == i => v.visit_u16(i as u16),
                (Some(i), _) if i >= 0 => v.visit_u64(i as u64),
                (Some(i), _) => v.visit_i64(i),
                _ => Err(de::Error::custom("number"))
            },
            Value::String(s) => match self.o.key & 1 { 0 => v.visit_borrowed_str(s), _ => v.visit_string(s.clone()) },
            Value::Array(a) => v.visit_seq(Vals { v: a.iter().collect::<Vec<_>>().into_iter(), o: self.o }),
            Value::Object(_) => Err(de::Error::custom("an object is asked for without its fields")),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Error> {
        match self.v { Value::Null => v.visit_none(), _ => v.visit_some(self) }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Error> { v.visit_newtype_struct(self) }
    fn deserialize_struct<V: Visitor<'de>>(self, _: &'static str, f: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        let Value::Object(m) = self.v else { return self.deserialize_any(v) };
        // the list also has the aliases: what was written is in its order
        let f: Vec<&str> = f.iter().copied().filter(|k| m.contains_key(*k)).collect();
        if self.o.seq {
            let mut l: Vec<&Value> = vec![];
            for k in f { if let Some(x) = m.get(k) { l.push(x) } }
            return v.visit_seq(Vals { v: l.into_iter(), o: self.o });
        }
        let mut l: Vec<(usize, &str, &Value)> = m.iter().map(|(k, x)| (f.iter().position(|q| q == k).unwrap_or(99), k.as_str(), x)).collect();
        l.sort_by_key(|x| x.0);
        if self.o.rev { l.reverse() }
        v.visit_map(Pairs { v: l.into_iter(), cur: None, o: self.o })
    }
    fn deserialize_enum<V: Visitor<'de>>(self, _: &'static str, vs: &'static [&'static str], v: V) -> Result<V::Value, Error> {
        let Value::String(s) = self.v else { return Err(de::Error::custom("not a variant")) };
        v.visit_enum(Var(Text { s, i: vs.iter().position(|q| q == s).unwrap_or(99), k: self.o.key }))
    }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct seq tuple tuple_struct map identifier ignored_any }
}
impl<'de> IntoDeserializer<'de, Error> for D<'de> { type Deserializer = Self; fn into_deserializer(self) -> Self { self } }
