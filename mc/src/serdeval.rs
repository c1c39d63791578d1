//! A self-describing value: whatever the deserializer reports.
use serde::de::{self, Deserialize, Deserializer, MapAccess, SeqAccess, Visitor};
use std::fmt;

#[derive(Debug, Clone, PartialEq)]
pub enum Any {
    Null,
    Bool(bool),
    Int(i64),
    Float(f64),
    Str(String),
    Seq(Vec<Any>),
    Map(Vec<(Any, Any)>),
}
struct V;
impl<'de> Visitor<'de> for V {
    type Value = Any;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Any, E> {
        Ok(Any::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Any, E> {
        Ok(Any::Int(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Any, E> {
        i64::try_from(v).map(Any::Int).map_err(de::Error::custom)
    }
    fn visit_f64<E>(self, v: f64) -> Result<Any, E> {
        Ok(Any::Float(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Any, E> {
        Ok(Any::Str(v.into()))
    }
    fn visit_unit<E>(self) -> Result<Any, E> {
        Ok(Any::Null)
    }
    fn visit_none<E>(self) -> Result<Any, E> {
        Ok(Any::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Any, D::Error> {
        Any::deserialize(d)
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(x) = a.next_element()? {
            v.push(x);
        }
        Ok(Any::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Any, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key()? {
            v.push((k, a.next_value()?));
        }
        Ok(Any::Map(v))
    }
}
impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Any, D::Error> {
        d.deserialize_any(V)
    }
}
