//! JSON helpers shared by the harness modules.
#![allow(dead_code)]
use serde::{de::DeserializeOwned, Serialize};
use serde_json::{Map, Number, Value};

pub fn to_v<T: Serialize>(t: &T) -> Option<Value> {
    serde_json::to_value(t).ok()
}
pub fn of_v<T: DeserializeOwned>(v: Value) -> Option<T> {
    serde_json::from_value(v).ok()
}
pub fn to_s<T: Serialize>(t: &T) -> Option<String> {
    serde_json::to_string(t).ok()
}
pub fn of_s<T: DeserializeOwned>(s: &str) -> Option<T> {
    serde_json::from_str(s).ok()
}
pub fn vs(s: &str) -> Value {
    Value::String(s.to_owned())
}
pub fn vu(n: u64) -> Value {
    Value::Number(Number::from(n))
}
pub fn vi(n: i64) -> Value {
    Value::Number(Number::from(n))
}
pub fn vf(n: f64) -> Value {
    Number::from_f64(n).map_or(Value::Null, Value::Number)
}
pub struct Obj(pub Map<String, Value>);
impl Obj {
    pub fn new() -> Self {
        Obj(Map::new())
    }
    pub fn put(&mut self, k: &str, v: Value) {
        self.0.insert(k.to_owned(), v);
    }
    pub fn put_if(&mut self, c: bool, k: &str, v: Value) {
        if c {
            self.put(k, v);
        }
    }
    pub fn v(self) -> Value {
        Value::Object(self.0)
    }
}
/// No key twice in any object of the text, and no null anywhere (a strict reader of our own over
/// serde's event stream).
pub struct Strict {
    pub nulls: usize,
    pub dups: usize,
}
pub struct StrictSeed<'a>(pub &'a mut Strict);
impl<'de> serde::de::DeserializeSeed<'de> for StrictSeed<'_> {
    type Value = ();
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        d.deserialize_any(self)
    }
}
impl<'de> serde::de::Visitor<'de> for StrictSeed<'_> {
    type Value = ();
    fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("JSON")
    }
    fn visit_bool<E>(self, _: bool) -> Result<(), E> {
        Ok(())
    }
    fn visit_i64<E>(self, _: i64) -> Result<(), E> {
        Ok(())
    }
    fn visit_u64<E>(self, _: u64) -> Result<(), E> {
        Ok(())
    }
    fn visit_f64<E>(self, _: f64) -> Result<(), E> {
        Ok(())
    }
    fn visit_str<E>(self, _: &str) -> Result<(), E> {
        Ok(())
    }
    fn visit_unit<E>(self) -> Result<(), E> {
        self.0.nulls += 1;
        Ok(())
    }
    fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let s = self.0;
        while a.next_element_seed(StrictSeed(s))?.is_some() {}
        Ok(())
    }
    fn visit_map<A: serde::de::MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        let s = self.0;
        let mut keys: Vec<String> = Vec::new();
        while let Some(k) = a.next_key::<String>()? {
            if keys.iter().any(|x| *x == k) {
                s.dups += 1;
            }
            keys.push(k);
            a.next_value_seed(StrictSeed(s))?;
        }
        Ok(())
    }
}
pub fn strict(text: &str) -> Option<Strict> {
    let mut s = Strict { nulls: 0, dups: 0 };
    let mut d = serde_json::Deserializer::from_str(text);
    serde::de::DeserializeSeed::deserialize(StrictSeed(&mut s), &mut d).ok()?;
    d.end().ok()?;
    Some(s)
}
