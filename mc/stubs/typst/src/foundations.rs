use std::collections::BTreeMap;
use std::fmt;
use std::ops::Deref;
use std::sync::Arc;

use ecow::EcoString;
use serde::{Deserialize, Serialize};

#[derive(Clone, Hash, PartialEq, Eq)]
pub struct Bytes(Arc<Vec<u8>>);
impl Bytes {
    pub fn new<T: AsRef<[u8]>>(v: T) -> Self {
        Bytes(Arc::new(v.as_ref().to_vec()))
    }
    pub fn from_string<T: AsRef<str>>(v: T) -> Self {
        Bytes(Arc::new(v.as_ref().as_bytes().to_vec()))
    }
    pub fn as_slice(&self) -> &[u8] {
        &self.0
    }
    pub fn to_vec(&self) -> Vec<u8> {
        self.0.to_vec()
    }
    pub fn as_str(&self) -> Result<&str, std::str::Utf8Error> {
        std::str::from_utf8(&self.0)
    }
    pub fn is_empty(&self) -> bool {
        self.0.is_empty()
    }
    pub fn len(&self) -> usize {
        self.0.len()
    }
}
impl Deref for Bytes {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}
impl AsRef<[u8]> for Bytes {
    fn as_ref(&self) -> &[u8] {
        &self.0
    }
}
impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Bytes({})", self.0.len())
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Serialize, Deserialize)]
pub struct Str(pub EcoString);
impl<T: Into<EcoString>> From<T> for Str {
    fn from(s: T) -> Self {
        Str(s.into())
    }
}
impl Str {
    pub fn as_str(&self) -> &str {
        &self.0
    }
}

#[derive(Debug, Clone, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum Value {
    None,
    Str(Str),
}
pub trait IntoValue {
    fn into_value(self) -> Value;
}
impl IntoValue for Value {
    fn into_value(self) -> Value {
        self
    }
}
impl<T: Into<EcoString>> IntoValue for T {
    fn into_value(self) -> Value {
        Value::Str(Str(self.into()))
    }
}

#[derive(Debug, Clone, Default, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct Dict(BTreeMap<Str, Value>);
impl Dict {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn insert(&mut self, k: Str, v: Value) {
        self.0.insert(k, v);
    }
    pub fn get(&self, k: &str) -> Option<&Value> {
        self.0.get(&Str(k.into()))
    }
    pub fn iter(&self) -> impl Iterator<Item = (&Str, &Value)> {
        self.0.iter()
    }
}
impl FromIterator<(Str, Value)> for Dict {
    fn from_iter<T: IntoIterator<Item = (Str, Value)>>(iter: T) -> Self {
        Dict(iter.into_iter().collect())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Hash)]
pub enum Datetime {
    Date(time::Date),
    Time(time::Time),
    Datetime(time::PrimitiveDateTime),
}
impl Datetime {
    pub fn from_ymd(year: i32, month: u8, day: u8) -> Option<Self> {
        Some(Datetime::Date(
            time::Date::from_calendar_date(year, time::Month::try_from(month).ok()?, day).ok()?,
        ))
    }
}
