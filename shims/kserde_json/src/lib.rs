//! Contract of `serde_json::Value`/`Map`: a JSON document tree.
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Number(pub i64);
impl Number {
    pub fn as_i64(&self) -> Option<i64> {
        Some(self.0)
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Default)]
pub enum Value {
    #[default]
    Null,
    Bool(bool),
    Number(Number),
    String(String),
    Array(Vec<Value>),
    Object(Map<String, Value>),
}
impl Value {
    pub fn as_array(&self) -> Option<&Vec<Value>> {
        match self {
            Value::Array(a) => Some(a),
            _ => None,
        }
    }
    pub fn as_object(&self) -> Option<&Map<String, Value>> {
        match self {
            Value::Object(a) => Some(a),
            _ => None,
        }
    }
    pub fn as_str(&self) -> Option<&str> {
        match self {
            Value::String(a) => Some(a),
            _ => None,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, Value::Null)
    }
    pub fn is_array(&self) -> bool {
        matches!(self, Value::Array(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self, Value::Object(_))
    }
}
impl From<i64> for Value {
    fn from(v: i64) -> Value {
        Value::Number(Number(v))
    }
}
impl From<bool> for Value {
    fn from(v: bool) -> Value {
        Value::Bool(v)
    }
}
impl From<()> for Value {
    fn from(_: ()) -> Value {
        Value::Null
    }
}
impl From<String> for Value {
    fn from(v: String) -> Value {
        Value::String(v)
    }
}
impl<T: Into<Value>> From<Vec<T>> for Value {
    fn from(v: Vec<T>) -> Value {
        Value::Array(v.into_iter().map(Into::into).collect())
    }
}
impl From<Map<String, Value>> for Value {
    fn from(v: Map<String, Value>) -> Value {
        Value::Object(v)
    }
}
impl FromIterator<Value> for Value {
    fn from_iter<I: IntoIterator<Item = Value>>(i: I) -> Value {
        Value::Array(i.into_iter().collect())
    }
}
/// Entries in insertion order, at most four ("model capacity" beyond).
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Map<K, V> {
    e: Box<[Option<(K, V)>; 4]>,
    n: usize,
}
impl<K, V> Default for Map<K, V> {
    fn default() -> Self {
        Map { e: Box::new([const { None }; 4]), n: 0 }
    }
}
macro_rules! each {
    ($i:ident, $b:block) => {
        { let $i: usize = 0; $b }
        { let $i: usize = 1; $b }
        { let $i: usize = 2; $b }
        { let $i: usize = 3; $b }
    };
}
impl<K: PartialEq, V> Map<K, V> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn with_capacity(_: usize) -> Self {
        Self::default()
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        let mut kv = Some((k, v));
        each!(i, {
            if i >= self.n {
                self.e[i] = kv.take();
                self.n += 1;
                return None;
            }
            if let (Some(x), Some(y)) = (&mut self.e[i], &mut kv) {
                if x.0 == y.0 {
                    std::mem::swap(&mut x.1, &mut y.1);
                    return kv.map(|y| y.1);
                }
            }
        });
        panic!("model capacity exceeded")
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    pub fn get(&self, k: &str) -> Option<&V>
    where
        K: AsRef<str>,
    {
        each!(i, {
            if let Some(x) = &self.e[i] {
                if x.0.as_ref() == k {
                    return Some(&x.1);
                }
            }
        });
        None
    }
    pub fn contains_key(&self, k: &str) -> bool
    where
        K: AsRef<str>,
    {
        self.get(k).is_some()
    }
    pub fn keys(&self) -> impl Iterator<Item = &K> {
        self.e.iter().flatten().map(|x| &x.0)
    }
    pub fn values(&self) -> impl Iterator<Item = &V> {
        self.e.iter().flatten().map(|x| &x.1)
    }
    pub fn iter(&self) -> impl Iterator<Item = (&K, &V)> {
        self.e.iter().flatten().map(|x| (&x.0, &x.1))
    }
}
impl Extend<(String, Value)> for Map<String, Value> {
    fn extend<I: IntoIterator<Item = (String, Value)>>(&mut self, i: I) {
        for (k, v) in i {
            self.insert(k, v);
        }
    }
}
impl<K, V> IntoIterator for Map<K, V> {
    type Item = (K, V);
    type IntoIter = std::iter::Flatten<std::array::IntoIter<Option<(K, V)>, 4>>;
    fn into_iter(self) -> Self::IntoIter {
        (*self.e).into_iter().flatten()
    }
}
impl<K: PartialEq, V> FromIterator<(K, V)> for Map<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(i: I) -> Self {
        let mut m = Map::new();
        for (k, v) in i {
            m.insert(k, v);
        }
        m
    }
}
#[derive(Debug)]
pub struct Error;

/// Reading a value of type `Self` from a JSON tree.
pub trait FromJson: Sized {
    fn accepts(v: &Value) -> bool;
    fn from_json(v: Value) -> Result<Self, Error>;
}
pub trait ToJson {
    fn to_json(self) -> Value;
}
impl FromJson for () {
    fn accepts(v: &Value) -> bool {
        v.is_null()
    }
    fn from_json(v: Value) -> Result<Self, Error> {
        if v.is_null() { Ok(()) } else { Err(Error) }
    }
}
impl FromJson for Value {
    fn accepts(_: &Value) -> bool {
        true
    }
    fn from_json(v: Value) -> Result<Self, Error> {
        Ok(v)
    }
}
impl FromJson for Vec<Value> {
    fn accepts(v: &Value) -> bool {
        v.is_array()
    }
    fn from_json(v: Value) -> Result<Self, Error> {
        match v {
            Value::Array(a) => Ok(a),
            _ => Err(Error),
        }
    }
}
impl FromJson for Map<String, Value> {
    fn accepts(v: &Value) -> bool {
        v.is_object()
    }
    fn from_json(v: Value) -> Result<Self, Error> {
        match v {
            Value::Object(a) => Ok(a),
            _ => Err(Error),
        }
    }
}
impl<T: FromJson> FromJson for Option<T> {
    fn accepts(v: &Value) -> bool {
        v.is_null() || T::accepts(v)
    }
    fn from_json(v: Value) -> Result<Self, Error> {
        if v.is_null() { Ok(None) } else { T::from_json(v).map(Some) }
    }
}
impl ToJson for Value {
    fn to_json(self) -> Value {
        self
    }
}
impl ToJson for Vec<Value> {
    fn to_json(self) -> Value {
        Value::Array(self)
    }
}
impl ToJson for Map<String, Value> {
    fn to_json(self) -> Value {
        Value::Object(self)
    }
}
pub fn from_value<T: FromJson>(v: Value) -> Result<T, Error> {
    T::from_json(v)
}
pub fn to_value<T: ToJson>(v: T) -> Result<Value, Error> {
    Ok(v.to_json())
}
