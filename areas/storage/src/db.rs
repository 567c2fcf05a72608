//! Tables in memory, and the part of the query language the stores use. Statements it does not know are refused loudly.
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};

#[derive(Clone, Debug, PartialEq, PartialOrd)]
pub enum Val {
    Null,
    Int(i64),
    Real(f64),
    Text(String),
    Blob(Vec<u8>),
}
pub trait ToVal {
    fn val(&self) -> Val;
}
impl ToVal for Vec<u8> {
    fn val(&self) -> Val {
        Val::Blob(self.clone())
    }
}
impl ToVal for &[u8] {
    fn val(&self) -> Val {
        Val::Blob(self.to_vec())
    }
}
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl ToVal for $t {
            fn val(&self) -> Val {
                Val::Int(*self as i64)
            }
        }
        impl FromVal for $t {
            fn from(v: &Val) -> Option<Self> {
                match v {
                    Val::Int(i) => (*i).try_into().ok(),
                    _ => None,
                }
            }
        }
    )*};
}
pub trait FromVal: Sized {
    fn from(v: &Val) -> Option<Self>;
}
ints!(u8, u32, i32, u64, i64);
impl FromVal for Vec<u8> {
    fn from(v: &Val) -> Option<Self> {
        match v {
            Val::Blob(b) => Some(b.clone()),
            _ => None,
        }
    }
}
impl FromVal for f64 {
    fn from(v: &Val) -> Option<Self> {
        match v {
            Val::Real(x) => Some(*x),
            Val::Int(x) => Some(*x as f64),
            _ => None,
        }
    }
}
#[derive(Debug)]
pub enum Error {
    QueryReturnedNoRows,
    InvalidColumn(String),
    FromSqlConversionFailure(usize, Type, Box<dyn std::error::Error + Send + Sync>),
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{self:?}")
    }
}
impl std::error::Error for Error {}
#[derive(Debug)]
pub enum Type {
    Blob,
}
pub trait OptionalExtension<T> {
    fn optional(self) -> Result<Option<T>, Error>;
}
impl<T> OptionalExtension<T> for Result<T, Error> {
    fn optional(self) -> Result<Option<T>, Error> {
        match self {
            Ok(x) => Ok(Some(x)),
            Err(Error::QueryReturnedNoRows) => Ok(None),
            Err(e) => Err(e),
        }
    }
}
pub type Param<'a> = (&'a str, Val);
pub trait Params {
    fn all(self) -> Vec<(String, Val)>;
}
impl<'a, const N: usize> Params for &[Param<'a>; N] {
    fn all(self) -> Vec<(String, Val)> {
        self.iter().map(|(a, b)| (a.to_string(), b.clone())).collect()
    }
}
impl Params for [(); 0] {
    fn all(self) -> Vec<(String, Val)> {
        Vec::new()
    }
}
#[macro_export]
macro_rules! named_params {
    ($($n:literal : $v:expr),* $(,)?) => { &[$(($n, $crate::db::ToVal::val(&$v))),*] };
}
pub type Fields = BTreeMap<String, Val>;
pub struct Row(Fields);
impl Row {
    pub fn get<I: AsRef<str>, T: FromVal>(&self, i: I) -> Result<T, Error> {
        self.0.get(i.as_ref()).and_then(T::from).ok_or_else(|| Error::InvalidColumn(i.as_ref().to_string()))
    }
}
#[derive(Default, Debug)]
pub struct Table {
    pub key: Option<String>,
    pub rows: Vec<Fields>,
    next: i64,
}
#[derive(Clone, Default, Debug)]
pub struct Db(pub Rc<RefCell<BTreeMap<String, Table>>>);

fn tokens(s: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut word = String::new();
    for c in s.chars() {
        let single = "(),;*=<>".contains(c);
        if c.is_whitespace() || single {
            if !word.is_empty() {
                out.push(core::mem::take(&mut word));
            }
            if single {
                if c == '=' && matches!(out.last().map(|x| x.as_str()), Some("<" | ">")) {
                    out.last_mut().unwrap().push('=');
                } else {
                    out.push(c.to_string());
                }
            }
        } else {
            word.push(c);
        }
    }
    if !word.is_empty() {
        out.push(word);
    }
    out
}
struct Parser<'a> {
    t: Vec<String>,
    at: usize,
    params: &'a [(String, Val)],
    db: &'a mut BTreeMap<String, Table>,
}
fn unknown(t: &[String]) -> ! {
    let _ = t;
    panic!("model capacity exceeded")
}
impl Parser<'_> {
    fn peek(&self) -> &str {
        self.t.get(self.at).map(|x| x.as_str()).unwrap_or("")
    }
    fn next(&mut self) -> String {
        let x = self.peek().to_string();
        self.at += 1;
        x
    }
    fn is(&mut self, words: &[&str]) -> bool {
        for (i, w) in words.iter().enumerate() {
            if !self.t.get(self.at + i).is_some_and(|x| x.eq_ignore_ascii_case(w)) {
                return false;
            }
        }
        self.at += words.len();
        true
    }
    fn want(&mut self, words: &[&str]) {
        if !self.is(words) {
            unknown(&self.t)
        }
    }
    fn operand(&mut self, row: &Fields) -> Val {
        let x = self.next();
        if x.starts_with(':') {
            self.params.iter().find(|p| p.0 == x).map(|p| p.1.clone()).unwrap_or(Val::Null)
        } else if let Ok(i) = x.parse() {
            Val::Int(i)
        } else {
            row.get(&x).cloned().unwrap_or_else(|| unknown(&self.t))
        }
    }
    /// The rows a WHERE clause at the current place selects.
    fn select(&mut self, table: &str) -> Vec<Fields> {
        let rows: Vec<Fields> = self.db.get(table).map(|t| t.rows.clone()).unwrap_or_default();
        if !self.is(&["WHERE"]) {
            return rows;
        }
        let start = self.at;
        if self.is(&["rowid", "IN", "("]) {
            let ids: Vec<Val> = self.query().into_iter().map(|r| r["rowid"].clone()).collect();
            self.want(&[")"]);
            return rows.into_iter().filter(|r| ids.contains(&r["rowid"])).collect();
        }
        let mut out = Vec::new();
        let mut end = None;
        let none: Fields = self.db.get(table).and_then(|t| t.rows.first().cloned()).unwrap_or_default();
        for r in rows.iter().chain(if rows.is_empty() { Some(&none) } else { None }) {
            self.at = start;
            let mut all = true;
            loop {
                if rows.is_empty() {
                    self.at += 3;
                } else {
                    let a = self.operand(r);
                    let op = self.next();
                    let b = self.operand(r);
                    all &= match op.as_str() {
                        "=" => a == b,
                        "<" => a < b,
                        ">" => a > b,
                        "<=" => a <= b,
                        ">=" => a >= b,
                        _ => unknown(&self.t),
                    };
                }
                if !self.is(&["AND"]) {
                    break;
                }
            }
            if all && !rows.is_empty() {
                out.push(r.clone());
            }
            end = Some(self.at);
        }
        self.at = end.unwrap();
        out
    }
    fn columns(&mut self, rows: Vec<Fields>, items: &[Vec<String>]) -> Vec<Fields> {
        let name = |i: &[String]| {
            if i.len() > 2 && i[i.len() - 2].eq_ignore_ascii_case("as") { i[i.len() - 1].clone() } else { i.concat() }
        };
        if items.iter().any(|i| i.len() > 1 && i[1] == "(") {
            let mut out = Fields::new();
            for i in items {
                let sum = |c: &str| rows.iter().map(|r| <f64 as FromVal>::from(&r[c]).unwrap()).sum::<f64>();
                let v = match (i[0].to_ascii_uppercase().as_str(), i[2].as_str()) {
                    ("COUNT", _) => Val::Int(rows.len() as i64),
                    ("TOTAL", c) => Val::Real(sum(c)),
                    ("SUM", c) => if rows.is_empty() { Val::Null } else { Val::Int(sum(c) as i64) },
                    _ => unknown(&self.t),
                };
                out.insert(name(i), v);
            }
            return vec![out];
        }
        rows.iter()
            .map(|r| {
                let mut out = Fields::new();
                for i in items {
                    if i[0] == "*" {
                        out.extend(r.clone());
                    } else {
                        out.insert(name(i), r.get(&i[0]).cloned().unwrap_or_else(|| unknown(&self.t)));
                    }
                }
                out
            })
            .collect()
    }
    fn items(&mut self, stop: &[&str]) -> Vec<Vec<String>> {
        let (mut out, mut one, mut depth) = (Vec::new(), Vec::new(), 0);
        loop {
            let x = self.peek().to_string();
            if depth == 0 && (x.is_empty() || stop.iter().any(|s| x.eq_ignore_ascii_case(s))) {
                break;
            }
            self.at += 1;
            match x.as_str() {
                "," if depth == 0 => out.push(core::mem::take(&mut one)),
                _ => {
                    depth += (x == "(") as i32 - (x == ")") as i32;
                    one.push(x)
                }
            }
        }
        out.push(one);
        out
    }
    fn query(&mut self) -> Vec<Fields> {
        self.want(&["SELECT"]);
        let items = self.items(&["FROM"]);
        self.want(&["FROM"]);
        let table = self.next();
        let mut rows = self.select(&table);
        if self.is(&["ORDER", "BY"]) {
            let keys = self.items(&["LIMIT", "OFFSET", ")", ";"]);
            rows.sort_by(|a, b| {
                for k in &keys {
                    let o = a[&k[0]].partial_cmp(&b[&k[0]]).unwrap();
                    let o = if k.len() > 1 && k[1].eq_ignore_ascii_case("DESC") { o.reverse() } else { o };
                    if o.is_ne() {
                        return o;
                    }
                }
                core::cmp::Ordering::Equal
            });
        }
        let (mut limit, mut offset) = (usize::MAX, 0);
        loop {
            let l = self.is(&["LIMIT"]);
            if !l && !self.is(&["OFFSET"]) {
                break;
            }
            let v = match self.operand(&Fields::new()) {
                Val::Int(i) if i >= 0 => i as usize,
                Val::Int(_) => usize::MAX,
                _ => unknown(&self.t),
            };
            if l { limit = v } else { offset = v }
        }
        let rows = rows.into_iter().skip(offset).take(limit).collect();
        self.columns(rows, &items)
    }
    /// Runs the statement: rows it returns and rows it changed.
    fn run(&mut self) -> (Vec<Fields>, usize) {
        let done = if self.is(&["INSERT"]) {
            let (ignore, replace) = (self.is(&["OR", "IGNORE"]), self.is(&["OR", "REPLACE"]));
            self.want(&["INTO"]);
            let table = self.next();
            self.want(&["("]);
            let cols = self.items(&[")"]);
            self.want(&[")", "VALUES", "("]);
            let mut r = Fields::new();
            for c in &cols {
                let v = self.operand(&Fields::new());
                self.is(&[","]);
                r.insert(c.concat(), v);
            }
            self.want(&[")"]);
            let t = self.db.get_mut(&table).unwrap_or_else(|| panic!("no such table"));
            if let Some(k) = t.key.clone() {
                if t.rows.iter().any(|x| x[&k] == r[&k]) {
                    if ignore {
                        return (Vec::new(), 0);
                    }
                    if !replace {
                        unknown(&self.t)
                    }
                    t.rows.retain(|x| x[&k] != r[&k]);
                }
            }
            t.next += 1;
            r.insert("rowid".into(), Val::Int(t.next));
            t.rows.push(r);
            (Vec::new(), 1)
        } else if self.is(&["DELETE", "FROM"]) {
            let table = self.next();
            let gone = self.select(&table);
            if let Some(t) = self.db.get_mut(&table) {
                t.rows.retain(|r| !gone.iter().any(|g| g["rowid"] == r["rowid"]));
            }
            let n = gone.len();
            if self.is(&["RETURNING"]) {
                let items = self.items(&[";"]);
                (self.columns(gone, &items), n)
            } else {
                (Vec::new(), n)
            }
        } else {
            (self.query(), 0)
        };
        self.is(&[";"]);
        if self.at < self.t.len() {
            unknown(&self.t)
        }
        done
    }
}
impl Db {
    fn run(&self, sql: &str, params: Vec<(String, Val)>) -> (Vec<Fields>, usize) {
        let mut db = self.0.borrow_mut();
        Parser { t: tokens(sql), at: 0, params: &params, db: &mut db }.run()
    }
    pub fn get(&self) -> Result<Conn, crate::pools::Error> {
        Ok(Conn(self.clone()))
    }
}
pub struct Conn(Db);
impl Conn {
    pub fn execute(&self, sql: &str, p: impl Params) -> Result<usize, Error> {
        Ok(self.0.run(sql, p.all()).1)
    }
    pub fn execute_batch(&self, sql: &str) -> Result<(), Error> {
        for s in sql.split(';') {
            let t = tokens(s);
            if t.len() > 5 && t[0] == "CREATE" && t[1] == "TABLE" {
                let key = t.windows(2).position(|w| w[0] == "PRIMARY" && w[1] == "KEY").map(|i| t[i - 2].clone());
                self.0 .0.borrow_mut().entry(t[5].clone()).or_insert(Table { key, ..Default::default() });
            } else if !t.is_empty() && !(t[0] == "CREATE" && t[1] == "INDEX") {
                unknown(&t)
            }
        }
        Ok(())
    }
    pub fn query_row<T>(&self, sql: &str, p: impl Params, f: impl FnOnce(&Row) -> Result<T, Error>) -> Result<T, Error> {
        match self.0.run(sql, p.all()).0.into_iter().next() {
            Some(r) => f(&Row(r)),
            None => Err(Error::QueryReturnedNoRows),
        }
    }
    pub fn prepare(&self, sql: &str) -> Result<Statement, Error> {
        Ok(Statement(self.0.clone(), sql.to_string()))
    }
}
pub struct Statement(Db, String);
impl Statement {
    pub fn exists(&mut self, p: impl Params) -> Result<bool, Error> {
        Ok(!self.0.run(&self.1, p.all()).0.is_empty())
    }
    pub fn query_map<T, F: FnMut(&Row) -> Result<T, Error>>(&mut self, p: impl Params, mut f: F) -> Result<std::vec::IntoIter<Result<T, Error>>, Error> {
        let rows = self.0.run(&self.1, p.all()).0;
        Ok(rows.into_iter().map(|r| f(&Row(r))).collect::<Vec<_>>().into_iter())
    }
}
