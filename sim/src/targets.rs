//! The Rust types a simulated consumer asks for, and the comparable outcome
//! of asking.

use crate::check;
use crate::model::{Model, ReadPlan, Reader};
use serde::de::{Deserialize, DeserializeSeed, IgnoredAny};
use serde::Serialize;
use serde_yaml::{Deserializer, Error, Value};
use std::collections::BTreeMap;

#[derive(Serialize, Deserialize2, PartialEq, Debug, Clone)]
pub struct Rec {
    pub id: u32,
    pub name: String,
    pub kind: Kind,
    pub items: Vec<Item>,
    pub extra: Option<Box<Rec>>,
    #[serde(default, skip_serializing_if = "BTreeMap::is_empty")]
    pub tags: BTreeMap<String, i64>,
}

#[derive(Serialize, Deserialize2, PartialEq, Debug, Clone)]
pub enum Kind {
    Unit,
    New(i64),
    Pair(u8, String),
    Named { a: bool, b: Option<f64> },
    Vals(Vec<Kind2>),
}

#[derive(Serialize, Deserialize2, PartialEq, Debug, Clone)]
pub enum Kind2 {
    On,
    Off(String),
}

#[derive(Serialize, Deserialize2, PartialEq, Debug, Clone)]
pub struct Item {
    #[serde(with = "serde_yaml::with::singleton_map")]
    pub kind: Kind,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    pub opt: Option<Kind2>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    pub rec: Vec<Kind>,
    pub unit: (),
    pub ch: char,
}

use serde::Deserialize as Deserialize2;

#[derive(Deserialize2, Debug)]
#[allow(dead_code)]
struct Loose {
    id: Option<u64>,
    name: Option<String>,
    value: Option<Value>,
    x: Option<IgnoredAnyDebug>,
    a: Option<i32>,
    k0: Option<Value>,
    k1: Option<IgnoredAnyDebug>,
}

#[derive(Debug)]
struct IgnoredAnyDebug;
impl<'de> Deserialize<'de> for IgnoredAnyDebug {
    fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        d.deserialize_ignored_any(IgnoredAny).map(|_| IgnoredAnyDebug)
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Target {
    Model,
    Value,
    Ignored,
    Rec,
    Loose,
    Str,
    U64,
    Bool,
    F64,
    VecModel,
    MapModel,
    OptModel,
    Kind,
    SingletonKind,
    Tuple,
    Unit,
    VecIgnored,
    VecValue,
    I128,
    Char,
    MapValue,
}

pub const TARGETS: &[Target] = &[
    Target::Model,
    Target::Value,
    Target::Ignored,
    Target::Rec,
    Target::Loose,
    Target::Str,
    Target::U64,
    Target::Bool,
    Target::F64,
    Target::VecModel,
    Target::MapModel,
    Target::OptModel,
    Target::Kind,
    Target::SingletonKind,
    Target::Tuple,
    Target::Unit,
    Target::VecIgnored,
    Target::VecValue,
    Target::I128,
    Target::Char,
    Target::MapValue,
];

/// What a consumer can observe of one deserialization.
#[derive(Clone, PartialEq, Debug)]
pub enum Outcome {
    Ok(String),
    Err(Failure),
}

#[derive(Clone, PartialEq, Debug)]
pub struct Failure {
    pub display: String,
    pub debug: String,
    pub location: Option<(usize, usize, usize)>,
}

pub fn failure(e: &Error) -> Failure {
    let f = Failure {
        display: e.to_string(),
        debug: format!("{e:?}"),
        location: e.location().map(|l| (l.index(), l.line(), l.column())),
    };
    if f.debug.starts_with("Error(") {
        // Both forms tell the same story.
        let want = match f.location {
            None => format!("Error({:?})", f.display),
            Some((_, line, column)) => {
                let at = format!(" at line {line} column {column}");
                let msg = if (line, column) == (1, 1) { Some(&*f.display) } else { f.display.strip_suffix(&at) };
                format!("Error({:?}, line: {line}, column: {column})", msg.unwrap_or("?"))
            }
        };
        check!(f.debug == want, "error-form", "{:?} prints as {:?} for debugging, not as {want:?}", f.display, f.debug);
    }
    f
}

pub fn outcome<T: std::fmt::Debug>(r: Result<T, Error>) -> Outcome {
    match r {
        Ok(v) => Outcome::Ok(format!("{v:?}")),
        Err(e) => Outcome::Err(failure(&e)),
    }
}

impl Outcome {
    pub fn is_ok(&self) -> bool {
        matches!(self, Outcome::Ok(_))
    }
    pub fn brief(&self) -> String {
        let s = match self {
            Outcome::Ok(s) => format!("Ok({s})"),
            Outcome::Err(f) => format!("Err({:?} at {:?})", f.display, f.location),
        };
        s.chars().take(300).collect()
    }
    pub fn hash(&self) -> u64 {
        crate::ctx::hash_bytes(format!("{self:?}").as_bytes())
    }
}

pub fn get<'de>(t: Target, d: Deserializer<'de>) -> Outcome {
    match t {
        Target::Model => outcome(Model::deserialize(d)),
        Target::Value => outcome(Value::deserialize(d)),
        Target::Ignored => outcome(IgnoredAny::deserialize(d)),
        Target::Rec => outcome(Rec::deserialize(d)),
        Target::Loose => outcome(Loose::deserialize(d)),
        Target::Str => outcome(String::deserialize(d)),
        Target::U64 => outcome(u64::deserialize(d)),
        Target::Bool => outcome(bool::deserialize(d)),
        Target::F64 => outcome(f64::deserialize(d)),
        Target::VecModel => outcome(Vec::<Model>::deserialize(d)),
        Target::MapModel => outcome(BTreeMap::<String, Model>::deserialize(d)),
        Target::OptModel => outcome(Option::<Model>::deserialize(d)),
        Target::Kind => outcome(Kind::deserialize(d)),
        Target::SingletonKind => outcome(serde_yaml::with::singleton_map_recursive::deserialize::<Kind, _>(d)),
        Target::Tuple => outcome(<(Model, Model, String)>::deserialize(d)),
        Target::Unit => outcome(<()>::deserialize(d)),
        Target::VecIgnored => outcome(Vec::<IgnoredAnyDebug>::deserialize(d)),
        Target::VecValue => outcome(Vec::<Value>::deserialize(d)),
        Target::I128 => outcome(i128::deserialize(d)),
        Target::Char => outcome(char::deserialize(d)),
        Target::MapValue => outcome(BTreeMap::<String, Value>::deserialize(d)),
    }
}

pub fn from_slice(t: Target, b: &[u8]) -> Outcome {
    get(t, Deserializer::from_slice(b))
}

/// Everything a consumer may do with one document.
#[derive(Clone, Debug)]
pub enum Consume {
    Typed(Target),
    Custom(ReadPlan),
}

impl Consume {
    pub fn run<'de>(&self, d: Deserializer<'de>) -> Outcome {
        match self {
            Consume::Typed(t) => get(*t, d),
            Consume::Custom(p) => outcome(Reader::new(p.clone()).deserialize(d)),
        }
    }
}

pub fn draw_target() -> Target {
    use crate::gen;
    match gen::pick(4) {
        0 => Target::Model,
        1 => Target::Value,
        _ => *gen::one(TARGETS),
    }
}

pub fn kind(depth: usize) -> Kind {
    use crate::gen;
    match gen::pick(if depth == 0 { 4 } else { 5 }) {
        0 => Kind::Unit,
        1 => Kind::New(gen::pick(1000) as i64 - 500),
        2 => Kind::Pair(gen::pick(256) as u8, crate::node::string()),
        3 => Kind::Named {
            a: gen::chance(1, 2),
            b: if gen::chance(1, 2) { Some(gen::pick(64) as f64 / 4.0) } else { None },
        },
        _ => Kind::Vals(gen::list(0, 3, |_| kind2())),
    }
}

fn kind2() -> Kind2 {
    use crate::gen;
    if gen::chance(1, 2) {
        Kind2::Off(crate::node::string())
    } else {
        Kind2::On
    }
}

pub fn rec(depth: usize) -> Rec {
    use crate::gen;
    Rec {
        id: gen::pick(1 << 32) as u32,
        name: crate::node::string(),
        kind: kind(1),
        items: gen::list(0, 3, |_| Item {
            kind: kind(1),
            opt: if gen::chance(1, 2) { Some(kind2()) } else { None },
            rec: gen::list(0, 2, |_| kind(1)),
            unit: (),
            ch: *gen::one(&['a', '0', '🦀', '\'', '~']),
        }),
        extra: if depth > 0 && gen::chance(1, 2) {
            Some(Box::new(rec(depth - 1)))
        } else {
            None
        },
        tags: gen::list(0, 3, |i| (format!("t{i}"), gen::pick(10) as i64)).into_iter().collect(),
    }
}
