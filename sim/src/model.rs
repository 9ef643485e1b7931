//! The reference model of a YAML value, independent of `serde_yaml::Value`,
//! and the visitor that builds it while counting the callbacks it receives.

use crate::ctx;
use crate::io::Injected;
use crate::sched;
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, IgnoredAny, VariantAccess as _, Visitor};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::cell::Cell;
use std::fmt;
use std::rc::Rc;

#[derive(Clone, PartialEq, Debug)]
pub enum Model {
    Null,
    Bool(bool),
    Int(bool, u128),
    Float(u64),
    Str(String),
    Seq(Vec<Model>),
    Map(Vec<(Model, Model)>),
    Tagged(String, Box<Model>),
    /// Left out by a selective reader.
    Skipped,
}

pub fn float(f: f64) -> Model {
    Model::Float(if f.is_nan() { f64::NAN.to_bits() } else { f.to_bits() })
}

pub fn int(i: i128) -> Model {
    Model::Int(i < 0, i.unsigned_abs())
}

impl Model {
    pub fn to_value(&self) -> Option<Value> {
        Some(match self {
            Model::Null => Value::Null,
            Model::Bool(b) => Value::Bool(*b),
            Model::Int(neg, m) => {
                if *neg {
                    let m = i64::try_from(-(i128::try_from(*m).ok()?)).ok()?;
                    Value::Number(Number::from(m))
                } else {
                    Value::Number(Number::from(u64::try_from(*m).ok()?))
                }
            }
            Model::Float(b) => Value::Number(Number::from(f64::from_bits(*b))),
            Model::Str(s) => Value::String(s.clone()),
            Model::Seq(v) => Value::Sequence(v.iter().map(Model::to_value).collect::<Option<_>>()?),
            Model::Map(v) => {
                let mut m = Mapping::new();
                for (k, v) in v {
                    m.insert(k.to_value()?, v.to_value()?);
                }
                Value::Mapping(m)
            }
            Model::Tagged(t, v) => Value::Tagged(Box::new(TaggedValue {
                // The leading '!' may be given or not.
                tag: Tag::new(if t.len() % 2 == 0 { format!("!{t}") } else { t.clone() }),
                value: v.to_value()?,
            })),
            Model::Skipped => return None,
        })
    }

    pub fn from_value(v: &Value) -> Model {
        match v {
            Value::Null => Model::Null,
            Value::Bool(b) => Model::Bool(*b),
            Value::Number(n) => {
                if let Some(u) = n.as_u64() {
                    Model::Int(false, u as u128)
                } else if let Some(i) = n.as_i64() {
                    int(i as i128)
                } else {
                    float(n.as_f64().unwrap_or(f64::NAN))
                }
            }
            Value::String(s) => Model::Str(s.clone()),
            Value::Sequence(s) => Model::Seq(s.iter().map(Model::from_value).collect()),
            Value::Mapping(m) => Model::Map(
                m.iter()
                    .map(|(k, v)| (Model::from_value(k), Model::from_value(v)))
                    .collect(),
            ),
            Value::Tagged(t) => {
                let tag = t.tag.to_string();
                Model::Tagged(
                    tag.strip_prefix('!').unwrap_or(&tag).to_string(),
                    Box::new(Model::from_value(&t.value)),
                )
            }
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            Model::Seq(v) => 1 + v.iter().map(Model::depth).max().unwrap_or(0),
            Model::Map(v) => 1 + v.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            Model::Tagged(_, v) => 1 + v.depth(),
            _ => 1,
        }
    }

    pub fn count(&self) -> usize {
        match self {
            Model::Seq(v) => 1 + v.iter().map(Model::count).sum::<usize>(),
            Model::Map(v) => 1 + v.iter().map(|(k, v)| k.count() + v.count()).sum::<usize>(),
            Model::Tagged(_, v) => 1 + v.count(),
            _ => 1,
        }
    }
}

/// What a simulated consumer does at each node it is handed.
#[derive(Clone, Debug)]
pub struct ReadPlan {
    /// Fails (or panics) at this callback.
    pub fail_at: Option<u64>,
    pub panic_at: Option<u64>,
    /// Bit pattern (cycled): skip this collection element with IgnoredAny.
    pub skips: Vec<bool>,
    /// Give up (error) after this many callbacks: the bounded-work check.
    pub budget: u64,
    pub yields: bool,
    /// Call this at that callback (nested sessions).
    pub nest_at: Option<u64>,
    /// At this collection (by ordinal) stop reading after n elements.
    pub stop_short: Option<(u64, u64)>,
    /// Borrowed strings must lie in this range of addresses.
    pub input: Option<(usize, usize)>,
}

impl Default for ReadPlan {
    fn default() -> Self {
        ReadPlan {
            fail_at: None,
            panic_at: None,
            skips: Vec::new(),
            budget: u64::MAX,
            yields: false,
            nest_at: None,
            stop_short: None,
            input: None,
        }
    }
}

pub struct Counters<'n> {
    pub calls: Cell<u64>,
    pub elems: Cell<u64>,
    pub colls: Cell<u64>,
    pub over_budget: Cell<bool>,
    pub fired: Cell<bool>,
    pub nest: Option<Box<dyn Fn() + 'n>>,
}

#[derive(Clone)]
pub struct Reader<'n> {
    pub plan: Rc<ReadPlan>,
    pub c: Rc<Counters<'n>>,
}

pub const FAIL_MSG: &str = "simulated consumer failure #";

impl<'n> Reader<'n> {
    pub fn new(plan: ReadPlan) -> Reader<'n> {
        Reader::with_nest(plan, None)
    }

    pub fn with_nest(plan: ReadPlan, nest: Option<Box<dyn Fn() + 'n>>) -> Reader<'n> {
        Reader {
            plan: Rc::new(plan),
            c: Rc::new(Counters {
                calls: Cell::new(0),
                elems: Cell::new(0),
                colls: Cell::new(0),
                over_budget: Cell::new(false),
                fired: Cell::new(false),
                nest,
            }),
        }
    }

    fn tick<E: de::Error>(&self) -> Result<(), E> {
        let n = self.c.calls.get();
        self.c.calls.set(n + 1);
        if self.plan.yields {
            sched::yield_point();
        }
        if n > self.plan.budget {
            self.c.over_budget.set(true);
            return Err(E::custom("work budget exceeded"));
        }
        if self.plan.nest_at == Some(n) {
            if let Some(f) = &self.c.nest {
                ctx::fault("visitor:reentrant-session");
                f();
            }
        }
        if self.plan.panic_at == Some(n) {
            self.c.fired.set(true);
            ctx::fault("visitor:panic");
            std::panic::panic_any(Injected(n));
        }
        if self.plan.fail_at == Some(n) {
            self.c.fired.set(true);
            ctx::fault("visitor:error");
            return Err(E::custom(format!("{FAIL_MSG}{n}")));
        }
        Ok(())
    }

    fn skip(&self) -> bool {
        if self.plan.skips.is_empty() {
            return false;
        }
        let n = self.c.elems.get();
        self.c.elems.set(n + 1);
        let s = self.plan.skips[n as usize % self.plan.skips.len()];
        if s {
            ctx::fault("visitor:skip-element");
        }
        s
    }

    fn short(&self) -> Option<u64> {
        let n = self.c.colls.get();
        self.c.colls.set(n + 1);
        match self.plan.stop_short {
            Some((at, k)) if at == n => {
                self.c.fired.set(true);
                ctx::fault("visitor:stop-short");
                Some(k)
            }
            _ => None,
        }
    }
}

impl<'de, 'n> DeserializeSeed<'de> for Reader<'n> {
    type Value = Model;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Model, D::Error> {
        d.deserialize_any(self)
    }
}

impl<'de, 'n> Visitor<'de> for Reader<'n> {
    type Value = Model;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("any YAML value")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<Model, E> {
        self.tick()?;
        Ok(Model::Bool(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<Model, E> {
        self.tick()?;
        Ok(int(v as i128))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<Model, E> {
        self.tick()?;
        Ok(int(v as i128))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<Model, E> {
        self.tick()?;
        Ok(int(v))
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<Model, E> {
        self.tick()?;
        Ok(Model::Int(false, v))
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<Model, E> {
        self.tick()?;
        Ok(float(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<Model, E> {
        self.tick()?;
        Ok(Model::Str(v.to_owned()))
    }
    fn visit_borrowed_str<E: de::Error>(self, v: &'de str) -> Result<Model, E> {
        if let Some((lo, hi)) = self.plan.input {
            let a = v.as_ptr() as usize;
            if !v.is_empty() && (a < lo || a + v.len() > hi) {
                ctx::violate("borrow", || format!("a borrowed string of {} bytes lies outside the input", v.len()));
            }
            ctx::probe("visitor:borrowed");
        }
        self.visit_str(v)
    }
    fn visit_unit<E: de::Error>(self) -> Result<Model, E> {
        self.tick()?;
        Ok(Model::Null)
    }
    fn visit_none<E: de::Error>(self) -> Result<Model, E> {
        self.tick()?;
        Ok(Model::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Model, D::Error> {
        self.tick()?;
        d.deserialize_any(self)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Model, D::Error> {
        d.deserialize_any(self)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<Model, A::Error> {
        self.tick()?;
        let mut out = Vec::new();
        let short = self.short();
        loop {
            if short == Some(out.len() as u64) {
                return Ok(Model::Seq(out));
            }
            if self.skip() {
                match a.next_element::<IgnoredAny>()? {
                    Some(_) => out.push(Model::Skipped),
                    None => break,
                }
            } else {
                match a.next_element_seed(self.clone())? {
                    Some(v) => out.push(v),
                    None => break,
                }
            }
        }
        self.tick()?;
        Ok(Model::Seq(out))
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Model, A::Error> {
        self.tick()?;
        let mut out = Vec::new();
        let short = self.short();
        loop {
            if short == Some(out.len() as u64) {
                return Ok(Model::Map(out));
            }
            let k = match a.next_key_seed(self.clone())? {
                Some(k) => k,
                None => break,
            };
            let v = if self.skip() {
                a.next_value::<IgnoredAny>()?;
                Model::Skipped
            } else {
                a.next_value_seed(self.clone())?
            };
            out.push((k, v));
        }
        self.tick()?;
        Ok(Model::Map(out))
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<Model, A::Error> {
        self.tick()?;
        let (tag, v) = a.variant::<String>()?;
        let inner = v.newtype_variant_seed(self)?;
        Ok(Model::Tagged(tag, Box::new(inner)))
    }
}

impl<'de> Deserialize<'de> for Model {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Model, D::Error> {
        Reader::new(ReadPlan::default()).deserialize(d)
    }
}

/// The part of `full` that a reader with these skips would have seen.
pub fn project(full: &Model, skips: &[bool], n: &mut usize) -> Model {
    let skip = |n: &mut usize| {
        if skips.is_empty() {
            return false;
        }
        let s = skips[*n % skips.len()];
        *n += 1;
        s
    };
    match full {
        Model::Seq(v) => {
            let mut out = Vec::new();
            for x in v {
                if skip(n) {
                    out.push(Model::Skipped);
                } else {
                    out.push(project(x, skips, n));
                }
            }
            // The reader draws once more when it meets the end.
            skip(n);
            Model::Seq(out)
        }
        Model::Map(v) => {
            let mut out = Vec::new();
            for (k, x) in v {
                let k = project(k, skips, n);
                let v = if skip(n) {
                    Model::Skipped
                } else {
                    project(x, skips, n)
                };
                out.push((k, v));
            }
            Model::Map(out)
        }
        Model::Tagged(t, v) => Model::Tagged(t.clone(), Box::new(project(v, skips, n))),
        other => other.clone(),
    }
}
