//! A value asked for in drawn forms: at every node of a tree the consumer
//! makes a request of its own (anything, a number, a string, an option, an
//! enum with this or that content, ...), mostly one that fits, and records
//! what it is given. A reference says what that must be for a `Value`, by
//! value and by reference; the text must give the same wherever the request
//! means the same there.

use crate::asked::{self, Ask as Scalar};
use crate::gen;
use crate::model::{self, Model};
use serde::de::{self, Deserialize, DeserializeSeed, Deserializer, EnumAccess, IntoDeserializer, MapAccess, SeqAccess, VariantAccess, Visitor};
use serde_yaml::value::TaggedValue;
use serde_yaml::{Mapping, Number, Sequence, Value};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ask {
    Any,
    Ignored,
    /// Booleans, numbers, strings.
    Scalar(Scalar),
    Identifier,
    Bytes(bool),
    Option,
    Unit,
    UnitStruct,
    Newtype,
    Seq,
    Tuple,
    TupleStruct,
    Map,
    Struct,
    Enum,
}

#[derive(Clone, Debug)]
enum Access {
    Unit,
    Newtype(Box<Plan>),
    Tuple(Vec<Plan>),
    Struct(Vec<(Plan, Plan)>),
}

#[derive(Clone, Debug)]
pub struct Plan {
    ask: Ask,
    /// For the content of an option or newtype.
    inner: Option<Box<Plan>>,
    seq: Vec<Plan>,
    map: Vec<(Plan, Plan)>,
    access: Access,
    /// Stop one element before the end.
    less: bool,
}

#[derive(Clone, Debug, PartialEq)]
enum Seen {
    Ignored,
    Leaf(Model),
    None,
    Some(Box<Seen>),
    Newtype(Box<Seen>),
    Seq(Vec<Seen>),
    Map(Vec<(Seen, Seen)>),
    Enum(String, Option<Box<Seen>>),
}

fn untag(m: &Model) -> &Model {
    match m {
        Model::Tagged(_, v) => untag(v),
        other => other,
    }
}

const NUMBERS: [Scalar; 12] = [
    Scalar::I8,
    Scalar::I16,
    Scalar::I32,
    Scalar::I64,
    Scalar::I128,
    Scalar::U8,
    Scalar::U16,
    Scalar::U32,
    Scalar::U64,
    Scalar::U128,
    Scalar::F32,
    Scalar::F64,
];
const STRINGS: [Scalar; 3] = [Scalar::Str, Scalar::String, Scalar::Char];

fn some_ask(m: &Model, fits: bool) -> Ask {
    let number = || Ask::Scalar(*gen::one(&NUMBERS));
    let string = || match gen::pick(6) {
        0 => Ask::Identifier,
        1 => Ask::Bytes(gen::chance(1, 2)),
        _ => Ask::Scalar(*gen::one(&STRINGS)),
    };
    let seq = || *gen::one(&[Ask::Seq, Ask::Tuple, Ask::TupleStruct]);
    let map = || *gen::one(&[Ask::Map, Ask::Struct]);
    match gen::pick(16) {
        0 => return Ask::Ignored,
        1 | 2 => return Ask::Any,
        3 => return Ask::Option,
        4 => return Ask::Newtype,
        _ => {}
    }
    if !fits {
        return match gen::pick(9) {
            0 => Ask::Scalar(Scalar::Bool),
            1 => number(),
            2 => string(),
            3 => Ask::Unit,
            4 => Ask::UnitStruct,
            5 => seq(),
            6 => map(),
            7 => Ask::Bytes(gen::chance(1, 2)),
            _ => Ask::Enum,
        };
    }
    match m {
        Model::Bool(_) => Ask::Scalar(Scalar::Bool),
        Model::Int(..) | Model::Float(_) => number(),
        Model::Str(_) if gen::chance(1, 4) => Ask::Enum,
        Model::Str(_) => string(),
        Model::Seq(_) if gen::chance(1, 12) => Ask::Bytes(gen::chance(1, 2)),
        Model::Seq(_) => seq(),
        Model::Map(_) => map(),
        Model::Tagged(..) if gen::chance(2, 3) => Ask::Enum,
        Model::Tagged(_, v) => some_ask(v, true),
        _ => match gen::pick(4) {
            0 => Ask::Unit,
            1 => Ask::UnitStruct,
            2 => seq(),
            _ => map(),
        },
    }
}

fn access(m: &Model) -> Access {
    let content = match m {
        Model::Tagged(_, v) => &**v,
        _ => return if gen::chance(5, 6) { Access::Unit } else { [Access::Tuple(Vec::new()), Access::Struct(Vec::new())][gen::idx(2)].clone() },
    };
    let choice = match content {
        Model::Null => gen::weighted(&[6, 4, 1, 1]),
        Model::Seq(_) => gen::weighted(&[1, 4, 6, 1]),
        Model::Map(_) => gen::weighted(&[1, 4, 1, 6]),
        _ => gen::weighted(&[1, 9, 1, 1]),
    };
    match choice {
        0 => Access::Unit,
        1 => Access::Newtype(Box::new(draw(content))),
        2 => Access::Tuple(elements(content)),
        _ => Access::Struct(entries(content)),
    }
}

fn elements(m: &Model) -> Vec<Plan> {
    match m {
        Model::Seq(v) => v.iter().map(draw).collect(),
        _ => Vec::new(),
    }
}

fn entries(m: &Model) -> Vec<(Plan, Plan)> {
    match m {
        Model::Map(v) => v.iter().map(|(k, v)| (draw(k), draw(v))).collect(),
        _ => Vec::new(),
    }
}

pub fn draw(m: &Model) -> Plan {
    let ask = some_ask(m, !gen::chance(1, 30));
    plan(m, ask)
}

fn plan(m: &Model, ask: Ask) -> Plan {
    let mut p = Plan { ask, inner: None, seq: Vec::new(), map: Vec::new(), access: Access::Unit, less: gen::chance(1, 30) };
    match ask {
        Ask::Option | Ask::Newtype => p.inner = Some(Box::new(draw(m))),
        Ask::Any | Ask::Enum if matches!(m, Model::Tagged(..) | Model::Str(_)) => p.access = access(m),
        _ => {
            p.seq = elements(untag(m));
            p.map = entries(untag(m));
        }
    }
    p
}

type Want = Result<Seen, ()>;

fn seq(v: &[Model], p: &[Plan], less: bool) -> Want {
    let n = v.len().min(p.len());
    if less && n > 0 || n < v.len() {
        return Err(());
    }
    Ok(Seen::Seq(v.iter().zip(p).map(|(m, p)| expect(m, p)).collect::<Result<_, _>>()?))
}

fn map(v: &[(Model, Model)], p: &[(Plan, Plan)], less: bool) -> Want {
    let n = v.len().min(p.len());
    if less && n > 0 || n < v.len() {
        return Err(());
    }
    let one = |((k, v), (pk, pv)): (&(Model, Model), &(Plan, Plan))| Ok((expect(k, pk)?, expect(v, pv)?));
    Ok(Seen::Map(v.iter().zip(p).map(one).collect::<Result<_, ()>>()?))
}

fn variant(tag: &str, content: Option<&Model>, p: &Plan) -> Want {
    let got = match (&p.access, content) {
        (Access::Unit, None | Some(Model::Null)) => None,
        (Access::Newtype(p), Some(m)) => Some(expect(m, p)?),
        (Access::Tuple(q), Some(Model::Seq(v))) => Some(seq(v, q, p.less)?),
        (Access::Struct(q), Some(Model::Map(v))) => Some(map(v, q, false)?),
        _ => return Err(()),
    };
    Ok(Seen::Enum(tag.to_string(), got.map(Box::new)))
}

/// What asking a Value `m` this way must give.
fn expect(m: &Model, p: &Plan) -> Want {
    let u = untag(m);
    match p.ask {
        Ask::Ignored => Ok(Seen::Ignored),
        Ask::Any => match m {
            Model::Seq(v) => seq(v, &p.seq, p.less),
            Model::Map(v) => map(v, &p.map, p.less),
            Model::Tagged(t, v) => variant(t, Some(v), p),
            other => Ok(Seen::Leaf(other.clone())),
        },
        Ask::Scalar(Scalar::Bool) => match u {
            Model::Bool(_) => Ok(Seen::Leaf(u.clone())),
            _ => Err(()),
        },
        Ask::Scalar(Scalar::Str | Scalar::String | Scalar::Char) | Ask::Identifier => match u {
            Model::Str(_) => Ok(Seen::Leaf(u.clone())),
            _ => Err(()),
        },
        Ask::Scalar(_) => match u {
            Model::Int(..) | Model::Float(_) => Ok(Seen::Leaf(u.clone())),
            _ => Err(()),
        },
        Ask::Bytes(_) => match u {
            Model::Str(_) => Ok(Seen::Leaf(u.clone())),
            Model::Seq(v) => seq(v, &p.seq, p.less),
            _ => Err(()),
        },
        Ask::Option => match m {
            Model::Null => Ok(Seen::None),
            _ => Ok(Seen::Some(Box::new(expect(m, p.inner.as_ref().unwrap())?))),
        },
        Ask::Newtype => Ok(Seen::Newtype(Box::new(expect(m, p.inner.as_ref().unwrap())?))),
        Ask::Unit | Ask::UnitStruct => match m {
            Model::Null => Ok(Seen::Leaf(Model::Null)),
            _ => Err(()),
        },
        Ask::Seq | Ask::Tuple | Ask::TupleStruct => match u {
            Model::Seq(v) => seq(v, &p.seq, p.less),
            Model::Null => Ok(Seen::Seq(Vec::new())),
            _ => Err(()),
        },
        Ask::Map | Ask::Struct => match u {
            Model::Map(v) => map(v, &p.map, p.less),
            Model::Null => Ok(Seen::Map(Vec::new())),
            _ => Err(()),
        },
        Ask::Enum => match m {
            Model::Tagged(t, v) => variant(t, Some(v), p),
            Model::Str(s) => variant(s, None, p),
            _ => Err(()),
        },
    }
}

/// Does the request mean the same to the text of `m`? There the scalars have
/// no types of their own.
fn same_in_text(m: &Model, p: &Plan, in_enum: bool) -> bool {
    let all = |v: &[Model], q: &[Plan]| v.iter().zip(q).all(|(m, p)| same_in_text(m, p, false));
    let pairs = |v: &[(Model, Model)], q: &[(Plan, Plan)]| {
        v.iter().zip(q).all(|((k, v), (pk, pv))| same_in_text(k, pk, false) && same_in_text(v, pv, false))
    };
    let kids = |m: &Model, seq: &[Plan], map: &[(Plan, Plan)]| match m {
        Model::Seq(v) => all(v, seq),
        Model::Map(v) => pairs(v, map),
        _ => true,
    };
    let content = |m: &Model| match (m, &p.access) {
        (Model::Tagged(_, v), Access::Unit) => !matches!(**v, Model::Tagged(..)),
        (Model::Tagged(_, v), Access::Newtype(q)) => same_in_text(v, q, true),
        (Model::Tagged(_, v), Access::Tuple(q)) => kids(v, q, &[]),
        (Model::Tagged(_, v), Access::Struct(q)) => !p.less && kids(v, &[], q),
        _ => true,
    };
    let u = untag(m);
    match p.ask {
        Ask::Ignored => true,
        Ask::Any => content(m) && kids(m, &p.seq, &p.map),
        Ask::Identifier => matches!(u, Model::Str(_) | Model::Seq(_) | Model::Map(_)),
        Ask::Scalar(s) => {
            let string = STRINGS.contains(&s);
            match u {
                Model::Seq(_) | Model::Map(_) => true,
                _ if m != u && !string => false,
                _ => match asked::expect(u, s, false, false) {
                    None => false,
                    Some(want) => want.map(Seen::Leaf).ok_or(()) == expect(m, p),
                },
            }
        }
        // Never supported in text.
        Ask::Bytes(_) => false,
        Ask::Option | Ask::Newtype => same_in_text(m, p.inner.as_ref().unwrap(), in_enum),
        Ask::Unit | Ask::UnitStruct => true,
        Ask::Seq | Ask::Tuple | Ask::TupleStruct => match u {
            Model::Seq(_) => kids(u, &p.seq, &p.map),
            Model::Map(_) => true,
            _ => false,
        },
        Ask::Map | Ask::Struct => match u {
            Model::Map(_) => kids(u, &p.seq, &p.map),
            Model::Seq(_) => true,
            _ => false,
        },
        Ask::Enum => match m {
            Model::Tagged(..) => content(m),
            Model::Str(s) => !in_enum || !s.is_empty(),
            Model::Seq(_) | Model::Map(_) => true,
            _ => false,
        },
    }
}

thread_local! {
    /// A wrong size hint or a string that had to be copied, and where.
    static ODD: Cell<Option<&'static str>> = const { Cell::new(None) };
}

#[derive(Clone, Copy)]
struct Form<'p> {
    p: &'p Plan,
    /// Strings must come borrowed; sizes must be right.
    borrow: bool,
}

impl<'p> Form<'p> {
    fn of(&self, p: &'p Plan) -> Form<'p> {
        Form { p, ..*self }
    }
}

impl<'p, 'de> DeserializeSeed<'de> for Form<'p> {
    type Value = Seen;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        match self.p.ask {
            Ask::Any => d.deserialize_any(self),
            Ask::Ignored => d.deserialize_ignored_any(de::IgnoredAny).map(|_| Seen::Ignored),
            Ask::Scalar(Scalar::Bool) => d.deserialize_bool(self),
            Ask::Scalar(Scalar::I8) => d.deserialize_i8(self),
            Ask::Scalar(Scalar::I16) => d.deserialize_i16(self),
            Ask::Scalar(Scalar::I32) => d.deserialize_i32(self),
            Ask::Scalar(Scalar::I64) => d.deserialize_i64(self),
            Ask::Scalar(Scalar::I128) => d.deserialize_i128(self),
            Ask::Scalar(Scalar::U8) => d.deserialize_u8(self),
            Ask::Scalar(Scalar::U16) => d.deserialize_u16(self),
            Ask::Scalar(Scalar::U32) => d.deserialize_u32(self),
            Ask::Scalar(Scalar::U64) => d.deserialize_u64(self),
            Ask::Scalar(Scalar::U128) => d.deserialize_u128(self),
            Ask::Scalar(Scalar::F32) => d.deserialize_f32(self),
            Ask::Scalar(Scalar::F64) => d.deserialize_f64(self),
            Ask::Scalar(Scalar::Str) => d.deserialize_str(self),
            Ask::Scalar(Scalar::Char) => d.deserialize_char(self),
            Ask::Scalar(_) => d.deserialize_string(self),
            Ask::Identifier => d.deserialize_identifier(self),
            Ask::Bytes(false) => d.deserialize_bytes(self),
            Ask::Bytes(true) => d.deserialize_byte_buf(self),
            Ask::Option => d.deserialize_option(self),
            Ask::Unit => d.deserialize_unit(self),
            Ask::UnitStruct => d.deserialize_unit_struct("U", self),
            Ask::Newtype => d.deserialize_newtype_struct("N", self),
            Ask::Seq => d.deserialize_seq(self),
            Ask::Tuple => d.deserialize_tuple(self.p.seq.len(), self),
            Ask::TupleStruct => d.deserialize_tuple_struct("T", self.p.seq.len(), self),
            Ask::Map => d.deserialize_map(self),
            Ask::Struct => d.deserialize_struct("S", &[], self),
            Ask::Enum => d.deserialize_enum("E", &[], self),
        }
    }
}

impl<'p, 'de> Visitor<'de> for Form<'p> {
    type Value = Seen;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "what comes of {:?}", self.p.ask)
    }
    fn visit_bool<E>(self, v: bool) -> Result<Seen, E> {
        Ok(Seen::Leaf(Model::Bool(v)))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Seen, E> {
        Ok(Seen::Leaf(model::int(v as i128)))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Seen, E> {
        Ok(Seen::Leaf(model::int(v)))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Seen, E> {
        Ok(Seen::Leaf(Model::Int(false, v as u128)))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Seen, E> {
        Ok(Seen::Leaf(Model::Int(false, v)))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Seen, E> {
        Ok(Seen::Leaf(model::float(v)))
    }
    fn visit_str<E>(self, v: &str) -> Result<Seen, E> {
        if self.borrow {
            ODD.set(Some("a string of a &Value was not lent"));
        }
        Ok(Seen::Leaf(Model::Str(v.to_string())))
    }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Seen, E> {
        Ok(Seen::Leaf(Model::Str(v.to_string())))
    }
    fn visit_unit<E>(self) -> Result<Seen, E> {
        Ok(Seen::Leaf(Model::Null))
    }
    fn visit_none<E>(self) -> Result<Seen, E> {
        Ok(Seen::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        let p = self.p.inner.as_ref().ok_or_else(|| de::Error::custom("nobody asked for an option"))?;
        Ok(Seen::Some(Box::new(self.of(p).deserialize(d)?)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Seen, D::Error> {
        let p = self.p.inner.as_ref().ok_or_else(|| de::Error::custom("nobody asked for a newtype"))?;
        Ok(Seen::Newtype(Box::new(self.of(p).deserialize(d)?)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let q = match (&self.p.ask, &self.p.access) {
            (Ask::Enum | Ask::Any, Access::Tuple(q)) => q,
            _ => &self.p.seq,
        };
        let mut out = Vec::new();
        for p in &q[..q.len() - usize::from(self.p.less && !q.is_empty())] {
            sized(a.size_hint(), q.len() - out.len());
            match a.next_element_seed(self.of(p))? {
                Some(x) => out.push(x),
                None => return Err(de::Error::custom("an element is missing")),
            }
        }
        if out.len() == q.len() && asks_for_the_end(q.len()) && a.next_element::<de::IgnoredAny>()?.is_some() {
            return Err(de::Error::custom("an element too many"));
        }
        Ok(Seen::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Seen, A::Error> {
        let q = match (&self.p.ask, &self.p.access) {
            (Ask::Enum | Ask::Any, Access::Struct(q)) => q,
            _ => &self.p.map,
        };
        let in_variant = matches!((&self.p.ask, &self.p.access), (Ask::Enum | Ask::Any, Access::Struct(_)));
        let mut out = Vec::new();
        for (pk, pv) in &q[..q.len() - usize::from(self.p.less && !in_variant && !q.is_empty())] {
            sized(a.size_hint(), q.len() - out.len());
            match a.next_key_seed(self.of(pk))? {
                Some(k) => out.push((k, a.next_value_seed(self.of(pv))?)),
                None => return Err(de::Error::custom("an entry is missing")),
            }
        }
        if out.len() == q.len() && asks_for_the_end(q.len()) && a.next_key::<de::IgnoredAny>()?.is_some() {
            return Err(de::Error::custom("an entry too many"));
        }
        Ok(Seen::Map(out))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Seen, A::Error> {
        let (tag, v) = a.variant_seed(Name)?;
        let got = match &self.p.access {
            Access::Unit => {
                v.unit_variant()?;
                None
            }
            Access::Newtype(p) => Some(v.newtype_variant_seed(self.of(p))?),
            Access::Tuple(q) => Some(v.tuple_variant(q.len(), self)?),
            Access::Struct(_) => Some(v.struct_variant(&[], self)?),
        };
        Ok(Seen::Enum(tag, got.map(Box::new)))
    }
}

struct Name;

impl<'de> DeserializeSeed<'de> for Name {
    type Value = String;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<String, D::Error> {
        d.deserialize_identifier(self)
    }
}

impl<'de> Visitor<'de> for Name {
    type Value = String;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the name of a variant")
    }
    fn visit_str<E>(self, v: &str) -> Result<String, E> {
        Ok(v.to_string())
    }
}

/// Tuples and structs do not ask for an end they need not see.
fn asks_for_the_end(n: usize) -> bool {
    n % 2 == 0
}

fn sized(hint: Option<usize>, left: usize) {
    if hint.is_some_and(|h| h != left) {
        ODD.set(Some("a size is announced that is not the true one"));
    }
}

/// A deserializer of another format: `m` in whatever widths and kinds.
pub struct Foreign<'m>(pub &'m Model);

impl<'de, 'm> Deserializer<'de> for Foreign<'m> {
    type Error = serde_yaml::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        if gen::chance(1, 8) && *self.0 != Model::Null {
            return v.visit_some(Foreign(self.0));
        }
        match self.0 {
            Model::Null | Model::Skipped => match gen::pick(2) {
                0 => v.visit_none(),
                _ => v.visit_unit(),
            },
            Model::Bool(b) => v.visit_bool(*b),
            Model::Int(neg, n) => {
                let i = if *neg { -(*n as i128) } else { *n as i128 };
                match gen::pick(8) {
                    0 if i8::try_from(i).is_ok() => v.visit_i8(i as i8),
                    1 if i16::try_from(i).is_ok() => v.visit_i16(i as i16),
                    2 if i32::try_from(i).is_ok() => v.visit_i32(i as i32),
                    3 if u8::try_from(i).is_ok() => v.visit_u8(i as u8),
                    4 if u16::try_from(i).is_ok() => v.visit_u16(i as u16),
                    5 if u32::try_from(i).is_ok() => v.visit_u32(i as u32),
                    6 if u64::try_from(i).is_ok() => v.visit_u64(i as u64),
                    _ if i64::try_from(i).is_ok() => v.visit_i64(i as i64),
                    _ => v.visit_u64(i as u64),
                }
            }
            Model::Float(b) => {
                let f = f64::from_bits(*b);
                if (f as f32) as f64 == f && gen::chance(1, 2) {
                    v.visit_f32(f as f32)
                } else {
                    v.visit_f64(f)
                }
            }
            Model::Str(s) => match gen::pick(3) {
                0 => v.visit_string(s.clone()),
                1 if s.chars().count() == 1 => v.visit_char(s.chars().next().unwrap()),
                _ => v.visit_str(s),
            },
            Model::Seq(s) => v.visit_seq(de::value::SeqDeserializer::new(s.iter().map(Foreign))),
            Model::Map(m) => v.visit_map(de::value::MapDeserializer::new(m.iter().map(|(k, v)| (Foreign(k), Foreign(v))))),
            Model::Tagged(t, m) => v.visit_enum(ForeignEnum(t, m)),
        }
    }
    fn deserialize_option<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        match self.0 {
            Model::Null => v.visit_none(),
            _ => v.visit_some(self),
        }
    }
    fn deserialize_newtype_struct<V: Visitor<'de>>(self, _: &'static str, v: V) -> Result<V::Value, Self::Error> {
        v.visit_newtype_struct(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf unit unit_struct
        seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de, 'm> IntoDeserializer<'de, serde_yaml::Error> for Foreign<'m> {
    type Deserializer = Self;
    fn into_deserializer(self) -> Self {
        self
    }
}

struct ForeignEnum<'m>(&'m str, &'m Model);

impl<'de, 'm> EnumAccess<'de> for ForeignEnum<'m> {
    type Error = serde_yaml::Error;
    type Variant = Self;
    fn variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), Self::Error> {
        let name = match gen::pick(3) {
            0 => s.deserialize(de::value::StrDeserializer::<Self::Error>::new(self.0))?,
            1 if self.0 != "!" && !self.0.is_empty() => s.deserialize(de::value::StringDeserializer::<Self::Error>::new(format!("!{}", self.0)))?,
            _ => s.deserialize(de::value::StringDeserializer::<Self::Error>::new(self.0.to_string()))?,
        };
        Ok((name, self))
    }
}

impl<'de, 'm> VariantAccess<'de> for ForeignEnum<'m> {
    type Error = serde_yaml::Error;
    fn unit_variant(self) -> Result<(), Self::Error> {
        Ok(())
    }
    fn newtype_variant_seed<S: DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Self::Error> {
        s.deserialize(Foreign(self.1))
    }
    fn tuple_variant<V: Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Self::Error> {
        Foreign(self.1).deserialize_any(v)
    }
    fn struct_variant<V: Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> {
        Foreign(self.1).deserialize_any(v)
    }
}

fn short(x: &impl fmt::Debug) -> String {
    let mut s = format!("{x:?}");
    if s.len() > 600 {
        let mut n = 600;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
        s.push_str("...");
    }
    s
}

fn judge(how: &str, m: &Model, p: &Plan, want: &Want, got: Result<Seen, serde_yaml::Error>) -> Option<String> {
    if let Some(odd) = ODD.take() {
        return Some(format!("{how}: {odd}: {} asked as {}", short(m), short(p)));
    }
    let said = got.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
    if got.map_err(drop) != *want {
        return Some(format!(
            "{how}: {} asked as {} gives {} {said}, not {}",
            short(m),
            short(p),
            if said.is_empty() { "something else" } else { "the error" },
            short(want)
        ));
    }
    None
}

/// `v` is the Value of `m`; `text` its text, if it is to be asked too.
pub fn check(m: &Model, v: &Value, text: Option<&str>) -> Option<String> {
    ODD.take();
    let p = draw(m);
    let want = expect(m, &p);
    let form = Form { p: &p, borrow: false };
    if let Some(e) = judge("a &Value", m, &p, &want, Form { p: &p, borrow: true }.deserialize(v)) {
        return Some(e);
    }
    let by_value = match gen::pick(2) {
        0 => form.deserialize(v.clone()),
        _ => form.deserialize(v.clone().into_deserializer()),
    };
    if let Some(e) = judge("a Value", m, &p, &want, by_value) {
        return Some(e);
    }
    if let (Some(text), true) = (text, same_in_text(m, &p, false)) {
        let mut e = judge("its text", m, &p, &want, form.deserialize(serde_yaml::Deserializer::from_str(text)));
        if e.is_none() && gen::chance(1, 2) {
            e = judge("its text from a reader", m, &p, &want, form.deserialize(serde_yaml::Deserializer::from_reader(text.as_bytes())));
        }
        if let Some(e) = e {
            return Some(format!("{e} in {}", short(&text)));
        }
    }
    if let (Some(text), Ask::Bytes(_)) = (text, p.ask) {
        if form.deserialize(serde_yaml::Deserializer::from_str(text)).is_ok() {
            return Some(format!("bytes are read from {}", short(&text)));
        }
    }
    if let Value::Tagged(t) = v {
        // Whatever it is asked for, it is an enum.
        let mut q = plan(m, Ask::Any);
        let want = expect(m, &q);
        q.ask = some_ask(m, false);
        if !matches!(q.ask, Ask::Ignored | Ask::Option | Ask::Newtype) {
            // The plan's content is that of an enum, by whatever name.
            q.ask = if gen::chance(1, 2) { Ask::Enum } else { Ask::Any };
            let form = Form { p: &q, borrow: false };
            let got = form.deserialize((**t).clone());
            if let Some(e) = judge("a TaggedValue", m, &q, &want, got) {
                return Some(e);
            }
            let got = Form { p: &q, borrow: true }.deserialize(&**t);
            if let Some(e) = judge("a &TaggedValue", m, &q, &want, got) {
                return Some(e);
            }
        }
    }
    concrete(m, v)
}

/// The library's own types, read from a Value and from elsewhere.
fn concrete(m: &Model, v: &Value) -> Option<String> {
    let whole = |r: Result<Model, serde_yaml::Error>, want: Option<Model>, how: &str| {
        let said = r.as_ref().err().map(|e| e.to_string()).unwrap_or_default();
        if r.ok() != want {
            Some(format!("{how} from {}: {said} where {} is due", short(m), short(&want)))
        } else {
            None
        }
    };
    let u = untag(m);
    let by_ref = gen::chance(1, 2);
    macro_rules! read {
        ($t:ty) => {
            if by_ref {
                <$t>::deserialize(v)
            } else {
                serde_yaml::from_value::<$t>(v.clone())
            }
        };
    }
    match gen::pick(7) {
        0 => whole(
            read!(Mapping).map(|x| Model::from_value(&Value::Mapping(x))),
            match u {
                Model::Map(_) => Some(u.clone()),
                Model::Null => Some(Model::Map(Vec::new())),
                _ => None,
            },
            "a Mapping",
        ),
        1 => whole(
            read!(Sequence).map(|x| Model::from_value(&Value::Sequence(x))),
            match u {
                Model::Seq(_) => Some(u.clone()),
                Model::Null => Some(Model::Seq(Vec::new())),
                _ => None,
            },
            "a Sequence",
        ),
        2 => whole(
            read!(Number).map(|x| Model::from_value(&Value::Number(x))),
            matches!(m, Model::Int(..) | Model::Float(_)).then(|| m.clone()),
            "a Number",
        ),
        3 => whole(
            read!(TaggedValue).map(|x| Model::from_value(&Value::Tagged(Box::new(x)))),
            matches!(m, Model::Tagged(..)).then(|| m.clone()),
            "a TaggedValue",
        ),
        4 => whole(
            read!(Option<Value>).map(|x| x.map_or(Model::Null, |x| Model::from_value(&x))),
            Some(m.clone()),
            "an optional Value",
        ),
        5 => whole(
            <&str>::deserialize(v).map(|s| Model::Str(s.to_string())),
            matches!(u, Model::Str(_)).then(|| u.clone()),
            "a &str",
        ),
        _ => whole(Value::deserialize(Foreign(m)).map(|x| Model::from_value(&x)), Some(m.clone()), "a Value of another format"),
    }
}
