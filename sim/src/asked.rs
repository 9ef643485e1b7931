//! A consumer that takes a document whose content is known as it comes,
//! except for one scalar, which it asks for as a drawn type.

use crate::model::{self, Model};
use serde::de::{self, DeserializeSeed, Deserializer, EnumAccess, MapAccess, SeqAccess, VariantAccess, Visitor};
use std::cell::Cell;
use std::fmt;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ask {
    I8,
    I16,
    I32,
    I64,
    U8,
    U16,
    U32,
    U64,
    I128,
    U128,
    F32,
    F64,
    Bool,
    Str,
    String,
    Char,
    Unit,
    Option,
    Newtype,
    Seq,
    Map,
}

pub const ASKS: [Ask; 21] = [
    Ask::I64,
    Ask::U64,
    Ask::F64,
    Ask::Bool,
    Ask::Str,
    Ask::Unit,
    Ask::Option,
    Ask::I8,
    Ask::I16,
    Ask::I32,
    Ask::U8,
    Ask::U16,
    Ask::U32,
    Ask::I128,
    Ask::U128,
    Ask::F32,
    Ask::String,
    Ask::Char,
    Ask::Newtype,
    Ask::Seq,
    Ask::Map,
];

pub fn scalars(m: &Model) -> usize {
    match m {
        Model::Seq(v) => v.iter().map(scalars).sum(),
        Model::Map(v) => v.iter().map(|(k, v)| scalars(k) + scalars(v)).sum(),
        Model::Tagged(_, v) => scalars(v),
        _ => 1,
    }
}

/// The scalar at this position.
pub fn scalar<'m>(m: &'m Model, n: &mut usize) -> Option<&'m Model> {
    match m {
        Model::Seq(v) => v.iter().find_map(|x| scalar(x, n)),
        Model::Map(v) => v.iter().find_map(|(k, v)| scalar(k, n).or_else(|| scalar(v, n))),
        Model::Tagged(_, v) => scalar(v, n),
        _ => {
            if *n == 0 {
                return Some(m);
            }
            *n -= 1;
            None
        }
    }
}

/// What asking for `m` as `ask` must give: `None` if either answer will do,
/// `Some(None)` for an error, else the content.
pub fn expect(m: &Model, ask: Ask, from_value: bool, tags: bool) -> Option<Option<Model>> {
    use Ask::*;
    let signed = matches!(ask, I8 | I16 | I32 | I64);
    let unsigned = matches!(ask, U8 | U16 | U32 | U64);
    let string = matches!(ask, Str | String | Char);
    if tags && !from_value && !string && !matches!(ask, Option | Newtype | Seq | Map) {
        // A core tag decides only for a consumer that takes anything.
        return None;
    }
    let same = Some(Some(m.clone()));
    if matches!(ask, Option | Newtype) {
        return Some(Some(m.clone()));
    }
    match m {
        Model::Int(neg, n) => {
            let n = *n;
            if signed {
                let fits = if *neg { n <= 1 << 63 } else { n < 1 << 63 };
                // A Value hands any number over as it is.
                return if fits || from_value { same } else { Some(None) };
            }
            if unsigned {
                if from_value {
                    return same;
                }
                return match n {
                    0 => None,
                    _ if *neg => Some(None),
                    _ => if n <= u64::MAX as u128 { same } else { Some(None) },
                };
            }
            match ask {
                I128 => if n < 1 << 127 { same } else { None },
                U128 => if n == 0 { None } else if !neg || from_value { same } else { Some(None) },
                F32 | F64 => None,
                Bool | Unit | Seq | Map => Some(None),
                _ => if from_value { Some(None) } else { None },
            }
        }
        Model::Float(_) => match ask {
            F32 | F64 => same,
            _ if from_value && (signed || unsigned || matches!(ask, I128 | U128)) => same,
            _ if string && !from_value => None,
            _ => Some(None),
        },
        Model::Bool(_) => match ask {
            Bool => same,
            _ if string && !from_value => None,
            _ => Some(None),
        },
        Model::Null => match ask {
            Unit => same,
            _ if string && !from_value => None,
            // Nothing at all is an empty collection.
            Seq | Map => None,
            _ => Some(None),
        },
        Model::Str(s) => {
            if string {
                return same;
            }
            if from_value {
                return Some(None);
            }
            if tags {
                return None;
            }
            let digits = s.trim_start_matches(['+', '-']);
            match ask {
                F32 | F64 if !digits.is_empty() && digits.bytes().all(|b| b.is_ascii_digit()) => None,
                Seq | Map if s.is_empty() => None,
                _ => Some(None),
            }
        }
        _ => None,
    }
}

pub struct Asked<'m> {
    pub m: &'m Model,
    pub seen: &'m Cell<usize>,
    pub at: usize,
    pub ask: Ask,
}

impl<'m> Asked<'m> {
    fn of(&self, m: &'m Model) -> Asked<'m> {
        Asked { m, ..*self }
    }
}

/// Takes one scalar in whatever form it comes.
struct One;

impl<'de, 'm> DeserializeSeed<'de> for Asked<'m> {
    type Value = Model;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Model, D::Error> {
        if matches!(self.m, Model::Seq(_) | Model::Map(_) | Model::Tagged(..)) {
            return d.deserialize_any(self);
        }
        let n = self.seen.get();
        self.seen.set(n + 1);
        if n != self.at {
            return d.deserialize_any(One);
        }
        match self.ask {
            Ask::I8 => d.deserialize_i8(One),
            Ask::I16 => d.deserialize_i16(One),
            Ask::I32 => d.deserialize_i32(One),
            Ask::I64 => d.deserialize_i64(One),
            Ask::U8 => d.deserialize_u8(One),
            Ask::U16 => d.deserialize_u16(One),
            Ask::U32 => d.deserialize_u32(One),
            Ask::U64 => d.deserialize_u64(One),
            Ask::I128 => d.deserialize_i128(One),
            Ask::U128 => d.deserialize_u128(One),
            Ask::F32 => d.deserialize_f32(One),
            Ask::F64 => d.deserialize_f64(One),
            Ask::Bool => d.deserialize_bool(One),
            Ask::Str => d.deserialize_str(One),
            Ask::String => d.deserialize_string(One),
            Ask::Char => d.deserialize_char(One),
            Ask::Unit => d.deserialize_unit(One),
            Ask::Option => d.deserialize_option(One),
            Ask::Newtype => d.deserialize_newtype_struct("N", One),
            Ask::Seq => d.deserialize_seq(One),
            Ask::Map => d.deserialize_map(One),
        }
    }
}

impl<'de, 'm> Visitor<'de> for Asked<'m> {
    type Value = Model;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("the collection that was there before")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Model, A::Error> {
        let Model::Seq(v) = self.m else {
            return Err(de::Error::invalid_type(de::Unexpected::Seq, &self));
        };
        let mut out = Vec::new();
        for x in v {
            match a.next_element_seed(self.of(x))? {
                Some(m) => out.push(m),
                None => break,
            }
        }
        Ok(Model::Seq(out))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Model, A::Error> {
        let Model::Map(v) = self.m else {
            return Err(de::Error::invalid_type(de::Unexpected::Map, &self));
        };
        let mut out = Vec::new();
        for (k, x) in v {
            match a.next_key_seed(self.of(k))? {
                Some(m) => out.push((m, a.next_value_seed(self.of(x))?)),
                None => break,
            }
        }
        Ok(Model::Map(out))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Model, A::Error> {
        let Model::Tagged(_, m) = self.m else {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        };
        let (tag, v) = a.variant::<String>()?;
        Ok(Model::Tagged(tag, Box::new(v.newtype_variant_seed(self.of(m))?)))
    }
}

impl<'de> Visitor<'de> for One {
    type Value = Model;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("a scalar")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Model, E> {
        Ok(Model::Bool(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Model, E> {
        Ok(model::int(v as i128))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Model, E> {
        Ok(model::int(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Model, E> {
        Ok(Model::Int(false, v as u128))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Model, E> {
        Ok(Model::Int(false, v))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Model, E> {
        Ok(model::float(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Model, E> {
        Ok(Model::Str(v.to_string()))
    }
    fn visit_unit<E>(self) -> Result<Model, E> {
        Ok(Model::Null)
    }
    fn visit_none<E>(self) -> Result<Model, E> {
        Ok(Model::Null)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Model, D::Error> {
        d.deserialize_any(One)
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Model, D::Error> {
        d.deserialize_any(One)
    }
}
