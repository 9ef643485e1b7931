//! A record that uses all of serde's data model, as derived code uses it, and
//! a transcoder that pipes any deserializer into any serializer.

use crate::gen;
use crate::node;
use serde::de::{self, Deserialize as De, DeserializeSeed, Visitor};
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Serialize};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Number, Value};
use std::borrow::Cow;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::fmt;

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct UnitS;

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Nt(pub String);

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct NtOpt(pub Option<Vec<i32>>);

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Ts(pub i32, pub String, pub Option<bool>);

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Eq, PartialOrd, Ord)]
pub struct Point {
    pub x: i32,
    pub y: i32,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Copy, Eq, PartialOrd, Ord)]
#[serde(rename_all = "kebab-case")]
pub enum Color {
    DeepRed,
    Green,
    #[serde(rename = "true")]
    Truthy,
    #[serde(rename = "12")]
    Numeric,
    #[serde(rename = "a: b #c")]
    Punctuated,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone, Eq, PartialOrd, Ord)]
pub enum Key {
    Unit,
    New(u8),
    Pair(u8, String),
    Named { a: i16 },
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum En {
    Unit,
    NewInt(i64),
    NewStr(String),
    NewOpt(Option<u8>),
    NewUnit(()),
    NewSeq(Vec<String>),
    NewMap(BTreeMap<String, i32>),
    NewStruct(Point),
    NewTuple((u8, String)),
    Tup(u8, String),
    TupNest(Box<En>, Color),
    EmptyTup(),
    Named { id: u32, inner: Option<Box<En>>, list: Vec<En> },
    Empty {},
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "type")]
pub enum Internal {
    A { x: i32 },
    B { name: String, more: Vec<u8> },
    C,
    D(Point),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(tag = "t", content = "c")]
pub enum Adjacent {
    A(i32),
    B(String, bool),
    C { x: Vec<String> },
    D,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
#[serde(untagged)]
pub enum Untagged {
    Int(i64),
    Bool(bool),
    Named { key: String },
    Seq(Vec<i32>),
    Str(String),
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Flat {
    pub first: String,
    #[serde(flatten)]
    pub point: Point,
    #[serde(flatten)]
    pub rest: BTreeMap<String, Value>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Singles {
    #[serde(with = "serde_yaml::with::singleton_map")]
    pub one: En,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    pub deep: Vec<En>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    pub opt: Option<En>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    pub map: BTreeMap<String, En>,
    #[serde(with = "serde_yaml::with::singleton_map_recursive")]
    pub tup: (En, u8, Color),
    #[serde(with = "serde_yaml::with::singleton_map")]
    pub color: Color,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Numbers {
    pub a: i8,
    pub b: i16,
    pub c: i32,
    pub d: i64,
    pub e: i128,
    pub f: u8,
    pub g: u16,
    pub h: u32,
    pub i: u64,
    pub j: u128,
    pub k: f32,
    pub l: f64,
    pub m: Vec<f64>,
    pub n: isize,
    pub o: std::num::NonZeroU16,
    pub p: Number,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Maps {
    pub s: BTreeMap<String, Vec<Option<i32>>>,
    pub i: BTreeMap<i64, String>,
    pub c: BTreeMap<char, bool>,
    pub b: BTreeMap<bool, u8>,
    pub e: BTreeMap<Color, i32>,
    pub k: BTreeMap<Key, i8>,
    pub t: BTreeMap<(u8, String), String>,
    pub p: BTreeMap<Point, Key>,
    pub o: BTreeMap<Option<u8>, u8>,
    pub v: BTreeMap<Vec<String>, ()>,
    pub n: BTreeMap<u8, BTreeMap<String, BTreeMap<String, u8>>>,
    pub set: BTreeSet<String>,
    pub w: Pairs,
}

/// A map whose keys and values are written and read one by one.
#[derive(PartialEq, Debug, Clone)]
pub struct Pairs(pub Vec<(Key, En)>);
impl Serialize for Pairs {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut m = s.serialize_map(Some(self.0.len()))?;
        for (k, v) in &self.0 {
            m.serialize_key(k)?;
            m.serialize_value(v)?;
        }
        m.end()
    }
}
impl<'de> Deserialize<'de> for Pairs {
    fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        struct V;
        impl<'de> de::Visitor<'de> for V {
            type Value = Pairs;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("pairs")
            }
            fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Pairs, A::Error> {
                let mut out = Vec::new();
                while let Some(k) = a.next_key()? {
                    out.push((k, a.next_value()?));
                }
                Ok(Pairs(out))
            }
        }
        d.deserialize_map(V)
    }
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Texts {
    pub s: String,
    pub c: char,
    pub cow: Cow<'static, str>,
    pub boxed: Box<str>,
    pub list: VecDeque<String>,
    #[serde(rename = "weird key: #1")]
    pub weird: String,
    #[serde(rename = "null")]
    pub null: String,
    #[serde(rename = "")]
    pub empty: String,
    #[serde(rename = "0x1")]
    pub hex: Option<String>,
    #[serde(rename = "y\n")]
    pub nl: String,
    pub ip: std::net::IpAddr,
    pub path: std::path::PathBuf,
    pub dur: std::time::Duration,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub struct Shapes {
    pub unit: (),
    pub us: UnitS,
    pub nt: Nt,
    pub nto: NtOpt,
    pub ts: Ts,
    pub opt: Option<String>,
    pub opt2: Option<Nt>,
    pub opt3: Option<Vec<Option<()>>>,
    pub opt4: Option<Point>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub skip: Option<En>,
    pub tup: (i32, String, bool, (), [u8; 3]),
    pub one: (u8,),
    pub nested: Vec<Vec<Vec<i16>>>,
    pub pts: Vec<Point>,
    pub res: Result<u8, String>,
    pub bound: std::ops::Bound<i32>,
    pub range: std::ops::Range<u8>,
    pub boxed: Option<Box<Shapes>>,
}

#[derive(Serialize, Deserialize, PartialEq, Debug, Clone)]
pub enum Big {
    Numbers(Numbers),
    Maps(Maps),
    Texts(Texts),
    Shapes(Shapes),
    Singles(Singles),
    Flat(Flat),
    Enums { plain: Vec<En>, key: Key, one: BTreeMap<String, En>, color: Color },
    Tagging(Vec<Internal>, Vec<Adjacent>, Vec<Untagged>),
    Values { v: Vec<Value>, m: Mapping },
    Unit,
}

fn s() -> String {
    if gen::chance(1, 12) {
        node::string()
    } else {
        node::string().chars().take(40).collect()
    }
}

fn int() -> i128 {
    match gen::pick(4) {
        0 => gen::pick(300) as i128 - 150,
        1 => gen::full() as i64 as i128,
        2 => *gen::one(&[0, 1, -1, 127, -128, 255, 32767, -32768, 65535, i32::MIN as i128, u32::MAX as i128, i64::MIN as i128, i64::MAX as i128, u64::MAX as i128]),
        _ => gen::pick(10) as i128,
    }
}

/// Floats whose f32 form prints exactly; never NaN (it differs from itself).
fn float() -> f64 {
    match gen::pick(4) {
        0 => gen::pick(100_000) as f64 / 64.0 - 500.0,
        1 => {
            let f = f64::from_bits(gen::full());
            if f.is_nan() {
                1.5
            } else {
                f
            }
        }
        2 => *gen::one(&[0.0, 1.0, -1.0, 1e15, 1e16, 1e17, 1e300, 5e-324, f64::MAX, f64::MIN, f64::INFINITY, f64::NEG_INFINITY, 0.1, 1e-7, 123456789012345680.0]),
        _ => gen::pick(100) as f64,
    }
}

fn float32() -> f32 {
    match gen::pick(3) {
        0 => gen::pick(1000) as f32 / 8.0,
        1 => {
            let f = f32::from_bits(gen::pick(1 << 32) as u32);
            if f.is_nan() {
                0.1
            } else {
                f
            }
        }
        _ => *gen::one(&[0.1f32, 0.3, 16777216.0, 1e20, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 3.4e-39]),
    }
}

fn color() -> Color {
    *gen::one(&[Color::DeepRed, Color::Green, Color::Truthy, Color::Numeric, Color::Punctuated])
}

fn point() -> Point {
    Point { x: int() as i32, y: gen::pick(9) as i32 }
}

fn ekey() -> Key {
    match gen::pick(4) {
        0 => Key::Unit,
        1 => Key::New(gen::pick(256) as u8),
        2 => Key::Pair(gen::pick(3) as u8, s()),
        _ => Key::Named { a: int() as i16 },
    }
}

/// `depth`: nesting of enums left; enums directly inside newtype variants are
/// a documented limitation and never drawn.
fn en(depth: usize) -> En {
    match gen::pick(if depth > 0 { 14 } else { 12 }) {
        0 => En::Unit,
        1 => En::NewInt(int() as i64),
        2 => En::NewStr(s()),
        3 => En::NewOpt(gen::chance(1, 2).then(|| gen::pick(9) as u8)),
        4 => En::NewUnit(()),
        5 => En::NewSeq(gen::list(0, 3, |_| s())),
        6 => En::NewMap(gen::list(0, 3, |_| (s(), int() as i32)).into_iter().collect()),
        7 => En::NewStruct(point()),
        8 => En::NewTuple((gen::pick(9) as u8, s())),
        9 => En::Tup(gen::pick(9) as u8, s()),
        10 => En::EmptyTup(),
        11 => En::Empty {},
        12 => En::TupNest(Box::new(en(depth - 1)), color()),
        _ => En::Named {
            id: int() as u32,
            inner: gen::chance(1, 2).then(|| Box::new(en(depth - 1))),
            list: gen::list(0, 3, |_| en(depth - 1)),
        },
    }
}

fn value() -> Value {
    crate::node::value_model(2).to_value().unwrap()
}

fn shapes(depth: usize) -> Shapes {
    Shapes {
        unit: (),
        us: UnitS,
        nt: Nt(s()),
        nto: NtOpt(gen::chance(1, 2).then(|| gen::list(0, 3, |_| int() as i32))),
        ts: Ts(int() as i32, s(), gen::chance(1, 2).then(|| true)),
        opt: gen::chance(1, 2).then(s),
        opt2: gen::chance(1, 2).then(|| Nt(s())),
        opt3: gen::chance(1, 2).then(|| gen::list(0, 3, |_| None)),
        opt4: gen::chance(1, 2).then(point),
        skip: gen::chance(1, 2).then(|| en(1)),
        tup: (int() as i32, s(), gen::chance(1, 2), (), [int() as u8, 0, 255]),
        one: (gen::pick(9) as u8,),
        nested: gen::list(0, 3, |_| gen::list(0, 3, |_| gen::list(0, 3, |_| int() as i16))),
        pts: gen::list(0, 3, |_| point()),
        res: if gen::chance(1, 2) { Ok(7) } else { Err(s()) },
        bound: *gen::one(&[std::ops::Bound::Unbounded, std::ops::Bound::Included(-3), std::ops::Bound::Excluded(8)]),
        range: 1..gen::pick(9) as u8,
        boxed: (depth > 0 && gen::chance(1, 2)).then(|| Box::new(shapes(depth - 1))),
    }
}

pub fn big() -> Big {
    gen::span(|| match gen::pick(10) {
        0 => Big::Unit,
        1 => Big::Numbers(Numbers {
            a: int() as i8,
            b: int() as i16,
            c: int() as i32,
            d: int() as i64,
            e: (int() as i64) as i128,
            f: int() as u8,
            g: int() as u16,
            h: int() as u32,
            i: int() as u64,
            j: (int() as u64) as u128,
            k: float32(),
            l: float(),
            m: gen::list(0, 4, |_| float()),
            n: int() as isize,
            o: std::num::NonZeroU16::new(int() as u16).unwrap_or(std::num::NonZeroU16::MIN),
            p: match gen::pick(3) {
                0 => Number::from(int() as u64),
                1 => Number::from(int() as i64),
                _ => Number::from(float()),
            },
        }),
        2 => Big::Maps(Maps {
            s: gen::list(0, 3, |_| (s(), gen::list(0, 2, |_| gen::chance(1, 2).then(|| int() as i32)))).into_iter().collect(),
            i: gen::list(0, 3, |_| (int() as i64, s())).into_iter().collect(),
            c: gen::list(0, 3, |_| (*gen::one(&['a', '0', '~', '\'', 'é', '\n', ' ', '#', '-']), true)).into_iter().collect(),
            b: gen::list(0, 2, |_| (gen::chance(1, 2), 1)).into_iter().collect(),
            e: gen::list(0, 3, |_| (color(), int() as i32)).into_iter().collect(),
            k: gen::list(0, 3, |_| (ekey(), 1)).into_iter().collect(),
            t: gen::list(0, 3, |_| ((gen::pick(3) as u8, s()), s())).into_iter().collect(),
            p: gen::list(0, 3, |_| (point(), ekey())).into_iter().collect(),
            o: gen::list(0, 3, |_| (gen::chance(1, 2).then(|| gen::pick(3) as u8), 1)).into_iter().collect(),
            v: gen::list(0, 3, |_| (gen::list(0, 2, |_| s()), ())).into_iter().collect(),
            n: gen::list(0, 2, |i| {
                (
                    i as u8,
                    gen::list(0, 2, |_| (s(), gen::list(0, 2, |_| (s(), 1)).into_iter().collect())).into_iter().collect(),
                )
            })
            .into_iter()
            .collect(),
            set: gen::list(0, 4, |_| s()).into_iter().collect(),
            w: {
                let m: BTreeMap<Key, En> = gen::list(0, 3, |_| (ekey(), en(1))).into_iter().collect();
                Pairs(m.into_iter().collect())
            },
        }),
        3 => Big::Texts(Texts {
            s: s(),
            c: *gen::one(&['x', '\0', '\n', '~', '"', '🦀', '\u{feff}', '1', ' ', '\u{85}', '\u{2029}', ':']),
            cow: Cow::Owned(s()),
            boxed: s().into_boxed_str(),
            list: gen::list(0, 5, |_| s()).into_iter().collect(),
            weird: s(),
            null: s(),
            empty: s(),
            hex: gen::chance(1, 2).then(s),
            nl: s(),
            ip: if gen::chance(1, 2) { [127, 0, 0, 1].into() } else { [0u16, 0, 0, 0, 0, 0, 0, 1].into() },
            path: s().replace('\0', "").into(),
            dur: std::time::Duration::new(gen::pick(1 << 40), gen::pick(1_000_000_000) as u32),
        }),
        4 => Big::Shapes(shapes(2)),
        5 => Big::Singles(Singles {
            one: en(0),
            deep: gen::list(0, 3, |_| en(2)),
            opt: gen::chance(1, 2).then(|| en(2)),
            map: gen::list(0, 3, |_| (s(), en(1))).into_iter().collect(),
            tup: (en(2), 1, color()),
            color: color(),
        }),
        6 => Big::Flat(Flat {
            first: s(),
            point: point(),
            rest: gen::list(0, 3, |i| (format!("r{i}"), plain_value(2))).into_iter().collect(),
        }),
        7 => Big::Enums {
            plain: gen::list(0, 4, |_| en(2)),
            key: ekey(),
            one: gen::list(0, 2, |_| (s(), en(2))).into_iter().collect(),
            color: color(),
        },
        8 => Big::Tagging(
            gen::list(0, 3, |_| match gen::pick(4) {
                0 => Internal::A { x: int() as i32 },
                1 => Internal::B { name: s(), more: vec![1; gen::pick(3) as usize] },
                2 => Internal::C,
                _ => Internal::D(point()),
            }),
            gen::list(0, 3, |_| match gen::pick(4) {
                0 => Adjacent::A(int() as i32),
                1 => Adjacent::B(s(), gen::chance(1, 2)),
                2 => Adjacent::C { x: gen::list(0, 2, |_| s()) },
                _ => Adjacent::D,
            }),
            gen::list(0, 3, |_| match gen::pick(5) {
                0 => Untagged::Int(int() as i64),
                1 => Untagged::Bool(gen::chance(1, 2)),
                2 => Untagged::Named { key: s() },
                3 => Untagged::Seq(gen::list(0, 3, |_| int() as i32)),
                _ => Untagged::Str(s()),
            }),
        ),
        _ => Big::Values {
            v: gen::list(0, 3, |_| value()),
            m: gen::list(0, 4, |_| (value(), value())).into_iter().collect(),
        },
    })
}

/// Values without tags (flattening buffers them in a form without enums).
fn plain_value(depth: usize) -> Value {
    match gen::pick(if depth == 0 { 4 } else { 6 }) {
        0 => Value::String(s()),
        1 => Value::Number(Number::from(int() as i64)),
        2 => Value::Null,
        3 => Value::Bool(gen::chance(1, 2)),
        4 => Value::Sequence(gen::list(0, 3, |_| plain_value(depth - 1))),
        _ => Value::Mapping(gen::list(0, 3, |i| (Value::String(format!("p{i}")), plain_value(depth - 1))).into_iter().collect()),
    }
}

/// Serializes whatever the deserializer produces, without a value in between.
pub struct Transcoder<D>(RefCell<Option<D>>);

impl<D> Transcoder<D> {
    pub fn new(d: D) -> Self {
        Transcoder(RefCell::new(Some(d)))
    }
}

impl<'de, D: de::Deserializer<'de>> Serialize for Transcoder<D> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let d = self.0.borrow_mut().take().expect("transcoded twice");
        d.deserialize_any(Pour(s)).map_err(|e| serde::ser::Error::custom(e))
    }
}

struct Pour<S>(S);

fn down<A: fmt::Display, E: de::Error>(e: A) -> E {
    E::custom(e)
}

impl<'de, S: serde::Serializer> Visitor<'de> for Pour<S> {
    type Value = S::Ok;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<S::Ok, E> {
        self.0.serialize_bool(v).map_err(down)
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<S::Ok, E> {
        self.0.serialize_i64(v).map_err(down)
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<S::Ok, E> {
        self.0.serialize_u64(v).map_err(down)
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<S::Ok, E> {
        self.0.serialize_i128(v).map_err(down)
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<S::Ok, E> {
        self.0.serialize_u128(v).map_err(down)
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<S::Ok, E> {
        self.0.serialize_f64(v).map_err(down)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<S::Ok, E> {
        self.0.serialize_str(v).map_err(down)
    }
    fn visit_unit<E: de::Error>(self) -> Result<S::Ok, E> {
        self.0.serialize_unit().map_err(down)
    }
    fn visit_none<E: de::Error>(self) -> Result<S::Ok, E> {
        self.0.serialize_none().map_err(down)
    }
    fn visit_seq<A: de::SeqAccess<'de>>(self, mut a: A) -> Result<S::Ok, A::Error> {
        let mut q = self.0.serialize_seq(a.size_hint()).map_err(down)?;
        while a.next_element_seed(Element(&mut q))?.is_some() {}
        q.end().map_err(down)
    }
    fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<S::Ok, A::Error> {
        let mut q = self.0.serialize_map(a.size_hint()).map_err(down)?;
        while a.next_key_seed(KeySeed(&mut q))?.is_some() {
            a.next_value_seed(ValueSeed(&mut q))?;
        }
        q.end().map_err(down)
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<S::Ok, A::Error> {
        use serde::de::VariantAccess;
        let (tag, v) = a.variant::<String>()?;
        let value = v.newtype_variant::<Value>()?;
        TaggedValue { tag: Tag::new(tag), value }.serialize(self.0).map_err(down)
    }
}

struct Element<'a, Q>(&'a mut Q);
impl<'de, 'a, Q: SerializeSeq> DeserializeSeed<'de> for Element<'a, Q> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.serialize_element(&Transcoder::new(d)).map_err(down)
    }
}
struct KeySeed<'a, Q>(&'a mut Q);
impl<'de, 'a, Q: SerializeMap> DeserializeSeed<'de> for KeySeed<'a, Q> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.serialize_key(&Transcoder::new(d)).map_err(down)
    }
}
struct ValueSeed<'a, Q>(&'a mut Q);
impl<'de, 'a, Q: SerializeMap> DeserializeSeed<'de> for ValueSeed<'a, Q> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.0.serialize_value(&Transcoder::new(d)).map_err(down)
    }
}

/// All the ways of handing one `Big` over without a stream; None if they agree.
pub fn conversions(b: &Big) -> Option<String> {
    let text = match serde_yaml::to_string(b) {
        Ok(t) => t,
        Err(e) => return Some(format!("to_string: {e}")),
    };
    match serde_yaml::from_str::<Big>(&text) {
        Ok(x) if x == *b => {}
        x => return Some(format!("to_string then from_str gives {x:?} from {text}")),
    }
    let v = match serde_yaml::to_value(b) {
        Ok(v) => v,
        Err(e) => return Some(format!("to_value: {e}")),
    };
    match serde_yaml::from_value::<Big>(v.clone()) {
        Ok(x) if x == *b => {}
        x => return Some(format!("to_value then from_value gives {x:?} from {v:?}")),
    }
    match Big::deserialize(&v) {
        Ok(x) if x == *b => {}
        x => return Some(format!("to_value then &Value gives {x:?} from {v:?}")),
    }
    match serde_yaml::to_string(&v) {
        Ok(t) => match serde_yaml::from_str::<Big>(&t) {
            Ok(x) if x == *b => {}
            x => return Some(format!("to_value, to_string, from_str gives {x:?} from {t}")),
        },
        Err(e) => return Some(format!("to_value then to_string: {e}")),
    }
    match serde_yaml::from_str::<Value>(&text) {
        Ok(w) => {
            // Text shortens an f32 to the digits it needs.
            if w != v && !matches!(b, Big::Numbers(_)) {
                return Some(format!("to_value gives {v:?}, to_string then from_str {w:?}"));
            }
            match serde_yaml::from_value::<Big>(w.clone()) {
                Ok(x) if x == *b => {}
                x => return Some(format!("to_string, from_str, from_value gives {x:?} from {w:?}")),
            }
        }
        Err(e) => return Some(format!("to_string then from_str as Value: {e}")),
    }
    None
}

/// The whole record written and read back through one of the modules of
/// `serde_yaml::with`, as text and as a value.
macro_rules! through_module {
    ($name:ident, $module:ident) => {
        fn $name(b: &Big) -> Option<String> {
            use serde_yaml::with::$module as with;
            struct Out<'a>(&'a Big);
            impl<'a> Serialize for Out<'a> {
                fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                    with::serialize(self.0, s)
                }
            }
            #[derive(Debug)]
            struct In(Big);
            impl<'de> Deserialize<'de> for In {
                fn deserialize<D: de::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
                    with::deserialize(d).map(In)
                }
            }
            let what = stringify!($module);
            let text = match serde_yaml::to_string(&Out(b)) {
                Ok(t) => t,
                Err(e) => return Some(format!("{what}, to_string: {e}")),
            };
            match serde_yaml::from_str::<In>(&text) {
                Ok(In(x)) if x == *b => {}
                x => return Some(format!("{what}, to_string then from_str gives {x:?} from {text}")),
            }
            let v = match serde_yaml::to_value(&Out(b)) {
                Ok(v) => v,
                Err(e) => return Some(format!("{what}, to_value: {e}")),
            };
            match In::deserialize(&v) {
                Ok(In(x)) if x == *b => {}
                x => return Some(format!("{what}, to_value then &Value gives {x:?} from {v:?}")),
            }
            match serde_yaml::from_value::<In>(v.clone()) {
                Ok(In(x)) if x == *b => {}
                x => return Some(format!("{what}, to_value then from_value gives {x:?} from {v:?}")),
            }
            if let Value::Mapping(m) = &v {
                // One variant, neither none nor two.
                let mut two = m.clone();
                two.insert(Value::from("Another"), Value::Null);
                let two = Value::Mapping(two);
                let none = Value::Mapping(Default::default());
                for bad in [two, none] {
                    let text = serde_yaml::to_string(&bad).unwrap_or_default();
                    if let (Ok(x), _) | (_, Ok(x)) = (In::deserialize(&bad), serde_yaml::from_str::<In>(&text)) {
                        return Some(format!("{what}, {bad:?} is taken for {x:?}"));
                    }
                }
            }
            match serde_yaml::from_str::<Value>(&text) {
                // Text shortens an f32 to the digits it needs.
                Ok(w) if w == v || matches!(b, Big::Numbers(_)) => {}
                w => return Some(format!("{what}, to_value gives {v:?}, to_string then from_str {w:?}")),
            }
            None
        }
    };
}
through_module!(through_singleton_map, singleton_map);
through_module!(through_singleton_map_recursive, singleton_map_recursive);

pub fn modules(b: &Big) -> Option<String> {
    if let Some(m) = through_singleton_map(b) {
        return Some(m);
    }
    match b {
        // Tags of values are written as tags, but not expected in reading.
        Big::Values { .. } => None,
        _ => through_singleton_map_recursive(b),
    }
}
