//! Workload: values that drive every method of the serializer, with the model
//! of what a reader must get back.

use crate::ctx;
use crate::gen;
use crate::io::Injected;
use crate::model::{self, Model};
use crate::sched;
use serde::ser::{
    self, SerializeMap, SerializeSeq, SerializeStruct, SerializeStructVariant, SerializeTuple,
    SerializeTupleStruct, SerializeTupleVariant, Serializer,
};
use serde::Serialize;
use serde_yaml::Value;
use std::sync::atomic::{AtomicU64, Ordering::*};

/// The last one is too long for libyaml's simple keys when written.
pub const FIELDS: [&str; 9] = ["id", "name", "value", "a_rather_long_field_name", "x", "y", "null", "on", LONG_NAME];
const LONG_NAME: &str = "a_name_that_goes_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_and_on_for_ever";
pub const VARIANTS: [&str; 6] = ["Alpha", "Beta", "gamma_ray", "V1", "Some_Thing", LONG_NAME];

#[derive(Clone, Debug)]
pub enum Node {
    Unit,
    UnitStruct,
    None,
    Bool(bool),
    Int(u8, i128),
    U128(u128),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// Through `collect_str`.
    Shown(String),
    Some(Box<Node>),
    Newtype(Box<Node>),
    Seq(Vec<Node>),
    Tuple(Vec<Node>),
    TupleStruct(Vec<Node>),
    /// Entries, what it says about their number, and how they are handed over.
    Map(Vec<(Node, Node)>, u8, u8),
    Struct(Vec<(usize, Node)>),
    UnitVariant(usize),
    NewtypeVariant(usize, Box<Node>),
    TupleVariant(usize, Vec<Node>),
    StructVariant(usize, Vec<(usize, Node)>),
    /// A `serde_yaml::Value` embedded in user data (tags included).
    Value(Value, Model),
}

/// Faults raised by the user's own `Serialize` code.
#[derive(Debug, Default)]
pub struct SerPlan {
    pub calls: AtomicU64,
    pub fail_at: Option<u64>,
    pub panic_at: Option<u64>,
    pub yields: bool,
    /// Call this at that callback (nested sessions).
    pub nest: Option<(u64, Nester)>,
}

#[derive(Clone, Copy)]
pub struct Nester(pub &'static (dyn Fn() + Sync));
impl std::fmt::Debug for Nester {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        f.write_str("Nester")
    }
}

pub const SER_FAIL: &str = "simulated producer failure #";

impl SerPlan {
    fn tick<E: ser::Error>(&self) -> Result<(), E> {
        let n = self.calls.fetch_add(1, Relaxed);
        if self.yields {
            sched::yield_point();
        }
        if let Some((at, f)) = self.nest {
            if at == n {
                ctx::fault("serialize:reentrant-session");
                (f.0)();
            }
        }
        if self.panic_at == Some(n) {
            ctx::fault("serialize:panic");
            std::panic::panic_any(Injected(n));
        }
        if self.fail_at == Some(n) {
            ctx::fault("serialize:error");
            return Err(E::custom(format!("{SER_FAIL}{n}")));
        }
        Ok(())
    }
}

pub struct N<'a>(pub &'a Node, pub &'a SerPlan);

struct Show<'a>(&'a str, &'a SerPlan);
impl<'a> std::fmt::Display for Show<'a> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        // In pieces, as real Display implementations do. A `!` comes alone if
        // at least two pieces follow: with a single one it would be taken for
        // the tag of a Value (see `displayed_keys` in C11).
        let banged = self.0.starts_with('!') && self.0.chars().count() > 2;
        let split = |c: char| c == 'e' || banged && (c == '!' || c == 'x' || c == ' ');
        let mut pieces: Vec<&str> = self.0.split_inclusive(split).collect();
        if banged && pieces.len() == 2 {
            let first = pieces[1].chars().next().unwrap().len_utf8();
            pieces = vec![&self.0[..1], &self.0[1..1 + first], &self.0[1 + first..]];
        }
        // Some pieces are empty.
        if self.0.len() % 3 == 1 {
            f.write_str("")?;
        }
        for c in pieces {
            f.write_str(c)?;
            if c.len() % 5 == 1 {
                f.write_str("")?;
            }
            if self.1.yields {
                sched::yield_point();
            }
            // A nested session started from Display code.
            if let Some((at, g)) = self.1.nest {
                if at == u64::MAX {
                    ctx::fault("display:reentrant-session");
                    (g.0)();
                }
            }
        }
        Ok(())
    }
}

impl<'a> Serialize for N<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let p = self.1;
        p.tick()?;
        match self.0 {
            Node::Unit => s.serialize_unit(),
            Node::UnitStruct => s.serialize_unit_struct("U"),
            Node::None => s.serialize_none(),
            Node::Bool(b) => s.serialize_bool(*b),
            Node::Int(k, i) => match k {
                0 => s.serialize_i8(*i as i8),
                1 => s.serialize_i16(*i as i16),
                2 => s.serialize_i32(*i as i32),
                3 => s.serialize_i64(*i as i64),
                4 => s.serialize_i128(*i),
                5 => s.serialize_u8(*i as u8),
                6 => s.serialize_u16(*i as u16),
                7 => s.serialize_u32(*i as u32),
                _ => s.serialize_u64(*i as u64),
            },
            Node::U128(u) => s.serialize_u128(*u),
            Node::F32(f) => s.serialize_f32(*f),
            Node::F64(f) => s.serialize_f64(*f),
            Node::Char(c) => s.serialize_char(*c),
            Node::Str(v) => s.serialize_str(v),
            Node::Shown(v) => s.collect_str(&Show(v, p)),
            Node::Some(n) => s.serialize_some(&N(n, p)),
            Node::Newtype(n) => s.serialize_newtype_struct("Nt", &N(n, p)),
            Node::Seq(v) => {
                let mut q = s.serialize_seq(Some(v.len()))?;
                for n in v {
                    q.serialize_element(&N(n, p))?;
                }
                p.tick()?;
                q.end()
            }
            Node::Tuple(v) => {
                let mut q = s.serialize_tuple(v.len())?;
                for n in v {
                    q.serialize_element(&N(n, p))?;
                }
                q.end()
            }
            Node::TupleStruct(v) => {
                let mut q = s.serialize_tuple_struct("Ts", v.len())?;
                for n in v {
                    q.serialize_field(&N(n, p))?;
                }
                q.end()
            }
            Node::Map(v, hint, split) => {
                let mut q = s.serialize_map(match hint {
                    0 => None,
                    1 => Some(1),
                    2 => Some(v.len() + 1),
                    _ => Some(v.len()),
                })?;
                for (i, (k, n)) in v.iter().enumerate() {
                    if split >> (i % 8) & 1 == 0 {
                        q.serialize_entry(&N(k, p), &N(n, p))?;
                    } else {
                        q.serialize_key(&N(k, p))?;
                        q.serialize_value(&N(n, p))?;
                    }
                }
                p.tick()?;
                q.end()
            }
            Node::Struct(v) => {
                let mut q = s.serialize_struct("St", v.len())?;
                for (f, n) in v {
                    q.serialize_field(FIELDS[*f], &N(n, p))?;
                }
                p.tick()?;
                q.end()
            }
            Node::UnitVariant(i) => s.serialize_unit_variant("E", *i as u32, VARIANTS[*i]),
            Node::NewtypeVariant(i, n) => {
                s.serialize_newtype_variant("E", *i as u32, VARIANTS[*i], &N(n, p))
            }
            Node::TupleVariant(i, v) => {
                let mut q = s.serialize_tuple_variant("E", *i as u32, VARIANTS[*i], v.len())?;
                for n in v {
                    q.serialize_field(&N(n, p))?;
                }
                p.tick()?;
                q.end()
            }
            Node::StructVariant(i, v) => {
                let mut q = s.serialize_struct_variant("E", *i as u32, VARIANTS[*i], v.len())?;
                for (f, n) in v {
                    q.serialize_field(FIELDS[*f], &N(n, p))?;
                }
                p.tick()?;
                q.end()
            }
            Node::Value(v, _) => v.serialize(s),
        }
    }
}

/// Serialization mode of a whole document.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Plain,
    /// `with::singleton_map_recursive`
    Singleton,
}

impl Node {
    pub fn model(&self, mode: Mode) -> Model {
        let tag = |i: usize, m: Model| match mode {
            Mode::Plain => Model::Tagged(VARIANTS[i].to_string(), Box::new(m)),
            Mode::Singleton => Model::Map(vec![(Model::Str(VARIANTS[i].to_string()), m)]),
        };
        let fields = |v: &Vec<(usize, Node)>| {
            Model::Map(
                v.iter()
                    .map(|(f, n)| (Model::Str(FIELDS[*f].to_string()), n.model(mode)))
                    .collect(),
            )
        };
        let seq = |v: &Vec<Node>| Model::Seq(v.iter().map(|n| n.model(mode)).collect());
        match self {
            Node::Unit | Node::UnitStruct | Node::None => Model::Null,
            Node::Bool(b) => Model::Bool(*b),
            Node::Int(_, i) => model::int(*i),
            Node::U128(u) => Model::Int(false, *u),
            Node::F32(f) => model::float(if f.is_finite() {
                f.to_string().parse::<f64>().unwrap()
            } else {
                *f as f64
            }),
            Node::F64(f) => model::float(*f),
            Node::Char(c) => Model::Str(c.to_string()),
            Node::Str(s) | Node::Shown(s) => Model::Str(s.clone()),
            Node::Some(n) | Node::Newtype(n) => n.model(mode),
            Node::Seq(v) | Node::Tuple(v) | Node::TupleStruct(v) => seq(v),
            Node::Map(v, ..) => Model::Map(v.iter().map(|(k, n)| (k.model(mode), n.model(mode))).collect()),
            Node::Struct(v) => fields(v),
            Node::UnitVariant(i) => Model::Str(VARIANTS[*i].to_string()),
            Node::NewtypeVariant(i, n) => tag(*i, n.model(mode)),
            Node::TupleVariant(i, v) => tag(*i, seq(v)),
            Node::StructVariant(i, v) => tag(*i, fields(v)),
            Node::Value(_, m) => m.clone(),
        }
    }
}

const WORDS: &[&str] = &[
    "", "a", "hello", "null", "true", "~", "no", "0x1F", "0o17", "0b1", "1e5", ".inf", ".nan", "-", "- x",
    "? y", "a: b", "a #b", "#c", "&a", "*b", "!t", "%d", "@at", "`tick", "'q'", "\"dq\"", "[x", "{y", "]", "}",
    ",", "key:", "multi\nline", "trail\n", "two\n\nblank\n", "tab\there", " lead", "trail ", "ünïcödé",
    "日本語テキスト", "emoji 🦀", "007", "+1", "-0", "1_000", "0.10", "12:30:45", "99999999999999999999", "-170141183460469231731687303715884105728", "340282366920938463463374607431768211456", "2001-01-01", "...", "---",
    "--- x", "\u{7f}", "\u{0}", "\u{1b}[0m", "\r", "a\rb", "\u{feff}", "\u{85}", "\u{2028}", "<<", "=", "|", ">",
    "x\n y\n", "true\n", "123", "-5", "1.5", "|-\nfoo", "a\n---\nb", "a\n...\nb\n", "on", "off", "Null", "NULL", "!", "!!",
];

/// Looks like a number or nearly so.
fn numeric() -> String {
    let mut s = gen::one(&["", "", "-", "+", "--", "."]).to_string();
    let (prefix, alphabet): (&str, &[u8]) = match gen::pick(6) {
        0..=2 => ("", b"0123456789"),
        3 => ("0x", b"0123456789abcdefABCDEF"),
        4 => ("0o", b"01234567"),
        _ => ("0b", b"01"),
    };
    s.push_str(prefix);
    let n = *gen::one(&[0usize, 1, 2, 8, 16, 19, 20, 21, 32, 38, 39, 40, 64, 128]);
    for _ in 0..n {
        s.push(*gen::one(alphabet) as char);
    }
    match gen::pick(8) {
        0 => s.push('.'),
        1 => s.push_str(".5"),
        2 => s.push_str("e3"),
        3 => s.push_str("E+400"),
        4 => s.push('_'),
        _ => {}
    }
    s
}

pub fn string() -> String {
    match gen::weighted(&[5, 8, 4, 2, 1, 2]) {
        5 => numeric(),
        0 => format!("s{}", gen::pick(100)),
        1 => gen::one(WORDS).to_string(),
        2 => {
            let n = gen::small(12);
            let mut s = String::new();
            for _ in 0..n {
                s.push_str(*gen::one(&["a", "Z", " ", "é", "\n", ":", "#", "-", "0", "'", "\"", "\\", "中", "🦀", "\t", ",", "!"]));
            }
            s
        }
        3 => {
            let n = gen::range(1, 300);
            "lorem ipsum dolor sit amet ".chars().cycle().take(n as usize).collect()
        }
        _ => {
            // Larger than the emitter's 16 KiB buffer, sometimes with
            // multi-byte characters across its boundary.
            let n = if gen::chance(1, 60) {
                *gen::one(&[65_530usize, 65_530, 65_530, 131_070, 262_140, 1_048_570])
            } else {
                *gen::one(&[16_380usize, 16_384, 16_390, 5000, 33_000, 20_000])
            } + gen::idx(16);
            let unit = *gen::one(&["x", "word ", "é", "中文", "line\n", "a\u{1}b"]);
            unit.chars().cycle().take(n / unit.len().max(1)).collect()
        }
    }
}

fn scalar() -> Node {
    match gen::weighted(&[1, 2, 5, 2, 8, 1, 1, 1, 1, 1]) {
        0 => [Node::Unit, Node::UnitStruct, Node::None][gen::idx(3)].clone(),
        1 => Node::Bool(gen::chance(1, 2)),
        2 => {
            let k = gen::idx(9) as u8;
            let raw = match gen::pick(4) {
                0 => gen::pick(20) as i128,
                1 => -(gen::pick(300) as i128),
                2 => (gen::full() as i64 as i128) * if k == 4 { gen::full() as i64 as i128 / 4 } else { 1 },
                _ => *gen::one(&[i64::MAX as i128, i64::MIN as i128, u64::MAX as i128, 127, 128, 255, 256, i128::MAX, i128::MIN]),
            };
            let v = match k {
                0 => raw as i8 as i128,
                1 => raw as i16 as i128,
                2 => raw as i32 as i128,
                3 => raw as i64 as i128,
                4 => raw,
                5 => raw as u8 as i128,
                6 => raw as u16 as i128,
                7 => raw as u32 as i128,
                _ => raw as u64 as i128,
            };
            Node::Int(k, v)
        }
        3 => {
            let f = match gen::pick(3) {
                0 => gen::pick(1000) as f64 / 8.0,
                1 => *gen::one(&[0.0, -0.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 1e16, 1e-7, 0.1]),
                _ => f64::from_bits(gen::full()),
            };
            // Only f32 values whose shortest form is exact: the model of the
            // others would need the library's own float printer.
            let g = f as f32;
            let exact = !g.is_finite() || g.to_string().parse::<f64>().unwrap() == g as f64;
            if exact && gen::chance(1, 3) {
                Node::F32(g)
            } else {
                Node::F64(f)
            }
        }
        4 => Node::Str(string()),
        5 => Node::Shown(string()),
        6 => Node::Char(*gen::one(&['a', '\'', '"', '0', 'é', '🦀', ' ', '~', '\n', '-'])),
        7 => Node::UnitVariant(gen::idx(VARIANTS.len())),
        8 => Node::U128(if gen::chance(1, 2) { u128::MAX - gen::pick(5) as u128 } else { gen::full() as u128 }),
        _ => Node::Str(gen::one(WORDS).to_string()),
    }
}

const TAGS: &[&str] =
    &["T", "thing", "a.b", "Name", "T", "thing", "ab", "x:y", "a b", "é", "#c", "🦀", "a{b}", "int", "%41", "!", "a\\b", LONG_TAG];
const LONG_TAG: &str = "tag:example.com:2024:a/name/that/goes/on/for/longer/than/anyone/would/care/to/type/x0123456789/x0123456789/x0123456789/x0123456789";

pub fn value_model(depth: usize) -> Model {
    match if depth == 0 { gen::pick(4) } else { gen::pick(7) } {
        0 => Model::Str(string()),
        1 => match gen::pick(4) {
            0 => model::float(*gen::one(&[0.5, -0.0, 1.0, 1e300, f64::NAN, f64::INFINITY, 1e16, -3.25e-8, f64::MAX])),
            1 => model::int(*gen::one(&[i64::MIN as i128, i64::MAX as i128, i64::MAX as i128 + 1, u64::MAX as i128, -1, 0, 256])),
            _ => model::int(gen::pick(1000) as i128 - 300),
        },
        2 => Model::Null,
        3 => Model::Bool(gen::chance(1, 2)),
        4 => Model::Seq(gen::list(0, 3, |_| value_model(depth - 1))),
        5 => Model::Map(uniq(gen::list(0, 3, |i| (Model::Str(format!("k{i}")), value_model(depth - 1))))),
        _ => {
            let inner = value_model(depth - 1);
            match inner {
                Model::Tagged(..) => inner,
                other => Model::Tagged(gen::one(TAGS).to_string(), Box::new(other)),
            }
        }
    }
}

fn uniq<V>(v: Vec<(Model, V)>) -> Vec<(Model, V)> {
    let mut out: Vec<(Model, V)> = Vec::new();
    for (k, x) in v {
        if !out.iter().any(|(o, _)| *o == k) {
            out.push((k, x));
        }
    }
    out
}

/// `enum_ok`: a tag may be attached here (not directly inside another one).
pub fn node(depth: usize, enum_ok: bool) -> Node {
    if depth == 0 {
        return scalar();
    }
    let d = depth - 1;
    let n = match gen::weighted(&[8, 4, 4, 3, 2, 2, 1, 1]) {
        0 => scalar(),
        1 => {
            let v = gen::list(0, 6, |_| node(d, true));
            match gen::pick(3) {
                0 => Node::Seq(v),
                1 => Node::Tuple(v),
                _ => Node::TupleStruct(v),
            }
        }
        2 => {
            let v = gen::list(0, 6, |_| (key(d), node(d, true)));
            let mut out: Vec<(Node, Node)> = Vec::new();
            for (k, x) in v {
                let new = |mode| {
                    let m = k.model(mode);
                    !out.iter().any(|(o, _)| o.model(mode) == m)
                };
                if new(Mode::Plain) && new(Mode::Singleton) {
                    out.push((k, x));
                }
            }
            Node::Map(out, gen::weighted(&[6, 1, 1, 12]) as u8, *gen::one(&[0b10101010, 0, 0xff, 0b01010101]))
        }
        3 => Node::Struct(fields(d)),
        4 => {
            let i = gen::idx(VARIANTS.len());
            match gen::pick(3) {
                0 => Node::NewtypeVariant(i, Box::new(node(d, false))),
                1 => Node::TupleVariant(i, gen::list(0, 4, |_| node(d, true))),
                _ => Node::StructVariant(i, fields(d)),
            }
        }
        5 => Node::Some(Box::new(node(d, enum_ok))),
        6 => Node::Newtype(Box::new(node(d, enum_ok))),
        _ => {
            let m = value_model(2);
            Node::Value(m.to_value().unwrap(), m)
        }
    };
    if !enum_ok && tagged(&n) {
        return scalar();
    }
    n
}

fn tagged(n: &Node) -> bool {
    match n {
        Node::NewtypeVariant(..) | Node::TupleVariant(..) | Node::StructVariant(..) => true,
        Node::Value(_, Model::Tagged(..)) => true,
        Node::Some(n) | Node::Newtype(n) => tagged(n),
        _ => false,
    }
}

fn key(depth: usize) -> Node {
    match gen::weighted(&[12, 8, 4, 2, if depth > 0 { 1 } else { 0 }, 1]) {
        0 => Node::Str(format!("k{}", gen::pick(20))),
        1 => {
            let s = string();
            Node::Str(s.chars().take(60).collect())
        }
        2 if gen::chance(1, 3) => scalar(),
        2 if gen::chance(1, 6) => Node::Newtype(Box::new(scalar())),
        2 => Node::Int(3, gen::pick(50) as i128 - 10),
        3 => Node::Bool(gen::chance(1, 2)),
        // Collections and enums as keys.
        4 => node(depth.min(2), true),
        _ if gen::chance(1, 3) => Node::Shown(format!("!{}", string().chars().take(40).collect::<String>())),
        _ => Node::Shown(string().chars().take(40).collect()),
    }
}

fn fields(d: usize) -> Vec<(usize, Node)> {
    let mut seen = [false; FIELDS.len()];
    let mut out = Vec::new();
    for (f, n) in gen::list(0, 5, |_| (gen::idx(FIELDS.len()), node(d, true))) {
        if !seen[f] {
            seen[f] = true;
            out.push((f, n));
        }
    }
    out
}

#[derive(Clone, Debug)]
pub struct Doc {
    pub node: Node,
    pub mode: Mode,
}

impl Doc {
    pub fn draw() -> Doc {
        gen::span(|| {
            let depth = gen::weighted(&[1, 3, 3, 2]);
            let mut n = node(depth, true);
            if gen::chance(1, 8) {
                // Many small items: the document passes the emitter's buffer
                // between, not within, scalars.
                let k = *gen::one(&[40usize, 600, 1500, 3000]);
                let base = n.clone();
                let unit = Node::Str("item of the large list".into());
                let mut v = vec![unit; k];
                let at = gen::idx(k);
                v[at] = base;
                n = Node::Seq(v);
            }
            let mode = if gen::chance(1, 4) && !has_value(&n) {
                Mode::Singleton
            } else {
                Mode::Plain
            };
            Doc { node: n, mode }
        })
    }

    /// The `i`-th of a great many small documents.
    pub fn tiny(i: usize) -> Doc {
        let n = Node::Int(3, i as i128);
        Doc {
            node: match i % 5 {
                1 => Node::Str(format!("text {i}")),
                2 => Node::Seq(vec![n, Node::None]),
                3 => Node::NewtypeVariant(i % VARIANTS.len(), Box::new(n)),
                _ => n,
            },
            mode: Mode::Plain,
        }
    }

    /// Documents; once in a while more of them than a byte can count.
    pub fn several(min: usize, max: usize) -> Vec<Doc> {
        if max > 1 && gen::chance(1, 300) {
            let n = gen::range(20, 400) as usize;
            let mut v: Vec<Doc> = (0..n).map(Doc::tiny).collect();
            v.push(Doc::draw());
            return v;
        }
        gen::list(min, max, |_| Doc::draw())
    }

    pub fn model(&self) -> Model {
        self.node.model(self.mode)
    }

    pub fn serialize<S: Serializer>(&self, plan: &SerPlan, s: S) -> Result<S::Ok, S::Error> {
        match self.mode {
            Mode::Plain => N(&self.node, plan).serialize(s),
            Mode::Singleton => {
                serde_yaml::with::singleton_map_recursive::serialize(&N(&self.node, plan), s)
            }
        }
    }
}

/// Not representable under `singleton_map_recursive`: values (their tags are
/// rendered differently) and integers wider than 64 bits (become strings).
fn has_value(n: &Node) -> bool {
    match n {
        Node::Value(..) => true,
        Node::U128(u) => *u > u64::MAX as u128,
        Node::Int(4, i) => *i > u64::MAX as i128 || *i < i64::MIN as i128,
        Node::Some(n) | Node::Newtype(n) | Node::NewtypeVariant(_, n) => has_value(n),
        Node::Seq(v) | Node::Tuple(v) | Node::TupleStruct(v) | Node::TupleVariant(_, v) => v.iter().any(has_value),
        Node::Map(v, ..) => v.iter().any(|(k, n)| has_value(k) || has_value(n)),
        Node::Struct(v) | Node::StructVariant(_, v) => v.iter().any(|(_, n)| has_value(n)),
        _ => false,
    }
}

/// So that `to_writer` and friends can be called with a document.
pub struct DocSer<'a>(pub &'a Doc, pub &'a SerPlan);
impl<'a> Serialize for DocSer<'a> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(self.1, s)
    }
}
