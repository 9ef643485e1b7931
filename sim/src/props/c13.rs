//! C13: an error names the node that caused it: its position and its path.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{shared, ReadStats, SimReader};
use crate::model::{ReadPlan, Reader, FAIL_MSG};
use crate::targets::{failure, Failure};
use serde::de::{self, DeserializeSeed, Deserializer as _, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::Deserialize;
use serde_yaml::{Deserializer, Value};
use std::cell::{Cell, RefCell};
use std::fmt;

pub static PROP: Prop = Prop {
    id: "C13",
    run,
    leaks: false,
    quick_runs: 600_000,
    rule: "one run = a stream of 1..3 documents in drawn notations (block, flow, compact, anchors, aliases, tags, \
           comments, wide characters, CRLF) whose renderer records where every node starts; one fault: the consumer \
           fails at a drawn callback, storage replaces one node by one of another type (or by an alias to such a \
           node), a key is renamed, doubled or lost; read from memory and through a fragmenting reader; the error \
           must name that node's line, column, byte and path; non-trivial = a fault was delivered; distinct = digest \
           of the event sequence",
    state_measure: "hash of (fault kind, kind of node, depth, notation, through an alias)",
    real: REAL,
    stub: &["io::Read implementation (SimReader)", "storage (replaces one node)", "Visitor and DeserializeSeed implementations"],
    assumptions: &[
        "a node starts at its first property (anchor or tag) if it has one, a block collection at its first entry",
        "the path of a key is that of its mapping; behind keys that are not plain scalars it continues as ?",
    ],
};

#[derive(Clone, Debug, PartialEq)]
enum Want {
    Int(u8),
    Bool,
    Str,
    Char,
    Unit,
    Float,
    Seq,
    Tuple,
    Map,
    Struct,
    Enum,
    Any,
}

#[derive(Clone, Debug)]
enum Kind {
    /// Text as written, value as read.
    Leaf(String, String),
    Seq(Vec<Y>, bool),
    Map(Vec<(Y, Y)>, bool),
    Alias(usize),
}

#[derive(Clone, Debug)]
struct Y {
    id: usize,
    anchor: bool,
    tag: Option<&'static str>,
    kind: Kind,
    want: Want,
    option: bool,
    newtype: bool,
}

struct Env {
    next: usize,
    budget: usize,
    /// Finished anchored nodes.
    anchored: Vec<usize>,
    scalars: Vec<usize>,
}

const WORDS: [&str; 8] = ["foo", "bar baz", "é日本", "'q''q'", "\"d\\tq\"", "x:y", "a#b", "\"🦀\""];
const FIELDS: [&str; 8] = ["alpha", "beta", "é", "a-b", "x y", "f6", "'quoted'", "\"dq\""];

fn unquote(s: &str) -> String {
    match s {
        "'q''q'" => "q'q".into(),
        "\"d\\tq\"" => "d\tq".into(),
        _ => s.trim_matches(|c| c == '"' || c == '\'').into(),
    }
}

fn leaf(env: &mut Env) -> (Kind, Want) {
    env.budget = env.budget.saturating_sub(1);
    match gen::pick(7) {
        0 | 1 => {
            let n = gen::pick(100).to_string();
            (Kind::Leaf(n.clone(), n), Want::Int(gen::pick(10) as u8))
        }
        2 => {
            let b = *gen::one(&["true", "false"]);
            (Kind::Leaf(b.into(), b.into()), Want::Bool)
        }
        3 => {
            let w = *gen::one(&WORDS);
            (Kind::Leaf(w.into(), unquote(w)), Want::Str)
        }
        4 => (Kind::Leaf("c".into(), "c".into()), Want::Char),
        5 => {
            let n = *gen::one(&["~", "null"]);
            (Kind::Leaf(n.into(), n.into()), Want::Unit)
        }
        _ => (Kind::Leaf("1.5".into(), "1.5".into()), Want::Float),
    }
}

fn key(env: &mut Env, i: usize, flow: bool) -> Y {
    let id = env.next;
    env.next += 1;
    let scalars: Vec<usize> = env.scalars.clone();
    let (kind, want) = match gen::pick(11) {
        0 => (Kind::Leaf(i.to_string(), i.to_string()), Want::Any),
        10 if i == 1 && !scalars.is_empty() => (Kind::Alias(*gen::one(&scalars)), Want::Any),
        1 if !flow => {
            let a = Kind::Leaf(format!("w{i}"), format!("w{i}"));
            env.budget = env.budget.saturating_sub(1);
            let e = Y {
                id: env.next,
                anchor: false,
                tag: None,
                kind: a,
                want: Want::Any,
                option: false,
                newtype: false,
            };
            env.next += 1;
            (Kind::Seq(vec![e], true), Want::Any)
        }
        _ => {
            let f = FIELDS[i % FIELDS.len()];
            let s = if gen::chance(1, 30) {
                format!("{}{i}{}", unquote(f), "_and_on".repeat(gen::range(3, 60) as usize))
            } else if i >= FIELDS.len() {
                format!("{}{i}", unquote(f))
            } else {
                f.to_string()
            };
            let v = unquote(&s);
            (Kind::Leaf(s, v), Want::Any)
        }
    };
    Y {
        id,
        anchor: false,
        tag: None,
        kind,
        want,
        option: false,
        newtype: false,
    }
}

fn draw(env: &mut Env, depth: usize, flow: bool, tag_ok: bool) -> Y {
    let id = env.next;
    env.next += 1;
    if !env.anchored.is_empty() && gen::chance(1, 8) {
        return Y {
            id,
            anchor: false,
            tag: None,
            kind: Kind::Alias(*gen::one(&env.anchored)),
            want: Want::Any,
            option: false,
            newtype: false,
        };
    }
    let anchor = gen::chance(1, 5);
    let tag = if tag_ok && gen::chance(1, 8) { Some(*gen::one(&["!t", "!other"])) } else { None };
    let (kind, want) = if depth == 0 || env.budget == 0 || gen::chance(1, 4) {
        leaf(env)
    } else {
        let fl = flow || gen::chance(1, 3);
        let wide = env.budget > 20 && gen::chance(1, 300);
        let n = if wide { 254 + gen::idx(6) } else { gen::idx(5).min(env.budget) };
        env.budget = env.budget.saturating_sub(n);
        if gen::chance(1, 2) {
            let v: Vec<Y> = (0..n).map(|_| gen::span(|| draw(env, depth - 1, fl, true))).collect();
            // A block sequence cannot be empty.
            (Kind::Seq(v, fl || n == 0), if gen::chance(1, 2) { Want::Seq } else { Want::Tuple })
        } else {
            let v: Vec<(Y, Y)> = (0..n)
                .map(|i| gen::span(|| (key(env, i, fl), draw(env, depth - 1, fl, true))))
                .collect();
            let plain = v.iter().all(|(k, _)| matches!(k.kind, Kind::Leaf(..)));
            (
                Kind::Map(v, fl || n == 0),
                if plain && gen::chance(1, 2) { Want::Struct } else { Want::Map },
            )
        }
    };
    let want = if tag.is_some() { Want::Enum } else { want };
    if anchor {
        env.anchored.push(id);
        if matches!(kind, Kind::Leaf(..)) && matches!(want, Want::Str | Want::Bool | Want::Float) {
            env.scalars.push(id);
        }
    }
    Y {
        id,
        anchor,
        tag,
        option: gen::chance(1, 8),
        newtype: gen::chance(1, 8),
        kind,
        want,
    }
}

#[derive(Default)]
struct Out {
    s: String,
    /// Offset of each node's start, by id.
    start: Vec<usize>,
    crlf: bool,
    comments: bool,
    /// Characters of filler still to be put somewhere.
    filler: usize,
}

impl Out {
    fn at(&mut self, id: usize) {
        if self.start.len() <= id {
            self.start.resize(id + 1, usize::MAX);
        }
        if self.start[id] == usize::MAX {
            self.start[id] = self.s.len();
        }
    }

    fn nl(&mut self) {
        if self.comments && gen::chance(1, 8) {
            self.s.push_str(" # é comment");
        }
        self.s.push_str(if self.crlf { "\r\n" } else { "\n" });
        if self.filler > 0 && gen::chance(1, 2) {
            let n = std::mem::take(&mut self.filler);
            self.s.extend(std::iter::repeat_n('\n', n));
        }
        if self.comments && gen::chance(1, 12) {
            self.s.push_str("  # a line\n");
        }
    }

    fn props(&mut self, y: &Y) -> bool {
        let mut any = false;
        if y.anchor || y.tag.is_some() {
            self.at(y.id);
        }
        if y.anchor {
            self.s.push_str(&format!("&n{} ", y.id));
            any = true;
        }
        if let Some(t) = y.tag {
            self.s.push_str(t);
            self.s.push(' ');
            any = true;
        }
        any
    }

    fn flow(&mut self, y: &Y) {
        self.props(y);
        self.at(y.id);
        match &y.kind {
            Kind::Leaf(t, _) => self.s.push_str(t),
            Kind::Alias(n) => self.s.push_str(&format!("*n{n} ")),
            Kind::Seq(v, _) => {
                self.s.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.s.push_str(if gen::chance(1, 4) { " , " } else { ", " });
                        if self.filler > 0 && gen::chance(1, 2) {
                            let n = std::mem::take(&mut self.filler);
                            self.s.extend(std::iter::repeat_n(' ', n));
                        }
                    }
                    self.flow(x);
                }
                self.s.push(']');
            }
            Kind::Map(v, _) => {
                self.s.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.s.push_str(", ");
                    }
                    self.flow(k);
                    self.s.push_str(": ");
                    self.flow(x);
                }
                self.s.push('}');
            }
        }
    }

    fn is_block(y: &Y) -> bool {
        matches!(y.kind, Kind::Seq(_, false) | Kind::Map(_, false))
    }

    fn indent(&mut self, n: usize) {
        for _ in 0..n {
            self.s.push(' ');
        }
    }

    /// The entries of a block collection; the first one is not indented.
    fn entries(&mut self, y: &Y, indent: usize) {
        match &y.kind {
            Kind::Seq(v, false) => {
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        self.indent(indent);
                    }
                    self.at(y.id);
                    self.s.push_str("- ");
                    self.value(x, indent + 2, true);
                }
            }
            Kind::Map(v, false) => {
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        self.indent(indent);
                    }
                    self.at(y.id);
                    if matches!(k.kind, Kind::Leaf(..)) && !gen::chance(1, 10) {
                        self.flow(k);
                        self.s.push_str(": ");
                        self.value(x, indent + 2, false);
                    } else {
                        self.s.push_str("? ");
                        self.flow(k);
                        self.nl();
                        self.indent(indent);
                        self.s.push_str(": ");
                        self.value(x, indent + 2, true);
                    }
                }
            }
            _ => unreachable!(),
        }
    }

    /// A node after "- " or "key: ", up to the end of the line.
    fn value(&mut self, y: &Y, indent: usize, compact_ok: bool) {
        if Out::is_block(y) {
            let props = self.props(y);
            if !props && compact_ok && gen::chance(1, 2) {
                self.entries(y, indent);
            } else {
                self.nl();
                self.indent(indent);
                self.entries(y, indent);
            }
        } else {
            self.flow(y);
            self.nl();
        }
    }
}

/// Where callbacks of a consumer that takes anything happen: (node, path).
struct Trace<'y> {
    nodes: Vec<Option<&'y Y>>,
    out: Vec<(usize, String, bool)>,
}

fn below(path: &str, key: &str) -> String {
    if path == "." {
        key.to_string()
    } else {
        format!("{path}.{key}")
    }
}

fn collect<'y>(y: &'y Y, nodes: &mut Vec<Option<&'y Y>>) {
    if nodes.len() <= y.id {
        nodes.resize(y.id + 1, None);
    }
    nodes[y.id] = Some(y);
    match &y.kind {
        Kind::Seq(v, _) => v.iter().for_each(|x| collect(x, nodes)),
        Kind::Map(v, _) => v.iter().for_each(|(k, x)| {
            collect(k, nodes);
            collect(x, nodes);
        }),
        _ => {}
    }
}

impl<'y> Trace<'y> {
    fn go(&mut self, y: &'y Y, path: &str, aliased: bool) {
        if self.out.len() > 5000 {
            return;
        }
        if let Kind::Alias(n) = y.kind {
            let target = self.nodes[n].unwrap();
            return self.go(target, path, true);
        }
        let mut hit = |id| self.out.push((id, path.to_string(), aliased));
        if y.tag.is_some() {
            hit(y.id);
        }
        hit(y.id);
        match &y.kind {
            Kind::Leaf(..) => return,
            Kind::Seq(v, _) => {
                for (i, x) in v.iter().enumerate() {
                    self.go(x, &format!("{path}[{i}]"), aliased);
                }
            }
            Kind::Map(v, _) => {
                for (k, x) in v {
                    self.go(k, path, aliased);
                    let p = match &k.kind {
                        Kind::Leaf(_, v) => below(path, v),
                        _ => below(path, "?"),
                    };
                    self.go(x, &p, aliased);
                }
            }
            Kind::Alias(_) => unreachable!(),
        }
        self.out.push((y.id, path.to_string(), aliased));
    }
}

/// The consumer's own record of its callbacks.
#[derive(Default)]
struct Refusal {
    /// Refuses at this callback.
    at: Option<usize>,
    seen: Cell<usize>,
    blamed: RefCell<Option<Blame>>,
}

#[derive(Clone, Debug)]
struct Blame {
    id: usize,
    path: String,
    aliased: bool,
    /// The root of the document, outside any callback that has a position.
    bare: bool,
    what: &'static str,
}

/// Reads a node as the types it was drawn for.
struct Seed<'y> {
    y: &'y Y,
    nodes: &'y [Option<&'y Y>],
    stage: u8,
    path: String,
    aliased: bool,
    refusal: &'y Refusal,
}

impl<'y> Seed<'y> {
    fn root(y: &'y Y, nodes: &'y [Option<&'y Y>], refusal: &'y Refusal) -> Self {
        Seed {
            y,
            nodes,
            stage: 0,
            path: ".".to_string(),
            aliased: false,
            refusal,
        }
    }

    fn next(&self, y: &'y Y, path: String) -> Seed<'y> {
        Seed {
            y,
            nodes: self.nodes,
            stage: 0,
            path,
            aliased: self.aliased,
            refusal: self.refusal,
        }
    }

    fn again(&self) -> Seed<'y> {
        Seed {
            stage: self.stage,
            ..self.next(self.y, self.path.clone())
        }
    }

    fn name<'n>(&'n self, name: &'n str, id: usize, variant: bool) -> Name<'n> {
        Name(name, self.refusal, id, &self.path, variant, self.aliased)
    }

    fn hit<E: de::Error>(&self, what: &'static str) -> Result<(), E> {
        self.refusal.hit(self.y.id, &self.path, self.aliased, what)
    }
}

impl Refusal {
    fn hit<E: de::Error>(&self, id: usize, path: &str, aliased: bool, what: &'static str) -> Result<(), E> {
        let n = self.seen.get();
        self.seen.set(n + 1);
        if self.at == Some(n) {
            let bare = path == "." && matches!(what, "seed" | "option" | "newtype" | "enum" | "variant" | "none");
            *self.blamed.borrow_mut() = Some(Blame {
                id,
                path: path.to_string(),
                aliased,
                bare,
                what,
            });
            return Err(E::custom(format!("{FAIL_MSG}{n}")));
        }
        Ok(())
    }
}

static FIELD_NAMES: [&str; 3] = ["alpha", "beta", "x y"];

impl<'de, 'y> DeserializeSeed<'de> for Seed<'y> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let mut s = self;
        if let Kind::Alias(n) = s.y.kind {
            s.y = s.nodes[n].unwrap();
            s.aliased = true;
        }
        if s.stage == 0 {
            // What a conversion does after the node has been read.
            let after = s.again();
            s.stage = 3;
            s.deserialize(d)?;
            return after.hit("seed");
        }
        if s.stage == 3 {
            s.stage = 1;
            if s.y.option {
                return d.deserialize_option(s);
            }
        }
        if s.stage == 1 {
            s.stage = 2;
            if s.y.newtype {
                return d.deserialize_newtype_struct("Nt", s);
            }
        }
        let len = match &s.y.kind {
            Kind::Seq(v, _) => v.len(),
            _ => 0,
        };
        // What is below a tag is read by kind.
        match &s.y.want {
            Want::Int(k) => match k {
                0 => d.deserialize_u8(s),
                1 => d.deserialize_u16(s),
                2 => d.deserialize_u32(s),
                3 => d.deserialize_u64(s),
                4 => d.deserialize_i8(s),
                5 => d.deserialize_i16(s),
                6 => d.deserialize_i32(s),
                7 => d.deserialize_i64(s),
                8 => d.deserialize_i128(s),
                _ => d.deserialize_u128(s),
            },
            Want::Bool => d.deserialize_bool(s),
            Want::Str => match s.y.id % 2 {
                0 => d.deserialize_str(s),
                _ => d.deserialize_string(s),
            },
            Want::Char => d.deserialize_char(s),
            Want::Unit => match s.y.id % 2 {
                0 => d.deserialize_unit(s),
                _ => d.deserialize_unit_struct("U", s),
            },
            Want::Float => match s.y.id % 2 {
                0 => d.deserialize_f32(s),
                _ => d.deserialize_f64(s),
            },
            Want::Seq => d.deserialize_seq(s),
            Want::Tuple => match s.y.id % 2 {
                0 => d.deserialize_tuple(len, s),
                _ => d.deserialize_tuple_struct("Ts", len, s),
            },
            Want::Map => d.deserialize_map(s),
            Want::Struct => d.deserialize_struct("S", &FIELD_NAMES, s),
            Want::Enum => d.deserialize_enum("E", &["t", "other"], s),
            Want::Any => d.deserialize_any(s),
        }
    }
}

impl<'y> Seed<'y> {
    fn takes<E: de::Error>(&self, want: &[Want], got: de::Unexpected) -> Result<(), E> {
        self.hit("value")?;
        let w = match &self.y.want {
            Want::Int(_) => Want::Int(0),
            w => w.clone(),
        };
        if w == Want::Any || want.contains(&w) || (self.y.tag.is_some() && w == Want::Enum) {
            Ok(())
        } else {
            Err(E::invalid_type(got, self))
        }
    }
}

impl<'de, 'y> Visitor<'de> for Seed<'y> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "the type that was asked for")
    }
    fn visit_bool<E: de::Error>(self, v: bool) -> Result<(), E> {
        self.takes(&[Want::Bool], de::Unexpected::Bool(v))
    }
    fn visit_i64<E: de::Error>(self, v: i64) -> Result<(), E> {
        if v >= 0 {
            return self.visit_u64(v as u64);
        }
        if matches!(self.y.want, Want::Int(_)) {
            return Err(E::invalid_value(de::Unexpected::Signed(v), &self));
        }
        self.takes(&[], de::Unexpected::Signed(v))
    }
    fn visit_u64<E: de::Error>(self, v: u64) -> Result<(), E> {
        if matches!(self.y.want, Want::Int(_)) && v >= 100 {
            return Err(E::invalid_value(de::Unexpected::Unsigned(v), &self));
        }
        self.takes(&[Want::Int(0)], de::Unexpected::Unsigned(v))
    }
    fn visit_i128<E: de::Error>(self, v: i128) -> Result<(), E> {
        self.visit_u64(v as u64)
    }
    fn visit_u128<E: de::Error>(self, v: u128) -> Result<(), E> {
        self.visit_u64(v as u64)
    }
    fn visit_f64<E: de::Error>(self, v: f64) -> Result<(), E> {
        self.takes(&[Want::Float], de::Unexpected::Float(v))
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        if self.y.want == Want::Char && v.chars().count() != 1 {
            return Err(E::invalid_value(de::Unexpected::Str(v), &self));
        }
        self.takes(&[Want::Str, Want::Char], de::Unexpected::Str(v))
    }
    fn visit_unit<E: de::Error>(self) -> Result<(), E> {
        self.takes(&[Want::Unit], de::Unexpected::Unit)
    }
    fn visit_none<E: de::Error>(self) -> Result<(), E> {
        self.hit("none")?;
        if self.y.want == Want::Unit {
            return Ok(());
        }
        Err(E::invalid_type(de::Unexpected::Option, &self))
    }
    fn visit_some<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.hit("option")?;
        let after = self.again();
        self.deserialize(d)?;
        after.hit("option")
    }
    fn visit_newtype_struct<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        self.hit("newtype")?;
        let after = self.again();
        self.deserialize(d)?;
        after.hit("newtype")
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        self.takes(&[Want::Seq, Want::Tuple], de::Unexpected::Seq)?;
        if let Kind::Seq(v, _) = &self.y.kind {
            for (i, x) in v.iter().enumerate() {
                if a.next_element_seed(self.next(x, format!("{}[{i}]", self.path)))?.is_none() {
                    return Err(de::Error::invalid_length(i, &self));
                }
                self.hit("sequence")?;
            }
        }
        while a.next_element::<IgnoredAny>()?.is_some() {}
        self.hit("sequence")
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<(), A::Error> {
        self.takes(&[Want::Map, Want::Struct], de::Unexpected::Map)?;
        if let Kind::Map(v, _) = &self.y.kind {
            for (k, x) in v {
                let known = match &k.kind {
                    Kind::Leaf(_, n) => a.next_key_seed(self.name(n, k.id, false))?,
                    Kind::Alias(_) if k.id % 2 == 0 => a.next_key_seed(self.next(k, self.path.clone()))?,
                    _ => a.next_key::<IgnoredAny>()?.map(|_| ()),
                };
                let path = match &k.kind {
                    Kind::Leaf(_, n) => below(&self.path, n),
                    _ => below(&self.path, "?"),
                };
                match known {
                    Some(()) => {
                        self.hit("mapping")?;
                        a.next_value_seed(self.next(x, path))?;
                    }
                    None => return Err(de::Error::missing_field("lost")),
                }
                self.hit("mapping")?;
            }
        }
        while a.next_entry::<IgnoredAny, IgnoredAny>()?.is_some() {}
        self.hit("mapping")
    }
    fn visit_enum<A: de::EnumAccess<'de>>(self, a: A) -> Result<(), A::Error> {
        use serde::de::VariantAccess;
        if self.y.want != Want::Enum {
            return Err(de::Error::invalid_type(de::Unexpected::Enum, &self));
        }
        self.hit("enum")?;
        let want = self.y.tag.unwrap_or("").trim_start_matches('!');
        let ((), v) = a.variant_seed(self.name(want, self.y.id, true))?;
        self.hit("enum")?;
        let after = self.again();
        match &self.y.kind {
            Kind::Seq(x, _) => v.tuple_variant(x.len(), self)?,
            Kind::Map(..) => v.struct_variant(&FIELD_NAMES, self)?,
            _ => {
                let any = Y {
                    want: Want::Any,
                    tag: None,
                    option: false,
                    newtype: false,
                    ..self.y.clone()
                };
                v.newtype_variant_seed(Seed {
                    y: &any,
                    nodes: self.nodes,
                    stage: 2,
                    path: self.path.clone(),
                    aliased: self.aliased,
                    refusal: self.refusal,
                })?
            }
        }
        after.hit("enum")
    }
}

/// A field or variant of this name.
struct Name<'a>(&'a str, &'a Refusal, usize, &'a str, bool, bool);
impl<'de, 'a> DeserializeSeed<'de> for Name<'a> {
    type Value = ();
    fn deserialize<D: de::Deserializer<'de>>(self, d: D) -> Result<(), D::Error> {
        let (refusal, id, path, variant, aliased) = (self.1, self.2, self.3, self.4, self.5);
        d.deserialize_identifier(self)?;
        refusal.hit(id, path, aliased, if variant { "variant" } else { "key" })
    }
}
impl<'de, 'a> Visitor<'de> for Name<'a> {
    type Value = ();
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "the name {:?}", self.0)
    }
    fn visit_str<E: de::Error>(self, v: &str) -> Result<(), E> {
        self.1.hit(self.2, self.3, self.5, if self.4 { "variant" } else { "key" })?;
        if v == self.0 {
            Ok(())
        } else {
            Err(E::custom(format!("unknown name {v:?}")))
        }
    }
}

/// Nodes in reading order with their paths, keys apart.
fn places<'y>(y: &'y mut Y, path: &str, depth: usize, out: &mut Vec<(usize, String, usize)>) {
    out.push((y.id, path.to_string(), depth));
    match &mut y.kind {
        Kind::Seq(v, _) => {
            for (i, x) in v.iter_mut().enumerate() {
                places(x, &format!("{path}[{i}]"), depth + 1, out);
            }
        }
        Kind::Map(v, _) => {
            for (k, x) in v.iter_mut() {
                let p = match &k.kind {
                    Kind::Leaf(_, v) => below(path, v),
                    _ => below(path, "?"),
                };
                places(x, &p, depth + 1, out);
            }
        }
        _ => {}
    }
}

fn node_mut(y: &mut Y, id: usize) -> Option<&mut Y> {
    if y.id == id {
        return Some(y);
    }
    match &mut y.kind {
        Kind::Seq(v, _) => v.iter_mut().find_map(|x| node_mut(x, id)),
        Kind::Map(v, _) => v.iter_mut().find_map(|(_, x)| node_mut(x, id)),
        _ => None,
    }
}

fn contains(y: &Y, id: usize) -> bool {
    y.id == id
        || match &y.kind {
            Kind::Seq(v, _) => v.iter().any(|x| contains(x, id)),
            Kind::Map(v, _) => v.iter().any(|(k, x)| contains(k, id) || contains(x, id)),
            _ => false,
        }
}

/// What the fault turns a node into: something its type cannot be.
fn replacement(y: &Y) -> Option<(Kind, &'static str)> {
    let leaf = |s: &str| Kind::Leaf(s.into(), s.into());
    let opts: Vec<(Kind, &'static str)> = match y.want {
        Want::Int(_) => vec![
            (leaf("bad"), "word for a number"),
            (leaf("100"), "number out of range"),
            (leaf("-1"), "negative number"),
            (leaf("'7'"), "quoted number"),
            (leaf("1.5"), "float for an integer"),
            (Kind::Seq(vec![], true), "sequence for a scalar"),
            (Kind::Map(vec![], true), "mapping for a scalar"),
        ],
        Want::Bool => vec![(leaf("maybe"), "word for a boolean"), (leaf("1"), "number for a boolean"), (leaf("'true'"), "quoted boolean")],
        Want::Str => vec![(Kind::Seq(vec![], true), "sequence for a scalar"), (Kind::Map(vec![], true), "mapping for a scalar")],
        Want::Char => vec![(leaf("two"), "word for a character"), (Kind::Map(vec![], true), "mapping for a scalar")],
        Want::Unit => vec![(leaf("word"), "word for null"), (Kind::Seq(vec![], true), "sequence for a scalar")],
        Want::Float => vec![(leaf("fast"), "word for a float"), (Kind::Seq(vec![], true), "sequence for a scalar")],
        Want::Seq | Want::Tuple => vec![(leaf("word"), "scalar for a sequence"), (Kind::Map(vec![], true), "mapping for a sequence")],
        Want::Map | Want::Struct => vec![(leaf("word"), "scalar for a mapping"), (Kind::Seq(vec![], true), "sequence for a mapping")],
        Want::Enum | Want::Any => return None,
    };
    Some(opts[gen::idx(opts.len())].clone())
}

fn fail_text(path: &str, msg: &str, line: usize, column: usize) -> String {
    let mut s = String::new();
    if path != "." {
        s.push_str(&format!("{path}: "));
    }
    s.push_str(msg);
    if (line, column) != (1, 1) {
        s.push_str(&format!(" at line {line} column {column}"));
    }
    s
}

#[derive(Debug)]
enum Fault {
    /// The consumer fails at a callback.
    Callback(u64),
    /// The typed consumer fails at a callback, or after having read a node.
    TypedCallback,
    /// The typed consumer meets a node of the wrong type.
    Typed(&'static str),
    /// A key of the wrong name.
    Renamed,
    /// An entry is missing.
    Lost,
    /// A key twice, read as a Value.
    Doubled,
    /// Read as a Value with an alias to nowhere.
    Unanchored,
}

fn run() {
    let n_docs = 1 + gen::idx(3);
    let which = gen::idx(n_docs);
    let mut docs: Vec<Y> = Vec::new();
    for i in 0..n_docs {
        let mut env = Env {
            next: 0,
            budget: if i == which { 60 } else { 6 },
            anchored: Vec::new(),
            scalars: Vec::new(),
        };
        let depth = if i == which { 4 } else { 1 };
        docs.push(gen::span(|| draw(&mut env, depth, false, true)));
    }
    let doc = &mut docs[which];
    let mut all = Vec::new();
    places(doc, ".", 0, &mut all);
    // The fault, and the node, path and alias it is to be blamed on.
    let mut blame: Option<(usize, String)> = None;
    let fault = match gen::pick(11) {
        0..=2 => Fault::Callback(0),
        8..=10 => Fault::TypedCallback,
        3 | 4 => {
            let (id, path, _) = all[gen::idx(all.len())].clone();
            let y = node_mut(doc, id).unwrap();
            // Anchored nodes are read again elsewhere; their first reading fails.
            match replacement(y) {
                Some((k, what)) if y.tag.is_none() && !matches!(y.kind, Kind::Alias(_)) => {
                    let anchored_inside = holds_anchor(y);
                    if anchored_inside {
                        return;
                    }
                    // Optional nodes accept null; none of the replacements is null.
                    y.kind = k;
                    let mut what = what;
                    if matches!(y.kind, Kind::Leaf(..)) && gen::chance(1, 3) {
                        let tagged: &[(&'static str, &str, &'static str)] = match y.want {
                            Want::Unit => &[("!!null", "7", "number tagged as null"), ("!!str", "null", "null tagged as string")],
                            Want::Seq | Want::Tuple | Want::Map | Want::Struct => &[("!!seq", "7", "number tagged as sequence")],
                            _ => &[],
                        };
                        if y.option && gen::chance(1, 2) {
                            y.tag = Some("!!null");
                            y.kind = Kind::Leaf("7".into(), "7".into());
                            what = "number tagged as null";
                        } else if !tagged.is_empty() {
                            let (t, v, w) = *gen::one(tagged);
                            y.tag = Some(t);
                            y.kind = Kind::Leaf(v.into(), v.into());
                            what = w;
                        }
                    }
                    blame = Some((id, path));
                    Fault::Typed(what)
                }
                _ => return,
            }
        }
        5 => {
            // A struct whose key is not the expected one: blamed on the key.
            let Some((id, path)) = pick_map(doc, &all) else { return };
            let Kind::Map(v, _) = &mut node_mut(doc, id).unwrap().kind else { return };
            let i = gen::idx(v.len());
            if !matches!(v[i].0.kind, Kind::Leaf(..)) {
                return;
            }
            blame = Some((v[i].0.id, path));
            Fault::Renamed
        }
        6 => {
            let Some((id, path)) = pick_map(doc, &all) else { return };
            blame = Some((id, path));
            Fault::Lost
        }
        _ => {
            if gen::chance(1, 2) {
                let Some((id, path)) = pick_map(doc, &all) else { return };
                let y = node_mut(doc, id).unwrap();
                if y.tag.is_some() {
                    return;
                }
                let Kind::Map(v, _) = &mut y.kind else { return };
                let i = gen::idx(v.len());
                let Kind::Leaf(t, val) = v[i].0.kind.clone() else { return };
                let mut k = v[i].0.clone();
                k.id = 9001;
                k.kind = Kind::Leaf(t, val);
                let mut x = v[i].1.clone();
                x.id = 9002;
                x.anchor = false;
                x.kind = Kind::Leaf("again".into(), "again".into());
                x.tag = None;
                v.push((k, x));
                blame = Some((id, path));
                Fault::Doubled
            } else {
                let (id, path, _) = all[gen::idx(all.len())].clone();
                if path == "." {
                    return;
                }
                let y = node_mut(doc, id).unwrap();
                if holds_anchor(y) || y.anchor {
                    return;
                }
                y.tag = None;
                y.kind = Kind::Alias(9999);
                blame = Some((id, path));
                Fault::Unanchored
            }
        }
    };
    // Render.
    let style = gen::pick(4);
    let mut o = Out {
        crlf: style == 1,
        comments: gen::chance(1, 2),
        filler: if gen::chance(1, 400) { [300, 70_000][gen::idx(2)] } else { 0 },
        ..Out::default()
    };
    let mut starts: Vec<usize> = Vec::new();
    let mut lost_text = None;
    for (i, d) in docs.iter().enumerate() {
        o.start.clear();
        if n_docs > 1 || gen::chance(1, 2) {
            o.s.push_str("---");
            if Out::is_block(d) && d.tag.is_none() && !d.anchor || gen::chance(1, 2) && !Out::is_block(d) {
                o.nl();
            } else {
                o.s.push(' ');
            }
        }
        if Out::is_block(d) {
            let props = o.props(d);
            if props {
                o.nl();
            }
            o.entries(d, 0);
        } else {
            o.flow(d);
            o.nl();
        }
        if i == which {
            starts = o.start.clone();
        }
        if gen::chance(1, 8) {
            o.s.push_str("...\n");
        }
    }
    let doc = &docs[which];
    let mut nodes = Vec::new();
    collect(doc, &mut nodes);
    let mut trace = Trace {
        nodes: nodes.clone(),
        out: Vec::new(),
    };
    if !matches!(fault, Fault::Unanchored) {
        trace.go(doc, ".", false);
    }
    if trace.out.len() > 5000 {
        return;
    }
    let bytes = o.s.into_bytes();
    ctx::note(|| format!("document {which} of {n_docs}: {}", String::from_utf8_lossy(&bytes)));
    ctx::nontrivial();
    ctx::ev("input", ctx::hash_bytes(&bytes), bytes.len() as u64);

    let check_error = |what: &str, f: &Failure, id: usize, path: &str, msg: Option<&str>| {
        let off = starts[id];
        let (line, column) = super::c10::position(&bytes[..off]);
        ctx::note(|| format!("{what}: {:?}", f.display));
        check!(
            f.location == Some((off, line, column)),
            "location",
            "{what}: the error {:?} is located at {:?}; the node is at byte {off}, line {line} column {column}",
            f.display,
            f.location
        );
        match msg {
            Some(m) => {
                let want = fail_text(path, m, line, column);
                check!(f.display == want, "message", "{what}: the error says {:?} instead of {want:?}", f.display);
            }
            None => {
                let want = fail_text(path, "\u{1}", line, column);
                let (a, b) = want.split_once('\u{1}').unwrap();
                check!(
                    f.display.starts_with(a) && f.display.ends_with(b) && (a != "" || !f.display.starts_with('.')),
                    "message",
                    "{what}: the error says {:?} instead of {want:?}",
                    f.display
                );
            }
        }
    };

    // Read it from memory or through a reader, and everything before it too.
    let stats = shared(ReadStats::default());
    let from_memory = gen::chance(1, 2);
    let mut it = if from_memory {
        Deserializer::from_slice(&bytes)
    } else {
        Deserializer::from_reader(SimReader::new(bytes.clone().into(), chop(), None, &stats))
    };
    for i in 0..which {
        let Some(d) = it.next() else {
            ctx::violate("lost", || format!("document {i} is missing"));
            return;
        };
        if let Err(e) = IgnoredAny::deserialize(d) {
            ctx::violate("generator", || format!("document {i} before the fault cannot be read: {e}"));
            return;
        }
    }
    let Some(d) = it.next() else {
        ctx::violate("lost", || format!("document {which} is missing"));
        return;
    };
    let fold_state = |k: u64, id: usize, aliased: bool| {
        let kind = nodes.get(id).copied().flatten().map_or(9, |y| match &y.kind {
            Kind::Leaf(..) => 0,
            Kind::Seq(_, f) => 1 + *f as u64,
            Kind::Map(_, f) => 3 + *f as u64,
            Kind::Alias(_) => 5,
        });
        ctx::state(ctx::fold(ctx::fold(k, kind), aliased as u64 * 2 + (n_docs > 1) as u64));
    };
    let none = Refusal::default();
    match fault {
        Fault::TypedCallback => {
            // Once through, to know how many callbacks there are.
            let Some(calls) = count_callbacks(&bytes, which, doc, &nodes) else { return };
            let refusal = Refusal {
                at: Some(gen::idx(calls.max(1))),
                ..Refusal::default()
            };
            let r = Seed::root(doc, &nodes, &refusal).deserialize(d);
            let b = refusal.blamed.borrow().clone();
            match (r, b) {
                (Ok(()), _) => ctx::violate("swallowed", || format!("the consumer failed at callback {:?}, yet got its data", refusal.at)),
                (Err(e), None) => ctx::violate("typed", || format!("typed reading failed before callback {:?}: {e}", refusal.at)),
                (Err(e), Some(b)) => {
                    let f = failure(&e);
                    let msg = format!("{FAIL_MSG}{}", refusal.at.unwrap());
                    if b.bare && f.location.is_none() {
                        // Nothing encloses the root that could place it.
                        check!(f.display == msg, "message", "{} refused at the root: the error says {:?}", b.what, f.display);
                    } else {
                        check_error(&format!("{} refused", b.what), &f, b.id, &b.path, Some(&msg));
                    }
                    fold_state(ctx::hash_bytes(b.what.as_bytes()), b.id, b.aliased);
                }
            }
        }
        Fault::Callback(_) => {
            let n = gen::idx(trace.out.len());
            let (id, path, aliased) = trace.out[n].clone();
            let r = Reader::new(ReadPlan {
                fail_at: Some(n as u64),
                ..ReadPlan::default()
            });
            match r.deserialize(d) {
                Ok(m) => ctx::violate("swallowed", || format!("the consumer failed at callback {n}, yet the result is {m:?}")),
                Err(e) => check_error("failing consumer", &failure(&e), id, &path, Some(&format!("{FAIL_MSG}{n}"))),
            }
            fold_state(1, id, aliased);
        }
        Fault::Typed(what) => {
            ctx::fault("damage:wrong-type");
            let (id, path) = blame.unwrap();
            match Seed::root(doc, &nodes, &none).deserialize(d) {
                Ok(()) => {
                    // Some readings are lenient by design.
                    ctx::probe("typed:accepted");
                    ctx::violate("accepted", || format!("{what} was accepted as {:?}", nodes[id].map(|y| &y.want)));
                }
                Err(e) => check_error(what, &failure(&e), id, &path, None),
            }
            fold_state(ctx::hash_bytes(what.as_bytes()), id, false);
        }
        Fault::Renamed => {
            ctx::fault("damage:renamed-key");
            let (kid, path) = blame.unwrap();
            // The reader expects another name there.
            let mut other = doc.clone();
            rename(&mut other, kid);
            let mut nodes = Vec::new();
            collect(&other, &mut nodes);
            match Seed::root(&other, &nodes, &none).deserialize(d) {
                Ok(()) => ctx::violate("accepted", || "an unknown name was accepted".to_string()),
                Err(e) => check_error("unknown name", &failure(&e), kid, &path, None),
            }
            fold_state(2, kid, false);
        }
        Fault::Lost => {
            ctx::fault("damage:lost-entry");
            let (id, path) = blame.unwrap();
            // The reader expects one more entry there.
            let mut other = doc.clone();
            let y = node_mut(&mut other, id).unwrap();
            let Kind::Map(v, _) = &mut y.kind else { return };
            let mut e = v[0].clone();
            e.0.id = 9003;
            e.0.anchor = false;
            strip(&mut e.1);
            v.push(e);
            lost_text = Some(());
            let mut nodes = Vec::new();
            collect(&other, &mut nodes);
            match Seed::root(&other, &nodes, &none).deserialize(d) {
                Ok(()) => ctx::violate("accepted", || "a missing entry was not noticed".to_string()),
                Err(e) => check_error("missing entry", &failure(&e), id, &path, Some("missing field `lost`")),
            }
            fold_state(3, id, false);
        }
        Fault::Doubled => {
            ctx::fault("damage:doubled-key");
            let (id, path) = blame.unwrap();
            match Value::deserialize(d) {
                Ok(v) => ctx::violate("accepted", || format!("a doubled key was accepted: {v:?}")),
                Err(e) => check_error("doubled key", &failure(&e), id, &path, None),
            }
            fold_state(4, id, false);
        }
        Fault::Unanchored => {
            ctx::fault("damage:lost-anchor");
            let (id, _) = blame.unwrap();
            match Value::deserialize(d) {
                Ok(v) => ctx::violate("accepted", || format!("an unknown alias was accepted: {v:?}")),
                Err(e) => {
                    let f = failure(&e);
                    let off = starts[id];
                    let (line, column) = super::c10::position(&bytes[..off]);
                    check!(
                        f.location == Some((off, line, column)) && f.display.starts_with("unknown anchor"),
                        "location",
                        "an unknown anchor at byte {off}, line {line} column {column} is reported as {:?} at {:?}",
                        f.display,
                        f.location
                    );
                }
            }
            fold_state(5, id, false);
        }
    }
    let _ = lost_text;
}

fn count_callbacks<'y>(bytes: &[u8], which: usize, doc: &'y Y, nodes: &'y [Option<&'y Y>]) -> Option<usize> {
    let refusal = Refusal::default();
    let mut it = Deserializer::from_slice(bytes);
    let d = it.nth(which)?;
    // A typed reader that cannot read its own document shows elsewhere.
    match Seed::root(doc, nodes, &refusal).deserialize(d) {
        Ok(()) => Some(refusal.seen.get()),
        Err(e) => {
            ctx::violate("typed", || format!("a typed reader cannot read the document written for it: {e}"));
            None
        }
    }
}

fn strip(y: &mut Y) {
    y.id = 9004;
    y.anchor = false;
    y.kind = Kind::Leaf("x".into(), "x".into());
}

fn rename(y: &mut Y, kid: usize) {
    match &mut y.kind {
        Kind::Seq(v, _) => v.iter_mut().for_each(|x| rename(x, kid)),
        Kind::Map(v, _) => {
            for (k, x) in v {
                if k.id == kid {
                    k.kind = Kind::Leaf("other".into(), "other name".into());
                }
                rename(x, kid);
            }
        }
        _ => {}
    }
}

/// An anchor strictly inside, or an anchor on the node itself.
fn holds_anchor(y: &Y) -> bool {
    y.anchor
        || match &y.kind {
            Kind::Seq(v, _) => v.iter().any(holds_anchor),
            Kind::Map(v, _) => v.iter().any(|(k, x)| holds_anchor(k) || holds_anchor(x)),
            _ => false,
        }
}

fn pick_map(doc: &mut Y, all: &[(usize, String, usize)]) -> Option<(usize, String)> {
    let maps: Vec<(usize, String)> = all
        .iter()
        .filter(|(id, _, _)| matches!(&node_mut(doc, *id).unwrap().kind, Kind::Map(v, _) if !v.is_empty()))
        .map(|(id, p, _)| (*id, p.clone()))
        .collect();
    if maps.is_empty() {
        return None;
    }
    Some(maps[gen::idx(maps.len())].clone())
}
