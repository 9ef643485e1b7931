//! C12: a configuration that is loaded, edited in place, merged and saved over
//! and over, with refused edits, failing saves and crashes.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::forms;
use crate::gen;
use crate::io::{lock, shared, Chop, ErrSpec, Fault, FaultKind, Injected, ReadStats, SimReader, WritePlan};
use crate::model::{self, Model};
use crate::node::{string, value_model};
use crate::typed::Big;
use serde::{Deserialize, Serialize};
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Deserializer, Mapping, Number, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "C12",
    run,
    leaks: true,
    quick_runs: 500_000,
    rule: "one run = 1..4 epochs of an editor on one configuration file: load it through a fragmenting reader, apply \
           1..12 edits and queries in place (indexing by key, position and Value, get_mut, mapping and sequence \
           methods, typed conversions, tags, take, apply_merge, refused edits), save (temporary file, flush, rename) \
           through a writer that chops, fails or dies, and crash or go on; an ordered reference tree predicts every \
           query, every refusal and what each load finds; non-trivial = at least one edit or fault; distinct = \
           digest of the event sequence",
    state_measure: "hash of (operation, kind of node it met, how the epoch ended)",
    real: REAL,
    stub: &["file system (atomic rename, volatile and durable bytes)", "io::Read and io::Write implementations"],
    assumptions: &[
        "an apply_merge that fails leaves an unspecified tree: the editor goes back to its copy",
        "indexing a tagged null mutably is left open (documentation and code differ)",
    ],
};

const KEYS: [&str; 7] = ["k0", "k1", "k2", "name", "<<", "a b", "1"];

/// Positions that narrower integers cannot hold.
const HUGE: [u64; 6] = [1 << 31, 1 << 32, (1 << 32) + 1, i64::MAX as u64, i64::MAX as u64 + 1, u64::MAX];

#[derive(Clone, Debug)]
enum Step {
    Str(String),
    Pos(usize),
    Key(Model),
}

impl Step {
    fn as_key(&self) -> Model {
        match self {
            Step::Str(s) => Model::Str(s.clone()),
            Step::Pos(i) => model::int(*i as i128),
            Step::Key(m) => m.clone(),
        }
    }
}

fn some_key() -> Model {
    match gen::pick(8) {
        0..=3 => Model::Str(gen::one(&KEYS).to_string()),
        4 if gen::chance(1, 4) => model::int(*gen::one(&HUGE) as i128),
        4 => model::int(gen::pick(4) as i128 - 1),
        5 => Model::Bool(gen::chance(1, 2)),
        6 => Model::Null,
        _ => match gen::pick(3) {
            0 => Model::Seq(vec![model::int(gen::pick(2) as i128)]),
            1 => Model::Tagged("K".into(), Box::new(Model::Str("k0".into()))),
            _ => Model::Str(string()),
        },
    }
}

/// A step that mostly exists below `m`.
fn step(m: &Model) -> Step {
    if gen::chance(3, 4) {
        match untag(m) {
            Model::Map(v) if !v.is_empty() => {
                let k = &v[gen::idx(v.len())].0;
                return match k {
                    Model::Str(s) => Step::Str(s.clone()),
                    Model::Int(false, i) if *i <= usize::MAX as u128 && gen::chance(1, 2) => Step::Pos(*i as usize),
                    other => Step::Key(other.clone()),
                };
            }
            Model::Seq(v) if !v.is_empty() => return Step::Pos(gen::idx(v.len())),
            _ => {}
        }
    }
    match gen::pick(4) {
        0 if gen::chance(1, 6) => Step::Pos(*gen::one(&HUGE) as usize),
        0 => Step::Pos(gen::idx(4)),
        1 => Step::Key(some_key()),
        _ => Step::Str(gen::one(&KEYS).to_string()),
    }
}

fn path(m: &Model, max: usize) -> Vec<Step> {
    let mut out = Vec::new();
    let mut at = Some(m);
    while out.len() < max && (out.is_empty() || gen::chance(2, 3)) {
        let s = step(at.unwrap_or(&Model::Null));
        at = at.and_then(|m| find(m, &s));
        out.push(s);
    }
    out
}

fn untag(m: &Model) -> &Model {
    match m {
        Model::Tagged(_, v) => untag(v),
        m => m,
    }
}

fn untag_mut(m: &mut Model) -> &mut Model {
    match m {
        Model::Tagged(_, v) => untag_mut(v),
        m => m,
    }
}

fn find<'m>(m: &'m Model, s: &Step) -> Option<&'m Model> {
    match (untag(m), s) {
        (Model::Seq(v), Step::Pos(i)) => v.get(*i),
        (Model::Map(v), s) => {
            let k = s.as_key();
            v.iter().find(|e| e.0 == k).map(|e| &e.1)
        }
        _ => None,
    }
}

fn find_mut<'m>(m: &'m mut Model, s: &Step) -> Option<&'m mut Model> {
    match (untag_mut(m), s) {
        (Model::Seq(v), Step::Pos(i)) => v.get_mut(*i),
        (Model::Map(v), s) => {
            let k = s.as_key();
            v.iter_mut().find(|e| e.0 == k).map(|e| &mut e.1)
        }
        _ => None,
    }
}

/// `IndexMut`: None = must panic; Err = left open.
fn index_mut<'m>(m: &'m mut Model, s: &Step) -> Result<Option<&'m mut Model>, ()> {
    if *m == Model::Null && !matches!(s, Step::Pos(_)) {
        *m = Model::Map(Vec::new());
    } else if matches!(m, Model::Tagged(..)) && *untag(m) == Model::Null {
        return Err(());
    }
    Ok(match untag_mut(m) {
        Model::Seq(v) => match s {
            Step::Pos(i) => v.get_mut(*i),
            _ => None,
        },
        Model::Map(v) => {
            let k = s.as_key();
            if !v.iter().any(|e| e.0 == k) {
                v.push((k.clone(), Model::Null));
            }
            v.iter_mut().find(|e| e.0 == k).map(|e| &mut e.1)
        }
        _ => None,
    })
}

/// `m[p0][p1].. = new`: Ok(false) = must panic on the way.
fn assign(m: &mut Model, p: &[Step], new: &Model) -> Result<bool, ()> {
    ctx::state(ctx::fold(100, kind(m)));
    let Some((s, rest)) = p.split_first() else {
        *m = new.clone();
        return Ok(true);
    };
    match index_mut(m, s)? {
        Some(next) => assign(next, rest, new),
        None => Ok(false),
    }
}

fn get<'v>(v: &'v Value, s: &Step) -> Option<&'v Value> {
    match s {
        Step::Str(k) => match gen::pick(3) {
            0 => v.get(k),
            1 => v.get(k.as_str()),
            _ => v.get(Value::String(k.clone())),
        },
        Step::Pos(i) => v.get(*i),
        Step::Key(m) => v.get(m.to_value().unwrap()),
    }
}

fn index<'v>(v: &'v Value, s: &Step) -> &'v Value {
    match s {
        Step::Str(k) => match gen::pick(3) {
            0 => &v[k],
            1 => &v[k.as_str()],
            _ => &v[Value::String(k.clone())],
        },
        Step::Pos(i) => &v[*i],
        Step::Key(m) => &v[&m.to_value().unwrap()],
    }
}

fn get_mut<'v>(v: &'v mut Value, s: &Step) -> Option<&'v mut Value> {
    match s {
        Step::Str(k) => match gen::pick(3) {
            0 => v.get_mut(k),
            1 => v.get_mut(k.as_str()),
            _ => v.get_mut(&Value::String(k.clone())),
        },
        Step::Pos(i) => v.get_mut(*i),
        Step::Key(m) => v.get_mut(m.to_value().unwrap()),
    }
}

fn value_index_mut<'v>(v: &'v mut Value, s: &Step) -> &'v mut Value {
    match s {
        Step::Str(k) => match gen::pick(3) {
            0 => &mut v[k],
            1 => &mut v[k.as_str()],
            _ => &mut v[Value::String(k.clone())],
        },
        Step::Pos(i) => &mut v[*i],
        Step::Key(m) => &mut v[&m.to_value().unwrap()],
    }
}

struct Editor {
    v: Value,
    m: Model,
}

fn brief(m: &impl std::fmt::Debug) -> String {
    format!("{:.300}", format!("{m:?}"))
}

impl Editor {
    fn compare(&self, what: &str) {
        let got = Model::from_value(&self.v);
        check!(got == self.m, "tree", "after {what} the tree is {} instead of {}", brief(&got), brief(&self.m));
    }
}

fn kind(m: &Model) -> u64 {
    match m {
        Model::Null => 0,
        Model::Bool(_) => 1,
        Model::Int(..) => 2,
        Model::Float(_) => 3,
        Model::Str(_) => 4,
        Model::Seq(v) => 5 + v.is_empty() as u64,
        Model::Map(v) => 7 + v.is_empty() as u64,
        Model::Tagged(..) => 9,
        Model::Skipped => 10,
    }
}

fn fresh(depth: usize) -> Model {
    match gen::pick(8) {
        0 => model::float(gen::pick(4000) as f64 / 16.0 + 0.03125),
        1 => model::int(*gen::one(&[0i128, -1, 1, 127, -128, 255, 256, i64::MAX as i128, i64::MIN as i128, u64::MAX as i128])),
        2 | 3 => merging(depth),
        _ => value_model(depth),
    }
}

/// Trees with merge keys, good and bad.
fn merging(depth: usize) -> Model {
    let mut out: Vec<(Model, Model)> = Vec::new();
    for (k, v) in gen::list(0, 4, |_| {
        let k = *gen::one(&KEYS);
        let v = if k == "<<" {
            match gen::pick(8) {
                0..=3 if depth > 0 => merging(depth - 1),
                4 | 5 if depth > 0 => Model::Seq(gen::list(0, 3, |_| {
                    if gen::chance(1, 12) {
                        value_model(1)
                    } else {
                        merging(depth - 1)
                    }
                })),
                6 => value_model(1),
                _ => Model::Map(vec![(Model::Str("name".into()), model::int(gen::pick(9) as i128))]),
            }
        } else if depth > 0 && gen::chance(1, 3) {
            merging(depth - 1)
        } else {
            model::int(gen::pick(100) as i128)
        };
        (Model::Str(k.to_string()), v)
    }) {
        if !out.iter().any(|e| e.0 == k) {
            out.push((k, v));
        }
    }
    if gen::chance(1, 60) {
        // A large mapping around them.
        let n = gen::range(10, 300);
        let filler = |i: u64| (Model::Str(format!("f{i}")), model::int(i as i128));
        let at = gen::idx(out.len() + 1);
        out.splice(at..at, (0..n).map(filler));
    }
    Model::Map(out)
}

/// The meaning of merge keys: what a mapping says itself wins over what it
/// merges, earlier sources win over later ones, and a source is taken with
/// what it merges itself.
fn merge(m: &mut Model) -> Result<(), ()> {
    match m {
        Model::Map(v) => {
            merge_one(v)?;
            for e in v {
                merge(&mut e.1)?;
            }
        }
        Model::Seq(v) => {
            for x in v {
                merge(x)?;
            }
        }
        Model::Tagged(_, x) => merge(x)?,
        _ => {}
    }
    Ok(())
}

fn merge_one(v: &mut Vec<(Model, Model)>) -> Result<(), ()> {
    let Some(i) = v.iter().position(|e| e.0 == Model::Str("<<".into())) else {
        return Ok(());
    };
    let sources = match v.remove(i).1 {
        Model::Map(s) => vec![s],
        Model::Seq(s) => s
            .into_iter()
            .map(|x| match x {
                Model::Map(s) => Ok(s),
                _ => Err(()),
            })
            .collect::<Result<_, ()>>()?,
        _ => return Err(()),
    };
    for mut s in sources {
        merge_one(&mut s)?;
        for (k, x) in s {
            if !v.iter().any(|e| e.0 == k) {
                v.push((k, x));
            }
        }
    }
    Ok(())
}

/// Equal but for the order of mapping entries.
fn equal_unordered(a: &Model, b: &Model) -> bool {
    match (a, b) {
        (Model::Map(x), Model::Map(y)) => {
            x.len() == y.len() && x.iter().all(|(k, v)| y.iter().any(|(l, w)| k == l && equal_unordered(v, w)))
        }
        (Model::Seq(x), Model::Seq(y)) => x.len() == y.len() && x.iter().zip(y).all(|(v, w)| equal_unordered(v, w)),
        (Model::Tagged(t, x), Model::Tagged(u, y)) => t == u && equal_unordered(x, y),
        _ => a == b,
    }
}

fn node_at<'m>(m: &'m Model, p: &[Step]) -> Option<&'m Model> {
    let mut at = m;
    for s in p {
        at = find(at, s)?;
    }
    Some(at)
}

fn slot<'v>(v: &'v mut Value, p: &[Step]) -> Option<&'v mut Value> {
    let mut at = v;
    for s in p {
        at = get_mut(at, s)?;
    }
    Some(at)
}

fn model_slot<'m>(m: &'m mut Model, p: &[Step]) -> Option<&'m mut Model> {
    let mut at = m;
    for s in p {
        at = find_mut(at, s)?;
    }
    Some(at)
}

fn op(e: &mut Editor) {
    let what = gen::weighted(&[4, 5, 3, 4, 3, 3, 2, 2, 2, 2, 1, 1, 1, 2]);
    match what {
        0 => query(e),
        1 => {
            // v[a][b][c] = new
            let p = path(&e.m, 4);
            let new = fresh(2);
            ctx::note(|| format!("{p:?} = {}", brief(&new)));
            let (open, refused) = match assign(&mut e.m, &p, &new) {
                Ok(done) => (false, !done),
                Err(()) => (true, false),
            };
            let v = &mut e.v;
            let r = catch_unwind(AssertUnwindSafe(|| {
                let mut at = v;
                for s in &p {
                    at = value_index_mut(at, s);
                }
                *at = new.to_value().unwrap();
            }));
            if open {
                e.m = Model::from_value(&e.v);
                return;
            }
            if refused {
                ctx::fault("edit:refused-index");
            }
            check!(
                r.is_err() == refused,
                "refusal",
                "assigning to {p:?}: {} (expected: {})",
                if r.is_err() { "panicked" } else { "was accepted" },
                if refused { "a panic" } else { "acceptance" }
            );
            e.compare("an assignment");
        }
        2 => {
            let p = path(&e.m, 4);
            let new = fresh(2);
            let there = slot(&mut e.v, &p);
            let model_there = model_slot(&mut e.m, &p);
            check!(there.is_some() == model_there.is_some(), "get_mut", "get_mut along {p:?}: {}", there.is_some());
            if let (Some(v), Some(m)) = (there, model_there) {
                ctx::state(ctx::fold(200, kind(m)));
                match gen::pick(4) {
                    0 => {
                        let old = std::mem::take(v);
                        check!(Model::from_value(&old) == *m, "get_mut", "took {} instead of {}", brief(&old), brief(&m));
                        check!(v.is_null(), "default", "Value::default() is {v:?}");
                        *m = Model::Null;
                    }
                    1 => {
                        let old = std::mem::replace(v, new.to_value().unwrap());
                        check!(Model::from_value(&old) == *m, "get_mut", "replaced {} instead of {}", brief(&old), brief(&m));
                        *m = new;
                    }
                    2 => {
                        // Tag it, unless it is tagged already.
                        if !matches!(m, Model::Tagged(..)) {
                            let old = std::mem::take(v);
                            *v = Value::Tagged(Box::new(TaggedValue {
                                tag: Tag::new("edited"),
                                value: old,
                            }));
                            let old = std::mem::replace(m, Model::Null);
                            *m = Model::Tagged("edited".into(), Box::new(old));
                        }
                    }
                    _ => {
                        *v = new.to_value().unwrap();
                        *m = new;
                    }
                }
            }
            e.compare("get_mut");
        }
        3 => mapping_op(e),
        4 => sequence_op(e),
        5 => {
            // apply_merge, here or below.
            let p = if gen::chance(1, 2) { Vec::new() } else { path(&e.m, 2) };
            let before = e.v.clone();
            let Some(v) = slot(&mut e.v, &p) else { return };
            let mut want = node_at(&e.m, &p).unwrap().clone();
            let ok = merge(&mut want);
            let r = v.apply_merge();
            ctx::note(|| format!("apply_merge at {p:?}: {}", r.is_ok()));
            match (&r, &ok) {
                (Ok(()), Ok(())) => {
                    let got = Model::from_value(v);
                    check!(equal_unordered(&got, &want), "merge", "apply_merge gives {} instead of {}", brief(&got), brief(&want));
                    e.m = Model::from_value(&e.v);
                }
                (Err(err), Err(())) => {
                    ctx::fault("edit:refused-merge");
                    check!(err.location().is_none(), "merge", "a failed merge claims a position: {err}");
                    check!(err.to_string().contains("merg"), "merge", "a failed merge reports {err}");
                    e.v = before;
                }
                _ => ctx::violate("merge", || format!("apply_merge gives {:?}, the model {ok:?}", r.as_ref().map_err(|e| e.to_string()))),
            }
            e.compare("apply_merge");
            ctx::state(ctx::fold(300, ok.is_ok() as u64));
        }
        6 => {
            // A typed section.
            let b = crate::typed::big();
            let key = *gen::one(&["k0", "name"]);
            let Ok(section) = serde_yaml::to_value(&b) else {
                ctx::violate("typed", || format!("to_value of {b:?} fails"));
                return;
            };
            let typed_model = Model::from_value(&section);
            if let (Value::Mapping(v), Model::Map(m)) = (&mut e.v, &mut e.m) {
                v.insert(key.into(), section);
                put(m, Model::Str(key.into()), typed_model);
                match e.v.get(key).map(Big::deserialize) {
                    Some(Ok(x)) if x == b => {}
                    x => ctx::violate("typed", || format!("a section reads back as {} instead of {}", brief(&x), brief(&b))),
                }
            }
            e.compare("a typed section");
            // Texts of f32 differ from their values; keep it out of the file.
            if let (Value::Mapping(v), Model::Map(m)) = (&mut e.v, &mut e.m) {
                v.shift_remove(key);
                m.retain(|x| x.0 != Model::Str(key.into()));
            }
        }
        7 => {
            // Conversions from plain data.
            let (v, m) = from_conversion();
            check!(Model::from_value(&v) == m, "from", "a conversion gives {} instead of {}", brief(&v), brief(&m));
            if let (Value::Mapping(map), Model::Map(em)) = (&mut e.v, &mut e.m) {
                map.insert("k2".into(), v);
                put(em, Model::Str("k2".into()), m);
            }
            e.compare("a conversion");
        }
        8 => {
            // Copies are equal and independent.
            let copy = e.v.clone();
            check!(copy == e.v, "clone", "a copy differs from {}", brief(&e.v));
            check!(copy.partial_cmp(&e.v) == Some(std::cmp::Ordering::Equal), "clone", "a copy does not compare equal to {}", brief(&e.v));
            let again = serde_yaml::to_value(&e.v).map(|v| Model::from_value(&v));
            check!(again.as_ref().ok() == Some(&e.m), "to_value", "to_value of a Value gives {} instead of {}", brief(&again), brief(&e.m));
            let into = Value::deserialize(serde::de::IntoDeserializer::into_deserializer(copy.clone())).map(|v| Model::from_value(&v));
            check!(into.as_ref().ok() == Some(&e.m), "from_value", "into_deserializer gives {} instead of {}", brief(&into), brief(&e.m));
            let through = serde_yaml::from_value::<Value>(copy).map(|v| Model::from_value(&v));
            check!(through.as_ref().ok() == Some(&e.m), "from_value", "from_value to Value gives {} instead of {}", brief(&through), brief(&e.m));
            let by_ref = Value::deserialize(&e.v).map(|v| Model::from_value(&v));
            check!(by_ref.as_ref().ok() == Some(&e.m), "from_value", "deserializing &Value gives {} instead of {}", brief(&by_ref), brief(&e.m));
            let shown = format!("{:?}", e.v);
            check!(!shown.is_empty(), "debug", "empty Debug output");
        }
        9 => {
            // A section that does not fit its type is refused and stays as it is.
            #[derive(Deserialize, Debug)]
            #[allow(dead_code)]
            struct Never {
                no_such_field: [u64; 2],
            }
            let r = Never::deserialize(&e.v);
            check!(r.is_err(), "typed", "a section without the field was accepted: {r:?}");
            ctx::fault("edit:refused-type");
            e.compare("a refused type");
        }
        11 => bytes_section(e),
        12 => nameless_variant(e),
        13 => {
            // Some part of the tree, asked for in all kinds of forms.
            let p = path(&e.m, 3);
            if let (Some(v), Some(m)) = (slot(&mut e.v, &p), node_at(&e.m, &p)) {
                if let Some(err) = forms::check(m, v, None) {
                    ctx::violate("form", || err);
                    return;
                }
            }
            e.compare("a section asked for in a drawn form");
        }
        _ => {
            // Start over.
            let m = config();
            e.v = m.to_value().unwrap();
            e.m = m;
        }
    }
    if what != 0 {
        ctx::nontrivial();
    }
    ctx::ev("op", what as u64, kind(&e.m));
}

fn put(m: &mut Vec<(Model, Model)>, k: Model, v: Model) -> Option<Model> {
    if let Some(e) = m.iter_mut().find(|e| e.0 == k) {
        return Some(std::mem::replace(&mut e.1, v));
    }
    m.push((k, v));
    None
}

fn from_conversion() -> (Value, Model) {
    let i = *gen::one(&[0i64, 1, -1, 127, -128, 5, 100]);
    match gen::pick(17) {
        0 => (Value::from(i as i8), model::int(i as i128)),
        1 => (Value::from(i as i16), model::int(i as i128)),
        2 => (Value::from(i as i32), model::int(i as i128)),
        3 => (Value::from(i), model::int(i as i128)),
        4 => (Value::from(i as isize), model::int(i as i128)),
        5 => (Value::from(i as u8), model::int(i as u8 as i128)),
        6 => (Value::from(i as u16), model::int(i as u16 as i128)),
        7 => (Value::from(i as u32), model::int(i as u32 as i128)),
        8 => (Value::from(i as u64), model::int(i as u64 as i128)),
        9 => (Value::from(i as usize), model::int(i as usize as i128)),
        10 => (Value::from(i as f64 / 2.0 + 0.25), model::float(i as f64 / 2.0 + 0.25)),
        11 => (Value::from(i as f32 / 2.0 + 0.25), model::float(i as f64 / 2.0 + 0.25)),
        12 => (Value::from(i > 0), Model::Bool(i > 0)),
        13 => {
            let s = string();
            match gen::pick(3) {
                0 => (Value::from(s.clone()), Model::Str(s)),
                1 => (Value::from(s.as_str()), Model::Str(s)),
                _ => (Value::from(std::borrow::Cow::Borrowed(s.as_str())), Model::Str(s)),
            }
        }
        14 => {
            // A Value has no integers beyond 64 bits: it keeps their digits.
            let n = gen::one(&[1i128 << 63, 1 << 64, (1 << 64) - 1, -(1 << 63), 1 << 127, 1 << 100, -(1 << 100), 0, i as i128])
                .wrapping_add(gen::pick(5) as i128 - 2);
            let m = if n < i64::MIN as i128 || n > u64::MAX as i128 { Model::Str(n.to_string()) } else { model::int(n) };
            let v = if n >= 0 && gen::chance(1, 2) { serde_yaml::to_value(n as u128) } else { serde_yaml::to_value(n) };
            (v.unwrap(), m)
        }
        15 => {
            let m = gen::list(0, 3, |_| value_model(1));
            let v: Vec<Value> = m.iter().map(|m| m.to_value().unwrap()).collect();
            let v = match gen::pick(3) {
                0 => Value::from(v),
                1 => Value::from(&v[..]),
                _ => v.into_iter().collect(),
            };
            (v, Model::Seq(m))
        }
        _ => {
            let m = gen::list(0, 3, |i| (Model::Str(format!("f{i}")), value_model(1)));
            let map: Mapping = m.iter().map(|(k, v)| (k.to_value().unwrap(), v.to_value().unwrap())).collect();
            (Value::from(map), Model::Map(m))
        }
    }
}

fn query(e: &Editor) {
    let p = path(&e.m, 4);
    let want = node_at(&e.m, &p);
    let mut got = Some(&e.v);
    let mut by_index = &e.v;
    for s in &p {
        got = got.and_then(|v| get(v, s));
        by_index = index(by_index, s);
    }
    let got_m = got.map(Model::from_value);
    check!(got_m.as_ref() == want, "get", "get along {p:?} gives {} instead of {}", brief(&got_m), brief(&want));
    let by_index_m = Model::from_value(by_index);
    check!(
        by_index_m == *want.unwrap_or(&Model::Null),
        "index",
        "indexing along {p:?} gives {} instead of {}",
        brief(&by_index_m),
        brief(&want)
    );
    let v = by_index;
    let full = want.unwrap_or(&Model::Null);
    ctx::state(ctx::fold(400, kind(full)));
    // Accessors look through tags.
    let m = untag(full);
    let is = |x: &Model| -> [bool; 9] {
        let big = |neg: bool, mag: u128| !neg && mag <= i64::MAX as u128 || neg && mag <= 1 << 63;
        [
            matches!(x, Model::Null),
            matches!(x, Model::Bool(_)),
            matches!(x, Model::Int(..) | Model::Float(_)),
            matches!(x, Model::Int(n, g) if big(*n, *g)),
            matches!(x, Model::Int(false, _)),
            matches!(x, Model::Float(_)),
            matches!(x, Model::Str(_)),
            matches!(x, Model::Seq(_)),
            matches!(x, Model::Map(_)),
        ]
    };
    let got = [
        v.is_null(),
        v.is_bool(),
        v.is_number(),
        v.is_i64(),
        v.is_u64(),
        v.is_f64(),
        v.is_string(),
        v.is_sequence(),
        v.is_mapping(),
    ];
    check!(got == is(m), "kind", "the kinds of {} are {got:?}", brief(&full));
    let ok = match m {
        Model::Null => v.as_null() == Some(()),
        Model::Bool(b) => v.as_bool() == Some(*b) && (matches!(full, Model::Tagged(..)) || *v == *b),
        Model::Int(neg, mag) => {
            let i = if *neg { -(*mag as i128) } else { *mag as i128 };
            v.as_i64().map(i128::from) == i64::try_from(i).ok().map(i128::from)
                && v.as_u64().map(i128::from) == u64::try_from(i).ok().map(i128::from)
                && v.as_f64() == Some(i as f64)
                && i64::try_from(i).map_or(true, |i| *v == i)
                && u64::try_from(i).map_or(true, |i| *v == i)
        }
        Model::Float(b) => v.as_f64().map(f64::to_bits) == Some(*b) && v.as_i64().is_none() && v.as_u64().is_none() && (*v == f64::from_bits(*b)) != f64::from_bits(*b).is_nan(),
        Model::Str(s) => v.as_str() == Some(s) && *v == *s.as_str() && *v == s.clone(),
        Model::Seq(s) => v.as_sequence().map(|x| x.len()) == Some(s.len()),
        Model::Map(s) => v.as_mapping().map(|x| x.len()) == Some(s.len()),
        _ => true,
    };
    check!(ok, "accessor", "an accessor or comparison of {} disagrees with its content", brief(&full));
    compared(v, m);
    if let Value::Number(n) = untagged(v) {
        numbered(n, m, &Number::from(if gen::chance(1, 2) { gen::full() as i64 } else { gen::pick(4) as i64 - 1 }));
    }
    let others = [
        v.as_null().is_some(),
        v.as_bool().is_some(),
        v.as_f64().is_some(),
        v.as_str().is_some(),
        v.as_sequence().is_some(),
        v.as_mapping().is_some(),
    ];
    let k = is(m);
    check!(others == [k[0], k[1], k[2], k[6], k[7], k[8]], "accessor", "accessors of {} answer {others:?}", brief(&full));
    if gen::chance(1, 6) {
        let mut w = v.clone();
        for i in 0..1 + gen::idx(3) {
            w = Value::Tagged(Box::new(TaggedValue { tag: Tag::new(format!("t{i}")), value: w }));
        }
        let kinds = [
            w.is_null(), w.is_bool(), w.is_number(), w.is_i64(), w.is_u64(), w.is_f64(), w.is_string(), w.is_sequence(), w.is_mapping(),
        ];
        check!(kinds == k, "kind", "under tags the kinds of {} are {kinds:?}", brief(&full));
        check!(through_tags(&mut w, m), "accessor", "under tags the content of {} is not found: {w:?}", brief(&full));
    }
}

/// The same content, behind however many tags.
fn through_tags(w: &mut Value, m: &Model) -> bool {
    match m {
        Model::Null => w.as_null().is_some(),
        Model::Bool(b) => w.as_bool() == Some(*b) && bool::deserialize(&*w).ok() == Some(*b) && serde_yaml::from_value::<bool>(w.clone()).ok() == Some(*b),
        Model::Str(s) => {
            w.as_str() == Some(s)
                && serde_yaml::from_value::<String>(w.clone()).ok().as_ref() == Some(s)
                && String::deserialize(&*w).ok().as_ref() == Some(s)
        }
        Model::Int(false, mag) => match u64::try_from(*mag) {
            Ok(n) => w.as_u64() == Some(n) && serde_yaml::from_value::<u64>(w.clone()).ok() == Some(n) && u64::deserialize(&*w).ok() == Some(n),
            Err(_) => true,
        },
        Model::Seq(v) => {
            let first = v.first();
            w.as_sequence().map(Vec::len) == Some(v.len())
                && w.as_sequence_mut().map(|x| x.len()) == Some(v.len())
                && w.get(0).map(Model::from_value).as_ref() == first
                && w.get_mut(0).map(|x| Model::from_value(x)).as_ref() == first
                && (first.is_none() || Some(&Model::from_value(&w[0])) == first)
                && serde_yaml::from_value::<Vec<Value>>(w.clone()).ok().map(|x| x.len()) == Some(v.len())
                && Vec::<Value>::deserialize(&*w).ok().map(|x| x.len()) == Some(v.len())
        }
        Model::Map(v) => {
            let n = v.len();
            w.as_mapping().map(Mapping::len) == Some(n)
                && w.as_mapping_mut().map(|x| x.len()) == Some(n)
                && Mapping::deserialize(&*w).ok().map(|x| x.len()) == Some(n)
                && serde_yaml::from_value::<Mapping>(w.clone()).ok().map(|x| x.len()) == Some(n)
                && v.iter().all(|(k, x)| match k {
                    Model::Str(k) => {
                        w.get(k).map(Model::from_value).as_ref() == Some(x)
                            && w.get_mut(k.as_str()).map(|x| Model::from_value(x)).as_ref() == Some(x)
                            && Model::from_value(&w[k.as_str()]) == *x
                            && Model::from_value(&mut w[k.as_str()]) == *x
                    }
                    _ => true,
                })
        }
        _ => true,
    }
}

fn untagged(v: &Value) -> &Value {
    match v {
        Value::Tagged(t) => untagged(&t.value),
        _ => v,
    }
}

/// Comparing a value with numbers near and far, of every width.
fn compared(v: &Value, m: &Model) {
    let i = match m {
        Model::Int(neg, mag) => (*mag as i128) * if *neg { -1 } else { 1 },
        _ => gen::full() as i64 as i128 >> gen::pick(64),
    };
    let is_int = matches!(m, Model::Int(..));
    let j = match gen::pick(5) {
        0 => i,
        1 => i + 1,
        2 => i - 1,
        3 => -i,
        _ => i ^ 1 << gen::pick(63),
    };
    let same = is_int && i == j;
    let mut w = v.clone();
    let mut bad = None;
    macro_rules! ints {
        ($($t:ident)*) => {$(
            if let Ok(x) = $t::try_from(j) {
                if (*v == x) != same || (v == x) != same || (&mut w == x) != same {
                    bad = Some(stringify!($t));
                }
            }
        )*};
    }
    ints!(i8 i16 i32 i64 isize u8 u16 u32 u64 usize);
    let f = match m {
        Model::Float(b) if gen::chance(1, 2) => f64::from_bits(*b),
        _ => j as f64,
    };
    let same_f = match m {
        Model::Int(..) => i as f64 == f,
        Model::Float(b) => f64::from_bits(*b) == f,
        _ => false,
    };
    let same_f32 = match m {
        Model::Int(..) => i as f64 == f as f32 as f64,
        Model::Float(b) => f64::from_bits(*b) == f as f32 as f64,
        _ => false,
    };
    if (*v == f) != same_f || (v == f) != same_f || (&mut w == f) != same_f {
        bad = Some("f64");
    }
    if (*v == f as f32) != same_f32 || (v == f as f32) != same_f32 || (&mut w == f as f32) != same_f32 {
        bad = Some("f32");
    }
    if (*v == true) != (*m == Model::Bool(true)) || (*v == false) != (*m == Model::Bool(false)) {
        bad = Some("bool");
    }
    let text = match m {
        Model::Str(s) if gen::chance(1, 2) => s.clone(),
        Model::Str(s) => s.chars().skip(1).collect(),
        _ => j.to_string(),
    };
    let same_s = matches!(m, Model::Str(s) if *s == text);
    if (*v == *text.as_str()) != same_s || (*v == text.as_str()) != same_s || (*v == text) != same_s {
        bad = Some("str");
    }
    if let Some(t) = bad {
        ctx::violate("compare", || format!("{} compared with {j} or {f:?} or {text:?} as {t} gives the wrong answer", brief(v)));
    }
}

/// What a number says about itself, and how it stands to another one.
fn numbered(n: &Number, m: &Model, other: &Number) {
    let f = match m {
        Model::Float(b) => Some(f64::from_bits(*b)),
        _ => None,
    };
    let i = match m {
        Model::Int(neg, mag) => (*mag as i128) * if *neg { -1 } else { 1 },
        _ => 0,
    };
    let signed = f.is_none() && i64::try_from(i).is_ok();
    let unsigned = f.is_none() && u64::try_from(i).is_ok();
    let ok = n.is_i64() == signed
        && n.is_u64() == unsigned
        && n.is_f64() == f.is_some()
        && n.as_i64() == i64::try_from(i).ok().filter(|_| signed)
        && n.as_u64() == u64::try_from(i).ok().filter(|_| unsigned)
        && n.as_f64().map(f64::to_bits) == Some(f.unwrap_or(i as f64).to_bits())
        && n.is_nan() == f.map_or(false, f64::is_nan)
        && n.is_infinite() == f.map_or(false, f64::is_infinite)
        && n.is_finite() == f.map_or(true, f64::is_finite);
    check!(ok, "number", "the number {n:?} does not know that it is {m:?}");
    let text = n.to_string();
    let parsed = text.parse::<Number>();
    check!(
        parsed.as_ref().ok() == Some(n) && crate::text::resolve(&text) == *m,
        "number",
        "{m:?} prints as {text:?}, which is parsed as {parsed:?} and stands for {:?}",
        crate::text::resolve(&text)
    );
    // The other one is an integer.
    let o = other.as_i64().unwrap() as i128;
    use std::cmp::Ordering;
    let want = if f.is_some() { Ordering::Greater } else { i.cmp(&o) };
    let (a, b) = (n.partial_cmp(other), other.partial_cmp(n));
    check!(
        a == Some(want) && b == Some(want.reverse()) && (n == other) == (want == Ordering::Equal) && n.partial_cmp(n) == Some(Ordering::Equal) && n == n,
        "number",
        "{n:?} compared with {other:?} gives {a:?} and {b:?}"
    );
}

/// Raw bytes, stored the way serde stores them.
struct Raw(Vec<u8>);

impl Serialize for Raw {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_bytes(&self.0)
    }
}

/// Raw bytes, asked for as bytes (true) or as a byte buffer.
struct AskRaw(bool);

impl<'de> serde::de::DeserializeSeed<'de> for AskRaw {
    type Value = Vec<u8>;
    fn deserialize<D: serde::Deserializer<'de>>(self, d: D) -> Result<Vec<u8>, D::Error> {
        struct Visitor;
        impl<'de> serde::de::Visitor<'de> for Visitor {
            type Value = Vec<u8>;
            fn expecting(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
                f.write_str("bytes")
            }
            fn visit_str<E: serde::de::Error>(self, s: &str) -> Result<Vec<u8>, E> {
                Ok(s.as_bytes().to_vec())
            }
            fn visit_bytes<E: serde::de::Error>(self, b: &[u8]) -> Result<Vec<u8>, E> {
                Ok(b.to_vec())
            }
            fn visit_seq<A: serde::de::SeqAccess<'de>>(self, mut a: A) -> Result<Vec<u8>, A::Error> {
                let mut out = Vec::new();
                while let Some(b) = a.next_element()? {
                    out.push(b);
                }
                Ok(out)
            }
        }
        if self.0 {
            d.deserialize_bytes(Visitor)
        } else {
            d.deserialize_byte_buf(Visitor)
        }
    }
}

fn bytes_section(e: &mut Editor) {
    use serde::de::DeserializeSeed;
    // A node of the tree asked for as bytes: text and sequences of bytes
    // have them, nothing else does.
    let p = path(&e.m, 3);
    if let (Some(v), Some(m)) = (slot(&mut e.v, &p), node_at(&e.m, &p)) {
        let want = match untag(m) {
            Model::Str(s) => Some(s.as_bytes().to_vec()),
            Model::Seq(s) => s
                .iter()
                .map(|x| match untag(x) {
                    Model::Int(false, b) if *b < 256 => Some(*b as u8),
                    _ => None,
                })
                .collect(),
            _ => None,
        };
        let kind = gen::chance(1, 2);
        let by_ref = AskRaw(kind).deserialize(&*v);
        let by_value = AskRaw(kind).deserialize(v.clone());
        check!(
            by_ref.as_ref().ok() == want.as_ref() && by_value.as_ref().ok() == want.as_ref(),
            "bytes",
            "{} asked for as bytes gives {} and {}",
            brief(m),
            brief(&by_ref),
            brief(&by_value)
        );
        if want.is_none() {
            ctx::fault("edit:refused-bytes");
        }
    }
    // A new section of raw bytes.
    let raw = gen::list(0, 6, |_| gen::pick(256) as u8);
    let want = Model::Seq(raw.iter().map(|b| model::int(*b as i128)).collect());
    let section = match serde_yaml::to_value(Raw(raw.clone())) {
        Ok(v) => v,
        Err(err) => {
            ctx::violate("bytes", || format!("to_value of the bytes {raw:?} fails: {err}"));
            return;
        }
    };
    check!(Model::from_value(&section) == want, "bytes", "to_value of the bytes {raw:?} gives {}", brief(&section));
    // As text they are refused, or come back as they were.
    if let Ok(text) = serde_yaml::to_string(&Raw(raw.clone())) {
        let back = AskRaw(true).deserialize(Deserializer::from_str(&text));
        check!(back.as_ref().ok() == Some(&raw), "bytes", "the bytes {raw:?} are written as {text:?}, which reads back as {}", brief(&back));
    }
    if let (Value::Mapping(v), Model::Map(m)) = (&mut e.v, &mut e.m) {
        v.insert("k1".into(), section);
        put(m, Model::Str("k1".into()), want);
    }
    e.compare("a section of bytes");
}

/// A variant without a name has no tag it could be stored under.
fn nameless_variant(e: &mut Editor) {
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    enum Newtype {
        #[serde(rename = "")]
        V(u8),
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    enum Tuple {
        #[serde(rename = "")]
        V(u8, u8),
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    enum Struct {
        #[serde(rename = "")]
        V { a: u8 },
    }
    #[derive(Serialize, Deserialize, Debug, PartialEq)]
    enum Unit {
        #[serde(rename = "")]
        V,
    }
    let r = match gen::pick(4) {
        0 => serde_yaml::to_value(Newtype::V(1)),
        1 => serde_yaml::to_value(Tuple::V(1, 2)),
        2 => serde_yaml::to_value(Struct::V { a: 1 }),
        _ => {
            let r = serde_yaml::to_value(Unit::V);
            let ok = r.as_ref().ok() == Some(&Value::String(String::new()));
            check!(ok, "nameless", "a unit variant without a name becomes {}", brief(&r));
            if let Ok(v) = r {
                let back = if gen::chance(1, 2) { Unit::deserialize(&v) } else { serde_yaml::from_value(v) };
                check!(back.as_ref().ok() == Some(&Unit::V), "nameless", "a unit variant without a name reads back as {}", brief(&back));
            }
            return;
        }
    };
    ctx::fault("edit:refused-tag");
    check!(r.is_err(), "nameless", "a variant without a name was accepted: {}", brief(&r));
    // Nor can such a tag be asked for.
    let tag: Result<TaggedValue, _> = TaggedValue::deserialize(EmptyTagged);
    check!(tag.is_err(), "nameless", "a tag without a name was accepted: {}", brief(&tag));
    let made = catch_unwind(|| Tag::new(""));
    check!(made.is_err(), "nameless", "Tag::new accepts an empty name");
    e.compare("a refused tag");
}

/// Another format's enum whose variant has no name.
struct EmptyTagged;

impl<'de> serde::Deserializer<'de> for EmptyTagged {
    type Error = serde_yaml::Error;
    fn deserialize_any<V: serde::de::Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_enum(self)
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct
        newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any
    }
}

impl<'de> serde::de::EnumAccess<'de> for EmptyTagged {
    type Error = serde_yaml::Error;
    type Variant = Self;
    fn variant_seed<S: serde::de::DeserializeSeed<'de>>(self, s: S) -> Result<(S::Value, Self), Self::Error> {
        use serde::de::IntoDeserializer;
        Ok((s.deserialize(IntoDeserializer::<Self::Error>::into_deserializer(""))?, self))
    }
}

impl<'de> serde::de::VariantAccess<'de> for EmptyTagged {
    type Error = serde_yaml::Error;
    fn unit_variant(self) -> Result<(), Self::Error> {
        Ok(())
    }
    fn newtype_variant_seed<S: serde::de::DeserializeSeed<'de>>(self, s: S) -> Result<S::Value, Self::Error> {
        use serde::de::IntoDeserializer;
        s.deserialize(IntoDeserializer::<Self::Error>::into_deserializer(7u8))
    }
    fn tuple_variant<V: serde::de::Visitor<'de>>(self, _: usize, v: V) -> Result<V::Value, Self::Error> {
        v.visit_u8(7)
    }
    fn struct_variant<V: serde::de::Visitor<'de>>(self, _: &'static [&'static str], v: V) -> Result<V::Value, Self::Error> {
        v.visit_u8(7)
    }
}

fn mapping_op(e: &mut Editor) {
    let p = path(&e.m, 2);
    let p = if gen::chance(1, 3) { Vec::new() } else { p };
    let v = slot(&mut e.v, &p).and_then(Value::as_mapping_mut);
    let m = match model_slot(&mut e.m, &p).map(untag_mut) {
        Some(Model::Map(m)) => Some(m),
        _ => None,
    };
    check!(v.is_some() == m.is_some(), "accessor", "as_mapping_mut along {p:?}: {}", v.is_some());
    let (Some(v), Some(m)) = (v, m) else { return };
    let k = if !m.is_empty() && gen::chance(1, 2) { m[gen::idx(m.len())].0.clone() } else { some_key() };
    let kv = k.to_value().unwrap();
    let at = m.iter().position(|x| x.0 == k);
    match gen::pick(7) {
        0 => {
            let x = fresh(1);
            let old = v.insert(kv, x.to_value().unwrap()).map(|v| Model::from_value(&v));
            let want = put(m, k, x);
            check!(old == want, "insert", "insert returns {} instead of {}", brief(&old), brief(&want));
        }
        1 => {
            let got = v.shift_remove(&kv).map(|v| Model::from_value(&v));
            let want = at.map(|i| m.remove(i).1);
            check!(got == want, "remove", "shift_remove returns {} instead of {}", brief(&got), brief(&want));
        }
        2 => {
            let got = if gen::chance(1, 2) { v.remove(&kv) } else { v.swap_remove(&kv) }.map(|v| Model::from_value(&v));
            let want = at.map(|i| m.swap_remove(i).1);
            check!(got == want, "remove", "remove returns {} instead of {}", brief(&got), brief(&want));
        }
        3 => {
            let x = fresh(1);
            let r = v.entry(kv).or_insert_with(|| x.to_value().unwrap());
            let r = Model::from_value(r);
            if at.is_none() {
                m.push((k.clone(), x));
            }
            let want = &m.iter().find(|e| e.0 == k).unwrap().1;
            check!(r == *want, "entry", "entry().or_insert gives {} instead of {}", brief(&r), brief(want));
        }
        4 => {
            let keep: Vec<bool> = m.iter().map(|_| gen::chance(2, 3)).collect();
            let mut i = 0;
            v.retain(|_, _| {
                i += 1;
                keep[i - 1]
            });
            let mut i = 0;
            m.retain(|_| {
                i += 1;
                keep[i - 1]
            });
        }
        5 => {
            for (_, x) in v.iter_mut() {
                if let Value::Number(n) = x {
                    if let Some(u) = n.as_u64() {
                        *x = Value::from(u / 2);
                    }
                }
            }
            for (_, x) in m.iter_mut() {
                if let Model::Int(false, u) = x {
                    *u /= 2;
                }
            }
        }
        _ => {
            let more = gen::list(0, 3, |_| (some_key(), value_model(1)));
            v.extend(more.iter().map(|(k, x)| (k.to_value().unwrap(), x.to_value().unwrap())));
            for (k, x) in more {
                put(m, k, x);
            }
        }
    }
    e.compare("a mapping operation");
}

fn sequence_op(e: &mut Editor) {
    let p = path(&e.m, 3);
    let v = slot(&mut e.v, &p).and_then(Value::as_sequence_mut);
    let m = match model_slot(&mut e.m, &p).map(untag_mut) {
        Some(Model::Seq(m)) => Some(m),
        _ => None,
    };
    check!(v.is_some() == m.is_some(), "accessor", "as_sequence_mut along {p:?}: {}", v.is_some());
    let (Some(v), Some(m)) = (v, m) else { return };
    let x = fresh(1);
    match gen::pick(3) {
        0 => {
            v.push(x.to_value().unwrap());
            m.push(x);
        }
        1 => {
            let i = gen::idx(m.len() + 1);
            v.insert(i, x.to_value().unwrap());
            m.insert(i, x);
        }
        _ => {
            let got = v.pop().map(|v| Model::from_value(&v));
            let want = m.pop();
            check!(got == want, "sequence", "pop gives {} instead of {}", brief(&got), brief(&want));
        }
    }
    e.compare("a sequence operation");
}

fn config() -> Model {
    match gen::pick(3) {
        0 => merging(3),
        1 => Model::Map(
            gen::list(0, 5, |_| (Model::Str(gen::one(&KEYS).to_string()), fresh(2)))
                .into_iter()
                .fold(Vec::new(), |mut m, (k, v)| {
                    put(&mut m, k, v);
                    m
                }),
        ),
        _ => fresh(3),
    }
}

/// Can every tag in it be written? (A tag directly inside a tag cannot.)
fn writable(m: &Model) -> bool {
    match m {
        Model::Tagged(_, x) => !matches!(**x, Model::Tagged(..)) && writable(x),
        Model::Seq(v) => v.iter().all(writable),
        Model::Map(v) => v.iter().all(|(k, x)| writable(k) && writable(x)),
        _ => true,
    }
}

fn run() {
    // The file as it was found: text by hand (with anchors), or written by us.
    let mut file: Vec<u8>;
    let mut content: Model;
    if gen::chance(1, 3) {
        let t = crate::text::draw_text(true);
        file = t.body.into_bytes();
        content = t.model;
    } else {
        content = config();
        file = serde_yaml::to_string(&content.to_value().unwrap()).unwrap_or_default().into_bytes();
    }
    let epochs = gen::range(1, 4);
    for n in 0..epochs {
        let go_on = gen::span(|| epoch(n, &mut file, &mut content));
        if !go_on || ctx::violated() {
            return;
        }
    }
}

fn epoch(n: u64, file: &mut Vec<u8>, content: &mut Model) -> bool {
    ctx::note(|| format!("epoch {n}: {}", clip(file)));
    let stats = shared(ReadStats::default());
    let loaded = match gen::pick(3) {
        0 => serde_yaml::from_slice::<Value>(file),
        1 => serde_yaml::from_reader::<_, Value>(SimReader::new(file.clone().into(), chop(), None, &stats)),
        _ => Value::deserialize(Deserializer::from_reader(SimReader::new(file.clone().into(), chop(), None, &stats))),
    };
    let v = match loaded {
        Ok(v) => v,
        Err(e) => {
            ctx::violate("load", || format!("the saved configuration cannot be loaded: {e}; it is {}", clip(file)));
            return false;
        }
    };
    let got = Model::from_value(&v);
    check!(got == *content, "load", "the configuration loads as {} instead of {}; it is {}", brief(&got), brief(content), clip(file));
    let mut e = Editor { v, m: content.clone() };
    let ops = gen::range(1, 12);
    for _ in 0..ops {
        if ctx::violated() {
            return false;
        }
        gen::span(|| op(&mut e));
        if e.m.count() > 3000 {
            break;
        }
    }
    if !ctx::violated() && !writable(&e.m) {
        // Refused, not written as something else.
        if let Ok(t) = serde_yaml::to_string(&e.v) {
            match serde_yaml::from_str::<Value>(&t) {
                Ok(v) if v == e.v => {}
                v => ctx::violate("save", || format!("{} is written as {} and read back as {v:?}", brief(&e.m), clip(t.as_bytes()))),
            }
        }
        match serde_yaml::to_value(&e.v) {
            Ok(v) if v == e.v => {}
            v => ctx::violate("save", || format!("{} converted to a value gives {v:?}", brief(&e.m))),
        }
    }
    if ctx::violated() || !writable(&e.m) {
        return false;
    }
    save(&e, file, content)
}

/// Write a temporary file, flush it, rename it over the old one.
fn save(e: &Editor, file: &mut Vec<u8>, content: &mut Model) -> bool {
    let want = serde_yaml::to_string(&e.v).unwrap_or_default();
    let attempts = gen::range(1, 3);
    for _ in 0..attempts {
        let mut plan = WritePlan {
            chop: if gen::chance(1, 2) { Chop::draw(true) } else { Chop::whole() },
            ..WritePlan::clean()
        };
        let end = gen::pick(6);
        match end {
            0 => {
                plan.fault = Some(Fault {
                    at: offset(want.len()),
                    kind: FaultKind::Panic(77),
                    sticky: true,
                })
            }
            1 | 2 => {
                plan.fault = Some(Fault {
                    at: offset(want.len()),
                    kind: FaultKind::Err(ErrSpec::draw()),
                    sticky: gen::chance(1, 2),
                })
            }
            3 => plan.flush_panic = Some((0, 77)),
            _ => {}
        }
        let crash_before_rename = gen::chance(1, 8);
        ctx::note(|| format!("save: end {end}, crash before rename {crash_before_rename}"));
        let (mut w, sink) = writer(plan);
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<(), String> {
            if gen::chance(1, 2) {
                serde_yaml::to_writer(&mut w, &e.v).map_err(|e| e.to_string())?;
            } else {
                let mut ser = serde_yaml::Serializer::new(&mut w);
                e.v.serialize(&mut ser).map_err(|e| e.to_string())?;
            }
            w.flush().map_err(|e| e.to_string())
        }));
        e.compare("a save");
        if ctx::violated() {
            return false;
        }
        let crashed = match r {
            Ok(Ok(())) => {
                let (bytes, durable) = {
                    let s = lock(&sink);
                    (s.bytes.clone(), s.durable)
                };
                check!(durable == bytes.len(), "save", "flushed {durable} of {} bytes", bytes.len());
                check!(bytes == want.as_bytes(), "save", "saved {} instead of {want:?}", clip(&bytes));
                if !crash_before_rename {
                    *file = bytes;
                    *content = e.m.clone();
                    ctx::state(ctx::fold(500, end));
                    return true;
                }
                ctx::fault("crash:before-rename");
                true
            }
            Ok(Err(_)) => {
                ctx::fault("save:error");
                ctx::nontrivial();
                false
            }
            Err(p) => {
                if p.downcast_ref::<Injected>() != Some(&Injected(77)) {
                    std::panic::resume_unwind(p);
                }
                ctx::fault("crash:inside-save");
                true
            }
        };
        if crashed {
            // Nothing in memory survives: the old file is what the next epoch finds.
            ctx::nontrivial();
            ctx::state(ctx::fold(600, end));
            return true;
        }
    }
    true
}
