//! C09: a mapping behaves as an insertion-ordered map under every history of
//! operations, every hash seed and every panicking callback.

use super::util::REAL;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::Injected;
use crate::model::Model;
use serde::de::value::MapDeserializer;
use serde::Deserialize;
use serde_yaml::mapping::Entry;
use serde_yaml::value::{Tag, TaggedValue};
use serde_yaml::{Mapping, Value};
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{BuildHasher, Hash, Hasher, RandomState};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "C09",
    run,
    leaks: true,
    quick_runs: 250_000,
    rule: "one run = a history of up to 60 operations (insert, entry API, lookups by four kinds of key, swap and shift \
           removals, retain, extend, rebuild, clone, mutation through iterators, reading and writing through serde) on \
           mappings over a small pool of keys of every type, some of them equal but built differently, under the \
           hash seeds the tape decides, with callbacks that panic; after each operation the whole mapping is compared \
           with a reference model, and values are compared, hashed and ordered against each other; non-trivial = a \
           panicking callback or a removal; distinct = digest of the event sequence",
    state_measure: "hash of (operation, key class, position, size)",
    real: REAL,
    stub: &["callbacks passed to entry, retain, extend", "getrandom (hash seeds)"],
    assumptions: &["the reference is a vector of (key class, value) pairs kept in insertion order"],
};

/// The i-th key; `rep` picks among representations that are equal.
fn key(class: usize, rep: u64) -> Value {
    let s = |t: &str| Value::String(t.to_string());
    let map = |mut v: Vec<(Value, Value)>, rep: u64| {
        if rep % 2 == 1 {
            v.reverse();
        }
        Value::Mapping(v.into_iter().collect())
    };
    match class {
        0 => s("a"),
        1 => s("b"),
        2 => s("k"),
        3 => s("1"),
        4 => s(""),
        5 => s("<<"),
        6 => s("null"),
        7 => Value::from(1u64),
        8 => Value::from(2i64),
        9 => Value::from(-1i64),
        10 => Value::from(u64::MAX),
        11 => Value::from(1.0f64),
        12 => Value::from(if rep % 2 == 1 { -0.0 } else { 0.0f64 }),
        13 => Value::from(if rep % 2 == 1 { -f64::NAN } else { f64::NAN }),
        14 => Value::Null,
        15 => Value::Bool(true),
        16 => Value::Bool(false),
        17 => Value::Sequence(vec![Value::from(1u64), s("a")]),
        18 => Value::Sequence(vec![]),
        19 => map(vec![(s("a"), Value::from(1u64)), (s("b"), Value::from(2u64))], rep),
        20 => map(vec![(s("b"), Value::from(0u64))], rep),
        21 => map(vec![], rep),
        22 => map(
            vec![
                (map(vec![(s("x"), Value::Null), (s("y"), Value::Null)], rep / 2), Value::from(1u64)),
                (s("b"), Value::from(2u64)),
            ],
            rep,
        ),
        23 => tagged(if rep % 2 == 1 { "!T" } else { "T" }, s("a")),
        24 => tagged("T", Value::from(1u64)),
        25 => tagged("U", s("a")),
        26 => Value::Sequence(vec![map(vec![(s("p"), Value::from(1u64)), (s("q"), Value::from(2u64))], rep)]),
        27 => Value::from(f64::NEG_INFINITY),
        28 => Value::from(i64::MIN),
        29 => s("ключ"),
        30 => Value::Sequence(vec![Value::from(f64::NAN), Value::from(3u64)]),
        31 => Value::Sequence(vec![Value::from(1.0f64), Value::from(5u64)]),
        32 => Value::Sequence(vec![Value::from(1u64)]),
        33 => Value::Sequence(vec![Value::Null, Value::Bool(false), Value::from(-1i64)]),
        34 => map(vec![(Value::from(f64::NAN), Value::from(1u64)), (Value::from(1.0f64), Value::from(2u64))], rep),
        35 => map(vec![(s("a"), Value::from(2u64)), (s("b"), Value::from(1u64))], rep),
        36 => map(vec![(Value::from(-1i64), Value::Null), (Value::Null, Value::Bool(true)), (s("a"), Value::from(f64::NAN))], rep),
        37 => tagged("T", map(vec![(Value::Bool(false), s("x")), (Value::from(2u64), s("y"))], rep)),
        38 => tagged("T", Value::Null),
        39 => map(
            vec![
                (s("a"), map(vec![(s("p"), Value::from(1u64)), (s("q"), tagged("T", Value::Null))], rep / 2)),
                (s("b"), Value::Sequence(vec![map(vec![(s("p"), Value::Null), (Value::Null, s("q"))], rep / 2)])),
            ],
            rep,
        ),
        _ => unreachable!(),
    }
}

const CLASSES: usize = 40;

fn tagged(t: &str, v: Value) -> Value {
    Value::Tagged(Box::new(TaggedValue {
        tag: Tag::new(t),
        value: v,
    }))
}

/// An equal value, spelled differently all the way down.
fn respell(v: &Value) -> Value {
    match v {
        Value::Number(n) => match n.as_f64() {
            Some(f) if n.is_f64() && (f == 0.0 || f.is_nan()) && gen::chance(1, 2) => Value::from(-f),
            _ => v.clone(),
        },
        Value::Sequence(q) => Value::Sequence(q.iter().map(respell).collect()),
        Value::Mapping(m) => {
            let mut e: Vec<(Value, Value)> = m.iter().map(|(k, v)| (respell(k), respell(v))).collect();
            for i in (1..e.len()).rev() {
                e.swap(i, gen::idx(i + 1));
            }
            Value::Mapping(e.into_iter().collect())
        }
        Value::Tagged(t) => {
            let name = t.tag.to_string();
            let bare = name.trim_start_matches('!');
            tagged(if gen::chance(1, 2) { bare } else { &name }, respell(&t.value))
        }
        _ => v.clone(),
    }
}

/// Sequences, mappings and tags over the keys.
fn compound(depth: usize) -> Value {
    let part = |_: usize| if depth == 0 || gen::chance(1, 3) { key(gen::idx(CLASSES), gen::pick(4)) } else { compound(depth - 1) };
    match gen::pick(4) {
        0 => Value::Sequence((0..gen::idx(4)).map(part).collect()),
        1 => tagged("V", part(0)),
        _ => Value::Mapping((0..gen::idx(4)).map(|_| (part(0), part(1))).collect()),
    }
}

fn class_of(k: &Value) -> Option<usize> {
    let m = canon(k);
    (0..CLASSES).find(|c| canon(&key(*c, 0)) == m)
}

/// A model in which equal values look the same.
fn canon(v: &Value) -> Model {
    fn go(m: Model) -> Model {
        match m {
            Model::Float(b) if f64::from_bits(b) == 0.0 => Model::Float(0),
            Model::Seq(v) => Model::Seq(v.into_iter().map(go).collect()),
            Model::Map(v) => {
                let mut v: Vec<_> = v.into_iter().map(|(k, x)| (go(k), go(x))).collect();
                v.sort_by_cached_key(|e| format!("{e:?}"));
                Model::Map(v)
            }
            Model::Tagged(t, v) => Model::Tagged(t, Box::new(go(*v))),
            m => m,
        }
    }
    go(Model::from_value(v))
}

type Entries = Vec<(usize, Value)>;

struct Sim {
    m: Mapping,
    e: Entries,
    serial: u64,
    pool: Vec<usize>,
}

fn find(e: &Entries, c: usize) -> Option<usize> {
    e.iter().position(|(k, _)| *k == c)
}

fn show(e: &Entries) -> String {
    let v: Vec<String> = e.iter().map(|(c, v)| format!("{:?}: {:?}", Model::from_value(&key(*c, 0)), Model::from_value(v))).collect();
    format!("{{{}}}", v.join(", "))
}

impl Sim {
    fn value(&mut self) -> Value {
        self.serial += 1;
        let n = Value::from(self.serial);
        match gen::pick(7) {
            0..=3 => n,
            4 => Value::Sequence(vec![n, Value::Null]),
            5 => {
                let e = [(Value::from("serial"), n), (Value::Null, key(19 + gen::idx(4), gen::pick(4)))];
                Value::Mapping(e.into_iter().collect())
            }
            _ => tagged("V", n),
        }
    }

    fn class(&mut self) -> usize {
        self.pool[gen::idx(self.pool.len())]
    }

    /// The mapping and the model agree in everything observable.
    fn compare(&self, what: &str) {
        let (m, e) = (&self.m, &self.e);
        let ok = m.len() == e.len()
            && m.is_empty() == e.is_empty()
            && m.capacity() >= m.len()
            && m.iter().len() == e.len()
            && m.iter().zip(e).all(|((k, v), (c, w))| canon(k) == canon(&key(*c, 0)) && v == w)
            && m.keys().zip(e).all(|(k, (c, _))| *k == key(*c, 0))
            && m.values().zip(e).all(|(v, (_, w))| v == w);
        check!(ok, "contents", "after {what} the mapping is {:?}, expected {}", Model::from_value(&Value::Mapping(m.clone())), show(e));
        if !ok {
            return;
        }
        for &c in &self.pool {
            let want = find(e, c).map(|i| &e[i].1);
            let k = key(c, gen::pick(4));
            let got = m.get(&k);
            check!(got == want, "lookup", "after {what}: get({k:?}) is {got:?}, expected {want:?} in {}", show(e));
            check!(m.contains_key(&k) == want.is_some(), "lookup", "after {what}: contains_key({k:?}) in {}", show(e));
            if let Value::String(s) = &k {
                check!(m.get(s.as_str()) == want, "lookup", "after {what}: get by str {s:?} is {:?} in {}", m.get(s.as_str()), show(e));
                check!(m.get(s.clone()) == want, "lookup", "after {what}: get by String {s:?} in {}", show(e));
                check!(m.contains_key(s.as_str()) == want.is_some(), "lookup", "after {what}: contains_key by str {s:?} in {}", show(e));
                check!(m.contains_key(s) == want.is_some(), "lookup", "after {what}: contains_key by &String {s:?} in {}", show(e));
            }
            if want.is_some() {
                check!(&m[&k] == want.unwrap(), "lookup", "after {what}: index by {k:?} in {}", show(e));
            }
        }
    }
}

fn same(what: &str, got: Option<Value>, want: Option<Value>) {
    check!(got == want, "result", "{what} returned {got:?} instead of {want:?}");
}

fn same_entry(what: &str, got: Option<(Value, Value)>, want: Option<(usize, Value)>) {
    let ok = match (&got, &want) {
        (None, None) => true,
        (Some((k, v)), Some((c, w))) => *k == key(*c, 0) && v == w,
        _ => false,
    };
    check!(ok, "result", "{what} returned {got:?} instead of {want:?}");
}

fn swap_remove(e: &mut Entries, c: usize) -> Option<(usize, Value)> {
    find(e, c).map(|i| e.swap_remove(i))
}
fn shift_remove(e: &mut Entries, c: usize) -> Option<(usize, Value)> {
    find(e, c).map(|i| e.remove(i))
}

/// Runs `f`; true if it panicked with the injected payload.
fn panics(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(p) => {
            if p.downcast_ref::<Injected>().is_none() {
                std::panic::resume_unwind(p);
            }
            true
        }
    }
}

fn boom() -> ! {
    ctx::fault("callback:panic");
    std::panic::panic_any(Injected(5))
}

fn run() {
    let n = gen::range(2, 12) as usize;
    let mut pool: Vec<usize> = Vec::new();
    for _ in 0..n {
        let c = gen::idx(CLASSES);
        if !pool.contains(&c) {
            pool.push(c);
        }
    }
    let mut s = Sim {
        m: if gen::chance(1, 2) { Mapping::new() } else { Mapping::with_capacity(gen::idx(40)) },
        e: Vec::new(),
        serial: 0,
        pool,
    };
    let ops = gen::range(1, 60);
    for _ in 0..ops {
        gen::span(|| op(&mut s));
        if ctx::violated() {
            return;
        }
    }
    gen::span(|| relations(&s));
}

fn op(s: &mut Sim) {
    let kind = gen::pick(22);
    let c = s.class();
    let k = key(c, gen::pick(4));
    let at = find(&s.e, c);
    ctx::ev("op", kind, c as u64);
    ctx::state(ctx::fold(kind << 16 | (c as u64) << 8 | at.map_or(255, |i| i as u64), s.e.len() as u64));
    let what;
    match kind {
        0..=3 => {
            let v = s.value();
            what = format!("insert({k:?}, {v:?})");
            let got = s.m.insert(k, v.clone());
            let want = match at {
                Some(i) => Some(std::mem::replace(&mut s.e[i].1, v)),
                None => {
                    s.e.push((c, v));
                    None
                }
            };
            same(&what, got, want);
        }
        4 => {
            let v = s.value();
            what = format!("entry({k:?}).or_insert({v:?})");
            let fresh = s.value();
            {
                let r = s.m.entry(k).or_insert(v.clone());
                let want = at.map_or(&v, |i| &s.e[i].1);
                check!(r == want, "result", "{what} gave {r:?} instead of {want:?}");
                *r = fresh.clone();
            }
            match at {
                Some(i) => s.e[i].1 = fresh,
                None => s.e.push((c, fresh)),
            }
        }
        5 => {
            let v = s.value();
            let explode = gen::chance(1, 2);
            what = format!("entry({k:?}).or_insert_with, panicking: {explode}");
            let mut called = 0;
            let p = panics(|| {
                let r = s.m.entry(k).or_insert_with(|| {
                    called += 1;
                    if explode {
                        boom();
                    }
                    v.clone()
                });
                let want = at.map_or(&v, |i| &s.e[i].1);
                check!(*r == *want, "result", "{what} gave {r:?} instead of {want:?}");
            });
            check!(called == at.is_none() as u32, "callback", "{what}: the callback ran {called} times, occupied: {}", at.is_some());
            check!(p == (explode && at.is_none()), "callback", "{what}: panicked: {p}");
            if at.is_none() && !p {
                s.e.push((c, v));
            }
        }
        6 => {
            let v = s.value();
            let w = s.value();
            let explode = gen::pick(3);
            what = format!("entry({k:?}).and_modify (panic {explode}).or_insert");
            let mut called = 0;
            let p = panics(|| {
                s.m.entry(k)
                    .and_modify(|x| {
                        called += 1;
                        if explode == 1 {
                            boom();
                        }
                        *x = v.clone();
                        if explode == 2 {
                            boom();
                        }
                    })
                    .or_insert(w.clone());
            });
            check!(called == at.is_some() as u32, "callback", "{what}: the callback ran {called} times, occupied: {}", at.is_some());
            check!(p == (explode != 0 && at.is_some()), "callback", "{what}: panicked: {p}");
            match at {
                Some(_) if explode == 1 => {}
                Some(i) => s.e[i].1 = v,
                None => s.e.push((c, w)),
            }
        }
        7 | 8 => {
            let v = s.value();
            let sub = gen::pick(7);
            what = format!("entry({k:?}) occupied/vacant, action {sub}");
            match s.m.entry(k) {
                Entry::Occupied(mut o) => {
                    let Some(i) = at else {
                        return ctx::violate("result", || format!("{what}: occupied, but the key is not in {}", show(&s.e)));
                    };
                    check!(*o.key() == key(c, 0), "result", "{what}: key() is {:?}", o.key());
                    check!(*o.get() == s.e[i].1, "result", "{what}: get() is {:?} instead of {:?}", o.get(), s.e[i].1);
                    match sub {
                        0 => {
                            *o.get_mut() = v.clone();
                            check!(*o.get() == v, "result", "{what}: get() after get_mut() is {:?}", o.get());
                            s.e[i].1 = v;
                        }
                        1 => {
                            *o.into_mut() = v.clone();
                            s.e[i].1 = v;
                        }
                        2 => {
                            let old = o.insert(v.clone());
                            same(&what, Some(old), Some(std::mem::replace(&mut s.e[i].1, v)));
                        }
                        3 => {
                            ctx::nontrivial();
                            same(&what, Some(o.remove()), swap_remove(&mut s.e, c).map(|e| e.1));
                        }
                        4 => {
                            ctx::nontrivial();
                            same_entry(&what, Some(o.remove_entry()), swap_remove(&mut s.e, c));
                        }
                        _ => {
                            let e = Entry::Occupied(o);
                            check!(*e.key() == key(c, 0), "result", "{what}: Entry::key() is {:?}", e.key());
                        }
                    }
                }
                Entry::Vacant(o) => {
                    if at.is_some() {
                        return ctx::violate("result", || format!("{what}: vacant, but the key is in {}", show(&s.e)));
                    }
                    check!(*o.key() == key(c, 0), "result", "{what}: key() is {:?}", o.key());
                    match sub {
                        0 => {
                            let k = o.into_key();
                            check!(k == key(c, 0), "result", "{what}: into_key() is {k:?}");
                        }
                        1 | 2 | 3 => {
                            let r = o.insert(v.clone());
                            check!(*r == v, "result", "{what}: insert() gave {r:?}");
                            s.e.push((c, v));
                        }
                        4 => {
                            let e = Entry::Vacant(o);
                            check!(*e.key() == key(c, 0), "result", "{what}: Entry::key() is {:?}", e.key());
                        }
                        _ => {}
                    }
                }
            }
        }
        9 | 10 => {
            ctx::nontrivial();
            let how = gen::pick(8);
            what = format!("removal {how} of {k:?}");
            let string = match &k {
                Value::String(t) if gen::chance(1, 2) => Some(t.clone()),
                _ => None,
            };
            macro_rules! by {
                ($method:ident) => {
                    match &string {
                        Some(t) if t.len() % 2 == 0 => s.m.$method(t),
                        Some(t) => s.m.$method(t.as_str()),
                        None if c % 2 == 0 => s.m.$method(&k),
                        None => s.m.$method(k),
                    }
                };
            }
            match how {
                0 => {
                    let g = by!(remove);
                    same(&what, g, swap_remove(&mut s.e, c).map(|e| e.1));
                }
                1 => {
                    let g = by!(remove_entry);
                    same_entry(&what, g, swap_remove(&mut s.e, c));
                }
                2 => {
                    let g = by!(swap_remove);
                    same(&what, g, swap_remove(&mut s.e, c).map(|e| e.1));
                }
                3 => {
                    let g = by!(swap_remove_entry);
                    same_entry(&what, g, swap_remove(&mut s.e, c));
                }
                4 | 5 => {
                    let g = by!(shift_remove);
                    same(&what, g, shift_remove(&mut s.e, c).map(|e| e.1));
                }
                _ => {
                    let g = by!(shift_remove_entry);
                    same_entry(&what, g, shift_remove(&mut s.e, c));
                }
            }
        }
        11 => {
            let explode = gen::chance(1, 4).then(|| gen::idx(s.e.len() + 1));
            what = format!("retain, panicking at {explode:?}");
            let before = s.m.clone();
            let mut order = Vec::new();
            let mut keep = Vec::new();
            let base = s.serial;
            let all = explode.is_some() && gen::chance(1, 2);
            let p = panics(|| {
                let mut i = 0;
                s.m.retain(|k, v| {
                    if explode == Some(i) {
                        boom();
                    }
                    order.push(class_of(k));
                    let stay = all || gen::chance(2, 3);
                    keep.push(stay);
                    *v = Value::from(base + 1000 + i as u64);
                    i += 1;
                    stay
                })
            });
            let want: Vec<_> = s.e.iter().map(|(c, _)| Some(*c)).collect();
            check!(
                order[..] == want[..order.len().min(want.len())] && (p || order.len() == want.len()),
                "callback",
                "{what}: visited {order:?}, the order is {want:?}"
            );
            if p {
                // Nothing is gone but what the predicate had refused.
                ctx::nontrivial();
                ctx::probe("retain-panics");
                let seen = keep.len();
                let mut left = Vec::new();
                for (i, (c, v)) in s.e.iter().enumerate() {
                    match i < seen {
                        true if keep[i] => left.push((Some(*c), Value::from(base + 1000 + i as u64))),
                        true => {}
                        false => left.push((Some(*c), v.clone())),
                    }
                }
                let got: Vec<_> = s
                    .m
                    .iter()
                    .map(|(k, v)| (class_of(k), v.clone()))
                    .filter(|g| !(0..seen).any(|i| !keep[i] && Some(s.e[i].0) == g.0))
                    .collect();
                check!(got == left, "contents", "{what}: left {got:?}, of {left:?} nothing was refused");
                if keep.iter().all(|k| *k) {
                    s.serial = base + 2000;
                    for (i, (_, v)) in s.e.iter_mut().enumerate().take(seen) {
                        *v = Value::from(base + 1000 + i as u64);
                    }
                } else {
                    // How well the mapping can be searched after refusals it
                    // was not told the end of is not specified; the
                    // application goes back to its copy.
                    s.m = before;
                }
            } else {
                ctx::nontrivial();
                s.serial = base + 2000;
                for (i, (_, v)) in s.e.iter_mut().enumerate() {
                    *v = Value::from(base + 1000 + i as u64);
                }
                let mut i = 0;
                s.e.retain(|_| {
                    i += 1;
                    keep[i - 1]
                });
            }
        }
        12 => {
            let n = gen::idx(6);
            let explode = gen::chance(1, 3).then(|| gen::idx(n + 1));
            what = format!("extend by {n}, panicking at {explode:?}");
            let items: Vec<(usize, Value)> = (0..n).map(|_| (s.class(), s.value())).collect();
            let rep = gen::pick(4);
            let m = &mut s.m;
            let mut i = 0;
            let p = panics(|| {
                m.extend(std::iter::from_fn(|| {
                    if explode == Some(i) {
                        boom();
                    }
                    let r = items.get(i).map(|(c, v)| (key(*c, rep), v.clone()));
                    i += 1;
                    r
                }))
            });
            let taken = if p { explode.unwrap() } else { n };
            for (c, v) in items.into_iter().take(taken) {
                match find(&s.e, c) {
                    Some(i) => s.e[i].1 = v,
                    None => s.e.push((c, v)),
                }
            }
        }
        13 => {
            what = "rebuild".to_string();
            let m = std::mem::take(&mut s.m);
            check!(s.m.is_empty(), "contents", "take left something behind");
            s.m = match gen::pick(3) {
                0 => m.into_iter().collect(),
                1 => {
                    let v: Vec<Value> = m.clone().into_values().collect();
                    let it = m.into_keys();
                    check!(it.len() == v.len(), "iterators", "into_keys and into_values differ in length");
                    it.zip(v).collect()
                }
                _ => m.iter().map(|(k, v)| (k.clone(), v.clone())).collect(),
            };
        }
        14 => {
            what = "clone and forget the original".to_string();
            let mut other = s.m.clone();
            check!(other == s.m, "relation", "a clone differs from its original");
            std::mem::swap(&mut other, &mut s.m);
            other.insert(key(0, 0), Value::Null);
            other.retain(|_, v| {
                *v = Value::Null;
                false
            });
        }
        15 => {
            what = "mutation through iterators".to_string();
            let base = s.serial;
            let via = gen::pick(3);
            let upto = gen::idx(s.e.len() + 1);
            let mut len_ok = true;
            let total = s.e.len();
            match via {
                0 => {
                    let mut it = s.m.iter_mut();
                    for i in 0..upto {
                        len_ok &= it.len() == total - i && it.size_hint() == (total - i, Some(total - i));
                        *it.next().unwrap().1 = Value::from(base + i as u64);
                    }
                    len_ok &= it.len() == total - upto;
                }
                1 => {
                    let mut it = s.m.values_mut();
                    for i in 0..upto {
                        len_ok &= it.len() == total - i;
                        *it.next().unwrap() = Value::from(base + i as u64);
                    }
                }
                _ => {
                    for (i, (_, v)) in (&mut s.m).into_iter().enumerate().take(upto) {
                        *v = Value::from(base + i as u64);
                    }
                }
            }
            check!(len_ok, "iterators", "an iterator misjudges its length");
            for i in 0..upto {
                s.e[i].1 = Value::from(base + i as u64);
            }
            s.serial += total as u64;
        }
        16 => {
            what = format!("get_mut({k:?})");
            let v = s.value();
            let r = match &k {
                Value::String(t) if gen::chance(1, 2) => s.m.get_mut(t.as_str()),
                _ => s.m.get_mut(&k),
            };
            check!(r.is_some() == at.is_some(), "result", "{what} found: {}", r.is_some());
            if let (Some(r), Some(i)) = (r, at) {
                check!(*r == s.e[i].1, "result", "{what} is {r:?}");
                *r = v.clone();
                s.e[i].1 = v;
            }
        }
        17 => {
            what = format!("index_mut by {k:?}");
            let v = s.value();
            let m = &mut s.m;
            let r = catch_unwind(AssertUnwindSafe(|| m[&k] = v.clone()));
            check!(r.is_ok() == at.is_some(), "result", "{what}: panicked {}, present {}", r.is_err(), at.is_some());
            if let Some(i) = at {
                s.e[i].1 = v;
            }
        }
        18 => {
            let via = gen::pick(3);
            what = format!("through serde, route {via}");
            let v = Value::Mapping(s.m.clone());
            let r: Result<Mapping, String> = match via {
                0 => serde_yaml::to_value(&s.m)
                    .map_err(|e| e.to_string())
                    .and_then(|v| serde_yaml::from_value(v).map_err(|e| e.to_string())),
                1 => Mapping::deserialize(&v).map_err(|e| e.to_string()),
                _ => serde_yaml::to_string(&s.m)
                    .map_err(|e| e.to_string())
                    .and_then(|t| serde_yaml::from_str(&t).map_err(|e| e.to_string())),
            };
            match r {
                Ok(m) => s.m = m,
                Err(e) => ctx::violate("serde", || format!("{what} of {}: {e}", show(&s.e))),
            }
        }
        19 => {
            // Repeated keys are refused when read.
            let mut pairs: Vec<(Value, Value)> = s.e.iter().map(|(c, v)| (key(*c, 0), v.clone())).collect();
            let dup = at.is_some() && gen::chance(2, 3);
            what = format!("deserialize with repeated key: {dup}");
            if dup {
                let i = gen::idx(pairs.len() + 1);
                pairs.insert(i, (k, Value::Null));
            }
            let r = Mapping::deserialize(MapDeserializer::<_, serde_yaml::Error>::new(pairs.into_iter()));
            match r {
                Ok(m) if !dup => s.m = m,
                Ok(_) => ctx::violate("duplicate", || format!("a repeated key was accepted in {}", show(&s.e))),
                Err(e) => check!(dup && e.to_string().contains("duplicate entry"), "duplicate", "{what}: {e}"),
            }
        }
        20 => {
            what = "capacity".to_string();
            match gen::pick(3) {
                0 => s.m.reserve(gen::idx(200)),
                1 => s.m.shrink_to_fit(),
                _ => {
                    if gen::chance(1, 4) {
                        s.m.clear();
                        s.e.clear();
                    }
                }
            }
        }
        _ => {
            what = "relations".to_string();
            relations(s);
        }
    }
    s.compare(&what);
}

fn hash_of<H: BuildHasher>(b: &H, v: &Value) -> u64 {
    b.hash_one(v)
}

/// Equality, hash and order agree with each other and with the contents.
fn relations(s: &Sim) {
    // The same entries in another order, from other representations.
    let mut e: Vec<(usize, Value)> = s.e.clone();
    for i in (1..e.len()).rev() {
        e.swap(i, gen::idx(i + 1));
    }
    let rep = gen::pick(4);
    let mut same: Mapping = e.iter().map(|(c, v)| (key(*c, rep), respell(v))).collect();
    if gen::chance(1, 2) {
        let k = Value::from(777u64);
        same.insert(k.clone(), Value::Null);
        same.shift_remove(&k);
    }
    let (a, b) = (Value::Mapping(s.m.clone()), Value::Mapping(same.clone()));
    check!(a == b, "relation", "equal contents in another order are not equal: {}", show(&s.e));
    let rs = RandomState::new();
    check!(hash_of(&rs, &a) == hash_of(&rs, &b), "relation", "equal mappings hash differently: {}", show(&s.e));
    let h = |v: &Value| {
        let mut h = DefaultHasher::new();
        v.hash(&mut h);
        h.finish()
    };
    check!(h(&a) == h(&b), "relation", "equal mappings hash differently: {}", show(&s.e));
    check!(
        a.partial_cmp(&b) == Some(Ordering::Equal) && s.m.partial_cmp(&same) == Some(Ordering::Equal),
        "relation",
        "equal mappings compare as {:?}: {}",
        a.partial_cmp(&b),
        show(&s.e)
    );
    // One difference.
    let mut other = same.clone();
    let c = s.pool[gen::idx(s.pool.len())];
    match gen::pick(3) {
        0 => {
            other.insert(key(c, 0), Value::from("something else"));
        }
        1 => {
            if other.shift_remove(&key(c, 0)).is_none() {
                other.insert(key(c, 0), Value::Null);
            }
        }
        _ => {
            other.insert(Value::from("extra"), Value::Null);
        }
    }
    let d = Value::Mapping(other);
    check!(a != d && d != b, "relation", "different mappings are equal: {a:?} and {d:?}");
    check!(a.partial_cmp(&d) != Some(Ordering::Equal), "relation", "different mappings compare as equal: {a:?} and {d:?}");
    // Any three values: antisymmetry, transitivity, agreement with ==.
    let mut any = || -> Value {
        match gen::pick(6) {
            0 => a.clone(),
            1 => b.clone(),
            2 => d.clone(),
            3 => Value::Sequence(vec![key(gen::idx(CLASSES), gen::pick(4)), key(gen::idx(CLASSES), 0)]),
            _ => key(gen::idx(CLASSES), gen::pick(4)),
        }
    };
    let x = if gen::chance(1, 3) { compound(2) } else { any() };
    let y = if gen::chance(1, 3) { respell(&x) } else { any() };
    let z = if gen::chance(1, 4) { compound(1) } else { any() };
    let xy = x.partial_cmp(&y);
    check!(xy == y.partial_cmp(&x).map(Ordering::reverse), "relation", "{x:?} and {y:?} compare differently from either side");
    check!((xy == Some(Ordering::Equal)) == (x == y), "relation", "{x:?} and {y:?}: order says {xy:?}, equality {}", x == y);
    check!((x == y) == (canon(&x) == canon(&y)), "relation", "{x:?} and {y:?}: equality is {}", x == y);
    check!((x == y) == (y == x), "relation", "equality of {x:?} and {y:?} is not symmetric");
    if x == y {
        check!(h(&x) == h(&y), "relation", "{x:?} and {y:?} are equal and hash differently");
    }
    if let (Some(p), Some(q)) = (xy, y.partial_cmp(&z)) {
        if p == q || q == Ordering::Equal {
            check!(x.partial_cmp(&z) == Some(p), "relation", "order is not transitive: {x:?}, {y:?}, {z:?}");
        }
    }
    // As members of a hash set of the standard library.
    let mut set = std::collections::HashSet::new();
    let mut classes = std::collections::BTreeSet::new();
    for _ in 0..gen::idx(12) {
        let c = s.pool[gen::idx(s.pool.len())];
        let fresh = set.insert(key(c, gen::pick(4)));
        check!(fresh == classes.insert(c), "relation", "a hash set takes {:?} for new: {fresh}", key(c, 0));
    }
}
