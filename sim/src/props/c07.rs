//! C07: failures and panics of the user's own code are contained: reported
//! unchanged, nothing leaked, nothing damaged, the library usable afterwards.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, shared, Chop, Fault, FaultKind, Injected, ReadStats, SimReader, WritePlan};
use crate::model::{Model, ReadPlan, Reader, FAIL_MSG};
use crate::node::{Doc, DocSer, SerPlan, SER_FAIL};
use serde::de::DeserializeSeed;
use serde::Serialize;
use serde_yaml::{Deserializer, Serializer, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C07",
    run,
    leaks: true,
    quick_runs: 250_000,
    rule: "one run = 1..4 operations (reading one document or a stream, writing through to_writer or a Serializer \
           with writers of four sizes and alignments, to_value, from_value) in which the caller's code returns an \
           error or panics at a drawn callback, byte or flush (Visitor, Serialize, Display, Read, Write), followed by \
           a canary operation; a tracking allocator with red zones, poisoning and quarantine watches every block; \
           non-trivial = the failure fired; distinct = digest of the event sequence",
    state_measure: "hash of (operation, failure kind, position class, outcome)",
    real: REAL,
    stub: &["io::Read, io::Write, Visitor, Serialize implementations", "global allocator (checks, then forwards to the system's)"],
    assumptions: &[
        "panics unwind (as in the default profile); a caller that leaks through mem::forget is out of scope",
        "a Serializer whose caller failed in the middle of a document has no defined output afterwards, only defined behaviour",
    ],
};

fn run() {
    let n = gen::range(1, 4);
    for _ in 0..n {
        gen::span(|| match gen::pick(6) {
            0 => read_doc(),
            1 => read_stream(),
            2 => match gen::pick(4) {
                0 => write_serializer::<Thin>(),
                1 => write_serializer::<Aligned>(),
                2 => write_serializer::<Fat>(),
                _ => write_serializer::<crate::io::SimWriter>(),
            },
            3 => write_one(),
            4 => values(),
            _ => shown(),
        });
        if ctx::violated() {
            return;
        }
        canary();
    }
}

/// The library still works.
fn canary() {
    let text = "a: &x [1, two, !T {b: ~}]\nc: *x\n";
    let want = "Map([(Str(\"a\"), Seq([Int(false, 1), Str(\"two\"), Tagged(\"T\", Map([(Str(\"b\"), Null)]))])), (Str(\"c\"), Seq([Int(false, 1), Str(\"two\"), Tagged(\"T\", Map([(Str(\"b\"), Null)]))]))])";
    let m: Result<Model, _> = serde_yaml::from_str(text);
    let got = m.map(|m| format!("{m:?}")).unwrap_or_else(|e| e.to_string());
    check!(got == want, "canary", "after the failure the library reads {got}");
    let v: Value = match serde_yaml::from_str(text) {
        Ok(v) => v,
        Err(e) => return ctx::violate("canary", || format!("after the failure: {e}")),
    };
    let out = serde_yaml::to_string(&v).unwrap_or_else(|e| e.to_string());
    let want = "a:\n- 1\n- two\n- !T\n  b: null\nc:\n- 1\n- two\n- !T\n  b: null\n";
    check!(out == want, "canary", "after the failure the library writes {out:?}");
}

/// What the failure is and how it must come out.
#[derive(Debug, Clone, Copy, PartialEq)]
enum What {
    Error(u64),
    Panic(u64),
    Nothing,
}

fn what(max: u64) -> What {
    match gen::pick(5) {
        0 => What::Nothing,
        1 | 2 => What::Error(gen::small(max)),
        _ => What::Panic(gen::small(max)),
    }
}

fn plan(w: What) -> ReadPlan {
    ReadPlan {
        fail_at: if let What::Error(n) = w { Some(n) } else { None },
        panic_at: if let What::Panic(n) = w { Some(n) } else { None },
        skips: if gen::chance(1, 4) { vec![false, true, false] } else { Vec::new() },
        ..ReadPlan::default()
    }
}

/// Runs `f`; a panic must be the injected one with this id.
fn guarded<T>(id: Option<u64>, what: &str, f: impl FnOnce() -> T) -> Option<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(p) => {
            match p.downcast_ref::<Injected>() {
                Some(Injected(n)) => {
                    check!(Some(*n) == id, "wrong-panic", "{what}: the panic that arrived is #{n}, not {id:?}");
                }
                None => ctx::violate("panic", || format!("{what}: the library panicked: {}", crate::runner::last_panic())),
            }
            None
        }
    }
}

/// One document, with the failure in the visitor or in the reader.
fn read_doc() {
    let st = stream(1, true);
    let data = Arc::new(st.bytes);
    let w = what(40);
    let p = plan(w);
    let io_panic = gen::chance(1, 4);
    let fault = io_panic.then(|| Fault {
        at: offset(data.len()),
        kind: FaultKind::Panic(9001),
        sticky: false,
    });
    let chop = if gen::chance(1, 2) { chop() } else { Chop::whole() };
    ctx::note(|| format!("read one document ({}) {w:?}, reader panics: {fault:?}: {}", st.what, clip(&data)));
    let route = if io_panic { 2 } else { gen::pick(3) };
    let reference = {
        let r = Reader::new(ReadPlan {
            fail_at: None,
            panic_at: None,
            ..p.clone()
        });
        r.deserialize(Deserializer::from_slice(&data))
    };
    let reader = Reader::new(p);
    let c = reader.c.clone();
    let stats = shared(ReadStats::default());
    let id = if io_panic {
        Some(9001)
    } else if let What::Panic(n) = w {
        Some(n)
    } else {
        None
    };
    let r = guarded(id, "read", || match route {
        0 => reader.deserialize(Deserializer::from_slice(&data)),
        1 => match std::str::from_utf8(&data) {
            Ok(s) => reader.deserialize(Deserializer::from_str(s)),
            Err(_) => reader.deserialize(Deserializer::from_slice(&data)),
        },
        _ => reader.deserialize(Deserializer::from_reader(SimReader::new(Arc::clone(&data), chop, fault, &stats))),
    });
    if route == 2 {
        let s = lock(&stats);
        check!(s.drops == 1, "drops", "the reader was dropped {} times", s.drops);
        if io_panic {
            check!(r.is_none(), "swallowed", "the reader panicked, the result is {:?}", r.as_ref().map(|r| r.is_ok()));
        }
    }
    let fired = c.fired.get();
    match (&r, w) {
        (None, _) => {}
        (Some(Ok(m)), _) if fired => ctx::violate("swallowed", || format!("the visitor failed ({w:?}), the result is Ok({m:?})")),
        (Some(Err(e)), What::Error(n)) if fired => {
            let want = format!("{FAIL_MSG}{n}");
            check!(e.to_string().contains(&want), "message", "the caller's message {want:?} became {:?}", e.to_string());
        }
        (Some(r), _) if !fired => {
            // The failure was beyond the end: the ordinary result.
            let a = crate::targets::outcome(r.as_ref().map_err(clone_err).cloned_ok());
            let b = crate::targets::outcome(reference.as_ref().map_err(clone_err).cloned_ok());
            check!(a == b, "differs", "without a failure: {} versus {}", a.brief(), b.brief());
        }
        _ => {}
    }
    ctx::state(ctx::fold(route, ctx::hash_bytes(format!("{w:?}{fired}{}", r.is_some()).as_bytes())));
}

fn clone_err(e: &serde_yaml::Error) -> serde_yaml::Error {
    serde::de::Error::custom(e.to_string())
}

trait ClonedOk {
    fn cloned_ok(self) -> Result<Model, serde_yaml::Error>;
}
impl ClonedOk for Result<&Model, serde_yaml::Error> {
    fn cloned_ok(self) -> Result<Model, serde_yaml::Error> {
        self.cloned()
    }
}

/// A stream: the consumer of some documents fails, the others are unharmed.
fn read_stream() {
    let docs = docs(1, 5);
    let bytes = match in_memory(&docs) {
        Ok(b) => Arc::new(b),
        Err(_) => return,
    };
    note_docs(&docs);
    let stats = shared(ReadStats::default());
    let from_reader = gen::chance(1, 2);
    let mut it = if from_reader {
        Deserializer::from_reader(SimReader::new(Arc::clone(&bytes), chop(), None, &stats))
    } else {
        Deserializer::from_slice(&bytes)
    };
    let mut held = Vec::new();
    let mut i = 0;
    loop {
        // Pull one or more, then consume one or more.
        match it.next() {
            Some(d) => held.push((i, d)),
            None => break,
        }
        i += 1;
        if i > docs.len() {
            ctx::violate("extra-document", || format!("more than {} documents", docs.len()));
            return;
        }
        while !held.is_empty() && gen::chance(2, 3) {
            let k = gen::idx(held.len());
            let (n, d) = held.remove(k);
            consume(n, d, &docs);
        }
    }
    check!(i == docs.len(), "lost-document", "{i} of {} documents came", docs.len());
    drop(it);
    for (n, d) in held {
        consume(n, d, &docs);
    }
    if from_reader {
        let s = lock(&stats);
        check!(s.drops == 1, "drops", "the reader was dropped {} times", s.drops);
    }
}

fn consume(n: usize, d: Deserializer, docs: &[Doc]) {
    let w = what(30);
    let mut p = plan(w);
    p.skips.clear();
    let reader = Reader::new(p);
    let c = reader.c.clone();
    let id = if let What::Panic(k) = w { Some(k) } else { None };
    let r = guarded(id, "stream document", || reader.deserialize(d));
    match r {
        None => {}
        Some(Ok(m)) => {
            let want = docs[n].model();
            check!(!c.fired.get(), "swallowed", "document {n}: the visitor failed ({w:?}), the result is Ok");
            check!(m == want, "content", "document {n} next to failing consumers: {m:?} instead of {want:?}");
        }
        Some(Err(e)) => {
            let want = match w {
                What::Error(k) if c.fired.get() => format!("{FAIL_MSG}{k}"),
                _ => {
                    ctx::violate("spurious-error", || format!("document {n}: {e}"));
                    return;
                }
            };
            check!(e.to_string().contains(&want), "message", "the caller's message {want:?} became {:?}", e.to_string());
        }
    }
}

fn ser_plan(w: What) -> SerPlan {
    SerPlan {
        fail_at: if let What::Error(n) = w { Some(n) } else { None },
        panic_at: if let What::Panic(n) = w { Some(n) } else { None },
        ..SerPlan::default()
    }
}

fn ser_fired(p: &SerPlan, w: What) -> bool {
    match w {
        What::Error(n) | What::Panic(n) => p.calls.load(Relaxed) > n,
        What::Nothing => false,
    }
}

/// A Serializer that survives the failures of its callers, or is dropped in
/// the middle, or gives its writer back.
fn write_serializer<W: Wrap>() {
    let docs = docs(1, 4);
    let mut io_plan = WritePlan {
        chop: if gen::chance(1, 2) { Chop::draw(true) } else { Chop::whole() },
        ..WritePlan::clean()
    };
    let total: usize = in_memory(&docs).map_or(0, |b| b.len());
    let io_panics = gen::chance(1, 3);
    if io_panics {
        if gen::chance(1, 3) {
            io_plan.flush_panic = Some((gen::pick(2), 9002));
        } else {
            io_plan.fault = Some(Fault {
                at: offset(total),
                kind: FaultKind::Panic(9002),
                sticky: gen::chance(1, 2),
            });
        }
    }
    ctx::note(|| format!("Serializer<{}> with {io_plan:?}", std::any::type_name::<W>()));
    note_docs(&docs);
    let (w, sink) = writer(io_plan);
    let mut ser = Some(Serializer::new(W::wrap(w)));
    let mut failed = false;
    let mut written = Vec::new();
    for d in &docs {
        let w = if gen::chance(1, 2) { what(20) } else { What::Nothing };
        let p = ser_plan(w);
        let before = lock(&sink).faults_fired;
        let s = ser.as_mut().unwrap();
        let id = match w {
            What::Panic(n) if !io_panics => Some(n),
            _ => None,
        };
        // With both armed, either panic is the right one.
        let r = catch_unwind(AssertUnwindSafe(|| d.serialize(&p, &mut *s).map(|_| ())));
        let io_fired = lock(&sink).faults_fired > before;
        match r {
            Err(payload) => {
                let ok = match payload.downcast_ref::<Injected>() {
                    Some(Injected(9002)) => io_fired,
                    Some(Injected(n)) => w == What::Panic(*n) && ser_fired(&p, w),
                    None => false,
                };
                check!(
                    ok,
                    "panic",
                    "serialize ({w:?}, {id:?}): an unexpected panic arrived: {:?} {}",
                    payload.downcast_ref::<Injected>(),
                    crate::runner::last_panic()
                );
                failed = true;
            }
            Ok(Err(e)) => {
                if !failed {
                    let want = match w {
                        What::Error(n) if ser_fired(&p, w) => format!("{SER_FAIL}{n}"),
                        _ => {
                            ctx::violate("spurious-error", || format!("{e}"));
                            return;
                        }
                    };
                    check!(e.to_string() == want, "message", "the caller's message {want:?} became {:?}", e.to_string());
                }
                failed = true;
            }
            Ok(Ok(())) => {
                check!(
                    failed || !ser_fired(&p, w),
                    "swallowed",
                    "the caller's Serialize failed ({w:?}), the result is Ok"
                );
                check!(!io_fired, "swallowed", "the writer panicked, the result is Ok");
                if !failed {
                    written.push(d);
                }
            }
        }
        if failed && gen::chance(1, 2) {
            break;
        }
        if gen::chance(1, 4) {
            let s = ser.as_mut().unwrap();
            let r = guarded(io_panics.then_some(9002), "flush", || s.flush());
            match r {
                None => failed = true,
                Some(Err(e)) => {
                    check!(failed, "spurious-error", "flush: {e}");
                    failed = true;
                }
                Some(Ok(())) => {}
            }
        }
    }
    let s = ser.take().unwrap();
    if gen::chance(1, 2) {
        let r = guarded(io_panics.then_some(9002), "into_inner", move || s.into_inner());
        match r {
            None => {}
            Some(Err(e)) => check!(failed, "spurious-error", "into_inner: {e}"),
            Some(Ok(w)) => {
                check!(lock(&sink).drops == 0, "drops", "into_inner dropped the writer it returned");
                match w.unwrap() {
                    Some(w) => check!(w.id == 1, "wrong-writer", "into_inner returned writer {}", w.id),
                    None => ctx::violate("wrong-writer", || "into_inner returned a damaged writer".to_string()),
                }
            }
        }
    } else {
        guarded(None, "drop", move || drop(s));
    }
    let s = lock(&sink);
    check!(s.drops == 1, "drops", "the writer was dropped {} times", s.drops);
    // The documents that were finished before the first failure are there.
    if s.faults_fired == 0 {
        let want: Vec<Doc> = written.into_iter().cloned().collect();
        let bytes = in_memory(&want).unwrap_or_default();
        check!(
            s.bytes.starts_with(&bytes),
            "lost",
            "the output no longer starts with the {} documents finished before the failure: differs at byte {}",
            want.len(),
            first_diff(&s.bytes, &bytes)
        );
    }
    ctx::state(ctx::fold(failed as u64, s.bytes.len() as u64 / 64));
}

/// to_writer / to_string / to_value with a failing Serialize.
fn write_one() {
    let d = Doc::draw();
    let w = what(30);
    let p = ser_plan(w);
    ctx::note(|| format!("write one {w:?}: {:.300}", format!("{d:?}")));
    let id = if let What::Panic(n) = w { Some(n) } else { None };
    let route = gen::pick(3);
    let (io, sink) = writer(WritePlan::chopped());
    let r = guarded(id, "write", || match route {
        0 => serde_yaml::to_writer(io, &DocSer(&d, &p)),
        1 => {
            drop(io);
            serde_yaml::to_string(&DocSer(&d, &p)).map(|_| ())
        }
        _ => {
            drop(io);
            serde_yaml::to_value(DocSer(&d, &p)).map(|_| ())
        }
    });
    let fired = ser_fired(&p, w);
    match r {
        None => {}
        Some(Ok(())) => check!(!fired, "swallowed", "the caller's Serialize failed ({w:?}), the result is Ok"),
        Some(Err(e)) => match w {
            What::Error(n) if fired => {
                let want = format!("{SER_FAIL}{n}");
                check!(e.to_string() == want, "message", "the caller's message {want:?} became {:?}", e.to_string());
            }
            // Not everything fits into a Value (integers beyond 64 bits).
            _ => check!(route == 2, "spurious-error", "{e}"),
        },
    }
    let s = lock(&sink);
    check!(s.drops == 1, "drops", "the writer was dropped {} times", s.drops);
    ctx::state(ctx::fold(route, ctx::hash_bytes(format!("{w:?}{fired}").as_bytes())));
}

/// from_value and &Value as deserializers under failing visitors; the value
/// lent out is unharmed.
fn values() {
    let st = stream(1, false);
    let v: Value = match serde_yaml::from_slice(&st.bytes) {
        Ok(v) => v,
        Err(_) => return,
    };
    let before = Model::from_value(&v);
    let w = what(30);
    let mut p = plan(w);
    p.skips.clear();
    let reader = Reader::new(p);
    let c = reader.c.clone();
    let id = if let What::Panic(n) = w { Some(n) } else { None };
    let by_ref = gen::chance(1, 2);
    ctx::note(|| format!("Value (by reference: {by_ref}) {w:?}: {:.300}", format!("{v:?}")));
    let r = if by_ref {
        let r = guarded(id, "&Value", || reader.deserialize(&v));
        let after = Model::from_value(&v);
        check!(before == after, "damaged", "a Value lent to a failing visitor changed from {before:?} to {after:?}");
        r
    } else {
        let v = v.clone();
        guarded(id, "Value", || reader.deserialize(v))
    };
    match r {
        None => {}
        Some(Ok(m)) => {
            check!(!c.fired.get(), "swallowed", "the visitor failed ({w:?}), the result is Ok");
            check!(m == before, "content", "deserializing from a Value: {m:?} instead of {before:?}");
        }
        Some(Err(e)) => match w {
            What::Error(n) if c.fired.get() => {
                let want = format!("{FAIL_MSG}{n}");
                check!(e.to_string().contains(&want), "message", "the caller's message {want:?} became {:?}", e.to_string());
            }
            _ => ctx::violate("spurious-error", || format!("{e}")),
        },
    }
}

struct PanickingDisplay(u64, String);
impl std::fmt::Display for PanickingDisplay {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        for (i, c) in self.1.chars().enumerate() {
            if i as u64 == self.0 {
                ctx::fault("display:panic");
                std::panic::panic_any(Injected(9003));
            }
            std::fmt::Write::write_char(f, c)?;
        }
        Ok(())
    }
}
impl Serialize for PanickingDisplay {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.collect_str(self)
    }
}

/// A Display implementation that panics half way through, as a value and as
/// a key (which takes the tag-detection path).
fn shown() {
    let at = gen::small(12);
    let text = crate::node::string();
    let expect = (text.chars().count() as u64) > at;
    let as_key = gen::chance(1, 2);
    let to_value = gen::chance(1, 3);
    let r = guarded(Some(9003), "Display", || {
        let d = PanickingDisplay(at, text.clone());
        let u = PanickingDisplay(u64::MAX, "k".into());
        struct Pair(PanickingDisplay, PanickingDisplay);
        impl Serialize for Pair {
            fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
                s.collect_map([(&self.0, &self.1)])
            }
        }
        let v = if as_key { Pair(d, u) } else { Pair(u, d) };
        if to_value {
            serde_yaml::to_value(&v).map(|_| ())
        } else {
            serde_yaml::to_string(&v).map(|_| ())
        }
    });
    match r {
        None => check!(expect, "panic", "a panic without a reason"),
        Some(r) => check!(!expect, "swallowed", "Display panicked, the result is {r:?}"),
    }
}
