//! C08: sessions are isolated: concurrent and nested use gives what each
//! session gives alone.

use super::util::*;
use super::Prop;
use crate::alloc::untracked;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, shared, Chop, ReadStats, SimReader, WritePlan};
use crate::model::{Model, ReadPlan, Reader};
use crate::node::{Doc, DocSer, Nester, Node, SerPlan};
use crate::sched::{self, Task};
use crate::targets::{failure, get, outcome, Outcome, Target};
use crate::typed::Big;
use serde::de::DeserializeSeed;
use serde::Deserialize;
use serde_yaml::{Deserializer, Serializer, Value};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::io::{Read, Write};
use std::sync::{Arc, Mutex};

pub static PROP: Prop = Prop {
    id: "C08",
    run,
    leaks: false,
    quick_runs: 45_000,
    rule: "one run = 2..4 tasks, each with 1..3 sessions (reading streams into drawn types, visitors that fail, \
           writing documents, converting and comparing a Value shared by all tasks), interleaved by a seeded \
           scheduler at every read, write, visitor and serializer callback; sessions may start another session from \
           inside such a callback; each result is compared with the same session run alone; non-trivial = at least \
           one task switch inside a session or one nested session; distinct = digest of the event sequence",
    state_measure: "hash of (kinds of sessions running together, number of switches)",
    real: REAL,
    stub: &["io::Read, io::Write, Visitor, Serialize implementations", "thread scheduler (baton passing over real threads)"],
    assumptions: &[
        "tasks hand over at the simulated seams and, in a third of the runs, inside the library where memory is \
         allocated or released or a lock of std is waited for; a race between two accesses with none of these between \
         them is not explored (the library has no shared mutable state today)",
    ],
};

#[derive(Clone, Debug)]
enum Session {
    /// Stream bytes, target, whether through a reader.
    Read(Arc<Vec<u8>>, Target, bool),
    Visit(Arc<Vec<u8>>, ReadPlan),
    Write(Arc<Vec<Doc>>, bool, Option<u64>),
    Shared(u8),
    /// to_string, to_value and back.
    Convert(Arc<Vec<Doc>>, u64),
    /// Derived types through every conversion.
    Typed(Arc<Big>),
}

type Nest<'a> = Option<&'a (dyn Fn() + Sync)>;

/// Runs another session at the n-th call.
struct NestIo<'a, T> {
    inner: T,
    at: u64,
    n: u64,
    nest: Nest<'a>,
}
impl<'a, T> NestIo<'a, T> {
    fn tick(&mut self) {
        if self.n == self.at {
            if let Some(f) = self.nest {
                ctx::fault("io:reentrant-session");
                f();
            }
        }
        self.n += 1;
    }
}
impl<'a, T: Read> Read for NestIo<'a, T> {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.read(b)
    }
}
impl<'a, T: Write> Write for NestIo<'a, T> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.tick();
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}

/// A stream that comes near one of the library's limits: alias repetition
/// (under and over), nesting depth, many anchors.
fn heavy() -> Vec<u8> {
    let mut s = String::new();
    match gen::pick(4) {
        0 | 1 => {
            // Each level repeats the one before.
            let (breadth, depth) = [(9, 3), (30, 2), (4, 4), (33, 3), (1000, 1)][gen::idx(5)];
            s.push_str("- &b0 [x]\n");
            for level in 1..=depth {
                s.push_str(&format!("- &b{level} ["));
                for i in 0..breadth {
                    s.push_str(if i == 0 { "" } else { ", " });
                    s.push_str(&format!("*b{}", level - 1));
                }
                s.push_str("]\n");
            }
            if breadth == 33 {
                s.push_str("- [*b3, *b3, *b3]\n");
            }
        }
        2 => {
            let depth = [20, 100, 125, 126, 127, 128, 129, 140][gen::idx(8)];
            if gen::chance(1, 3) {
                s.push_str("- &a 1\n- *a\n- ");
            }
            s.push_str(&"[".repeat(depth));
            s.push_str(&"]".repeat(depth));
            s.push('\n');
        }
        _ => {
            let n = 20 + gen::idx(300);
            for i in 0..n {
                s.push_str(&format!("- &n{i} {i}\n"));
            }
            for i in (0..n).rev().step_by(1 + gen::idx(4)) {
                s.push_str(&format!("- *n{i}\n"));
            }
        }
    }
    s.into_bytes()
}

/// A stream that keeps following aliases to its end.
fn followed() -> Vec<u8> {
    let mut s = String::new();
    for d in 0..gen::small(3) + 1 {
        if d > 0 {
            s.push_str("---\n");
        }
        s.push_str("- &a [p, {q: 1}]\n- &z last\n");
        for _ in 0..1 + gen::idx(12) {
            s.push_str(["- *a\n", "- *z\n", "- {k: *a}\n", "- word\n"][gen::idx(4)]);
        }
        s.push_str("- *z\n");
    }
    s.into_bytes()
}

impl Session {
    /// One that is likely to disturb others if anything is shared.
    fn draw_heavy() -> Session {
        gen::span(|| match gen::pick(3) {
            0 => Session::Read(Arc::new(heavy()), crate::targets::draw_target(), gen::chance(1, 2)),
            1 => Session::Visit(Arc::new(heavy()), ReadPlan::default()),
            _ => Session::Visit(
                Arc::new(heavy()),
                ReadPlan {
                    nest_at: Some(gen::small(200)),
                    fail_at: if gen::chance(1, 3) { Some(gen::small(200)) } else { None },
                    ..ReadPlan::default()
                },
            ),
        })
    }

    fn draw() -> Session {
        gen::span(|| match gen::pick(8) {
            6 => Session::Visit(
                Arc::new(followed()),
                ReadPlan {
                    yields: true,
                    nest_at: Some(gen::small(15)),
                    ..ReadPlan::default()
                },
            ),
            7 => {
                if gen::chance(1, 4) {
                    Session::draw_heavy()
                } else {
                    Session::Shared(gen::pick(6) as u8)
                }
            }
            4 => Session::Convert(
                Arc::new(small_docs()),
                if gen::chance(1, 2) { u64::MAX } else { gen::small(12) },
            ),
            5 => Session::Typed(Arc::new(crate::typed::big())),
            0 => Session::Read(Arc::new(stream(3, true).bytes), crate::targets::draw_target(), gen::chance(1, 2)),
            1 => Session::Visit(
                Arc::new(stream(3, true).bytes),
                ReadPlan {
                    fail_at: if gen::chance(1, 3) { Some(gen::small(20)) } else { None },
                    skips: if gen::chance(1, 3) { vec![true, false] } else { Vec::new() },
                    yields: true,
                    nest_at: if gen::chance(1, 2) { Some(gen::small(10)) } else { None },
                    ..ReadPlan::default()
                },
            ),
            2 => Session::Write(
                Arc::new(small_docs()),
                gen::chance(1, 2),
                if gen::chance(1, 4) { Some(gen::small(15)) } else { None },
            ),
            _ => Session::Shared(gen::pick(6) as u8),
        })
    }

    fn kind(&self) -> u64 {
        match self {
            Session::Read(..) => 1,
            Session::Visit(..) => 2,
            Session::Write(..) => 3,
            Session::Shared(..) => 4,
            Session::Convert(..) => 5,
            Session::Typed(..) => 6,
        }
    }

    /// Everything a caller can observe, as text. `simulated`: with yields,
    /// fragmentation and nesting.
    fn perform(&self, shared_value: &Value, simulated: bool, nest: Nest) -> Vec<String> {
        let show = |o: Outcome| format!("{o:?}");
        // The plans live no longer than this call.
        let nester = nest.filter(|_| simulated).map(|f| {
            Nester(unsafe { std::mem::transmute::<&(dyn Fn() + Sync), &'static (dyn Fn() + Sync)>(f) })
        });
        match self {
            Session::Read(b, t, reader) => {
                if simulated && *reader {
                    let stats = shared(ReadStats::default());
                    let rdr = NestIo {
                        inner: SimReader::new(Arc::clone(b), chop(), None, &stats),
                        at: 1,
                        n: 0,
                        nest,
                    };
                    outcomes(*t, Deserializer::from_reader(rdr), 8).into_iter().map(show).collect()
                } else {
                    let mut out = Vec::new();
                    for d in Deserializer::from_slice(b).take(8) {
                        if simulated {
                            sched::yield_point();
                        }
                        out.push(show(get(*t, d)));
                    }
                    out
                }
            }
            Session::Visit(b, p) => {
                let mut out = Vec::new();
                for d in Deserializer::from_slice(b).take(8) {
                    let p = if simulated {
                        p.clone()
                    } else {
                        ReadPlan {
                            yields: false,
                            nest_at: None,
                            ..p.clone()
                        }
                    };
                    let r = Reader::with_nest(p, nest.map(|f| Box::new(move || f()) as Box<dyn Fn()>));
                    out.push(show(outcome(r.deserialize(d))));
                }
                out
            }
            Session::Convert(docs, at) => {
                let plan = || SerPlan {
                    yields: simulated,
                    nest: nester.map(|f| (*at, f)),
                    ..SerPlan::default()
                };
                let mut out = Vec::new();
                for d in docs.iter() {
                    let text = serde_yaml::to_string(&DocSer(d, &plan()));
                    let value = serde_yaml::to_value(DocSer(d, &plan()));
                    if let Ok(t) = &text {
                        let r = Reader::new(ReadPlan { yields: simulated, ..ReadPlan::default() });
                        out.push(show(outcome(r.deserialize(Deserializer::from_str(t)))));
                    }
                    if let Ok(v) = &value {
                        out.push(format!("{:?}", serde_yaml::to_string(v).map_err(|e| failure(&e))));
                    }
                    out.push(format!("{:?}", text.map_err(|e| failure(&e))));
                    out.push(format!("{:?}", value.map_err(|e| failure(&e))));
                }
                out
            }
            Session::Typed(b) => {
                let step = || {
                    if simulated {
                        sched::yield_point();
                    }
                };
                let text = serde_yaml::to_string(&**b);
                step();
                let value = serde_yaml::to_value(&**b);
                step();
                let mut out = Vec::new();
                if let Ok(t) = &text {
                    out.push(format!("{:?}", serde_yaml::from_str::<Big>(t).map_err(|e| failure(&e))));
                    step();
                }
                if let Ok(v) = &value {
                    out.push(format!("{:?}", Big::deserialize(v).map_err(|e| failure(&e))));
                    step();
                }
                out.push(format!("{:?}", text.map_err(|e| failure(&e))));
                out.push(format!("{:?}", value.map_err(|e| failure(&e))));
                out
            }
            Session::Write(docs, per_doc, fail) => {
                let plan = |i: usize| SerPlan {
                    nest: nester.map(|f| (i as u64 * 3 + 1, f)),
                    fail_at: if i == docs.len() - 1 { *fail } else { None },
                    yields: simulated,
                    ..SerPlan::default()
                };
                let (w, sink) = writer(if simulated { WritePlan::chopped() } else { WritePlan::clean() });
                let mut w = NestIo {
                    inner: w,
                    at: 2,
                    n: 0,
                    nest: if simulated { nest } else { None },
                };
                let mut out = Vec::new();
                if *per_doc {
                    for (i, d) in docs.iter().enumerate() {
                        let r = serde_yaml::to_writer(&mut w, &DocSer(d, &plan(i)));
                        out.push(format!("{:?}", r.map_err(|e| failure(&e))));
                    }
                } else {
                    let mut ser = Serializer::new(&mut w);
                    for (i, d) in docs.iter().enumerate() {
                        let r = d.serialize(&plan(i), &mut ser).map(|_| ());
                        out.push(format!("{:?}", r.map_err(|e| failure(&e))));
                    }
                }
                out.push(format!("{:?}", String::from_utf8_lossy(&lock(&sink).bytes)));
                out
            }
            Session::Shared(k) => vec![match k {
                0 => serde_yaml::to_string(shared_value).unwrap_or_else(|e| e.to_string()),
                1 => show(outcome(Reader::new(ReadPlan { yields: simulated, ..ReadPlan::default() }).deserialize(shared_value))),
                2 => format!("{:?}", shared_value.clone() == *shared_value),
                3 => {
                    let mut h = DefaultHasher::new();
                    shared_value.hash(&mut h);
                    format!("{}", h.finish())
                }
                4 => format!("{:?}", serde_yaml::to_value(shared_value).map(|v| Model::from_value(&v)).map_err(|e| failure(&e))),
                _ => format!("{:?}", shared_value.partial_cmp(&Value::Null)),
            }],
        }
    }
}

fn small_docs() -> Vec<Doc> {
    gen::list(1, 3, |_| Doc {
        node: match gen::pick(4) {
            // A key displayed in pieces, in a map of one entry: looked at for
            // being a tag, with other sessions started meanwhile.
            0 => {
                let v = crate::node::node(1, true);
                let hint = gen::pick(4) as u8;
                let key = "session of its own".split_inclusive(' ').take(1 + gen::idx(4)).collect();
                Node::Map(vec![(Node::Shown(key), v)], hint, gen::pick(2) as u8)
            }
            _ => crate::node::node(2, true),
        },
        mode: crate::node::Mode::Plain,
    })
}

fn run() {
    let n_tasks = 2 + gen::idx(3);
    let tasks: Vec<Vec<Session>> = (0..n_tasks).map(|_| gen::list(1, 3, |_| Session::draw())).collect();
    let shared_value = {
        let st = stream(1, false);
        serde_yaml::from_slice::<Value>(&st.bytes).unwrap_or(Value::Null)
    };
    let nested: Option<Session> = gen::chance(1, 2).then(|| if gen::chance(1, 4) { Session::draw_heavy() } else { Session::draw() });
    for (i, t) in tasks.iter().enumerate() {
        for s in t {
            ctx::note(|| format!("task {i}: {:.300}", format!("{s:?}")));
        }
    }
    ctx::note(|| format!("nested: {:.300}", format!("{nested:?}")));
    // Each session alone.
    let alone: Vec<Vec<Vec<String>>> = tasks
        .iter()
        .map(|t| t.iter().map(|s| s.perform(&shared_value, false, None)).collect())
        .collect();
    let nested_alone = nested.as_ref().map(|s| s.perform(&shared_value, false, None));

    let bad = Mutex::new(Vec::<String>::new());
    let nest_fn = || {
        if let (Some(s), Some(want)) = (&nested, &nested_alone) {
            let got = s.perform(&shared_value, true, None);
            if got != *want {
                untracked(|| bad.lock().unwrap().push(format!("nested session {s:?}: {}", diff(&got, want))));
            }
        }
    };
    let nest_ref: &(dyn Fn() + Sync) = &nest_fn;
    let nest: Nest = nested.is_some().then_some(nest_ref);
    let report = {
        let mut v = Vec::new();
        for (i, sessions) in tasks.iter().enumerate() {
            let (alone, bad, shared_value) = (&alone[i], &bad, &shared_value);
            v.push(Task {
                name: "session",
                f: Box::new(move || {
                    for (s, want) in sessions.iter().zip(alone) {
                        let got = s.perform(shared_value, true, nest);
                        if got != *want {
                            untracked(|| bad.lock().unwrap().push(format!("task {i} {:.300}: {}", format!("{s:?}"), diff(&got, want))));
                        }
                    }
                }),
            });
        }
        sched::run(v)
    };
    for (i, p) in report.panics {
        let injected = p.downcast_ref::<crate::io::Injected>().is_some();
        ctx::violate("panic", || format!("task {i} panicked (injected: {injected}): {}", crate::runner::last_panic()));
    }
    check!(!report.deadlock, "deadlock", "the tasks block each other");
    let bad = bad.into_inner().unwrap();
    if let Some(b) = bad.first() {
        ctx::violate("interference", || b.clone());
    }
    if report.switches > 0 {
        ctx::nontrivial();
    }
    let kinds = tasks.iter().flatten().fold(0u64, |a, s| ctx::fold(a, s.kind()));
    ctx::state(ctx::fold(kinds, (report.switches + 1).ilog2() as u64));
}

fn diff(got: &[String], want: &[String]) -> String {
    for i in 0..got.len().max(want.len()) {
        let (g, w) = (got.get(i), want.get(i));
        if g != w {
            return format!("result {i}: together {:.300} alone {:.300}", format!("{g:?}"), format!("{w:?}"));
        }
    }
    String::new()
}
