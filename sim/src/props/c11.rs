//! Documents handed along chains of processes joined by pipes.

use super::util::*;
use super::Prop;
use crate::alloc::untracked;
use crate::check;
use crate::ctx;
use crate::forms;
use crate::gen;
use crate::io::{lock, pipe, Chop, PipeReader, PipeState, PipeWriter, Shared};
use crate::model::{Model, ReadPlan, Reader};
use crate::node::{self, Doc, SerPlan};
use crate::sched::{self, Task};
use crate::typed::{self, Big, Transcoder};
use serde::de::{Deserialize, DeserializeSeed};
use serde::Serialize;
use serde_yaml::{Deserializer, Serializer, Value};
use std::io::{BufReader, BufWriter, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

pub static PROP: Prop = Prop {
    id: "C11",
    run,
    leaks: false,
    quick_runs: 40_000,
    rule: "one run = 1..3 chains; in each a producer writes 0..6 documents (arbitrary ones, or records that use all of \
           serde's data model) into a bounded pipe, 0..2 relays pass them on (as a Value, as the typed record, through \
           from_value/to_value, or streaming from deserializer to serializer) and a consumer reads them, all interleaved \
           by a seeded scheduler with fragmentation, EINTR, backpressure, crashes of a producer or relay between or \
           inside documents, and readers that disappear; non-trivial = a fault or a task switch; distinct = digest of \
           the event sequence",
    state_measure: "hash of (per chain: kind of content, relay modes, pipe size class, crash kind, documents delivered)",
    real: REAL,
    stub: &[
        "pipes between the processes",
        "scheduler (baton passing over real threads)",
        "Serialize/Visitor implementations of the generated documents (the records use derived code)",
    ],
    assumptions: &[
        "integers beyond 64 bits are not sent through a Value (it refuses them); f32 values are compared as typed data \
         only",
        "a process crash loses everything it has not written; bytes already in a pipe survive it",
    ],
};

enum Cargo {
    Docs(Vec<Doc>),
    Bigs(Vec<Big>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How {
    Value,
    /// Documents: Reader to Model to Value. Records: typed.
    Typed,
    /// Records: Value, from_value, to_value.
    Convert,
    Transcode,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Crash {
    No,
    /// After so many documents, at a document boundary.
    Between(usize),
    /// Inside document n, at that callback (documents) of the serialization.
    Inside(usize, u64),
}

#[derive(Clone, Debug)]
struct StagePlan {
    how: How,
    crash: Crash,
    /// BufWriter capacity and an explicit flush after each document.
    buffered: Option<usize>,
    /// The writer is given back with into_inner rather than dropped.
    into_inner: bool,
}

#[derive(Clone, Debug)]
struct LinkPlan {
    cap: usize,
    die_after: Option<usize>,
    buf_reader: Option<usize>,
}

struct Chain {
    cargo: Cargo,
    stages: Vec<StagePlan>,
    links: Vec<LinkPlan>,
    consume: How,
    total: usize,
}

#[derive(Clone, Debug, PartialEq)]
enum End {
    /// Everything it got was passed on.
    Complete(usize),
    Crashed(usize),
    ReadError(usize, String),
    WriteError(usize, String),
}

#[derive(Clone, Debug)]
enum Item {
    Doc(Model),
    Big(Box<Big>),
    /// Read, but not as the record it should be.
    Bad(String),
}

/// What one process did, as it saw it.
#[derive(Default)]
struct Log {
    end: Option<End>,
    /// What it read, in order (a transcoder never holds what it reads).
    items: Vec<Item>,
    unseen: bool,
    pipe: Option<Shared<PipeState>>,
}

fn stage_plan(first: bool, n: usize, docs: bool) -> StagePlan {
    StagePlan {
        how: *gen::one(&[How::Value, How::Typed, How::Convert, How::Transcode]),
        crash: match gen::weighted(&[8, 2, if first && docs { 2 } else { 0 }]) {
            0 => Crash::No,
            1 => Crash::Between(gen::idx(n + 1)),
            _ => Crash::Inside(gen::idx(n.max(1)), gen::small(20)),
        },
        buffered: gen::chance(1, 3).then(|| *gen::one(&[1usize, 16, 100, 8192, 70_000])),
        into_inner: gen::chance(1, 3),
    }
}

impl Chain {
    fn draw() -> Chain {
        gen::span(|| {
            let docs = gen::chance(1, 2);
            let relays = gen::weighted(&[3, 3, 1]);
            let mut cargo = if docs {
                Cargo::Docs(Doc::several(0, 6))
            } else {
                Cargo::Bigs(gen::list(0, 4, |_| typed::big()))
            };
            let n = match &cargo {
                Cargo::Docs(d) => d.len(),
                Cargo::Bigs(d) => d.len(),
            };
            let mut stages: Vec<StagePlan> = (0..=relays).map(|i| stage_plan(i == 0, n, docs)).collect();
            let consume = *gen::one(&[How::Value, How::Typed, How::Convert]);
            if let Cargo::Docs(d) = &mut cargo {
                // What a Value cannot hold cannot pass through one.
                // (A transcoder uses one below tags.)
                let no_value = consume == How::Typed && stages[1..].iter().all(|s| s.how == How::Transcode);
                d.retain(|d| {
                    let m = d.model();
                    let fits = m.to_value().map_or(false, |v| Model::from_value(&v) == m);
                    fits || no_value && (relays == 0 || !format!("{m:?}").contains("Tagged"))
                });
            }
            let total: usize = match &cargo {
                Cargo::Docs(d) => in_memory(d).map_or(0, |b| b.len()),
                Cargo::Bigs(b) => b.iter().map(|b| serde_yaml::to_string(b).map_or(0, |s| s.len())).sum(),
            };
            for s in &mut stages {
                if let Some(b) = &mut s.buffered {
                    *b = (*b).max(total / 300);
                }
            }
            let links = (0..=relays)
                .map(|_| LinkPlan {
                    cap: (*gen::one(&[1usize, 2, 7, 64, 1000, 4096, 65536])).max(total / 300),
                    die_after: gen::chance(1, 10).then(|| offset(total)),
                    buf_reader: gen::chance(1, 4).then(|| *gen::one(&[1usize, 10, 8192])),
                })
                .collect();
            Chain { cargo, stages, links, consume, total }
        })
    }

    fn len(&self) -> usize {
        match &self.cargo {
            Cargo::Docs(d) => d.len(),
            Cargo::Bigs(b) => b.len(),
        }
    }

    fn chop(&self) -> Chop {
        if self.total > 5000 {
            Chop::whole()
        } else {
            Chop::draw(true)
        }
    }
}

/// Why a stage stopped writing.
enum Stop {
    Write(String),
    Read(String),
    Crash,
}

/// Hands documents to `write` through whatever writer the plan asks for.
fn with_serializer(plan: &StagePlan, w: PipeWriter, write: impl FnOnce(&mut dyn Out) -> Result<usize, (usize, Stop)>) -> End {
    struct Plain(Serializer<PipeWriter>);
    struct Buf(Serializer<BufWriter<PipeWriter>>);
    impl Out for Plain {
        fn put(&mut self, d: &dyn erased::Erased) -> Result<(), serde_yaml::Error> {
            d.go(&mut Either::Plain(&mut self.0))
        }
        fn flush(&mut self) -> Result<(), serde_yaml::Error> {
            self.0.flush()
        }
    }
    impl Out for Buf {
        fn put(&mut self, d: &dyn erased::Erased) -> Result<(), serde_yaml::Error> {
            d.go(&mut Either::Buf(&mut self.0))
        }
        fn flush(&mut self) -> Result<(), serde_yaml::Error> {
            self.0.flush()
        }
    }
    let end = |r: Result<usize, (usize, Stop)>| match r {
        Ok(n) => End::Complete(n),
        Err((n, Stop::Write(e))) => End::WriteError(n, e),
        Err((n, Stop::Read(e))) => End::ReadError(n, e),
        Err((n, Stop::Crash)) => End::Crashed(n),
    };
    match plan.buffered {
        None => {
            let mut p = Plain(Serializer::new(w));
            let e = end(write(&mut p));
            if plan.into_inner && matches!(e, End::Complete(_)) {
                match p.0.into_inner() {
                    Ok(mut w) => {
                        let _ = w.flush();
                    }
                    Err(x) => return End::WriteError(0, x.to_string()),
                }
            }
            e
        }
        Some(cap) => {
            let mut p = Buf(Serializer::new(BufWriter::with_capacity(cap, w)));
            let e = end(write(&mut p));
            match p.0.into_inner() {
                Ok(b) => {
                    // A process that dies loses what it had buffered.
                    let (w, _lost) = b.into_parts();
                    drop(w);
                }
                Err(x) => {
                    if matches!(e, End::Complete(_)) {
                        return End::WriteError(0, x.to_string());
                    }
                }
            }
            e
        }
    }
}

enum Either<'a> {
    Plain(&'a mut Serializer<PipeWriter>),
    Buf(&'a mut Serializer<BufWriter<PipeWriter>>),
}

trait Out {
    fn put(&mut self, d: &dyn erased::Erased) -> Result<(), serde_yaml::Error>;
    fn flush(&mut self) -> Result<(), serde_yaml::Error>;
}

mod erased {
    use super::Either;
    pub trait Erased {
        fn go(&self, e: &mut Either) -> Result<(), serde_yaml::Error>;
    }
    impl<T: serde::Serialize> Erased for T {
        fn go(&self, e: &mut Either) -> Result<(), serde_yaml::Error> {
            match e {
                Either::Plain(s) => self.serialize(&mut **s),
                Either::Buf(s) => self.serialize(&mut **s),
            }
        }
    }
}

struct WithPlan<'a>(&'a Doc, &'a SerPlan);
impl<'a> Serialize for WithPlan<'a> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        self.0.serialize(self.1, s)
    }
}

fn push(plan: &StagePlan, out: &mut dyn Out, i: usize, d: &dyn erased::Erased) -> Result<(), (usize, Stop)> {
    if plan.crash == Crash::Between(i) {
        ctx::fault("crash:between-documents");
        return Err((i, Stop::Crash));
    }
    out.put(d).map_err(|e| (i, Stop::Write(e.to_string())))?;
    if plan.buffered.is_some() {
        out.flush().map_err(|e| (i, Stop::Write(e.to_string())))?;
    }
    sched::yield_point();
    Ok(())
}

fn produce(chain: &Chain, w: PipeWriter) -> End {
    let plan = &chain.stages[0];
    let panic_plan = |i: usize| match plan.crash {
        Crash::Inside(n, at) if n == i => SerPlan {
            panic_at: Some(at),
            ..SerPlan::default()
        },
        _ => SerPlan::default(),
    };
    let done = std::cell::Cell::new(0);
    let r = catch_unwind(AssertUnwindSafe(|| {
        with_serializer(plan, w, |out| {
            let n = chain.len();
            for i in 0..n {
                match &chain.cargo {
                    Cargo::Docs(d) => push(plan, out, i, &WithPlan(&d[i], &panic_plan(i)))?,
                    Cargo::Bigs(b) => push(plan, out, i, &b[i])?,
                }
                done.set(i + 1);
            }
            Ok(n)
        })
    }));
    match r {
        Ok(e) => e,
        Err(p) if p.is::<crate::io::Injected>() => End::Crashed(done.get()),
        Err(p) => sched::rethrow(p),
    }
}

fn reader(r: PipeReader, plan: &LinkPlan) -> Box<dyn Read> {
    match plan.buf_reader {
        Some(n) => Box::new(BufReader::with_capacity(n, r)),
        None => Box::new(r),
    }
}

fn record(log: &Mutex<Log>, item: Item) {
    untracked(|| log.lock().unwrap().items.push(item));
}

fn big_of(v: &Value) -> Item {
    match Big::deserialize(v) {
        Ok(b) => Item::Big(Box::new(b)),
        Err(e) => Item::Bad(e.to_string()),
    }
}

fn relay(chain: &Chain, at: usize, r: PipeReader, w: PipeWriter, log: &Mutex<Log>) -> End {
    let plan = &chain.stages[at];
    with_serializer(plan, w, |out| {
        let mut n = 0;
        let de = Deserializer::from_reader(reader(r, &chain.links[at - 1]));
        for d in de {
            let bad = |e: serde_yaml::Error| (n, Stop::Read(e.to_string()));
            match (&chain.cargo, plan.how) {
                (_, How::Transcode) => {
                    // One call both reads and writes.
                    log.lock().unwrap().unseen = true;
                    push(plan, out, n, &Transcoder::new(d))?
                }
                (Cargo::Docs(_), How::Typed | How::Convert) => {
                    let m = Reader::new(ReadPlan::default()).deserialize(d).map_err(bad)?;
                    let v = m.to_value().ok_or((n, Stop::Read("model cannot be a Value".to_string())))?;
                    record(log, Item::Doc(m));
                    push(plan, out, n, &v)?
                }
                (Cargo::Docs(_), How::Value) => {
                    let v = Value::deserialize(d).map_err(bad)?;
                    record(log, Item::Doc(Model::from_value(&v)));
                    push(plan, out, n, &v)?
                }
                (Cargo::Bigs(_), How::Typed) => {
                    let b = Big::deserialize(d).map_err(bad)?;
                    record(log, Item::Big(Box::new(b.clone())));
                    push(plan, out, n, &b)?
                }
                (Cargo::Bigs(_), How::Convert) => {
                    let v = Value::deserialize(d).map_err(bad)?;
                    let b: Big = serde_yaml::from_value(v).map_err(bad)?;
                    let v = serde_yaml::to_value(&b).map_err(bad)?;
                    record(log, Item::Big(Box::new(b)));
                    push(plan, out, n, &v)?
                }
                (Cargo::Bigs(_), How::Value) => {
                    let v = Value::deserialize(d).map_err(bad)?;
                    record(log, big_of(&v));
                    push(plan, out, n, &v)?
                }
            }
            n += 1;
        }
        Ok(n)
    })
}

fn consume(chain: &Chain, r: PipeReader, log: &Mutex<Log>) -> End {
    let last = chain.links.len() - 1;
    let mut n = 0;
    for d in Deserializer::from_reader(reader(r, &chain.links[last])) {
        let item = match &chain.cargo {
            Cargo::Docs(_) => match chain.consume {
                How::Value => Value::deserialize(d).map(|v| Model::from_value(&v)),
                How::Convert => Value::deserialize(d).and_then(|v| Reader::new(ReadPlan::default()).deserialize(v)),
                _ => Reader::new(ReadPlan::default()).deserialize(d),
            }
            .map(Item::Doc),
            Cargo::Bigs(_) => match chain.consume {
                How::Value => Value::deserialize(d).and_then(|v| Big::deserialize(&v)),
                How::Convert => Value::deserialize(d).and_then(serde_yaml::from_value),
                _ => Big::deserialize(d),
            }
            .map(|b| Item::Big(Box::new(b))),
        };
        match item {
            Ok(i) => record(log, i),
            Err(e) => return End::ReadError(n, e.to_string()),
        }
        n += 1;
        sched::yield_point();
        if n > chain.len() + 4 {
            return End::ReadError(n, "too many documents".to_string());
        }
    }
    End::Complete(n)
}

/// A Value and its text, asked for in all kinds of forms.
fn in_forms() {
    for _ in 0..1 + gen::pick(6) {
        let m = node::value_model(1 + gen::idx(3));
        let v = m.to_value().unwrap();
        let text = match serde_yaml::to_string(&v) {
            Ok(t) => t,
            Err(e) => {
                ctx::violate("form", || format!("{v:?} cannot be written: {e}"));
                return;
            }
        };
        ctx::probe("forms");
        if let Some(e) = forms::check(&m, &v, Some(&text)) {
            ctx::violate("form", || e);
            return;
        }
    }
}

/// A map whose keys are displayed in pieces.
fn displayed_keys() {
    use serde::ser::SerializeMap;
    struct Key(Vec<&'static str>);
    impl std::fmt::Display for Key {
        fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
            self.0.iter().try_for_each(|s| f.write_str(s))
        }
    }
    impl Serialize for Key {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.collect_str(self)
        }
    }
    struct Keys(Vec<Key>, bool);
    impl Serialize for Keys {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            let mut m = s.serialize_map(if self.1 { Some(self.0.len()) } else { None })?;
            for (i, k) in self.0.iter().enumerate() {
                m.serialize_entry(k, &i)?;
            }
            m.end()
        }
    }
    let mut want = std::collections::BTreeMap::new();
    let mut keys = Vec::new();
    let first = gen::chance(1, 2);
    for k in gen::list(1, 3, |_| {
        let mut k = gen::list(0, 3, |_| *gen::one(&["!", "a", "", "!b", "c!", "1", "<<"]));
        if first {
            k.insert(0, "!");
        }
        Key(k)
    }) {
        if !want.contains_key(&k.to_string()) {
            want.insert(k.to_string(), keys.len());
            keys.push(k);
        }
    }
    let known_len = gen::chance(2, 3);
    let pieces: Vec<&str> = keys[0].0.iter().copied().filter(|s| !s.is_empty()).collect();
    let like_tag = keys.len() == 1 && known_len && pieces.len() == 2 && pieces[0] == "!";
    let keys = Keys(keys, known_len);
    let what = || {
        let shown: Vec<_> = keys.0.iter().map(|k| &k.0).collect();
        if like_tag {
            format!("(the only key is displayed as \"!\" and one more piece) {shown:?}")
        } else {
            format!("{shown:?}, length known: {known_len}")
        }
    };
    let text = serde_yaml::to_string(&keys).map_err(|e| e.to_string());
    let back = text.clone().and_then(|t| serde_yaml::from_str::<std::collections::BTreeMap<String, usize>>(&t).map_err(|e| e.to_string()));
    check!(back.as_ref() == Ok(&want), "keys", "a map with displayed keys {} is written as {text:?}, which reads back as {back:?}", what());
    let value = serde_yaml::to_value(&keys).map_err(|e| e.to_string());
    let back = value.clone().and_then(|v| serde_yaml::from_value::<std::collections::BTreeMap<String, usize>>(v).map_err(|e| e.to_string()));
    check!(back.as_ref() == Ok(&want), "keys", "a map with displayed keys {} becomes {value:?}, which is converted back to {back:?}", what());
}

fn run() {
    let chains: Vec<Chain> = gen::list(1, 3, |_| Chain::draw());
    // Sometimes one process reads all the chains.
    let shared_consumer = chains.len() > 1 && gen::chance(1, 3);
    for (i, c) in chains.iter().enumerate() {
        if let Cargo::Docs(d) = &c.cargo {
            note_docs(d);
        }
        if let Cargo::Bigs(b) = &c.cargo {
            for b in b {
                ctx::note(|| format!("record {:.1500}", format!("{b:?}")));
            }
        }
        ctx::note(|| format!("chain {i}: stages {:?} links {:?} consumer {:?} ({} bytes)", c.stages, c.links, c.consume, c.total));
    }
    if let Some(m) = chains.iter().find_map(|c| match &c.cargo {
        Cargo::Bigs(b) if gen::chance(1, 2) => b.iter().find_map(typed::conversions),
        _ => None,
    }) {
        ctx::violate("conversion", || m);
        return;
    }
    if let Some(m) = chains.iter().find_map(|c| match &c.cargo {
        Cargo::Bigs(b) if gen::chance(1, 2) => b.iter().find_map(typed::modules),
        _ => None,
    }) {
        ctx::violate("module", || m);
        return;
    }
    if gen::chance(1, 3) {
        in_forms();
        if ctx::violated() {
            return;
        }
    }
    if gen::chance(1, 8) {
        displayed_keys();
        if ctx::violated() {
            return;
        }
    }
    // One log per stage and one for the consumer.
    let logs: Vec<Vec<Mutex<Log>>> = chains.iter().map(|c| (0..=c.stages.len()).map(|_| Mutex::default()).collect()).collect();
    let report = {
        let mut tasks = Vec::new();
        let mut tails = Vec::new();
        for (i, c) in chains.iter().enumerate() {
            let mut upstream: Option<PipeReader> = None;
            for s in 0..c.stages.len() {
                let l = &c.links[s];
                let log = &logs[i][s];
                let (w, r, st) = pipe((i * 8 + s) as u64, l.cap, c.chop(), c.chop(), l.die_after);
                log.lock().unwrap().pipe = Some(st);
                let from = upstream.replace(r);
                tasks.push(Task {
                    name: "stage",
                    f: Box::new(move || {
                        let e = match from {
                            None => produce(c, w),
                            Some(r) => relay(c, s, r, w, log),
                        };
                        untracked(|| log.lock().unwrap().end = Some(e));
                    }),
                });
            }
            tails.push((c, upstream.unwrap(), &logs[i][c.stages.len()]));
        }
        let read = |(c, r, log): (&Chain, PipeReader, &Mutex<Log>)| {
            let e = consume(c, r, log);
            untracked(|| log.lock().unwrap().end = Some(e));
        };
        if shared_consumer {
            tasks.push(Task {
                name: "consumer",
                f: Box::new(move || tails.into_iter().for_each(read)),
            });
        } else {
            for t in tails {
                tasks.push(Task {
                    name: "consumer",
                    f: Box::new(move || read(t)),
                });
            }
        }
        sched::run(tasks)
    };
    for (i, p) in report.panics {
        if p.is::<sched::SchedAbort>() {
            continue;
        }
        ctx::violate("panic", || format!("task {i} panicked: {}", crate::runner::last_panic()));
    }
    check!(!report.deadlock, "deadlock", "no process of the pipeline can go on, and not all have finished");
    if ctx::violated() {
        return;
    }
    if report.switches > 0 {
        ctx::nontrivial();
    }
    let mut h = shared_consumer as u64;
    for (i, c) in chains.iter().enumerate() {
        let delivered = verify(i, c, &logs[i]);
        h = ctx::fold(h, matches!(c.cargo, Cargo::Docs(_)) as u64);
        for s in &c.stages {
            let crash = match s.crash {
                Crash::No => 0,
                Crash::Between(n) => 1 + n as u64,
                Crash::Inside(n, _) => 100 + n as u64,
            };
            h = ctx::fold(h, s.how as u64 * 1000 + crash);
        }
        for l in &c.links {
            h = ctx::fold(h, (l.cap + 1).ilog2() as u64 * 2 + l.die_after.is_some() as u64);
        }
        h = ctx::fold(h, delivered as u64);
    }
    ctx::state(h);
}

/// Judges every link of a chain by what its two ends saw; returns how many
/// documents reached the consumer.
fn verify(i: usize, c: &Chain, logs: &[Mutex<Log>]) -> usize {
    let mut original: Vec<Item> = match &c.cargo {
        Cargo::Docs(d) => d.iter().map(|d| Item::Doc(d.model())).collect(),
        Cargo::Bigs(b) => b.iter().map(|b| Item::Big(Box::new(b.clone()))).collect(),
    };
    // Upstream of the current process: documents wholly written, how many of
    // them are the original ones, and whether a torn one may follow.
    let (mut sent, mut good, mut torn) = (original.len(), original.len(), false);
    let mut delivered = 0;
    for s in 0..logs.len() {
        let log = logs[s].lock().unwrap();
        let plan = c.stages.get(s);
        let fail = |what: String| {
            ctx::violate("pipeline", || {
                format!("chain {i} process {s} ({}): {what}; it ended with {:?}, offered {sent} documents", plan.map_or("consumer".to_string(), |p| format!("{p:?}")), log.end)
            });
            0
        };
        let end = match &log.end {
            Some(e) => e.clone(),
            None => return fail("ended without a result".to_string()),
        };
        let died = s > 0 && logs[s - 1].lock().unwrap().pipe.as_ref().map_or(false, |p| lock(p).died);
        let epipe = log.pipe.as_ref().map_or(0, |p| lock(p).epipe);
        // A transcoder's reading and writing errors both come out of one call.
        let end = match end {
            End::WriteError(n, e) if epipe == 0 && log.unseen => End::ReadError(n, e),
            e => e,
        };
        if s > 0 {
            if died {
                if !log.items.is_empty() {
                    return fail(format!("has {} documents of a stream it could not read", log.items.len()));
                }
                match &end {
                    End::ReadError(0, e) if e.to_lowercase().contains("connection reset") => {}
                    End::Crashed(_) => {}
                    _ => return fail("reading failed with connection reset, and that was not reported".to_string()),
                }
            }
            for (k, item) in log.items.iter().enumerate() {
                if k >= good {
                    if k >= sent + torn as usize {
                        return fail(format!("document {k} was never sent: {:.300}", format!("{item:?}")));
                    }
                    continue;
                }
                let same = match (item, &original[k]) {
                    (Item::Doc(a), Item::Doc(b)) => a == b,
                    (Item::Big(a), Item::Big(b)) => a == b,
                    _ => false,
                };
                if !same {
                    return fail(format!("document {k} arrived as {item:?} instead of {:?}", original[k]));
                }
            }
        }
        let n = match &end {
            End::Complete(n) => {
                if *n < sent || *n > sent + torn as usize {
                    return fail("did not handle exactly the documents it was offered".to_string());
                }
                if epipe > 0 {
                    return fail("a write failed, and that was not reported".to_string());
                }
                *n
            }
            End::Crashed(n) => match plan.map(|p| p.crash) {
                Some(Crash::Between(k) | Crash::Inside(k, _)) if k == *n && k <= sent + torn as usize => *n,
                _ => return fail("crashed unasked".to_string()),
            },
            End::WriteError(n, e) => {
                if epipe == 0 || !e.to_lowercase().contains("broken pipe") {
                    return fail("unexpected write error".to_string());
                }
                if *n > sent + torn as usize {
                    return fail("wrote more than it was offered".to_string());
                }
                *n
            }
            End::ReadError(n, _) if died => *n,
            End::ReadError(n, _) => {
                if !torn && sent == good {
                    return fail("unexpected read error".to_string());
                }
                if *n < good {
                    return fail("the documents before the damage were not all read".to_string());
                }
                *n
            }
        };
        if !log.unseen && s > 0 && !matches!(end, End::Crashed(_) | End::WriteError(..)) && log.items.len() != n {
            return fail(format!("read {} documents but counts {n}", log.items.len()));
        }
        delivered = n;
        good = good.min(n);
        sent = n;
        torn = match &end {
            End::Complete(_) => false,
            End::Crashed(_) => matches!(plan.unwrap().crash, Crash::Inside(..)),
            // An error in the middle of a document may leave part of it.
            End::WriteError(..) => true,
            End::ReadError(..) => log.unseen,
        };
        if sent == 0 && !torn {
            // Nothing at all reads as one empty document.
            match &c.cargo {
                Cargo::Docs(_) => {
                    original = vec![Item::Doc(Model::Null)];
                    (sent, good) = (1, 1);
                }
                Cargo::Bigs(_) => torn = true,
            }
        }
    }
    delivered
}
