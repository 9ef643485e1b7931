//! C02: a failing writer is always reported, by the very call during which it
//! failed, with its own error.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, Chop, ErrSpec, Shared, Sink, WritePlan};
use crate::node::{DocSer, SerPlan};
use serde_yaml::{Error, Serializer};

pub static PROP: Prop = Prop {
    id: "C02",
    run,
    leaks: true,
    quick_runs: 300_000,
    rule: "one run = 1..5 generated documents through to_writer per document or one Serializer (serialize, flush, \
           into_inner calls) into a writer that fails at a drawn byte offset or flush call with a drawn error (every \
           ErrorKind, OS errors, custom errors with a cause, zero-length writes), once or for good, with \
           fragmentation and EINTR around it; non-trivial = the fault fired; distinct = digest of the event sequence",
    state_measure: "hash of (route, error class, call that had to report it, size class of what was accepted)",
    real: REAL,
    stub: &["io::Write implementation (SimWriter)"],
    assumptions: &["the in-memory output is the reference for the accepted prefix"],
};

struct Judge {
    sink: Shared<Sink>,
    spec: Option<ErrSpec>,
    flush_spec: Option<ErrSpec>,
    failed: bool,
    reporter: u64,
}

impl Judge {
    /// Judges one call; returns true when the sequence goes on.
    fn call(&mut self, what: &str, code: u64, before: (u64, u64), r: &Result<(), Error>) -> bool {
        let (fired, flushed, retried) = {
            let s = lock(&self.sink);
            let retried = s.flushed_since_fault && matches!(self.flush_spec, Some(ErrSpec::Eintr));
            (s.faults_fired - s.flush_faults > before.0, s.flush_faults > before.1, retried)
        };
        if self.failed {
            // The contract ends with the first error; only panics count now.
            return true;
        }
        match (fired || flushed, r) {
            (false, Ok(())) => true,
            // An interrupted flush that was made up for.
            (true, Ok(())) if !fired && retried => true,
            (false, Err(e)) => {
                ctx::violate("spurious-error", || format!("{what} failed without a write error: {e}"));
                false
            }
            (true, Ok(())) => {
                ctx::violate("swallowed", || {
                    format!("the writer failed during {what}, which returned Ok")
                });
                false
            }
            (true, Err(e)) => {
                self.failed = true;
                self.reporter = code;
                let res = if fired {
                    carries(&self.spec, e)
                } else {
                    carries(&self.flush_spec, e)
                };
                if let Err(m) = res {
                    ctx::violate("wrong-error", || format!("{what}: {m}; error {e:?}"));
                    return false;
                }
                check!(
                    e.location().is_none(),
                    "location",
                    "an I/O error claims to be located in the document: {:?}",
                    e.location()
                );
                true
            }
        }
    }

    fn before(&self) -> (u64, u64) {
        let s = lock(&self.sink);
        (s.faults_fired - s.flush_faults, s.flush_faults)
    }
}

fn run() {
    match gen::pick(4) {
        0 => go::<Thin>(),
        1 => go::<Aligned>(),
        2 => go::<Fat>(),
        _ => go::<crate::io::SimWriter>(),
    }
}

fn go<W: Wrap>() {
    let route = gen::pick(3);
    let docs = docs(1, 5);
    let reference = if route == 0 {
        let mut v = Vec::new();
        for d in &docs {
            if ser_one(d, &mut v).is_err() {
                return;
            }
        }
        v
    } else {
        match in_memory(&docs) {
            Ok(v) => v,
            Err(_) => return,
        }
    };
    let (fault, spec) = io_fault(reference.len(), true);
    let mut plan = WritePlan {
        chop: if gen::chance(1, 2) { Chop::draw(true) } else { Chop::whole() },
        fault: Some(fault),
        ..WritePlan::clean()
    };
    let mut flush_spec = None;
    if route != 0 && gen::chance(1, 4) {
        let e = ErrSpec::draw_flush();
        plan.flush_fault = Some((gen::pick(docs.len() as u64 + 1), e.clone()));
        flush_spec = Some(e);
        if gen::chance(1, 2) {
            plan.fault = None;
        }
    }
    ctx::note(|| format!("route {route}, plan {plan:?}"));
    note_docs(&docs);
    let (w, sink) = writer(plan);
    let mut w = Some(W::wrap(w));
    let mut j = Judge {
        sink: sink.clone(),
        spec,
        flush_spec,
        failed: false,
        reporter: 0,
    };
    let p = SerPlan::default();
    let stop_at_error = gen::chance(2, 3);
    if route == 0 {
        let w = w.as_mut().unwrap();
        for (i, d) in docs.iter().enumerate() {
            let b = j.before();
            let r = serde_yaml::to_writer(&mut *w, &DocSer(d, &p));
            if !j.call("to_writer", i as u64, b, &r) || (j.failed && stop_at_error) {
                break;
            }
        }
    } else if route == 1 {
        let mut ser = Serializer::new(w.take().unwrap());
        if steps(&docs, &mut ser, &mut j, stop_at_error) {
            let b = j.before();
            let r = ser.into_inner().map(|w| {
                check!(w.unwrap().map(|w| w.id) == Some(1), "wrong-writer", "into_inner returned a damaged writer");
            });
            j.call("into_inner", 102, b, &r);
        }
    } else {
        let mut ser = Serializer::new(w.as_mut().unwrap());
        if steps(&docs, &mut ser, &mut j, stop_at_error) {
            let b = j.before();
            let r = ser.into_inner().map(|_| ());
            j.call("into_inner", 102, b, &r);
        }
    }
    drop(w);
    let s = lock(&sink);
    if s.faults_fired > 0 {
        let first = &s.bytes[..s.first_fault_at.unwrap_or(s.bytes.len())];
        check!(
            reference.starts_with(first) || first.starts_with(&reference),
            "prefix",
            "what the writer accepted before it failed is not a prefix of the output: differs at byte {}",
            first_diff(first, &reference)
        );
        ctx::state(ctx::fold(route << 8 | j.reporter, (first.len() as u64 + 1).ilog2() as u64));
    } else {
        let open_end = s.bytes.len() >= reference.len() && s.bytes.starts_with(&reference) && s.bytes[reference.len()..].iter().all(|b| b".\n".contains(b));
        check!(open_end, "bytes", "no fault fired, but the output differs at byte {}", first_diff(&s.bytes, &reference));
    }
    check!(s.drops == 1, "drops", "the writer was dropped {} times", s.drops);
}

fn steps<W: std::io::Write>(docs: &[crate::node::Doc], ser: &mut Serializer<W>, j: &mut Judge, stop: bool) -> bool {
    let p = SerPlan::default();
    for (i, d) in docs.iter().enumerate() {
        if j.failed && stop {
            return false;
        }
        let b = j.before();
        let r = d.serialize(&p, &mut *ser).map(|_| ());
        if !j.call("serialize", i as u64, b, &r) {
            return false;
        }
        if gen::chance(1, 3) {
            let b = j.before();
            let r = ser.flush();
            if !j.call("flush", 101, b, &r) {
                return false;
            }
        }
    }
    !(j.failed && stop)
}
