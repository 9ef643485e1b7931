//! C05: a failing reader never turns into data.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, shared, Chop, ReadStats, SimReader};
use crate::targets::{draw_target, get, outcome, Rec};
use crate::model::Model;
use serde::de::Deserialize;
use serde_yaml::{Deserializer, Error, Value};
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C05",
    run,
    leaks: true,
    quick_runs: 500_000,
    rule: "one run = one byte stream read through a reader that fails at a drawn byte offset (0..=len) with a drawn \
           error (every ErrorKind incl. UnexpectedEof and WouldBlock, OS errors, custom errors with a cause), once or \
           for good, under fragmentation and EINTR, through from_reader, Deserializer::from_reader or the document \
           iterator; non-trivial = the fault fired; distinct = digest of the event sequence",
    state_measure: "hash of (API route, error text, target)",
    real: REAL,
    stub: &["io::Read implementation (SimReader)"],
    assumptions: &["Interrupted is retried by contract of std::io::Read and is not an error"],
};

fn run() {
    let st = stream(4, true);
    let data = Arc::new(st.bytes.clone());
    let (fault, spec) = io_fault(data.len(), false);
    let spec = spec.unwrap();
    let plan = if gen::chance(1, 2) { Chop::draw(true) } else { Chop::whole() };
    let route = gen::pick(4);
    ctx::note(|| format!("route {route}, {} of {} bytes, fault {fault:?}, reader {plan:?}: {}", st.what, data.len(), clip(&data)));
    let stats = shared(ReadStats::default());
    let rdr = SimReader::new(Arc::clone(&data), plan, Some(fault), &stats);
    let judge = |what: &str, r: &Result<(), Error>| match r {
        Ok(()) => ctx::violate("data", || format!("{what}: the reader failed with {spec:?}, the result is Ok")),
        Err(e) => {
            if let Err(m) = spec.matches(e) {
                ctx::violate("wrong-error", || format!("{what}: {m}"));
            }
            check!(e.location().is_none(), "location", "an I/O error is located at {:?}", e.location());
        }
    };
    let target = draw_target();
    match route {
        0 => {
            let r = match gen::pick(3) {
                0 => serde_yaml::from_reader::<_, Value>(rdr).map(|_| ()),
                1 => serde_yaml::from_reader::<_, Option<Model>>(rdr).map(|_| ()),
                _ => serde_yaml::from_reader::<_, Rec>(rdr).map(|_| ()),
            };
            judge("from_reader", &r);
        }
        1 => {
            let d = Deserializer::from_reader(rdr);
            let r = match gen::pick(3) {
                0 => Value::deserialize(d).map(|_| ()),
                1 => serde::de::IgnoredAny::deserialize(d).map(|_| ()),
                _ => <()>::deserialize(d),
            };
            judge("Deserializer::from_reader", &r);
        }
        _ => {
            // The iterator: the first document reports the error, and
            // nothing after it is data.
            let mut it = Deserializer::from_reader(rdr);
            let mut pulled = Vec::new();
            let n = gen::range(1, 5);
            for i in 0..n {
                match it.next() {
                    Some(d) => pulled.push((i, d)),
                    None => {
                        check!(i > 0, "data", "the failing stream looks empty");
                        break;
                    }
                }
                if gen::chance(1, 4) && i > 0 {
                    pulled.pop();
                    ctx::ev("abandon", i, 0);
                }
            }
            if route == 3 {
                // The iterator itself used as a deserializer afterwards.
                let r = Model::deserialize(it).map(|_| ());
                check!(r.is_err(), "data", "the failed iterator deserialized as a document");
            } else {
                drop(it);
            }
            for (i, d) in pulled {
                if i == 0 {
                    let r = Model::deserialize(d).map(|_| ());
                    judge("first document", &r);
                } else {
                    let o = get(target, d);
                    check!(!o.is_ok(), "data", "document {i} after the read error is {}", o.brief());
                }
            }
        }
    }
    let s = lock(&stats);
    check!(s.errors > 0, "data", "the end of the input was never reached: {s:?}");
    check!(
        s.calls_after_error == 0,
        "read-after-error",
        "{} read calls after the reader failed",
        s.calls_after_error
    );
    check!(s.drops == 1, "drops", "the reader was dropped {} times", s.drops);
    let _ = outcome::<()>;
    ctx::state(ctx::fold(route << 8 | target as u64, ctx::hash_bytes(spec.make().to_string().as_bytes())));
}
