//! C01: fragmented and interrupted writes never change the output.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, WritePlan};
use crate::model::Model;
use crate::node::{Doc, DocSer, SerPlan};
use crate::targets::failure;
use serde_yaml::Serializer;
use std::io::Write;

pub static PROP: Prop = Prop {
    id: "C01",
    run,
    leaks: false,
    quick_runs: 150_000,
    rule: "one run = 1..6 generated documents serialized through one of five API routes (Serializer over an owned \
           writer, over &mut writer, to_writer per document, Serializer + flush calls, BufWriter in between) into a \
           writer whose fragmentation and EINTR pattern the tape decides; non-trivial = at least one short write or \
           EINTR actually happened; distinct = digest of the event sequence",
    state_measure: "hash of (route, number of documents, output size class, fragmentation class)",
    real: REAL,
    stub: &["io::Write implementation (SimWriter)"],
    assumptions: &["the in-memory Vec<u8> writer of std accepts everything at once and is the fault-free reference"],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Route {
    Owned,
    Borrowed,
    PerDoc,
    Flushing,
    Buffered,
}

fn run() {
    let route = *gen::one(&[Route::Owned, Route::Borrowed, Route::PerDoc, Route::Flushing, Route::Buffered]);
    let docs = docs(1, 6);
    let plan = WritePlan::chopped();
    ctx::note(|| format!("route {route:?}, writer {:?}", plan.chop));
    note_docs(&docs);
    let flush_after: Vec<bool> = docs.iter().map(|_| gen::chance(1, 2)).collect();

    // Fault-free reference: the same calls into memory.
    let mut reference = Vec::new();
    let r = drive(route, &docs, &flush_after, &mut reference);
    if let Err(e) = r {
        ctx::violate("reference", || format!("serializing into memory failed: {e}"));
        return;
    }

    let (mut w, sink) = writer(plan);
    let r = match route {
        Route::Owned => {
            let mut ser = Serializer::new(w);
            let mut r = Ok(());
            for d in &docs {
                r = r.and_then(|_| d.serialize(&SerPlan::default(), &mut ser).map_err(|e| failure(&e).display));
            }
            r.and_then(|_| match ser.into_inner() {
                Ok(w) => {
                    check!(w.id == 1, "wrong-writer", "into_inner returned another writer: id {}", w.id);
                    Ok(())
                }
                Err(e) => Err(e.to_string()),
            })
        }
        _ => {
            let r = drive(route, &docs, &flush_after, &mut w);
            drop(w);
            r
        }
    };
    let got = sink_bytes(&sink);
    let (calls, eintr) = {
        let s = lock(&sink);
        (s.calls, s.eintr)
    };
    if let Err(e) = r {
        ctx::violate("spurious-error", || {
            format!("an error surfaced although no write failed: {e}")
        });
        return;
    }
    check!(
        got == reference,
        "bytes",
        "output differs from the in-memory output at byte {} of {} (got {} bytes): got {} want {}",
        first_diff(&got, &reference),
        reference.len(),
        got.len(),
        clip(&got[first_diff(&got, &reference).saturating_sub(20)..]),
        clip(&reference[first_diff(&got, &reference).saturating_sub(20)..])
    );
    check!(
        calls <= got.len() as u64 + eintr + 16,
        "spinning",
        "{calls} write calls for {} bytes and {eintr} interruptions",
        got.len()
    );
    let empties = lock(&sink).empty_writes;
    check!(empties <= 16, "spinning", "{empties} empty writes");
    // Independent of the reference: the documents are really in there.
    if route != Route::PerDoc && !ctx::violated() {
        let want: Vec<Model> = docs.iter().map(Doc::model).collect();
        match read_all(&got, docs.len() + 2) {
            Ok(m) => check!(
                m == want,
                "content",
                "reading the output back gives {:.300} instead of {:.300}; text {}",
                format!("{m:?}"),
                format!("{want:?}"),
                clip(&got)
            ),
            Err((i, f)) => ctx::violate("content", || {
                format!("document {i} of the output cannot be read back: {}; text {}", f.display, clip(&got))
            }),
        }
    }
    let class = (got.len() as u64 + 1).ilog2() as u64;
    ctx::state(ctx::fold(ctx::fold(route as u64, docs.len() as u64), class << 8 | (calls + 1).ilog2() as u64));
    if got.len() > 16384 {
        ctx::probe("output>16KiB");
    }
}

fn drive<W: Write>(route: Route, docs: &[Doc], flush_after: &[bool], mut w: W) -> Result<(), String> {
    let p = SerPlan::default();
    let e = |e: serde_yaml::Error| e.to_string();
    match route {
        Route::PerDoc => {
            for d in docs {
                serde_yaml::to_writer(&mut w, &DocSer(d, &p)).map_err(e)?;
            }
        }
        Route::Owned => {
            let mut ser = Serializer::new(&mut w);
            for d in docs {
                d.serialize(&p, &mut ser).map_err(e)?;
            }
            ser.into_inner().map_err(e)?;
        }
        Route::Borrowed => {
            let mut ser = Serializer::new(&mut w);
            for d in docs {
                d.serialize(&p, &mut ser).map_err(e)?;
            }
        }
        Route::Flushing => {
            let mut ser = Serializer::new(&mut w);
            for (d, f) in docs.iter().zip(flush_after) {
                d.serialize(&p, &mut ser).map_err(e)?;
                if *f {
                    ser.flush().map_err(e)?;
                }
            }
            ser.into_inner().map_err(e)?;
        }
        Route::Buffered => {
            let buf = std::io::BufWriter::with_capacity(37, &mut w);
            let mut ser = Serializer::new(buf);
            for d in docs {
                d.serialize(&p, &mut ser).map_err(e)?;
            }
            let mut buf = ser.into_inner().map_err(e)?;
            buf.flush().map_err(|e| e.to_string())?;
        }
    }
    Ok(())
}
