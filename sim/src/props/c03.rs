//! C03: what was acknowledged survives a crash.

use super::util::*;
use super::Prop;
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{lock, Chop, Fault, FaultKind, ErrSpec, Injected, WritePlan};
use crate::model::Model;
use crate::node::{Doc, DocSer, SerPlan};
use serde_yaml::Serializer;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub static PROP: Prop = Prop {
    id: "C03",
    run,
    leaks: false,
    quick_runs: 100_000,
    rule: "one run = an application that appends documents to a simulated disk (volatile bytes become durable at \
           flush) in 1..4 epochs, each ended by a crash at a drawn byte (process dies inside write), a drawn \
           operation, a drawn flush, or a clean into_inner; after each crash the disk keeps the durable part plus a \
           drawn piece of the rest, the recovery reads it through the library and the next epoch appends to what \
           was acknowledged; non-trivial = at least one crash; distinct = digest of the event sequence",
    state_measure: "hash of (epoch kind, acknowledged documents, torn tail class, crash site)",
    real: REAL,
    stub: &["storage device (SimWriter sink with a volatile and a durable part)"],
    assumptions: &[
        "flush on the simulated writer makes everything accepted so far durable, as File::sync would",
        "a torn tail may corrupt the last acknowledged document only when the application wrote no separator after it; \
         this is a property of the YAML format and is excluded",
        "the recovery reads the torn image as it is, incomplete characters included",
    ],
};

struct Disk {
    durable: Vec<u8>,
    /// Models of the acknowledged documents.
    acked: Vec<Model>,
    /// Length of `durable` up to which everything was acknowledged.
    acked_len: usize,
}

fn run() {
    let mut disk = Disk {
        durable: Vec::new(),
        acked: Vec::new(),
        acked_len: 0,
    };
    let epochs = gen::range(1, 4);
    for e in 0..epochs {
        let go_on = gen::span(|| epoch(&mut disk, e));
        if !go_on || ctx::violated() {
            return;
        }
    }
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum Style {
    /// One Serializer per epoch, flush after some documents.
    Session,
    /// "---\n" then to_writer, then flush, for each document.
    Separate,
}

fn epoch(disk: &mut Disk, n: u64) -> bool {
    let style = if gen::chance(1, 2) { Style::Separate } else { Style::Session };
    let docs = docs(1, 4);
    let total: usize = in_memory(&docs).map_or(0, |b| b.len()) + 4 * docs.len();
    // How does this epoch end?
    let mut plan = WritePlan {
        chop: if gen::chance(1, 2) { Chop::draw(true) } else { Chop::whole() },
        ..WritePlan::clean()
    };
    let end = gen::pick(5);
    let mut crash_op = usize::MAX;
    match end {
        0 => {}
        1 => {
            plan.fault = Some(Fault {
                at: offset(total),
                kind: FaultKind::Panic(77),
                sticky: true,
            })
        }
        2 => plan.flush_panic = Some((gen::pick(docs.len() as u64), 77)),
        3 => crash_op = gen::idx(docs.len() * 2),
        _ => {
            plan.fault = Some(Fault {
                at: offset(total),
                kind: FaultKind::Err(ErrSpec::draw()),
                sticky: true,
            })
        }
    }
    ctx::note(|| format!("epoch {n}: {style:?}, ends by {end} (crash_op {crash_op}), plan {plan:?}, {} acked before", disk.acked.len()));
    note_docs(&docs);
    // Each epoch appends to its own sink; the file is the concatenation.
    let (mut w, sink) = writer(plan);
    let mut acked_here = 0usize;
    // Durable length of this sink when document i was acknowledged.
    let mut ack_len = 0usize;
    let p = SerPlan::default();
    let flush_after: Vec<bool> = docs.iter().map(|_| gen::chance(2, 3)).collect();
    let mut clean = false;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut op = 0usize;
        let mut step = || {
            op += 1;
            op > crash_op
        };
        let mut ack = |i: usize| {
            let s = lock(&sink);
            acked_here = i + 1;
            ack_len = s.bytes.len();
        };
        match style {
            Style::Separate => {
                for (i, d) in docs.iter().enumerate() {
                    if step() {
                        return;
                    }
                    if w.write_all(b"---\n").is_err() || serde_yaml::to_writer(&mut w, &DocSer(d, &p)).is_err() {
                        return;
                    }
                    if step() {
                        return;
                    }
                    if w.flush().is_err() {
                        return;
                    }
                    ack(i);
                }
                clean = true;
            }
            Style::Session => {
                if !disk.durable.is_empty() && w.write_all(b"---\n").is_err() {
                    return;
                }
                let mut ser = Serializer::new(w);
                for (i, d) in docs.iter().enumerate() {
                    if step() {
                        return;
                    }
                    if d.serialize(&p, &mut ser).is_err() {
                        return;
                    }
                    if flush_after[i] {
                        if step() {
                            return;
                        }
                        if ser.flush().is_err() {
                            return;
                        }
                        ack(i);
                    }
                }
                if crash_op == usize::MAX {
                    match ser.into_inner() {
                        Ok(mut w) => {
                            check!(w.id == 1, "wrong-writer", "into_inner returned another writer");
                            check!(lock(&sink).drops == 0, "drops", "into_inner dropped the writer it returned");
                            if w.flush().is_err() {
                                return;
                            }
                            ack(docs.len() - 1);
                            clean = true;
                        }
                        Err(_) => {}
                    }
                }
            }
        }
    }));
    if let Err(p) = r {
        if p.downcast_ref::<Injected>() != Some(&Injected(77)) {
            std::panic::resume_unwind(p);
        }
        ctx::fault("crash:inside-write");
    } else if !clean {
        ctx::fault(if end == 3 { "crash:between-operations" } else { "crash:after-error" });
    }
    let (bytes, durable, drops) = {
        let s = lock(&sink);
        (s.bytes.clone(), s.durable, s.drops)
    };
    // The acknowledgement means: it is down there.
    check!(
        durable >= ack_len,
        "not-durable",
        "document {acked_here} was acknowledged with {ack_len} bytes handed over, but only {durable} were flushed down"
    );
    check!(drops <= 1, "drops", "the writer was dropped {drops} times");
    if ctx::violated() {
        return false;
    }
    // What survives: the durable part, plus a piece of the volatile rest.
    let rest = &bytes[durable..];
    let torn = if clean || rest.is_empty() {
        0
    } else {
        match gen::pick(3) {
            0 => 0,
            1 => rest.len(),
            _ => offset(rest.len()),
        }
    };
    let base = disk.durable.len();
    let mut image = disk.durable.clone();
    image.extend_from_slice(&bytes[..durable]);
    let torn_bytes = rest[..torn].to_vec();
    if torn > 0 {
        ctx::fault("disk:torn-tail");
    } else if !rest.is_empty() && !clean {
        ctx::fault("disk:lost-volatile-writes");
    }
    let mut want = disk.acked.clone();
    want.extend(docs[..acked_here].iter().map(Doc::model));

    // 1. Everything acknowledged is readable from the durable part alone.
    let acked_image = {
        let mut v = disk.durable.clone();
        v.extend_from_slice(&bytes[..ack_len]);
        v
    };
    if !recover("durable part", &acked_image, &want, want.len(), true) {
        return false;
    }
    // 2. Whatever else the disk kept, the acknowledged documents are intact
    // (the last one only if a separator follows it on disk).
    image.extend_from_slice(&torn_bytes);
    let tail = &image[base + ack_len..];
    if !tail.is_empty() {
        let separated = tail.starts_with(b"---\n") || tail.starts_with(b"--- ") || tail.starts_with(b"...\n");
        let n = if separated { want.len() } else { want.len().saturating_sub(1) };
        if n > 0 && !recover("torn image", &image, &want, n, false) {
            return false;
        }
    }
    ctx::state(ctx::fold(
        (style as u64) << 32 | end << 16 | acked_here as u64,
        (torn as u64 + 1).ilog2() as u64,
    ));
    // The application truncates to what it knows to be good and goes on.
    disk.durable = acked_image;
    disk.acked = want;
    disk.acked_len = disk.durable.len();
    true
}

/// Reads `image` and compares its first `n` documents with `want`.
fn recover(what: &str, image: &[u8], want: &[Model], n: usize, exact: bool) -> bool {
    use crate::io::{shared, ReadStats, SimReader};
    use crate::model::{ReadPlan, Reader};
    use serde::de::DeserializeSeed;
    if want.is_empty() {
        return true;
    }
    let stats = shared(ReadStats::default());
    // The application may also have the file in memory.
    let source = match gen::pick(4) {
        0 => serde_yaml::Deserializer::from_slice(image),
        1 if std::str::from_utf8(image).is_ok() => serde_yaml::Deserializer::from_str(std::str::from_utf8(image).unwrap()),
        _ => serde_yaml::Deserializer::from_reader(SimReader::new(image.to_vec().into(), chop(), None, &stats)),
    };
    let mut got = 0usize;
    for d in source {
        if !exact && got >= n {
            break;
        }
        match Reader::new(ReadPlan::default()).deserialize(d) {
            Ok(m) => {
                if got >= want.len() {
                    ctx::violate("recovery", || format!("{what}: an extra document {m:?} after the {} acknowledged ones", want.len()));
                    return false;
                }
                if m != want[got] {
                    ctx::violate("recovery", || {
                        format!(
                            "{what}: acknowledged document {got} came back as {:.200} instead of {:.200}; image {}",
                            format!("{m:?}"),
                            format!("{:?}", want[got]),
                            clip(image)
                        )
                    });
                    return false;
                }
            }
            Err(e) => {
                ctx::violate("recovery", || {
                    format!("{what}: acknowledged document {got} cannot be read back: {e}; image {}", clip(image))
                });
                return false;
            }
        }
        got += 1;
    }
    if got < n {
        ctx::violate("recovery", || format!("{what}: only {got} of {n} acknowledged documents came back; image {}", clip(image)));
        return false;
    }
    true
}
