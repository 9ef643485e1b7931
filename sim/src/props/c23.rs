//! C23: when memory runs out, nothing is reported that is not so.

use super::util::*;
use super::Prop;
use crate::alloc::{self, untracked, Shortage};
use crate::check;
use crate::ctx;
use crate::gen;
use crate::io::{shared, Chop, ReadStats, SimReader};
use crate::model::Model;
use crate::node::{Doc, SerPlan};
use crate::targets::{draw_target, failure, get, outcome, Outcome, Target};
use crate::typed::Big;
use serde::Deserialize;
use serde_yaml::{Deserializer, Mapping, Serializer, Value};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::Arc;

pub static PROP: Prop = Prop {
    id: "C23",
    run,
    leaks: true,
    quick_runs: 110_000,
    rule: "one run = one operation (reading a stream from a reader, a slice or a string into drawn types, writing documents to \
           a pipe with a flush after each, conversions of documents and derived types, work on a Value tree) performed \
           once with enough memory and once in a forked process in which a drawn allocation, a drawn number of them, all \
           above a drawn size or all beyond a drawn total fail; what that process reported until it was aborted, or \
           to its end, is compared; non-trivial = an allocation failed; distinct = digest of the event sequence",
    state_measure: "hash of (operation, kind of shortage, how the process ended, number of reports before)",
    real: REAL,
    stub: &[
        "the global allocator (fails on request)",
        "io::Read and io::Write implementations; the pipe to the judge is a real one",
    ],
    assumptions: &[
        "an allocation that fails in code which cannot report it ends the process by abort, as Rust and unsafe-libyaml \
         document; what counts is what the process had reported until then",
    ],
};

#[derive(Debug)]
enum Op {
    /// Bytes, target, whether as an iterator of documents.
    Reader(Arc<Vec<u8>>, Target, bool),
    Slice(Arc<Vec<u8>>, Target, bool),
    /// Documents, whether each gets a serializer of its own.
    Write(Vec<Doc>, bool),
    Convert(Vec<Doc>),
    Typed(Box<Big>),
    Tree(Value),
}

impl Op {
    fn draw() -> Op {
        let bytes = || {
            let mut b = stream(3, true).bytes;
            if gen::chance(1, 4) {
                // Large enough for the buffers to be enlarged again and again.
                let more = gen::small(3000);
                for i in 0..more {
                    b.extend_from_slice(format!("- {i}\n").as_bytes());
                }
            }
            Arc::new(b)
        };
        gen::span(|| match gen::pick(8) {
            0..=2 => Op::Reader(bytes(), draw_target(), gen::chance(1, 2)),
            3 => Op::Slice(bytes(), draw_target(), gen::chance(1, 2)),
            4 => Op::Write(docs(1, 4), gen::chance(1, 2)),
            5 => Op::Convert(docs(1, 2)),
            6 => Op::Typed(Box::new(crate::typed::big())),
            _ => Op::Tree(crate::node::value_model(3).to_value().unwrap_or(Value::Null)),
        })
    }

    fn kind(&self) -> u64 {
        match self {
            Op::Reader(_, _, i) => *i as u64,
            Op::Slice(_, _, i) => 2 + *i as u64,
            Op::Write(_, i) => 4 + *i as u64,
            Op::Convert(_) => 6,
            Op::Typed(_) => 7,
            Op::Tree(_) => 8,
        }
    }

    /// Everything a caller gets to know, in the order in which it does.
    fn perform(&self, chop: Chop, say: &dyn Fn(String)) {
        let tell = |o: Outcome| untracked(|| say(format!("{o:?}")));
        let text = |r: Result<String, serde_yaml::Error>| tell(match r {
            Ok(s) => untracked(|| Outcome::Ok(s.clone())),
            Err(e) => Outcome::Err(failure(&e)),
        });
        match self {
            Op::Reader(b, t, iterate) => {
                let stats = untracked(|| shared(ReadStats::default()));
                let rdr = SimReader::new(Arc::clone(b), chop, None, &stats);
                if *iterate {
                    for d in Deserializer::from_reader(rdr).take(6) {
                        tell(get(*t, d));
                    }
                } else {
                    tell(get(*t, Deserializer::from_reader(rdr)));
                }
                untracked(|| drop(stats));
            }
            Op::Slice(b, t, iterate) => {
                let d = match std::str::from_utf8(b) {
                    Ok(s) if b.len() % 2 == 0 => Deserializer::from_str(s),
                    _ => Deserializer::from_slice(b),
                };
                if *iterate {
                    for d in d.take(6) {
                        tell(get(*t, d));
                    }
                } else {
                    tell(get(*t, d));
                }
            }
            Op::Write(docs, each) => {
                struct Hand<'a>(&'a dyn Fn(String));
                impl<'a> Write for Hand<'a> {
                    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
                        let n = b.len().min(4000);
                        untracked(|| (self.0)(format!("took {:?}", &b[..n])));
                        Ok(n)
                    }
                    fn flush(&mut self) -> std::io::Result<()> {
                        untracked(|| (self.0)("flushed".into()));
                        Ok(())
                    }
                }
                let plan = SerPlan::default();
                if *each {
                    for d in docs {
                        let mut ser = Serializer::new(Hand(say));
                        tell(outcome(d.serialize(&plan, &mut ser).map(|_| ())));
                        tell(outcome(ser.into_inner().map(|_| ())));
                    }
                } else {
                    let mut ser = Serializer::new(Hand(say));
                    for d in docs {
                        tell(outcome(d.serialize(&plan, &mut ser).map(|_| ())));
                        tell(outcome(ser.flush()));
                    }
                }
            }
            Op::Convert(docs) => {
                for d in docs {
                    let plan = SerPlan::default();
                    let s = crate::node::DocSer(d, &plan);
                    text(serde_yaml::to_string(&s));
                    let v = serde_yaml::to_value(&s);
                    if let Ok(v) = &v {
                        text(serde_yaml::to_string(v));
                        tell(outcome(Model::deserialize(v)));
                    }
                    tell(outcome(v));
                }
            }
            Op::Typed(b) => {
                let t = serde_yaml::to_string(&**b);
                if let Ok(t) = &t {
                    tell(outcome(serde_yaml::from_str::<Big>(t)));
                    tell(outcome(serde_yaml::from_reader::<_, Big>(t.as_bytes())));
                }
                text(t);
                let v = serde_yaml::to_value(&**b);
                if let Ok(v) = &v {
                    tell(outcome(Big::deserialize(v)));
                }
                if let Ok(v) = v {
                    tell(outcome(serde_yaml::from_value::<Big>(v)));
                }
            }
            Op::Tree(v) => {
                let mut w = v.clone();
                tell(outcome(Ok(&w)));
                tell(outcome(w.apply_merge()));
                tell(outcome(Ok(&w)));
                let mut m = Mapping::new();
                for i in 0..40u64 {
                    m.insert(Value::from(i % 23), w.clone());
                    if i % 9 == 8 {
                        m.reserve(64);
                        m.remove(Value::from(i / 2));
                        tell(outcome(Ok(m.len())));
                    }
                }
                m.shrink_to_fit();
                tell(outcome(Ok(&m)));
                let v: Value = m.into_iter().map(|(k, v)| if k.is_u64() { v } else { k }).collect();
                text(serde_yaml::to_string(&v));
            }
        }
    }
}

extern "C" {
    fn fork() -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn close(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn waitpid(pid: i32, st: *mut i32, flags: i32) -> i32;
    fn _exit(code: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn prctl(op: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Runs `f` in a child process; everything it says and its exit status.
fn forked(f: impl FnOnce(&dyn Fn(String))) -> (Vec<u8>, i32) {
    untracked(|| unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0, "no pipe");
        let pid = fork();
        assert!(pid >= 0, "no child process");
        if pid == 0 {
            // Ends with its parent and in any case soon.
            prctl(1, 9, 0, 0, 0);
            alarm(20);
            close(fds[0]);
            dup2(fds[1], 2);
            let out = fds[1];
            let say = |s: String| {
                let mut s = s.replace('\n', "\\n").into_bytes();
                s.push(b'\n');
                let mut at = 0;
                while at < s.len() {
                    let n = write(out, s.as_ptr().add(at), s.len() - at);
                    if n <= 0 {
                        _exit(9);
                    }
                    at += n as usize;
                }
            };
            f(&say);
            _exit(0);
        }
        close(fds[1]);
        let mut all = Vec::new();
        let mut b = [0u8; 65536];
        loop {
            let n = read(fds[0], b.as_mut_ptr(), b.len());
            if n <= 0 {
                break;
            }
            all.extend_from_slice(&b[..n as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        (all, st)
    })
}

fn run() {
    let op = Op::draw();
    ctx::note(|| format!("{:.2000}", format!("{op:?}")));
    // With enough memory.
    let want = std::sync::Mutex::new(untracked(Vec::<String>::new));
    let before = alloc::TOTAL_ALLOCS.load(Relaxed);
    let ((), peak) = alloc::peak(|| {
        op.perform(Chop::whole(), &|s| untracked(|| want.lock().unwrap().push(s.replace('\n', "\\n"))))
    });
    let total = alloc::TOTAL_ALLOCS.load(Relaxed) - before;
    let want = want.into_inner().unwrap();
    // The buffer of a reader comes first, and is the one that can be told of.
    let from = if matches!(op, Op::Reader(..)) && gen::chance(1, 2) { gen::pick(12) } else { gen::pick(total + 2) };
    let once = Shortage {
        from,
        count: 1,
        size: 0,
        live: i64::MAX,
    };
    let (kind, plan) = match gen::pick(6) {
        0 | 1 => ("alloc:fails-once", once),
        2 => ("alloc:fails-from-here-on", Shortage { count: u64::MAX, ..once }),
        3 => ("alloc:fails-a-few-times", Shortage { count: 1 + gen::small(5), ..once }),
        4 => (
            "alloc:large-blocks-fail",
            Shortage {
                from: gen::small(8),
                count: u64::MAX,
                size: 32usize << gen::idx(12),
                ..once
            },
        ),
        _ => (
            "alloc:limited-total",
            Shortage {
                from: 0,
                count: u64::MAX,
                live: (peak.max(1) as u64 * gen::pick(100) / 100) as i64,
                ..once
            },
        ),
    };
    let seed = gen::pick(1 << 40);
    ctx::note(|| format!("{total} allocations, {plan:?}"));
    let (said, status) = forked(|say| {
        gen::install_seed(seed, None);
        let chop = if gen::chance(1, 2) { Chop::draw(true) } else { Chop::whole() };
        let live = alloc::LIVE_COUNT.load(Relaxed);
        alloc::shortage(Some(plan));
        let r = alloc::tracked(|| catch_unwind(AssertUnwindSafe(|| op.perform(chop, say))));
        alloc::shortage(None);
        let panicked = r.is_err();
        drop(r);
        say(format!(
            "end {} {} {}",
            alloc::SHORT_FIRED.load(Relaxed),
            panicked as u8,
            if panicked { 0 } else { alloc::LIVE_COUNT.load(Relaxed) - live }
        ));
        // There is memory again.
        alloc::tracked(|| op.perform(Chop::whole(), say));
        if ctx::violated() {
            say("inconsistent error".into());
        }
        let c = alloc::CORRUPTION.load(Relaxed);
        if c != 0 {
            say(format!("heap: {}", alloc::CORRUPTIONS[c]));
        }
    });
    let said = untracked(|| String::from_utf8_lossy(&said).into_owned());
    let lines: Vec<&str> = untracked(|| said.lines().collect());
    let end = lines.iter().position(|l| l.starts_with("end "));
    let out_of_memory = lines.last().is_some_and(|l| l.starts_with("memory allocation of "));
    let first = match end {
        Some(e) => &lines[..e],
        None => &lines[..lines.len() - out_of_memory as usize],
    };
    // What was said before the end, word for word. A stream whose reader ran
    // out of memory has failed for good; elsewhere an error stands for the
    // result it is in place of and for what would have been made of it.
    let for_good = matches!(op, Op::Reader(..));
    let mut failed = false;
    let mut next = 0;
    for (i, l) in first.iter().enumerate() {
        if want.get(next).is_some_and(|w| w == l) && !(failed && for_good) {
            next += 1;
        } else if l.starts_with("Err(") && (l.contains("memory") || failed && for_good) {
            failed = true;
            next += 1;
            ctx::probe("out-of-memory-error");
        } else if let Some(skip) = want.iter().skip(next).position(|w| w == l).filter(|_| failed && !for_good) {
            next += skip + 1;
        } else {
            let none = String::new();
            let w = want.get(next).unwrap_or(&none);
            ctx::violate("wrong-result", || format!("{kind} {plan:?}: report {i} is {l:.300}, with enough memory it is {w:.300}"));
        }
    }
    let ended = match end {
        Some(e) => {
            check!(status == 0, "died", "{kind} {plan:?}: the process ended with status {status:#x} when there was memory again");
            let n: Vec<i64> = untracked(|| lines[e][4..].split(' ').map(|n| n.parse().unwrap()).collect());
            let (fired, panicked, leaked) = (n[0] > 0, n[1] > 0, n[2]);
            if fired {
                ctx::fault(kind);
            } else {
                check!(!failed && !panicked, "wrong-result", "{kind} {plan:?}: failed with enough memory");
            }
            if panicked {
                ctx::probe("panic");
            } else {
                check!(failed || first.len() == want.len(), "missing", "{kind} {plan:?}: {} of {} reports", first.len(), want.len());
                check!(leaked == 0, "leak", "{kind} {plan:?}: {leaked} blocks are left");
            }
            let again = &lines[e + 1..];
            check!(
                again.len() == want.len() && again.iter().zip(&want).all(|(a, w)| a == w),
                "afterwards",
                "{kind} {plan:?}: with memory again the reports are {again:.300?}, not {want:.300?}"
            );
            if failed {
                1
            } else if panicked {
                2
            } else if fired {
                3
            } else {
                4
            }
        }
        None => {
            ctx::fault(kind);
            ctx::probe("aborted");
            check!(
                status & 0x7f == 6 && out_of_memory,
                "died",
                "{kind} {plan:?}: the process ended with status {status:#x} after saying {:?}",
                lines.last()
            );
            0
        }
    };
    ctx::ev("said", first.len() as u64, ctx::hash_bytes(said.as_bytes()));
    ctx::state(ctx::fold(
        ctx::fold(op.kind(), ctx::hash_bytes(kind.as_bytes())),
        ended << 8 | first.len().min(12) as u64,
    ));
}
