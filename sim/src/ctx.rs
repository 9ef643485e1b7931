//! Per-run context: event log, fault counters, coverage and the verdict.

use crate::alloc::untracked;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
}

#[derive(Default)]
pub struct Run {
    pub log: Vec<(&'static str, u64, u64)>,
    pub digest: u64,
    pub notes: Vec<String>,
    pub violation: Option<Violation>,
    pub nontrivial: bool,
    pub sim_steps: u64,
}

#[derive(Default)]
pub struct Stats {
    pub runs: u64,
    pub nontrivial: u64,
    pub steps: u64,
    pub faults: BTreeMap<&'static str, u64>,
    pub probes: BTreeMap<&'static str, u64>,
    pub traces: HashSet<u64>,
    pub states: HashSet<u64>,
    pub all_digest: u64,
}

struct Inner {
    run: Run,
    stats: Stats,
}

static CTX: Mutex<Option<Inner>> = Mutex::new(None);
pub static VERBOSE: AtomicBool = AtomicBool::new(false);
pub static SEQ: AtomicU64 = AtomicU64::new(0);

fn with<T>(f: impl FnOnce(&mut Inner) -> T) -> T {
    untracked(|| {
        let mut g = CTX.lock().unwrap_or_else(|e| e.into_inner());
        let inner = g.get_or_insert_with(|| Inner {
            run: Run::default(),
            stats: Stats::default(),
        });
        f(inner)
    })
}

pub fn fold(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29) ^ (v >> 7)
}

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64 ^ b.len() as u64;
    for c in b.chunks(8) {
        let mut w = [0u8; 8];
        w[..c.len()].copy_from_slice(c);
        h = fold(h, u64::from_le_bytes(w));
    }
    h
}

pub fn begin_run() {
    with(|i| i.run = Run::default());
    SEQ.store(0, Relaxed);
}

pub fn end_run() -> Run {
    with(|i| {
        let run = std::mem::take(&mut i.run);
        i.stats.runs += 1;
        i.stats.steps += run.sim_steps;
        if run.nontrivial {
            i.stats.nontrivial += 1;
            if i.stats.traces.len() < 400_000 {
                i.stats.traces.insert(run.digest);
            }
        }
        i.stats.all_digest = i.stats.all_digest.wrapping_add(run.digest | 1);
        run
    })
}

pub fn take_stats() -> Stats {
    with(|i| std::mem::take(&mut i.stats))
}

/// One step of the simulated execution, in its global order.
pub fn ev(kind: &'static str, a: u64, b: u64) {
    SEQ.fetch_add(1, Relaxed);
    with(|i| {
        i.run.sim_steps += 1;
        let mut h = fold(i.run.digest, hash_bytes(kind.as_bytes()));
        h = fold(h, a);
        i.run.digest = fold(h, b);
        if VERBOSE.load(Relaxed) && i.run.log.len() < 200_000 {
            i.run.log.push((kind, a, b));
        }
    });
}

/// A fault that actually happened (not merely one that was planned).
pub fn fault(kind: &'static str) {
    with(|i| {
        *i.stats.faults.entry(kind).or_insert(0) += 1;
        i.run.nontrivial = true;
    });
    ev(kind, 0, 0);
}

/// "This rare condition was reached."
pub fn probe(kind: &'static str) {
    with(|i| *i.stats.probes.entry(kind).or_insert(0) += 1);
}

pub fn state(h: u64) {
    with(|i| {
        if i.stats.states.len() < 400_000 {
            i.stats.states.insert(h);
        }
    });
}

pub fn nontrivial() {
    with(|i| i.run.nontrivial = true);
}

pub fn violate(kind: &str, msg: impl FnOnce() -> String) {
    untracked(|| {
        if violated() {
            return;
        }
        let m = msg();
        with(|i| {
            if i.run.violation.is_none() {
                i.run.violation = Some(Violation {
                    kind: kind.to_string(),
                    msg: m,
                });
            }
        })
    });
}

pub fn violated() -> bool {
    with(|i| i.run.violation.is_some())
}

/// Human-readable material for replay files; free when not replaying.
pub fn note(f: impl FnOnce() -> String) {
    if VERBOSE.load(Relaxed) {
        untracked(|| {
            let s = f();
            with(|i| i.run.notes.push(s));
        });
    }
}

#[macro_export]
macro_rules! check {
    ($cond:expr, $kind:expr, $($arg:tt)*) => {
        if !$cond {
            $crate::ctx::violate($kind, || format!($($arg)*));
        }
    };
}
