//! The choice tape: every decision of a run (operations, data, faults,
//! schedule) is one draw. In seed mode the draws come from a PRNG and are
//! recorded; in replay mode they come from the recorded tape. A run is a pure
//! function of the tape and of the code under test.

use crate::alloc::untracked;
use std::fs::File;
use std::io::Write as _;
use std::sync::Mutex;

pub struct Gen {
    mode: Mode,
    pub tape: Vec<u64>,
    pub spans: Vec<(usize, usize)>,
    pos: usize,
    through: Option<File>,
    span_depth: usize,
}

enum Mode {
    Seed([u64; 4]),
    Tape(Vec<u64>),
}

static GEN: Mutex<Option<Gen>> = Mutex::new(None);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s);
    splitmix(&mut s)
}

fn with<T>(f: impl FnOnce(&mut Gen) -> T) -> T {
    untracked(|| {
        let mut guard = GEN.lock().unwrap_or_else(|e| e.into_inner());
        f(guard.as_mut().expect("generator not installed"))
    })
}

pub fn install_seed(seed: u64, through: Option<File>) {
    let mut s = seed;
    let st = [
        splitmix(&mut s),
        splitmix(&mut s),
        splitmix(&mut s),
        splitmix(&mut s),
    ];
    install(Mode::Seed(st), through);
}

pub fn install_tape(tape: Vec<u64>, through: Option<File>) {
    install(Mode::Tape(tape), through);
}

fn install(mode: Mode, through: Option<File>) {
    untracked(|| {
        *GEN.lock().unwrap_or_else(|e| e.into_inner()) = Some(Gen {
            mode,
            tape: Vec::new(),
            spans: Vec::new(),
            pos: 0,
            through,
            span_depth: 0,
        });
    });
}

pub fn take() -> (Vec<u64>, Vec<(usize, usize)>) {
    untracked(|| {
        let g = GEN.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap();
        (g.tape, g.spans)
    })
}

/// A draw in `0..bound`. Zero is always the simplest choice.
pub fn pick(bound: u64) -> u64 {
    if bound <= 1 {
        return 0;
    }
    with(|g| {
        let v = match &mut g.mode {
            Mode::Seed(s) => {
                let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
                let t = s[1] << 17;
                s[2] ^= s[0];
                s[3] ^= s[1];
                s[1] ^= s[2];
                s[0] ^= s[3];
                s[2] ^= t;
                s[3] = s[3].rotate_left(45);
                ((r as u128 * bound as u128) >> 64) as u64
            }
            Mode::Tape(t) => t.get(g.pos).copied().unwrap_or(0) % bound,
        };
        g.pos += 1;
        g.tape.push(v);
        if let Some(f) = &mut g.through {
            let _ = f.write_all(&v.to_le_bytes());
        }
        v
    })
}

pub fn idx(bound: usize) -> usize {
    pick(bound as u64) as usize
}

/// True with probability num/den; `false` is the simple choice.
pub fn chance(num: u64, den: u64) -> bool {
    pick(den) >= den - num
}

/// Inclusive range, low is simple.
pub fn range(lo: u64, hi: u64) -> u64 {
    lo + pick(hi - lo + 1)
}

/// Skewed towards small values.
pub fn small(max: u64) -> u64 {
    match pick(4) {
        0 => pick(max.min(2) + 1),
        1 => pick(max.min(5) + 1),
        _ => pick(max + 1),
    }
}

pub fn full() -> u64 {
    pick(1 << 32) << 32 | pick(1 << 32)
}

pub fn weighted(ws: &[u64]) -> usize {
    let total: u64 = ws.iter().sum();
    let mut r = pick(total);
    for (i, w) in ws.iter().enumerate() {
        if r < *w {
            return i;
        }
        r -= w;
    }
    0
}

pub fn one<'a, T>(xs: &'a [T]) -> &'a T {
    &xs[idx(xs.len())]
}

/// Marks the draws made by `f` as one deletable unit for the minimiser.
pub fn span<T>(f: impl FnOnce() -> T) -> T {
    let start = with(|g| {
        g.span_depth += 1;
        g.tape.len()
    });
    let r = f();
    with(|g| {
        g.span_depth -= 1;
        let end = g.tape.len();
        if end > start && g.spans.len() < 20_000 {
            g.spans.push((start, end));
        }
    });
    r
}

/// Between `min` and `max` items, each one a deletable unit.
pub fn list<T>(min: usize, max: usize, mut f: impl FnMut(usize) -> T) -> Vec<T> {
    let mut out = Vec::new();
    let avg = 1 + idx(max.max(1)) as u64;
    while out.len() < max {
        let item = span(|| {
            if out.len() < min || chance(avg, avg + 1) {
                Some(f(out.len()))
            } else {
                None
            }
        });
        match item {
            Some(i) => out.push(i),
            None => break,
        }
    }
    out
}
