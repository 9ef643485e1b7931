//! Search over runs: worker processes, attribution of crashes and hangs to a
//! run, minimisation, replay files, evidence.

use crate::ctx;
use crate::gen;
use crate::props::{self, Prop};
use crate::runner;
use std::collections::{BTreeMap, HashSet};
use std::fs::{self, File, OpenOptions};
use std::io::{Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

const EXIT_VIOLATION: i32 = 10;
/// A run takes milliseconds; one that makes no progress for this long hangs.
const HANG: Duration = Duration::from_secs(60);

fn run_seed(seed: u64, prop: &str, r: u64) -> u64 {
    gen::mix(gen::mix(seed, ctx::hash_bytes(prop.as_bytes())), r)
}

fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into()))
}

fn find(id: &str) -> &'static Prop {
    match props::ALL.iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2);
        }
    }
}

struct Known {
    pattern: String,
    what: String,
}

/// `known: property=<id> match=<text>; <what fails>` lines.
fn known_findings(id: &str) -> Vec<Known> {
    let text = fs::read_to_string(verif_dir().join("known_findings.txt")).unwrap_or_default();
    let mut out = Vec::new();
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix(&format!("known: property={id} match=")) {
            if let Some((p, w)) = rest.split_once("; ") {
                out.push(Known {
                    pattern: p.to_string(),
                    what: w.to_string(),
                });
            }
        }
    }
    out
}

fn set_limits() {
    #[repr(C)]
    struct RLimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const RLimit) -> i32;
    }
    unsafe {
        let l = RLimit { cur: 0, max: 0 };
        setrlimit(4, &l); // RLIMIT_CORE
    }
}

// ---------------------------------------------------------------- worker

/// worker PROP SEED START STRIDE COUNT DEADLINE_S DIR
pub fn worker(a: &[String]) -> i32 {
    set_limits();
    let prop = find(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, count, deadline) = (n(1), n(2), n(3), n(4), n(5));
    let dir = Path::new(&a[6]);
    let state = OpenOptions::new()
        .create(true)
        .write(true)
        .truncate(false)
        .open(dir.join(format!("state.{start}")))
        .unwrap();
    let stop = File::open(dir.join("stop")).unwrap();
    let known = known_findings(prop.id);
    let t0 = Instant::now();
    let mut r = start;
    let mut done = 0;
    while r < count && t0.elapsed() < Duration::from_secs(deadline) {
        let mut b = [0u8; 8];
        let _ = stop.read_exact_at(&mut b, 0);
        if r >= u64::from_le_bytes(b) {
            break;
        }
        let _ = state.write_all_at(&r.to_le_bytes(), 0);
        gen::install_seed(run_seed(seed, prop.id, r), None);
        let run = runner::execute(prop);
        done += 1;
        if let Some(v) = run.violation {
            if let Some(k) = known.iter().find(|k| v.msg.contains(&k.pattern)) {
                let _ = k;
                ctx::probe("known-finding-hit");
            } else {
                fs::write(
                    dir.join(format!("violation.{start}")),
                    format!("{r}\n{}\n{}\n", v.kind, v.msg),
                )
                .unwrap();
                write_stats(dir, start, done);
                return EXIT_VIOLATION;
            }
        }
        r += stride;
    }
    write_stats(dir, start, done);
    0
}

fn write_stats(dir: &Path, start: u64, done: u64) {
    let s = ctx::take_stats();
    let mut o = String::new();
    o += &format!("runs {done}\nnontrivial {}\nsteps {}\ndigest {}\n", s.nontrivial, s.steps, s.all_digest);
    for (k, v) in &s.faults {
        o += &format!("fault {k} {v}\n");
    }
    for (k, v) in &s.probes {
        o += &format!("probe {k} {v}\n");
    }
    for t in &s.traces {
        o += &format!("t {t:x}\n");
    }
    for t in &s.states {
        o += &format!("s {t:x}\n");
    }
    fs::write(dir.join(format!("stats.{start}")), o).unwrap();
}

#[derive(Default)]
struct Merged {
    runs: u64,
    nontrivial: u64,
    steps: u64,
    digest: u64,
    faults: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    traces: HashSet<u64>,
    states: HashSet<u64>,
}

impl Merged {
    fn add(&mut self, text: &str) {
        for line in text.lines() {
            let mut p = line.split(' ');
            let key = p.next().unwrap_or("");
            let rest: Vec<&str> = p.collect();
            let num = || rest.last().and_then(|s| s.parse::<u64>().ok()).unwrap_or(0);
            match key {
                "runs" => self.runs += num(),
                "nontrivial" => self.nontrivial += num(),
                "steps" => self.steps += num(),
                "digest" => self.digest = self.digest.wrapping_add(num()),
                "fault" => *self.faults.entry(rest[0].to_string()).or_insert(0) += num(),
                "probe" => *self.probes.entry(rest[0].to_string()).or_insert(0) += num(),
                "t" => {
                    self.traces.insert(u64::from_str_radix(rest[0], 16).unwrap_or(0));
                }
                "s" => {
                    self.states.insert(u64::from_str_radix(rest[0], 16).unwrap_or(0));
                }
                _ => {}
            }
        }
    }
}

// ------------------------------------------------------------------ exec

#[derive(Clone, Debug, PartialEq)]
enum Verdict {
    Fine,
    Violation { kind: String, msg: String },
}

#[derive(Clone, Debug)]
enum Source {
    Seed(u64, u64),
    Tape(PathBuf),
    /// Runs start, start+stride, ... end in one process; the last one counts.
    Sequence(u64, u64, u64, u64),
}

/// exec PROP (seed S R | tape FILE | seq S START STRIDE END) [--tape-out F] [--log-out F]
pub fn exec(a: &[String]) -> i32 {
    set_limits();
    let prop = find(&a[0]);
    let opt = |name: &str| a.iter().position(|x| x == name).map(|i| a[i + 1].clone());
    let num = |i: usize| a[i].parse::<u64>().unwrap();
    let through = opt("--tape-out").map(|f| File::create(f).unwrap());
    let verbose = opt("--log-out");
    if let Some(f) = &verbose {
        // Created first, so that a crash leaves at least an empty log.
        let _ = fs::write(f, "");
        ctx::VERBOSE.store(true, std::sync::atomic::Ordering::Relaxed);
    }
    match a[1].as_str() {
        "seed" => gen::install_seed(run_seed(num(2), prop.id, num(3)), through),
        "tape" => {
            let bytes = fs::read(&a[2]).unwrap();
            let tape = bytes
                .chunks_exact(8)
                .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                .collect();
            gen::install_tape(tape, through);
        }
        "seq" => {
            let (seed, start, stride, end) = (num(2), num(3), num(4), num(5));
            let mut r = start;
            while r < end {
                gen::install_seed(run_seed(seed, prop.id, r), None);
                let run = runner::execute(prop);
                if run.violation.is_some() {
                    break;
                }
                r += stride;
            }
            gen::install_seed(run_seed(seed, prop.id, end), through);
        }
        _ => return 2,
    }
    let run = runner::execute(prop);
    if let Some(spans) = opt("--spans-out") {
        let (_, sp) = gen::take();
        let s: String = sp.iter().map(|(a, b)| format!("{a} {b}\n")).collect();
        let _ = fs::write(spans, s);
    }
    if let Some(f) = verbose {
        let mut o = String::new();
        for n in &run.notes {
            o += n;
            o += "\n";
        }
        o += "events (global order):\n";
        for (i, (k, x, y)) in run.log.iter().enumerate() {
            o += &format!("  {i:5} {k} {x} {y}\n");
        }
        let _ = fs::write(f, o);
    }
    println!("DIGEST {:016x} steps={}", run.digest, run.sim_steps);
    match run.violation {
        None => {
            println!("FINE");
            0
        }
        Some(v) => {
            println!("KIND {}", v.kind);
            println!("MSG {}", v.msg.replace('\n', "\\n"));
            EXIT_VIOLATION
        }
    }
}

fn me() -> PathBuf {
    std::env::current_exe().unwrap()
}

fn wait_timeout(mut c: Child, limit: Duration) -> (Option<std::process::ExitStatus>, String) {
    let t0 = Instant::now();
    loop {
        match c.try_wait() {
            Ok(Some(st)) => {
                let mut s = String::new();
                if let Some(mut o) = c.stdout.take() {
                    let _ = o.read_to_string(&mut s);
                }
                return (Some(st), s);
            }
            _ => {
                if t0.elapsed() > limit {
                    let _ = c.kill();
                    let _ = c.wait();
                    return (None, String::new());
                }
                std::thread::sleep(Duration::from_micros(500));
            }
        }
    }
}

fn signal_kind(st: &std::process::ExitStatus) -> String {
    match st.signal() {
        Some(6) => "abort".into(),
        Some(11) | Some(7) => "segfault-or-stack-overflow".into(),
        Some(s) => format!("signal-{s}"),
        None => format!("exit-{}", st.code().unwrap_or(-1)),
    }
}

fn run_exec(prop: &Prop, src: &Source, extra: &[(&str, &Path)], limit: Duration) -> (Verdict, String) {
    let mut c = Command::new(me());
    c.arg("exec").arg(prop.id);
    match src {
        Source::Seed(s, r) => {
            c.arg("seed").arg(s.to_string()).arg(r.to_string());
        }
        Source::Tape(f) => {
            c.arg("tape").arg(f);
        }
        Source::Sequence(s, a, b, e) => {
            c.arg("seq");
            for x in [s, a, b, e] {
                c.arg(x.to_string());
            }
        }
    }
    for (k, v) in extra {
        c.arg(k).arg(v);
    }
    let child = c
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap();
    let (st, out) = wait_timeout(child, limit);
    let digest = out
        .lines()
        .find_map(|l| l.strip_prefix("DIGEST "))
        .unwrap_or("")
        .to_string();
    let v = match st {
        None => Verdict::Violation {
            kind: "hang".into(),
            msg: format!("the run did not finish within {} s", limit.as_secs()),
        },
        Some(st) => match st.code() {
            Some(0) => Verdict::Fine,
            Some(EXIT_VIOLATION) => Verdict::Violation {
                kind: out.lines().find_map(|l| l.strip_prefix("KIND ")).unwrap_or("?").into(),
                msg: out.lines().find_map(|l| l.strip_prefix("MSG ")).unwrap_or("?").into(),
            },
            _ => Verdict::Violation {
                kind: signal_kind(&st),
                msg: format!("the process died: {st}"),
            },
        },
    };
    (v, digest)
}

// ---------------------------------------------------------------- shrink

fn read_tape(p: &Path) -> Vec<u64> {
    fs::read(p)
        .unwrap_or_default()
        .chunks_exact(8)
        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
        .collect()
}

fn write_tape(p: &Path, t: &[u64]) {
    let b: Vec<u8> = t.iter().flat_map(|v| v.to_le_bytes()).collect();
    fs::write(p, b).unwrap();
}

struct Shrinker<'a> {
    prop: &'a Prop,
    kind: String,
    dir: PathBuf,
    deadline: Instant,
    tries: u64,
    limit: Duration,
    /// Never minimise a violation into one of these.
    known: Vec<Known>,
}

impl<'a> Shrinker<'a> {
    /// Some(canonical tape) when the candidate fails in the same way.
    fn attempt(&mut self, t: &[u64]) -> Option<Vec<u64>> {
        self.tries += 1;
        let f = self.dir.join("cand");
        let out = self.dir.join("cand.out");
        write_tape(&f, t);
        let (v, _) = run_exec(self.prop, &Source::Tape(f), &[("--tape-out", &out)], self.limit);
        match v {
            Verdict::Violation { kind, msg } if kind == self.kind && !self.known.iter().any(|k| msg.contains(&k.pattern)) => {
                let canon = read_tape(&out);
                Some(if canon.is_empty() { t.to_vec() } else { canon })
            }
            _ => None,
        }
    }

    fn better(a: &[u64], b: &[u64]) -> bool {
        (a.len(), a.iter().map(|x| *x as u128).sum::<u128>())
            < (b.len(), b.iter().map(|x| *x as u128).sum::<u128>())
    }

    fn take(&mut self, cur: &mut Vec<u64>, cand: &[u64]) -> bool {
        if let Some(c) = self.attempt(cand) {
            if Self::better(&c, cur) {
                *cur = c;
                return true;
            }
        }
        false
    }

    fn spans(&mut self, t: &[u64]) -> Vec<(usize, usize)> {
        let f = self.dir.join("cand");
        let out = self.dir.join("spans");
        write_tape(&f, t);
        let _ = fs::remove_file(&out);
        let _ = run_exec(self.prop, &Source::Tape(f), &[("--spans-out", &out)], self.limit);
        let mut v: Vec<(usize, usize)> = fs::read_to_string(&out)
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let (a, b) = l.split_once(' ')?;
                Some((a.parse().ok()?, b.parse().ok()?))
            })
            .collect();
        v.sort_by_key(|(a, b)| (std::cmp::Reverse(b - a), *a));
        v.dedup();
        v
    }

    fn over(&self) -> bool {
        Instant::now() > self.deadline
    }

    fn run(&mut self, tape: Vec<u64>) -> Vec<u64> {
        let mut cur = tape;
        // Drop the unused tail first.
        if let Some(c) = self.attempt(&cur) {
            cur = c;
        }
        loop {
            let before = cur.clone();
            // Whole operations, faults, list items.
            let mut i = 0;
            let mut spans = self.spans(&cur);
            while i < spans.len() && !self.over() {
                let (a, b) = spans[i];
                if b <= cur.len() && b - a < cur.len() {
                    let mut c = cur.clone();
                    c.drain(a..b);
                    if self.take(&mut cur, &c) {
                        spans = self.spans(&cur);
                        continue;
                    }
                }
                i += 1;
            }
            // Blocks of draws.
            let mut size = (cur.len() / 2).max(1);
            while size >= 1 && !self.over() {
                let mut at = 0;
                while at < cur.len() && !self.over() {
                    let end = (at + size).min(cur.len());
                    let mut c = cur.clone();
                    c.drain(at..end);
                    if self.take(&mut cur, &c) {
                        continue;
                    }
                    if cur[at..end].iter().any(|v| *v != 0) {
                        let mut c = cur.clone();
                        c[at..end].fill(0);
                        if self.take(&mut cur, &c) {
                            continue;
                        }
                    }
                    at += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // Single values.
            let mut at = 0;
            while at < cur.len() && !self.over() {
                let v = cur[at];
                if v > 0 {
                    let mut lo = 0;
                    let mut hi = v;
                    while lo < hi && !self.over() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = cur.clone();
                        if at >= c.len() {
                            break;
                        }
                        c[at] = mid;
                        if self.take(&mut cur, &c) {
                            hi = mid;
                        } else {
                            lo = mid + 1;
                        }
                    }
                }
                at += 1;
            }
            if cur == before || self.over() {
                return cur;
            }
        }
    }
}

// ---------------------------------------------------------------- replay

fn write_replay(
    path: &Path,
    prop: &Prop,
    kind: &str,
    msg: &str,
    origin: &str,
    src: &str,
    tape: &[u64],
    log: &str,
) {
    let mut o = String::new();
    o += "# Replay of a simulated violation: `sim replay <this file>` re-executes it.\n";
    o += &format!("property: {}\nkind: {kind}\nmessage: {msg}\norigin: {origin}\n", prop.id);
    o += &format!("source: {src}\n");
    o += "tape:";
    for t in tape {
        o += &format!(" {t}");
    }
    o += "\n--- decoded run ---\n";
    o += log;
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    fs::write(path, o).unwrap();
}

pub fn replay(a: &[String]) -> i32 {
    let text = match fs::read_to_string(&a[0]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("cannot read {}: {e}", a[0]);
            return 2;
        }
    };
    let field = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(&format!("{k}:")))
            .unwrap_or("")
            .trim()
            .to_string()
    };
    let prop = find(&field("property"));
    let dir = std::env::temp_dir().join(format!("sim-replay-{}", std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let source = field("source");
    let src = if let Some(rest) = source.strip_prefix("sequence ") {
        let v: Vec<u64> = rest.split(' ').filter_map(|s| s.parse().ok()).collect();
        Source::Sequence(v[0], v[1], v[2], v[3])
    } else {
        let tape: Vec<u64> = field("tape").split(' ').filter_map(|s| s.parse().ok()).collect();
        let f = dir.join("tape");
        write_tape(&f, &tape);
        Source::Tape(f)
    };
    let log = dir.join("log");
    let (v, digest) = run_exec(prop, &src, &[("--log-out", &log)], HANG * 2);
    print!("{}", fs::read_to_string(&log).unwrap_or_default());
    let _ = fs::remove_dir_all(&dir);
    println!("digest {digest}");
    match v {
        Verdict::Fine => {
            println!("the run is clean: the violation did not reproduce");
            0
        }
        Verdict::Violation { kind, msg } => {
            println!("{kind}: {msg}");
            println!("VIOLATION property={} replay={}", prop.id, a[0]);
            1
        }
    }
}

// ---------------------------------------------------------------- digest

/// digest PROP SEED COUNT WORKERS: per-run digests, for diffing.
pub fn digest(a: &[String]) -> i32 {
    let prop = find(&a[0]);
    let n = |i: usize| a[i].parse::<u64>().unwrap();
    let (seed, start, stride, count) = (n(1), n(2), n(3), n(4));
    let mut r = start;
    while r < count {
        gen::install_seed(run_seed(seed, prop.id, r), None);
        let run = runner::execute(prop);
        println!("{r} {:016x} {}", run.digest, run.sim_steps);
        r += stride;
    }
    0
}

// ----------------------------------------------------------------- check

pub fn check(a: &[String]) -> i32 {
    let prop = find(&a[0]);
    let opt = |name: &str| a.iter().position(|x| x == name).map(|i| a[i + 1].clone());
    let tier = opt("--tier")
        .or_else(|| std::env::var("VERIF_TIER").ok())
        .unwrap_or_else(|| "quick".into());
    let seed: u64 = opt("--seed")
        .or_else(|| std::env::var("VERIF_SEED").ok())
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64;
    let thorough = tier == "thorough";
    let workers: u64 = opt("--workers")
        .and_then(|s| s.parse().ok())
        .unwrap_or_else(|| std::thread::available_parallelism().map_or(4, |n| n.get() as u64).clamp(1, 16));
    let runs: u64 = opt("--runs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { u64::MAX / 4 } else { prop.quick_runs });
    let secs: u64 = opt("--secs")
        .and_then(|s| s.parse().ok())
        .unwrap_or(if thorough { 840 } else { 240 });
    let dir = std::env::temp_dir().join(format!("sim-{}-{}", prop.id, std::process::id()));
    fs::create_dir_all(&dir).unwrap();
    let code = check_in(prop, &tier, seed, workers, runs, secs, &dir);
    let _ = fs::remove_dir_all(&dir);
    code
}

struct Slot {
    child: Child,
    start: u64,
    last: (u64, Instant),
}

fn check_in(prop: &'static Prop, tier: &str, seed: u64, workers: u64, runs: u64, secs: u64, dir: &Path) -> i32 {
    let t0 = Instant::now();
    println!("property {} tier {tier} seed {seed} workers {workers}", prop.id);
    for k in known_findings(prop.id) {
        println!("KNOWN-FINDING: property={} {}", prop.id, k.what);
    }
    fs::write(dir.join("stop"), u64::MAX.to_le_bytes()).unwrap();
    let stop = OpenOptions::new().write(true).open(dir.join("stop")).unwrap();
    let spawn = |start: u64| -> Slot {
        let child = Command::new(me())
            .args(["worker", prop.id])
            .args([seed, start, workers, runs, secs].map(|v| v.to_string()))
            .arg(dir)
            .stdin(Stdio::null())
            .stdout(Stdio::null())
            .stderr(Stdio::null())
            .spawn()
            .unwrap();
        Slot {
            child,
            start,
            last: (u64::MAX, Instant::now()),
        }
    };
    let mut slots: Vec<Slot> = (0..workers).map(spawn).collect();
    // (run index, kind, message)
    let mut found: Vec<(u64, String, String, u64)> = Vec::new();
    let mut merged = Merged::default();
    let mut harness_error = None;
    while !slots.is_empty() {
        std::thread::sleep(Duration::from_millis(20));
        let mut i = 0;
        while i < slots.len() {
            let s = &mut slots[i];
            let mut b = [0u8; 8];
            let at = File::open(dir.join(format!("state.{}", s.start)))
                .and_then(|f| f.read_exact_at(&mut b, 0))
                .map(|_| u64::from_le_bytes(b))
                .unwrap_or(u64::MAX);
            if at != s.last.0 {
                s.last = (at, Instant::now());
            }
            let mut gone = false;
            match s.child.try_wait() {
                Ok(Some(st)) => {
                    gone = true;
                    if let Ok(t) = fs::read_to_string(dir.join(format!("stats.{}", s.start))) {
                        merged.add(&t);
                    }
                    match st.code() {
                        Some(0) => {}
                        Some(EXIT_VIOLATION) => {
                            let t = fs::read_to_string(dir.join(format!("violation.{}", s.start))).unwrap_or_default();
                            let mut l = t.splitn(3, '\n');
                            let r = l.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                            found.push((
                                r,
                                l.next().unwrap_or("?").to_string(),
                                l.next().unwrap_or("?").trim_end().to_string(),
                                s.start,
                            ));
                        }
                        Some(c) => {
                            harness_error = Some(format!("worker exited with {c}"));
                        }
                        None => {
                            if s.last.0 == u64::MAX {
                                harness_error = Some("worker died before its first run".to_string());
                            } else {
                                found.push((
                                    s.last.0,
                                    signal_kind(&st),
                                    format!("the process died: {st}"),
                                    s.start,
                                ));
                            }
                        }
                    }
                }
                _ => {
                    if s.last.1.elapsed() > HANG && s.last.0 != u64::MAX {
                        let _ = s.child.kill();
                        let _ = s.child.wait();
                        gone = true;
                        found.push((s.last.0, "hang".into(), "no progress".into(), s.start));
                    }
                }
            }
            if gone {
                slots.swap_remove(i);
                if let Some(min) = found.iter().map(|f| f.0).min() {
                    let _ = stop.write_all_at(&min.to_le_bytes(), 0);
                }
            } else {
                i += 1;
            }
        }
    }
    let search_s = t0.elapsed().as_secs_f64();
    if let Some(e) = harness_error {
        println!("HARNESS ERROR: {e}");
        return 2;
    }
    found.sort();
    let mut violations = 0;
    let mut exit = 0;
    if let Some((r, kind, msg, start)) = found.first().cloned() {
        match report(prop, seed, r, &kind, &msg, start, workers, dir) {
            Some(path) => {
                violations = 1;
                exit = 1;
                println!("VIOLATION property={} replay={}", prop.id, path.display());
            }
            None => {
                println!("HARNESS ERROR: run {r} of seed {seed} ({kind}: {msg}) did not reproduce");
                exit = 2;
            }
        }
    }
    let _ = write_evidence(prop, tier, seed, workers, &merged, search_s, t0.elapsed().as_secs_f64(), violations, dir);
    println!(
        "{}: {} runs ({:.0}/h), {} steps, {} distinct non-trivial executions, {} states, faults {:?}",
        prop.id,
        merged.runs,
        merged.runs as f64 / search_s * 3600.0,
        merged.steps,
        merged.traces.len(),
        merged.states.len(),
        merged.faults
    );
    exit
}

#[allow(clippy::too_many_arguments)]
fn report(prop: &Prop, seed: u64, r: u64, kind: &str, msg: &str, start: u64, stride: u64, dir: &Path) -> Option<PathBuf> {
    println!("run {r}: {kind}: {msg}");
    let limit = if kind == "hang" { Duration::from_secs(40) } else { HANG };
    let tape0 = dir.join("tape0");
    let (v, _) = run_exec(prop, &Source::Seed(seed, r), &[("--tape-out", &tape0)], limit);
    let path = verif_dir().join("replays").join(format!("{}-{seed}-{r}.txt", prop.id));
    let origin = format!("VERIF_SEED={seed} run={r}");
    if let Verdict::Violation { kind, .. } = &v {
        let tape = read_tape(&tape0);
        let mut sh = Shrinker {
            prop,
            kind: kind.clone(),
            dir: dir.to_path_buf(),
            deadline: Instant::now() + Duration::from_secs(if kind == "hang" { 30 } else { 60 }),
            tries: 0,
            known: known_findings(prop.id),
            limit: if kind == "hang" { Duration::from_secs(10) } else { HANG },
        };
        let small = sh.run(tape.clone());
        let f = dir.join("final");
        let log = dir.join("final.log");
        write_tape(&f, &small);
        let (v1, d1) = run_exec(prop, &Source::Tape(f.clone()), &[("--log-out", &log)], limit);
        let (v2, d2) = run_exec(prop, &Source::Tape(f), &[], limit);
        let tape_ok = matches!((&v1, &v2), (Verdict::Violation { kind: a, .. }, Verdict::Violation { kind: b, .. }) if a == b) && d1 == d2;
        let (used, v1) = if tape_ok { (small, v1) } else { (tape.clone(), v.clone()) };
        if let Verdict::Violation { kind, msg } = &v1 {
            println!("minimised from {} to {} draws in {} executions", tape.len(), used.len(), sh.tries);
            println!("{kind}: {msg}");
            let log = fs::read_to_string(&log).unwrap_or_default();
            write_replay(&path, prop, kind, msg, &origin, "tape", &used, &log);
            return Some(path);
        }
    }
    // Not reproducible alone: earlier runs of the same process matter (state
    // that survives in the library). Replay the sequence.
    let mut first = start;
    let (mut v, _) = run_exec(prop, &Source::Sequence(seed, first, stride, r), &[], Duration::from_secs(600));
    if v == Verdict::Fine {
        return None;
    }
    // Shorten the prefix.
    let t0 = Instant::now();
    let total = (r - start) / stride;
    let mut keep = 1;
    while keep < total && t0.elapsed() < Duration::from_secs(60) {
        let s = r - keep * stride;
        let (w, _) = run_exec(prop, &Source::Sequence(seed, s, stride, r), &[], Duration::from_secs(120));
        if w != Verdict::Fine {
            first = s;
            v = w;
            break;
        }
        keep *= 4;
    }
    if let Verdict::Violation { kind, msg } = &v {
        let log = dir.join("seq.log");
        let src = Source::Sequence(seed, first, stride, r);
        let _ = run_exec(prop, &src, &[("--log-out", &log)], Duration::from_secs(120));
        write_replay(
            &path,
            prop,
            kind,
            msg,
            &origin,
            &format!("sequence {seed} {first} {stride} {r}"),
            &[],
            &fs::read_to_string(&log).unwrap_or_default(),
        );
        return Some(path);
    }
    None
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn json_map(m: &BTreeMap<String, u64>) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{}: {v}", json(k))).collect();
    format!("{{{}}}", v.join(", "))
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    prop: &Prop,
    tier: &str,
    seed: u64,
    workers: u64,
    m: &Merged,
    search_s: f64,
    wall: f64,
    violations: u64,
    dir: &Path,
) -> std::io::Result<()> {
    // Two actual runs of this search, decoded.
    let mut samples = Vec::new();
    for r in [0u64, 7] {
        let log = dir.join("sample.log");
        let _ = run_exec(prop, &Source::Seed(seed, r), &[("--log-out", &log)], Duration::from_secs(20));
        let t = fs::read_to_string(&log).unwrap_or_default();
        let t: String = t.chars().take(2500).collect();
        samples.push(json(&format!("VERIF_SEED={seed} run={r}: {t}")));
    }
    let list = |v: &[&str]| v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", ");
    let text = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \
         \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"samples\": [{}],\n  \
         \"seeds_per_hour\": {:.0},\n  \"workers\": {},\n  \"simulated_steps\": {},\n  \"simulated_time\": {},\n  \
         \"faults_injected\": {},\n  \"probes\": {},\n  \"distinct_states\": {},\n  \"state_measure\": {},\n  \
         \"real_components\": [{}],\n  \"stub_components\": [{}]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json(prop.id),
        json(tier),
        seed as i64,
        m.runs,
        m.traces.len(),
        json(prop.rule),
        samples.join(", "),
        m.runs as f64 / search_s.max(0.001) * 3600.0,
        workers,
        m.steps,
        json("the library has no clocks or timers: simulated time is the global event order, counted in simulated_steps"),
        json_map(&m.faults),
        json_map(&m.probes),
        m.states.len(),
        json(prop.state_measure),
        list(prop.real),
        list(prop.stub),
        list(prop.assumptions),
        wall,
        violations
    );
    let d = verif_dir().join("evidence");
    fs::create_dir_all(&d)?;
    let mut f = File::create(d.join(format!("{}.json", prop.id)))?;
    f.write_all(text.as_bytes())
}

