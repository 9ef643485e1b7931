//! The I/O seams: readers and writers whose every reaction is decided by the
//! tape (fragmentation, EINTR, errors of every kind, zero-length writes,
//! panics, power loss), plus the simulated disk and the bounded pipe.

use crate::alloc::untracked;
use crate::ctx;
use crate::gen;
use crate::sched;
use std::error::Error as StdError;
use std::fmt;
use std::io::{self, ErrorKind, Read, Write};
use std::sync::{Arc, Mutex, MutexGuard};

/// Panic payload of an injected panic.
#[derive(Debug, Clone, PartialEq)]
pub struct Injected(pub u64);

#[derive(Debug)]
pub struct SimError {
    pub msg: String,
    pub cause: Option<Box<SimError>>,
}

impl fmt::Display for SimError {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.msg)
    }
}

impl StdError for SimError {
    fn source(&self) -> Option<&(dyn StdError + 'static)> {
        self.cause.as_ref().map(|c| &**c as _)
    }
}

const KINDS: &[ErrorKind] = &[
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::BrokenPipe,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::WriteZero,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::AddrInUse,
    ErrorKind::ConnectionRefused,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::StorageFull,
    ErrorKind::StaleNetworkFileHandle,
    ErrorKind::ResourceBusy,
];

const ERRNOS: &[i32] = &[5, 11, 28, 32, 104, 9, 27, 122, 110, 21];

/// An error to inject; can be made any number of times.
#[derive(Clone, Debug)]
pub enum ErrSpec {
    Custom(usize, u64, bool),
    Simple(usize),
    Os(usize),
    /// A signal: what a flush may pass on, and may retry.
    Eintr,
}

impl ErrSpec {
    /// What a flush may fail with: also an interruption.
    pub fn draw_flush() -> ErrSpec {
        match gen::pick(6) {
            0 => ErrSpec::Eintr,
            _ => ErrSpec::draw(),
        }
    }

    pub fn draw() -> ErrSpec {
        match gen::pick(3) {
            0 => ErrSpec::Custom(gen::idx(KINDS.len()), gen::pick(1000), gen::chance(1, 2)),
            1 => ErrSpec::Simple(gen::idx(KINDS.len())),
            _ => ErrSpec::Os(gen::idx(ERRNOS.len())),
        }
    }

    pub fn make(&self) -> io::Error {
        match self {
            ErrSpec::Custom(k, n, cause) => io::Error::new(
                KINDS[*k],
                SimError {
                    msg: format!("simulated fault {n}"),
                    cause: cause.then(|| {
                        Box::new(SimError {
                            msg: format!("root cause {n}"),
                            cause: None,
                        })
                    }),
                },
            ),
            ErrSpec::Simple(k) => KINDS[*k].into(),
            ErrSpec::Os(n) => io::Error::from_raw_os_error(ERRNOS[*n]),
            ErrSpec::Eintr => io::Error::from_raw_os_error(4),
        }
    }

    pub fn label(&self) -> &'static str {
        let kind = match self {
            ErrSpec::Custom(k, ..) | ErrSpec::Simple(k) => KINDS[*k],
            ErrSpec::Os(_) => return "io-error:os",
            ErrSpec::Eintr => return "io-error:EINTR",
        };
        match kind {
            ErrorKind::Other => "io-error:Other",
            ErrorKind::UnexpectedEof => "io-error:UnexpectedEof",
            ErrorKind::BrokenPipe => "io-error:BrokenPipe",
            ErrorKind::WouldBlock => "io-error:WouldBlock",
            ErrorKind::TimedOut => "io-error:TimedOut",
            ErrorKind::WriteZero => "io-error:WriteZero",
            ErrorKind::InvalidData => "io-error:InvalidData",
            ErrorKind::StorageFull => "io-error:StorageFull",
            _ => "io-error:other-kinds",
        }
    }

    /// Does `err` carry this I/O error: its message and its cause?
    pub fn matches(&self, err: &serde_yaml::Error) -> Result<(), String> {
        let io = self.make();
        let want = io.to_string();
        let got = err.to_string();
        if !got.contains(&want) {
            return Err(format!("message {got:?} does not carry the I/O error {want:?}"));
        }
        let want_src = io.source().map(|s| s.to_string());
        if let Some(w) = want_src {
            // The chain below the error must still reach the cause.
            let mut cur: Option<&(dyn StdError + 'static)> = err.source();
            let mut found = false;
            while let Some(e) = cur {
                if e.to_string() == w {
                    found = true;
                }
                cur = e.source();
            }
            if !found {
                return Err(format!("the cause {w:?} is no longer in the source chain"));
            }
        }
        Ok(())
    }
}

/// How a stream is cut into pieces.
#[derive(Clone, Debug)]
pub struct Chop {
    mode: u8,
    n: usize,
    eintr: u8,
    burst: u64,
    budget: u64,
    pending: u64,
    alternate: bool,
    steps: u64,
}

impl Chop {
    pub fn whole() -> Chop {
        Chop {
            mode: 0,
            n: usize::MAX,
            eintr: 0,
            burst: 0,
            budget: 0,
            pending: 0,
            alternate: false,
            steps: 0,
        }
    }

    pub fn draw(allow_eintr: bool) -> Chop {
        let mode = gen::weighted(&[2, 2, 2, 4, 2]) as u8;
        let n = match mode {
            1 => 1,
            2 => *gen::one(&[2usize, 3, 4, 7, 16, 31, 32, 33, 64, 1000, 4096, 8192, 16383, 16384]),
            3 => *gen::one(&[2usize, 5, 40, 300, 5000, 17000]),
            _ => usize::MAX,
        };
        let eintr = if allow_eintr {
            gen::weighted(&[3, 2, 3, 2]) as u8
        } else {
            0
        };
        let burst = if eintr == 3 { gen::range(2, 40) } else { 0 };
        Chop {
            mode,
            n,
            eintr,
            burst,
            budget: 600,
            pending: 0,
            alternate: false,
            steps: 0,
        }
    }

    /// Should this call be interrupted?
    pub fn interrupted(&mut self) -> bool {
        if self.budget == 0 {
            return false;
        }
        let hit = match self.eintr {
            0 => false,
            1 => {
                self.alternate = !self.alternate;
                self.alternate
            }
            2 => gen::chance(1, 4),
            _ => {
                if self.pending > 0 {
                    self.pending -= 1;
                    self.pending > 0
                } else if gen::chance(1, 6) {
                    self.pending = self.burst;
                    true
                } else {
                    false
                }
            }
        };
        if hit {
            self.budget -= 1;
        }
        hit
    }

    /// How much of `want` bytes goes through in this call (at least 1).
    pub fn amount(&mut self, want: usize) -> usize {
        self.steps += 1;
        if want <= 1 || self.steps > 1500 {
            return want;
        }
        let n = match self.mode {
            0 => want,
            1 | 2 => self.n,
            3 => 1 + gen::idx(self.n.min(want)),
            _ => {
                // Mostly whole, sometimes everything but the last byte or
                // just the first.
                match gen::pick(4) {
                    0 => want,
                    1 => want - 1,
                    2 => 1,
                    _ => 1 + gen::idx(want),
                }
            }
        };
        n.clamp(1, want)
    }
}

#[derive(Default, Debug)]
pub struct ReadStats {
    pub calls: u64,
    pub data_calls: u64,
    pub eintr: u64,
    pub eof: u64,
    pub errors: u64,
    pub calls_after_error: u64,
    pub drops: u64,
    pub empty_bufs: u64,
    pub flushes: u64,
}

pub type Shared<T> = Arc<Mutex<T>>;

pub fn shared<T>(v: T) -> Shared<T> {
    Arc::new(Mutex::new(v))
}

pub fn lock<T>(s: &Shared<T>) -> MutexGuard<'_, T> {
    s.lock().unwrap_or_else(|e| e.into_inner())
}

#[derive(Clone, Debug)]
pub enum FaultKind {
    Err(ErrSpec),
    Panic(u64),
    /// `Ok(0)` from a write.
    Zero,
}

#[derive(Clone, Debug)]
pub struct Fault {
    /// Fires when this many bytes have gone through.
    pub at: usize,
    pub kind: FaultKind,
    /// Keeps failing, as a dead disk does; otherwise the next call works.
    pub sticky: bool,
}

pub struct SimReader {
    data: Arc<Vec<u8>>,
    pos: usize,
    chop: Chop,
    fault: Option<Fault>,
    fired: bool,
    stats: Shared<ReadStats>,
}

impl SimReader {
    pub fn new(data: Arc<Vec<u8>>, chop: Chop, fault: Option<Fault>, stats: &Shared<ReadStats>) -> Self {
        SimReader {
            data,
            pos: 0,
            chop,
            fault,
            fired: false,
            stats: Arc::clone(stats),
        }
    }
}

impl Drop for SimReader {
    fn drop(&mut self) {
        lock(&self.stats).drops += 1;
    }
}

impl Read for SimReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::yield_point();
        {
            let mut st = lock(&self.stats);
            st.calls += 1;
            if st.errors > 0 {
                st.calls_after_error += 1;
            }
            if buf.is_empty() {
                st.empty_bufs += 1;
            }
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.chop.interrupted() {
            lock(&self.stats).eintr += 1;
            ctx::fault("read:EINTR");
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some(f) = &self.fault {
            if self.pos >= f.at && (!self.fired || f.sticky) {
                self.fired = true;
                lock(&self.stats).errors += 1;
                match &f.kind {
                    FaultKind::Err(e) => {
                        ctx::fault("read:error");
                        ctx::probe(e.label());
                        return Err(e.make());
                    }
                    FaultKind::Panic(id) => {
                        ctx::fault("read:panic");
                        std::panic::panic_any(Injected(*id));
                    }
                    FaultKind::Zero => {
                        ctx::fault("read:early-eof");
                        lock(&self.stats).eof += 1;
                        return Ok(0);
                    }
                }
            }
        }
        let mut avail = self.data.len() - self.pos;
        if let Some(f) = &self.fault {
            if !self.fired {
                avail = avail.min(f.at - self.pos);
            }
        }
        let want = avail.min(buf.len());
        if want == 0 {
            ctx::ev("read-eof", self.pos as u64, 0);
            lock(&self.stats).eof += 1;
            return Ok(0);
        }
        let n = self.chop.amount(want);
        buf[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        lock(&self.stats).data_calls += 1;
        if n < want {
            ctx::fault("read:short");
        } else {
            ctx::ev("read", self.pos as u64, n as u64);
        }
        Ok(n)
    }
}

/// What a writer has received; survives the writer.
#[derive(Default, Debug)]
pub struct Sink {
    pub bytes: Vec<u8>,
    /// Length of `bytes` at the last successful flush (made durable).
    pub durable: usize,
    pub calls: u64,
    pub eintr: u64,
    pub flushes: u64,
    pub faults_fired: u64,
    pub flush_faults: u64,
    pub flushed_since_fault: bool,
    /// Bytes accepted when the first fault fired.
    pub first_fault_at: Option<usize>,
    pub writes_after_fault: u64,
    pub drops: u64,
    pub empty_writes: u64,
    pub vectored: u64,
}

impl Sink {
    fn fault(&mut self, flush: bool) {
        self.faults_fired += 1;
        self.flush_faults += flush as u64;
        self.flushed_since_fault = false;
        let at = self.bytes.len();
        self.first_fault_at.get_or_insert(at);
    }
}

#[derive(Clone, Debug)]
pub struct WritePlan {
    pub chop: Chop,
    pub fault: Option<Fault>,
    /// Fails the n-th flush (0-based) with this error.
    pub flush_fault: Option<(u64, ErrSpec)>,
    /// Panics in the n-th flush.
    pub flush_panic: Option<(u64, u64)>,
    /// EINTR from flush is passed on to the caller by io::Write convention;
    /// never injected.
    pub capacity: usize,
}

impl WritePlan {
    pub fn clean() -> WritePlan {
        WritePlan {
            chop: Chop::whole(),
            fault: None,
            flush_fault: None,
            flush_panic: None,
            capacity: usize::MAX,
        }
    }
    pub fn chopped() -> WritePlan {
        WritePlan {
            chop: Chop::draw(true),
            ..WritePlan::clean()
        }
    }
}

pub struct SimWriter {
    pub id: u64,
    sink: Shared<Sink>,
    plan: WritePlan,
    fired: bool,
    flush_calls: u64,
}

impl SimWriter {
    pub fn new(id: u64, plan: WritePlan, sink: &Shared<Sink>) -> SimWriter {
        SimWriter {
            id,
            sink: Arc::clone(sink),
            plan,
            fired: false,
            flush_calls: 0,
        }
    }
}

impl Drop for SimWriter {
    fn drop(&mut self) {
        lock(&self.sink).drops += 1;
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::yield_point();
        let pos = {
            let mut s = lock(&self.sink);
            s.calls += 1;
            if s.faults_fired > 0 {
                s.writes_after_fault += 1;
            }
            if buf.is_empty() {
                s.empty_writes += 1;
                return Ok(0);
            }
            s.bytes.len()
        };
        if self.plan.chop.interrupted() {
            lock(&self.sink).eintr += 1;
            ctx::fault("write:EINTR");
            return Err(ErrorKind::Interrupted.into());
        }
        if let Some(f) = &self.plan.fault {
            if pos >= f.at && (!self.fired || f.sticky) {
                self.fired = true;
                lock(&self.sink).fault(false);
                match &f.kind {
                    FaultKind::Err(e) => {
                        ctx::fault("write:error");
                        ctx::probe(e.label());
                        return Err(e.make());
                    }
                    FaultKind::Panic(id) => {
                        ctx::fault("write:panic");
                        std::panic::panic_any(Injected(*id));
                    }
                    FaultKind::Zero => {
                        ctx::fault("write:zero");
                        return Ok(0);
                    }
                }
            }
        }
        let mut room = buf.len();
        if let Some(f) = &self.plan.fault {
            if !self.fired {
                room = room.min(f.at - pos);
            }
        }
        let n = self.plan.chop.amount(room);
        untracked(|| lock(&self.sink).bytes.extend_from_slice(&buf[..n]));
        if n < buf.len() {
            ctx::fault("write:short");
        } else {
            ctx::ev("write", pos as u64, n as u64);
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        sched::yield_point();
        let n = self.flush_calls;
        self.flush_calls += 1;
        if let Some((at, e)) = &self.plan.flush_fault {
            if *at == n {
                lock(&self.sink).fault(true);
                ctx::fault(if matches!(e, ErrSpec::Eintr) { "flush:EINTR" } else { "flush:error" });
                return Err(e.make());
            }
        }
        if let Some((at, id)) = &self.plan.flush_panic {
            if *at == n {
                lock(&self.sink).fault(true);
                ctx::fault("flush:panic");
                std::panic::panic_any(Injected(*id));
            }
        }
        let mut s = lock(&self.sink);
        s.flushes += 1;
        s.flushed_since_fault = true;
        s.durable = s.bytes.len();
        drop(s);
        ctx::ev("flush", n, 0);
        Ok(())
    }
}

/// Bounded byte pipe between two tasks.
#[derive(Default)]
pub struct PipeState {
    buf: std::collections::VecDeque<u8>,
    cap: usize,
    writer_gone: bool,
    reader_gone: bool,
    /// The reading side failed by plan / a write met a missing reader.
    pub died: bool,
    pub epipe: u64,
    pub moved: u64,
    pub full_waits: u64,
    pub empty_waits: u64,
}

pub struct PipeWriter {
    st: Shared<PipeState>,
    key: u64,
    chop: Chop,
}

pub struct PipeReader {
    st: Shared<PipeState>,
    key: u64,
    chop: Chop,
    /// The reading side disappears after this many bytes.
    die_after: Option<usize>,
    got: usize,
}

pub fn pipe(key: u64, cap: usize, wchop: Chop, rchop: Chop, die_after: Option<usize>) -> (PipeWriter, PipeReader, Shared<PipeState>) {
    let st = untracked(|| {
        shared(PipeState {
            cap,
            ..PipeState::default()
        })
    });
    (
        PipeWriter {
            st: Arc::clone(&st),
            key,
            chop: wchop,
        },
        PipeReader {
            st: Arc::clone(&st),
            key,
            chop: rchop,
            die_after,
            got: 0,
        },
        st,
    )
}

impl Write for PipeWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        sched::yield_point();
        if buf.is_empty() {
            return Ok(0);
        }
        if self.chop.interrupted() {
            ctx::fault("pipe-write:EINTR");
            return Err(ErrorKind::Interrupted.into());
        }
        loop {
            {
                let mut s = lock(&self.st);
                if s.reader_gone {
                    s.epipe += 1;
                    drop(s);
                    ctx::fault("pipe:EPIPE");
                    return Err(ErrorKind::BrokenPipe.into());
                }
                let room = s.cap - s.buf.len();
                if room > 0 {
                    let n = self.chop.amount(room.min(buf.len()));
                    untracked(|| s.buf.extend(&buf[..n]));
                    s.moved += n as u64;
                    drop(s);
                    ctx::ev("pipe-write", self.key, n as u64);
                    sched::wake(self.key);
                    return Ok(n);
                }
                s.full_waits += 1;
            }
            ctx::fault("pipe:backpressure");
            if !sched::block_on(self.key) {
                std::panic::panic_any(sched::SchedAbort);
            }
        }
    }

    fn flush(&mut self) -> io::Result<()> {
        sched::yield_point();
        Ok(())
    }
}

impl Drop for PipeWriter {
    fn drop(&mut self) {
        lock(&self.st).writer_gone = true;
        sched::wake(self.key);
    }
}

impl Read for PipeReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        sched::yield_point();
        if buf.is_empty() {
            return Ok(0);
        }
        if let Some(d) = self.die_after {
            if self.got >= d {
                ctx::fault("pipe:reader-died");
                lock(&self.st).died = true;
                return Err(ErrorKind::ConnectionReset.into());
            }
        }
        if self.chop.interrupted() {
            ctx::fault("pipe-read:EINTR");
            return Err(ErrorKind::Interrupted.into());
        }
        loop {
            {
                let mut s = lock(&self.st);
                if !s.buf.is_empty() {
                    let n = self.chop.amount(s.buf.len().min(buf.len()));
                    for b in buf[..n].iter_mut() {
                        *b = s.buf.pop_front().unwrap();
                    }
                    drop(s);
                    self.got += n;
                    ctx::ev("pipe-read", self.key, n as u64);
                    sched::wake(self.key);
                    return Ok(n);
                }
                if s.writer_gone {
                    drop(s);
                    ctx::ev("pipe-eof", self.key, 0);
                    return Ok(0);
                }
                s.empty_waits += 1;
            }
            if !sched::block_on(self.key) {
                std::panic::panic_any(sched::SchedAbort);
            }
        }
    }
}

impl Drop for PipeReader {
    fn drop(&mut self) {
        lock(&self.st).reader_gone = true;
        sched::wake(self.key);
    }
}
