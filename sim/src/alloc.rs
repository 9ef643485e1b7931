//! Global allocator of the simulator: every block carries an owner tag (leak
//! accounting per run), red zones, layout checks, poison on free and a
//! quarantine (use-after-free and double-free detection). Everything it
//! decides is a function of the sequence of calls.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

pub struct SimAlloc;

const LIVE: u64 = 0x51A1_10C8_7E57_ED01;
const DEAD: u64 = 0xDEAD_10C8_7E57_ED02;
const TAIL: usize = 16;
const POISON: u8 = 0xDB;
const RED: u8 = 0xA7;

#[repr(C)]
struct Header {
    magic: u64,
    size: u64,
    align: u32,
    tag: u32,
    serial: u64,
}

const HEAD: usize = 32;

thread_local! {
    static TAG: Cell<u32> = const { Cell::new(0) };
}

pub static LIVE_COUNT: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
pub static PEAK_BYTES: AtomicI64 = AtomicI64::new(0);
pub static TOTAL_ALLOCS: AtomicU64 = AtomicU64::new(0);
pub static TOTAL_BYTES: AtomicU64 = AtomicU64::new(0);
/// 0 = fine, else the first corruption found.
pub static CORRUPTION: AtomicUsize = AtomicUsize::new(0);
static LIMIT: AtomicI64 = AtomicI64::new(i64::MAX);

/// Which tracked allocations fail (see `Shortage`).
static SHORT: AtomicBool = AtomicBool::new(false);
static SHORT_FROM: AtomicU64 = AtomicU64::new(0);
static SHORT_COUNT: AtomicU64 = AtomicU64::new(1);
static SHORT_SIZE: AtomicUsize = AtomicUsize::new(0);
static SHORT_LIVE: AtomicI64 = AtomicI64::new(i64::MAX);
static SHORT_SEEN: AtomicU64 = AtomicU64::new(0);
pub static SHORT_FIRED: AtomicU64 = AtomicU64::new(0);

/// A simulated lack of memory, counted from `shortage` on.
#[derive(Clone, Copy, Debug)]
pub struct Shortage {
    /// The first allocation that may fail.
    pub from: u64,
    /// How many allocations from there on do.
    pub count: u64,
    /// Only those of at least this size.
    pub size: usize,
    /// Only those that would leave more than this many bytes in use.
    pub live: i64,
}

pub fn shortage(s: Option<Shortage>) {
    if let Some(s) = s {
        SHORT_FROM.store(s.from, Relaxed);
        SHORT_COUNT.store(s.count, Relaxed);
        SHORT_SIZE.store(s.size, Relaxed);
        SHORT_LIVE.store(LIVE_BYTES.load(Relaxed).saturating_add(s.live), Relaxed);
        SHORT_SEEN.store(0, Relaxed);
        SHORT_FIRED.store(0, Relaxed);
    }
    SHORT.store(s.is_some(), Relaxed);
}

fn short(size: usize) -> bool {
    if size < SHORT_SIZE.load(Relaxed) {
        return false;
    }
    if LIVE_BYTES.load(Relaxed) + size as i64 <= SHORT_LIVE.load(Relaxed) && SHORT_LIVE.load(Relaxed) != i64::MAX {
        return false;
    }
    let n = SHORT_SEEN.fetch_add(1, Relaxed);
    let from = SHORT_FROM.load(Relaxed);
    let hit = n >= from && n - from < SHORT_COUNT.load(Relaxed);
    if hit {
        SHORT_FIRED.fetch_add(1, Relaxed);
    }
    hit
}

pub const CORRUPTIONS: [&str; 6] = [
    "none",
    "double free or free of a foreign pointer",
    "deallocation with a different layout",
    "write past the end of a block",
    "write to a block after it was freed",
    "write before the start of a block",
];

pub fn tag() -> u32 {
    TAG.with(|t| t.get())
}

pub fn set_tag(v: u32) {
    TAG.with(|t| t.set(v));
}

struct Restore(u32);
impl Drop for Restore {
    fn drop(&mut self) {
        set_tag(self.0);
    }
}

/// Runs harness code whose allocations outlive the run.
pub fn untracked<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(tag());
    set_tag(0);
    f()
}

pub fn tracked<T>(f: impl FnOnce() -> T) -> T {
    let _r = Restore(tag());
    set_tag(1);
    f()
}

/// Live bytes now and the most there were at once while `f` ran.
pub fn peak<T>(f: impl FnOnce() -> T) -> (T, i64) {
    let before = LIVE_BYTES.load(Relaxed);
    PEAK_BYTES.store(before, Relaxed);
    let r = f();
    (r, PEAK_BYTES.load(Relaxed) - before)
}

pub fn reset() {
    LIVE_COUNT.store(0, Relaxed);
    LIVE_BYTES.store(0, Relaxed);
    TOTAL_ALLOCS.store(0, Relaxed);
    TOTAL_BYTES.store(0, Relaxed);
    CORRUPTION.store(0, Relaxed);
    GENERATION.fetch_add(1, Relaxed);
    LIMIT.store(1 << 30, Relaxed);
}

/// Tag value of the current run; blocks that leaked from an earlier run do
/// not disturb the accounting of this one.
static GENERATION: AtomicU64 = AtomicU64::new(1);

fn corrupt(code: usize) {
    let _ = CORRUPTION.compare_exchange(0, code, Relaxed, Relaxed);
}

struct Spin(AtomicBool);
impl Spin {
    fn lock(&self) {
        while self.0.compare_exchange_weak(false, true, Acquire, Relaxed).is_err() {
            std::hint::spin_loop();
        }
    }
    fn unlock(&self) {
        self.0.store(false, Release);
    }
}

const RING: usize = 512;
const RING_BYTES: usize = 4 << 20;
struct Quarantine {
    lock: Spin,
    ring: std::cell::UnsafeCell<[(usize, usize, usize); RING]>, // base, total, align
    head: AtomicUsize,
    len: AtomicUsize,
    bytes: AtomicUsize,
}
unsafe impl Sync for Quarantine {}
static Q: Quarantine = Quarantine {
    lock: Spin(AtomicBool::new(false)),
    ring: std::cell::UnsafeCell::new([(0, 0, 0); RING]),
    head: AtomicUsize::new(0),
    len: AtomicUsize::new(0),
    bytes: AtomicUsize::new(0),
};

fn offset(align: usize) -> usize {
    (HEAD + align - 1) / align * align
}

unsafe fn release(base: usize, total: usize, align: usize) {
    let off = offset(align);
    let user = (base + off) as *const u8;
    let size = total - off - TAIL;
    let h = (base + off - HEAD) as *const Header;
    if (*h).magic != DEAD {
        corrupt(5);
    }
    // Large blocks are only sampled at both ends.
    let body = std::slice::from_raw_parts(user, size);
    let check = |s: &[u8]| s.iter().all(|b| *b == POISON);
    let ok = if size <= 8192 {
        check(body)
    } else {
        check(&body[..4096]) && check(&body[size - 4096..])
    };
    if !ok {
        corrupt(4);
    }
    System.dealloc(base as *mut u8, Layout::from_size_align_unchecked(total, align));
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let align = l.align().max(16);
        let off = offset(align);
        let total = match l.size().checked_add(off + TAIL) {
            Some(t) => t,
            None => return std::ptr::null_mut(),
        };
        let tag = tag();
        if tag != 0 {
            crate::sched::alloc_point();
            let live = LIVE_BYTES.load(Relaxed) + l.size() as i64;
            if live > LIMIT.load(Relaxed) || SHORT.load(Relaxed) && short(l.size()) {
                return std::ptr::null_mut();
            }
        }
        let base = System.alloc(Layout::from_size_align_unchecked(total, align));
        if base.is_null() {
            return base;
        }
        let user = base.add(off);
        let generation = GENERATION.load(Relaxed);
        *(user.sub(HEAD) as *mut Header) = Header {
            magic: LIVE,
            size: l.size() as u64,
            align: l.align() as u32,
            tag,
            serial: generation,
        };
        std::ptr::write_bytes(user.add(l.size()), RED, TAIL);
        if l.size() <= 65536 {
            std::ptr::write_bytes(user, 0xC5, l.size());
        }
        if tag != 0 {
            LIVE_COUNT.fetch_add(1, Relaxed);
            let live = LIVE_BYTES.fetch_add(l.size() as i64, Relaxed) + l.size() as i64;
            if live > PEAK_BYTES.load(Relaxed) {
                PEAK_BYTES.store(live, Relaxed);
            }
            TOTAL_ALLOCS.fetch_add(1, Relaxed);
            TOTAL_BYTES.fetch_add(l.size() as u64, Relaxed);
        }
        user
    }

    unsafe fn dealloc(&self, user: *mut u8, l: Layout) {
        let h = user.sub(HEAD) as *mut Header;
        if (*h).magic != LIVE {
            corrupt(1);
            return;
        }
        let size = (*h).size as usize;
        if size != l.size() || (*h).align as usize != l.align() {
            corrupt(2);
        }
        if (*h).tag != 0 && tag() != 0 {
            crate::sched::alloc_point();
        }
        let align = ((*h).align as usize).max(16);
        let off = offset(align);
        let total = size + off + TAIL;
        if std::slice::from_raw_parts(user.add(size), TAIL).iter().any(|b| *b != RED) {
            corrupt(3);
        }
        if (*h).tag != 0 && (*h).serial == GENERATION.load(Relaxed) {
            LIVE_COUNT.fetch_sub(1, Relaxed);
            LIVE_BYTES.fetch_sub(size as i64, Relaxed);
        }
        let tracked = (*h).tag != 0;
        (*h).magic = DEAD;
        if !tracked || total > RING_BYTES / 4 {
            // Harness memory and huge blocks go straight back.
            System.dealloc(user.sub(off), Layout::from_size_align_unchecked(total, align));
            return;
        }
        if size <= 8192 {
            std::ptr::write_bytes(user, POISON, size);
        } else {
            std::ptr::write_bytes(user, POISON, 4096);
            std::ptr::write_bytes(user.add(size - 4096), POISON, 4096);
        }
        Q.lock.lock();
        let ring = &mut *Q.ring.get();
        let mut len = Q.len.load(Relaxed);
        let mut head = Q.head.load(Relaxed);
        let mut bytes = Q.bytes.load(Relaxed);
        while len == RING || (len > 0 && bytes + total > RING_BYTES) {
            let (b, t, a) = ring[head];
            head = (head + 1) % RING;
            len -= 1;
            bytes -= t;
            release(b, t, a);
        }
        ring[(head + len) % RING] = (user.sub(off) as usize, total, align);
        len += 1;
        bytes += total;
        Q.len.store(len, Relaxed);
        Q.head.store(head, Relaxed);
        Q.bytes.store(bytes, Relaxed);
        Q.lock.unlock();
    }
}

/// Checks every block still in quarantine (called between runs).
pub fn drain_quarantine() {
    unsafe {
        Q.lock.lock();
        let ring = &mut *Q.ring.get();
        let mut len = Q.len.load(Relaxed);
        let mut head = Q.head.load(Relaxed);
        while len > 0 {
            let (b, t, a) = ring[head];
            head = (head + 1) % RING;
            len -= 1;
            release(b, t, a);
        }
        Q.len.store(0, Relaxed);
        Q.head.store(head, Relaxed);
        Q.bytes.store(0, Relaxed);
        Q.lock.unlock();
    }
}
