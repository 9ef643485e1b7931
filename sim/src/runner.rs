//! One simulated run: fresh thread, controlled hash seed, allocator
//! accounting, verdict.

use crate::alloc;
use crate::ctx::{self, Run};
use crate::gen;
use crate::props::Prop;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::*};
use std::sync::Mutex;

pub static HASH_SEED: AtomicU64 = AtomicU64::new(0);
static LAST_PANIC: Mutex<String> = Mutex::new(String::new());

/// The only source of randomness std's HashMap (and so IndexMap) knows on
/// Linux; interposed so that the simulator decides it.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut s = HASH_SEED.load(Relaxed);
    for i in 0..len {
        s = gen::mix(s, i as u64);
        *buf.add(i) = s as u8;
    }
    len as isize
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        alloc::untracked(|| {
            let msg = info
                .payload()
                .downcast_ref::<&str>()
                .map(|s| s.to_string())
                .or_else(|| info.payload().downcast_ref::<String>().cloned());
            let msg = match msg {
                Some(m) => format!(
                    "{m} ({})",
                    info.location().map(|l| l.to_string()).unwrap_or_default()
                ),
                None => return,
            };
            *LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()) = msg;
        })
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.lock().unwrap_or_else(|e| e.into_inner()).clone()
}

/// Executes one run on the installed tape.
pub fn execute(prop: &'static Prop) -> Run {
    alloc::reset();
    ctx::begin_run();
    let handle = std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            // The per-thread hash keys derive from this draw.
            HASH_SEED.store(gen::pick(1 << 20), Relaxed);
            let r = alloc::tracked(|| catch_unwind(AssertUnwindSafe(|| (prop.run)())));
            if let Err(p) = r {
                let mark = p.downcast_ref::<crate::io::Injected>().cloned();
                alloc::tracked(|| drop(p));
                ctx::violate("panic", || match mark {
                    Some(m) => format!("an injected panic ({m:?}) surfaced in the wrong place"),
                    None => format!("the library panicked: {}", last_panic()),
                });
            }
        })
        .unwrap();
    let _ = handle.join();
    if alloc::CORRUPTION.load(Relaxed) == 0 {
        alloc::drain_quarantine();
    }
    let c = alloc::CORRUPTION.load(Relaxed);
    if c != 0 {
        ctx::violate("memory", || format!("heap corruption: {}", alloc::CORRUPTIONS[c]));
    }
    let live = alloc::LIVE_COUNT.load(Relaxed);
    if live != 0 && prop.leaks && !ctx::violated() {
        ctx::violate("leak", || {
            format!(
                "{live} blocks ({} bytes) still allocated after everything was dropped",
                alloc::LIVE_BYTES.load(Relaxed)
            )
        });
    }
    let run = ctx::end_run();
    if live != 0 && !prop.leaks {
        ctx::probe("leak-seen");
    }
    run
}
