//! std's locks (Mutex, RwLock, Once, Condvar, park) wait and wake through
//! `syscall(SYS_futex, ...)`. The simulator interposes that symbol: a task that would
//! wait is blocked in the simulated scheduler instead, so a task may be
//! preempted while it holds a lock, and a deadlock of locks is noticed.

use crate::sched;
use std::ffi::c_long;

const SYS_FUTEX: c_long = 202;
const EAGAIN: i32 = 11;
const ETIMEDOUT: i32 = 110;

extern "C" {
    fn __errno_location() -> *mut i32;
    fn abort() -> !;
}

fn fail(errno: i32) -> c_long {
    unsafe { *__errno_location() = errno };
    -1
}

#[no_mangle]
pub unsafe extern "C" fn syscall(
    n: c_long,
    a: c_long,
    b: c_long,
    c: c_long,
    d: c_long,
    e: c_long,
    f: c_long,
) -> c_long {
    if n == SYS_FUTEX && sched::is_scheduled() {
        match b & 0x7f {
            // FUTEX_WAIT, FUTEX_WAIT_BITSET
            0 | 9 => {
                let word = &*(a as *const std::sync::atomic::AtomicU32);
                if word.load(std::sync::atomic::Ordering::SeqCst) != c as u32 {
                    return fail(EAGAIN);
                }
                if d != 0 {
                    // Simulated time passes when everybody else has had a turn.
                    sched::yield_point();
                    return fail(ETIMEDOUT);
                }
                if !sched::block_on(a as u64 | 1 << 63) {
                    // A deadlock of locks: there is no way to unwind.
                    abort();
                }
                return 0;
            }
            // FUTEX_WAKE, FUTEX_WAKE_BITSET
            1 | 10 => sched::wake_some(a as u64 | 1 << 63, c as u32 as u64),
            _ => {}
        }
    }
    let r: c_long;
    std::arch::asm!(
        "syscall",
        inlateout("rax") n => r,
        in("rdi") a,
        in("rsi") b,
        in("rdx") c,
        in("r10") d,
        in("r8") e,
        in("r9") f,
        lateout("rcx") _,
        lateout("r11") _,
        options(nostack)
    );
    if (-4095..0).contains(&r) {
        return fail(-r as i32);
    }
    r
}
