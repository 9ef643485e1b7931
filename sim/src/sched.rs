//! Cooperative scheduler: real threads of which exactly one runs at a time.
//! They hand over only at the simulator's seams (reader, writer, visitor and
//! serializer callbacks, pipe operations), where they wait for a lock, and, when
//! asked to, at allocations in between. Who continues is a draw of the tape.

use crate::alloc::{set_tag, tag, untracked};
use crate::ctx;
use crate::gen;
use std::cell::Cell;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::{Condvar, Mutex};
use std::thread;

thread_local! {
    static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    /// The scheduler itself is at work on this thread.
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Status {
    Ready,
    Blocked(u64),
    Done,
}

struct State {
    current: usize,
    status: Vec<Status>,
    switches: u64,
    deadlock: bool,
    bias: u64,
    steps: u64,
}

static STATE: Mutex<Option<State>> = Mutex::new(None);
static WAKE: Condvar = Condvar::new();
/// Mean number of allocations between preemptions; 0 = none.
static PREEMPT: AtomicU64 = AtomicU64::new(0);
static UNTIL: AtomicU64 = AtomicU64::new(0);
static BUDGET: AtomicU64 = AtomicU64::new(0);

/// Payload used to unwind blocked tasks when the system has deadlocked.
pub struct SchedAbort;

pub struct Task<'a> {
    pub name: &'static str,
    pub f: Box<dyn FnOnce() + Send + 'a>,
}

pub struct Report {
    pub switches: u64,
    pub steps: u64,
    pub deadlock: bool,
    /// Panics that escaped a task, by task index.
    pub panics: Vec<(usize, Box<dyn std::any::Any + Send>)>,
}

fn choose(st: &mut State, me: usize, bias: u64) -> Option<usize> {
    let ready: Vec<usize> = (0..st.status.len())
        .filter(|i| st.status[*i] == Status::Ready)
        .collect();
    if ready.is_empty() {
        return None;
    }
    // bias: how likely the running task keeps the baton (swarm knob).
    if ready.contains(&me) && !gen::chance(1, bias) {
        return Some(me);
    }
    Some(ready[gen::idx(ready.len())])
}

struct Inside(bool);
impl Inside {
    fn enter() -> Inside {
        Inside(INSIDE.with(|i| i.replace(true)))
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        INSIDE.with(|i| i.set(self.0));
    }
}

fn hand_over(me: usize, new_status: Status, forced: bool) {
    let _inside = Inside::enter();
    untracked(|| {
        let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
        let st = g.as_mut().unwrap();
        st.status[me] = new_status;
        st.steps += 1;
        let bias = if forced { 1 } else { st.bias };
        match choose(st, me, bias) {
            Some(next) => {
                if next != me {
                    st.switches += 1;
                    ctx::ev("switch", me as u64, next as u64);
                }
                st.current = next;
            }
            None => {
                if st.status.iter().all(|s| *s == Status::Done) {
                    st.current = usize::MAX;
                } else {
                    // Nothing can run any more: release everybody.
                    st.deadlock = true;
                    let next = st.status.iter().position(|s| *s != Status::Done).unwrap();
                    for s in st.status.iter_mut() {
                        if *s != Status::Done {
                            *s = Status::Ready;
                        }
                    }
                    st.current = next;
                }
            }
        }
        WAKE.notify_all();
        if new_status == Status::Done {
            return;
        }
        while g.as_ref().unwrap().current != me {
            g = WAKE.wait(g).unwrap_or_else(|e| e.into_inner());
        }
    });
}

/// A point at which the simulator may run somebody else.
pub fn yield_point() {
    let me = ME.with(|m| m.get());
    if me == usize::MAX || thread::panicking() {
        return;
    }
    hand_over(me, Status::Ready, false);
}

/// Called by the allocator: code of the library is interrupted here once in a
/// while.
pub fn alloc_point() {
    let mean = PREEMPT.load(Relaxed);
    if mean == 0 || !is_scheduled() || thread::panicking() {
        return;
    }
    let n = UNTIL.load(Relaxed);
    if n > 0 {
        UNTIL.store(n - 1, Relaxed);
        return;
    }
    {
        let _inside = Inside::enter();
        UNTIL.store(gen::pick(2 * mean), Relaxed);
        let budget = BUDGET.load(Relaxed);
        if budget == 0 {
            PREEMPT.store(0, Relaxed);
            return;
        }
        BUDGET.store(budget - 1, Relaxed);
        ctx::fault("sched:preempted");
    }
    hand_over(ME.with(|m| m.get()), Status::Ready, true);
}

/// Whether this thread is a task and runs its own code.
pub fn is_scheduled() -> bool {
    ME.with(|m| m.get()) != usize::MAX && !INSIDE.with(|i| i.get())
}

pub fn in_task() -> bool {
    ME.with(|m| m.get()) != usize::MAX
}

/// Blocks the current task on `key` until somebody calls `wake(key)`.
/// Returns false when the system is deadlocked (the task must give up).
pub fn block_on(key: u64) -> bool {
    let me = ME.with(|m| m.get());
    if me == usize::MAX {
        return false;
    }
    if deadlocked() {
        return false;
    }
    hand_over(me, Status::Blocked(key), false);
    !deadlocked()
}

fn deadlocked() -> bool {
    let _inside = Inside::enter();
    STATE
        .lock()
        .unwrap_or_else(|e| e.into_inner())
        .as_ref()
        .map_or(false, |s| s.deadlock)
}

pub fn wake(key: u64) {
    wake_some(key, u64::MAX);
}

pub fn wake_some(key: u64, mut most: u64) {
    let _inside = Inside::enter();
    let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
    if let Some(st) = g.as_mut() {
        for s in st.status.iter_mut() {
            if *s == Status::Blocked(key) && most > 0 {
                most -= 1;
                *s = Status::Ready;
            }
        }
    }
}

/// Runs all tasks to completion under a schedule drawn from the tape; in
/// some runs they are preempted between the seams too.
pub fn run<'a>(tasks: Vec<Task<'a>>) -> Report {
    let n = tasks.len();
    PREEMPT.store(if gen::chance(1, 3) { *gen::one(&[1, 4, 16, 64, 256]) } else { 0 }, Relaxed);
    UNTIL.store(gen::pick(64), Relaxed);
    BUDGET.store(120, Relaxed);
    let bias = *gen::one(&[1u64, 2, 4, 16]);
    let inherit = tag();
    untracked(|| {
        let first = gen::idx(n);
        *STATE.lock().unwrap_or_else(|e| e.into_inner()) = Some(State {
            current: first,
            status: vec![Status::Ready; n],
            switches: 0,
            deadlock: false,
            bias,
            steps: 0,
        });
        let panics = Mutex::new(Vec::new());
        thread::scope(|scope| {
            for (i, task) in tasks.into_iter().enumerate() {
                let panics = &panics;
                let f = task.f;
                thread::Builder::new()
                    .stack_size(4 << 20)
                    .spawn_scoped(scope, move || {
                        ME.with(|m| m.set(i));
                        {
                            let _inside = Inside::enter();
                            let mut g = STATE.lock().unwrap_or_else(|e| e.into_inner());
                            while g.as_ref().unwrap().current != i {
                                g = WAKE.wait(g).unwrap_or_else(|e| e.into_inner());
                            }
                        }
                        set_tag(inherit);
                        let r = catch_unwind(AssertUnwindSafe(f));
                        set_tag(0);
                        if let Err(p) = r {
                            panics.lock().unwrap().push((i, p));
                        }
                        hand_over(i, Status::Done, false);
                        ME.with(|m| m.set(usize::MAX));
                    })
                    .unwrap();
            }
        });
        PREEMPT.store(0, Relaxed);
        let st = STATE
            .lock()
            .unwrap_or_else(|e| e.into_inner())
            .take()
            .unwrap();
        Report {
            switches: st.switches,
            steps: st.steps,
            deadlock: st.deadlock,
            panics: panics.into_inner().unwrap(),
        }
    })
}

#[allow(dead_code)]
pub fn rethrow(p: Box<dyn std::any::Any + Send>) -> ! {
    resume_unwind(p)
}
