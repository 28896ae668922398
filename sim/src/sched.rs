//! The scheduler of the caller threads: real threads, of which exactly one runs at any time.
//!
//! The running thread may be preempted at each point where the code under test allocates, frees,
//! reads the clock, the environment or a file, or takes a contended lock, at each atomic operation
//! and each access to a static, and - when the tape asks for it - at each edge of its control flow.

use crate::host::STACK;
use crate::seam::{self, HOST, HostState};
use crate::{ctx, tape};
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicUsize, Ordering::SeqCst};

const MAX: usize = 8;
const MAIN: u32 = 99;
/// Long enough for anything but a thread that waits for another one without telling.
const NEVER: usize = 1_000_000;
/// How many times threads are preempted in a run, at most.
const SWITCHED: usize = 600;

const READY: usize = 0;
const DONE: usize = 1;
// Anything else: the address of the futex the task waits on.

static BATON: AtomicU32 = AtomicU32::new(MAIN);
static TASKS: [AtomicUsize; MAX] = [const { AtomicUsize::new(DONE) }; MAX];
static COUNTDOWN: AtomicUsize = AtomicUsize::new(0);
static SWITCHES: AtomicUsize = AtomicUsize::new(0);
static TRACE: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
static EDGES: AtomicUsize = AtomicUsize::new(0);
static ACCESSES: AtomicUsize = AtomicUsize::new(0);
static POINTS: AtomicUsize = AtomicUsize::new(0);
static STEPS: AtomicUsize = AtomicUsize::new(0);

thread_local! {
    static TASK: Cell<Option<u32>> = const { Cell::new(None) };
    static BUSY: Cell<bool> = const { Cell::new(false) };
}

pub fn current() -> Option<u32> {
    TASK.try_with(Cell::get).unwrap_or(None)
}

fn wait(me: u32) {
    loop {
        let baton = BATON.load(SeqCst);
        if baton == me {
            return;
        }
        seam::futex_wait(BATON.as_ptr(), baton);
    }
}

fn pass(to: u32) {
    BATON.store(to, SeqCst);
    seam::futex_wake(BATON.as_ptr());
}

/// Where threads are preempted, in a run.
#[derive(Clone, Copy, Debug, PartialEq)]
#[repr(usize)]
pub enum Points {
    /// At calls, and accesses to what they share.
    Calls = 0,
    /// At edges of the control flow too.
    Edges = 1,
    /// Only at accesses to what they share.
    Accesses = 2,
}

fn draw_countdown() {
    let points = POINTS.load(SeqCst);
    if points == Points::Accesses as usize {
        COUNTDOWN.store(NEVER, SeqCst);
        ACCESSES.store(1 + tape::choose([2, 6, 40][tape::weighted(&[4, 2, 1])]) as usize, SeqCst);
        return;
    }
    // How long the next task runs before it may be preempted.
    let n = match tape::choose(20) {
        0..=1 => NEVER as u64,
        2..=7 => 1 + tape::choose(8),
        8..=12 => 1 + tape::choose(40),
        13..=16 => 1 + tape::choose(200),
        _ => 1 + tape::choose(1_000),
    };
    COUNTDOWN.store(n as usize, SeqCst);

    let n = match tape::choose(8) {
        0 => NEVER as u64,
        1..=4 => 1 + tape::choose(3),
        5..=6 => 1 + tape::choose(20),
        _ => 1 + tape::choose(300),
    };
    ACCESSES.store(n as usize, SeqCst);

    if points == Points::Edges as usize {
        let n = match tape::choose(16) {
            0..=1 => NEVER as u64,
            2..=4 => 1 + tape::choose(20),
            5..=8 => 1 + tape::choose(300),
            9..=12 => 1 + tape::choose(4_000),
            _ => 1 + tape::choose(40_000),
        };
        EDGES.store(n as usize, SeqCst);
    }
}

/// Gives the baton to one of the tasks that can run, or back to the simulator.
fn next() -> u32 {
    let ready = (0..MAX).filter(|i| TASKS[*i].load(SeqCst) == READY).count();

    if ready == 0 {
        if TASKS.iter().any(|x| x.load(SeqCst) != DONE) {
            ctx::violation_now("deadlock", "every remaining thread waits for a lock");
        }
        return MAIN;
    }

    let n = tape::pick(ready);
    let task = (0..MAX).filter(|i| TASKS[*i].load(SeqCst) == READY).nth(n).unwrap() as u32;
    draw_countdown();

    SWITCHES.fetch_add(1, SeqCst);
    let trace = TRACE.load(SeqCst);
    TRACE.store((trace ^ u64::from(task + 1)).wrapping_mul(0x100_0000_01b3), SeqCst);

    task
}

fn switch(me: u32) {
    let to = next();
    if to != me {
        pass(to);
        wait(me);
    }
}

/// One fewer; whether that was the last one.
fn expired(countdown: &AtomicUsize) -> bool {
    let left = countdown.load(SeqCst);
    countdown.store(left.saturating_sub(1), SeqCst);
    left <= 1
}

fn preempt(me: u32, what: &'static str) {
    BUSY.set(true);
    if SWITCHES.load(SeqCst) > SWITCHED || tape::full() {
        // In turn, from now on.
        for countdown in [&COUNTDOWN, &ACCESSES, &EDGES] {
            countdown.store(NEVER, SeqCst);
        }
        let next = (1..=MAX as u32).map(|i| (me + i) % MAX as u32).find(|i| TASKS[*i as usize].load(SeqCst) == READY).unwrap_or(me);
        if next != me {
            pass(next);
            wait(me);
        }
    } else {
        let trace = TRACE.load(SeqCst);
        TRACE.store((trace ^ STEPS.load(SeqCst) as u64).wrapping_mul(0x100_0000_01b3), SeqCst);
        ctx::count(what);
        switch(me);
    }
    BUSY.set(false);
}

fn running() -> Option<u32> {
    current().filter(|_| !BUSY.get())
}

/// A point at which the running task may be preempted.
pub fn point() {
    let Some(me) = running() else {
        return;
    };
    STEPS.fetch_add(1, SeqCst);
    if expired(&COUNTDOWN) {
        preempt(me, "fault: preemption at a call");
    }
}

/// An atomic operation, or an access to memory that the tasks share.
pub fn access() {
    let Some(me) = running() else {
        return;
    };
    STEPS.fetch_add(1, SeqCst);
    if expired(&ACCESSES) {
        preempt(me, "fault: preemption at a shared access");
    }
}

/// An edge of the control flow.
pub fn edge() {
    let Some(me) = running() else {
        return;
    };
    STEPS.fetch_add(1, SeqCst);
    if expired(&EDGES) {
        preempt(me, "fault: preemption at an edge");
    }
}

/// The task lets the other ones run.
pub fn give_way() {
    if let Some(me) = running() {
        preempt(me, "fault: preemption at a yield");
    }
}

/// The task waits on a futex.
pub fn block(addr: usize) {
    let me = current().unwrap();
    ctx::count("fault: contended lock");
    TASKS[me as usize].store(addr, SeqCst);
    let busy = BUSY.replace(true);
    switch(me);
    BUSY.set(busy);
}

pub fn wake(addr: usize, n: i64) -> i64 {
    let mut woken = 0;
    for task in &TASKS {
        if woken < n && task.load(SeqCst) == addr {
            task.store(READY, SeqCst);
            woken += 1;
        }
    }
    woken
}

pub struct Trace {
    pub switches: usize,
    pub points: usize,
    pub hash: u64,
}

/// Runs the tasks to their end, on one simulated host.
pub fn run(host: &mut HostState, points: Points, tasks: Vec<Box<dyn FnOnce() + '_>>) -> Trace {
    assert!(tasks.len() <= MAX);
    SWITCHES.store(0, SeqCst);
    STEPS.store(0, SeqCst);
    TRACE.store(0xcbf2_9ce4_8422_2325, SeqCst);
    POINTS.store(points as usize, SeqCst);
    EDGES.store(NEVER, SeqCst);
    BATON.store(MAIN, SeqCst);
    for task in TASKS.iter().take(tasks.len()) {
        task.store(READY, SeqCst);
    }

    let host = std::ptr::from_mut(host) as usize;
    unsafe { &mut *(host as *mut HostState) }.active = true;

    std::thread::scope(|scope| {
        for (i, task) in tasks.into_iter().enumerate() {
            // Only one of them runs at a time.
            let task: Box<dyn FnOnce() + Send + '_> = unsafe { std::mem::transmute(task) };
            let thread = std::thread::Builder::new().stack_size(STACK);
            let thread = thread.spawn_scoped(scope, move || {
                let me = i as u32;
                wait(me);
                HOST.set(host as *mut HostState);
                TASK.set(Some(me));
                ctx::slot().in_lib.store(1, SeqCst);
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(task));
                TASK.set(None);
                HOST.set(std::ptr::null_mut());
                TASKS[i].store(DONE, SeqCst);
                pass(next());
            });
            if thread.is_err() {
                ctx::harness("cannot start a thread");
            }
        }
        pass(next());
        wait(MAIN);
    });

    unsafe { &mut *(host as *mut HostState) }.active = false;
    ctx::slot().in_lib.store(0, SeqCst);

    Trace { switches: SWITCHES.load(SeqCst), points: STEPS.load(SeqCst), hash: TRACE.load(SeqCst) }
}
