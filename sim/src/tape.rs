//! The choice tape: every decision of a run (operations, data, faults, schedule) is drawn here.
//!
//! A run is a pure function of the tape.  While exploring, the tape is filled from a PRNG derived
//! from VERIF_SEED; while shrinking or replaying it is read from a file, and reads as zeros past
//! its end.  Zero is always the simplest choice.

use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const MAX: usize = 1 << 18;

/// Lives in memory shared with the parent, so that the tape of a crashed run is not lost.
#[repr(C)]
pub struct Shared {
    pub len: AtomicUsize,
    pub values: [AtomicU64; MAX],
}

struct State {
    shared: *const Shared,
    replay: Option<Vec<u64>>,
    rng: u64,
}

static mut STATE: State = State { shared: std::ptr::null(), replay: None, rng: 0 };

#[allow(static_mut_refs)]
fn state() -> &'static mut State {
    unsafe { &mut STATE }
}

pub fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

pub fn start(shared: *const Shared, seed: u64, replay: Option<Vec<u64>>) {
    let s = state();
    s.shared = shared;
    s.rng = seed;
    s.replay = replay;
    unsafe { (*shared).len.store(0, Relaxed) };
}

/// A choice in `0..n`.
pub fn choose(n: u64) -> u64 {
    debug_assert!(n > 0);
    let s = state();
    let shared = unsafe { &*s.shared };
    let pos = shared.len.load(Relaxed);

    if pos >= MAX {
        return 0;
    }

    let v = match &s.replay {
        Some(tape) => tape.get(pos).copied().unwrap_or(0) % n,
        None => splitmix(&mut s.rng) % n,
    };

    shared.values[pos].store(v, Relaxed);
    shared.len.store(pos + 1, Relaxed);

    v
}

pub fn full() -> bool {
    unsafe { &*state().shared }.len.load(Relaxed) >= MAX - 1024
}

pub fn pick(n: usize) -> usize {
    choose(n as u64) as usize
}

/// `lo..=hi`; `lo` is the simplest.
pub fn range(lo: i64, hi: i64) -> i64 {
    lo + choose((hi - lo + 1) as u64) as i64
}

/// True with probability `num/den`; false is the simplest.
pub fn chance(num: u64, den: u64) -> bool {
    choose(den) >= den - num
}

pub fn of<T>(items: &[T]) -> &T {
    &items[pick(items.len())]
}

/// An index, with the given weights; 0 is the simplest.
pub fn weighted(weights: &[u64]) -> usize {
    let mut x = choose(weights.iter().sum());
    for (i, w) in weights.iter().enumerate() {
        if x < *w {
            return i;
        }
        x -= w;
    }
    0
}
