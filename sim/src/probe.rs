//! What the instrumentation of ikal reports (see `wrap.sh`): each edge of its control flow, each
//! access to memory that all threads share, and each atomic operation, which it performs itself.
//!
//! They measure the work a job does, count what was reached, and are where threads are preempted.

use crate::seam::HOST;
use crate::{ctx, sched};
use std::sync::atomic::{AtomicU8, AtomicU32, Ordering::Relaxed, Ordering::SeqCst};

const EDGES: usize = 1 << 20;

#[repr(C)]
struct Reached {
    edges: [AtomicU8; EDGES],
}

static mut REACHED: *const Reached = std::ptr::null();
static TOTAL: AtomicU32 = AtomicU32::new(0);

/// From now on, the edges that are reached are counted, in all processes together.
pub fn setup() {
    let reached: &'static mut Reached = ctx::shared();
    unsafe { REACHED = reached };
}

/// The edges that were reached, out of how many.
pub fn reached() -> (usize, usize) {
    let total = TOTAL.load(Relaxed) as usize;
    let reached = unsafe { REACHED };
    if reached.is_null() {
        return (0, total);
    }
    let n = unsafe { &(*reached).edges }.iter().take(total + 1).filter(|x| x.load(Relaxed) != 0).count();
    (n, total)
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, end: *mut u32) {
    if start == end || unsafe { *start } != 0 {
        return;
    }
    while start < end {
        let n = TOTAL.load(Relaxed) + 1;
        TOTAL.store(n, Relaxed);
        unsafe {
            *start = n;
            start = start.add(1);
        }
    }
}

#[unsafe(no_mangle)]
unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(guard: *mut u32) {
    let host = HOST.try_with(std::cell::Cell::get).unwrap_or(std::ptr::null_mut());
    if host.is_null() {
        return;
    }
    let host = unsafe { &mut *host };
    if !host.active {
        return;
    }

    let reached = unsafe { REACHED };
    if !reached.is_null() {
        let edge = unsafe { &(*reached).edges[*guard as usize % EDGES] };
        if edge.load(Relaxed) == 0 {
            edge.store(1, Relaxed);
        }
    }

    host.work += 1;
    if host.work > host.work_budget {
        host.work_budget = u64::MAX;
        ctx::violation_now("runaway work", "the code under test does far more than its input warrants");
    }

    sched::edge();
}

/// An access to memory at a fixed address, which all the threads share.
fn shared(addr: usize) {
    unsafe extern "C" {
        static __data_start: u8;
        static _end: u8;
    }
    if addr >= &raw const __data_start as usize && addr < &raw const _end as usize {
        access();
    }
}

fn access() {
    let host = HOST.try_with(std::cell::Cell::get).unwrap_or(std::ptr::null_mut());
    if !host.is_null() && unsafe { (*host).active } {
        sched::access();
    }
}

macro_rules! accesses {
    ($($name:ident),*) => { $(
        #[unsafe(no_mangle)]
        unsafe extern "C" fn $name(addr: usize) {
            shared(addr);
        }
    )* };
}

accesses!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8, __sanitizer_cov_load16,
    __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4, __sanitizer_cov_store8, __sanitizer_cov_store16
);

macro_rules! atomics {
    ($ty:ty, $atomic:ty, $load:ident, $store:ident, $exchange:ident, $add:ident, $sub:ident, $and:ident, $or:ident, $xor:ident, $nand:ident, $cas:ident) => {
        #[unsafe(no_mangle)]
        unsafe extern "C" fn $load(p: *const $atomic, _: i32) -> $ty {
            access();
            unsafe { &*p }.load(SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $store(p: *const $atomic, value: $ty, _: i32) {
            access();
            unsafe { &*p }.store(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $exchange(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.swap(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $add(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.fetch_add(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $sub(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.fetch_sub(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $and(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.fetch_and(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $or(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.fetch_or(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $xor(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.fetch_xor(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $nand(p: *const $atomic, value: $ty, _: i32) -> $ty {
            access();
            unsafe { &*p }.fetch_nand(value, SeqCst)
        }

        #[unsafe(no_mangle)]
        unsafe extern "C" fn $cas(p: *const $atomic, from: $ty, to: $ty, _: i32, _: i32) -> $ty {
            access();
            match unsafe { &*p }.compare_exchange(from, to, SeqCst, SeqCst) {
                Ok(x) | Err(x) => x,
            }
        }
    };
}

use std::sync::atomic::{AtomicU16, AtomicU64};

atomics!(u8, AtomicU8, __tsan_atomic8_load, __tsan_atomic8_store, __tsan_atomic8_exchange, __tsan_atomic8_fetch_add, __tsan_atomic8_fetch_sub, __tsan_atomic8_fetch_and, __tsan_atomic8_fetch_or, __tsan_atomic8_fetch_xor, __tsan_atomic8_fetch_nand, __tsan_atomic8_compare_exchange_val);
atomics!(u16, AtomicU16, __tsan_atomic16_load, __tsan_atomic16_store, __tsan_atomic16_exchange, __tsan_atomic16_fetch_add, __tsan_atomic16_fetch_sub, __tsan_atomic16_fetch_and, __tsan_atomic16_fetch_or, __tsan_atomic16_fetch_xor, __tsan_atomic16_fetch_nand, __tsan_atomic16_compare_exchange_val);
atomics!(u32, AtomicU32, __tsan_atomic32_load, __tsan_atomic32_store, __tsan_atomic32_exchange, __tsan_atomic32_fetch_add, __tsan_atomic32_fetch_sub, __tsan_atomic32_fetch_and, __tsan_atomic32_fetch_or, __tsan_atomic32_fetch_xor, __tsan_atomic32_fetch_nand, __tsan_atomic32_compare_exchange_val);
atomics!(u64, AtomicU64, __tsan_atomic64_load, __tsan_atomic64_store, __tsan_atomic64_exchange, __tsan_atomic64_fetch_add, __tsan_atomic64_fetch_sub, __tsan_atomic64_fetch_and, __tsan_atomic64_fetch_or, __tsan_atomic64_fetch_xor, __tsan_atomic64_fetch_nand, __tsan_atomic64_compare_exchange_val);

#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_thread_fence(_: i32) {
    access();
    std::sync::atomic::fence(SeqCst);
}

#[unsafe(no_mangle)]
extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

#[unsafe(no_mangle)]
extern "C" fn __tsan_func_entry(_: usize) {}

#[unsafe(no_mangle)]
extern "C" fn __tsan_func_exit() {}
