//! What a run leaves behind: event log, counters, fingerprints, and its verdict.
//!
//! A run lives in a forked process, and everything here is in memory shared with the parent, so
//! that nothing is lost when the code under test crashes.

use crate::tape;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU32, AtomicU64, AtomicUsize, Ordering::Relaxed};

pub const RUNNING: u32 = 0;
pub const PASSED: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS: u32 = 3;

const COUNTERS: usize = 160;

#[repr(C)]
pub struct Counter {
    pub name: AtomicUsize,
    pub len: AtomicUsize,
    pub value: AtomicU64,
}

impl Counter {
    pub fn name(&self) -> Option<&'static str> {
        let name = self.name.load(Relaxed) as *const u8;
        if name.is_null() {
            return None;
        }
        // Every process is a fork of the first one: the names are at the same place in all.
        Some(unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(name, self.len.load(Relaxed))) })
    }
}

#[repr(C)]
pub struct Buffer<const N: usize> {
    pub len: AtomicUsize,
    bytes: [u8; N],
}

impl<const N: usize> Buffer<N> {
    pub fn text(&self) -> String {
        String::from_utf8_lossy(&self.bytes[..self.len.load(Relaxed)]).into_owned()
    }
}

impl<const N: usize> std::fmt::Write for Buffer<N> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let len = self.len.load(Relaxed);
        let n = std::cmp::min(s.len(), N - len);
        self.bytes[len..len + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len.store(len + n, Relaxed);
        Ok(())
    }
}

#[repr(C)]
pub struct Slot {
    pub tape: tape::Shared,
    pub status: AtomicU32,
    pub in_lib: AtomicU32,
    pub class: Buffer<128>,
    pub message: Buffer<16384>,
    pub log: Buffer<262_144>,
    pub hash: AtomicU64,
    pub counters: [Counter; COUNTERS],
}

/// Fingerprints of what the runs reached, shared by all the processes.
pub const SEEN: usize = 1 << 23;

#[repr(C)]
pub struct Seen {
    pub count: AtomicU64,
    pub table: [AtomicU64; SEEN],
}

pub fn shared<T>() -> &'static mut T {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<T>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        &mut *p.cast()
    }
}

static mut SLOT: *mut Slot = std::ptr::null_mut();
static mut SEEN_TABLE: *const Seen = std::ptr::null();
static mut KNOWN: Vec<String> = Vec::new();

#[allow(static_mut_refs)]
pub fn slot() -> &'static mut Slot {
    unsafe { &mut *SLOT }
}

pub fn setup(seen: &'static Seen, known: Vec<String>) {
    unsafe {
        SEEN_TABLE = seen;
        KNOWN = known;
    }
}

pub fn start(new: *mut Slot) {
    unsafe { SLOT = new };

    let slot = slot();
    slot.status.store(RUNNING, Relaxed);
    slot.in_lib.store(0, Relaxed);
    slot.class.len.store(0, Relaxed);
    slot.message.len.store(0, Relaxed);
    slot.log.len.store(0, Relaxed);
    slot.hash.store(0xcbf2_9ce4_8422_2325, Relaxed);
    for counter in &slot.counters {
        counter.value.store(0, Relaxed);
        counter.name.store(0, Relaxed);
    }
}

struct Hash;

impl std::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let slot = slot();
        let mut hash = slot.hash.load(Relaxed);
        for b in s.bytes() {
            hash = (hash ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
        }
        slot.hash.store(hash, Relaxed);
        Ok(())
    }
}

pub fn event(args: std::fmt::Arguments) {
    let slot = slot();
    let _ = Hash.write_fmt(args);
    let _ = slot.log.write_fmt(args);
    let _ = slot.log.write_str("\n");
}

#[macro_export]
macro_rules! event {
    ($($arg:tt)*) => { $crate::ctx::event(format_args!($($arg)*)) };
}

pub fn add(name: &'static str, n: u64) {
    for counter in &slot().counters {
        if counter.name.load(Relaxed) == name.as_ptr() as usize && counter.len.load(Relaxed) == name.len() {
            counter.value.fetch_add(n, Relaxed);
            return;
        }
        if counter.name.load(Relaxed) == 0 {
            counter.len.store(name.len(), Relaxed);
            counter.name.store(name.as_ptr() as usize, Relaxed);
            counter.value.store(n, Relaxed);
            return;
        }
    }
}

/// Something was checked; it counts as distinct when it is not trivial and was not seen before.
pub fn case(fingerprint: Option<u64>) {
    add("evaluations", 1);
    if let Some(x) = fingerprint {
        seen(x);
    }
}

pub fn count(name: &'static str) {
    add(name, 1);
}

/// Something distinct was reached.
pub fn seen(fingerprint: u64) {
    let table = unsafe { &*SEEN_TABLE };
    let fingerprint = fingerprint.max(1);
    let mut x = fingerprint;
    let mut i = tape::splitmix(&mut x) as usize % SEEN;

    for _ in 0..1024 {
        match table.table[i].compare_exchange(0, fingerprint, Relaxed, Relaxed) {
            Ok(_) => {
                table.count.fetch_add(1, Relaxed);
                return;
            }
            Err(x) if x == fingerprint => return,
            Err(_) => i = (i + 1) % SEEN,
        }
    }
}

pub fn fingerprint(s: &str) -> u64 {
    s.bytes().fold(0xcbf2_9ce4_8422_2325, |hash, b| (hash ^ u64::from(b)).wrapping_mul(0x100_0000_01b3))
}

pub fn finish(status: u32, class: &str, message: std::fmt::Arguments) -> ! {
    let slot = slot();
    let _ = slot.class.write_str(class);
    let _ = slot.message.write_fmt(message);
    let _ = Hash.write_str(class);
    slot.status.store(status, Relaxed);
    unsafe { libc::_exit(0) }
}

/// The property does not hold.
pub fn violation(class: &str, message: &str) -> ! {
    event!("VIOLATION {class}: {message}");
    finish(VIOLATION, class, format_args!("{message}"))
}

/// The same, from within the allocator.
pub fn violation_now(class: &str, message: &str) -> ! {
    finish(VIOLATION, class, format_args!("{message}"))
}

pub fn harness(message: &str) -> ! {
    finish(HARNESS, "harness", format_args!("{message}"))
}

/// A genuine defect with a narrow signature: reported as known if it is listed, as a violation
/// otherwise.
#[allow(static_mut_refs)]
pub fn finding(id: &'static str, message: &str) {
    event!("finding {id}: {message}");

    if unsafe { &KNOWN }.iter().any(|x| x == id) {
        count(id);
    } else {
        violation(id, message);
    }
}
