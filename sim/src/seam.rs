//! The seam between the code under test and the machine.
//!
//! ikal, chrono and std reach the outside world through a few C symbols.  This file defines them
//! in the executable, which takes precedence over the C library: on a simulated host (a thread
//! whose `HOST` is set and active), the clock, the environment, the zone database, the random
//! numbers, the allocator and the futexes are those of the simulation; anywhere else, they are
//! passed to the kernel.

use crate::{ctx, sched, tape};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::ffi::{CStr, CString, c_char, c_int, c_long, c_void};

#[derive(Clone, Debug)]
pub enum Entry {
    File(Vec<u8>),
    Link(String),
}

/// What can go wrong on a host, as rates in 1/256 drawn at each call.
#[derive(Clone, Copy, Debug, Default)]
pub struct Faults {
    pub open: u64,
    pub read: u64,
    pub short: u64,
    pub stat: u64,
    pub clock: u64,
}

pub struct HostState {
    pub active: bool,
    pub clock: i64,
    pub tick: i64,
    pub tz: Option<CString>,
    pub entries: Vec<(String, Entry)>,
    pub mtime: i64,
    pub faults: Faults,
    pub rng: u64,
    pub fds: [c_int; 8],
    pub allocs: u64,
    pub alloc_bytes: u64,
    pub live: i64,
    pub alloc_budget: u64,
    pub simulated: i64,
    /// Edges of the control flow of ikal.
    pub work: u64,
    pub work_budget: u64,
}

/// Nothing goes wrong on this host, for now.
pub fn calm() -> bool {
    let host = HOST.get();
    host.is_null() || {
        let faults = unsafe { (*host).faults };
        faults.open + faults.read + faults.short + faults.stat + faults.clock == 0
    }
}

impl HostState {
    pub fn new() -> Self {
        Self {
            active: false,
            clock: 1_700_000_000_000_000_000,
            tick: 1_000,
            tz: None,
            entries: Vec::new(),
            mtime: 1_600_000_000,
            faults: Faults::default(),
            rng: 42,
            fds: [-1; 8],
            allocs: 0,
            alloc_bytes: 0,
            live: 0,
            alloc_budget: u64::MAX,
            simulated: 0,
            work: 0,
            work_budget: u64::MAX,
        }
    }
}

thread_local! {
    pub static HOST: Cell<*mut HostState> = const { Cell::new(std::ptr::null_mut()) };
}

/// The state of the simulated host this thread is, if it is running the code under test.
fn host() -> Option<&'static mut HostState> {
    let host = HOST.try_with(Cell::get).unwrap_or(std::ptr::null_mut());

    if host.is_null() {
        return None;
    }
    let host = unsafe { &mut *host };

    host.active.then_some(host)
}

unsafe fn raw(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b,
            in("rdx") c, in("r10") d, in("r8") e, in("r9") f, out("rcx") _, out("r11") _);
    }
    r
}

fn errno(code: c_int) {
    unsafe { *libc::__errno_location() = code };
}

fn ret(r: i64) -> i64 {
    if (-4095..0).contains(&r) {
        errno(-r as c_int);
        -1
    } else {
        r
    }
}

pub fn futex_wait(addr: *const u32, value: u32) {
    unsafe { raw(libc::SYS_futex, addr as i64, 128, i64::from(value), 0, 0, 0) };
}

pub fn futex_wake(addr: *const u32) {
    unsafe { raw(libc::SYS_futex, addr as i64, 129, i64::from(i32::MAX), 0, 0, 0) };
}

fn hit(rate: u64) -> bool {
    rate > 0 && tape::choose(256) >= 256 - rate
}

fn path(p: *const c_char) -> &'static [u8] {
    unsafe { CStr::from_ptr(p) }.to_bytes()
}

fn lookup<'a>(host: &'a HostState, path: &[u8]) -> Option<&'a Entry> {
    host.entries.iter().find(|x| x.0.as_bytes() == path).map(|x| &x.1)
}

fn simulated(path: &[u8]) -> bool {
    path.starts_with(b"/etc/") || path.starts_with(b"/usr/share/zoneinfo") || path.starts_with(b"/usr/lib/zoneinfo") || path.starts_with(b"/share/zoneinfo")
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_gettime(clock: c_int, ts: *mut libc::timespec) -> c_int {
    if let Some(host) = host() {
        sched::point();

        if hit(host.faults.clock) {
            ctx::count("fault: clock jump");
            let jump = [2, 3_600, 86_400 * 40, -1, -7_200, -86_400 * 200][tape::pick(6)];
            host.clock = host.clock.saturating_add(jump * 1_000_000_000);
            host.simulated = host.simulated.saturating_add(i64::abs(jump) * 1_000_000_000);
        }

        host.clock = host.clock.saturating_add(host.tick);
        host.simulated = host.simulated.saturating_add(host.tick);
        unsafe {
            (*ts).tv_sec = host.clock.div_euclid(1_000_000_000);
            (*ts).tv_nsec = host.clock.rem_euclid(1_000_000_000);
        }
        return 0;
    }

    ret(unsafe { raw(libc::SYS_clock_gettime, i64::from(clock), ts as i64, 0, 0, 0, 0) }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    if let Some(host) = host() {
        let name = path(p);

        if simulated(name) {
            sched::point();

            if hit(host.faults.open) {
                ctx::count("fault: open error");
                errno([libc::ENOENT, libc::EACCES, libc::EMFILE, libc::EIO, libc::ENOMEM][tape::pick(5)]);
                return -1;
            }

            let mut entry = lookup(host, name);
            if let Some(Entry::Link(to)) = entry {
                entry = lookup(host, to.as_bytes());
            }
            let Some(Entry::File(content)) = entry else {
                errno(libc::ENOENT);
                return -1;
            };

            let fd = unsafe { raw(libc::SYS_memfd_create, c"zone".as_ptr() as i64, 1, 0, 0, 0, 0) };
            if fd < 0 {
                ctx::harness("memfd_create failed");
            }
            let mut done = 0;
            while done < content.len() {
                let n = unsafe {
                    raw(libc::SYS_write, fd, content[done..].as_ptr() as i64, (content.len() - done) as i64, 0, 0, 0)
                };
                if n <= 0 {
                    ctx::harness("write failed");
                }
                done += n as usize;
            }
            unsafe { raw(libc::SYS_lseek, fd, 0, 0, 0, 0, 0) };
            if let Some(slot) = host.fds.iter_mut().find(|x| **x == -1) {
                *slot = fd as c_int;
            }
            return fd as c_int;
        }
    }

    ret(unsafe { raw(libc::SYS_openat, i64::from(libc::AT_FDCWD), p as i64, i64::from(flags), i64::from(mode), 0, 0) }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if let Some(host) = host() {
        if let Some(slot) = host.fds.iter_mut().find(|x| **x == fd) {
            *slot = -1;
        }
    }

    ret(unsafe { raw(libc::SYS_close, i64::from(fd), 0, 0, 0, 0, 0) }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, mut n: usize) -> isize {
    if let Some(host) = host() {
        if host.fds.contains(&fd) {
            sched::point();

            if hit(host.faults.read) {
                let code = [libc::EINTR, libc::EIO][tape::pick(2)];
                ctx::count(if code == libc::EINTR { "fault: read interrupted" } else { "fault: read error" });
                errno(code);
                return -1;
            }
            if n > 1 && hit(host.faults.short) {
                ctx::count("fault: short read");
                n = 1 + tape::pick(std::cmp::min(n - 1, 64));
            }
        }
    }

    ret(unsafe { raw(libc::SYS_read, i64::from(fd), buf as i64, n as i64, 0, 0, 0) }) as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: u32, out: *mut libc::statx) -> c_int {
    if let Some(host) = host() {
        let name = path(p);

        if !name.is_empty() && simulated(name) {
            sched::point();

            if hit(host.faults.stat) {
                ctx::count("fault: stat error");
                errno(libc::EIO);
                return -1;
            }
            let Some(entry) = lookup(host, name) else {
                errno(libc::ENOENT);
                return -1;
            };
            unsafe {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_mask = 0xfff;
                (*out).stx_mode = match entry {
                    Entry::File(_) => libc::S_IFREG as u16 | 0o644,
                    Entry::Link(_) => libc::S_IFLNK as u16 | 0o777,
                };
                (*out).stx_mtime.tv_sec = host.mtime;
            }
            return 0;
        }
    }

    ret(unsafe { raw(libc::SYS_statx, i64::from(dir), p as i64, i64::from(flags), i64::from(mask), out as i64, 0) }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn readlink(p: *const c_char, buf: *mut c_char, n: usize) -> isize {
    if let Some(host) = host() {
        let name = path(p);

        if simulated(name) {
            sched::point();

            if hit(host.faults.stat) {
                ctx::count("fault: readlink error");
                errno(libc::EIO);
                return -1;
            }
            let Some(Entry::Link(to)) = lookup(host, name) else {
                errno(libc::EINVAL);
                return -1;
            };
            let n = std::cmp::min(n, to.len());
            unsafe { std::ptr::copy_nonoverlapping(to.as_ptr().cast(), buf, n) };
            return n as isize;
        }
    }

    ret(unsafe { raw(libc::SYS_readlink, p as i64, buf as i64, n as i64, 0, 0, 0) }) as isize
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getrandom(buf: *mut u8, n: usize, flags: u32) -> isize {
    let _ = flags;
    let mut constant = 7;
    let rng = match host() {
        Some(host) => &mut host.rng,
        None => &mut constant,
    };

    for i in 0..n {
        unsafe { *buf.add(i) = tape::splitmix(rng) as u8 };
    }

    n as isize
}

unsafe extern "C" {
    static environ: *const *const c_char;
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let name = path(name);

    if let Some(host) = host() {
        sched::point();

        return match &host.tz {
            Some(tz) if name == b"TZ" => tz.as_ptr().cast_mut(),
            _ => std::ptr::null_mut(),
        };
    }

    let mut env = unsafe { environ };
    while !env.is_null() && !unsafe { *env }.is_null() {
        let entry = unsafe { CStr::from_ptr(*env) }.to_bytes();
        if entry.starts_with(name) && entry.get(name.len()) == Some(&b'=') {
            return unsafe { (*env).add(name.len() + 1) }.cast_mut();
        }
        env = unsafe { env.add(1) };
    }

    std::ptr::null_mut()
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn syscall(n: c_long, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_futex && host().is_some() && sched::current().is_some() {
        let op = b as c_int & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);

        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            if unsafe { (a as *const u32).read_volatile() } != c as u32 {
                errno(libc::EAGAIN);
                return -1;
            }
            sched::block(a as usize);
            return 0;
        }
        if op == libc::FUTEX_WAKE || op == libc::FUTEX_WAKE_BITSET {
            return sched::wake(a as usize, c);
        }
    }

    ret(unsafe { raw(n, a, b, c, d, e, f) })
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn sched_yield() -> c_int {
    if host().is_some() && sched::current().is_some() {
        sched::give_way();
        return 0;
    }

    ret(unsafe { raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) }) as c_int
}

#[unsafe(no_mangle)]
pub unsafe extern "C" fn clock_nanosleep(clock: c_int, flags: c_int, ts: *const libc::timespec, left: *mut libc::timespec) -> c_int {
    if let Some(host) = host() {
        if flags == 0 {
            let time = unsafe { (*ts).tv_sec * 1_000_000_000 + (*ts).tv_nsec };
            host.clock = host.clock.saturating_add(time);
            host.simulated = host.simulated.saturating_add(time);
        }
        sched::give_way();
        return 0;
    }

    -unsafe { raw(libc::SYS_clock_nanosleep, i64::from(clock), i64::from(flags), ts as i64, left as i64, 0, 0) } as c_int
}

pub struct Allocator;

fn allocated(size: usize) {
    if let Some(host) = host() {
        host.allocs += 1;
        host.alloc_bytes += size as u64;
        host.live += size as i64;

        if host.alloc_bytes > host.alloc_budget || host.live > 1 << 29 {
            ctx::violation_now("runaway memory", "the code under test allocated far more than its input warrants");
        }

        sched::point();
    }
}

fn freed(size: usize) {
    if let Some(host) = host() {
        host.live -= size as i64;
        sched::point();
    }
}

unsafe impl GlobalAlloc for Allocator {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        allocated(layout.size());
        unsafe { System.alloc(layout) }
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        allocated(layout.size());
        unsafe { System.alloc_zeroed(layout) }
    }

    unsafe fn dealloc(&self, ptr: *mut u8, layout: Layout) {
        freed(layout.size());
        unsafe { System.dealloc(ptr, layout) }
    }

    unsafe fn realloc(&self, ptr: *mut u8, layout: Layout, size: usize) -> *mut u8 {
        allocated(size);
        freed(layout.size());
        unsafe { System.realloc(ptr, layout, size) }
    }
}
