//! A simulated host: a process (an OS thread of its own, with its own thread-locals) that runs the
//! code under test with its own clock, zone, zone database and faults.

use crate::seam::{Entry, Faults, HOST, HostState};
use crate::tz::{self, Zone};
use crate::{ctx, event, tape};
use std::ffi::CString;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering::Relaxed;
use std::sync::mpsc::{Receiver, Sender, channel};

/// The stacks of the threads are small.
pub const STACK: usize = 256 << 10;

type Job = Box<dyn FnOnce() + Send>;

struct Process {
    jobs: Sender<Job>,
    done: Receiver<()>,
    thread: std::thread::JoinHandle<()>,
}

impl Process {
    fn start(state: *mut HostState) -> Self {
        let (jobs, inbox) = channel::<Job>();
        let (outbox, done) = channel();
        let state = state as usize;

        let thread = std::thread::Builder::new().stack_size(STACK).spawn(move || {
            HOST.set(state as *mut HostState);
            for job in inbox {
                job();
                if outbox.send(()).is_err() {
                    break;
                }
            }
        });
        let thread = thread.unwrap_or_else(|_| ctx::harness("cannot start a process"));

        Self { jobs, done, thread }
    }
}

pub struct Host {
    pub name: &'static str,
    pub state: Box<HostState>,
    process: Option<Process>,
    /// The zone of the host, as long as its database is healthy.
    pub zone: Zone,
    /// The database has failed since the process started: the library may have fallen back to
    /// another zone.
    pub degraded: bool,
    /// `TZ` has been `/etc/localtime`.
    local: bool,
}

thread_local! {
    static PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// The last panic of a caller thread.
static OF_A_TASK: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

pub fn any_panic() -> String {
    OF_A_TASK.lock().map(|x| x.clone()).unwrap_or_default()
}

pub fn install_panic_hook() {
    let loud = std::env::var_os("IKAL_SIM_PANIC").is_some();
    std::panic::set_hook(Box::new(move |info| {
        let message = if loud { format!("{info}\n{}", std::backtrace::Backtrace::force_capture()) } else { info.to_string() };
        if crate::sched::current().is_some() {
            if let Ok(mut x) = OF_A_TASK.lock() {
                x.clone_from(&message);
            }
        }
        if PANIC.try_with(|x| x.replace(message.clone())).is_err() || loud {
            eprintln!("{message}");
        }
    }));
}

pub fn last_panic() -> String {
    PANIC.with(|x| x.borrow().clone())
}

impl Host {
    /// A host in UTC, with a healthy zone database.
    pub fn new(name: &'static str) -> Self {
        let mut state = Box::new(HostState::new());
        let process = Some(Process::start(&raw mut *state));
        let mut host = Self { name, state, process, zone: Zone::utc(), degraded: false, local: false };
        host.set_zone(Zone::utc(), 0);
        host
    }

    pub fn in_zone(name: &'static str, zone: Zone) -> Self {
        let mut host = Self::new(name);
        let form = tape::pick(6);
        host.set_zone(zone, form);
        host
    }

    /// Reconfigures the zone of the host, in one of the ways a host is: `TZ` with a name,
    /// with a rule or with a file, `/etc/localtime` as a link or as a file.
    pub fn set_zone(&mut self, zone: Zone, form: usize) {
        let state = &mut self.state;
        state.entries.clear();
        state.tz = None;
        // A zone is read again when the clock has moved enough (see chrono).
        state.clock = state.clock.saturating_add(5_000_000_000);
        state.simulated = state.simulated.saturating_add(5_000_000_000);
        state.mtime += 1;

        let path = format!("/usr/share/zoneinfo/{}", zone.name);
        let file = Entry::File(zone.tzif());
        let form = if zone.tzif().is_empty() { 0 } else { form };

        match (form, &zone.posix) {
            (0, Some(posix)) => state.tz = Some(CString::new(posix.as_str()).unwrap()),
            (0 | 1, _) => {
                state.tz = Some(CString::new(zone.name.as_str()).unwrap());
                state.entries.push((path, file));
            }
            (4, _) => {
                state.tz = Some(CString::new(format!(":{}", zone.name)).unwrap());
                state.entries.push((path, file));
            }
            (5, _) => {
                // A file is not read again when only its content has changed (see chrono).
                let path = if self.local { format!("/etc/zone/{}", state.mtime) } else { "/etc/localtime".to_string() };
                let tz = if self.local || tape::chance(1, 2) { format!(":{path}") } else { "localtime".to_string() };
                self.local = true;
                state.tz = Some(CString::new(tz).unwrap());
                state.entries.push((path, file));
            }
            (2, _) => {
                state.entries.push(("/etc/localtime".to_string(), Entry::Link(path.clone())));
                state.entries.push((path, file));
            }
            _ => {
                state.entries.push(("/etc/localtime".to_string(), file));
            }
        }

        event!("{}: zone {} (form {form})", self.name, zone.name);
        self.zone = zone;
    }

    pub fn set_faults(&mut self, faults: Faults) {
        self.state.faults = faults;
        self.degraded = self.degraded || faults.open + faults.read + faults.stat > 0;
    }

    /// The process is killed, and started again: only the host itself survives.
    pub fn restart(&mut self) {
        event!("{}: restart", self.name);
        let process = self.process.take().unwrap();
        drop(process.jobs);
        let _ = process.thread.join();
        self.state.fds = [-1; 8];
        self.degraded = self.state.faults.open + self.state.faults.read + self.state.faults.stat > 0;
        self.process = Some(Process::start(&raw mut *self.state));
    }

    /// Time passes.
    pub fn sleep(&mut self, seconds: i64) {
        self.state.clock = self.state.clock.saturating_add(seconds * 1_000_000_000);
        self.state.simulated = self.state.simulated.saturating_add(seconds.abs() * 1_000_000_000);
    }

    /// Runs the code under test on this host. A panic is a violation.
    pub fn run<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> T {
        self.run_within(what, 1 << 28, f)
    }

    /// The same, within a budget of allocated bytes.
    pub fn run_within<T>(&mut self, what: &str, budget: u64, f: impl FnOnce() -> T) -> T {
        let state = &raw mut *self.state;
        let state = state as usize;
        let mut result: Option<Result<T, String>> = None;
        let out = &raw mut result as usize;

        self.state.alloc_budget = budget;
        self.state.alloc_bytes = 0;
        self.state.allocs = 0;
        self.state.live = 0;
        self.state.work = 0;

        let job = move || {
            let state = unsafe { &mut *(state as *mut HostState) };
            ctx::slot().in_lib.store(1, Relaxed);
            state.active = true;
            let value = catch_unwind(AssertUnwindSafe(f));
            state.active = false;
            ctx::slot().in_lib.store(0, Relaxed);
            let value = value.map_err(|_| PANIC.with(|x| x.borrow().clone()));
            unsafe { *(out as *mut Option<Result<T, String>>) = Some(value) };
        };
        // The host is done with the job, and with what it borrows, before this function returns.
        let job: Box<dyn FnOnce() + '_> = Box::new(job);
        let job: Job = unsafe { std::mem::transmute(job) };

        let process = self.process.as_ref().unwrap();
        if process.jobs.send(job).is_err() || process.done.recv().is_err() {
            ctx::harness("a host died");
        }

        match result {
            Some(Ok(value)) => value,
            Some(Err(message)) => ctx::violation("panic", &format!("{}: {what} panicked: {message}", self.name)),
            None => ctx::harness("a job left no result"),
        }
    }
}

impl Drop for Host {
    fn drop(&mut self) {
        ctx::add("simulated seconds", (self.state.simulated / 1_000_000_000) as u64);
        if let Some(process) = self.process.take() {
            drop(process.jobs);
            let _ = process.thread.join();
        }
    }
}

pub fn random_zone() -> Zone {
    tz::generate()
}
