//! The driver: forks one process per simulated run, collects what they reached, shrinks and stores
//! the first failure, and writes the evidence.

use crate::ctx::{self, Slot};
use crate::tape;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::time::{Duration, Instant};

pub struct Plan {
    pub property: &'static str,
    pub scenario: fn(),
    /// How many runs, in each tier.
    pub quick: u64,
    pub thorough: u64,
    pub level: &'static str,
    pub rule: &'static str,
    pub real: &'static str,
    pub stub: &'static str,
    pub assumptions: &'static [&'static str],
}

pub const PLANS: &[Plan] = &[crate::c01::PLAN, crate::c02::PLAN, crate::c03::PLAN, crate::c04::PLAN, crate::c05::PLAN, crate::c06::PLAN, crate::c07::PLAN, crate::c08::PLAN, crate::c09::PLAN, crate::c10::PLAN, crate::c11::PLAN, crate::c12::PLAN, crate::c13::PLAN, crate::c14::PLAN, crate::c15::PLAN, crate::c16::PLAN, crate::n01::PLAN];

const WORKERS: u64 = 8;
const CPU: u64 = 20;
const WALL: u32 = 120;

fn root() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

fn plan(property: &str) -> &'static Plan {
    PLANS.iter().find(|x| x.property == property).unwrap_or_else(|| {
        eprintln!("unknown property {property}");
        std::process::exit(2);
    })
}

/// The identifiers of the known findings.
fn known(property: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(root().join("known_findings.txt")).unwrap_or_default();
    let head = format!("KNOWN-FINDING: property={property} ");
    text.lines()
        .filter_map(|line| {
            let rest = line.strip_prefix(&head)?;
            let id = rest.split_whitespace().next()?.trim_end_matches(':');
            Some((id.to_string(), line.to_string()))
        })
        .collect()
}

#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Passed,
    Violation(String, String),
    Harness(String),
}

/// One simulated run, in a process of its own.
fn once(plan: &Plan, slot: *mut Slot, seed: u64, replay: Option<Vec<u64>>) -> Outcome {
    ctx::start(slot);
    crate::doc::forget();
    tape::start(unsafe { &raw const (*slot).tape }, seed, replay);

    let pid = unsafe { libc::fork() };
    if pid < 0 {
        return Outcome::Harness("fork failed".to_string());
    }
    if pid == 0 {
        unsafe {
            let limit = libc::rlimit { rlim_cur: CPU, rlim_max: CPU + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &limit);
            let none = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &none);
            libc::alarm(WALL);
        }
        crate::host::install_panic_hook();
        let result = std::panic::catch_unwind(plan.scenario);
        match result {
            Ok(()) => ctx::finish(ctx::PASSED, "", format_args!("")),
            Err(e) => {
                let text = e
                    .downcast_ref::<String>()
                    .cloned()
                    .or_else(|| e.downcast_ref::<&str>().map(|x| (*x).to_string()))
                    .unwrap_or_default();
                ctx::harness(&format!("the scenario panicked: {text} ({})", crate::host::last_panic()))
            }
        }
    }

    let mut status = 0;
    loop {
        let r = unsafe { libc::waitpid(pid, &mut status, 0) };
        if r == pid {
            break;
        }
    }

    let slot = unsafe { &*slot };
    let class = slot.class.text();
    let message = slot.message.text();
    match slot.status.load(Relaxed) {
        ctx::PASSED => return Outcome::Passed,
        ctx::VIOLATION => return Outcome::Violation(class, message),
        ctx::HARNESS => return Outcome::Harness(message),
        _ => (),
    }

    let signal = if libc::WIFSIGNALED(status) { libc::WTERMSIG(status) } else { 0 };
    let last = slot.log.text().lines().last().unwrap_or_default().to_string();
    if slot.in_lib.load(Relaxed) == 0 || signal == libc::SIGKILL {
        return Outcome::Harness(format!("died with status {status:x}, signal {signal}, after: {last}"));
    }
    match signal {
        libc::SIGXCPU | libc::SIGALRM => Outcome::Violation("hang".to_string(), format!("did not return, after: {last}")),
        _ => Outcome::Violation("crash".to_string(), format!("died with signal {signal}, after: {last}")),
    }
}

#[repr(C)]
struct Board {
    violation: AtomicU64,
    harness: AtomicU64,
    done: AtomicU64,
    distinct_schedules: AtomicU64,
    samples: [ctx::Buffer<6144>; 3],
    harness_message: ctx::Buffer<4096>,
}

fn seed_of(property: &str, seed: u64, i: u64) -> u64 {
    let mut x = ctx::fingerprint(property) ^ seed.wrapping_mul(0x9e37_79b9_7f4a_7c15);
    tape::splitmix(&mut x);
    x ^= i.wrapping_mul(0xd1b5_4a32_d192_ed03);
    tape::splitmix(&mut x)
}

fn merge(into: &Slot, from: &Slot) {
    for counter in &from.counters {
        let name = counter.name.load(Relaxed);
        if name == 0 {
            break;
        }
        let len = counter.len.load(Relaxed);
        let value = counter.value.load(Relaxed);
        for total in &into.counters {
            let n = total.name.load(Relaxed);
            if n == name && total.len.load(Relaxed) == len {
                total.value.fetch_add(value, Relaxed);
                break;
            }
            if n == 0 {
                total.name.store(name, Relaxed);
                total.len.store(len, Relaxed);
                total.value.store(value, Relaxed);
                break;
            }
        }
    }
}

fn environment() -> (u64, String) {
    let seed = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".to_string());
    (seed, if tier == "thorough" { tier } else { "quick".to_string() })
}

pub fn run(property: &str) -> i32 {
    let plan = plan(property);
    let started = Instant::now();
    let (seed, tier) = environment();
    let findings = known(property);
    let runs = std::env::var("IKAL_SIM_RUNS")
        .ok()
        .and_then(|x| x.parse().ok())
        .unwrap_or(if tier == "thorough" { plan.thorough } else { plan.quick });
    let deadline = started + Duration::from_secs(if tier == "thorough" { 3_000 } else { 420 });

    println!("{property}: seed {seed}, tier {tier}, {runs} runs");

    crate::probe::setup();
    let seen: &'static ctx::Seen = ctx::shared();
    let raw_board: *mut Board = ctx::shared::<Board>();
    let board = unsafe { &*raw_board };
    board.violation.store(u64::MAX, Relaxed);
    board.harness.store(u64::MAX, Relaxed);
    ctx::setup(seen, findings.iter().map(|x| x.0.clone()).collect());

    let mut workers = Vec::new();
    for w in 0..WORKERS {
        let slot: &'static mut Slot = ctx::shared();
        let total: &'static Slot = ctx::shared();
        let slot = std::ptr::from_mut(slot);

        let pid = unsafe { libc::fork() };
        if pid == 0 {
            unsafe { libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL) };
            let mut i = w;
            while i < runs && i < board.violation.load(Relaxed) && board.harness.load(Relaxed) == u64::MAX {
                if Instant::now() > deadline {
                    break;
                }
                let outcome = once(plan, slot, seed_of(property, seed, i), None);
                let done = unsafe { &*slot };
                merge(total, done);
                board.done.fetch_add(1, Relaxed);
                if i < 3 {
                    let text: String = done.log.text().chars().take(2_000).collect();
                    let _ = unsafe { &mut (&mut (*raw_board).samples)[i as usize] }.write_str(&text);
                }
                match outcome {
                    Outcome::Passed => (),
                    Outcome::Violation(..) => {
                        board.violation.fetch_min(i, Relaxed);
                    }
                    Outcome::Harness(message) => {
                        if board.harness.fetch_min(i, Relaxed) > i {
                            let _ = unsafe { &mut (*raw_board).harness_message }.write_str(&format!("run {i}: {message}\n"));
                        }
                    }
                }
                i += WORKERS;
            }
            unsafe { libc::_exit(0) };
        }
        workers.push((pid, total));
    }

    let total: &'static Slot = ctx::shared();
    let mut broken = false;
    for (pid, counters) in &workers {
        let mut status = 0;
        unsafe { libc::waitpid(*pid, &mut status, 0) };
        broken = broken || status != 0;
        merge(total, counters);
    }

    let explored = started.elapsed().as_secs_f64();
    let distinct = seen.count.load(Relaxed);
    let violation = board.violation.load(Relaxed);
    let mut code = 0;

    if violation != u64::MAX {
        let file = shrink(plan, seed, violation);
        println!("VIOLATION property={property} replay={}", file.display());
        code = 1;
    } else if board.harness.load(Relaxed) != u64::MAX || broken {
        eprintln!("harness error in {property}: {}", board.harness_message.text());
        return 2;
    }

    let counters: BTreeMap<&str, u64> =
        total.counters.iter().filter_map(|x| Some((x.name()?, x.value.load(Relaxed)))).fold(BTreeMap::new(), |mut m, (k, v)| {
            *m.entry(k).or_default() += v;
            m
        });
    if code == 0 {
        for (id, line) in &findings {
            if counters.contains_key(id.as_str()) {
                println!("{line}");
            }
        }
    }
    evidence(plan, seed, &tier, board, distinct, &counters, &findings, explored, started.elapsed().as_secs_f64(), code);
    println!(
        "{property}: {} runs, {} evaluations, {} distinct, {:.1} s",
        board.done.load(Relaxed),
        counters.get("evaluations").unwrap_or(&0),
        distinct,
        started.elapsed().as_secs_f64()
    );

    code
}

// --- shrinking -------------------------------------------------------------------------------

struct Shrinker<'a> {
    plan: &'a Plan,
    slot: *mut Slot,
    class: String,
    left: u32,
    until: Instant,
}

impl Shrinker<'_> {
    /// The tape actually consumed, if it still fails in the same way.
    fn fails(&mut self, tape: &[u64]) -> Option<Vec<u64>> {
        if self.left == 0 || Instant::now() > self.until {
            return None;
        }
        self.left -= 1;
        match once(self.plan, self.slot, 0, Some(tape.to_vec())) {
            Outcome::Violation(class, _) if class == self.class => {
                let mut used = used(unsafe { &*self.slot });
                while used.last() == Some(&0) {
                    used.pop();
                }
                Some(used)
            }
            _ => None,
        }
    }

    fn accept(&mut self, best: &mut Vec<u64>, candidate: &[u64]) -> bool {
        match self.fails(candidate) {
            Some(used) if (used.len(), &used) < (best.len(), &*best) => {
                *best = used;
                true
            }
            _ => false,
        }
    }

    fn shrink(&mut self, mut best: Vec<u64>) -> Vec<u64> {
        loop {
            let before = best.clone();

            // Cut the end, then delete chunks, then simplify what is left.
            let mut size = best.len() / 2;
            while size > 0 {
                let mut at = best.len().saturating_sub(size);
                loop {
                    let mut candidate = best.clone();
                    candidate.drain(at..std::cmp::min(at + size, candidate.len()));
                    self.accept(&mut best, &candidate);
                    if at == 0 || best.is_empty() {
                        break;
                    }
                    at = std::cmp::min(at.saturating_sub(size), best.len().saturating_sub(1));
                }
                size /= 2;
            }
            let mut size = best.len() / 2;
            while size > 0 {
                let mut at = 0;
                while at < best.len() {
                    let end = std::cmp::min(at + size, best.len());
                    if best[at..end].iter().any(|x| *x != 0) {
                        let mut candidate = best.clone();
                        candidate[at..end].fill(0);
                        self.accept(&mut best, &candidate);
                    }
                    at += size;
                }
                size /= 2;
            }
            let mut at = 0;
            while at < best.len() {
                for smaller in [1, best[at] / 2, best[at].saturating_sub(1)] {
                    if at < best.len() && smaller < best[at] {
                        let mut candidate = best.clone();
                        candidate[at] = smaller;
                        if self.accept(&mut best, &candidate) {
                            break;
                        }
                    }
                }
                at += 1;
            }

            if best == before || self.left == 0 || Instant::now() > self.until {
                return best;
            }
        }
    }
}

fn used(slot: &Slot) -> Vec<u64> {
    let n = slot.tape.len.load(Relaxed);
    slot.tape.values[..n].iter().map(|x| x.load(Relaxed)).collect()
}

fn shrink(plan: &Plan, seed: u64, i: u64) -> PathBuf {
    let slot: &'static mut Slot = ctx::shared();
    let slot = std::ptr::from_mut(slot);
    let run_seed = seed_of(plan.property, seed, i);

    let outcome = once(plan, slot, run_seed, None);
    let Outcome::Violation(class, message) = outcome else {
        eprintln!("harness error: run {i} did not fail again: {outcome:?}");
        std::process::exit(2);
    };
    println!("run {i} (seed {run_seed:#018x}) fails: {class}: {message}");

    let first = used(unsafe { &*slot });
    let hang = class == "hang";
    let mut shrinker = Shrinker {
        plan,
        slot,
        class: class.clone(),
        left: if hang { 4 } else { 4_000 },
        until: Instant::now() + Duration::from_secs(60),
    };
    let best = shrinker.shrink(first.clone());

    let mut outcome = once(plan, slot, 0, Some(best.clone()));
    let mut best = best;
    if !matches!(&outcome, Outcome::Violation(c, _) if *c == class) {
        best = first.clone();
        outcome = once(plan, slot, 0, Some(best.clone()));
    }
    let (log, hash) = {
        let slot = unsafe { &*slot };
        (slot.log.text(), slot.hash.load(Relaxed))
    };
    let message = match outcome {
        Outcome::Violation(_, message) => message,
        _ => message,
    };
    println!("minimised from {} choices to {}: {class}: {message}", first.len(), best.len());

    let dir = root().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let file = dir.join(format!("{}-{seed}-{i}.replay", plan.property));
    let mut s = String::new();
    let _ = writeln!(s, "property {}", plan.property);
    let _ = writeln!(s, "class {class}");
    let _ = writeln!(s, "seed {seed} run {i} run-seed {run_seed:#018x}");
    let _ = writeln!(s, "hash {hash:016x}");
    let _ = writeln!(s, "tape {}", best.iter().map(u64::to_string).collect::<Vec<_>>().join(" "));
    let _ = writeln!(s, "message {}", message.replace('\n', "\\n"));
    let _ = writeln!(s, "\n{log}");
    if let Err(e) = std::fs::write(&file, s) {
        eprintln!("cannot write {}: {e}", file.display());
    }
    file
}

pub fn replay(file: &str) -> i32 {
    let text = std::fs::read_to_string(file).unwrap_or_else(|e| {
        eprintln!("{file}: {e}");
        std::process::exit(2);
    });
    let field = |name: &str| text.lines().find_map(|x| x.strip_prefix(name)).unwrap_or_default().trim().to_string();
    let plan = plan(&field("property "));
    let class = field("class ");
    let tape: Vec<u64> = field("tape ").split_whitespace().map(|x| x.parse().unwrap()).collect();

    let seen: &'static ctx::Seen = ctx::shared();
    ctx::setup(seen, known(plan.property).into_iter().map(|x| x.0).collect());
    let slot: &'static mut Slot = ctx::shared();
    let slot = std::ptr::from_mut(slot);
    let outcome = once(plan, slot, 0, Some(tape));
    let slot = unsafe { &*slot };
    print!("{}", slot.log.text());

    match outcome {
        Outcome::Violation(found, message) if found == class => {
            let same = format!("{:016x}", slot.hash.load(Relaxed)) == field("hash ");
            println!("reproduced ({}): {found}: {message}", if same { "identical execution" } else { "another execution" });
            println!("VIOLATION property={} replay={file}", plan.property);
            1
        }
        Outcome::Violation(found, message) => {
            println!("another violation: {found}: {message}");
            println!("VIOLATION property={} replay={file}", plan.property);
            1
        }
        Outcome::Passed => {
            println!("not reproduced");
            0
        }
        Outcome::Harness(message) => {
            println!("harness error: {message}");
            2
        }
    }
}

/// Determinism: each seed is run twice (the second time in the reverse order, and in another
/// process), and the event logs must be the same.
pub fn selftest(runs: u64) -> i32 {
    let seen: &'static ctx::Seen = ctx::shared();
    let mut bad = 0;

    for plan in PLANS {
        ctx::setup(seen, known(plan.property).into_iter().map(|x| x.0).collect());
        let table: &'static mut [[AtomicU64; 2]; 1 << 16] = ctx::shared();
        let runs = std::cmp::min(runs, 1 << 16);
        let mut workers = Vec::new();
        for w in 0..WORKERS {
            let slot: &'static mut Slot = ctx::shared();
            let slot = std::ptr::from_mut(slot);
            let pid = unsafe { libc::fork() };
            if pid == 0 {
                for pass in 0..2 {
                    for n in 0..runs {
                        let i = if pass == 0 { n } else { runs - 1 - n };
                        // Not by the same worker in both passes.
                        if (i / (1 + 6 * pass as u64)) % WORKERS != w {
                            continue;
                        }
                        let outcome = once(plan, slot, seed_of(plan.property, 77 + i, i), None);
                        let slot = unsafe { &*slot };
                        let outcome = ctx::fingerprint(&format!("{outcome:?}"));
                        let hash = slot.hash.load(Relaxed) ^ outcome ^ slot.tape.len.load(Relaxed) as u64;
                        table[i as usize][pass].store(hash.max(1), Relaxed);
                    }
                }
                unsafe { libc::_exit(0) };
            }
            workers.push(pid);
        }
        for pid in workers {
            let mut status = 0;
            unsafe { libc::waitpid(pid, &mut status, 0) };
        }
        let different = (0..runs as usize).filter(|i| table[*i][0].load(Relaxed) != table[*i][1].load(Relaxed)).count();
        println!("{}: {runs} seeds run twice, {different} differ", plan.property);
        bad += different;
    }

    i32::from(bad > 0)
}

// --- evidence --------------------------------------------------------------------------------

fn json(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            c if (c as u32) < 0x20 => {
                let _ = write!(out, "\\u{:04x}", c as u32);
            }
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

#[allow(clippy::too_many_arguments)]
fn evidence(
    plan: &Plan,
    seed: u64,
    tier: &str,
    board: &Board,
    distinct: u64,
    counters: &BTreeMap<&str, u64>,
    findings: &[(String, String)],
    explored: f64,
    wall: f64,
    code: i32,
) {
    let runs = board.done.load(Relaxed);
    let list = |prefix: &str| {
        counters
            .iter()
            .filter_map(|(k, v)| Some(format!("{}: {v}", json(k.strip_prefix(prefix)?))))
            .collect::<Vec<_>>()
            .join(", ")
    };
    let samples = board.samples.iter().map(|x| json(&x.text())).filter(|x| x.len() > 2).collect::<Vec<_>>().join(", ");
    let found = findings
        .iter()
        .filter_map(|(id, _)| counters.get(id.as_str()).map(|n| format!("{}: {n}", json(id))))
        .collect::<Vec<_>>()
        .join(", ");
    let assumptions = plan.assumptions.iter().map(|x| json(x)).collect::<Vec<_>>().join(", ");
    let per_hour = if explored > 0.0 { runs as f64 * 3_600.0 / explored } else { 0.0 };

    let (reached, edges) = crate::probe::reached();

    let s = format!(
        r#"{{
 "property": {property},
 "tier": {tier},
 "seed": {seed},
 "level": {level},
 "coverage": {{
  "evaluations": {evaluations},
  "distinct_nontrivial": {distinct},
  "rule": {rule},
  "samples": [{samples}],
  "simulated_runs": {runs},
  "seeds_per_hour": {per_hour:.0},
  "simulated_seconds": {simulated},
  "edges_of_ikal_reached": {reached},
  "edges_of_ikal": {edges},
  "faults_injected": {{{faults}}},
  "probes": {{{probes}}},
  "known_findings_hit": {{{found}}},
  "real_components": {real},
  "stub_components": {stub}
 }},
 "assumptions": [{assumptions}],
 "wall_s": {wall:.1},
 "violations": {code}
}}
"#,
        property = json(plan.property),
        tier = json(tier),
        level = json(plan.level),
        evaluations = counters.get("evaluations").unwrap_or(&0),
        rule = json(plan.rule),
        simulated = counters.get("simulated seconds").unwrap_or(&0),
        faults = list("fault: "),
        probes = list("probe: "),
        real = json(plan.real),
        stub = json(plan.stub),
    );
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(dir.join(format!("{}.json", plan.property)), s) {
        eprintln!("cannot write the evidence: {e}");
        std::process::exit(2);
    }
}
