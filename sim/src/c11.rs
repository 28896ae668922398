//! C11: results depend on the input alone, not on threads, schedule or history.

use crate::doc::{self, Style, Type};
use crate::gen_::{self as typed, Make as _};
use crate::host::{self, Host};
use crate::model::{self, Any};
use crate::rrule::Form;
use crate::runner::Plan;
use crate::series::{self, Recurring, Window};
use crate::stamps::{self, Stamps};
use crate::tz::Zone;
use crate::{c02, c06, ctx, event, sched, tape};
use std::fmt::Write as _;
use std::sync::atomic::Ordering::Relaxed;

pub const PLAN: Plan = Plan {
    property: "C11",
    scenario,
    quick: 6_000,
    thorough: 200_000,
    level: "exploration",
    rule: "Some operations on related inputs - documents and variations of them, well-formed or damaged, values, \
           components to write, dates and periods to compare, rules to expand, wall-clock times to convert - are run each \
           alone in a fresh process on a simulated host. Then, in one process with other hash seeds and another clock, \
           some of them are run up to hundreds of times in a random order, in other zones too, then by two to four \
           threads that a seeded scheduler interleaves at allocations, clock, environment and file accesses, contended \
           locks, and edges of the control flow, atomics and static memory, then once more alone. Every result, errors included, must be that of the \
           fresh process. A case is one result compared; distinct by operation, and by the interleaving, non-trivial \
           when something else ran before or in between.",
    real: "ikal (readers, writers, values, occurrences), chrono (including its zone cache of each thread), std",
    stub: "scheduler of the threads, clock, host zone and database files, random numbers, contended locks",
    assumptions: &["the threads are run one at a time: the effects of a weak memory order are not explored"],
};

enum Op {
    Read(&'static str, String),
    Value(String),
    Write(Any),
    Series(Recurring),
    Window(Recurring, Window),
    Stamps(Stamps),
}

impl Op {
    fn name(&self) -> &'static str {
        match self {
            Self::Read(..) => "read",
            Self::Value(_) => "value",
            Self::Write(_) => "write",
            Self::Series(_) => "series",
            Self::Window(..) => "window",
            Self::Stamps(_) => "stamps",
        }
    }

    fn small(&self) -> bool {
        matches!(self, Self::Read(_, text) | Self::Value(text) if text.len() < 1_000)
    }

    /// All there is to see of its result.
    fn run(&self) -> String {
        let mut s = String::new();
        match self {
            Self::Read(kind, text) => {
                let _ = match Any::read(kind, text) {
                    Ok(any) => write!(s, "{any:?}"),
                    Err(e) => write!(s, "{e:?} {e}"),
                };
            }
            Self::Value(text) => values(text, &mut s),
            Self::Write(any) => {
                let _ = write!(s, "{:?} {}", any.write(), any.clone() == *any);
            }
            Self::Series(x) => {
                for x in x.iter().take(12) {
                    let _ = writeln!(s, "{:?} {:?} {:?}", x.start(), x.end(), x.rule());
                }
                let _ = write!(s, "{:?}", x.iter().nth(2));
            }
            Self::Window(x, window) => {
                for x in x.window(*window, 8) {
                    let _ = writeln!(s, "{:?} {:?} {:?}", x.start(), x.end(), x.rule().and_then(|x| x.count));
                }
            }
            Self::Stamps(x) => {
                for a in &x.dates {
                    let local = chrono::DateTime::<chrono::Local>::try_from(ikal::DateTime::from(*a));
                    let _ = write!(s, "{a} {:?} {:?} {local:?} ", a.date_naive(), ikal::ser::ical(a));
                    for b in &x.dates {
                        let (c, d) = (ikal::DateTime::from(*a), ikal::DateTime::from(*b));
                        let _ = write!(s, "{:?} {} {}", a.cmp(b), a == b, c - d);
                    }
                }
                for a in &x.periods {
                    let _ = write!(s, "{a} {} ", a.duration());
                    for b in &x.periods {
                        let _ = write!(s, "{:?} {}", a.cmp(b), a == b);
                    }
                }
            }
        }
        s
    }
}

fn values(text: &str, s: &mut String) {
    macro_rules! value {
        ($($ty:ty),*) => { $(
            let _ = match text.parse::<$ty>() {
                Ok(x) => writeln!(s, "{x:?} {:?}", ikal::ser::ical(&x)),
                Err(e) => writeln!(s, "{e}"),
            };
        )* };
    }
    value!(
        ikal::Date, ikal::DateTime, ikal::Recur, ikal::WeekdayNum, ikal::Period, ikal::Trigger, ikal::Geo, ikal::Status,
        ikal::Class, ikal::RequestStatus
    );
    let _ = writeln!(s, "{:?}", ikal::parse_duration(text).map_err(|e| e.to_string()));
    let text: ikal::Text = text.into();
    let _ = writeln!(s, "{text} {:?}", ikal::ser::ical(&text));
}

// --- inputs ----------------------------------------------------------------------------------

/// Nearly the same text.
fn variation(text: &str) -> String {
    let mut bytes = text.as_bytes().to_vec();
    let digits: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i].is_ascii_digit()).collect();
    let letters: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i].is_ascii_lowercase()).collect();
    if tape::chance(1, 3) {
        // One value.
        let lines: Vec<&str> = text.split("\r\n").collect();
        let i = tape::pick(lines.len());
        let mut lines: Vec<String> = lines.iter().map(ToString::to_string).collect();
        let line = lines[i].clone();
        let (name, value) = line.split_once(':').map_or(("", line.as_str()), |x| x);
        let colon = if name.is_empty() { "" } else { ":" };
        let swapped: String = value.chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
        let value = match tape::choose(8) {
            0 => swapped,
            1 => value.to_uppercase(),
            2 if value.contains('+') => value.replacen('+', "-", 1),
            2 => value.replacen('-', "+", 1),
            3 if value.ends_with('Z') => value.trim_end_matches('Z').to_string(),
            3 => format!("{value}Z"),
            4 => value.chars().rev().collect(),
            5 => format!("{value} "),
            6 => value.chars().skip(1).collect(),
            _ => format!("{value}{value}"),
        };
        lines[i] = format!("{name}{colon}{value}");
        return lines.join("\r\n");
    }
    for _ in 0..1 + tape::pick(3) {
        if tape::chance(1, 4) && !letters.is_empty() {
            bytes[*tape::of(&letters)] = b'a' + tape::choose(26) as u8;
        } else if !digits.is_empty() {
            bytes[*tape::of(&digits)] = b'0' + tape::choose(10) as u8;
        }
    }
    String::from_utf8(bytes).unwrap()
}

/// An operation and others like it.
fn family(author: &mut Host, zone: &Zone, style: &Style, ops: &mut Vec<Op>) {
    match tape::choose(6) {
        0 | 1 => {
            let kind = model::KINDS[tape::pick(model::KINDS.len())];
            let lines = doc::generate(kind, style).flat();
            let text = doc::render(&lines, tape::choose(2) * 4);
            for _ in 0..tape::pick(5) {
                let other = match tape::choose(3) {
                    0 => c02::damage(&text, "BEGIN:VEVENT\r\n"),
                    _ => variation(&text),
                };
                if other.len() < 20_000 {
                    ops.push(Op::Read(kind, other));
                }
            }
            if tape::chance(1, 4) {
                ops.push(Op::Read(model::KINDS[tape::pick(model::KINDS.len())], text.clone()));
            }
            ops.push(Op::Read(kind, text));
        }
        2 => {
            let value = c02::hostile_value(style);
            if value.len() > 2_000 {
                return;
            }
            ops.push(Op::Value(variation(&value)));
            ops.push(Op::Value(value));
        }
        3 => {
            let kind = model::KINDS[tape::pick(10)];
            let any = author.run("build", || typed::any(kind, style));
            let text = author.run("write", || any.write());
            if let Ok(text) = text {
                ops.push(Op::Read(kind, text));
            }
            ops.push(Op::Write(any));
        }
        4 => {
            let form = [Form::Date, Form::Floating, Form::Utc][tape::pick(3)];
            let near = zone.interesting();
            let (x, series) = author.run("build", || series::make(form, near));
            let starts: Vec<_> = series.expand(12).into_iter().map(|x| x.1.at).collect();
            for _ in 0..1 + tape::pick(2) {
                let (Some(from), Some(to)) = (starts.get(tape::pick(12)), starts.get(tape::pick(12))) else { continue };
                let (from, to) = author.run("build", || (series::date(form, *from), series::date(form, *to)));
                let window = match tape::choose(3) {
                    0 => Window::Between(from, to),
                    1 => Window::At(from),
                    _ => Window::After(from),
                };
                ops.push(Op::Window(x.clone(), window));
            }
            if tape::chance(1, 2) {
                let mut other = x.clone();
                let mut rule = other.rule().unwrap().clone();
                rule.interval = rule.interval.wrapping_add(1).max(1);
                other.set_rule(rule);
                ops.push(Op::Series(other));
            }
            ops.push(Op::Series(x));
        }
        _ => {
            let near = zone.interesting();
            let n = 2 + tape::pick(5);
            let built = author.run("build", || {
                let mut all = stamps::of(&typed::any("VFREEBUSY", style));
                all.dates.truncate(3);
                all.periods.truncate(4);
                for _ in 0..n {
                    let t = near + [0, 1, -1, 3_600, -3_600, 1_800, 86_400][tape::pick(7)];
                    let at = chrono::DateTime::from_timestamp(t, 0).unwrap().naive_utc();
                    let wall = at + chrono::TimeDelta::seconds(i64::from(zone.offset(t)));
                    all.dates.push(match tape::choose(4) {
                        0 => series::utc(at),
                        1 => ikal::Date::make("", style),
                        _ => wall.into(),
                    });
                }
                all
            });
            ops.push(Op::Stamps(built));
        }
    }
}

/// Small documents with one value each, all of one type.
fn values_of_a_type(style: &Style, ops: &mut Vec<Op>) {
    const IN: &[(Type, &str, &str)] = &[
        (Type::Text, "VTODO", "SUMMARY"),
        (Type::TextList, "VTODO", "CATEGORIES"),
        (Type::Uri, "VTODO", "URL"),
        (Type::DateList, "VTODO", "EXDATE"),
        (Type::Offset, "STANDARD", "TZOFFSETTO"),
    ];
    ctx::count("probe: values of a type");
    let all: Vec<_> = IN.iter().chain(crate::c14::COLUMNS).collect();
    let (ty, kind, name) = **tape::of(&all);
    let mut values = Vec::new();
    for _ in 0..3 + tape::pick(8) {
        let (params, value) = doc::value_text(ty, style);
        let text = match kind {
            "STANDARD" => format!("BEGIN:STANDARD\r\nDTSTART:20240101T000000\r\nTZOFFSETFROM:+0100\r\n{name}{params}:{value}\r\nEND:STANDARD\r\n"),
            _ => crate::c14::document(kind, &format!("{name}{params}"), &value),
        };
        if text.len() < 1_000 {
            ops.push(Op::Read(kind, text));
            values.push(value);
        }
    }
    if tape::chance(1, 2) {
        ops.extend(values.into_iter().take(4).map(Op::Value));
    }
    if ops.is_empty() {
        ops.push(Op::Value("1".to_string()));
    }
}

// --- fresh processes -------------------------------------------------------------------------

const LONGEST: usize = 6_000;

#[repr(C)]
struct Truth {
    done: bool,
    hash: u64,
    len: usize,
    text: [u8; LONGEST],
}

fn view(s: &str) -> (u64, String) {
    (ctx::fingerprint(s), s.chars().take(LONGEST / 4).collect())
}

/// The result of the operation, alone in a process.
fn alone(op: &Op, zone: &Zone, truth: &mut Truth) -> (u64, String) {
    truth.done = false;
    let pid = unsafe { libc::fork() };
    if pid < 0 {
        ctx::harness("fork failed");
    }
    if pid == 0 {
        let mut host = Host::new("alone");
        host.set_zone(zone.clone(), 1);
        let (hash, text) = view(&host.run(op.name(), || op.run()));
        truth.hash = hash;
        truth.text[..text.len()].copy_from_slice(text.as_bytes());
        truth.len = text.len();
        truth.done = true;
        unsafe { libc::_exit(0) };
    }
    let mut status = 0;
    while unsafe { libc::waitpid(pid, &mut status, 0) } != pid {}
    if ctx::slot().status.load(Relaxed) != ctx::RUNNING {
        unsafe { libc::_exit(0) };
    }
    if !truth.done {
        ctx::violation("crash", &format!("{} ends with status {status:x}, alone", op.name()));
    }
    (truth.hash, String::from_utf8_lossy(&truth.text[..truth.len]).into_owned())
}

fn compare(when: &str, op: &Op, wanted: &(u64, String), got: &str) {
    let (hash, text) = view(got);
    if hash != wanted.0 {
        let at = text.bytes().zip(wanted.1.bytes()).take_while(|(a, b)| a == b).count();
        let part = |s: &str| s.chars().skip(at.saturating_sub(60)).take(400).collect::<String>();
        ctx::violation(&format!("{} {when}", op.name()), &format!("{:?}, and {:?} alone", part(&text), part(&wanted.1)));
    }
}

fn scenario() {
    let mut style = Style::random();
    style.utc = true;
    style.density = style.density.min(6);
    let zone = host::random_zone();
    let mut author = Host::in_zone("author", zone.clone());

    let mut ops = Vec::new();
    if tape::chance(1, 4) {
        values_of_a_type(&style, &mut ops);
    } else {
        while ops.len() < 3 {
            family(&mut author, &zone, &style, &mut ops);
        }
        if tape::chance(1, 2) {
            family(&mut author, &zone, &style, &mut ops);
        }
        ops.truncate(9);
    }

    let truth: &'static mut Truth = ctx::shared();
    let wanted: Vec<(u64, String)> = ops.iter().map(|op| alone(op, &zone, truth)).collect();
    for (op, (hash, text)) in ops.iter().zip(&wanted) {
        event!("{}: {hash:016x} {}", op.name(), text.chars().take(300).collect::<String>());
    }

    // Another process, with its history.
    let mut host = Host::in_zone("host", zone.clone());
    host.state.rng = tape::choose(1 << 32);
    host.sleep(tape::range(-1_000_000_000, 1_000_000_000));
    host.restart();
    let mut disturbed = false;
    let before = [0, 3, 12, 60, 400][tape::weighted(&[2, 4, 3, 1, 1])];
    for i in 0..before {
        if tape::chance(1, 30) {
            disturbed = true;
            c06::disturb(&mut host);
        }
        let k = tape::pick(ops.len());
        let op = &ops[k];
        let got = host.run(op.name(), || op.run());
        if !disturbed {
            ctx::case((i > 0).then(|| ctx::fingerprint(&format!("{} {k} {}", wanted[k].0, i.min(6)))));
            compare("again", op, &wanted[k], &got);
        }
    }
    if disturbed {
        ctx::count("probe: other zones before");
        host.set_faults(Default::default());
        if host.degraded {
            // What chrono could not read, it does not read again.
            host.restart();
        }
        host.set_zone(zone, 1);
    }

    // Threads.
    let points = [sched::Points::Calls, sched::Points::Edges, sched::Points::Accesses][tape::weighted(&[2, 3, 2])];
    let small = ops.iter().all(Op::small);
    let plans: Vec<Vec<usize>> =
        (0..2 + tape::pick(3)).map(|_| (0..1 + tape::pick(if small { 12 } else { 3 })).map(|_| tape::pick(ops.len())).collect()).collect();
    let mut results: Vec<Vec<String>> = plans.iter().map(|_| Vec::new()).collect();
    event!("threads: {plans:?}, at {points:?}");
    host.state.alloc_budget = 1 << 30;
    host.state.alloc_bytes = 0;
    host.state.live = 0;
    let tasks: Vec<Box<dyn FnOnce() + '_>> = plans
        .iter()
        .zip(&mut results)
        .map(|(plan, out)| {
            let ops = &ops;
            Box::new(move || {
                for k in plan {
                    out.push(ops[*k].run());
                }
            }) as Box<dyn FnOnce() + '_>
        })
        .collect();
    let trace = sched::run(&mut host.state, points, tasks);
    event!("schedule: {} switches at {} points, {:016x}", trace.switches, trace.points, trace.hash);
    ctx::add("probe: thread switches", trace.switches as u64);
    ctx::seen(trace.hash);

    for (plan, results) in plans.iter().zip(&results) {
        if results.len() < plan.len() {
            ctx::violation("panic in a thread", &format!("{} panicked: {}", ops[plan[results.len()]].name(), host::any_panic()));
        }
        for (k, got) in plan.iter().zip(results) {
            ctx::case(Some(ctx::fingerprint(&format!("{} {}", wanted[*k].0, trace.hash))));
            compare("among threads", &ops[*k], &wanted[*k], got);
        }
    }

    for (op, wanted) in ops.iter().zip(&wanted) {
        let got = host.run(op.name(), || op.run());
        compare("afterwards", op, wanted, &got);
    }
}
