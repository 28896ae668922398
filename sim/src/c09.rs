//! C09: occurrences are delivered exactly once across crash and resume.

use crate::host::{self, Host};
use crate::model::{self, Node};
use crate::rrule::{Form, Point};
use crate::runner::Plan;
use crate::series::{self, Recurring, Window};
use crate::{c06, ctx, event, tape};
use chrono::{Datelike as _, NaiveDateTime, NaiveTime, TimeDelta};

pub const PLAN: Plan = Plan {
    property: "C09",
    scenario,
    quick: 24_000,
    thorough: 900_000,
    level: "exploration",
    rule: "A consumer walks the occurrences of a random recurring component, on a simulated host in any zone. It is \
           killed at any occurrence, or between two, and resumes - on the same or another host, after zone changes, \
           clock jumps and database failures - from what its store kept: the last occurrence it handled, a position, \
           the occurrence itself, or its text. Other consumers walk the same series in adjacent windows cut at, just \
           before and just after occurrences, or day by day. The log of each must be the uninterrupted series, and \
           the whole window. A case is one resume or one window; distinct by its rule, how it was done, and where, \
           non-trivial when there is an occurrence before and one after.",
    real: "ikal (occurrences, windows, readers, writers, values), chrono, std",
    stub: "host zone, its configuration and database files, clock, process lifetime, store",
    assumptions: &[
        "a resumed consumer drops the first occurrence of `after` when it is the last one it handled: the bound is \
         included",
        "bounds of windows of another kind than the start (a date, or a floating time, for a UTC start) are compared in \
         the zone of the host, and are used while it is the same",
        "the text of an occurrence with UTC timestamps is stored by hosts in UTC (see KF-1 of C07)",
    ],
};

fn limit() -> usize {
    [4, 16, 50, 120][tape::weighted(&[2, 6, 3, 1])]
}

fn differs(wanted: &[Node], got: &[Node]) -> Option<(String, String)> {
    for (i, (a, b)) in wanted.iter().zip(got).enumerate() {
        if let Some((class, message)) = model::diff(a, b) {
            return Some((class.to_string(), format!("occurrence {i}: {message}")));
        }
    }
    (wanted.len() != got.len()).then(|| ("how many".to_string(), format!("{} occurrences, not {}", got.len(), wanted.len())))
}

fn nodes(items: &[Recurring]) -> Vec<Node> {
    items.iter().map(|x| x.node().sorted()).collect()
}

/// What the consumer keeps in its store, for each way to resume.
#[derive(Clone, Debug)]
struct Cursor {
    position: usize,
    last: Option<(Point, Recurring)>,
    text: Option<String>,
}

struct World {
    hosts: Vec<Host>,
    /// The zones do not change.
    fixed: bool,
    original: Recurring,
    text: String,
    stamps: bool,
    truth: Vec<Node>,
    points: Vec<Point>,
    is_all: bool,
    form: Form,
    what: String,
}

impl World {
    fn disturb(&mut self, i: usize) {
        let host = &mut self.hosts[i];
        if !self.fixed {
            c06::disturb(host);
            return;
        }
        match tape::choose(3) {
            0 => (),
            1 => {
                ctx::count("fault: clock jumps");
                host.sleep([1, -1, 3_600, -86_400 * 400][tape::pick(4)]);
            }
            _ => {
                ctx::count("fault: restart");
                host.restart();
            }
        }
    }

    /// The original, as a process that starts gets it.
    fn load(&mut self, i: usize) -> Recurring {
        let built = tape::chance(1, 3);
        self.get(i, built)
    }

    fn get(&mut self, i: usize, built: bool) -> Recurring {
        let (kind, text, copy) = (self.original.kind(), &self.text, self.original.clone());
        let read = self.hosts[i].run("read", || if built { Ok(copy) } else { Recurring::read(kind, text) });
        read.unwrap_or_else(|e| ctx::violation("refused", &format!("{e}\n{text}")))
    }

    /// A case: where the series is cut.
    fn case(&self, how: &str, at: usize) {
        let interesting = at > 0 && at < self.truth.len();
        ctx::case(interesting.then(|| ctx::fingerprint(&format!("{how} {at} {}", self.what))));
    }
}

/// Killed anywhere, and resumed.
fn consume(world: &mut World) {
    let mut cursor = Cursor { position: 0, last: None, text: None };
    let mut log: Vec<Node> = Vec::new();
    let mut ended = false;
    let limit = world.truth.len();

    for life in 0..limit + 8 {
        if ended || log.len() >= limit {
            break;
        }
        let i = tape::pick(world.hosts.len());
        if life > 0 {
            ctx::count("fault: consumer killed");
            if tape::chance(1, 2) {
                world.hosts[i].restart();
            }
            if tape::chance(1, 2) {
                world.disturb(i);
            }
        }

        // How far it goes in this life, and how far it looks ahead of what it handles.
        let handle = 1 + tape::pick([2, 6, 30][tape::pick(3)]);
        let ahead = tape::pick(4);
        let source = world.load(i);
        let (first, kind) = (log.len(), source.kind());
        let how = match (&cursor.last, &cursor.text, tape::choose(4)) {
            (_, Some(_), 1) => "text",
            (Some(_), _, 2) => "occurrence",
            (Some(_), _, 3) => "after",
            _ => "position",
        };
        event!("life {life} on {}: {how} {first}, {handle} + {ahead}", world.hosts[i].name);
        world.case(how, first);

        let wanted = handle + ahead;
        let here = cursor.clone();
        let utc = world.fixed && world.hosts.iter().all(|x| x.zone.is_utc());
        let host = &mut world.hosts[i];
        let got: Result<Vec<Recurring>, String> = host.run("resume", || {
            Ok(match how {
                "position" => source.iter().skip(here.position).take(wanted).collect(),
                "after" => {
                    let (point, _) = here.last.unwrap();
                    let bound = series::date(point.form, point.at);
                    let mut got = source.window(Window::After(bound), wanted + 1);
                    if got.first().map(Recurring::start) != Some(bound) {
                        return Err(format!("{:?}, and not the last occurrence, is after {point:?}", got.first()));
                    }
                    got.remove(0);
                    got
                }
                _ => {
                    let last = if how == "text" {
                        Recurring::read(kind, &here.text.unwrap()).map_err(|e| format!("{e}"))?
                    } else {
                        here.last.unwrap().1
                    };
                    let mut got: Vec<Recurring> = last.iter().take(wanted + 1).collect();
                    if got.is_empty() {
                        return Err("an occurrence has no occurrence".to_string());
                    }
                    let again = got.remove(0);
                    if again != last {
                        return Err(format!("the first occurrence of {last:?} is {again:?}"));
                    }
                    got
                }
            })
        });
        let got = got.unwrap_or_else(|e| ctx::violation(&format!("resume by {how}"), &format!("{e}\n{}", world.what)));
        ended = got.len() < wanted;
        let left = got.len().saturating_sub(if ended { 0 } else { ahead });

        // What it looked at, and had not handled, is lost with it.
        let pure = utc || !world.stamps;
        let done: Vec<Node> = host.run("view", || nodes(&got[..left]));
        for (x, node) in got[..left].iter().zip(done) {
            log.push(node);
            cursor.position = log.len();
            cursor.last = Some((Point::of(&x.start()), x.clone()));
        }
        if let Some((_, last)) = &cursor.last {
            cursor.text = None;
            // As far as the years that can be written.
            let latest = last.end().map_or(0, |x| x.date_naive().year()).max(last.start().date_naive().year());
            if pure && latest <= 9_998 {
                let text = host.run("write", || last.write());
                cursor.text = Some(text.unwrap_or_else(|e| ctx::violation("write failed", &e.to_string())));
            }
        }

        let n = std::cmp::min(log.len(), limit);
        if let Some((class, message)) = differs(&world.truth[..n], &log[..n]) {
            ctx::violation(&format!("resume by {how}: {class}"), &format!("{message}, resumed after {first}\n{}", world.what));
        }
        if ended && log.len() < limit {
            ctx::violation(&format!("resume by {how}: lost"), &format!("{} occurrences of {limit}, resumed after {first}\n{}", log.len(), world.what));
        }
        if world.is_all && log.len() > limit {
            ctx::violation(&format!("resume by {how}: too many"), &format!("{} occurrences of {limit}, resumed after {first}\n{}", log.len(), world.what));
        }
    }
}

/// Every occurrence starts the rest of the series.
fn restarts(world: &mut World) {
    let i = tape::pick(world.hosts.len());
    let limit = world.truth.len();
    let source = world.load(i);
    let all = world.hosts[i].run("expand", || source.iter().take(limit).collect::<Vec<_>>());
    if all.len() < limit {
        ctx::violation("restart: lost", &format!("{} occurrences of {limit}\n{}", all.len(), world.what));
    }
    for _ in 0..1 + tape::pick(4) {
        let k = tape::pick(all.len());
        world.case("restart", k);
        if tape::chance(1, 3) {
            world.disturb(i);
        }
        let wanted = limit - k + usize::from(world.is_all);
        let rest = world.hosts[i].run("restart", || nodes(&all[k].iter().take(wanted).collect::<Vec<_>>()));
        if let Some((class, message)) = differs(&world.truth[k..], &rest) {
            ctx::violation(&format!("restart: {class}"), &format!("{message}, restarted from {k}\n{}", world.what));
        }
    }
}

fn moved(at: NaiveDateTime, seconds: i64) -> NaiveDateTime {
    at.checked_add_signed(TimeDelta::seconds(seconds)).unwrap_or(at)
}

/// Adjacent windows.
fn windows(world: &mut World) {
    let i = tape::pick(world.hosts.len());
    let n = world.truth.len();
    let own = world.form;
    let form = match own {
        Form::Date => own,
        _ if !world.fixed => own,
        _ => [own, Form::Floating, Form::Date][tape::weighted(&[2, 1, 1])],
    };
    // As a clock shows it there.
    let zone = world.hosts[i].zone.clone();
    let shown = |x: NaiveDateTime| if own == Form::Utc && form != own { moved(x, i64::from(zone.offset(x.and_utc().timestamp()))) } else { x };
    let start = shown(world.points[0].at);
    let last = shown(world.points[n - 1].at);
    let day = 86_400;
    let mut bounds: Vec<NaiveDateTime> = vec![moved(start, -3 * day)];
    // The end: only what comes before is known.
    let end = if world.is_all { moved(last, [1, day, 3 * day, 400 * day][tape::pick(4)]) } else { last };
    for _ in 0..tape::pick(6) {
        let at = shown(world.points[tape::pick(n)].at);
        let by = [0, 0, 0, 1, -1, day, -day, 3_600, -3_600][tape::pick(9)];
        bounds.push(moved(at, by));
    }
    bounds.retain(|x| *x < end);
    if bounds.is_empty() {
        bounds.push(moved(start, -1));
    }
    bounds.push(end);
    if form == Form::Date {
        for x in &mut bounds {
            *x = x.date().and_time(NaiveTime::MIN);
        }
    }
    bounds.sort_unstable();
    if tape::chance(2, 3) {
        bounds.dedup();
    }
    let (from, to) = (bounds[0], *bounds.last().unwrap());
    if from.year() < 1 || to.year() > 9_999 {
        return;
    }

    let limit = n + 10;
    // What was read from a text is compared with what was built, and not the other way around.
    // What was built elsewhere has another wall-clock time than what is read here.
    let source = world.get(i, form == own);
    let whole = world.hosts[i].run("window", || {
        nodes(&source.window(Window::Between(series::date(form, from), series::date(form, to)), limit))
    });
    if whole.len() >= limit {
        // The clock was set back: more than what is known.
        ctx::count("probe: too long a window");
        return;
    }
    if form == own {
        // Bounds of the same kind are compared as they are.
        let wanted: Vec<Node> = (0..n).filter(|k| (from..to).contains(&world.points[*k].at)).map(|k| world.truth[k].clone()).collect();
        if let Some((class, message)) = differs(&wanted, &whole) {
            ctx::violation(&format!("whole window: {class}"), &format!("{message}, from {from} to {to}\n{}", world.what));
        }
    }

    let mut log: Vec<Node> = Vec::new();
    for pair in bounds.windows(2) {
        let (a, b) = (pair[0], pair[1]);
        world.case("window", log.len());
        let j = if world.fixed { i } else { tape::pick(world.hosts.len()) };
        if tape::chance(1, 3) {
            world.disturb(j);
        }
        let built = form == own && tape::chance(1, 3);
        let source = world.get(j, built);
        let daily = tape::chance(1, 3) && (b - a).num_days() <= 20 && b > a && form != Form::Utc;
        event!("{}: window {a} to {b}, {form:?}, {daily}", world.hosts[j].name);
        let got = world.hosts[j].run("window", || {
            let mut got = Vec::new();
            let mut at = a;
            // A part of the window, and then whole days.
            while daily && at < b {
                let rest = b - at;
                let window = if rest >= TimeDelta::days(1) {
                    Window::At(series::date(form, at))
                } else {
                    Window::Between(series::date(form, at), series::date(form, b))
                };
                got.extend(source.window(window, limit));
                at = if rest >= TimeDelta::days(1) { at + TimeDelta::days(1) } else { b };
            }
            if !daily {
                got = source.window(Window::Between(series::date(form, a), series::date(form, b)), limit);
            }
            nodes(&got)
        });
        log.extend(got);
    }
    if let Some((class, message)) = differs(&whole, &log) {
        ctx::violation(&format!("windows: {class}"), &format!("{message}; windows at {bounds:?} ({form:?})\n{}", world.what));
    }
}

fn scenario() {
    let fixed = tape::chance(1, 2);
    let mut hosts = Vec::new();
    for i in 0..1 + tape::pick(2) {
        let zone = if fixed && tape::chance(1, 2) { crate::tz::Zone::utc() } else { host::random_zone() };
        hosts.push(Host::in_zone(["host 1", "host 2"][i], zone));
    }
    let near = hosts[tape::pick(hosts.len())].zone.interesting();
    let form = [Form::Date, Form::Floating, Form::Utc][tape::weighted(&[2, 2, 3])];

    let mut author = Host::new("author");
    let (x, series) = author.run("build", || series::make(form, near));
    let text = author.run("write", || x.write());
    let text = text.unwrap_or_else(|e| ctx::violation("write failed", &e.to_string()));
    event!("{series:?}\n{text}");

    // The uninterrupted series.
    let limit = limit();
    let all = author.run("expand", || {
        let all: Vec<Recurring> = x.iter().take(limit + 1).collect();
        let points = all.iter().map(|x| Point::of(&x.start())).collect::<Vec<_>>();
        (nodes(&all), points)
    });
    let (mut truth, mut points) = all;
    let is_all = truth.len() <= limit;
    truth.truncate(limit);
    points.truncate(limit);
    let what = format!("{series:?}");
    if truth.is_empty() {
        return;
    }
    let stamps = truth[0].text().contains("instant ");
    let mut world = World { hosts, fixed, original: x, text, stamps, truth, points, is_all, form, what };

    match tape::choose(4) {
        0 | 1 => consume(&mut world),
        2 => windows(&mut world),
        _ => restarts(&mut world),
    }
}
