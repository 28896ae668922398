//! C08: recurring components expand exactly as their rule says.

use crate::host::{self, Host};
use crate::model::{self, Node};
use crate::rrule::{Form, Point, Series};
use crate::runner::Plan;
use crate::series::{self, Iter, Recurring};
use crate::{c06, ctx, event, tape};

pub const PLAN: Plan = Plan {
    property: "C08",
    scenario,
    quick: 24_000,
    thorough: 1_000_000,
    level: "exploration",
    rule: "A recurring event, journal or to-do with a random start (date, floating or UTC, often around a transition of a \
           host or at the end of a month), frequency, interval, count, end (of the same form, or a date), exceptions and \
           end date, is built or read from its text on one to three hosts in any zone, and expanded in slices on each, \
           interleaved, while zones change, clocks jump, databases fail and heal between slices. Each occurrence - start, \
           end or due date, remaining count, and everything else - and the end of the series must be those of an \
           independent reference expansion. A case is one occurrence; distinct by its date, its rule and the zone, \
           non-trivial after the first one.",
    real: "ikal (occurrences, rules, readers, values), chrono, std",
    stub: "host zone, its configuration and database files, clock, process lifetime, order of the slices",
    assumptions: &[
        "no occurrence after the year 9999",
        "no end with a UTC time for a start without, and no part of a day for a start that is a plain date: what the \
         standard does not allow",
    ],
};

/// An expansion under way on a host.
struct Walk {
    host: usize,
    iter: Iter,
    done: usize,
}

/// The expected occurrences.
pub fn reference(original: &Node, x: &Recurring, series: &Series, limit: usize) -> Vec<(Point, Node)> {
    let rule = x.rule().unwrap();
    series
        .expand(limit)
        .into_iter()
        .map(|(before, point)| {
            let by = point.at - series.start.at;
            let end = x.end().map(|x| Point::of(&x)).and_then(|x| x.shifted(by));
            (point, Recurring::expected(original, before, point, end, rule))
        })
        .collect()
}

/// A series whose end may be as far as that.
pub fn limit() -> usize {
    [3, 12, 40, 140, 300][tape::weighted(&[2, 6, 4, 2, 1])]
}

fn scenario() {
    let mut hosts = Vec::new();
    for i in 0..1 + tape::pick(3) {
        hosts.push(Host::in_zone(["host 1", "host 2", "host 3"][i], host::random_zone()));
    }
    let near = hosts[tape::pick(hosts.len())].zone.interesting();
    let form = [Form::Date, Form::Floating, Form::Utc][tape::weighted(&[2, 2, 3])];

    // Where a UTC timestamp is written as it is.
    let mut author = Host::new("author");
    let (x, series) = author.run("build", || series::make(form, near));
    let original = author.run("view", || x.node()).sorted();
    let text = author.run("write", || x.write());
    let text = text.unwrap_or_else(|e| ctx::violation("write failed", &e.to_string()));
    event!("{series:?}\n{text}");

    let limit = limit();
    let expected = reference(&original, &x, &series, limit + 1);
    let is_all = expected.len() <= limit;
    if is_all {
        ctx::count("probe: expanded to its end");
    }
    ctx::add("probe: exceptions met", series.exceptions.len() as u64);

    let mut walks = Vec::new();
    for i in 0..hosts.len() + tape::pick(2) {
        let host = i % hosts.len();
        let built = tape::chance(1, 3);
        let (kind, text) = (x.kind(), &text);
        let copy = x.clone();
        let on = &mut hosts[host];
        let read = on.run("read", || if built { Ok(copy) } else { Recurring::read(kind, text) });
        let read = read.unwrap_or_else(|e| ctx::violation("refused", &format!("{e}\n{text}")));
        let given = on.run("view", || read.node()).sorted();
        if let Some((class, message)) = model::diff(&original, &given) {
            ctx::violation(&format!("read as something else: {class}"), &message);
        }
        let iter = on.run("expand", || read.iter());
        walks.push(Walk { host, iter, done: 0 });
    }

    let mut left = 40 + limit;
    while left > 0 {
        left -= 1;
        let open: Vec<usize> = (0..walks.len()).filter(|i| walks[*i].done < expected.len() + 1).collect();
        if open.is_empty() {
            break;
        }
        let walk = &mut walks[open[tape::pick(open.len())]];
        let host = &mut hosts[walk.host];
        if tape::chance(1, 4) {
            c06::disturb(host);
        }

        for _ in 0..1 + tape::pick(12) {
            let iter = &mut walk.iter;
            let got = host.run("next", || iter.next().map(|x| (x.start(), x.node())));
            let n = walk.done;
            walk.done += 1;
            match (got, expected.get(n)) {
                (None, None) if is_all => {
                    // And it stays there.
                    if let Some(x) = host.run("next", || iter.next().map(|x| x.start())) {
                        ctx::violation("after the end", &format!("{x:?} after the end\n{series:?}"));
                    }
                    break;
                }
                // As far as it was asked for.
                (_, None) if !is_all => break,
                (None, Some((point, _))) => {
                    ctx::violation("missing", &format!("{}: no occurrence {n} at {point:?}, in {}\n{series:?}", host.name, host.zone.name))
                }
                (Some((start, _)), None) => {
                    ctx::violation("one too many", &format!("{}: occurrence {n} at {start:?}, in {}\n{series:?}", host.name, host.zone.name))
                }
                (Some((start, node)), Some((point, wanted))) => {
                    ctx::case((n > 0).then(|| ctx::fingerprint(&format!("{}{:?}{}{}", point.text(), series.freq, series.interval, host.zone.name))));
                    if Point::of(&start) != *point {
                        ctx::violation(
                            "another date",
                            &format!("{}: occurrence {n} at {start:?}, not {point:?}, in {}\n{series:?}", host.name, host.zone.name),
                        );
                    }
                    if let Some((class, message)) = model::diff(wanted, &node.sorted()) {
                        ctx::violation(&format!("another occurrence: {class}"), &format!("{}: occurrence {n}: {message}\n{series:?}", host.name));
                    }
                }
                (None, None) => unreachable!(),
            }
        }
    }
}
