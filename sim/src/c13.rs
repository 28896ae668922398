//! C13: dates, date-times and periods have one order.

use crate::host::{self, Host};
use crate::runner::Plan;
use crate::tz::Zone;
use crate::{c06, ctx, event, tape};
use chrono::{DateTime, NaiveDateTime, NaiveTime, TimeDelta, Timelike as _};
use std::cmp::Ordering;

pub const PLAN: Plan = Plan {
    property: "C13",
    scenario,
    quick: 24_000,
    thorough: 900_000,
    level: "exploration",
    rule: "Plain dates, floating and UTC date-times (many of them around the transitions of a zone) and periods are read \
           from documents, or built, at several moments of the life of one or two simulated hosts whose zone changes, \
           whose clock jumps, whose zone database fails and whose process restarts. They are then compared two by two, \
           and sorted - as they came, reversed, shuffled, stable or not, in a tree, in a heap - as a consumer that \
           merges what it received does. No sort panics, each gives the same order, and comparisons are those of one \
           order: reflexive, antisymmetric, transitive, and equal for equal values. As long as the database of the host \
           is healthy, each comparison is that of an independent evaluator of zone data: a plain date stands for its \
           midnight, and a floating time for the first instant at which the host's clock shows it, or a later one. A \
           case is one collection on one host; distinct by its values and the zone, non-trivial when two kinds are in it.",
    real: "ikal (readers, date-times, periods, their order), chrono (including its reader of zone data), std",
    stub: "host zone, its configuration and database files, clock, process lifetime",
    assumptions: &[
        "the zone of the host does not change, and its database does not fail, while a collection is sorted",
        "offsets change at most once in three days (chrono finds no local time between closer transitions)",
        "years 72 to 9996, and periods from one kind of time to the same",
    ],
};

#[derive(Clone, Copy, Debug, PartialEq)]
enum Key {
    Plain(NaiveDateTime),
    Floating(NaiveDateTime),
    Utc(i64, u32),
}

impl Key {
    fn text(self) -> String {
        match self {
            Self::Plain(x) => x.format("%Y%m%d").to_string(),
            Self::Floating(x) => x.format("%Y%m%dT%H%M%S").to_string(),
            Self::Utc(t, _) => c06::text(t),
        }
    }

    fn naive(self) -> Option<NaiveDateTime> {
        match self {
            Self::Plain(x) | Self::Floating(x) => Some(x),
            Self::Utc(..) => None,
        }
    }
}

fn shown(zone: &Zone, t: i64) -> NaiveDateTime {
    DateTime::from_timestamp(t + i64::from(zone.offset(t)), 0).unwrap().naive_utc()
}

/// The first instant at which the clock shows this time, or a later one.
fn first(zone: &Zone, naive: NaiveDateTime) -> (i64, u32) {
    let u = naive.and_utc().timestamp();
    let mut instants: Vec<(i64, u32)> = zone.from_local(naive).into_iter().map(|t| (t, naive.nanosecond())).collect();
    instants.extend(zone.changes(u - 2 * 86_400, u + 2 * 86_400).into_iter().filter(|t| shown(zone, *t) >= naive).map(|t| (t, 0)));
    instants.into_iter().min().unwrap_or_else(|| ctx::harness("a time without instant"))
}

fn expected(zone: &Zone, a: Key, b: Key) -> Ordering {
    match (a, b, a.naive(), b.naive()) {
        (Key::Utc(a, m), Key::Utc(b, n), ..) => (a, m).cmp(&(b, n)),
        (_, _, Some(a), Some(b)) => a.cmp(&b),
        (_, Key::Utc(t, n), Some(a), _) => match first(zone, a).cmp(&(t, n)) {
            Ordering::Equal if shown(zone, t) + TimeDelta::nanoseconds(n.into()) > a => Ordering::Less,
            ordering => ordering,
        },
        _ => expected(zone, b, a).reverse(),
    }
}

fn key(zones: &[Zone], base: i64) -> Key {
    let zone = tape::of(zones);
    let t = match tape::choose(12) {
        0 => zone.interesting(),
        1 => base + tape::range(-400, 400) * 86_400,
        _ => {
            let by = match tape::choose(4) {
                0 => [0, 1, -1, 1_800, 3_600, -3_600, 86_400, -86_400][tape::pick(8)],
                1 => tape::range(-24, 24) * 900,
                _ => tape::range(-30, 30) * 3_600,
            };
            base + by
        }
    };
    let t = t.clamp(-59_900_000_000, 253_300_000_000);
    let naive = shown(zone, t);
    match tape::choose(3) {
        0 => Key::Plain(naive.date().and_time(NaiveTime::MIN)),
        1 => Key::Floating(naive),
        _ => Key::Utc(t, 0),
    }
}

/// Some time after the second, which texts do not tell.
fn subsecond(key: Key) -> Key {
    let nanos = [0, 0, 0, 0, 1, 500_000_000, 999_999_999][tape::pick(7)];
    match key {
        Key::Plain(_) => key,
        Key::Floating(x) => Key::Floating(x.with_nanosecond(nanos).unwrap()),
        Key::Utc(t, _) => Key::Utc(t, nanos),
    }
}

/// What a host gets from a document.
fn read(keys: &[Key]) -> Result<Vec<ikal::Date>, String> {
    let mut text = "BEGIN:VTODO\r\nDTSTAMP:20240101T000000\r\nUID:1\r\n".to_string();
    for key in keys {
        let param = if matches!(key, Key::Plain(_)) { ";VALUE=DATE" } else { "" };
        text.push_str(&format!("EXDATE{param}:{}\r\n", key.text()));
    }
    text.push_str("END:VTODO\r\n");
    text.parse::<ikal::VTodo>().map(|x| x.exdate).map_err(|e| e.to_string())
}

/// What a program on this host builds.
fn build(key: Key) -> ikal::Date {
    match key {
        Key::Plain(x) => ikal::Date::Date(x.date()),
        Key::Floating(x) => ikal::DateTime::Naive(x).into(),
        Key::Utc(t, n) => DateTime::from_timestamp(t, n).unwrap().with_timezone(&chrono::Local).into(),
    }
}

/// The first law that does not hold.
fn laws<T: Ord + Clone + std::fmt::Debug>(items: &[T], order: &[usize]) -> Option<String> {
    for a in items {
        for b in items {
            let ab = a.cmp(b);
            if ab != b.cmp(a).reverse() || a.partial_cmp(b) != Some(ab) {
                return Some(format!("{a:?} and {b:?} compare as {ab:?}, and the other way as {:?}", b.cmp(a)));
            }
            if a == b && ab != Ordering::Equal {
                return Some(format!("{a:?} and {b:?} are equal, and compare as {ab:?}"));
            }
            if (a < b) != (ab == Ordering::Less) || (a >= b) == (ab == Ordering::Less) {
                return Some(format!("{a:?} < {b:?} is {}, and they compare as {ab:?}", a < b));
            }
        }
    }

    let shuffled: Vec<T> = order.iter().map(|i| items[*i].clone()).collect();
    let mut sorted = vec![items.to_vec(), items.iter().rev().cloned().collect(), shuffled.clone(), shuffled.clone()];
    for (i, x) in sorted.iter_mut().enumerate() {
        if i < 3 { x.sort() } else { x.sort_unstable() }
    }
    sorted.push(std::collections::BinaryHeap::from(shuffled.clone()).into_sorted_vec());

    for x in &sorted {
        for i in 0..x.len() {
            for j in i + 1..x.len() {
                if x[i] > x[j] {
                    return Some(format!("{:?} is sorted before {:?}", x[i], x[j]));
                }
            }
        }
    }
    for x in &sorted[1..] {
        for (a, b) in sorted[0].iter().zip(x) {
            if a.cmp(b) != Ordering::Equal {
                return Some(format!("{a:?} or {b:?} comes first, as the collection does"));
            }
        }
    }

    // One by one: a collection that is made at once looks at equality, too.
    let mut set = std::collections::BTreeSet::new();
    for x in shuffled {
        set.insert(x);
    }
    let mut distinct = sorted[0].clone();
    distinct.dedup_by(|a, b| (*a).cmp(b) == Ordering::Equal);
    if set.len() != distinct.len() || items.iter().any(|x| !set.contains(x) || sorted[0].binary_search(x).is_err()) {
        return Some(format!("{} of {} values in a tree", set.len(), distinct.len()));
    }
    if items.iter().min().is_some_and(|x| x > &sorted[0][0]) || items.iter().max() < items.iter().min() {
        return Some("the first is not the first".to_string());
    }
    None
}

fn scenario() {
    let mut hosts = vec![Host::in_zone("host 1", host::random_zone())];
    if tape::chance(1, 4) {
        hosts.push(Host::in_zone("host 2", host::random_zone()));
    }
    let zones: Vec<Zone> = hosts.iter().map(|x| x.zone.clone()).collect();
    let base = zones[tape::pick(zones.len())].interesting();
    let mut pool: Vec<(Key, ikal::Date)> = Vec::new();
    let mut periods: Vec<ikal::Period> = Vec::new();

    for _ in 0..2 + tape::pick(6) {
        let i = tape::pick(hosts.len());
        if tape::chance(1, 3) {
            c06::disturb(&mut hosts[i]);
        }
        let mut known = zones.clone();
        known.push(hosts[i].zone.clone());
        let host = &mut hosts[i];

        // What arrives.
        let mut keys: Vec<Key> = (0..1 + tape::pick(12)).map(|_| key(&known, base)).collect();
        let built = tape::chance(1, 3);
        if built && tape::chance(1, 3) {
            keys = keys.into_iter().map(subsecond).collect();
        }
        let dates = if built { Ok(host.run("build", || keys.iter().map(|x| build(*x)).collect())) } else { host.run("read", || read(&keys)) };
        let dates: Vec<ikal::Date> = dates.unwrap_or_else(|e| ctx::violation("refused", &format!("{keys:?}: {e}")));
        if dates.len() != keys.len() {
            ctx::violation("lost", &format!("{} dates of {keys:?}", dates.len()));
        }
        event!("{}: {} {keys:?}", host.name, if built { "builds" } else { "reads" });
        for (key, date) in keys.iter().zip(dates) {
            if let Some((other, start)) = pool.last() {
                if matches!((key, other), (Key::Floating(_), Key::Floating(_)) | (Key::Utc(..), Key::Utc(..))) {
                    let (start, end): (ikal::DateTime, ikal::DateTime) = ((*start).into(), date.into());
                    periods.push(if tape::chance(1, 2) {
                        ikal::Period::StartEnd(ikal::period::StartEnd { start, end })
                    } else {
                        let far = [0, 0, 0, 1_000_000_000_000, 9_000_000_000_000, -9_000_000_000_000][tape::pick(6)];
                        let duration = chrono::TimeDelta::seconds(tape::range(-3, 3) * 3_600 + far);
                        ikal::Period::StartDur(ikal::period::StartDur { start, duration })
                    });
                }
            }
            pool.push((*key, date));
        }
        let n = pool.len().saturating_sub(40);
        pool.drain(..n);
        let n = periods.len().saturating_sub(24);
        periods.drain(..n);

        if tape::chance(1, 3) {
            c06::disturb(host);
        }
        if tape::chance(1, 3) {
            continue;
        }
        let faults = host.state.faults;
        if faults.open + faults.read + faults.stat + faults.clock > 0 {
            // The zone in force may not be the same from one comparison to the next.
            ctx::count("probe: compared while the zone database fails");
            host.run("compare", || pool.iter().flat_map(|a| pool.iter().map(move |b| a.1.cmp(&b.1))).filter(|x| x.is_eq()).count());
            continue;
        }

        let kinds = [pool.iter().any(|x| x.0.naive().is_none()), pool.iter().any(|x| matches!(x.0, Key::Plain(_))), pool.iter().any(|x| matches!(x.0, Key::Floating(_)))];
        let mixed = kinds.iter().filter(|x| **x).count() > 1;
        ctx::case(mixed.then(|| ctx::fingerprint(&format!("{}{}{:?}", host.zone.name, host.degraded, pool.iter().map(|x| x.0).collect::<Vec<_>>()))));

        let order = shuffle(pool.len());
        let dates: Vec<ikal::Date> = pool.iter().map(|x| x.1).collect();
        if let Some(message) = host.run("sort", || laws(&dates, &order)) {
            ctx::violation("not an order", &format!("{} in {}: {message}", host.name, host.zone.name));
        }
        let times: Vec<ikal::DateTime> = dates.iter().map(|x| (*x).into()).collect();
        if let Some(message) = host.run("sort", || laws(&times, &order)) {
            ctx::violation("not an order", &format!("{} in {}: {message}", host.name, host.zone.name));
        }
        let order = shuffle(periods.len());
        if let Some(message) = host.run("sort", || laws(&periods, &order)) {
            ctx::violation("not an order of periods", &format!("{} in {}: {message}", host.name, host.zone.name));
        }

        let (ends, lengths): (Vec<_>, Vec<_>) = periods.iter().map(|x| match x {
            ikal::Period::StartEnd(x) => (Some(x.clone()), None),
            ikal::Period::StartDur(x) => (None, Some(x.clone())),
        }).unzip();
        let (ends, lengths): (Vec<_>, Vec<_>) = (ends.into_iter().flatten().collect(), lengths.into_iter().flatten().collect());
        let (first, second) = (shuffle(ends.len()), shuffle(lengths.len()));
        if let Some(message) = host.run("sort", || laws(&ends, &first).or_else(|| laws(&lengths, &second))) {
            ctx::violation("not an order of periods", &format!("{} in {}: {message}", host.name, host.zone.name));
        }
        let wrong = host.run("compare", || {
            let length = |x: &ikal::Period| match x {
                ikal::Period::StartEnd(x) => match (x.start, x.end) {
                    (ikal::DateTime::Local(a), ikal::DateTime::Local(b)) => b.naive_utc() - a.naive_utc(),
                    (a, b) => b.naive() - a.naive(),
                },
                ikal::Period::StartDur(x) => x.duration,
            };
            periods.iter().flat_map(|a| periods.iter().map(move |b| (a, b))).find(|(a, b)| a.cmp(b) != length(a).cmp(&length(b)))
        });
        if let Some((a, b)) = wrong {
            ctx::violation("not by their length", &format!("{a:?} and {b:?} compare as {:?}", a.cmp(b)));
        }

        if !host.degraded {
            ctx::count("probe: compared with the evaluator of zones");
            let zone = host.zone.clone();
            let got = host.run("compare", || {
                pool.iter().map(|a| pool.iter().map(|b| (a.1.cmp(&b.1), ikal::DateTime::from(a.1).cmp(&b.1.into()))).collect::<Vec<_>>()).collect::<Vec<_>>()
            });
            for (a, row) in pool.iter().zip(got) {
                for (b, (date, time)) in pool.iter().zip(row) {
                    let wanted = expected(&zone, a.0, b.0);
                    if date != wanted || time != wanted {
                        ctx::violation("another order", &format!("{:?} and {:?} in {} compare as {date:?} and {time:?}, not {wanted:?}", a.0, b.0, zone.name));
                    }
                }
            }
        }
    }
}

fn shuffle(n: usize) -> Vec<usize> {
    let mut order: Vec<usize> = (0..n).collect();
    for i in (1..n).rev() {
        order.swap(i, tape::pick(i + 1));
    }
    order
}
