//! C06: a UTC timestamp in a document denotes the same instant on every host.

use crate::doc::{self, Scan, Style};
use crate::host::{self, Host};
use crate::model::{self, Any, Node};
use crate::runner::Plan;
use crate::seam::Faults;
use crate::stamps::{self, Stamps};
use crate::{ctx, event, tape};

pub const PLAN: Plan = Plan {
    property: "C06",
    scenario,
    quick: 24_000,
    thorough: 900_000,
    level: "exploration",
    rule: "Documents of every kind, full of UTC timestamps (many of them around the transitions of the host's zone), are \
           read again and again on one to three simulated hosts between which everything differs - zone, form of its \
           configuration, health of the zone database, clock - and on which everything changes between two reads: \
           zone, clock jumps both ways, faults of the database, restarts. Every instant must be the one computed from \
           the text; order, equality and differences of all the timestamps collected on a host, whatever the zone was \
           when each was read, and the lengths and order of the periods they bound, those of the instants. A case is \
           one read or one comparison of all the timestamps of a host; distinct by text, zone and operation, \
           non-trivial when the host is not in UTC or degraded.",
    real: "ikal (readers, date-times, periods), chrono (including its reader of zone data), std",
    stub: "host zone, its configuration and database files, clock, process lifetime",
    assumptions: &[],
};

/// A document, with the stamps of which some are near what happens in a zone.
pub fn document(kind: &str, style: &Style, hosts: &[Host]) -> (String, Node) {
    let mut lines = doc::generate(kind, style).flat();
    for line in &mut lines {
        let mut parts: Vec<String> = Vec::new();
        for part in line.split_inclusive([',', '/', ':', ';', '=']) {
            let body = part.trim_end_matches([',', '/', ':', ';', '=']);
            let stamp = body.len() == 16
                && body.as_bytes()[8] == b'T'
                && body.ends_with('Z')
                && body.bytes().filter(u8::is_ascii_digit).count() == 14;
            if stamp && tape::chance(1, 2) {
                let zone = &hosts[tape::pick(hosts.len())].zone;
                let t = zone.interesting() + [0, -1, 1, 3_600, -3_600, 1_800, -1_800, 7_200, -7_200, 86_400][tape::pick(10)];
                parts.push(format!("{}{}", text(t), &part[16..]));
            } else {
                parts.push(part.to_string());
            }
        }
        *line = parts.concat();
    }
    let text = doc::render(&lines, tape::choose(2) * 4);
    match doc::scan(kind, &text) {
        Scan::Document(node) => (text, node),
        other => ctx::harness(&format!("not a document: {other:?}\n{text}")),
    }
}

pub fn text(t: i64) -> String {
    let t = t.clamp(-62_135_596_800, 253_402_300_799);
    chrono::DateTime::from_timestamp(t, 0).unwrap().format("%Y%m%dT%H%M%SZ").to_string()
}

/// Something a host, or its administrator, does between two operations.
pub fn disturb(host: &mut Host) {
    match tape::choose(7) {
        0 => (),
        1 | 2 => {
            ctx::count("fault: zone of the host changed");
            let form = tape::pick(6);
            host.set_zone(host::random_zone(), form);
        }
        3 => {
            ctx::count("fault: clock jumps");
            let by = [3_600, -3_600, 1, -86_400 * 400, 86_400 * 400, 90, -1][tape::pick(7)];
            event!("{}: clock jumps {by} s", host.name);
            host.sleep(by);
        }
        4 => {
            event!("{}: zone database fails", host.name);
            host.set_faults(Faults { open: tape::choose(256), read: tape::choose(256), short: tape::choose(256), stat: tape::choose(256), clock: tape::choose(64) });
        }
        5 => {
            event!("{}: zone database heals", host.name);
            host.set_faults(Faults::default());
        }
        _ => {
            ctx::count("fault: restart");
            host.restart();
        }
    }
}

fn instant(date: &ikal::Date) -> Option<i64> {
    match date {
        ikal::Date::DateTime(ikal::DateTime::Local(x)) => Some(x.timestamp()),
        _ => None,
    }
}

/// Order, equality and differences; the first mistake.
fn compare(stamps: &Stamps) -> Option<String> {
    let dates: Vec<(i64, ikal::DateTime, ikal::Date)> =
        stamps.dates.iter().filter_map(|x| instant(x).map(|t| (t, (*x).into(), *x))).take(40).collect();

    for (t, a, x) in &dates {
        for (u, b, y) in &dates {
            if a.cmp(b) != t.cmp(u) || x.cmp(y) != t.cmp(u) || a.partial_cmp(b) != Some(t.cmp(u)) || (x < y) != (t < u) {
                return Some(format!("{a:?} and {b:?} compare as {:?} and {:?}", a.cmp(b), x.cmp(y)));
            }
            if (a == b) != (t == u) || (x == y) != (t == u) {
                return Some(format!("{a:?} == {b:?} is {}", a == b));
            }
            if (*a - *b) != chrono::TimeDelta::seconds(t - u) {
                return Some(format!("{a:?} - {b:?} is {}", *a - *b));
            }
        }
    }

    let mut sorted: Vec<ikal::Date> = dates.iter().map(|x| x.2).collect();
    sorted.sort();
    let sorted: Vec<i64> = sorted.iter().filter_map(instant).collect();
    let mut expected: Vec<i64> = dates.iter().map(|x| x.0).collect();
    expected.sort_unstable();
    if sorted != expected {
        return Some(format!("sorted as {sorted:?}"));
    }

    let periods: Vec<(i64, &ikal::Period)> = stamps
        .periods
        .iter()
        .filter_map(|x| match x {
            ikal::Period::StartEnd(p) => {
                let (start, end) = (instant(&p.start.into())?, instant(&p.end.into())?);
                Some((end - start, x))
            }
            ikal::Period::StartDur(_) => None,
        })
        .take(12)
        .collect();
    for (length, a) in &periods {
        if a.duration() != chrono::TimeDelta::seconds(*length) {
            return Some(format!("{a:?} lasts {}", a.duration()));
        }
        for (other, b) in &periods {
            if a.cmp(b) != length.cmp(other) {
                return Some(format!("{a:?} and {b:?} compare as {:?}", a.cmp(b)));
            }
            if let (ikal::Period::StartEnd(x), ikal::Period::StartEnd(y)) = (a, b) {
                if x.cmp(y) != length.cmp(other) {
                    return Some(format!("{x:?} and {y:?} compare as {:?}", x.cmp(y)));
                }
            }
        }
    }
    None
}

fn scenario() {
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    style.utc = true;
    style.floating = tape::chance(1, 4);
    style.density = style.density.max(4);
    style.exotic = 0;
    style.params = 0;

    let mut hosts = Vec::new();
    for i in 0..1 + tape::pick(3) {
        hosts.push(Host::in_zone(["host 1", "host 2", "host 3"][i], host::random_zone()));
    }
    let mut documents = Vec::new();
    for _ in 0..1 + tape::pick(3) {
        let kind = model::KINDS[tape::pick(10)];
        let (text, node) = document(kind, &style, &hosts);
        event!("document:\n{text}");
        documents.push((kind, text, node));
    }
    let mut collected: Vec<Stamps> = hosts.iter().map(|_| Stamps::default()).collect();
    let mut everywhere = Stamps::default();

    for _ in 0..4 + tape::pick(12) {
        let i = tape::pick(hosts.len());
        if tape::chance(1, 2) {
            disturb(&mut hosts[i]);
        }
        let host = &mut hosts[i];
        let (kind, text, expected) = tape::of(&documents);

        let any = host.run("read", || Any::read(kind, text));
        let any = any.unwrap_or_else(|e| ctx::violation("refused", &format!("{}: {e}\n{text:?}", host.name)));
        let node = host.run("view", || any.node());
        let interesting = !host.zone.is_utc() || host.degraded;
        ctx::case(interesting.then(|| ctx::fingerprint(&format!("{}{text}", host.zone.name))));
        if let Some((class, message)) = model::diff(expected, &node) {
            ctx::violation(&format!("another instant: {class}"), &format!("{} in {}: {message}", host.name, host.zone.name));
        }

        let stamps = stamps::of(&any);
        // Lengths around leap seconds are a matter of taste.
        for to in [&mut collected[i], &mut everywhere].into_iter().filter(|_| !style.leap) {
            to.dates.extend(&stamps.dates);
            to.periods.extend(stamps.periods.iter().cloned());
            // The most recent ones, as they may have been read in several zones.
            let n = to.dates.len().saturating_sub(40);
            to.dates.drain(..n);
            let n = to.periods.len().saturating_sub(12);
            to.periods.drain(..n);
        }

        if tape::chance(1, 2) {
            disturb(host);
        }
        if tape::chance(1, 3) {
            let stamps = if tape::chance(1, 3) { &everywhere } else { &collected[i] };
            if let Some(message) = host.run("compare", || compare(stamps)) {
                ctx::violation("order or difference", &format!("{} in {}: {message}", host.name, host.zone.name));
            }
            let all: Vec<i64> = stamps.dates.iter().filter_map(instant).collect();
            ctx::case((interesting && all.len() > 1).then(|| ctx::fingerprint(&format!("{}{all:?}", host.zone.name))));
        }
    }
}
