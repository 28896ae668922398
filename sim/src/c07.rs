//! C07: writing a UTC timestamp, or parsing its text, keeps its instant.
//!
//! Two known findings limit this property; each has one exact signature, and any other result is
//! a violation.

use crate::doc::{self, Scan, Style};
use crate::host::{self, Host};
use crate::model::{self, Any, Node};
use crate::runner::Plan;
use crate::stamps;
use crate::tz::Zone;
use crate::{c03, c06, ctx, event, gen_ as typed, tape};
use chrono::TimeZone as _;
use std::collections::BTreeMap;

pub const PLAN: Plan = Plan {
    property: "C07",
    scenario,
    quick: 40_000,
    thorough: 1_200_000,
    level: "exploration",
    rule: "UTC timestamps, many of them around the transitions of the zones of the hosts, are read from documents, or \
           built, on a simulated host in any zone, written there after zone changes, restarts, clock jumps and \
           database failures, stored, and read on another host in another zone, several times over; single values - \
           date-times, dates, triggers, periods, rules - are parsed from their text and printed on hosts in any zone. \
           Every instant must be the one the text denotes, or exactly what one of the two known findings makes of it \
           there, computed with an independent evaluator of zone data. A case is one document hop or one value; \
           distinct by text and zone, non-trivial when the host is not in UTC.",
    real: "ikal (readers, writers, values), chrono (including its reader of zone data), std",
    stub: "host zone, its configuration and database files, clock, process lifetime, store",
    assumptions: &["instants whose wall-clock time is in the years 2 to 9998"],
};

/// The same node, with other instants.
pub fn map(node: &Node, f: &dyn Fn(i64) -> i64) -> Node {
    let mut node = node.clone();
    for p in &mut node.props {
        if !p.value.contains("instant ") {
            continue;
        }
        let mut parts = p.value.split("instant ");
        let mut value = parts.next().unwrap().to_string();
        for part in parts {
            let end = part.char_indices().find(|(i, c)| !(c.is_ascii_digit() || (*i == 0 && *c == '-'))).map_or(part.len(), |x| x.0);
            let t: i64 = part[..end].parse().unwrap_or_else(|_| ctx::harness(&format!("no instant in {:?}", p.value)));
            value.push_str(&format!("instant {}{}", f(t), &part[end..]));
        }
        p.value = value;
    }
    node.children = node.children.iter().map(|x| map(x, f)).collect();
    node
}

fn naive(t: i64) -> chrono::NaiveDateTime {
    chrono::DateTime::from_timestamp(t, 0).unwrap().naive_utc()
}

/// A document goes from host to host.
fn documents() {
    let kind = model::KINDS[tape::pick(10)];
    let mut style = Style::random();
    style.utc = true;
    style.near = true;
    style.floating = tape::chance(1, 4);
    style.density = style.density.max(4);
    style.exotic = 0;
    style.params = 0;

    let mut hosts = Vec::new();
    for i in 0..2 + tape::pick(2) {
        hosts.push(Host::in_zone(["host 1", "host 2", "host 3"][i], host::random_zone()));
    }

    let mut given = None;
    let (mut text, mut expected) = if tape::chance(1, 3) {
        let any = hosts[0].run("build", || typed::any(kind, &style));
        let node = hosts[0].run("view", || any.node());
        given = Some(any);
        (String::new(), node)
    } else {
        c06::document(kind, &style, &hosts)
    };
    event!("document:\n{text}");

    for hop in 0..1 + tape::pick(3) {
        let n = hosts.len();
        let host = &mut hosts[if hop == 0 { 0 } else { tape::pick(n) }];
        if hop > 0 && tape::chance(1, 2) {
            c06::disturb(host);
        }
        let any = match given.take() {
            Some(any) => any,
            None => {
                let any = host.run("read", || Any::read(kind, &text));
                any.unwrap_or_else(|e| ctx::violation("refused", &format!("{}: {e}\n{text:?}", host.name)))
            }
        };
        // The offset the values were given.
        let (zone, healthy) = (host.zone.clone(), !host.degraded);
        let offsets: BTreeMap<i64, i64> = stamps::of(&any)
            .dates
            .iter()
            .filter_map(|x| match x {
                ikal::Date::DateTime(ikal::DateTime::Local(x)) => Some((x.timestamp(), x.offset().local_minus_utc().into())),
                _ => None,
            })
            .collect();
        // A database that fails while a document is read: the same instant may have two offsets.
        let all = stamps::of(&any).dates;
        let mixed = !healthy
            && all.iter().any(|x| match x {
                ikal::Date::DateTime(ikal::DateTime::Local(x)) => offsets[&x.timestamp()] != i64::from(x.offset().local_minus_utc()),
                _ => false,
            });
        let wall = |t: i64| t + if healthy { i64::from(zone.offset(t)) } else { offsets.get(&t).copied().unwrap_or(0) };

        if tape::chance(1, 2) {
            c06::disturb(host);
        }
        let written = host.run("write", || any.write());
        let written = written.unwrap_or_else(|e| ctx::violation("write failed", &format!("{}: {e}", host.name)));
        let actual = match doc::scan(kind, &written) {
            Scan::Document(node) => node,
            other => ctx::violation("unreadable", &format!("{other:?}\n{written:?}")),
        };
        ctx::case((!zone.is_utc()).then(|| ctx::fingerprint(&format!("{}{written}", zone.name))));

        if mixed {
            ctx::count("probe: two zones in a document");
            if let Some((class, message)) = model::diff(&c03::without_instants(&expected), &c03::without_instants(&actual)) {
                ctx::violation(&format!("written as something else: {class}"), &message);
            }
        } else if let Some((class, message)) = model::diff(&expected, &actual) {
            if model::diff(&map(&expected, &wall), &actual).is_none() {
                ctx::finding("KF-1", &format!("{message} (in {})", zone.name));
            } else {
                event!("wrote:\n{written}");
                ctx::violation(&format!("written as another instant: {class}"), &format!("{} in {}: {message}", host.name, zone.name));
            }
        }
        // What was stored is what the next host has to keep.
        if actual.text().contains("floating -") || actual.text().contains("floating 0000") {
            return;
        }
        expected = actual;
        text = written;
    }
}

fn check(zone: &Zone, what: &str, t: i64, wall: chrono::NaiveDateTime, result: &Result<i64, String>) {
    let local = zone.from_local(wall);
    match result {
        Ok(x) if *x == t => (),
        Ok(x) if Some(x) == local.first() => ctx::finding("KF-2", &format!("{what} in {} is {x}, not {t}", zone.name)),
        Err(_) if local.is_empty() => ctx::finding("KF-2", &format!("{what} is refused in {}", zone.name)),
        other => ctx::violation("parsed as another instant", &format!("{what} in {} is {other:?}, not {t} (local {local:?})", zone.name)),
    }
}

fn of_date_time(x: ikal::DateTime) -> i64 {
    match x {
        ikal::DateTime::Local(x) => x.timestamp(),
        ikal::DateTime::Naive(_) => ctx::violation("not in UTC", &format!("{x:?}")),
    }
}

fn of_date(x: ikal::Date) -> i64 {
    match x {
        ikal::Date::DateTime(x) => of_date_time(x),
        ikal::Date::Date(_) => ctx::violation("not a date-time", &format!("{x:?}")),
    }
}

/// Single values on one or two hosts.
fn values() {
    let mut hosts = vec![Host::in_zone("host 1", host::random_zone()), Host::in_zone("host 2", host::random_zone())];

    for _ in 0..4 + tape::pick(8) {
        let i = tape::pick(2);
        if tape::chance(1, 3) {
            c06::disturb(&mut hosts[i]);
        }
        let mut t = match tape::choose(4) {
            0 => hosts[1 - i].zone.interesting(),
            1 => tape::range(-60_000_000_000, 250_000_000_000),
            _ => hosts[i].zone.interesting(),
        };
        t += [0, -1, 1, 3_600, -3_600, 1_800, -1_800, 7_200, -7_200, 86_400][tape::pick(10)];
        // What is read as the wall-clock time: around the transition of the wall clock as well.
        if tape::chance(1, 2) {
            t += i64::from(hosts[i].zone.offset(t - 1));
        }
        let text = c06::text(t);
        let wall = naive(t);
        let host = &mut hosts[i];
        let zone = host.zone.clone();
        event!("{}: {text} ({t}) in {}", host.name, zone.name);
        ctx::case((!zone.is_utc()).then(|| ctx::fingerprint(&format!("{text}{}", zone.name))));

        // Periods and rules.
        let later = c06::text(t + 3_600);
        let period: Result<ikal::Period, _> = host.run("parse", || format!("{text}/{later}").parse());
        match period {
            Ok(ikal::Period::StartEnd(p)) if of_date_time(p.start) == t && of_date_time(p.end) == t + 3_600 => (),
            other => ctx::violation("period", &format!("{text}/{later} is {other:?} in {}", zone.name)),
        }
        let period: Result<ikal::Period, _> = host.run("parse", || format!("{text}/PT90M").parse());
        match period {
            Ok(ikal::Period::StartDur(p)) if of_date_time(p.start) == t => (),
            other => ctx::violation("period", &format!("{text}/PT90M is {other:?} in {}", zone.name)),
        }
        let rule: Result<ikal::Recur, _> = host.run("parse", || format!("FREQ=DAILY;UNTIL={text}").parse());
        match rule.map(|x| x.until) {
            Ok(Some(until)) if of_date(until) == t => (),
            other => ctx::violation("rule", &format!("UNTIL={text} is {other:?} in {}", zone.name)),
        }

        // Values that are parsed as local ones.
        let parsed: Vec<(&str, Result<i64, String>)> = host.run("parse", || {
            vec![
                ("date-time", text.parse::<ikal::DateTime>().map(of_date_time).map_err(|e| e.to_string())),
                ("date", text.parse::<ikal::Date>().map(of_date).map_err(|e| e.to_string())),
                (
                    "trigger",
                    text.parse::<ikal::Trigger>().map_err(|e| e.to_string()).and_then(|x| match x {
                        ikal::Trigger::DateTime(x) => Ok(of_date_time(x)),
                        ikal::Trigger::Duration(_) => Err("a duration".to_string()),
                    }),
                ),
            ]
        });
        if !host.degraded {
            for (what, result) in &parsed {
                check(&zone, &format!("{what} {text}"), t, wall, result);
            }
        }

        // Printed, and parsed again, there or elsewhere.
        let value = host.run("build", || ikal::DateTime::Local(chrono::Local.timestamp_opt(t, 0).unwrap()));
        let ikal::DateTime::Local(local) = value else { unreachable!() };
        let offset = if host.degraded { i64::from(local.offset().local_minus_utc()) } else { i64::from(zone.offset(t)) };
        if tape::chance(1, 3) {
            c06::disturb(host);
        }
        let printed: Vec<String> = host.run("print", || {
            let p = ikal::Period::StartEnd(ikal::period::StartEnd { start: value, end: value }).to_string();
            let (a, b) = p.split_once('/').unwrap_or_default();
            let rule = ikal::Recur { until: Some(value.into()), ..Default::default() };
            let rule = ikal::ser::ical(&rule).unwrap_or_default();
            let trigger = ikal::ser::ical(&ikal::Trigger::DateTime(value)).unwrap_or_default();
            vec![
                value.to_string(),
                ikal::ser::ical(&value).unwrap_or_default(),
                ikal::Date::from(value).to_string(),
                ikal::ser::ical(&ikal::Date::from(value)).unwrap_or_default(),
                ikal::RDate::Date(vec![value.into()]).to_string(),
                a.to_string(),
                b.to_string(),
                rule.split(';').find_map(|x| x.strip_prefix("UNTIL=")).unwrap_or_default().to_string(),
                trigger.rsplit(':').next().unwrap_or_default().to_string(),
            ]
        });
        for (j, x) in printed.iter().enumerate() {
            if *x == c06::text(t) {
                continue;
            }
            if *x == c06::text(t + offset) {
                ctx::finding("KF-1", &format!("{} is printed {x} in {}", c06::text(t), zone.name));
            } else {
                ctx::violation("printed as another instant", &format!("{} is printed {x:?} in {} ({j})", c06::text(t), zone.name));
            }
        }

        let k = tape::pick(2);
        let other = &mut hosts[k];
        let printed = &printed[0];
        let again = other.run("parse", || printed.parse::<ikal::DateTime>().map(of_date_time).map_err(|e| e.to_string()));
        if !other.degraded {
            let shown = chrono::NaiveDateTime::parse_from_str(printed, "%Y%m%dT%H%M%SZ").unwrap();
            check(&other.zone, &format!("{printed}, printed from {text} in {},", zone.name), t, shown, &again);
        }
    }
}

fn scenario() {
    if tape::chance(1, 2) {
        documents();
    } else {
        values();
    }
}
