//! C12: a floating time becomes the earliest local instant, or an error in a gap.

use crate::host::{self, Host};
use crate::runner::Plan;
use crate::{c06, ctx, doc, event, tape};
use chrono::{NaiveDateTime, TimeDelta, TimeZone as _};

pub const PLAN: Plan = Plan {
    property: "C12",
    scenario,
    quick: 60_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "Floating date-times around the transitions of zones, at the ends of the calendar and anywhere else are \
           converted to local ones, and back, on one or two simulated hosts whose zone changes, whose clock jumps, whose \
           process restarts and whose zone database fails between two conversions. As long as the database of a host \
           is healthy, the result must be the first instant at which an independent evaluator of zone data shows that \
           time, or an error when there is none. Once the database has failed, it must agree with the local times the \
           host itself shows. A case is one conversion; distinct by time, zone and health, non-trivial when the time \
           is within a day of a transition.",
    real: "ikal (date-times), chrono (including its reader of zone data), std",
    stub: "host zone, its configuration and database files, clock, process lifetime",
    assumptions: &[
        "at the ends of the calendar (years before 68 or after 11476), only that converting back gives the same time",
        "offsets change at most once in three days (chrono finds no local time between closer transitions)",
        "at least a second passes between a change of zone and a conversion (chrono looks at the zone once a second)",
    ],
};

fn time(hosts: &[Host], i: usize) -> NaiveDateTime {
    let zone = &hosts[tape::weighted(&[8, 1]).min(hosts.len() - 1)].zone;
    let zone = if tape::chance(1, 8) { zone } else { &hosts[i].zone };

    let mut naive = match tape::choose(12) {
        0 => doc::naive(),
        1 => [NaiveDateTime::MIN, NaiveDateTime::MAX][tape::pick(2)],
        2 => {
            let edge = TimeDelta::seconds(tape::range(0, 200_000));
            if tape::chance(1, 2) { NaiveDateTime::MIN + edge } else { NaiveDateTime::MAX - edge }
        }
        _ => {
            let t = zone.interesting();
            let offset = if tape::chance(1, 2) { zone.offset(t) } else { zone.offset(t - 1) };
            let delta = match tape::choose(4) {
                0 => 0,
                1 => [-1, 1, 59, -59, 60, -60, 3_599, 3_600, -3_600, 1_800, -1_800, 86_400, -86_400, 43_200][tape::pick(14)],
                2 => tape::range(0, 7_200) - 3_600,
                _ => tape::range(0, 200_000) - 100_000,
            };
            chrono::DateTime::from_timestamp(t + i64::from(offset) + delta, 0).unwrap().naive_utc()
        }
    };
    if tape::chance(1, 8) {
        let nanos = [1, 500_000_000, 999_999_999, 1_000_000_000, 1_999_999_999][tape::pick(5)];
        naive = chrono::Timelike::with_nanosecond(&naive, nanos).unwrap_or(naive);
    }
    naive
}

/// The local times the host itself shows: is there an earlier instant for this one, or any?
fn shown_earlier(naive: NaiveDateTime, found: Option<i64>) -> Option<String> {
    let t = naive.and_utc().timestamp();
    let shown = |t: i64| {
        chrono::DateTime::from_timestamp(t, 0).map(|x| i64::from(chrono::Offset::fix(&chrono::Local.offset_from_utc_datetime(&x.naive_utc())).local_minus_utc()))
    };
    let offsets: Vec<i64> = [-48, -36, -24, -12, -6, -3, -1, 0, 1, 3, 6, 12, 24, 36, 48].iter().filter_map(|h| shown(t + h * 3_600)).collect();
    for offset in offsets {
        let u = t - offset;
        if shown(u) == Some(offset) && found.is_none_or(|x| u < x) {
            return Some(format!("the host shows {naive} at {u}, and the conversion gives {found:?}"));
        }
    }
    None
}

fn scenario() {
    let mut hosts = vec![Host::in_zone("host 1", host::random_zone())];
    if tape::chance(1, 3) {
        hosts.push(Host::in_zone("host 2", host::random_zone()));
    }

    for _ in 0..4 + tape::pick(16) {
        let i = tape::pick(hosts.len());
        if tape::chance(1, 3) {
            c06::disturb(&mut hosts[i]);
        }
        let naive = time(&hosts, i);
        let whole_day = naive.time() == chrono::NaiveTime::MIN && tape::chance(1, 2);
        let host = &mut hosts[i];
        let zone = host.zone.clone();
        event!("{}: {naive} in {}{}", host.name, zone.name, if host.degraded { " (degraded)" } else { "" });

        let value: ikal::DateTime = if whole_day { ikal::Date::Date(naive.date()).into() } else { naive.into() };
        let result = host.run("convert", || chrono::DateTime::<chrono::Local>::try_from(value).map_err(|e| e.to_string()));
        let u = naive.and_utc().timestamp();
        let near = !zone.changes(u - 2 * 86_400, u + 2 * 86_400).is_empty();
        ctx::case(near.then(|| ctx::fingerprint(&format!("{naive}{}{}", zone.name, host.degraded))));

        if let Ok(x) = &result {
            let x = *x;
            let (back, same, again) = host.run("back", || {
                let local = ikal::DateTime::from(x);
                let back = [local.naive(), NaiveDateTime::from(local), x.naive_local()];
                (back, local.date_naive(), chrono::DateTime::<chrono::Local>::try_from(local))
            });
            if back.iter().any(|x| *x != naive) || same != naive.date() {
                ctx::violation("another wall-clock time", &format!("{naive} in {} comes back as {back:?}", zone.name));
            }
            match again {
                Ok(y) if y == x && y.offset() == x.offset() => (),
                other => ctx::violation("a UTC-based time changed", &format!("{x:?} became {other:?}")),
            }
        }

        let found = result.as_ref().ok().map(|x| x.timestamp());
        let extreme = !(-60_000_000_000..300_000_000_000).contains(&u);
        if extreme {
            ctx::count("probe: at the ends of the calendar");
        } else if !host.degraded {
            ctx::count(match zone.from_local(naive).len() {
                0 => "probe: gap",
                1 => "probe: shown once",
                _ => "probe: shown twice",
            });
            let expected = zone.from_local(naive).first().copied();
            if found != expected {
                ctx::violation(
                    if expected.is_none() { "an instant in a gap" } else { "not the earliest instant" },
                    &format!("{naive} in {} is {result:?} ({found:?}), not {expected:?}", zone.name),
                );
            }
        } else if host.state.faults.open + host.state.faults.read + host.state.faults.stat + host.state.faults.clock == 0 {
            ctx::count("probe: degraded conversion checked");
            if let Some(message) = host.run("look", || shown_earlier(naive, found)) {
                ctx::violation("not what the host shows", &message);
            }
        }
    }
}
