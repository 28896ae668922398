//! C16: adding to dates, taking differences and converting.

use crate::host::{self, Host};
use crate::rrule::{Form, Point, Series};
use crate::runner::Plan;
use crate::tz::Zone;
use crate::{c06, ctx, event, gen_ as typed, tape};
use chrono::{DateTime, Datelike as _, Local, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta};
use std::fmt::Debug;

pub const PLAN: Plan = Plan {
    property: "C16",
    scenario,
    quick: 60_000,
    thorough: 2_000_000,
    level: "exploration",
    rule: "Plain dates, floating and UTC-based date-times (most of them around the transitions of zones, some at the ends of \
           the calendar) live on one or two simulated hosts whose zone changes, whose clock jumps, whose process restarts and \
           whose zone database fails. Between these events, durations and rules are added to them, differences of two of them are \
           taken, durations are subtracted, and they are converted to other types and formatted; results go back to the pool, so \
           that histories of operations cross transitions and changes. Each result is that of a model that holds only instants, \
           wall-clock times and days: UTC-based times move along the line of instants, and show what the clock of the host \
           showed when they were made (an independent evaluator of zone data as long as the database is healthy); floating ones along the \
           calendar; plain dates by whole days; rules go to the next date of a reference expansion. A case is one operation; distinct by \
           operands and zone, non-trivial when there is a transition near.",
    real: "ikal (dates, date-times, periods, rules, their arithmetic and conversions), chrono (including its reader of zone data), std",
    stub: "host zone, its configuration and database files, clock, process lifetime",
    assumptions: &[
        "in years before 68 or after 9892, offsets are those chrono gives",
        "UTC-based times stay two days away from the ends of the calendar of chrono, where chrono itself panics",
        "durations that lead out of the calendar are not added (chrono panics); rules are, and give the date they are added to",
        "BY parts are not expanded",
    ],
};

/// A date, and what is known of it.
#[derive(Clone, Copy, Debug)]
struct Known {
    point: Point,
    /// The offset the host showed when a UTC-based time was made.
    offset: i64,
    date: ikal::Date,
}

impl Known {
    fn wall(&self) -> NaiveDateTime {
        self.point.at + TimeDelta::seconds(self.offset)
    }
}

fn local(date: &ikal::Date) -> Option<DateTime<Local>> {
    match date {
        ikal::Date::DateTime(ikal::DateTime::Local(x)) => Some(*x),
        _ => None,
    }
}

struct Bench<'a> {
    host: &'a mut Host,
    what: String,
}

impl Bench<'_> {
    fn same<T: PartialEq + Debug>(&self, label: &'static str, got: T, wanted: T) {
        if got != wanted {
            ctx::violation(label, &format!("{} in {}: {got:?}, not {wanted:?}", self.what, self.host.zone.name));
        }
    }

    /// What a result is, once it is known to be right.
    fn result(&self, label: &'static str, date: ikal::Date, wanted: Point) -> Known {
        self.same(label, Point::of(&date), wanted);
        let mut offset = 0;
        if let Some(x) = local(&date) {
            offset = i64::from(x.offset().local_minus_utc());
            // The evaluator knows the rules of these years.
            if !self.host.degraded && YEARS.contains(&x.timestamp()) {
                self.same("another offset", offset, i64::from(self.host.zone.offset(x.timestamp())));
            }
        }
        Known { point: wanted, offset, date }
    }
}

/// In seconds.
const YEARS: std::ops::Range<i64> = -60_000_000_000..250_000_000_000;
const EDGE: i64 = 172_800;

fn near(zones: &[Zone], base: i64) -> NaiveDateTime {
    let t = match tape::choose(8) {
        0 => tape::of(zones).interesting(),
        1 => base + tape::range(-400, 400) * 86_400,
        2 => base,
        _ => base + [tape::range(-30, 30) * 3_600, tape::range(-24, 24) * 900, tape::range(-100_000, 100_000)][tape::pick(3)],
    };
    DateTime::from_timestamp(t, 0).unwrap().naive_utc()
}

fn point(zones: &[Zone], base: i64) -> Point {
    let mut at = match tape::choose(12) {
        0 => NaiveDateTime::MAX - TimeDelta::seconds(EDGE + tape::range(0, 40_000_000)),
        1 => NaiveDateTime::MIN + TimeDelta::seconds(EDGE + tape::range(0, 40_000_000)),
        _ => near(zones, base),
    };
    match tape::choose(5) {
        0 => at = at.with_day(29 + tape::choose(3) as u32).unwrap_or(at),
        1 => at = at.with_day(1).and_then(|x| x.with_month(2)).and_then(|x| x.with_day(29)).unwrap_or(at),
        _ => (),
    }
    if tape::chance(1, 10) {
        at = chrono::Timelike::with_nanosecond(&at, [1, 500_000_000, 999_999_999][tape::pick(3)]).unwrap_or(at);
    }
    at = at.clamp(NaiveDateTime::MIN + TimeDelta::seconds(EDGE), NaiveDateTime::MAX - TimeDelta::seconds(EDGE));
    let form = [Form::Date, Form::Floating, Form::Utc][tape::pick(3)];
    if form == Form::Date {
        at = at.date().and_time(NaiveTime::MIN);
    }
    Point { form, at }
}

fn make(point: Point) -> ikal::Date {
    match point.form {
        Form::Date => point.at.date().into(),
        Form::Floating if tape::chance(1, 2) => ikal::DateTime::Naive(point.at).into(),
        Form::Floating => point.at.into(),
        Form::Utc if tape::chance(1, 2) => point.at.and_utc().with_timezone(&Local).into(),
        Form::Utc => ikal::DateTime::from(point.at.and_utc().with_timezone(&Local)).into(),
    }
}

fn delta() -> TimeDelta {
    let seconds = match tape::choose(6) {
        0 => 0,
        1 => tape::range(-60, 60) * 60,
        2 => tape::range(-48, 48) * 1_800,
        3 => tape::range(-400, 400) * 86_400,
        4 => [1, -1, 86_399, 86_400, 86_401, -86_399, -86_400, -86_401, 604_800, 31_536_000, 31_622_400][tape::pick(11)],
        _ => tape::range(-4_000_000_000, 4_000_000_000),
    };
    TimeDelta::seconds(seconds) + TimeDelta::nanoseconds(if tape::chance(1, 12) { tape::range(-1_500_000_000, 1_500_000_000) } else { 0 })
}

/// Not too near the ends of the calendar.
fn inside(at: NaiveDateTime) -> bool {
    let edge = TimeDelta::seconds(EDGE);
    at >= NaiveDateTime::MIN + edge && at <= NaiveDateTime::MAX - edge
}

fn moved(from: Point, by: TimeDelta) -> Option<Point> {
    // A plain date moves by whole days.
    let by = if from.form == Form::Date { TimeDelta::days(by.num_days()) } else { by };
    from.shifted(by).filter(|x| inside(x.at))
}

/// The next date of a rule.
fn next(rule: &ikal::Recur, from: Point) -> NaiveDateTime {
    let mut series = Series { start: from, freq: rule.freq.clone(), interval: i64::from(rule.interval), count: None, until: None, exceptions: Vec::new() };
    if rule.interval == 0 {
        return from.at;
    }
    // The calendar repeats itself after 400 years.
    let shift = (i64::from(from.at.year()) - 2_000).div_euclid(400) * 146_097;
    series.start.at = from.at - TimeDelta::days(shift);
    let at = series.expand(2).get(1).unwrap_or_else(|| ctx::harness("a rule without a second date")).1.at;
    at.checked_add_signed(TimeDelta::days(shift)).unwrap_or(from.at)
}

fn rule() -> ikal::Recur {
    let mut rule = ikal::Recur { freq: typed::freq(), interval: [1, 1, 1, 2, 3, 4, 7, 12, 24, 100, 127, 128, 255, 0][tape::pick(14)], ..Default::default() };
    if tape::chance(1, 4) {
        // Adding is about one step: ends of the rule are not looked at.
        rule.count = Some(tape::choose(3) as u8);
        rule.until = tape::chance(1, 2).then(|| NaiveDate::from_ymd_opt(1_990, 1, 1).unwrap().into());
        rule.wkst = tape::chance(1, 2).then_some(ikal::Weekday::Sunday);
    }
    rule
}

fn formats(bench: &mut Bench, x: &Known) {
    let date = x.date;
    let fmt = ["%Y%m%dT%H%M%S", "%Y-%m-%d", "%A %d %B %Y %H:%M", "%s", "%j %G-W%V-%u", "%H:%M:%S%.f"][tape::pick(6)];
    if x.point.form == Form::Date && (fmt.contains("%H") || fmt == "%s") {
        return;
    }
    let wanted = match (fmt, x.point.form) {
        ("%s", Form::Utc) => x.point.at.and_utc().timestamp().to_string(),
        _ => x.wall().format(fmt).to_string(),
    };
    let got = bench.host.run("format", || date.format(fmt).to_string());
    bench.same("another text", got, wanted.clone());
    if x.point.form != Form::Date {
        let got = bench.host.run("format", || ikal::DateTime::from(date).format(fmt).to_string());
        bench.same("another text", got, wanted);
    }
}

fn conversions(bench: &mut Bench, x: &Known) {
    let date = x.date;
    let wall = x.wall();
    let time = bench.host.run("convert", || ikal::DateTime::from(date));
    let (days, naives, has_time, again) = bench.host.run("convert", || {
        let days = [date.date_naive(), time.date_naive(), NaiveDate::from(date), NaiveDate::from(ikal::Date::from(time)), time.naive().date()];
        let naives = [time.naive(), NaiveDateTime::from(time), ikal::DateTime::from(time.naive()).naive()];
        (days, naives, date.has_time(), ikal::Date::from(time))
    });
    bench.same("another day", days, [wall.date(); 5]);
    bench.same("another wall-clock time", naives, [wall; 3]);
    bench.same("has a time", has_time, x.point.form != Form::Date);
    if has_time {
        bench.same("another date", again, date);
        bench.same("another offset", local(&again).map(|x| *x.offset()), local(&date).map(|x| *x.offset()));
    } else {
        bench.same("another date-time", time, ikal::DateTime::Naive(wall));
        bench.same("another date-time", again, ikal::DateTime::Naive(wall).into());
    }
}

fn additions(bench: &mut Bench, x: &Known) -> Option<Known> {
    let by = delta();
    let to = moved(x.point, by)?;
    bench.what = format!("{:?} + {by}", x.date);
    let date = x.date;
    let got = bench.host.run("add", || date + by);
    let found = bench.result("added elsewhere", got, to);
    if x.point.form != Form::Date {
        let got = bench.host.run("add", || ikal::DateTime::from(date) + by);
        bench.same("added elsewhere", Point::of(&got.into()), to);
    }
    if moved(to, -by).is_some() {
        let back = bench.host.run("add", || got + -by);
        bench.result("does not come back", back, x.point);
    }
    // In two steps.
    let half = if x.point.form == Form::Date { TimeDelta::days(by.num_days() / 2) } else { by / 2 };
    let rest = if x.point.form == Form::Date { TimeDelta::days(by.num_days()) - half } else { by - half };
    if moved(x.point, half).is_some() {
        let twice = bench.host.run("add", || date + half + rest);
        bench.result("added elsewhere in two steps", twice, to);
    }
    Some(found)
}

fn differences(bench: &mut Bench, a: &Known, b: &Known) {
    bench.what = format!("{:?} - {:?}", a.date, b.date);
    let (x, y): (ikal::DateTime, ikal::DateTime) = (a.date.into(), b.date.into());
    let wanted = if a.point.form == Form::Utc && b.point.form == Form::Utc { a.point.at - b.point.at } else { a.wall() - b.wall() };
    let (got, other, period) = bench.host.run("subtract", || {
        let period = ikal::Period::StartEnd(ikal::period::StartEnd { start: y, end: x });
        (x - y, y - x, period.duration())
    });
    bench.same("another difference", [got, -other, period], [wanted; 3]);
    let same_kind = (a.point.form == Form::Utc) == (b.point.form == Form::Utc);
    if same_kind {
        let sum = bench.host.run("add", || y + got);
        bench.same("the difference does not lead there", Point::of(&sum.into()).at, a.point.at);
    }
    let duration = delta();
    let lasts = bench.host.run("last", || ikal::Period::StartDur(ikal::period::StartDur { start: y, duration }).duration());
    bench.same("another length", lasts, duration);

    bench.what = format!("{:?} - {duration}", a.date);
    if let Some(wanted) = a.wall().checked_sub_signed(duration).filter(|x| inside(*x)) {
        let got = bench.host.run("subtract", || x - duration);
        bench.same("subtracted elsewhere", got, wanted);
    }
}

fn rules(bench: &mut Bench, x: &Known) -> Option<Known> {
    let rule = rule();
    let date = x.date;
    bench.what = format!("{rule:?} + {date:?}");
    let wanted = next(&rule, x.point);
    if x.point.form == Form::Utc && !inside(wanted) {
        return None;
    }
    let below = rule.freq < ikal::Freq::Daily;
    // Parts of a day, from midnight on.
    let form = if x.point.form == Form::Date && below { Form::Floating } else { x.point.form };
    let wanted = Point { form, at: wanted };
    let got = bench.host.run("next", || rule.clone() + date);
    let found = bench.result("another next date", got, wanted);

    match date {
        ikal::Date::Date(day) => {
            let got = bench.host.run("next", || rule.clone() + day);
            bench.same("another next day", got, if below { day } else { wanted.at.date() });
        }
        ikal::Date::DateTime(time) => {
            let got = bench.host.run("next", || rule.clone() + time);
            bench.same("another next date-time", Point::of(&got.into()), wanted);
            match time {
                ikal::DateTime::Naive(naive) => {
                    let got = bench.host.run("next", || rule.clone() + naive);
                    bench.same("another next naive date-time", got, wanted.at);
                }
                ikal::DateTime::Local(local) => {
                    let got = bench.host.run("next", || rule.clone() + local);
                    bench.result("another next local date-time", got.into(), wanted);
                }
            }
        }
    }
    Some(found)
}

fn scenario() {
    let mut hosts = vec![Host::in_zone("host 1", host::random_zone())];
    if tape::chance(1, 4) {
        hosts.push(Host::in_zone("host 2", host::random_zone()));
    }
    let mut zones: Vec<Zone> = hosts.iter().map(|x| x.zone.clone()).collect();
    let base = zones[tape::pick(zones.len())].interesting();
    let mut pool: Vec<Known> = Vec::new();

    for _ in 0..3 + tape::pick(20) {
        let i = tape::pick(hosts.len());
        let host = &mut hosts[i];
        if tape::chance(1, 5) {
            c06::disturb(host);
            zones.push(host.zone.clone());
        }

        if pool.len() < 2 || tape::chance(1, 3) {
            let point = point(&zones, base);
            let date = host.run("make", || make(point));
            let bench = Bench { what: format!("{point:?}"), host };
            let known = bench.result("made another", date, point);
            event!("{}: makes {:?}", bench.host.name, known.date);
            pool.push(known);
            continue;
        }

        let x = pool[tape::pick(pool.len())];
        let y = pool[tape::pick(pool.len())];
        let zone = host.zone.clone();
        let u = x.point.at.and_utc().timestamp();
        let transition = YEARS.contains(&u) && !zone.changes(u - 86_400, u + 86_400).is_empty();
        let name = host.name;
        let mut bench = Bench { what: format!("{:?}", x.date), host };
        let found = match tape::choose(6) {
            0 | 1 => additions(&mut bench, &x),
            2 | 3 => rules(&mut bench, &x),
            4 => {
                differences(&mut bench, &x, &y);
                None
            }
            _ => {
                conversions(&mut bench, &x);
                formats(&mut bench, &x);
                None
            }
        };
        event!("{name}: {} gives {:?}", bench.what, found.map(|x| x.date));
        ctx::case(transition.then(|| ctx::fingerprint(&format!("{}{}{}", bench.what, zone.name, bench.host.degraded))));
        if let Some(known) = found {
            pool.push(known);
        }
        let n = pool.len().saturating_sub(12);
        pool.drain(..n);
    }
}
