//! C10: taking the next occurrence always finishes, and bounded rules end.

use crate::doc::{self, Style, Type};
use crate::gen_::{self as typed, Make as _};
use crate::host::{self, Host};
use crate::rrule::{Form, Point, Series};
use crate::runner::Plan;
use crate::series::{self, Recurring, Window};
use crate::{c06, ctx, event, tape};
use chrono::{Datelike as _, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta};

pub const PLAN: Plan = Plan {
    property: "C10",
    scenario,
    quick: 24_000,
    thorough: 700_000,
    level: "exploration",
    rule: "A recurring component with a hostile rule - interval zero or the largest, count zero or the largest, an end \
           before the start or of another kind, BY parts, parts of a day on a plain date - a start anywhere in the \
           calendar of the library, months of 29, 30 or 31 days, ends far away, and exceptions that may cover every \
           occurrence, is built or read on a simulated host in any zone; its occurrences are taken one by one while the \
           zone changes, the clock jumps and the zone database fails. Each must come within a bound of allocations, \
           edges of the control flow and CPU, and be later than the one before; a rule with a count or an end must end within the number of steps \
           there are; one without goes on until the end of the calendar; after the end, there is nothing. \
           Windows between occurrences are then asked for and taken one by one until they end, within the work of the \
           occurrences before their end. A case is one occurrence taken, or one window; distinct by rule and date, \
           non-trivial after the first occurrence.",
    real: "ikal (occurrences, rules, readers, values), chrono, std",
    stub: "host zone, its configuration and database files, clock, process lifetime, allocator accounting",
    assumptions: &[
        "no start with a UTC time in the first or last two days of the calendar of chrono, where chrono itself panics",
        "that a rule ends is checked for those of at most 2,000 steps",
    ],
};

/// Starts anywhere.
fn start(near: i64) -> NaiveDateTime {
    let at = match tape::choose(8) {
        0 | 1 => chrono::DateTime::from_timestamp(near, 0).unwrap().naive_utc(),
        2 => NaiveDate::from_ymd_opt(9_990 + tape::choose(12) as i32, 1 + tape::choose(12) as u32, 1).unwrap().and_time(doc::time()),
        3 => [
            NaiveDate::from_ymd_opt(9_999, 12, 31).unwrap().and_hms_opt(23, 59, 59).unwrap(),
            NaiveDateTime::MAX - TimeDelta::days(3 + tape::choose(800) as i64),
            NaiveDateTime::MIN + TimeDelta::days(3 + tape::choose(800) as i64),
            NaiveDate::from_ymd_opt(0, 1, 1).unwrap().and_time(NaiveTime::MIN),
            NaiveDate::from_ymd_opt(-4_000, 2, 29).unwrap().and_time(doc::time()),
            NaiveDate::from_ymd_opt(20_000, 2, 29).unwrap().and_time(doc::time()),
        ][tape::pick(6)],
        _ => doc::naive(),
    };
    match tape::choose(4) {
        0 => at.with_day(29 + tape::choose(3) as u32).unwrap_or(at),
        1 => at.with_day(1).and_then(|x| x.with_month(2)).and_then(|x| x.with_day(29)).unwrap_or(at),
        _ => at,
    }
}

fn any_date(near: NaiveDateTime) -> ikal::Date {
    let at = match tape::choose(3) {
        0 => doc::naive(),
        _ => near.checked_add_signed(TimeDelta::seconds(tape::range(-100_000_000, 400_000_000))).unwrap_or(near),
    };
    series::date([Form::Date, Form::Floating, Form::Utc][tape::pick(3)], at)
}

fn rule(near: NaiveDateTime) -> ikal::Recur {
    let mut style = Style::random();
    style.utc = true;
    let mut rule = match tape::choose(3) {
        0 => {
            let text = doc::value_text(Type::Rule, &style).1;
            text.parse().unwrap_or_else(|e| ctx::violation("refused", &format!("{text}: {e}")))
        }
        1 => ikal::Recur::make("rrule", &style),
        _ => ikal::Recur { freq: typed::freq(), ..Default::default() },
    };
    if tape::chance(1, 2) {
        rule.interval = [0, 1, 1, 2, 3, 127, 128, 255][tape::pick(8)];
    }
    match tape::choose(4) {
        0 => rule.count = None,
        1 => rule.count = Some([0, 1, 2, 3, 127, 128, 254, 255][tape::pick(8)]),
        _ => (),
    }
    match tape::choose(4) {
        0 | 1 => rule.until = None,
        2 => rule.until = Some(any_date(near)),
        _ => (),
    }
    rule
}

/// About how many steps there are until then, at least.
fn steps(rule: &ikal::Recur, from: NaiveDateTime, to: NaiveDateTime) -> i64 {
    let unit = match rule.freq {
        ikal::Freq::Secondly => 1,
        ikal::Freq::Minutely => 60,
        ikal::Freq::Hourly => 3_600,
        ikal::Freq::Daily => 86_400,
        ikal::Freq::Weekly => 7 * 86_400,
        ikal::Freq::Monthly => 28 * 86_400,
        ikal::Freq::Yearly => 365 * 86_400,
    };
    let seconds = (to - from).num_seconds().max(0);
    seconds / (unit * i64::from(rule.interval.max(1))) + 2
}

/// The occurrences of a window, one by one: each of them, and the end of the window, comes within
/// the work it takes to go past the occurrences up to there.
fn windows(host: &mut Host, x: &Recurring, taken: &[ikal::Date], ended: bool, budget: u64) {
    // Parts of a day on a plain date: its occurrences are of two kinds, with no promised order.
    let mixed = matches!(x.start(), ikal::Date::Date(_)) && x.rule().is_some_and(|x| x.freq < ikal::Freq::Daily);
    if taken.is_empty() || mixed {
        return;
    }
    for _ in 0..tape::pick(3) {
        let i = tape::pick(taken.len());
        let j = i + tape::pick(std::cmp::min(taken.len() - i, 20));
        let (from, to) = (taken[i], taken[j]);
        let (window, past) = match tape::choose(6) {
            0 | 1 => (Window::Between(from, to), j),
            2 => (Window::Between(to, from), j),
            // At most a day of seconds.
            3 if ended || i + 1 < taken.len() => (Window::At(from), i + 86_401),
            4 if ended => (Window::After(from), taken.len()),
            _ => (Window::Between(from, from), i),
        };
        if past > 3_000 && x.rule().is_some_and(|x| x.freq < ikal::Freq::Hourly) {
            continue;
        }
        ctx::count("probe: window");
        let budget = budget.saturating_mul(past as u64 + 2);
        // An end or an exception of another kind is elsewhere in another zone.
        let form = Point::of(&x.start()).form;
        let until = x.rule().and_then(|x| x.until.clone());
        let moves = x.exdate().iter().chain(&until).any(|x| Point::of(x).form != form);
        let wanted = match window {
            _ if moves => usize::MAX,
            Window::Between(a, b) if a == from && b == to && i < j => j - i,
            Window::After(_) => taken.len() - i,
            Window::Between(..) => 0,
            Window::At(_) => usize::MAX,
        };
        let mut iter = host.run_within("window", budget, || x.windowed(window));
        let mut n = 0;
        loop {
            if tape::chance(1, 40) {
                c06::disturb(host);
            }
            host.state.work_budget = budget / 4;
            let next = host.run_within("next of a window", budget, || iter.next());
            host.state.work_budget = u64::MAX;
            let Some(next) = next else { break };
            let start = next.start();
            n += 1;
            if n > wanted || n > 90_000 {
                ctx::violation("window", &format!("{start:?}, the {n}th of {window:?}\n{:?}", x.rule()));
            }
        }
        ctx::case(Some(ctx::fingerprint(&format!("{window:?} {:?}", x.rule().map(|x| (x.freq.clone(), x.interval))))));
        host.run_within("window", budget, || drop(iter));
    }
}

fn scenario() {
    let mut host = Host::in_zone("host", host::random_zone());
    let near = host.zone.interesting();
    let at = start(near);
    let form = [Form::Date, Form::Floating, Form::Utc][tape::pick(3)];

    let mut style = Style::random();
    style.density = tape::choose(5);
    let mut x = host.run("build", || {
        let mut x = series::blank(&style);
        x.set_start(series::date(form, at));
        x.set_rule(rule(at));
        x.set_end(match tape::choose(4) {
            0 => None,
            1 => Some(series::date(form, at.checked_add_signed(TimeDelta::hours(1)).unwrap_or(at))),
            2 => Some([ikal::Date::Date(NaiveDate::MAX), ikal::Date::Date(NaiveDate::MIN), NaiveDateTime::MAX.into(), NaiveDateTime::MIN.into()][tape::pick(4)]),
            _ => Some(any_date(at)),
        });
        x
    });
    let at = if form == Form::Date { at.date().and_time(NaiveTime::MIN) } else { at };
    let rule = x.rule().unwrap().clone();

    // Exceptions: some dates, or many of the occurrences.
    let covered = [0, 0, 1, 5, 40, 250][tape::pick(6)];
    let mut exceptions: Vec<ikal::Date> = host.run("expand", || x.iter().take(covered).map(|x| x.start()).collect());
    if tape::chance(1, 3) && !exceptions.is_empty() {
        let kept = tape::pick(exceptions.len());
        exceptions.remove(kept);
    }
    if tape::chance(1, 4) {
        exceptions.push(host.run("build", || any_date(at)));
    }
    if tape::chance(1, 4) {
        exceptions.extend_from_within(..);
    }
    x.set_exdate(exceptions.clone());
    event!("start {at:?} ({form:?}), end {:?}, {rule:?}, {} exceptions", x.end(), exceptions.len());

    // As it is read elsewhere, when it can be written.
    if tape::chance(1, 4) && (1..=9_998).contains(&at.year()) {
        let kind = x.kind();
        let text = host.run("write", || x.write());
        if let Ok(read) = host.run("read", || Recurring::read(kind, &text.unwrap_or_default())) {
            ctx::count("probe: read from its text");
            x = read;
        }
    }
    let Some(rule) = x.rule().cloned() else { return };
    let from = Point::of(&x.start());
    let exceptions: Vec<Point> = x.exdate().iter().map(Point::of).collect();

    let end_of_calendar = NaiveDate::from_ymd_opt(10_000, 1, 1).unwrap().and_time(NaiveTime::MIN);
    let mut most = steps(&rule, from.at, end_of_calendar);
    if let Some(until) = &rule.until {
        // In another zone, it may be later.
        let until = Point::of(until).at;
        most = most.min(steps(&rule, from.at, until.checked_add_signed(TimeDelta::days(3)).unwrap_or(until)));
    }
    if let Some(count) = rule.count {
        most = most.min(i64::from(count));
    }
    let ends = most <= 2_000;
    let takes = if ends { most + 1 } else { [20, 200][tape::pick(2)] };

    let size = host.run("view", || x.node().text().len() as u64);
    // One copy for each date that is passed.
    let budget = (exceptions.len() as u64 + 2) * (20_000 + 40 * size + 64 * exceptions.len() as u64);

    let mut iter = host.run("expand", || x.iter());
    let mut last: Option<(ikal::Date, Point)> = None;
    let mut ended = false;
    let mut taken: Vec<ikal::Date> = Vec::new();
    for n in 0..takes {
        if tape::chance(1, 40) {
            c06::disturb(&mut host);
        }
        host.state.work_budget = budget / 4;
        let next = host.run_within("next", budget, || iter.next());
        if std::env::var_os("IKAL_SIM_BUDGET").is_some() {
            let line = format!("BUDGET {} {budget} {}\n", host.state.work, host.state.alloc_bytes);
            let _ = std::io::Write::write_all(&mut std::io::stderr(), line.as_bytes());
        }
        host.state.work_budget = u64::MAX;
        let Some(next) = next else {
            ended = true;
            break;
        };
        let start = next.start();
        let point = Point::of(&start);
        ctx::case((n > 0).then(|| ctx::fingerprint(&format!("{point:?}{:?}{}", rule.freq, rule.interval))));
        if let Some((before, at)) = last {
            if point.at <= at.at {
                ctx::violation("not later", &format!("{start:?} after {before:?}\n{rule:?}"));
            }
        }
        last = Some((start, point));
        taken.push(start);
        // It can be used.
        if n < 3 || n == takes - 1 {
            let text = host.run("print", || (format!("{:?}", next.end()), next.start().to_string(), next.write().map(|x| x.len()).ok()));
            drop(text);
        }
    }

    if ended {
        ctx::count("probe: ended");
        for _ in 0..3 {
            if let Some(x) = host.run_within("next", budget, || iter.next()) {
                ctx::violation("after the end", &format!("{:?} after the end\n{rule:?}", x.start()));
            }
        }
    } else if ends {
        ctx::violation("no end", &format!("more than {} occurrences from {from:?}, last {last:?}\n{rule:?}", takes - 1));
    }

    windows(&mut host, &x, &taken, ended, budget);

    // Without a count and an end, until the end of the calendar.
    // As long as the end of an occurrence is in the calendar of the library.
    let room = x.end().is_none_or(|x| Point::of(&x).at.year() - from.at.year() < 200_000);
    if ended && rule.count.is_none() && rule.until.is_none() && room {
        ctx::count("probe: end of the calendar");
        let Some((_, last)) = last.map(|(x, at)| (x, Point { form: Form::Floating, at: at.at })).or_else(|| {
            // Every one is excepted.
            exceptions.first().map(|_| (x.start(), Point { form: Form::Floating, at: from.at }))
        }) else {
            ctx::violation("no occurrence", &format!("from {from:?}\n{rule:?}"))
        };
        let exceptions: Vec<Point> = exceptions.iter().map(|x| Point { form: Form::Floating, at: x.at }).collect();
        // On exceptions of another kind, nothing is promised.
        let rest = Series { start: last, freq: rule.freq.clone(), interval: i64::from(rule.interval.max(1)), count: None, until: None, exceptions };
        if let Some((_, missed)) = rest.expand(2).into_iter().find(|x| x.1.at > last.at) {
            ctx::violation("ended early", &format!("{missed:?} is missing after {last:?}\n{rule:?}"));
        }
    }
}
