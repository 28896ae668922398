//! C02: damaged input never panics, hangs or runs away, nor does using what it gave.

use crate::doc::{self, Style, Type};
use crate::host::{self, Host};
use crate::model::{self, Any};
use crate::runner::Plan;
use crate::seam::Faults;
use crate::{ctx, event, tape};
use chrono::Datelike as _;

pub const PLAN: Plan = Plan {
    property: "C02",
    scenario,
    quick: 24_000,
    thorough: 300_000,
    level: "exploration",
    rule: "Calendar data on a simulated disk is damaged - bits flipped, bytes lost, doubled or replaced, sectors of \
           zeros, torn over another document, spliced, values replaced with hostile ones, small parts repeated up to \
           300 kB - and read on a host in any zone whose zone database may fail, as a document of any kind; hostile \
           values are read as single values of every type. Whatever is accepted is printed, cloned, compared, \
           ordered, subtracted, written, read again and expanded. No step may panic, crash, overflow a stack of \
           256 KiB, exceed its CPU time, or go through more edges of the control flow or allocate more than a bound \
           linear in the input. A case is one text read; distinct by its bytes, \
           non-trivial when it is not empty.",
    real: "ikal (readers, writers, values, occurrences), chrono, std",
    stub: "disk, host zone, clock and zone database, allocator accounting",
    assumptions: &[
        "windows of occurrences are asked for within 2,000 occurrences of the start: a far window of a rule by the \
         second takes as many steps as there are seconds",
        "bounds on what is allocated: 4 MB + 1,000 times the input to read a document, 40 MB + 6,000 times + 3,000 times what was allocated to read it, to use it or to \
         try every single value and some 1,000 occurrences; bounds on the edges gone through: 100,000 + 400 times the input to read it, fifty \
         times that to use it, both about ten times what was measured or more; 20 s of CPU for a run of ten texts",
    ],
};

pub const TYPES: [Type; 19] = [
    Type::Text, Type::DateTime, Type::Date, Type::DateList, Type::Duration, Type::U8, Type::Priority, Type::U32, Type::Class,
    Type::Status, Type::Transp, Type::Geo, Type::Rule, Type::RequestStatus, Type::RDate, Type::Periods, Type::Offset,
    Type::Trigger, Type::Raw,
];

const NASTY: [&str; 48] = [
    "", "\0", " ", "-", "+", "P", "T", "PT", "-P", "Z", "/", "//", ";", "=", ",", "\\", "\"", ":", "\r", "\n", "\r\n", "\r\n ", "99999999",
    "999999999999999999999999", "18446744073709551616", "-9223372036854775808", "9223372036854775807", "00000000T000000Z",
    "99991231T235959Z", "99991231T235960Z", "00010101T000000Z", "00010101", "20240230", "20240229T240000", "20240101T236060Z", "é", "漢", "\u{10ffff}",
    "\u{0660}", "1e39;NaN", "inf;-inf", "-0.0;1e-45", "COUNT=0", "INTERVAL=0", "UNTIL=00010101", "FREQ=SECONDLY", "BEGIN:VEVENT\r\n", "END:VCALENDAR\r\n",
];

/// The damage a disk or a transport does, or an attacker.
pub fn damage(text: &str, other: &str) -> String {
    let mut bytes = text.as_bytes().to_vec();

    for _ in 0..1 + tape::choose(4) {
        if bytes.is_empty() {
            break;
        }
        let n = bytes.len();
        let at = tape::pick(n);
        let len = std::cmp::min(n - at, 1 + if tape::chance(1, 3) { tape::pick(512) } else { tape::pick(8) });
        match tape::choose(14) {
            13 => {
                ctx::count("fault: number replaced");
                let start = (at..n).find(|i| bytes[*i].is_ascii_digit()).unwrap_or(at);
                let start = bytes[..start].iter().rposition(|x| !x.is_ascii_digit()).map_or(0, |x| x + 1);
                let end = (start..n).find(|i| !bytes[*i].is_ascii_digit()).unwrap_or(n);
                let near: i128 = [0, 12, 24, 31, 53, 60, 127, 128, 255, 366, 32_767, 65_535, 1 << 31, 1 << 32, 1 << 63, 1 << 64][tape::pick(16)];
                let number = (near + i128::from(tape::range(-2, 2))) * if tape::chance(1, 3) { -1 } else { 1 };
                let number = if tape::chance(1, 4) { format!("{number:00$}", std::cmp::min(end - start, 300)) } else { number.to_string() };
                bytes.splice(start..end, number.into_bytes());
            }
            0 | 1 => {
                ctx::count("fault: bit flipped");
                bytes[at] ^= 1 << tape::choose(8);
            }
            2 => {
                ctx::count("fault: bytes lost");
                bytes.drain(at..at + len);
            }
            3 => {
                ctx::count("fault: bytes doubled");
                let part = bytes[at..at + len].to_vec();
                bytes.splice(at..at, part);
            }
            4 => {
                ctx::count("fault: torn");
                bytes.truncate(at);
            }
            5 => {
                ctx::count("fault: torn over another document");
                bytes.truncate(at);
                bytes.extend_from_slice(other.as_bytes().get(at..).unwrap_or_default());
            }
            6 => {
                ctx::count("fault: zeroed sector");
                let start = at / 512 * 512;
                let end = std::cmp::min(start + 512, n);
                bytes[start..end].fill(0);
            }
            7 => {
                ctx::count("fault: spliced");
                let from = tape::pick(other.len() + 1);
                let to = std::cmp::min(other.len(), from + 1 + tape::pick(200));
                bytes.splice(at..at, other.as_bytes()[from..to].iter().copied());
            }
            8 | 9 => {
                ctx::count("fault: hostile bytes");
                let part = tape::of(&NASTY).as_bytes();
                let end = if tape::chance(1, 2) { at } else { at + len };
                bytes.splice(at..end, part.iter().copied());
            }
            10 => {
                ctx::count("fault: random bytes");
                for b in &mut bytes[at..at + len] {
                    *b = tape::choose(256) as u8;
                }
            }
            11 => {
                ctx::count("fault: part repeated");
                let part = bytes[at..at + std::cmp::min(len, 40)].to_vec();
                let times = [2, 10, 100, 1_000, 4_000][tape::pick(5)];
                let times = std::cmp::min(times, 65_536 / part.len());
                let repeated = part.repeat(times);
                bytes.splice(at..at, repeated);
            }
            _ => {
                // A line repeated.
                ctx::count("fault: line repeated");
                let start = bytes[..at].iter().rposition(|x| *x == b'\n').map_or(0, |x| x + 1);
                let end = bytes[at..].iter().position(|x| *x == b'\n').map_or(n, |x| at + x + 1);
                let part = bytes[start..end].to_vec();
                let times = std::cmp::min([2, 10, 100, 1_000][tape::pick(4)], 65_536 / part.len().max(1));
                let repeated = part.repeat(times);
                bytes.splice(start..start, repeated);
            }
        }
        if bytes.len() > 65_536 {
            bytes.truncate(65_536);
        }
    }

    String::from_utf8_lossy(&bytes).into_owned()
}

/// A part repeated, up to hundreds of kilobytes.
fn bulk(lines: &[String]) -> String {
    ctx::count("fault: bulk");
    let mut lines = lines.to_vec();
    let i = tape::pick(lines.len());
    let size = [30_000, 100_000, 300_000][tape::weighted(&[2, 2, 1])];
    // All the same, or each with its number.
    let many = |part: &str| {
        let n = size / part.len();
        if part.contains('#') { (0..n).map(|i| part.replace('#', &i.to_string())).collect() } else { part.repeat(n) }
    };
    match tape::choose(7) {
        0 => {
            let line = format!("{}\r\n", lines[i]);
            lines[i] = many(&line).trim_end_matches("\r\n").to_string();
        }
        1 => {
            // What nests.
            let line = format!("{}\r\n", ["BEGIN:VEVENT", "BEGIN:VALARM", "BEGIN:X-A", "BEGIN:VTIMEZONE", "END:VEVENT", "BEGIN:VCALENDAR"][tape::pick(6)]);
            lines[i] = many(&line).trim_end_matches("\r\n").to_string();
        }
        2 => {
            let Some((name, value)) = lines[i].split_once(':').map(|(a, b)| (a.to_string(), b.to_string())) else { return many("\r\n ") };
            lines[i] = format!("{name}:{}", many(&format!("{value},")).trim_end_matches(','));
        }
        3 => {
            let Some((name, value)) = lines[i].split_once(':').map(|(a, b)| (a.to_string(), b.to_string())) else { return many("\r\n ") };
            let param = [";X-A=b", ";A=\"b\"", ";A=b,c", ";VALUE=DATE", ";A#=b"][tape::pick(5)];
            lines[i] = format!("{name}{}:{value}", many(param));
        }
        4 => lines[i] += &many(tape::of(&["\r\n ", "\r\n\t", "\\", "\\,", "\"", ";", ":", "=", ",", "P1D/", "(", " ", "9", "\r\n x"])),
        5 => lines.insert(i, many(tape::of(&["\r\n", "\n", "X-A:b\r\n", "x:\r\n", " \r\n", ":", "a", "X-#:b\r\n", "Y#:b\r\n"]))),
        _ => lines.insert(i, format!("RRULE:FREQ=DAILY{}", many(tape::of(&[";A=1", ";A#=1", ";BYHOUR=1", ";COUNT=#", ";"])))),
    }
    doc::render(&lines, 0)
}

fn budget(len: usize) -> u64 {
    40_000_000 + 6_000 * len as u64
}

/// What reading may do, in edges of its control flow; some ten times what it does.
fn work(len: usize) -> u64 {
    100_000 + 400 * len as u64
}

/// Occurrences, and windows of them.
fn expand<T: ikal::iter::Recurring + PartialEq + std::fmt::Debug + ikal::ser::Serialize>(
    series: impl Fn() -> ikal::iter::Recur<T>,
    dates: &[ikal::Date],
) -> u64 {
    let mut n = 0;
    let mut last = None;
    let mut first = None;
    for x in series().take(60) {
        n += 1;
        first = first.or_else(|| x.dtstart().copied());
        last = Some(x);
    }
    let Some((last, first)) = last.zip(first) else {
        return 0;
    };
    let _ = format!("{last:?}");
    let _ = ikal::ser::ical(&last);
    let last = *last.dtstart().unwrap();
    n += series().between(first, last).take(70).count() as u64;
    n += series().after(last).take(5).count() as u64;
    n += series().at(last).take(5).count() as u64;
    for date in dates {
        // Windows that start before the last of them take no longer.
        if *date < last {
            n += series().between(*date, last).take(70).count() as u64;
            n += series().at(*date).take(5).count() as u64;
            n += series().after(*date).take(5).count() as u64;
        }
    }
    n
}

fn use_date(date: &ikal::Date) {
    let _ = (date.to_string(), format!("{date:?}"), date.date_naive(), date.has_time(), date.format("%A %Y-%m-%d").to_string());
    let _ = ikal::ser::ical(date);
    let day = chrono::TimeDelta::days(1);
    let _ = *date + day;
    let time: ikal::DateTime = (*date).into();
    let _ = (time.naive(), time.to_string(), time - chrono::TimeDelta::seconds(1));
    let _ = chrono::DateTime::<chrono::Local>::try_from(time);
    let _ = chrono::NaiveDate::from(*date);
    let _ = chrono::NaiveDateTime::from(time);
}

fn use_dates(dates: &[ikal::Date]) {
    for a in dates {
        use_date(a);
        for b in dates {
            let _ = (*a == *b, (*a).cmp(b), (*a).partial_cmp(b), *a < *b);
            let (a, b): (ikal::DateTime, ikal::DateTime) = ((*a).into(), (*b).into());
            let _ = (a - b, a.cmp(&b));
        }
    }
}

fn use_periods(periods: &[ikal::Period]) {
    let mut sorted = periods.to_vec();
    sorted.sort();
    sorted.reverse();
    sorted.sort_unstable();
    for a in periods {
        let _ = (a.duration(), a.to_string(), format!("{a:?}"), ikal::ser::ical(a));
        for b in periods {
            let _ = (a == b, a.cmp(b), a.partial_cmp(b));
            match (a, b) {
                (ikal::Period::StartEnd(a), ikal::Period::StartEnd(b)) => drop((a.cmp(b), a.to_string(), ikal::ser::ical(a))),
                (ikal::Period::StartDur(a), ikal::Period::StartDur(b)) => drop((a.cmp(b), a.to_string(), ikal::ser::ical(a))),
                _ => (),
            }
        }
    }
}

/// Everything a program may do with a document it got.
fn use_document(any: &Any, kind: &str, extra: &[ikal::Date]) -> u64 {
    let _ = format!("{any:?}");
    let copy = any.clone();
    let _ = copy == *any;
    let _ = any.node();
    if let Ok(text) = any.write() {
        let again = Any::read(kind, &text);
        let _ = again.as_ref().map(|x| *x == *any);
        let _ = again.map_err(|e| format!("{e} {e:?}"));
    }

    let mut dates: Vec<ikal::Date> = extra.to_vec();
    let mut periods = Vec::new();
    let mut n = 0;

    let mut event = |x: &ikal::VEvent, dates: &mut Vec<ikal::Date>| {
        dates.push(x.dtstart);
        dates.push(x.dtstamp.into());
        dates.extend(x.dtend);
        dates.extend(x.exdate.iter().take(4));
        for rdate in x.rdate.iter().take(4) {
            match rdate {
                ikal::RDate::Date(list) => dates.extend(list.iter().take(3)),
                ikal::RDate::Period(list) => periods.extend(list.iter().take(3).cloned()),
            }
            let _ = rdate.to_string();
        }
        n += expand(|| x.recurrent(), extra);
    };

    match any {
        Any::Event(x) => event(x, &mut dates),
        Any::Calendar(x) => {
            for x in x.events.iter().take(6) {
                event(x, &mut dates);
            }
            for x in x.journals.iter().take(3) {
                n += expand(|| x.recurrent(), extra);
            }
            for x in x.todo.iter().take(3) {
                n += expand(|| x.recurrent(), extra);
            }
            for x in x.freebusy.iter().take(3) {
                periods.extend(x.freebusy.iter().take(5).cloned());
            }
        }
        Any::Journal(x) => {
            dates.push(x.dtstart);
            n += expand(|| x.recurrent(), extra);
        }
        Any::Todo(x) => {
            dates.extend(x.dtstart);
            dates.extend(x.due);
            n += expand(|| x.recurrent(), extra);
        }
        Any::Freebusy(x) => periods.extend(x.freebusy.iter().take(8).cloned()),
        _ => (),
    }
    dates.truncate(24);
    periods.truncate(10);
    use_dates(&dates);
    use_periods(&periods);
    // An order needs a zone that stays the same.
    if crate::seam::calm() {
        let mut sorted: Vec<ikal::Date> = crate::stamps::of(any).dates.into_iter().take(300).collect();
        sorted.sort();
        sorted.reverse();
        sorted.sort_unstable();
    }
    n
}

/// One text as every kind of single value. How many accepted it.
pub fn use_values(text: &str, rule_start: &ikal::Date) -> u64 {
    use std::str::FromStr;

    let mut accepted = 0;

    macro_rules! value {
        ($($ty:ty),*) => { $(
            match <$ty>::from_str(text) {
                Ok(x) => {
                    accepted += 1;
                    let _ = (format!("{x:?} {x:#?}"), x.clone() == x, ikal::ser::ical(&x));
                }
                Err(e) => drop((e.to_string(), format!("{e:?}"))),
            }
        )* };
    }
    value!(
        ikal::Date, ikal::DateTime, ikal::Recur, ikal::Freq, ikal::Weekday, ikal::WeekdayNum, ikal::Period, ikal::Trigger,
        ikal::Geo, ikal::Status, ikal::Class, ikal::TimeTransparency, ikal::RequestStatus
    );

    if let Ok(x) = ikal::parse_duration(text) {
        accepted += 1;
        let _ = (x.to_string(), ikal::ser::ical(&x), -x);
    }
    if let Ok(x) = ikal::Date::from_str(text) {
        use_dates(&[x, *rule_start]);
    }
    if let Ok(x) = ikal::Period::from_str(text) {
        use_periods(&[x]);
    }
    if let Ok(x) = ikal::Recur::from_str(text) {
        let _ = x.clone() + *rule_start;
        let event = ikal::VEvent { dtstart: *rule_start, rrule: Some(x), ..Default::default() };
        expand(|| event.recurrent(), &[]);
    }
    let text: ikal::Text = text.into();
    let _ = (text.to_string(), ikal::ser::ical(&text), text.clone() == text);
    accepted
}

pub fn hostile_value(style: &Style) -> String {
    let (_, value) = doc::value_text(TYPES[tape::pick(TYPES.len())], style);
    match tape::choose(4) {
        0 => value,
        1 => tape::of(&NASTY).to_string(),
        2 => format!("{}{value}{}", tape::of(&NASTY), tape::of(&NASTY)),
        _ => damage(&value, tape::of(&NASTY)),
    }
}

fn scenario() {
    let kind = model::KINDS[tape::pick(model::KINDS.len())];
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    style.seconds = tape::chance(1, 4);
    style.odd = tape::chance(1, 2);
    let lines = doc::generate(kind, &style).flat();
    let text = doc::render(&lines, tape::choose(3) * 4);
    let other = doc::render(&doc::generate(model::KINDS[tape::pick(model::KINDS.len())], &style).flat(), 0);

    let mut reader = Host::in_zone("reader", host::random_zone());
    if tape::chance(1, 4) {
        reader.set_faults(Faults { open: tape::choose(64), read: tape::choose(64), short: tape::choose(256), stat: tape::choose(64), clock: tape::choose(64) });
    }

    for _ in 0..10 {
        if tape::chance(1, 3) {
            let value = hostile_value(&style);
            let start = if tape::chance(1, 2) { ikal::Date::Date(doc::date()) } else { ikal::Date::from(doc::naive()) };
            ctx::case((!value.is_empty()).then(|| ctx::fingerprint(&value)));
            event!("value {:?}", value.chars().take(300).collect::<String>());
            reader.state.work_budget = 50 * work(value.len());
            let accepted = reader.run_within("value", budget(value.len()), || use_values(&value, &start));
            ctx::add("probe: values accepted", accepted);
            continue;
        }

        let store = if tape::chance(1, 400) {
            bulk(&lines)
        } else if tape::chance(1, 2) {
            // Only the value of one line, so that more is accepted.
            let mut lines = lines.clone();
            for _ in 0..1 + tape::choose(2) {
                let i = tape::pick(lines.len());
                let Some((name, value)) = lines[i].split_once(':').map(|(a, b)| (a.to_string(), b.to_string())) else { continue };
                ctx::count("fault: hostile value");
                let value = match tape::choose(4) {
                    0 => damage(&value, &other),
                    1 => {
                        let (params, value) = doc::value_text(TYPES[tape::pick(TYPES.len())], &style);
                        lines[i] = format!("{name}{params}:{value}");
                        continue;
                    }
                    _ => hostile_value(&style),
                };
                lines[i] = format!("{name}:{value}");
            }
            doc::render(&lines, 0)
        } else {
            damage(&text, &other)
        };
        let kind = if tape::chance(1, 5) { model::KINDS[tape::pick(model::KINDS.len())] } else { kind };
        ctx::case((!store.is_empty()).then(|| ctx::fingerprint(&store)));
        event!("{kind}, {} bytes: {:?}", store.len(), store.chars().take(2_000).collect::<String>());

        let mut extra: Vec<ikal::Date> = Vec::new();
        for _ in 0..tape::choose(3) {
            extra.push(if tape::chance(1, 2) { ikal::Date::Date(doc::date()) } else { ikal::Date::from(doc::naive()) });
        }
        extra.retain(|x| x.date_naive().year() < 9_999);

        reader.state.work_budget = work(store.len());
        let result = reader.run_within("read", 4_000_000 + 1_000 * store.len() as u64, || Any::read(kind, &store).map_err(|e| e.to_string().len()));
        let used = (reader.state.alloc_bytes, reader.state.work);
        reader.state.work_budget = 50 * work(store.len());
        match result {
            Err(_) => ctx::count("probe: refused"),
            Ok(any) => {
                ctx::count("probe: accepted");
                let n = reader.run_within("use", budget(store.len()) + 3_000 * used.0, || use_document(&any, kind, &extra));
                ctx::add("probe: occurrences", n);
            }
        }
        if std::env::var_os("IKAL_SIM_BUDGET").is_some() {
            let line = format!("BUDGET {} {used:?} {:?}\n", store.len(), (reader.state.alloc_bytes, reader.state.work));
            let _ = std::io::Write::write_all(&mut std::io::stderr(), line.as_bytes());
        }
    }
}
