//! C14: a single value stored alone means what it means in a document.

use crate::doc::{self, Scan, Style, Type};
use crate::host::{self, Host};
use crate::model::{Any, Canon, Node};
use crate::runner::Plan;
use crate::seam::Faults;
use crate::{c02, c06, ctx, event, tape};

pub const PLAN: Plan = Plan {
    property: "C14",
    scenario,
    quick: 40_000,
    thorough: 1_200_000,
    level: "exploration",
    rule: "A program that keeps single values - dates, durations, triggers, periods, rules, positions, statuses, classes, \
           transparencies, request statuses - in columns of a store of its own, as texts, next to documents. Values are \
           written to columns by other producers, or by the program itself, the column is torn, truncated or damaged, \
           and read on simulated hosts that restart, change zone and lose their zone database. Each column is read as a \
           value, in every way the library has, and as the property of a document with this text. Both accept it or none \
           does, both give the same value, which is that of an independent reader, and what is written of it reads back \
           the same. A case is one column; distinct by its type and text, non-trivial when it is accepted.",
    real: "ikal (values: reading, writing, conversion; readers of documents), chrono, std",
    stub: "store and its damages, host zone, its configuration and database files, clock, process lifetime",
    assumptions: &["UTC timestamps on hosts in UTC only (see KF-2 of C07)"],
};

/// The component, and the property in it, that has values of this type.
pub const COLUMNS: &[(Type, &str, &str)] = &[
    (Type::Date, "VTODO", "DUE"),
    (Type::DateTime, "VTODO", "CREATED"),
    (Type::Duration, "VTODO", "DURATION"),
    (Type::Periods, "VFREEBUSY", "FREEBUSY"),
    (Type::Rule, "VTODO", "RRULE"),
    (Type::Trigger, "VALARM", "TRIGGER"),
    (Type::Geo, "VTODO", "GEO"),
    (Type::Status, "VTODO", "STATUS"),
    (Type::Class, "VTODO", "CLASS"),
    (Type::Transp, "VEVENT", "TRANSP"),
    (Type::RequestStatus, "VTODO", "RSTATUS"),
    (Type::RDate, "VTODO", "RDATE"),
];

pub fn document(kind: &str, name: &str, value: &str) -> String {
    let rest = match kind {
        "VALARM" => return format!("BEGIN:VALARM\r\nACTION:AUDIO\r\n{name}:{value}\r\nEND:VALARM\r\n"),
        "VEVENT" => "DTSTART:20240101T000000\r\n",
        _ => "",
    };
    let param = if name == "RDATE" && value.contains('/') { ";VALUE=PERIOD" } else { "" };
    format!("BEGIN:{kind}\r\nDTSTAMP:20240101T000000\r\nUID:1\r\n{rest}{name}{param}:{value}\r\nEND:{kind}\r\n")
}

/// The value of the property.
fn property(node: &Node, name: &str) -> Option<String> {
    let mut found = node.props.iter().filter(|x| x.name == name);
    let value = found.next().map(|x| x.value.clone());
    found.next().is_none().then_some(value).flatten()
}

/// What is read alone, in every way: the value and what is written of it.
type Alone = Result<(String, Vec<String>), String>;

macro_rules! ways {
    ($ty:ty, $text:ident) => {{
        let x: Alone = read::<$ty>($text, |x| ikal::ser::ical(x).map_err(|e| e.to_string()));
        let parsed = $text.parse::<$ty>();
        for way in [<$ty>::try_from($text), <$ty>::try_from($text.to_string())] {
            if way.as_ref().ok() != parsed.as_ref().ok() || way.as_ref().ok().map(|x| x.canon().1) != x.as_ref().ok().map(|x| x.0.clone()) {
                return Err(format!("two ways of reading {:?} differ: {way:?} and {x:?}", $text));
            }
        }
        x
    }};
    ($ty:ty, $text:ident, display) => {{
        let mut x = ways!($ty, $text);
        if let (Ok(x), Ok(value)) = (&mut x, $text.parse::<$ty>()) {
            x.1.push(value.to_string());
        }
        x
    }};
}

fn read<T>(text: &str, write: impl Fn(&T) -> Result<String, String>) -> Alone
where
    T: std::str::FromStr<Err = ikal::Error> + Canon,
{
    let value: T = text.parse().map_err(|e: ikal::Error| e.to_string())?;
    Ok((value.canon().1, vec![write(&value)?]))
}

fn alone(ty: Type, text: &str) -> Result<Alone, String> {
    let dates = |x: String| x.rsplit(':').next().map(str::to_string).unwrap_or_default();
    Ok(match ty {
        Type::Date => {
            let mut x = read::<ikal::Date>(text, |x| ikal::ser::ical(x).map(dates).map_err(|e| e.to_string()));
            if let (Ok(x), Ok(value)) = (&mut x, text.parse::<ikal::Date>()) {
                x.1.push(value.to_string());
            }
            x
        }
        Type::DateTime => {
            let mut x = read::<ikal::DateTime>(text, |x| ikal::ser::ical(x).map_err(|e| e.to_string()));
            if let (Ok(x), Ok(value)) = (&mut x, text.parse::<ikal::DateTime>()) {
                x.1.push(value.to_string());
            }
            x
        }
        Type::RDate => {
            let mut x = read::<ikal::RDate>(text, |x| ikal::ser::ical(x).map(dates).map_err(|e| e.to_string()));
            if let (Ok(x), Ok(value)) = (&mut x, text.parse::<ikal::RDate>()) {
                x.1.push(value.to_string());
            }
            x
        }
        Type::Trigger => read::<ikal::Trigger>(text, |x| ikal::ser::ical(x).map(dates).map_err(|e| e.to_string())),
        Type::Duration => match ikal::parse_duration(text) {
            Ok(x) => Ok((x.canon().1, vec![x.to_string(), ikal::ser::ical(&x).map_err(|e| e.to_string())?])),
            Err(e) => Err(e.to_string()),
        },
        Type::Periods => ways!(ikal::Period, text, display),
        Type::Rule => ways!(ikal::Recur, text),
        Type::Geo => ways!(ikal::Geo, text, display),
        Type::Status => ways!(ikal::Status, text, display),
        Type::Class => ways!(ikal::Class, text, display),
        Type::Transp => ways!(ikal::TimeTransparency, text, display),
        Type::RequestStatus => ways!(ikal::RequestStatus, text),
        _ => Err("not a column".to_string()),
    })
}

/// A duration with any parts, in any order.
fn lenient(text: &str) -> Option<String> {
    let (sign, rest) = text.strip_prefix('-').map_or((1, text.strip_prefix('+').unwrap_or(text)), |x| (-1, x));
    let mut rest = rest.strip_prefix('P')?;
    let (mut total, mut time) = (0_i128, false);
    while !rest.is_empty() {
        if let Some(x) = rest.strip_prefix('T') {
            (rest, time) = (x, true);
            continue;
        }
        let n: i128 = rest[..rest.find(|c: char| !c.is_ascii_digit())?].parse().ok()?;
        rest = rest.trim_start_matches(|c: char| c.is_ascii_digit());
        let unit = rest.chars().next()?;
        let length = match (time, unit) {
            (false, 'Y') => 365 * 86_400,
            (false, 'M') => 30 * 86_400,
            (false, 'W') => 7 * 86_400,
            (false, 'D') => 86_400,
            (true, 'H') => 3_600,
            (true, 'M') => 60,
            (true, 'S') => 1,
            _ => return None,
        };
        rest = &rest[1..];
        total = n.checked_mul(length)?.checked_add(total)?;
    }
    Some(format!("{} s", sign * total))
}

/// As people, forms and other programs write a value.
fn meddle(name: &str, text: &str) -> String {
    ctx::count("fault: meddled with");
    match tape::choose(12) {
        0 => text.to_lowercase(),
        1 => format!("{text}{}", [" ", "\t", "  "][tape::pick(3)]),
        2 => format!("{}{text}", [" ", "\t", "\u{feff}"][tape::pick(3)]),
        3 => format!("{name}:{text}"),
        4 => format!("\"{text}\""),
        5 => format!("{text}{}", [";", ",", "\0", "Z", ".", "0"][tape::pick(6)]),
        6 => format!("{}{text}", ["+", "-", "0", ";", ","][tape::pick(5)]),
        7 => text.replace([';', '/'], [" ", ",", ":", "; "][tape::pick(4)]),
        8 => text.replace('T', [" ", "t", "", "TT"][tape::pick(4)]),
        9 => text.chars().map(|x| if tape::chance(1, 4) { x.to_ascii_lowercase() } else { x }).collect(),
        10 => {
            let chars: Vec<char> = text.chars().collect();
            let at = tape::pick(chars.len() + 1);
            let inserted = ['-', ':', '.', ' ', '0', '_', '+'][tape::pick(7)];
            chars[..at].iter().chain([&inserted]).chain(&chars[at..]).collect()
        }
        _ => text.chars().rev().collect(),
    }
}

/// A frequency, a day of the week, or one with its number, alone and in a rule.
fn part_of_a_rule(host: &mut Host) {
    let day = || ["SU", "MO", "TU", "WE", "TH", "FR", "SA"][tape::pick(7)].to_string();
    let part = tape::pick(3);
    let mut text = match part {
        0 => ["SECONDLY", "MINUTELY", "HOURLY", "DAILY", "WEEKLY", "MONTHLY", "YEARLY"][tape::pick(7)].to_string(),
        1 => day(),
        _ => match tape::choose(4) {
            0 => day(),
            1 => format!("{}{}", tape::range(-53, 53), day()),
            2 => format!("{:+}{}", tape::range(-130, 130), day()),
            _ => format!("{:02}{}", tape::range(0, 53), day()),
        },
    };
    match tape::choose(6) {
        5 => text = meddle(["FREQ", "WKST", "BYDAY"][part], &text),
        0 => text = c02::damage(&text, &day()),
        1 => text = c02::damage(&text, "MONTHLY"),
        2 => {
            let at = tape::pick(text.len() + 1);
            text.truncate(at);
        }
        _ => (),
    }
    if text.contains(['\r', '\n', ';', ',']) {
        return;
    }
    event!("part {part} of a rule: {text:?}");

    let read = |text: &str| -> Result<(String, Vec<String>), String> {
        macro_rules! part {
            ($ty:ty) => {{
                let x = text.parse::<$ty>().map_err(|e| e.to_string());
                for other in [<$ty>::try_from(text), <$ty>::try_from(text.to_string())] {
                    if other.as_ref().ok() != x.as_ref().ok() {
                        ctx::violation("two ways differ", &format!("{text:?} is read as {x:?} and {other:?}"));
                    }
                }
                let x = x?;
                Ok((format!("{x:?}"), vec![x.to_string(), ikal::ser::ical(&x).map_err(|e| e.to_string())?]))
            }};
        }
        match part {
            0 => part!(ikal::Freq),
            1 => part!(ikal::Weekday),
            _ => part!(ikal::WeekdayNum),
        }
    };
    let rule = ["FREQ=", "FREQ=YEARLY;WKST=", "FREQ=YEARLY;BYDAY="][part].to_string() + &text;
    let (alone, inside) = host.run("read", || {
        let inside = rule.parse::<ikal::Recur>().ok().and_then(|x| match part {
            0 => Some(format!("{:?}", x.freq)),
            1 => x.wkst.map(|x| format!("{x:?}")),
            _ => x.by_day.first().map(|x| format!("{x:?}")),
        });
        (read(&text), inside)
    });
    ctx::case(alone.is_ok().then(|| ctx::fingerprint(&rule)));
    if alone.as_ref().ok().map(|x| &x.0) != inside.as_ref() {
        ctx::violation("another value", &format!("{text:?} is {alone:?} alone, and {inside:?} in {rule:?}"));
    }
    if let Ok((value, written)) = alone {
        for text in written {
            match host.run("read again", || read(&text)) {
                Ok((other, _)) if other == value => (),
                other => ctx::violation("another value after writing", &format!("{value} is written {text:?}, which reads as {other:?}")),
            }
        }
    }
}

fn scenario() {
    let mut style = Style::random();
    style.leap = tape::chance(1, 4);
    style.odd = tape::chance(1, 3);
    style.utc = tape::chance(1, 3);
    style.near = true;
    let utc = style.utc;
    let mut host = Host::in_zone("host", if utc { crate::tz::Zone::utc() } else { host::random_zone() });

    for _ in 0..4 + tape::pick(8) {
        match tape::choose(8) {
            0 if utc => {
                ctx::count("fault: restart");
                host.restart();
            }
            0 => c06::disturb(&mut host),
            1 => {
                event!("{}: zone database fails", host.name);
                host.set_faults(Faults { open: tape::choose(256), read: tape::choose(256), short: tape::choose(256), stat: tape::choose(256), clock: tape::choose(64) });
            }
            _ => (),
        }

        if tape::chance(1, 8) {
            part_of_a_rule(&mut host);
            continue;
        }
        let (ty, kind, name) = *tape::of(COLUMNS);
        let (_, mut text) = doc::value_text(ty, &style);
        if matches!(ty, Type::Periods) {
            text.truncate(text.find(',').unwrap_or(text.len()));
        }
        match tape::choose(7) {
            6 => text = meddle(name, &text),
            0 => {
                let (_, other) = doc::value_text(ty, &style);
                text = c02::damage(&text, &other);
            }
            1 => text = c02::hostile_value(&style),
            2 => {
                ctx::count("fault: torn");
                let mut at = tape::pick(text.len() + 1);
                while !text.is_char_boundary(at) {
                    at -= 1;
                }
                text.truncate(at);
            }
            _ => (),
        }
        text.truncate(text.find(['\r', '\n']).unwrap_or(text.len()));
        if !utc && text.contains('Z') {
            continue;
        }
        event!("{name} {:?}", text.chars().take(500).collect::<String>());

        let result = host.run("read alone", || alone(ty, &text));
        let result = result.unwrap_or_else(|e| ctx::violation("two ways differ", &e));
        let store = document(kind, name, &text);
        let read = host.run("read in a document", || Any::read(kind, &store).map(|x| x.node()).map_err(|e| e.to_string()));
        let accepted = result.is_ok();
        ctx::case(accepted.then(|| ctx::fingerprint(&format!("{name}{text}"))));
        if accepted {
            ctx::count("probe: accepted");
        }

        let here = match &read {
            Ok(node) => match property(node, name) {
                Some(value) => Ok(value),
                None => continue,
            },
            Err(e) => Err(e),
        };
        if let (Type::Duration | Type::Trigger, Ok(a), Err(_)) = (ty, &result, &here) {
            // Alone, years, months, and parts in any order are read, too.
            match lenient(&text) {
                Some(x) if x == a.0 => (),
                other => ctx::violation("not the value", &format!("{name} {text:?} is read as {}, not {other:?}", a.0)),
            }
            continue;
        }
        match (&result, &here) {
            (Ok(a), Ok(b)) if a.0 != *b => ctx::violation("another value", &format!("{name} {text:?} is {} alone, and {b} in a document", a.0)),
            (Ok(a), Err(e)) => ctx::violation("refused in a document", &format!("{name} {text:?} is {} alone, and in a document: {e}", a.0)),
            (Err(e), Ok(b)) => ctx::violation("refused alone", &format!("{name} {text:?} is {b} in a document, and alone: {e}")),
            _ => (),
        }
        // What the standard says.
        match (doc::scan(kind, &store), &result) {
            (Scan::Document(node), Ok(a)) => {
                let wanted = property(&node, name).unwrap_or_default();
                if wanted != a.0 && wanted != crate::model::ANY {
                    ctx::violation("not the value", &format!("{name} {text:?} is read as {}, not {wanted}", a.0));
                }
            }
            (Scan::Document(_), Err(e)) => ctx::violation("refused", &format!("{name} {text:?}: {e}")),
            _ => (),
        }
        // What is written of it is another column.
        if let Ok((value, written)) = &result {
            for text in written {
                let again = host.run("read again", || alone(ty, text));
                match again {
                    Ok(Ok((other, _))) if other == *value => (),
                    other => ctx::violation("another value after writing", &format!("{name} {value} is written {text:?}, which reads as {other:?}")),
                }
            }
        }
    }
}
