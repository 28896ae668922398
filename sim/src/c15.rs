//! C15: a conforming document is accepted, and means the same however it is spelled.

use crate::doc::{self, Lines, Scan, Style, Type};
use crate::host::{self, Host};
use crate::model::{self, Any, Node};
use crate::runner::Plan;
use crate::seam::Faults;
use crate::{c03, c06, ctx, event, tape};

pub const PLAN: Plan = Plan {
    property: "C15",
    scenario,
    quick: 16_000,
    thorough: 500_000,
    level: "exploration",
    rule: "Documents of a producer that follows the standard go through relays that spell them otherwise, as the \
           standard permits: properties, parameters, parts of rules and components of different kinds in another order, \
           parameters quoted or not, explicit types, parameters of their own on dates and numbers, signs and zeros of \
           numbers, durations in other units, either escape of a line break, lines folded anywhere. Simulated hosts in \
           any zone - which restart, change zone and lose their zone database - read every spelling: each must be \
           accepted, with the content an independent reader finds in the original. A case is one spelling; distinct by \
           its bytes, non-trivial when it differs from the original.",
    real: "ikal (readers of every component kind), chrono, std",
    stub: "producers and relays, host zone, its configuration and database files, clock, process lifetime",
    assumptions: &[
        "the document is in upper case, in CRLF-ended lines, made of the components and the types of alarms ikal knows; \
         parameters have one value; numbers of rules fit in eight bits (see the known findings)",
    ],
};

fn shuffle<T>(items: &mut [T], same: impl Fn(&T, &T) -> bool) {
    for _ in 0..2 * items.len() {
        let i = tape::pick(items.len());
        let j = i + 1;
        if j < items.len() && !same(&items[i], &items[j]) {
            items.swap(i, j);
        }
    }
}

fn number(s: &str) -> String {
    let zeros = ["", "0", "00"][tape::weighted(&[4, 2, 1])];
    let (sign, digits) = if let Some(x) = s.strip_prefix('-') { ("-", x) } else { (["", "+"][tape::pick(2)], s) };
    format!("{sign}{zeros}{digits}")
}

fn natural(s: &str) -> String {
    format!("{}{s}", ["", "0", "00"][tape::weighted(&[4, 2, 1])])
}

fn duration(s: &str) -> String {
    let (sign, rest) = s.strip_prefix('-').map_or(("", s), |x| ("-", x));
    let mut total: u64 = 0;
    let mut n = 0;
    for c in rest.chars() {
        match c {
            '0'..='9' => n = n * 10 + u64::from(c) - u64::from('0'),
            _ => {
                total += std::mem::take(&mut n) * match c { 'W' => 604_800, 'D' => 86_400, 'H' => 3_600, 'M' => 60, _ => 1 };
            }
        }
    }
    let sign = if sign.is_empty() { ["", "+"][tape::pick(2)] } else { sign };
    let units = [(604_800, "P", "W"), (86_400, "P", "D"), (3_600, "PT", "H"), (60, "PT", "M"), (1, "PT", "S")];
    let whole: Vec<_> = units.iter().filter(|x| total % x.0 == 0).collect();
    if tape::chance(1, 3) {
        let (d, h, m, s) = (total / 86_400, total / 3_600 % 24, total / 60 % 60, total % 60);
        let days = format!("{sign}P{}D", natural(&d.to_string()));
        return match (d, h, m, s) {
            (_, 0, 0, 0) => days,
            (0, ..) => format!("{sign}PT{h}H{m}M{s}S"),
            (_, _, 0, 0) => format!("{days}T{h}H"),
            (_, _, _, 0) => format!("{days}T{h}H{m}M"),
            _ => format!("{days}T{h}H{m}M{s}S"),
        };
    }
    let (seconds, before, after) = tape::of(&whole);
    format!("{sign}{before}{}{after}", natural(&(total / seconds).to_string()))
}

fn period(s: &str) -> String {
    match s.split_once("/P") {
        Some((start, length)) => format!("{start}/{}", duration(&format!("P{length}"))),
        None => s.to_string(),
    }
}

fn float(s: &str) -> String {
    let zeros = if s.contains('.') { ["", "0", "000"][tape::pick(3)] } else { ["", ".0", ".000"][tape::pick(3)] };
    format!("{}{zeros}", number(s))
}

/// A number of a rule, which has so many digits at most.
fn ordinal(s: &str, width: usize, signed: bool) -> String {
    let plus = if signed { ["", "+"][tape::pick(2)] } else { "" };
    let (sign, digits) = s.strip_prefix('-').map_or((plus, s), |x| ("-", x));
    let width = 1 + tape::pick(width);
    format!("{sign}{digits:0>width$}")
}

fn rule(s: &str) -> String {
    let mut parts: Vec<String> = s
        .split(';')
        .map(|part| {
            let (name, value) = part.split_once('=').unwrap();
            let value = match name {
                "COUNT" | "INTERVAL" => natural(value),
                "BYDAY" => value
                    .split(',')
                    .map(|x| match x.split_at(x.len() - 2) {
                        ("", day) => day.to_string(),
                        (n, day) => format!("{}{day}", ordinal(n, 2, true)),
                    })
                    .collect::<Vec<_>>()
                    .join(","),
                _ if name.starts_with("BY") => {
                    let signed = !matches!(name, "BYSECOND" | "BYMINUTE" | "BYHOUR" | "BYMONTH");
                    let width = if matches!(name, "BYYEARDAY" | "BYSETPOS") { 3 } else { 2 };
                    value.split(',').map(|n| ordinal(n, width, signed)).collect::<Vec<_>>().join(",")
                }
                _ => value.to_string(),
            };
            format!("{name}={value}")
        })
        .collect();
    shuffle(&mut parts, |_, _| false);
    parts.join(";")
}

fn breaks(s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        out.push(c);
        if c == '\\' {
            match chars.next() {
                Some('n' | 'N') => out.push(['n', 'N'][tape::pick(2)]),
                Some(x) => out.push(x),
                None => (),
            }
        }
    }
    out
}

/// Another spelling of a line.
fn spell(line: &str, ty: Type) -> String {
    let Ok(parts) = doc::line_parts(line) else {
        return line.to_string();
    };
    let (name, mut params, mut value) = parts;

    if tape::chance(2, 3) {
        value = match ty {
            Type::Text | Type::TextList => breaks(&value),
            Type::U8 | Type::Priority | Type::U32 => {
                if tape::chance(1, 2) { number(&value) } else { natural(&value) }
            }
            Type::Duration => duration(&value),
            Type::Trigger if value.contains('P') => duration(&value),
            Type::Periods => value.split(',').map(period).collect::<Vec<_>>().join(","),
            Type::RDate if value.contains('/') => value.split(',').map(period).collect::<Vec<_>>().join(","),
            Type::Geo => value.split(';').map(float).collect::<Vec<_>>().join(";"),
            Type::Rule => rule(&value),
            Type::Class if value != "X-CUSTOM" && tape::chance(1, 2) => value.to_lowercase(),
            _ => value,
        };
    }

    // Parameters that are not kept anyway.
    let free = !matches!(ty, Type::Text | Type::TextList | Type::Uri | Type::Raw);
    if free && tape::chance(1, 3) {
        let new = [("X-P", "a"), ("X-ORIGIN", "a:b;c"), ("LANGUAGE", "en"), ("X-EMPTY", "")][tape::pick(4)];
        if !params.iter().any(|x| x.0 == new.0) {
            params.push((new.0.to_string(), new.1.to_string()));
        }
    }
    let explicit = match ty {
        Type::DateTime | Type::DateList | Type::Date if value.contains('T') && !value.split(',').any(|x| x.len() == 8) => "DATE-TIME",
        Type::Duration => "DURATION",
        Type::U8 | Type::Priority | Type::U32 => "INTEGER",
        Type::Geo => "FLOAT",
        Type::Rule => "RECUR",
        Type::Offset => "UTC-OFFSET",
        Type::Periods => "PERIOD",
        _ => "",
    };
    if !explicit.is_empty() && tape::chance(1, 4) && !params.iter().any(|x| x.0 == "VALUE") {
        params.push(("VALUE".to_string(), explicit.to_string()));
    }
    shuffle(&mut params, |_, _| false);

    let mut s = name;
    for (key, value) in params {
        if value.contains([':', ';', ',']) || tape::chance(1, 3) {
            s.push_str(&format!(";{key}=\"{value}\""));
        } else {
            s.push_str(&format!(";{key}={value}"));
        }
    }
    format!("{s}:{value}")
}

fn name(line: &str) -> &str {
    line.split([':', ';']).next().unwrap()
}

fn respell(lines: &Lines) -> Lines {
    let mut new = lines.clone();
    let action = lines.lines.iter().rfind(|x| name(x) == "ACTION").map_or("", |x| x.rsplit(':').next().unwrap());
    let rows = doc::table(if lines.kind == "VALARM" { action } else { &lines.kind });
    for line in &mut new.lines {
        let ty = rows.iter().find(|x| x.0 == name(line)).map_or(Type::Raw, |x| x.1);
        *line = spell(line, ty);
    }
    if tape::chance(1, 2) {
        shuffle(&mut new.lines, |a, b| name(a) == name(b));
    }
    if tape::chance(1, 2) {
        shuffle(&mut new.children, |a, b| a.kind == b.kind);
    }
    new.children = new.children.iter().map(respell).collect();
    new
}

/// What the standard allows, and ikal refuses or does not know.
fn limits(reader: &mut Host) {
    let event = |line: &str| {
        format!("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nPRODID:x\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000\r\nDTSTART:20240101\r\n{line}END:VEVENT\r\nEND:VCALENDAR\r\n")
    };
    let alarm = "BEGIN:VALARM\r\nACTION:AUDIO\r\nTRIGGER:-PT5M\r\nEND:VALARM\r\n";
    let probes: &[(&str, String)] = &[
        ("KF-6", event("STATUS:confirmed\r\n")),
        ("KF-6", event("").replace("VEVENT", "vevent")),
        ("KF-6", event("RRULE:FREQ=daily\r\n")),
        ("KF-7", event("ATTENDEE;MEMBER=\"mailto:a\",\"mailto:b\":mailto:c\r\n")),
        ("KF-8", event("").replace("VEVENT", "X-COMPONENT")),
        ("KF-9", event(&alarm.replace("AUDIO", "X-ACTION"))),
        ("KF-10", event("RRULE:FREQ=DAILY;COUNT=365\r\n")),
        ("KF-10", event("RRULE:FREQ=DAILY;INTERVAL=300\r\n")),
        ("KF-10", event("RRULE:FREQ=YEARLY;BYYEARDAY=200\r\n")),
        ("KF-10", event("RRULE:FREQ=YEARLY;BYDAY=MO;BYSETPOS=200\r\n")),
        ("KF-11", event(alarm).replace("VEVENT", "VTODO")),
    ];
    let (id, text) = tape::of(probes);
    if reader.run("read", || Any::read("VCALENDAR", text).is_err()) {
        ctx::finding(id, &format!("refused: {text:?}"));
    }

    let known: ikal::VEvent = match reader.run("read", || event("RECURRENCE-ID:20240101\r\n").parse::<ikal::VCalendar>()) {
        Ok(mut x) if x.events.len() == 1 => x.events.remove(0),
        x => ctx::violation("refused", &format!("a recurrence identifier: {x:?}")),
    };
    if known.recurid.is_none() {
        ctx::finding("KF-5", "RECURRENCE-ID is read as an unknown property");
    }
}

fn scenario() {
    let kind = model::KINDS[tape::pick(model::KINDS.len())];
    let mut style = Style::random();
    style.strict = true;
    style.leap = tape::chance(1, 4);
    if tape::chance(1, 20) {
        style.many = 40;
        style.children = 30;
        style.density = style.density.min(3);
    }
    let lines = doc::generate(kind, &style);
    let original = doc::render(&lines.flat(), 0);
    let Scan::Document(expected) = doc::scan(kind, &original) else {
        ctx::harness(&format!("not a document: {original}"));
    };
    event!("document:\n{original}");

    let mut reader = Host::in_zone("reader", host::random_zone());
    if tape::chance(1, 4) {
        reader.set_faults(Faults { open: tape::choose(64), read: tape::choose(64), short: tape::choose(256), stat: tape::choose(64), clock: tape::choose(64) });
    }
    if tape::chance(1, 40) {
        limits(&mut reader);
    }

    for _ in 0..1 + tape::pick(5) {
        if tape::chance(1, 4) {
            c06::disturb(&mut reader);
        }
        let spelling = respell(&lines);
        let text = doc::render(&spelling.flat(), [0, 5, 40, 150][tape::pick(4)]);
        let result: Result<Node, String> =
            reader.run("read", || Any::read(kind, &text).map(|x| x.node()).map_err(|e| e.to_string().chars().take(300).collect()));
        ctx::case((text != original).then(|| ctx::fingerprint(&text)));
        match result {
            Err(e) => {
                event!("spelling:\n{text}");
                ctx::violation("refused", &format!("a conforming {kind}: {e}"));
            }
            Ok(node) => {
                if let Some((class, message)) = c03::diff(&expected, &node) {
                    event!("spelling:\n{text}");
                    ctx::violation(&format!("another meaning: {class}"), &message);
                }
            }
        }
    }
}
