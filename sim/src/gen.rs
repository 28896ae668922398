//! Typed documents, as a program builds them.

use crate::doc::{self, PARAMS, Style};
use crate::model::Any;
use crate::{components, tape};
use chrono::TimeZone as _;
use std::collections::BTreeMap;

pub trait Make {
    fn make(field: &str, style: &Style) -> Self;
}

fn params(style: &Style) -> BTreeMap<String, String> {
    let mut params = BTreeMap::new();
    if style.params == 0 || tape::chance(1, 2) {
        return params;
    }
    for _ in 0..tape::choose(style.params) {
        let mut value = String::new();
        for _ in 0..1 + tape::choose(3) {
            value.push_str(if tape::choose(10) < style.exotic {
                ["a;b", "x:y", "c,d", "é", "漢字", "\"", "\n", "\r\n", "'", "=", "mailto:a@b.c", " ", "\\n", "END:VEVENT"][tape::pick(14)]
            } else {
                ["REQ-PARTICIPANT", "v", "Europe/Paris", "TRUE", "John Smith"][tape::pick(5)]
            });
        }
        if tape::chance(1, 20) {
            value.push_str(&"long ".repeat(tape::pick(40)));
        }
        params.insert(tape::of(PARAMS).to_string(), value);
    }
    params
}

/// A text as a program sets it: not escaped, unless it comes from a document.
pub fn text(style: &Style) -> String {
    let words = doc::words(style.exotic);
    match tape::choose(8) {
        0 => words.replace('\n', "\r\n"),
        1 => words.replace('\n', "\r"),
        2 => doc::escaped(&words),
        _ => words,
    }
}

impl Make for ikal::Text {
    fn make(_: &str, style: &Style) -> Self {
        Self { params: params(style), text: text(style) }
    }
}

impl Make for ikal::Uri {
    fn make(_: &str, style: &Style) -> Self {
        let uri = match tape::choose(4) {
            0 => text(style),
            1 => "http://example.org/a?b=1,2;c=3:4\\,5".to_string(),
            2 => format!("http://example.org/{}", "é漢/".repeat(tape::pick(30))),
            _ => "mailto:jane@example.com".to_string(),
        };
        Self { params: params(style), uri }
    }
}

impl Make for ikal::DateTime {
    fn make(_: &str, style: &Style) -> Self {
        let naive = doc::naive();
        if style.utc && (!style.floating || tape::chance(1, 2)) {
            use chrono::Datelike as _;
            // Leaves room for the offset of the host.
            let year = naive.year().clamp(2, 9_998);
            let utc = naive.with_year(year).unwrap_or(chrono::NaiveDateTime::default());
            Self::Local(chrono::Local.from_utc_datetime(&utc))
        } else {
            Self::Naive(naive)
        }
    }
}

impl Make for ikal::Date {
    fn make(field: &str, style: &Style) -> Self {
        if tape::chance(1, 2) { Self::DateTime(Make::make(field, style)) } else { Self::Date(doc::date()) }
    }
}

impl Make for chrono::TimeDelta {
    fn make(_: &str, _: &Style) -> Self {
        let seconds = match tape::choose(8) {
            0 => 0,
            1 => 3_600 * tape::range(-30, 30),
            2 => 86_400 * tape::range(-30, 400),
            3 => 604_800 * tape::range(-3, 60),
            4 => tape::range(-10_000_000_000, 10_000_000_000),
            5 => tape::range(-59, 59),
            6 => 60 * tape::range(-59, 600),
            _ => tape::range(-200_000, 200_000),
        };
        chrono::TimeDelta::seconds(seconds)
    }
}

impl Make for u8 {
    fn make(field: &str, _: &Style) -> Self {
        tape::choose(if field == "priority" { 10 } else { 101 }) as u8
    }
}

impl Make for u32 {
    fn make(_: &str, _: &Style) -> Self {
        (if tape::chance(1, 4) { tape::choose(1 << 32) } else { tape::choose(12) }) as u32
    }
}

impl Make for ikal::Class {
    fn make(_: &str, style: &Style) -> Self {
        match tape::choose(4) {
            0 => Self::Public,
            1 => Self::Private,
            2 => Self::Confidential,
            _ => Self::Custom(match tape::choose(4) {
                0 => "X-OTHER".to_string(),
                1 => "custom; class, with: separators".to_string(),
                _ => text(style),
            }),
        }
    }
}

impl Make for ikal::Status {
    fn make(_: &str, _: &Style) -> Self {
        use ikal::Status::*;
        [Tentative, Confirmed, Cancelled, NeedsAction, Completed, InProcess, Draft, Final][tape::pick(8)].clone()
    }
}

impl Make for ikal::TimeTransparency {
    fn make(_: &str, _: &Style) -> Self {
        if tape::chance(1, 2) { Self::Transparent } else { Self::Opaque }
    }
}

fn float(max: i64) -> f32 {
    match tape::choose(4) {
        3 => tape::range(-99_999, 99_999) as f32 / [1e7, 1e9, 1e12, 1e20][tape::pick(4)],
        0 => tape::range(-max, max) as f32,
        1 => tape::range(-max * 100, max * 100) as f32 / 100.0,
        _ => tape::range(-max * 1_000_000, max * 1_000_000) as f32 / 1_000_000.0,
    }
}

impl Make for ikal::Geo {
    fn make(_: &str, _: &Style) -> Self {
        Self { lat: float(90), lon: float(180) }
    }
}

pub fn freq() -> ikal::Freq {
    use ikal::Freq::*;
    [Daily, Weekly, Monthly, Yearly, Hourly, Minutely, Secondly][tape::pick(7)].clone()
}

fn weekday() -> ikal::Weekday {
    use ikal::Weekday::*;
    [Monday, Tuesday, Wenesday, Thurday, Friday, Saturday, Sunday][tape::pick(7)].clone()
}

impl Make for ikal::Recur {
    fn make(field: &str, style: &Style) -> Self {
        let numbers = || -> Vec<i8> {
            if !tape::chance(1, 10) {
                return Vec::new();
            }
            style.list(|| tape::range(-128, 127) as i8)
        };
        Self {
            freq: freq(),
            until: tape::chance(1, 3).then(|| Make::make(field, style)),
            count: tape::chance(1, 3).then(|| tape::choose(256) as u8),
            interval: if tape::chance(1, 3) { tape::choose(256) as u8 } else { 1 + tape::choose(4) as u8 },
            by_second: numbers(),
            by_minute: numbers(),
            by_hour: numbers(),
            by_day: if tape::chance(1, 6) {
                style.list(|| ikal::WeekdayNum {
                    weekday: weekday(),
                    ord: tape::chance(1, 2).then(|| if tape::chance(1, 8) { tape::range(-128, 127) } else { tape::range(-53, 53) } as i8),
                })
            } else {
                Vec::new()
            },
            by_monthday: numbers(),
            by_yearday: numbers(),
            by_weekno: numbers(),
            by_month: numbers(),
            by_setpos: numbers(),
            wkst: tape::chance(1, 6).then(weekday),
        }
    }
}

impl Make for ikal::Period {
    fn make(field: &str, style: &Style) -> Self {
        let text = if tape::chance(1, 2) { "19970101T180000/19970101T190000" } else { "19970101T180000/PT1H" };
        let mut period: ikal::Period = text.parse().expect("a period");
        match &mut period {
            Self::StartEnd(x) => {
                x.start = Make::make(field, style);
                x.end = Make::make(field, style);
            }
            Self::StartDur(x) => {
                x.start = Make::make(field, style);
                // The standard only has positive ones here.
                x.duration = chrono::TimeDelta::make(field, style).abs();
            }
        }
        period
    }
}

impl Make for ikal::RDate {
    fn make(field: &str, style: &Style) -> Self {
        match tape::choose(3) {
            0 => Self::Date(style.list(|| ikal::Date::Date(doc::date()))),
            1 => Self::Date(style.list(|| ikal::Date::DateTime(Make::make(field, style)))),
            _ => Self::Period(style.list(|| Make::make(field, style))),
        }
    }
}

impl Make for ikal::RequestStatus {
    fn make(_: &str, style: &Style) -> Self {
        Self {
            statcode: (10 + tape::choose(50)) as f32 / 10.0,
            statdesc: text(style),
            extdata: tape::chance(1, 2).then(|| text(style)),
        }
    }
}

impl Make for ikal::Trigger {
    fn make(field: &str, style: &Style) -> Self {
        if tape::chance(1, 3) {
            Self::DateTime(Make::make(field, style))
        } else {
            Self::Duration(Make::make(field, style))
        }
    }
}

impl Make for chrono::FixedOffset {
    fn make(_: &str, style: &Style) -> Self {
        let mut seconds = 3_600 * tape::range(0, 14) + 60 * if tape::chance(1, 2) { tape::range(0, 59) } else { 0 };
        if style.seconds && tape::chance(1, 6) {
            seconds += tape::range(0, 59);
        }
        if tape::chance(1, 2) {
            seconds = -seconds;
        }
        chrono::FixedOffset::east_opt(seconds as i32).unwrap()
    }
}

fn extension(kind: &str, x: bool, style: &Style) -> (String, BTreeMap<String, String>, String) {
    let keys: &[&str] = if x { &["X-WR-CALNAME", "X-FOO", "X-A-1"] } else { &["COLOR", "IMAGE", "CONFERENCE", "REFRESH-INTERVAL", "ATTENDEES", "TZ"] };
    let key = tape::of(keys);
    debug_assert!(matches!(kind, "AUDIO" | "DISPLAY" | "EMAIL") || doc::table(kind).iter().all(|row| row.0 != *key));
    let value = if tape::chance(1, 3) { doc::escaped(&doc::words(style.exotic)) } else { text(style) };
    (key.to_string(), params(style), value)
}

macro_rules! field {
    ($x:ident, $style:ident, req, $field:ident) => {
        $x.$field = Make::make(stringify!($field), $style)
    };
    ($x:ident, $style:ident, opt, $field:ident) => {
        if tape::choose(10) < $style.density {
            $x.$field = Some(Make::make(stringify!($field), $style));
        }
    };
    ($x:ident, $style:ident, many, $field:ident) => {
        if tape::choose(10) < $style.density {
            for _ in 0..$style.lines() {
                $x.$field.push(Make::make(stringify!($field), $style));
            }
        }
    };
}

macro_rules! make {
    ($ty:ty, $kind:literal, [$($card:ident $field:ident),*], [$($child:ident)*]) => {
        impl Make for $ty {
            fn make(_: &str, style: &Style) -> Self {
                let mut x = <$ty>::default();
                $( field!(x, style, $card, $field); )*
                for _ in 0..tape::choose(style.extensions + 1) {
                    let (key, params, value) = extension($kind, true, style);
                    let line = x.x_prop.entry(key).or_insert_with(|| "".into());
                    line.params = params;
                    line.value = value;
                }
                for _ in 0..tape::choose(style.extensions + 1) {
                    let (key, params, value) = extension($kind, false, style);
                    let line = x.iana_prop.entry(key).or_insert_with(|| "".into());
                    line.params = params;
                    line.value = value;
                }
                $(
                    let (n, style) = style.children();
                    for _ in 0..n {
                        x.$child.push(Make::make("", &style));
                    }
                )*
                x
            }
        }
    };
}

components!(make);

impl Make for ikal::VAlarm {
    fn make(_: &str, style: &Style) -> Self {
        match tape::choose(3) {
            0 => ikal::valarm::Display::make("", style).into(),
            1 => ikal::valarm::Audio::make("", style).into(),
            _ => ikal::valarm::Email::make("", style).into(),
        }
    }
}

/// Must be called on a simulated host: UTC timestamps depend on its zone.
pub fn any(kind: &str, style: &Style) -> Any {
    match kind {
        "VCALENDAR" => Any::Calendar(Make::make("", style)),
        "VEVENT" => Any::Event(Make::make("", style)),
        "VTODO" => Any::Todo(Make::make("", style)),
        "VJOURNAL" => Any::Journal(Make::make("", style)),
        "VFREEBUSY" => Any::Freebusy(Make::make("", style)),
        "VTIMEZONE" => Any::Timezone(Make::make("", style)),
        "VALARM" => Any::Alarm(Make::make("", style)),
        "STANDARD" => Any::Standard(Make::make("", style)),
        "DAYLIGHT" => Any::Daylight(Make::make("", style)),
        "AUDIO" => Any::Audio(Make::make("", style)),
        "DISPLAY" => Any::Display(Make::make("", style)),
        "EMAIL" => Any::Email(Make::make("", style)),
        _ => unreachable!(),
    }
}
