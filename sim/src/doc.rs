//! Documents as lines of text, independently of the code under test: what other producers write,
//! and a strict reader of it.

use crate::model::{self, ANY, BY, Node, Prop, Rule};
use crate::tape;
use chrono::{NaiveDate, NaiveDateTime};
use std::collections::BTreeMap;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Type {
    Text,
    TextList,
    Uri,
    DateTime,
    Date,
    DateList,
    Duration,
    U8,
    Priority,
    U32,
    Class,
    Status,
    Transp,
    Geo,
    Rule,
    RequestStatus,
    RDate,
    Periods,
    Offset,
    Trigger,
    /// An extension or unknown property.
    Raw,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Card {
    One,
    Opt,
    Many,
}

use Card::{Many, One, Opt};

type Row = (&'static str, Type, Card);

pub fn table(kind: &str) -> &'static [Row] {
    use Type::*;

    match kind {
        "VEVENT" => &[
            ("DTSTAMP", DateTime, One),
            ("UID", Text, One),
            ("DTSTART", Date, One),
            ("CLASS", Class, Opt),
            ("CREATED", DateTime, Opt),
            ("DESCRIPTION", Text, Opt),
            ("GEO", Geo, Opt),
            ("LAST-MODIFIED", DateTime, Opt),
            ("LOCATION", Text, Opt),
            ("ORGANIZER", Uri, Opt),
            ("PRIORITY", Priority, Opt),
            ("SEQUENCE", U32, Opt),
            ("STATUS", Status, Opt),
            ("SUMMARY", Text, Opt),
            ("TRANSP", Transp, Opt),
            ("URL", Uri, Opt),
            ("RECURID", Date, Opt),
            ("RRULE", Rule, Opt),
            ("DTEND", Date, Opt),
            ("DURATION", Duration, Opt),
            ("ATTACH", Text, Many),
            ("ATTENDEE", Uri, Many),
            ("CATEGORIES", TextList, Many),
            ("COMMENT", Text, Many),
            ("CONTACT", Text, Many),
            ("EXDATE", DateList, Many),
            ("RSTATUS", RequestStatus, Many),
            ("RELATED-TO", Text, Many),
            ("RESOURCES", TextList, Many),
            ("RDATE", RDate, Many),
        ],
        "VTODO" => &[
            ("DTSTAMP", DateTime, One),
            ("UID", Text, One),
            ("CLASS", Class, Opt),
            ("COMPLETED", DateTime, Opt),
            ("CREATED", DateTime, Opt),
            ("DTSTART", Date, Opt),
            ("GEO", Geo, Opt),
            ("LAST-MODIFIED", DateTime, Opt),
            ("LOCATION", Text, Opt),
            ("ORGANIZER", Uri, Opt),
            ("PERCENT-COMPLETE", U8, Opt),
            ("PRIORITY", Priority, Opt),
            ("RECURID", Date, Opt),
            ("SEQUENCE", U32, Opt),
            ("STATUS", Status, Opt),
            ("SUMMARY", Text, Opt),
            ("URL", Uri, Opt),
            ("RRULE", Rule, Opt),
            ("DUE", Date, Opt),
            ("DURATION", Duration, Opt),
            ("ATTACH", Text, Many),
            ("ATTENDEE", Uri, Many),
            ("CATEGORIES", TextList, Many),
            ("COMMENT", Text, Many),
            ("CONTACT", Text, Many),
            ("EXDATE", DateList, Many),
            ("RSTATUS", RequestStatus, Many),
            ("RELATED-TO", Text, Many),
            ("RESOURCES", TextList, Many),
            ("RDATE", RDate, Many),
        ],
        "VJOURNAL" => &[
            ("DTSTAMP", DateTime, One),
            ("UID", Text, One),
            ("CLASS", Class, Opt),
            ("CREATED", DateTime, Opt),
            ("DTSTART", Date, One),
            ("LAST-MODIFIED", DateTime, Opt),
            ("ORGANIZER", Uri, Opt),
            ("RECURID", Date, Opt),
            ("SEQUENCE", U32, Opt),
            ("STATUS", Status, Opt),
            ("SUMMARY", Text, Opt),
            ("URL", Uri, Opt),
            ("RRULE", Rule, Opt),
            ("ATTACH", Text, Many),
            ("ATTENDEE", Uri, Many),
            ("CATEGORIES", TextList, Many),
            ("COMMENT", Text, Many),
            ("CONTACT", Text, Many),
            ("DESCRIPTION", Text, Many),
            ("EXDATE", DateList, Many),
            ("RELATED-TO", Text, Many),
            ("RDATE", RDate, Many),
            ("RSTATUS", RequestStatus, Many),
        ],
        "VFREEBUSY" => &[
            ("DTSTAMP", DateTime, One),
            ("UID", Text, One),
            ("CONTACT", Text, Opt),
            ("DTSTART", Date, Opt),
            ("DTEND", Date, Opt),
            ("ORGANIZER", Uri, Opt),
            ("URL", Uri, Opt),
            ("ATTENDEE", Uri, Many),
            ("COMMENT", Text, Many),
            ("FREEBUSY", Periods, Many),
            ("RSTATUS", RequestStatus, Many),
        ],
        "VTIMEZONE" => &[("TZID", Text, One), ("LAST-MODIFIED", DateTime, Opt), ("TZURL", Uri, Opt)],
        "STANDARD" | "DAYLIGHT" => &[
            ("DTSTART", Date, One),
            ("TZOFFSETTO", Offset, One),
            ("TZOFFSETFROM", Offset, One),
            ("RRULE", Rule, Opt),
            ("COMMENT", Text, Many),
            ("RDATE", RDate, Many),
            ("TZNAME", Text, Many),
        ],
        "AUDIO" => &[
            ("ACTION", Text, One),
            ("TRIGGER", Trigger, One),
            ("DURATION", Duration, Opt),
            ("REPEAT", U32, Opt),
            ("ATTACH", Text, Many),
        ],
        "DISPLAY" => &[
            ("ACTION", Text, One),
            ("TRIGGER", Trigger, One),
            ("DESCRIPTION", Text, One),
            ("DURATION", Duration, Opt),
            ("REPEAT", U32, Opt),
        ],
        "EMAIL" => &[
            ("ACTION", Text, One),
            ("TRIGGER", Trigger, One),
            ("DESCRIPTION", Text, One),
            ("SUMMARY", Text, One),
            ("ATTENDEE", Uri, Many),
            ("DURATION", Duration, Opt),
            ("REPEAT", U32, Opt),
            ("ATTACH", Text, Many),
        ],
        "VCALENDAR" => {
            &[("PRODID", Text, One), ("VERSION", Text, One), ("CALSCALE", Text, Opt), ("METHOD", Text, Opt)]
        }
        _ => unreachable!("{kind}"),
    }
}

pub fn children(kind: &str) -> &'static [&'static str] {
    match kind {
        "VCALENDAR" => &["VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "VALARM"],
        "VEVENT" => &["VALARM"],
        "VTIMEZONE" => &["STANDARD", "DAYLIGHT"],
        _ => &[],
    }
}

// --- generating ------------------------------------------------------------------------------

/// What documents are made of, drawn once per run (swarm).
#[derive(Clone, Copy, Debug)]
pub struct Style {
    pub density: u64,
    pub many: u64,
    pub params: u64,
    pub exotic: u64,
    pub children: u64,
    pub extensions: u64,
    /// UTC timestamps are wanted.
    pub utc: bool,
    pub floating: bool,
    /// UTC offsets may have seconds.
    pub seconds: bool,
    /// UTC timestamps stay representable in any zone.
    pub near: bool,
    /// Values that the standard does not allow, or that are unusual.
    pub odd: bool,
    /// Nothing that the grammar of the standard does not have.
    pub strict: bool,
    /// UTC timestamps may be leap seconds.
    pub leap: bool,
    /// Many of something.
    pub crowd: Crowd,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Crowd {
    Nothing,
    Children,
    Lines,
    Items,
    Params,
}

impl Style {
    pub fn random() -> Self {
        Self {
            density: tape::choose(9),
            many: 1 + tape::choose(3),
            params: tape::choose(5),
            exotic: tape::choose(9),
            children: tape::choose(4),
            extensions: tape::choose(4),
            utc: true,
            floating: true,
            seconds: false,
            near: false,
            odd: false,
            strict: false,
            leap: false,
            crowd: if tape::chance(1, 20) {
                [Crowd::Children, Crowd::Lines, Crowd::Items, Crowd::Params][tape::pick(4)]
            } else {
                Crowd::Nothing
            },
        }
    }

    /// How many children a component has, and their style.
    pub fn children(&self) -> (u64, Self) {
        let mut style = self.clone();
        let mut n = tape::choose(self.children + 1);
        if self.crowd == Crowd::Children && tape::chance(1, 2) {
            n += tape::choose(30);
            style.crowd = Crowd::Nothing;
            style.children = style.children.min(1);
            style.density = style.density.min(2);
        }
        (n, style)
    }

    /// How many lines a property has.
    pub fn lines(&self) -> u64 {
        let crowd = self.crowd == Crowd::Lines && tape::chance(1, 3);
        1 + tape::choose(self.many) + if crowd { tape::choose(40) } else { 0 }
    }

    /// The items of a list, some of which are there again.
    pub fn list<T: Clone>(&self, f: impl Fn() -> T) -> Vec<T> {
        let crowd = self.crowd == Crowd::Items && tape::chance(1, 2);
        let n = 1 + tape::choose(3) + if crowd { tape::choose(40) } else { 0 };
        let mut items: Vec<T> = Vec::new();
        for _ in 0..n {
            let again = !items.is_empty() && tape::chance(1, 6);
            items.push(if again { tape::of(&items).clone() } else { f() });
        }
        items
    }
}

/// A component as lines, before it is rendered.
#[derive(Clone, Debug)]
pub struct Lines {
    pub kind: String,
    pub lines: Vec<String>,
    pub children: Vec<Lines>,
}

impl Lines {
    pub fn flat(&self) -> Vec<String> {
        let mut all = vec![format!("BEGIN:{}", self.kind)];
        all.extend(self.lines.iter().cloned());
        for child in &self.children {
            all.extend(child.flat());
        }
        all.push(format!("END:{}", self.kind));
        all
    }
}

const WORDS: &[&str] = &[
    "a", "Meeting", "Project XYZ", "Réunion", "漢字", "🎉", "naïve", "x", "0", "mailto:a@b.c", "http://e.org/?q=1&r=2",
    "  two  spaces  ", "tab\there", "\"quoted\"", "it's", "100%", "semi-colon", "END:VEVENT", "BEGIN:VALARM", "X-A=b",
    "\u{feff}", "e\u{301}", "\u{2028}", "ÿ", "\u{a0}", "C:/dir", "=", "^n", "a long enough sentence to make the line fold somewhere",
];

/// A text, as its author thinks of it.
pub fn words(exotic: u64) -> String {
    let mut s = String::new();
    if tape::chance(1, 500) {
        // Long, with what needs escaping near its end.
        s.push_str(&["a long text ", "é", "a,b;c\\d\n", "x"][tape::pick(4)].repeat(tape::pick(4_000)));
        s.push_str(";,\\\n;");
    }
    let n = if tape::chance(1, 12) { tape::range(10, 60) } else { tape::range(0, 5) };
    for _ in 0..n {
        if tape::choose(12) < exotic {
            s.push_str(tape::of(WORDS));
        } else {
            s.push_str(["a", "word", "some text", "1", "Z"][tape::pick(5)]);
        }
        match tape::choose(10 + exotic) {
            0..=6 => (),
            7 => s.push(' '),
            8 => s.push_str(&"é".repeat(tape::pick(80))),
            9 => s.push_str(&"x".repeat(tape::pick(160))),
            10 => s.push(','),
            11 => s.push(';'),
            12 => s.push('\\'),
            13 => s.push('\n'),
            14 => s.push_str("\nEND:VEVENT\n"),
            15 => s.push(':'),
            16 => s.push_str("\\n"),
            _ => s.push('"'),
        }
    }
    s
}

pub fn escaped(s: &str) -> String {
    let mut out = String::new();
    for c in s.chars() {
        match c {
            '\\' => out.push_str("\\\\"),
            ';' => out.push_str("\\;"),
            ',' => out.push_str("\\,"),
            '\n' => out.push_str(if tape::chance(1, 4) { "\\N" } else { "\\n" }),
            c => out.push(c),
        }
    }
    out
}

pub fn date() -> NaiveDate {
    let year = match tape::choose(12) {
        0..=5 => 2024 + tape::range(0, 6),
        6..=8 => 1970 + tape::range(0, 100),
        9 => tape::range(1, 9999),
        10 => tape::range(9_998, 9_999),
        _ => tape::range(1, 30),
    } as i32;
    let month = tape::range(1, 12) as u32;
    let day = match tape::choose(4) {
        0 => 1,
        1 => 28 + tape::choose(4),
        _ => tape::choose(28) + 1,
    } as u32;
    (28..=day).rev().chain([day.min(28)]).find_map(|d| NaiveDate::from_ymd_opt(year, month, d)).unwrap()
}

pub fn time() -> chrono::NaiveTime {
    let seconds = match tape::choose(6) {
        0 => 0,
        1 => 86_399,
        2 => 3_600 * tape::choose(24),
        _ => tape::choose(86_400),
    };
    chrono::NaiveTime::from_num_seconds_from_midnight_opt(seconds as u32, 0).unwrap()
}

pub fn naive() -> NaiveDateTime {
    date().and_time(time())
}

fn date_time_text(style: &Style) -> String {
    use chrono::Datelike as _;
    let z = if style.utc && (!style.floating || tape::chance(1, 2)) { "Z" } else { "" };
    let mut naive = naive();
    if style.near && !z.is_empty() && !(2..=9_998).contains(&naive.year()) {
        naive = NaiveDateTime::default();
    }
    if style.leap && !z.is_empty() && tape::chance(1, 12) {
        return format!("{}T235960Z", naive.format("%Y%m%d"));
    }
    format!("{}{z}", naive.format("%Y%m%dT%H%M%S"))
}

fn duration_text(style: &Style) -> String {
    let sign = ["", "-", "", "-", "", "+"][tape::pick(6)];
    let n = |max: u64| if tape::chance(1, 10) { tape::choose(1_000_000) } else { tape::choose(max) };
    if style.odd && tape::chance(1, 3) {
        let mut s = format!("{sign}P");
        for _ in 0..1 + tape::choose(4) {
            match tape::choose(8) {
                0 => s.push('T'),
                i => s.push_str(&format!("{}{}", n(60), ["W", "D", "T1H", "H", "M", "S", "Y"][i as usize - 1])),
            }
        }
        return s;
    }
    match tape::choose(6) {
        0 => format!("{sign}PT{}M", n(60)),
        1 => format!("{sign}P{}W", n(5)),
        2 => format!("{sign}P{}DT{}H{}M{}S", n(40), n(24), n(60), n(60)),
        3 => format!("{sign}P{}D", n(400)),
        4 if style.strict => format!("{sign}PT{}H{}M", n(24), n(60)),
        4 => format!("{sign}PT{}H{}S", n(24), n(60)),
        _ => format!("{sign}PT{}S", n(100_000)),
    }
}

fn param_text(exotic: u64) -> String {
    if tape::choose(100) < exotic {
        return ["", "\"\""][tape::pick(2)].to_string();
    }
    let mut s = String::new();
    for _ in 0..1 + tape::choose(3) {
        if tape::choose(10) < exotic {
            s.push_str(["a;b", "x:y", "c,d", "é", "漢字", "mailto:a@b.c", " ", "=", "'", "a long value to fold the line with it", "\t"][tape::pick(11)]);
        } else {
            s.push_str(["REQ-PARTICIPANT", "v", "Europe/Paris", "TRUE", "John Smith"][tape::pick(5)]);
        }
    }
    if s.contains([':', ';', ',']) || tape::chance(1, 4) { format!("\"{s}\"") } else { s }
}

pub const PARAMS: &[&str] = &["CN", "ROLE", "X-P", "LANGUAGE", "ALTREP", "FMTTYPE", "RSVP", "X-Q-1"];

fn params_text(style: &Style) -> String {
    let mut s = String::new();
    if style.params == 0 {
        return s;
    }
    let mut n = tape::choose(style.params) as usize;
    if tape::chance(1, 2) {
        n = 0;
    }
    if style.crowd == Crowd::Params && tape::chance(1, 3) {
        n = PARAMS.len();
    }
    let start = tape::pick(PARAMS.len());
    for i in 0..n {
        s.push_str(&format!(";{}={}", PARAMS[(start + i) % PARAMS.len()], param_text(style.exotic)));
    }
    s
}

fn uri_text(exotic: u64) -> String {
    let mut s = ["mailto:jane@example.com", "http://example.org/a?b=1,2;c=3", "cid:part\\1", "urn:x", ""][tape::pick(5)].to_string();
    if tape::choose(12) < exotic {
        s.push_str(["#é漢🎉", "?x=a\\,b\\;c", " ", "\\n", ":", "\\"][tape::pick(6)]);
    }
    s
}

pub fn rule_text(style: &Style) -> String {
    let mut parts = Vec::new();
    if tape::chance(1, 3) {
        parts.push(format!("COUNT={}", if tape::chance(1, 5) { tape::choose(256) } else { tape::choose(12) }));
    }
    if !(style.strict && !parts.is_empty()) && tape::chance(1, 3) {
        parts.push(format!("UNTIL={}", if tape::chance(1, 2) { date_time_text(style) } else { date().format("%Y%m%d").to_string() }));
    }
    if tape::chance(1, 2) {
        let n = if tape::chance(1, 5) { tape::choose(256) } else { tape::choose(4) };
        parts.push(format!("INTERVAL={}", if style.strict { n.max(1) } else { n }));
    }
    for name in BY {
        if !tape::chance(1, 12) {
            continue;
        }
        let list = style.list(|| {
            if name == "BYDAY" {
                let day = ["MO", "TU", "WE", "TH", "FR", "SA", "SU"][tape::pick(7)];
                match tape::choose(3) {
                    0 => day.to_string(),
                    1 => format!("{}{day}", 1 + tape::choose(if style.odd { 127 } else { 53 })),
                    _ => format!("-{}{day}", 1 + tape::choose(if style.odd { 128 } else { 53 })),
                }
            } else if style.strict || tape::chance(1, 2) {
                let (least, most) = match name {
                    "BYSECOND" => (0, 60),
                    "BYMINUTE" => (0, 59),
                    "BYHOUR" => (0, 23),
                    "BYMONTH" => (1, 12),
                    "BYMONTHDAY" => (1, 31),
                    "BYWEEKNO" => (1, 53),
                    _ => (1, 127),
                };
                let n = if tape::chance(1, 4) { [least, most][tape::pick(2)] } else { tape::range(least, most) };
                let sign = if !matches!(name, "BYSECOND" | "BYMINUTE" | "BYHOUR" | "BYMONTH") && tape::chance(1, 3) { -1 } else { 1 };
                (sign * n).to_string()
            } else {
                (tape::range(0, 126) - if tape::chance(1, 3) { 127 } else { 0 }).to_string()
            }
        });
        parts.push(format!("{name}={}", list.join(",")));
    }
    if tape::chance(1, 8) {
        parts.push(format!("WKST={}", ["SU", "MO", "SA"][tape::pick(3)]));
    }
    let freq = ["DAILY", "WEEKLY", "MONTHLY", "YEARLY", "HOURLY", "MINUTELY", "SECONDLY"][tape::pick(7)];
    let at = if tape::chance(1, 4) { tape::pick(parts.len() + 1) } else { 0 };
    parts.insert(at, format!("FREQ={freq}"));
    parts.join(";")
}

fn float_text(max: u64) -> String {
    let sign = if tape::chance(1, 3) { "-" } else { "" };
    match tape::choose(4) {
        3 => format!("{sign}0.{}{}", "0".repeat(tape::pick(9)), 1 + tape::choose(9_999)),
        0 => format!("{sign}{}", tape::choose(max)),
        1 => format!("{sign}{}.{}", tape::choose(max), tape::choose(100)),
        _ => format!("{sign}{}.{:06}", tape::choose(max), tape::choose(1_000_000)),
    }
}

fn period_text(style: &Style) -> String {
    let start = date_time_text(style);
    if tape::chance(1, 2) {
        format!("{start}/{}", duration_text(style).trim_start_matches('-'))
    } else {
        format!("{start}/{}", date_time_text(style))
    }
}

/// What was generated in this run.
static mut USED: Vec<(Type, String, String)> = Vec::new();

#[allow(static_mut_refs)]
fn used() -> &'static mut Vec<(Type, String, String)> {
    unsafe { &mut USED }
}

/// At the start of a run.
pub fn forget() {
    used().clear();
}

/// Nearly the same value, still well-formed.
fn nearly(ty: Type, value: &str) -> String {
    let flip = |s: &str, at: usize| {
        s.chars().enumerate().map(|(i, c)| if i != at { c } else if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect()
    };
    match ty {
        Type::Offset => match value.strip_prefix('+') {
            Some(x) if x.bytes().any(|c| c != b'0') => format!("-{x}"),
            _ => format!("+{}", &value[1..]),
        },
        // No escape changes: what follows a backslash is left as it is.
        Type::Text | Type::TextList | Type::Uri | Type::Raw if !value.contains('\\') => match tape::choose(4) {
            0 => flip(value, tape::pick(value.len() + 1)),
            1 => format!("{value} "),
            2 => format!("{value}1"),
            _ => value.chars().rev().collect(),
        },
        Type::Class => flip(value, tape::pick(value.len() + 1)),
        Type::Duration | Type::Trigger if value.contains('P') => match value.strip_prefix('-') {
            Some(x) => x.to_string(),
            None => format!("-{}", value.trim_start_matches('+')),
        },
        Type::Geo => {
            let (lat, lon) = value.split_once(';').unwrap_or(("0", "0"));
            if tape::chance(1, 2) { format!("{lon};{lat}") } else { format!("{}{lat};{lon}", if lat.starts_with('-') { "" } else { "-" }) }
        }
        _ => value.to_string(),
    }
}

/// The parameters and the value of a property, as another producer may write them: new ones, those
/// of an earlier property, or nearly.
pub fn value_text(ty: Type, style: &Style) -> (String, String) {
    let like = |x: &&(Type, String, String)| x.0 == ty;
    if used().iter().any(|x| like(&x)) && tape::chance(1, 5) {
        let earlier: Vec<_> = used().iter().filter(like).collect();
        let (_, params, value) = *tape::of(&earlier);
        let value = if tape::chance(1, 2) { nearly(ty, value) } else { value.clone() };
        let params = match ty {
            Type::Text | Type::TextList | Type::Uri | Type::Raw if tape::chance(1, 3) => params_text(style),
            _ => params.clone(),
        };
        return (params, value);
    }
    let (params, value) = new_value_text(ty, style);
    if value.len() < 300 {
        used().push((ty, params.clone(), value.clone()));
    }
    (params, value)
}

fn new_value_text(ty: Type, style: &Style) -> (String, String) {
    let date_text = || if tape::chance(1, 2) { date_time_text(style) } else { date().format("%Y%m%d").to_string() };
    let list = |f: &dyn Fn() -> String| style.list(f).join(",");
    let u8_text = |max| if tape::chance(1, 6) { format!("0{}", tape::choose(max)) } else { tape::choose(max).to_string() };

    match ty {
        Type::Text => (params_text(style), escaped(&words(style.exotic))),
        Type::TextList => (params_text(style), list(&|| escaped(&words(style.exotic)))),
        Type::Uri => (params_text(style), uri_text(style.exotic)),
        Type::Raw => {
            let value = if tape::chance(1, 2) { escaped(&words(style.exotic)) } else { words(style.exotic).replace('\n', "|") };
            (params_text(style), value)
        }
        Type::DateTime => (String::new(), date_time_text(style)),
        Type::Date => {
            let text = date_text();
            let params = match (text.len(), tape::choose(3)) {
                (8, 0..=1) => ";VALUE=DATE",
                (15, 0) => ";TZID=Europe/Paris",
                (_, 2) if text.len() > 8 => ";VALUE=DATE-TIME",
                _ => "",
            };
            (params.to_string(), text)
        }
        Type::DateList => match tape::choose(4) {
            0 => (";VALUE=DATE".to_string(), list(&|| date().format("%Y%m%d").to_string())),
            1 => (";TZID=Europe/Paris".to_string(), list(&|| naive().format("%Y%m%dT%H%M%S").to_string())),
            _ => (String::new(), list(&date_text)),
        },
        Type::Duration => (String::new(), duration_text(style)),
        Type::U8 => (String::new(), u8_text(101)),
        Type::Priority => (String::new(), u8_text(10)),
        Type::U32 => (
            String::new(),
            if tape::chance(1, 4) { tape::choose(1 << 32).to_string() } else { tape::choose(10).to_string() },
        ),
        Type::Class => {
            let class = ["PUBLIC", "PRIVATE", "CONFIDENTIAL", "X-CUSTOM", "public", "Other Class"][tape::pick(6)];
            (String::new(), class.to_string())
        }
        Type::Status => (
            String::new(),
            ["TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL"][tape::pick(8)]
                .to_string(),
        ),
        Type::Transp => (String::new(), ["OPAQUE", "TRANSPARENT"][tape::pick(2)].to_string()),
        Type::Geo => (String::new(), format!("{};{}", float_text(90), float_text(180))),
        Type::Rule => (String::new(), rule_text(style)),
        Type::RequestStatus => {
            let mut s = format!("{}.{};{}", 1 + tape::choose(4), tape::choose(11), escaped(&words(style.exotic)));
            if tape::chance(1, 2) {
                s.push(';');
                s.push_str(&escaped(&words(style.exotic)));
            }
            (String::new(), s)
        }
        Type::RDate => match tape::choose(3) {
            0 => (";VALUE=DATE".to_string(), list(&|| date().format("%Y%m%d").to_string())),
            1 if tape::chance(1, 3) => {
                (";TZID=Europe/Paris".to_string(), list(&|| naive().format("%Y%m%dT%H%M%S").to_string()))
            }
            1 => (String::new(), list(&|| date_time_text(style))),
            _ => (";VALUE=PERIOD".to_string(), list(&|| period_text(style))),
        },
        Type::Periods => (
            if tape::chance(1, 3) { ";FBTYPE=BUSY".to_string() } else { String::new() },
            list(&|| period_text(style)),
        ),
        Type::Offset => {
            let sign = ["+", "-"][tape::pick(2)];
            let s = format!("{sign}{:02}{:02}", tape::choose(15), tape::choose(60));
            let seconds = if style.seconds && tape::chance(1, 8) { format!("{:02}", tape::choose(60)) } else { String::new() };
            (String::new(), s + &seconds)
        }
        Type::Trigger => {
            if tape::chance(1, 3) {
                (";VALUE=DATE-TIME".to_string(), date_time_text(style))
            } else {
                (if tape::chance(1, 3) { ";RELATED=END" } else { "" }.to_string(), duration_text(style))
            }
        }
    }
}

pub fn line(name: &str, ty: Type, style: &Style) -> String {
    let (params, value) = value_text(ty, style);
    format!("{name}{params}:{value}")
}

const EXTENSIONS: &[&str] = &["X-WR-CALNAME", "X-FOO", "X-A-1", "NON-STANDARD", "COLOR", "IMAGE", "X-", "RECURRENCE-ID", "REQUEST-STATUS"];

/// A well-formed component.
pub fn generate(kind: &str, style: &Style) -> Lines {
    let rows = if kind == "VALARM" { table(["DISPLAY", "AUDIO", "EMAIL"][tape::pick(3)]) } else { table(kind) };
    let action = match rows.len() {
        _ if kind != "VALARM" => None,
        5 if rows[2].0 == "DESCRIPTION" => Some("DISPLAY"),
        5 => Some("AUDIO"),
        _ => Some("EMAIL"),
    };
    let mut lines = Vec::new();

    for (name, ty, card) in rows {
        match card {
            One if *name == "ACTION" => {
                let action = action.unwrap_or(if matches!(kind, "AUDIO" | "DISPLAY" | "EMAIL") { kind } else { "AUDIO" });
                lines.push(format!("ACTION:{action}"));
            }
            One => lines.push(line(name, *ty, style)),
            Opt if tape::choose(10) < style.density => lines.push(line(name, *ty, style)),
            Many if tape::choose(10) < style.density => {
                for _ in 0..style.lines() {
                    lines.push(line(name, *ty, style));
                }
            }
            _ => (),
        }
    }
    for _ in 0..tape::choose(style.extensions + 1) {
        let name = tape::of(EXTENSIONS);
        lines.push(line(name, Type::Raw, style));
    }
    // In any order.
    if tape::chance(1, 2) {
        for i in (1..lines.len()).rev() {
            lines.swap(i, i - tape::pick(i + 1));
        }
    }

    let mut parts = Vec::new();
    let kinds = children(kind);
    if !kinds.is_empty() {
        let (n, style) = style.children();
        for _ in 0..n {
            parts.push(generate(tape::of(kinds), &style));
        }
    }

    Lines { kind: kind.to_string(), lines, children: parts }
}

/// Renders lines, folded at random places.
pub fn render(lines: &[String], fold: u64) -> String {
    let mut s = String::new();
    for line in lines {
        s.push_str(&if fold == 0 { line.clone() } else { refold(line, fold) });
        s.push_str("\r\n");
    }
    s
}

/// Folds a line between any two characters.
pub fn refold(line: &str, fold: u64) -> String {
    let mut s = String::new();
    let mut len = 0;
    for (i, c) in line.chars().enumerate() {
        let must = len + c.len_utf8() > 75;
        if i > 0 && (must || tape::choose(200) >= 200 - fold) {
            s.push_str(if tape::chance(1, 4) { "\r\n\t" } else { "\r\n " });
            len = 1;
        }
        s.push(c);
        len += c.len_utf8();
    }
    s
}

// --- reading ---------------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub enum Scan {
    Document(Node),
    /// A reader must refuse it.
    Rejected(String),
    /// The standard, or what is specified of ikal, does not say.
    Unknown(String),
}

enum Stop {
    Reject(String),
    Unknown(String),
}

type Read<T> = Result<T, Stop>;

fn reject<T>(s: impl Into<String>) -> Read<T> {
    Err(Stop::Reject(s.into()))
}

fn unknown<T>(s: impl Into<String>) -> Read<T> {
    Err(Stop::Unknown(s.into()))
}

fn digits(s: &str) -> bool {
    !s.is_empty() && s.bytes().all(|b| b.is_ascii_digit())
}

fn read_date(s: &str) -> Read<NaiveDate> {
    if s.len() != 8 || !digits(s) {
        return reject(format!("date {s:?}"));
    }
    let (y, m, d) = (s[..4].parse().unwrap(), s[4..6].parse().unwrap(), s[6..].parse().unwrap());
    if y == 0 {
        return unknown("year 0");
    }
    NaiveDate::from_ymd_opt(y, m, d).ok_or_else(|| Stop::Reject(format!("date {s:?}")))
}

fn read_date_time(s: &str) -> Read<String> {
    let (text, utc) = s.strip_suffix('Z').map_or((s, false), |s| (s, true));
    if !text.is_ascii() || text.len() != 15 || text.as_bytes()[8] != b'T' || !digits(&text[9..]) {
        return reject(format!("date-time {s:?}"));
    }
    let date = read_date(&text[..8])?;
    let (h, m, s) = (text[9..11].parse().unwrap(), text[11..13].parse().unwrap(), text[13..].parse().unwrap());
    if s == 60 {
        let Some(time) = date.and_hms_opt(h, m, 59) else {
            return reject(format!("date-time {text:?}"));
        };
        // The standard has them in UTC only, at the end of a day.
        return if utc && (h, m) == (23, 59) { Ok(model::local(time.and_utc().timestamp(), 1_000_000_000)) } else { unknown("leap second") };
    }
    let Some(time) = date.and_hms_opt(h, m, s) else {
        return reject(format!("date-time {text:?}"));
    };
    Ok(if utc { model::local(time.and_utc().timestamp(), 0) } else { model::naive(time) })
}

fn read_any_date(s: &str) -> Read<String> {
    if s.len() == 8 && digits(s) { read_date(s).map(model::date) } else { read_date_time(s) }
}

fn read_duration(s: &str) -> Read<String> {
    let (sign, rest) = s.strip_prefix('-').map_or((1, s.strip_prefix('+').unwrap_or(s)), |s| (-1, s));
    let Some(mut rest) = rest.strip_prefix('P') else {
        return reject(format!("duration {s:?}"));
    };
    let mut total: i128 = 0;
    let mut parts = 0;
    let mut take = |rest: &mut &str, unit: char, seconds: i128| -> Read<()> {
        let n = rest.bytes().take_while(u8::is_ascii_digit).count();
        if n > 0 && rest[n..].starts_with(unit) {
            if n > 12 {
                return unknown("huge duration");
            }
            total += rest[..n].parse::<i128>().unwrap() * seconds;
            parts += 1;
            *rest = &rest[n + 1..];
        }
        Ok(())
    };
    take(&mut rest, 'W', 604_800)?;
    take(&mut rest, 'D', 86_400)?;
    let time = rest.starts_with('T');
    if time {
        rest = &rest[1..];
        take(&mut rest, 'H', 3_600)?;
        take(&mut rest, 'M', 60)?;
        take(&mut rest, 'S', 1)?;
    }
    if !rest.is_empty() {
        return reject(format!("duration {s:?}"));
    }
    if parts == 0 || total > 1_000_000_000_000 {
        return unknown("odd duration");
    }
    Ok(format!("{} s", sign * total))
}

fn read_int(s: &str, max: u64) -> Read<String> {
    if digits(s) {
        return match s.trim_start_matches('0').parse::<u64>() {
            Ok(n) if n <= max => Ok(n.to_string()),
            Err(_) if s.trim_start_matches('0').is_empty() => Ok("0".to_string()),
            _ => reject(format!("integer {s:?}")),
        };
    }
    if s.starts_with('+') {
        return unknown("signed integer");
    }
    reject(format!("integer {s:?}"))
}

fn read_float(s: &str) -> Read<String> {
    let text = s.strip_prefix('-').unwrap_or(s);
    let (int, frac) = text.split_once('.').unwrap_or((text, "0"));
    if digits(int) && digits(frac) && text.len() < 30 {
        return Ok(model::float(s.parse().unwrap()));
    }
    unknown(format!("number {s:?}"))
}

/// Splits on a separator that is not escaped.
fn split(s: &str, separator: char) -> Vec<String> {
    let mut parts = vec![String::new()];
    let mut chars = s.chars();
    while let Some(c) = chars.next() {
        if c == separator {
            parts.push(String::new());
        } else {
            let last = parts.last_mut().unwrap();
            last.push(c);
            if c == '\\' {
                last.extend(chars.next());
            }
        }
    }
    parts
}

fn read_rule(s: &str) -> Read<String> {
    let mut parts = BTreeMap::new();
    for part in s.strip_suffix(';').unwrap_or(s).split(';') {
        let Some((key, value)) = part.split_once('=') else {
            return reject(format!("rule part {part:?}"));
        };
        if !key.chars().all(|c| c.is_ascii_alphanumeric() || c == '-' || c == '/') {
            return reject(format!("rule part {part:?}"));
        }
        parts.insert(key, value);
    }

    let day = |s: &str| ["SU", "MO", "TU", "WE", "TH", "FR", "SA"].contains(&s);
    let mut rule = Rule { interval: 1, ..Rule::default() };
    match parts.get("FREQ").copied() {
        Some(f @ ("SECONDLY" | "MINUTELY" | "HOURLY" | "DAILY" | "WEEKLY" | "MONTHLY" | "YEARLY")) => rule.freq = f.to_string(),
        _ => return reject(format!("frequency in {s:?}")),
    }
    if let Some(x) = parts.get("UNTIL") {
        rule.until = Some(read_any_date(x)?);
    }
    if let Some(x) = parts.get("COUNT") {
        rule.count = Some(read_int(x, 255)?.parse().unwrap());
    }
    if let Some(x) = parts.get("INTERVAL") {
        rule.interval = read_int(x, 255)?.parse().unwrap();
    }
    for (i, name) in BY.iter().enumerate() {
        let Some(list) = parts.get(name) else {
            continue;
        };
        for x in list.split(',') {
            let (number, weekday) = if *name == "BYDAY" {
                let Some(at) = x.len().checked_sub(2).filter(|at| x.is_char_boundary(*at)) else {
                    return reject(format!("weekday {x:?}"));
                };
                if !day(&x[at..]) {
                    return reject(format!("weekday {x:?}"));
                }
                (&x[..at], &x[at..])
            } else {
                (x, "")
            };
            let number = match number.parse::<i8>() {
                Ok(n) => n.to_string(),
                Err(_) if number.is_empty() && !weekday.is_empty() => String::new(),
                Err(_) => return reject(format!("{name} {x:?}")),
            };
            rule.by[i].push(format!("{number}{weekday}"));
        }
    }
    if let Some(x) = parts.get("WKST") {
        if !day(x) {
            return reject(format!("weekday {x:?}"));
        }
        rule.wkst = Some((*x).to_string());
    }
    Ok(rule.text())
}

fn read_period(s: &str) -> Read<String> {
    let Some((start, end)) = s.split_once('/') else {
        return reject(format!("period {s:?}"));
    };
    let start = read_date_time(start)?;
    if end.starts_with(['P', '+']) {
        Ok(format!("{start} for {}", read_duration(end)?))
    } else {
        Ok(format!("{start} to {}", read_date_time(end)?))
    }
}

fn read_request_status(s: &str) -> Read<String> {
    let Some((code, rest)) = s.split_once(';') else {
        return reject(format!("request status {s:?}"));
    };
    let code = read_float(code)?;
    let text = split(rest, ';')[0].clone();
    let mut out = format!("{code} {:?}", model::unescape(&text));
    if let Some(data) = rest[text.len()..].strip_prefix(';') {
        out.push_str(&format!(" {:?}", model::unescape(data)));
    }
    Ok(out)
}

fn read_offset(s: &str) -> Read<String> {
    let text = s.strip_prefix(['+', '-']).unwrap_or("");
    if !matches!(text.len(), 4 | 6) || !digits(text) {
        return reject(format!("offset {s:?}"));
    }
    let n = |r: std::ops::Range<usize>| text.get(r).map_or(0, |x| x.parse::<i32>().unwrap());
    if n(2..4) > 59 {
        return reject(format!("offset {s:?}"));
    }
    if n(0..2) > 23 || n(4..6) > 59 {
        return unknown("offset of more than a day");
    }
    let seconds = 3_600 * n(0..2) + 60 * n(2..4) + n(4..6);
    Ok(format!("offset {}", if s.starts_with('-') { -seconds } else { seconds }))
}

/// The canonical values of a property.
fn read_value(ty: Type, params: &BTreeMap<String, String>, s: &str) -> Read<Vec<String>> {
    let one = |x: Read<String>| x.map(|x| vec![x]);
    let keyword = |words: &[&str]| if words.contains(&s) { Ok(s.to_string()) } else { reject(format!("keyword {s:?}")) };

    match ty {
        Type::Text => Ok(vec![model::unescape(s)]),
        Type::TextList => Ok(split(s, ',').iter().map(|x| model::unescape(x)).collect()),
        Type::Uri | Type::Raw => Ok(vec![s.to_string()]),
        Type::DateTime => one(read_date_time(s)),
        Type::Date => one(read_any_date(s)),
        Type::DateList => s.split(',').map(read_any_date).collect(),
        Type::Duration => one(read_duration(s)),
        Type::U8 => one(read_int(s, 255)),
        Type::Priority => one(read_int(s, 9)),
        Type::U32 => one(read_int(s, u64::from(u32::MAX))),
        Type::Class => Ok(vec![s.to_uppercase()]),
        Type::Status => one(keyword(&[
            "TENTATIVE", "CONFIRMED", "CANCELLED", "NEEDS-ACTION", "COMPLETED", "IN-PROCESS", "DRAFT", "FINAL",
        ])),
        Type::Transp => one(keyword(&["OPAQUE", "TRANSPARENT"])),
        Type::Geo => {
            let Some((lat, lon)) = s.split_once(';') else {
                return reject(format!("position {s:?}"));
            };
            Ok(vec![format!("{} {}", read_float(lat)?, read_float(lon)?)])
        }
        Type::Rule => one(read_rule(s)),
        Type::RequestStatus => one(read_request_status(s)),
        Type::RDate => {
            let read = if params.get("VALUE").is_some_and(|x| x == "PERIOD") { read_period } else { read_any_date };
            let list: Vec<String> = s.split(',').map(read).collect::<Read<_>>()?;
            Ok(vec![list.join(", ")])
        }
        Type::Periods => s.split(',').map(read_period).collect(),
        Type::Offset => one(read_offset(s)),
        Type::Trigger => {
            if s.trim_start_matches(['-', '+']).starts_with('P') {
                one(read_duration(s))
            } else {
                one(read_date_time(s))
            }
        }
    }
}

pub struct Line {
    pub name: String,
    pub params: BTreeMap<String, String>,
    pub value: String,
}

/// `name *(";" param) ":" value`
fn read_line(s: &str) -> Read<Line> {
    let is_key = |c: char| c.is_ascii_alphanumeric() || c == '-' || c == '/';
    let end = s.find(|c| !is_key(c)).unwrap_or(s.len());
    let name = s[..end].to_string();
    let mut rest = &s[end..];
    let mut params = BTreeMap::new();

    while let Some(param) = rest.strip_prefix(';') {
        let Some(at) = param.find(|c| !is_key(c)) else {
            return reject(format!("parameter in {s:?}"));
        };
        let key = &param[..at];
        let Some(value) = param[at..].strip_prefix('=') else {
            return reject(format!("parameter in {s:?}"));
        };
        let (value, after) = if let Some(quoted) = value.strip_prefix('"') {
            let Some(end) = quoted.find('"') else {
                return unknown("quote not closed");
            };
            if !quoted[end + 1..].starts_with([';', ':']) {
                return reject(format!("text after a quote in {s:?}"));
            }
            (&quoted[..end], &quoted[end + 1..])
        } else {
            let end = value.find([';', ':']).unwrap_or(value.len());
            (&value[..end], &value[end..])
        };
        params.insert(key.to_string(), value.to_string());
        rest = after;
    }

    match rest.strip_prefix(':') {
        Some(value) => Ok(Line { name, params, value: value.to_string() }),
        None => reject(format!("no value in {s:?}")),
    }
}

/// The name, the parameters and the value of a line.
pub fn line_parts(s: &str) -> Result<(String, Vec<(String, String)>, String), ()> {
    read_line(s).map(|x| (x.name, x.params.into_iter().collect(), x.value)).map_err(|_| ())
}

/// How many lines have a parameter that is not kept, because the type of their value has no room
/// for it.
pub fn lost_params(text: &str) -> usize {
    let names = ["DTSTART", "DTEND", "DUE", "RECURID", "EXDATE", "RDATE", "TRIGGER", "FREEBUSY"];
    unfold(text)
        .iter()
        .filter_map(|x| read_line(x).ok())
        .filter(|x| names.contains(&x.name.as_str()) && x.params.keys().any(|x| x != "VALUE"))
        .count()
}

/// The logical lines of a document, and whether the last one is complete.
pub fn unfold(s: &str) -> Vec<String> {
    let mut lines: Vec<String> = Vec::new();
    for line in s.split("\r\n") {
        match (lines.last_mut(), line.strip_prefix([' ', '\t'])) {
            (Some(last), Some(rest)) => last.push_str(rest),
            _ => lines.push(line.to_string()),
        }
    }
    lines
}

fn read_component(lines: &mut std::slice::Iter<String>, kind: &str) -> Read<Node> {
    let mut node = Node::new(kind);
    let mut found: Vec<Line> = Vec::new();

    let end = loop {
        let Some(line) = lines.clone().next() else {
            return reject(format!("{kind} is not closed"));
        };
        if line.contains(['\r', '\n']) {
            return unknown("bare line ending");
        }
        if line.starts_with("BEGIN:") || line.starts_with("END:") {
            break line;
        }
        found.push(read_line(line)?);
        lines.next();
    };

    let mut end = end;
    while let Some(child) = end.strip_prefix("BEGIN:") {
        if !children(kind).contains(&child) {
            return reject(format!("{child} in {kind}"));
        }
        lines.next();
        node.children.push(read_component(lines, child)?);
        let Some(line) = lines.clone().next() else {
            return reject(format!("{kind} is not closed"));
        };
        end = line;
    }

    // A calendar ends at its name, whatever follows.
    let name = end.strip_prefix("END:");
    if kind == "VCALENDAR" && name.is_some_and(|x| x != kind && x.starts_with(kind)) {
        return unknown("text after the end of a calendar");
    }
    if name != Some(kind) {
        return reject(format!("{end:?} in {kind}"));
    }
    lines.next();

    let rows = if kind == "VALARM" {
        match found.iter().rfind(|x| x.name == "ACTION").map(|x| x.value.as_str()) {
            Some(action @ ("AUDIO" | "DISPLAY" | "EMAIL")) => table(action),
            action => return reject(format!("action {action:?}")),
        }
    } else {
        table(kind)
    };

    for (name, _, card) in rows {
        if *card == One && !found.iter().any(|x| x.name == *name) {
            return reject(format!("no {name} in {kind}"));
        }
    }
    let mut unknowns = None;
    for (i, line) in found.iter().enumerate() {
        let row = rows.iter().find(|x| x.0 == line.name);
        let (ty, card) = row.map_or((Type::Raw, Opt), |x| (x.1, x.2));
        let values = match read_value(ty, &line.params, &line.value) {
            Ok(values) => values,
            Err(Stop::Reject(e)) => return reject(e),
            Err(Stop::Unknown(e)) => {
                unknowns = Some(e);
                vec![ANY.to_string()]
            }
        };
        if card != Many && found[i + 1..].iter().any(|x| x.name == line.name) {
            continue;
        }
        let params = match ty {
            Type::Text | Type::TextList | Type::Uri | Type::Raw => model::params(&line.params),
            _ => Vec::new(),
        };
        for value in values {
            node.props.push(Prop { name: line.name.clone(), params: params.clone(), value });
        }
    }
    // An unknown value may be one that is refused.
    match unknowns {
        Some(e) => unknown(e),
        None => Ok(node),
    }
}

/// Reads a document as the standard says, and as ikal specifies where it does not.
pub fn scan(kind: &str, text: &str) -> Scan {
    let lines = unfold(text);
    let mut iter = lines.iter();
    let begin = iter.next().map(String::as_str).unwrap_or_default();
    if begin != format!("BEGIN:{kind}") {
        return Scan::Rejected(format!("begins with {begin:?}"));
    }
    let result = read_component(&mut iter, kind);
    // The line that ends the document must itself be ended.
    if result.is_ok() && iter.next().is_none() {
        if kind == "VCALENDAR" {
            return Scan::Unknown("end of the calendar not ended".to_string());
        }
        return Scan::Rejected("the last line is not ended".to_string());
    }
    match result {
        Ok(node) => Scan::Document(node.sorted()),
        Err(Stop::Reject(e)) => Scan::Rejected(e),
        Err(Stop::Unknown(e)) => Scan::Unknown(e),
    }
}
