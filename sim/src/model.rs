//! The reference model of a document: a tree of components, each with its properties, whose values
//! are in a canonical form that two values share when they mean the same.

use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub struct Prop {
    pub name: String,
    pub params: Vec<(String, String)>,
    pub value: String,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub kind: String,
    pub props: Vec<Prop>,
    pub children: Vec<Node>,
}

/// A value nothing is known about.
pub const ANY: &str = "\u{1}any";

impl Node {
    pub fn new(kind: &str) -> Self {
        Self { kind: kind.to_string(), props: Vec::new(), children: Vec::new() }
    }

    /// Properties are compared in document order only among those of the same name, and components
    /// only among those of the same kind.
    pub fn sorted(mut self) -> Self {
        self.props.sort_by(|a, b| a.name.cmp(&b.name));
        self.children.sort_by(|a, b| a.kind.cmp(&b.kind));
        self.children = self.children.into_iter().map(Node::sorted).collect();
        self
    }

    pub fn size(&self) -> usize {
        1 + self.props.len() + self.children.iter().map(Node::size).sum::<usize>()
    }

    pub fn text(&self) -> String {
        let mut s = format!("({}", self.kind);
        for p in &self.props {
            s.push_str(&format!(" {}", prop(p)));
        }
        for c in &self.children {
            s.push(' ');
            s.push_str(&c.text());
        }
        s.push(')');
        s
    }
}

fn prop(p: &Prop) -> String {
    let mut s = p.name.clone();
    for (k, v) in &p.params {
        s.push_str(&format!(";{k}={v:?}"));
    }
    format!("{s}={:?}", p.value)
}

/// Quotes and line breaks cannot be written in a parameter: what they become is not specified.
fn wild(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, '"' | '\'' | '\r' | '\n' | ' ')).collect()
}

fn same_params(expected: &[(String, String)], actual: &[(String, String)]) -> bool {
    expected.len() == actual.len()
        && expected.iter().zip(actual).all(|(e, a)| {
            e.0 == a.0 && (e.1 == a.1 || (e.1.contains(['"', '\r', '\n']) && wild(&e.1) == wild(&a.1)))
        })
}

/// The first difference between two documents. The kinds of difference are stable names.
pub fn diff(expected: &Node, actual: &Node) -> Option<(&'static str, String)> {
    if expected.kind != actual.kind {
        return Some(("component kind", format!("{} became {}", expected.kind, actual.kind)));
    }

    let names = |n: &Node| n.props.iter().map(|p| p.name.clone()).collect::<Vec<_>>();
    if names(expected) != names(actual) {
        let (e, a) = (names(expected), names(actual));
        let lost: Vec<_> = count_diff(&e, &a);
        let new: Vec<_> = count_diff(&a, &e);
        return Some(("properties", format!("in {}: lost {lost:?}, appeared {new:?}", expected.kind)));
    }
    for (e, a) in expected.props.iter().zip(&actual.props) {
        if e.value != a.value && e.value != ANY && a.value != ANY {
            return Some(("value", format!("in {}: {} became {}", expected.kind, prop(e), prop(a))));
        }
        if e.value != ANY && a.value != ANY && !same_params(&e.params, &a.params) {
            return Some(("parameters", format!("in {}: {} became {}", expected.kind, prop(e), prop(a))));
        }
    }

    let kinds = |n: &Node| n.children.iter().map(|p| p.kind.clone()).collect::<Vec<_>>();
    if kinds(expected) != kinds(actual) {
        return Some(("components", format!("in {}: {:?} became {:?}", expected.kind, kinds(expected), kinds(actual))));
    }
    expected.children.iter().zip(&actual.children).find_map(|(e, a)| diff(e, a))
}

fn count_diff(a: &[String], b: &[String]) -> Vec<String> {
    let mut left = b.to_vec();
    a.iter()
        .filter(|x| match left.iter().position(|y| y == *x) {
            Some(i) => {
                left.swap_remove(i);
                false
            }
            None => true,
        })
        .cloned()
        .collect()
}

// --- canonical values ------------------------------------------------------------------------

/// What a text means: its escapes undone.
pub fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut chars = s.chars().peekable();
    while let Some(c) = chars.next() {
        match c {
            '\\' => match chars.next_if(|x| matches!(x, '\\' | ';' | ',' | 'n' | 'N')) {
                Some('n' | 'N') => out.push('\n'),
                Some(x) => out.push(x),
                None => out.push('\\'),
            },
            '\r' => {
                chars.next_if_eq(&'\n');
                out.push('\n');
            }
            c => out.push(c),
        }
    }
    out
}

/// Line breaks in values that are not texts become `\n`: they cannot be written.
pub fn raw(s: &str) -> String {
    s.replace("\r\n", "\\n").replace(['\r', '\n'], "\\n")
}

pub fn params(p: &BTreeMap<String, String>) -> Vec<(String, String)> {
    p.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
}

pub fn local(t: i64, nanos: u32) -> String {
    if nanos == 0 { format!("instant {t}") } else { format!("instant {t}.{nanos}") }
}

pub fn naive(d: chrono::NaiveDateTime) -> String {
    format!("floating {}", d.format("%Y-%m-%dT%H:%M:%S%.f"))
}

pub fn date(d: chrono::NaiveDate) -> String {
    format!("date {}", d.format("%Y-%m-%d"))
}

pub trait Canon {
    fn canon(&self) -> (Vec<(String, String)>, String);
}

fn plain(s: String) -> (Vec<(String, String)>, String) {
    (Vec::new(), s)
}

impl Canon for ikal::Text {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        (params(&self.params), unescape(&self.text))
    }
}

impl Canon for ikal::Uri {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        (params(&self.params), raw(&self.uri))
    }
}

pub fn date_time(d: &ikal::DateTime) -> String {
    match d {
        ikal::DateTime::Naive(d) => naive(*d),
        ikal::DateTime::Local(d) => local(d.timestamp(), d.timestamp_subsec_nanos()),
    }
}

pub fn any_date(d: &ikal::Date) -> String {
    match d {
        ikal::Date::Date(d) => date(*d),
        ikal::Date::DateTime(d) => date_time(d),
    }
}

impl Canon for ikal::DateTime {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(date_time(self))
    }
}

impl Canon for ikal::Date {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(any_date(self))
    }
}

pub fn seconds(d: chrono::TimeDelta) -> String {
    match d.subsec_nanos() {
        0 => format!("{} s", d.num_seconds()),
        n => format!("{} s {n} ns", d.num_seconds()),
    }
}

impl Canon for chrono::TimeDelta {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(seconds(*self))
    }
}

impl Canon for u8 {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(self.to_string())
    }
}

impl Canon for u32 {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(self.to_string())
    }
}

impl Canon for ikal::Class {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(match self {
            ikal::Class::Public => "PUBLIC".to_string(),
            ikal::Class::Private => "PRIVATE".to_string(),
            ikal::Class::Confidential => "CONFIDENTIAL".to_string(),
            ikal::Class::Custom(s) => raw(s).to_uppercase(),
        })
    }
}

impl Canon for ikal::Status {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        use ikal::Status::*;
        plain(
            match self {
                Tentative => "TENTATIVE",
                Confirmed => "CONFIRMED",
                Cancelled => "CANCELLED",
                NeedsAction => "NEEDS-ACTION",
                Completed => "COMPLETED",
                InProcess => "IN-PROCESS",
                Draft => "DRAFT",
                Final => "FINAL",
            }
            .to_string(),
        )
    }
}

impl Canon for ikal::TimeTransparency {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(
            match self {
                ikal::TimeTransparency::Opaque => "OPAQUE",
                ikal::TimeTransparency::Transparent => "TRANSPARENT",
            }
            .to_string(),
        )
    }
}

pub fn float(x: f32) -> String {
    format!("{x:?}")
}

impl Canon for ikal::Geo {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(format!("{} {}", float(self.lat), float(self.lon)))
    }
}

pub fn freq(f: &ikal::Freq) -> &'static str {
    match f {
        ikal::Freq::Secondly => "SECONDLY",
        ikal::Freq::Minutely => "MINUTELY",
        ikal::Freq::Hourly => "HOURLY",
        ikal::Freq::Daily => "DAILY",
        ikal::Freq::Weekly => "WEEKLY",
        ikal::Freq::Monthly => "MONTHLY",
        ikal::Freq::Yearly => "YEARLY",
    }
}

fn weekday(d: &ikal::Weekday) -> &'static str {
    use ikal::Weekday::*;
    match d {
        Sunday => "SU",
        Monday => "MO",
        Tuesday => "TU",
        Wenesday => "WE",
        Thurday => "TH",
        Friday => "FR",
        Saturday => "SA",
    }
}

/// The parts of a rule, in one order.
#[derive(Clone, Debug, Default)]
pub struct Rule {
    pub freq: String,
    pub until: Option<String>,
    pub count: Option<u8>,
    pub interval: u8,
    pub by: [Vec<String>; 9],
    pub wkst: Option<String>,
}

pub const BY: [&str; 9] =
    ["BYSECOND", "BYMINUTE", "BYHOUR", "BYDAY", "BYMONTHDAY", "BYYEARDAY", "BYWEEKNO", "BYMONTH", "BYSETPOS"];

impl Rule {
    pub fn text(&self) -> String {
        let mut s = format!("{} every {}", self.freq, self.interval);
        if let Some(until) = &self.until {
            s.push_str(&format!(" until {until}"));
        }
        if let Some(count) = &self.count {
            s.push_str(&format!(" count {count}"));
        }
        for (name, list) in BY.iter().zip(&self.by) {
            if !list.is_empty() {
                s.push_str(&format!(" {name} {}", list.join(",")));
            }
        }
        if let Some(wkst) = &self.wkst {
            s.push_str(&format!(" week {wkst}"));
        }
        s
    }
}

pub fn rule(r: &ikal::Recur) -> Rule {
    let n = |v: &Vec<i8>| v.iter().map(ToString::to_string).collect::<Vec<_>>();
    let days = r
        .by_day
        .iter()
        .map(|d| format!("{}{}", d.ord.map(|x| x.to_string()).unwrap_or_default(), weekday(&d.weekday)))
        .collect();
    Rule {
        freq: freq(&r.freq).to_string(),
        until: r.until.as_ref().map(any_date),
        count: r.count,
        interval: r.interval,
        by: [
            n(&r.by_second),
            n(&r.by_minute),
            n(&r.by_hour),
            days,
            n(&r.by_monthday),
            n(&r.by_yearday),
            n(&r.by_weekno),
            n(&r.by_month),
            n(&r.by_setpos),
        ],
        wkst: r.wkst.as_ref().map(|x| weekday(x).to_string()),
    }
}

impl Canon for ikal::Recur {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(rule(self).text())
    }
}

pub fn period(p: &ikal::Period) -> String {
    match p {
        ikal::Period::StartEnd(p) => format!("{} to {}", date_time(&p.start), date_time(&p.end)),
        ikal::Period::StartDur(p) => format!("{} for {}", date_time(&p.start), seconds(p.duration)),
    }
}

impl Canon for ikal::Period {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(period(self))
    }
}

impl Canon for ikal::RDate {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(match self {
            ikal::RDate::Date(d) => d.iter().map(any_date).collect::<Vec<_>>().join(", "),
            ikal::RDate::Period(p) => p.iter().map(period).collect::<Vec<_>>().join(", "),
        })
    }
}

impl Canon for ikal::RequestStatus {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        let mut s = format!("{} {:?}", float(self.statcode), unescape(&self.statdesc));
        if let Some(data) = &self.extdata {
            s.push_str(&format!(" {:?}", unescape(data)));
        }
        plain(s)
    }
}

impl Canon for ikal::Trigger {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(match self {
            ikal::Trigger::DateTime(d) => date_time(d),
            ikal::Trigger::Duration(d) => seconds(*d),
        })
    }
}

impl Canon for chrono::FixedOffset {
    fn canon(&self) -> (Vec<(String, String)>, String) {
        plain(format!("offset {}", self.local_minus_utc()))
    }
}

// --- components ------------------------------------------------------------------------------

pub trait Component: Sized {
    fn node(&self) -> Node;
}

macro_rules! prop {
    ($node:ident, $self:ident, req, $field:ident) => {
        $crate::model::push(&mut $node, stringify!($field), &$self.$field)
    };
    ($node:ident, $self:ident, opt, $field:ident) => {
        if let Some(value) = &$self.$field {
            $crate::model::push(&mut $node, stringify!($field), value)
        }
    };
    ($node:ident, $self:ident, many, $field:ident) => {
        for value in &$self.$field {
            $crate::model::push(&mut $node, stringify!($field), value)
        }
    };
}

pub fn push<T: Canon>(node: &mut Node, field: &str, value: &T) {
    let (params, value) = value.canon();
    node.props.push(Prop { name: field.to_uppercase().replace('_', "-"), params, value });
}

/// Describes each component once: what to compare and what to generate.
#[macro_export]
macro_rules! components {
    ($mac:ident) => {
        $mac! { ikal::VEvent, "VEVENT",
            [req dtstamp, req uid, req dtstart, opt class, opt created, opt description, opt geo,
             opt last_modified, opt location, opt organizer, opt priority, opt sequence, opt status,
             opt summary, opt transp, opt url, opt recurid, opt rrule, opt dtend, opt duration,
             many attach, many attendee, many categories, many comment, many contact, many exdate,
             many rstatus, many related_to, many resources, many rdate],
            [alarms] }
        $mac! { ikal::VTodo, "VTODO",
            [req dtstamp, req uid, opt class, opt completed, opt created, opt dtstart, opt geo,
             opt last_modified, opt location, opt organizer, opt percent_complete, opt priority,
             opt recurid, opt sequence, opt status, opt summary, opt url, opt rrule, opt due,
             opt duration, many attach, many attendee, many categories, many comment, many contact,
             many exdate, many rstatus, many related_to, many resources, many rdate],
            [] }
        $mac! { ikal::VJournal, "VJOURNAL",
            [req dtstamp, req uid, opt class, opt created, req dtstart, opt last_modified,
             opt organizer, opt recurid, opt sequence, opt status, opt summary, opt url, opt rrule,
             many attach, many attendee, many categories, many comment, many contact,
             many description, many exdate, many related_to, many rdate, many rstatus],
            [] }
        $mac! { ikal::VFreebusy, "VFREEBUSY",
            [req dtstamp, req uid, opt contact, opt dtstart, opt dtend, opt organizer, opt url,
             many attendee, many comment, many freebusy, many rstatus],
            [] }
        $mac! { ikal::VTimezone, "VTIMEZONE",
            [req tzid, opt last_modified, opt tzurl],
            [standard daylight] }
        $mac! { ikal::vtimezone::Standard, "STANDARD",
            [req dtstart, req tzoffsetto, req tzoffsetfrom, opt rrule, many comment, many rdate,
             many tzname],
            [] }
        $mac! { ikal::vtimezone::Daylight, "DAYLIGHT",
            [req dtstart, req tzoffsetto, req tzoffsetfrom, opt rrule, many comment, many rdate,
             many tzname],
            [] }
        $mac! { ikal::valarm::Audio, "AUDIO",
            [req action, req trigger, opt duration, opt repeat, many attach],
            [] }
        $mac! { ikal::valarm::Display, "DISPLAY",
            [req action, req trigger, req description, opt duration, opt repeat],
            [] }
        $mac! { ikal::valarm::Email, "EMAIL",
            [req action, req trigger, req description, req summary, many attendee, opt duration,
             opt repeat, many attach],
            [] }
        $mac! { ikal::VCalendar, "VCALENDAR",
            [req prodid, req version, opt calscale, opt method],
            [alarms events freebusy journals todo timezones] }
    };
}

macro_rules! node {
    ($ty:ty, $kind:literal, [$($card:ident $field:ident),*], [$($child:ident)*]) => {
        impl Component for $ty {
            fn node(&self) -> Node {
                let mut node = Node::new($kind);
                $( prop!(node, self, $card, $field); )*
                for (key, line) in self.x_prop.iter().chain(&self.iana_prop) {
                    node.props.push(Prop {
                        name: key.clone(),
                        params: params(&line.params),
                        value: raw(&line.value),
                    });
                }
                $( node.children.extend(self.$child.iter().map(Component::node)); )*
                node.sorted()
            }
        }
    };
}

components!(node);

impl Component for ikal::VAlarm {
    fn node(&self) -> Node {
        let mut node = match self {
            ikal::VAlarm::Audio(x) => x.node(),
            ikal::VAlarm::Display(x) => x.node(),
            ikal::VAlarm::Email(x) => x.node(),
        };
        node.kind = "VALARM".to_string();
        node
    }
}

// --- any document ----------------------------------------------------------------------------

pub const KINDS: [&str; 12] = [
    "VCALENDAR", "VEVENT", "VTODO", "VJOURNAL", "VFREEBUSY", "VTIMEZONE", "VALARM", "STANDARD", "DAYLIGHT", "AUDIO",
    "DISPLAY", "EMAIL",
];

macro_rules! any {
    ($($name:ident($ty:ty) = $kind:literal),* $(,)?) => {
        #[derive(Clone, Debug, PartialEq)]
        pub enum Any { $($name($ty)),* }

        impl Any {
            /// Reads a document with the code under test, in one of the ways it has.
            pub fn read(kind: &str, text: &str) -> Result<Self, ikal::Error> {
                match kind {
                    $( $kind => match text.len() % 3 {
                        0 => text.parse().map(Self::$name),
                        1 => <$ty>::try_from(text).map(Self::$name),
                        _ => <$ty>::try_from(text.to_string()).map(Self::$name),
                    }, )*
                    _ => unreachable!(),
                }
            }

            /// Writes a document with the code under test.
            pub fn write(&self) -> Result<String, ikal::Error> {
                match self {
                    $( Self::$name(x) => ikal::ser::ical(x), )*
                }
            }

            pub fn kind(&self) -> &'static str {
                match self {
                    $( Self::$name(_) => $kind, )*
                }
            }

            pub fn node(&self) -> Node {
                match self {
                    $( Self::$name(x) => x.node(), )*
                }
            }
        }
    };
}

any! {
    Calendar(ikal::VCalendar) = "VCALENDAR",
    Event(ikal::VEvent) = "VEVENT",
    Todo(ikal::VTodo) = "VTODO",
    Journal(ikal::VJournal) = "VJOURNAL",
    Freebusy(ikal::VFreebusy) = "VFREEBUSY",
    Timezone(ikal::VTimezone) = "VTIMEZONE",
    Alarm(ikal::VAlarm) = "VALARM",
    Standard(ikal::vtimezone::Standard) = "STANDARD",
    Daylight(ikal::vtimezone::Daylight) = "DAYLIGHT",
    Audio(ikal::valarm::Audio) = "AUDIO",
    Display(ikal::valarm::Display) = "DISPLAY",
    Email(ikal::valarm::Email) = "EMAIL",
}
