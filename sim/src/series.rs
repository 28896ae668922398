//! Recurring components, for the checks of the expansion.

use crate::doc::{self, Style};
use crate::gen_::{self as typed, Make};
use crate::model::{Component as _, Node};
use crate::rrule::{Form, Point, Series};
use crate::tape;
use chrono::{NaiveDateTime, TimeDelta, TimeZone as _};
use ikal_ops as ops;
use ikal::{Date, DateTime, Freq};

#[derive(Clone, Debug, PartialEq)]
pub enum Recurring {
    Event(ikal::VEvent),
    Journal(ikal::VJournal),
    Todo(ikal::VTodo),
}

pub enum Iter {
    Event(ikal::iter::Recur<ikal::VEvent>),
    Journal(ikal::iter::Recur<ikal::VJournal>),
    Todo(ikal::iter::Recur<ikal::VTodo>),
}

impl Iterator for Iter {
    type Item = Recurring;

    fn next(&mut self) -> Option<Recurring> {
        match self {
            Self::Event(x) => ops::event::next(x).map(Recurring::Event),
            Self::Journal(x) => ops::journal::next(x).map(Recurring::Journal),
            Self::Todo(x) => ops::todo::next(x).map(Recurring::Todo),
        }
    }
}

/// The occurrences of a window.
pub enum Windowed {
    Event(ops::Boxed<ikal::VEvent>),
    Journal(ops::Boxed<ikal::VJournal>),
    Todo(ops::Boxed<ikal::VTodo>),
}

impl Iterator for Windowed {
    type Item = Recurring;

    fn next(&mut self) -> Option<Recurring> {
        match self {
            Self::Event(x) => x.next().map(Recurring::Event),
            Self::Journal(x) => x.next().map(Recurring::Journal),
            Self::Todo(x) => x.next().map(Recurring::Todo),
        }
    }
}

/// How a window of occurrences is asked for.
#[derive(Clone, Copy, Debug)]
pub enum Window {
    Between(Date, Date),
    At(Date),
    After(Date),
}

macro_rules! each {
    ($self:expr, $x:ident => $body:expr) => {
        match $self {
            Recurring::Event($x) => $body,
            Recurring::Journal($x) => $body,
            Recurring::Todo($x) => $body,
        }
    };
}

impl Recurring {
    pub fn iter(&self) -> Iter {
        match self {
            Self::Event(x) => Iter::Event(x.recurrent()),
            Self::Journal(x) => Iter::Journal(x.recurrent()),
            Self::Todo(x) => Iter::Todo(x.recurrent()),
        }
    }

    pub fn windowed(&self, window: Window) -> Windowed {
        macro_rules! windowed {
            ($x:ident, $ops:ident, $wrap:path) => {
                $wrap(match window {
                    Window::Between(a, b) => ops::$ops::between($x, a, b),
                    Window::At(a) => ops::$ops::at($x, a),
                    Window::After(a) => ops::$ops::after($x, a),
                })
            };
        }
        match self {
            Self::Event(x) => windowed!(x, event, Windowed::Event),
            Self::Journal(x) => windowed!(x, journal, Windowed::Journal),
            Self::Todo(x) => windowed!(x, todo, Windowed::Todo),
        }
    }

    pub fn window(&self, window: Window, limit: usize) -> Vec<Recurring> {
        self.windowed(window).take(limit).collect()
    }

    pub fn start(&self) -> Date {
        match self {
            Self::Event(x) => x.dtstart,
            Self::Journal(x) => x.dtstart,
            Self::Todo(x) => x.dtstart.unwrap_or_default(),
        }
    }

    pub fn end(&self) -> Option<Date> {
        match self {
            Self::Event(x) => x.dtend,
            Self::Journal(_) => None,
            Self::Todo(x) => x.due,
        }
    }

    pub fn rule(&self) -> Option<&ikal::Recur> {
        each!(self, x => x.rrule.as_ref())
    }

    pub fn exdate(&self) -> &[Date] {
        each!(self, x => &x.exdate)
    }

    pub fn set_rule(&mut self, rule: ikal::Recur) {
        each!(self, x => x.rrule = Some(rule))
    }

    pub fn set_exdate(&mut self, exdate: Vec<Date>) {
        each!(self, x => x.exdate = exdate)
    }

    pub fn set_start(&mut self, start: Date) {
        match self {
            Self::Event(x) => x.dtstart = start,
            Self::Journal(x) => x.dtstart = start,
            Self::Todo(x) => x.dtstart = Some(start),
        }
    }

    pub fn set_end(&mut self, end: Option<Date>) {
        match self {
            Self::Event(x) => x.dtend = end,
            Self::Journal(_) => (),
            Self::Todo(x) => x.due = end,
        }
    }

    pub fn node(&self) -> Node {
        each!(self, x => x.node())
    }

    pub fn write(&self) -> Result<String, ikal::Error> {
        each!(self, x => ikal::ser::ical(x))
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Self::Event(_) => "VEVENT",
            Self::Journal(_) => "VJOURNAL",
            Self::Todo(_) => "VTODO",
        }
    }

    pub fn read(kind: &str, text: &str) -> Result<Self, ikal::Error> {
        match kind {
            "VEVENT" => text.parse().map(Self::Event),
            "VJOURNAL" => text.parse().map(Self::Journal),
            _ => text.parse().map(Self::Todo),
        }
    }

    /// The same component, at an occurrence: the value of a date as the model prints it.
    pub fn expected(original: &Node, before: usize, start: Point, end: Option<Point>, rule: &ikal::Recur) -> Node {
        let mut node = original.clone();
        for p in &mut node.props {
            match p.name.as_str() {
                "DTSTART" => p.value = start.text(),
                "DTEND" | "DUE" => {
                    if let Some(end) = end {
                        p.value = end.text();
                    }
                }
                "RRULE" => {
                    let left = rule.count.map(|x| x - before as u8);
                    p.value = crate::model::rule(&ikal::Recur { count: left, ..rule.clone() }).text();
                }
                _ => (),
            }
        }
        node.sorted()
    }
}

/// Must be called on a simulated host, as its zone is that of UTC-based times.
pub fn utc(at: NaiveDateTime) -> Date {
    Date::DateTime(DateTime::Local(chrono::Local.from_utc_datetime(&at)))
}

pub fn date(form: Form, at: NaiveDateTime) -> Date {
    match form {
        Form::Date => Date::Date(at.date()),
        Form::Floating => Date::DateTime(DateTime::Naive(at)),
        Form::Utc => utc(at),
    }
}

/// Moved, unless it would leave the years that can be written.
fn before(at: NaiveDateTime, by: TimeDelta) -> NaiveDateTime {
    at.checked_add_signed(by).filter(|x| (1..=9_999).contains(&chrono::Datelike::year(x))).unwrap_or(at)
}

pub fn blank(style: &Style) -> Recurring {
    let mut x = match tape::pick(3) {
        0 => Recurring::Event(Make::make("", style)),
        1 => Recurring::Journal(Make::make("", style)),
        _ => Recurring::Todo(Make::make("", style)),
    };
    // Not part of what is promised.
    each!(&mut x, x => {
        x.rdate.clear();
        x.exdate.clear();
    });
    x
}

/// A recurring component, and its series. Must be called on a simulated host.
pub fn make(form: Form, near: i64) -> (Recurring, Series) {
    let mut style = Style::random();
    style.density = tape::choose(5);
    style.utc = true;
    style.near = true;
    let mut x = blank(&style);

    let mut at = match tape::choose(4) {
        0 => chrono::DateTime::from_timestamp(near, 0).unwrap().naive_utc(),
        1 => doc::date().and_time(doc::time()),
        _ => doc::naive(),
    };
    if tape::chance(1, 4) {
        // The 29th, 30th and 31st.
        let day = 29 + tape::choose(3) as u32;
        at = chrono::Datelike::with_day(&at, day).unwrap_or(at);
    }
    let freq = match form {
        Form::Date => [Freq::Daily, Freq::Weekly, Freq::Monthly, Freq::Yearly][tape::pick(4)].clone(),
        _ => typed::freq(),
    };
    if form == Form::Date {
        at = at.date().and_time(chrono::NaiveTime::MIN);
    }
    let interval = if tape::chance(1, 5) { 1 + tape::choose(255) } else { 1 + tape::choose(4) } as i64;
    let mut series = Series { start: Point { form, at }, freq, interval, count: None, until: None, exceptions: Vec::new() };

    // Ends at, just before or just after an occurrence.
    let raw = series.expand(40);
    let choose = |raw: &[(usize, Point)]| raw[tape::pick(raw.len())].1.at;
    match tape::choose(5) {
        0 => (),
        1 | 2 => series.count = Some(if tape::chance(1, 4) { 1 + tape::choose(255) } else { 1 + tape::choose(12) } as u8),
        n => {
            if n == 4 && tape::chance(1, 4) {
                series.count = Some(1 + tape::choose(20) as u8);
            }
            let near = choose(&raw);
            let by = TimeDelta::seconds([0, -1, 1, 3_600, -3_600, 86_400, -86_400, 43_200][tape::pick(8)]);
            let at = before(near, by);
            let form = match form {
                Form::Date => [Form::Date, Form::Floating][tape::weighted(&[3, 1])],
                Form::Floating => [Form::Floating, Form::Date][tape::weighted(&[3, 1])],
                Form::Utc => [Form::Utc, Form::Date][tape::weighted(&[3, 1])],
            };
            let at = if form == Form::Date { at.date().and_time(chrono::NaiveTime::MIN) } else { at };
            series.until = Some(Point { form, at });
        }
    }
    for _ in 0..[0, 0, 1, 2, 6][tape::pick(5)] {
        // On an occurrence, or not.
        let mut at = if tape::chance(1, 6) { doc::naive() } else { choose(&raw[..std::cmp::min(raw.len(), 14)]) };
        if tape::chance(1, 8) {
            at = before(at, TimeDelta::seconds(1));
        }
        if form == Form::Date {
            at = at.date().and_time(chrono::NaiveTime::MIN);
        }
        series.exceptions.push(Point { form, at });
    }

    // Its end: of the same form, or of another one where days are whole.
    let whole_days = series.freq >= Freq::Daily;
    let end = match tape::choose(4) {
        0 => None,
        _ => {
            let after = TimeDelta::seconds([0, 1, 3_600, 5_400, 86_400, 90_000, 7 * 86_400, -3_600, 400 * 86_400][tape::pick(9)]);
            let form = if whole_days && tape::chance(1, 6) { [Form::Date, Form::Floating, Form::Utc][tape::pick(3)] } else { form };
            let at = before(at, after);
            Some(date(form, at))
        }
    };

    x.set_start(date(form, at));
    x.set_end(end);
    x.set_exdate(series.exceptions.iter().map(|p| date(p.form, p.at)).collect());
    x.set_rule(ikal::Recur {
        freq: series.freq.clone(),
        interval: interval as u8,
        count: series.count,
        until: series.until.map(|p| date(p.form, p.at)),
        ..Default::default()
    });
    (x, series)
}
