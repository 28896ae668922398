//! A reference expansion of recurrence rules without BY parts (RFC 5545, 3.8.5.3 and 3.3.10).

use chrono::{Datelike as _, NaiveDate, NaiveDateTime, NaiveTime, TimeDelta};
use ikal::{Date, DateTime, Freq};

/// How a date is written.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Form {
    Date,
    Floating,
    Utc,
}

/// A date, floating time or UTC time, as a point on one line.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Point {
    pub form: Form,
    pub at: NaiveDateTime,
}

impl Point {
    pub fn of(date: &Date) -> Self {
        match date {
            Date::Date(x) => Self { form: Form::Date, at: x.and_time(NaiveTime::MIN) },
            Date::DateTime(DateTime::Naive(x)) => Self { form: Form::Floating, at: *x },
            Date::DateTime(DateTime::Local(x)) => Self { form: Form::Utc, at: x.naive_utc() },
        }
    }

    /// As the model prints dates.
    pub fn text(&self) -> String {
        match self.form {
            Form::Date => crate::model::date(self.at.date()),
            Form::Floating => crate::model::naive(self.at),
            Form::Utc => crate::model::local(self.at.and_utc().timestamp(), self.at.and_utc().timestamp_subsec_nanos()),
        }
    }

    pub fn shifted(&self, by: TimeDelta) -> Option<Self> {
        Some(Self { form: self.form, at: self.at.checked_add_signed(by)? })
    }
}

#[derive(Clone, Debug)]
pub struct Series {
    pub start: Point,
    pub freq: Freq,
    pub interval: i64,
    pub count: Option<u8>,
    pub until: Option<Point>,
    pub exceptions: Vec<Point>,
}

impl Series {
    /// The date with this index, counting those that do not exist.
    fn candidate(&self, n: i64) -> Option<Option<NaiveDateTime>> {
        let unit = match self.freq {
            Freq::Secondly => 1,
            Freq::Minutely => 60,
            Freq::Hourly => 3_600,
            Freq::Daily => 86_400,
            Freq::Weekly => 7 * 86_400,
            Freq::Monthly | Freq::Yearly => {
                let months = n * self.interval * if self.freq == Freq::Yearly { 12 } else { 1 };
                let date = self.start.at.date();
                let month = i64::from(date.year()) * 12 + i64::from(date.month0()) + months;
                let year = month.div_euclid(12);
                if year > 9_999 {
                    return None;
                }
                let date = NaiveDate::from_ymd_opt(year as i32, month.rem_euclid(12) as u32 + 1, date.day());
                return Some(date.map(|x| x.and_time(self.start.at.time())));
            }
        };
        let at = self.start.at.checked_add_signed(TimeDelta::try_seconds(n * self.interval * unit)?)?;
        (at.year() <= 9_999).then_some(Some(at))
    }

    fn past_the_end(&self, at: NaiveDateTime) -> bool {
        match self.until {
            None => false,
            Some(until) if until.form == self.start.form => at > until.at,
            // The last day is part of the series.
            Some(until) => at.date() > until.at.date(),
        }
    }

    /// The first occurrences, with how many come before each, exceptions included.
    pub fn expand(&self, limit: usize) -> Vec<(usize, Point)> {
        let mut found = Vec::new();
        let mut n = 0;
        let mut counted = 0;
        while found.len() < limit {
            // The start is always there, even after the year 9999.
            let at = if n == 0 { Some(Some(self.start.at)) } else { self.candidate(n) };
            let Some(at) = at else { break };
            n += 1;
            let Some(at) = at else { continue };
            if self.count.is_some_and(|x| counted >= usize::from(x)) || self.past_the_end(at) {
                break;
            }
            let point = Point { form: self.start.form, at };
            if !self.exceptions.contains(&point) {
                found.push((counted, point));
            }
            counted += 1;
        }
        found
    }
}
