//! Zones: an independent evaluator of zone data, and a generator of zones.

use crate::tape;
use chrono::{Datelike as _, NaiveDate, NaiveDateTime};

#[derive(Clone, Debug)]
pub struct Zone {
    pub name: String,
    /// The same zone as a `TZ` rule, when a rule is enough.
    pub posix: Option<String>,
    first: i32,
    transitions: Vec<(i64, i32)>,
    rule: Option<Rule>,
    file: Vec<u8>,
}

#[derive(Clone, Debug)]
enum Rule {
    Fixed(i32),
    Alternate { std: i32, dst: i32, start: (Day, i64), end: (Day, i64) },
}

#[derive(Clone, Debug)]
enum Day {
    Julian(i64),
    Zero(i64),
    Month(u32, u32, u32),
}

impl Day {
    fn date(&self, year: i32) -> NaiveDate {
        match self {
            Day::Julian(n) => {
                let leap = NaiveDate::from_ymd_opt(year, 2, 29).is_some();
                let n = n - 1 + i64::from(leap && *n >= 60);
                NaiveDate::from_ymd_opt(year, 1, 1).unwrap() + chrono::TimeDelta::days(n)
            }
            Day::Zero(n) => NaiveDate::from_ymd_opt(year, 1, 1).unwrap() + chrono::TimeDelta::days(*n),
            Day::Month(month, week, day) => {
                let first = NaiveDate::from_ymd_opt(year, *month, 1).unwrap();
                let shift = (7 + day - first.weekday().num_days_from_sunday()) % 7;
                let mut date = first + chrono::TimeDelta::days(i64::from(shift + 7 * (week - 1)));
                while date.month() != *month {
                    date -= chrono::TimeDelta::days(7);
                }
                date
            }
        }
    }
}

fn stamp(date: NaiveDate) -> i64 {
    date.and_time(chrono::NaiveTime::MIN).and_utc().timestamp()
}

fn year_of(t: i64) -> i32 {
    let t = t.clamp(-70_000_000_000, 300_000_000_000);
    chrono::DateTime::from_timestamp(t, 0).unwrap().year()
}

impl Rule {
    /// The transitions around an instant, in order.
    fn transitions(&self, lo: i64, hi: i64) -> Vec<(i64, i32)> {
        let Rule::Alternate { std, dst, start, end } = self else {
            return Vec::new();
        };
        let mut transitions = Vec::new();
        for year in year_of(lo) - 2..=year_of(hi) + 1 {
            transitions.push((stamp(start.0.date(year)) + start.1 - i64::from(*std), *dst));
            transitions.push((stamp(end.0.date(year)) + end.1 - i64::from(*dst), *std));
        }
        transitions.sort_unstable();
        transitions
    }

    fn offset(&self, t: i64) -> i32 {
        match self {
            Rule::Fixed(offset) => *offset,
            Rule::Alternate { std, .. } => {
                self.transitions(t, t).iter().rev().find(|x| x.0 <= t).map_or(*std, |x| x.1)
            }
        }
    }
}

impl Zone {
    pub fn utc() -> Self {
        Self {
            name: "UTC".to_string(),
            posix: Some(String::new()),
            first: 0,
            transitions: Vec::new(),
            rule: Some(Rule::Fixed(0)),
            file: include_bytes!("../zones/UTC").to_vec(),
        }
    }

    pub fn tzif(&self) -> Vec<u8> {
        self.file.clone()
    }

    pub fn is_utc(&self) -> bool {
        self.name == "UTC"
    }

    /// The offset from UTC at an instant.
    pub fn offset(&self, t: i64) -> i32 {
        if let (Some(last), Some(rule)) = (self.transitions.last(), &self.rule) {
            if t >= last.0 {
                return rule.offset(t);
            }
        }
        if self.transitions.is_empty() {
            return self.rule.as_ref().map_or(self.first, |x| x.offset(t));
        }
        match self.transitions.partition_point(|x| x.0 <= t) {
            0 => self.first,
            n => self.transitions[n - 1].1,
        }
    }

    /// The instants at which the offset changes, between two.
    pub fn changes(&self, lo: i64, hi: i64) -> Vec<i64> {
        let mut changes: Vec<i64> = self.transitions.iter().map(|x| x.0).filter(|x| (lo..=hi).contains(x)).collect();
        if let Some(rule) = &self.rule {
            let last = self.transitions.last().map_or(i64::MIN, |x| x.0);
            changes.extend(rule.transitions(lo, hi).iter().map(|x| x.0).filter(|x| (lo..=hi).contains(x) && *x > last));
        }
        changes.retain(|x| self.offset(*x) != self.offset(x - 1));
        changes.sort_unstable();
        changes.dedup();
        changes
    }

    /// All the instants at which the clocks of the zone show a time, in order.
    pub fn from_local(&self, local: NaiveDateTime) -> Vec<i64> {
        let t = local.and_utc().timestamp();
        let lo = t - 2 * 86_400;
        let hi = t + 2 * 86_400;
        let mut offsets = vec![self.offset(lo)];
        offsets.extend(self.changes(lo, hi).iter().map(|x| self.offset(*x)));

        let mut instants: Vec<i64> =
            offsets.iter().map(|o| t - i64::from(*o)).filter(|x| x + i64::from(self.offset(*x)) == t).collect();
        instants.sort_unstable();
        instants.dedup();
        instants
    }

    /// Some instants at which something happens in this zone.
    pub fn interesting(&self) -> i64 {
        let year = if tape::chance(1, 4) { 1900 + tape::range(0, 200) } else { 2024 + tape::range(0, 16) };
        let lo = stamp(NaiveDate::from_ymd_opt(year as i32, 1, 1).unwrap());
        let mut changes = self.changes(lo, lo + 366 * 86_400);
        if changes.is_empty() {
            changes.extend(self.transitions.iter().map(|x| x.0));
        }
        if changes.is_empty() {
            return lo + tape::range(0, 366 * 86_400);
        }
        *tape::of(&changes)
    }
}

// --- reading ---------------------------------------------------------------------------------

fn be32(b: &[u8]) -> i32 {
    i32::from_be_bytes(b[..4].try_into().unwrap())
}

fn be64(b: &[u8]) -> i64 {
    i64::from_be_bytes(b[..8].try_into().unwrap())
}

/// Reads a TZif file (RFC 8536), version 2 or later.
pub fn parse(name: &str, file: &[u8]) -> Zone {
    let counts = |h: &[u8]| -> Vec<usize> { (0..6).map(|i| be32(&h[20 + 4 * i..]) as usize).collect() };
    let c = counts(file);
    let (isut, isstd, leap, times, types, chars) = (c[0], c[1], c[2], c[3], c[4], c[5]);
    let v2 = &file[44 + times * 5 + types * 6 + chars + leap * 8 + isstd + isut..];
    let c = counts(v2);
    let (isut, isstd, leap, times, types, chars) = (c[0], c[1], c[2], c[3], c[4], c[5]);
    let data = &v2[44..];
    let index = &data[times * 8..];
    let infos = &data[times * 9..];
    let offset = |i: usize| be32(&infos[6 * i..]);
    let footer = &data[times * 9 + types * 6 + chars + leap * 12 + isstd + isut..];
    let footer = std::str::from_utf8(footer).unwrap().trim_matches('\n');

    Zone {
        name: name.to_string(),
        posix: None,
        first: offset(0),
        transitions: (0..times).map(|i| (be64(&data[8 * i..]), offset(index[i] as usize))).collect(),
        rule: (!footer.is_empty()).then(|| posix(footer)),
        file: file.to_vec(),
    }
}

fn posix(s: &str) -> Rule {
    fn name(s: &str) -> &str {
        match s.strip_prefix('<') {
            Some(s) => &s[s.find('>').unwrap() + 1..],
            None => s.trim_start_matches(|c: char| c.is_ascii_alphabetic()),
        }
    }
    fn time(s: &str) -> (i64, &str) {
        let end = s.find(|c: char| !(c.is_ascii_digit() || "+-:".contains(c))).unwrap_or(s.len());
        let text = s[..end].trim_start_matches('+');
        let (sign, text) = text.strip_prefix('-').map_or((1, text), |x| (-1, x));
        let seconds = text.split(':').zip([3600, 60, 1]).map(|(x, unit)| x.parse::<i64>().unwrap() * unit).sum::<i64>();
        (sign * seconds, &s[end..])
    }
    fn day(s: &str) -> (Day, i64) {
        let (day, at) = s.split_once('/').map_or((s, 7_200), |(day, at)| (day, time(at).0));
        let day = if let Some(day) = day.strip_prefix('M') {
            let n: Vec<u32> = day.split('.').map(|x| x.parse().unwrap()).collect();
            Day::Month(n[0], n[1], n[2])
        } else if let Some(day) = day.strip_prefix('J') {
            Day::Julian(day.parse().unwrap())
        } else {
            Day::Zero(day.parse().unwrap())
        };
        (day, at)
    }

    let (std, rest) = time(name(s));
    let std = -std as i32;
    if rest.is_empty() {
        return Rule::Fixed(std);
    }
    let (zone, rules) = rest.split_once(',').unwrap();
    let zone = name(zone);
    let dst = if zone.is_empty() { std + 3_600 } else { -time(zone).0 as i32 };
    let (start, end) = rules.split_once(',').unwrap();

    Rule::Alternate { std, dst, start: day(start), end: day(end) }
}

// --- writing ---------------------------------------------------------------------------------

fn tzif(transitions: &[(i64, i32)], first: i32, footer: &str, last_name: Option<(&str, bool)>) -> Vec<u8> {
    // Type 0 is in force before the first transition; each transition has a type of its own.
    let mut names = String::new();
    let mut infos = Vec::new();
    let mut add = |offset: i32, name: &str, dst: bool| {
        infos.extend(offset.to_be_bytes());
        infos.push(u8::from(dst));
        infos.push(names.len() as u8);
        names.push_str(name);
        names.push('\0');
    };
    add(first, "LMT", false);
    for (i, (_, offset)) in transitions.iter().enumerate() {
        match last_name {
            Some((name, dst)) if i + 1 == transitions.len() => add(*offset, name, dst),
            _ => add(*offset, ["AAA", "BBB", "CCC", "DDD"][i % 4], false),
        }
    }

    let header = |times: usize, types: usize, chars: usize| {
        let mut h = b"TZif2".to_vec();
        h.extend([0; 15]);
        for n in [0, 0, 0, times, types, chars] {
            h.extend((n as u32).to_be_bytes());
        }
        h
    };

    let mut file = header(0, 1, 4);
    file.extend([0, 0, 0, 0, 0, 0]);
    file.extend(b"UTC\0");
    file.extend(header(transitions.len(), transitions.len() + 1, names.len()));
    for (t, _) in transitions {
        file.extend(t.to_be_bytes());
    }
    for i in 0..transitions.len() {
        file.push(i as u8 + 1);
    }
    file.extend(&infos);
    file.extend(names.as_bytes());
    file.extend(format!("\n{footer}\n").as_bytes());
    file
}

// --- generating ------------------------------------------------------------------------------

macro_rules! zones {
    ($($name:literal),* $(,)?) => { &[$(($name, include_bytes!(concat!("../zones/", $name)))),*] };
}

pub const REAL: &[(&str, &[u8])] = zones![
    "Europe_Paris",
    "America_New_York",
    "Asia_Kolkata",
    "Asia_Kathmandu",
    "America_St_Johns",
    "Australia_Lord_Howe",
    "Pacific_Apia",
    "Pacific_Kiritimati",
    "Europe_Dublin",
    "Africa_Casablanca",
    "America_Nuuk",
    "Asia_Gaza",
    "America_Sao_Paulo",
    "Antarctica_Troll",
    "Africa_Monrovia",
    "Europe_Amsterdam",
    "Asia_Tehran",
    "Pacific_Chatham",
    "America_Santiago",
    "Asia_Pyongyang",
];

pub const RULES: &[&str] = &[
    "CET-1CEST,M3.5.0,M10.5.0/3",
    "EST5EDT,M3.2.0,M11.1.0",
    "AEST-10AEDT,M10.1.0,M4.1.0/3",
    "<+1030>-10:30<+11>-11,M10.1.0,M4.1.0",
    "NST3:30NDT,M3.2.0,M11.1.0",
    "JST-9",
    "<-12>12",
    "<+14>-14",
    "<+0545>-5:45",
    "AAA-1BBB,J60/0,J300/0",
    "AAA4BBB,59/2,299/1",
    "AAA-3BBB-5,M2.4.4/23,M9.1.3/1:30",
    "AAA7BBB,0/0,J365/23",
];

const OFFSETS: &[i32] = &[
    0, 3_600, -3_600, 7_200, 19_800, 20_700, -12_600, 43_200, -43_200, 50_400, 561, -17_762, 1_172, -39_600, 46_800, 34_200,
];

pub fn real(i: usize) -> Zone {
    let (name, file) = REAL[i];
    parse(name, file)
}

pub fn from_rule(rule: &str) -> Zone {
    Zone {
        name: rule.to_string(),
        posix: Some(rule.to_string()),
        first: 0,
        transitions: Vec::new(),
        rule: Some(posix(rule)),
        // In a file, a rule needs a transition of its own type; only `TZ` is used for rules.
        file: Vec::new(),
    }
}

fn synthetic() -> Zone {
    let n = 1 + tape::pick(6);
    let first = *tape::of(OFFSETS);
    let mut t = *tape::of(&[0, -3_000_000_000, 900_000_000, 1_500_000_000, 1_711_846_800, 4_000_000_000]) + tape::range(0, 86_400);
    let mut transitions = Vec::new();
    let mut last = first;

    for _ in 0..n {
        let mut offset = if tape::chance(1, 2) { last + [3_600, -3_600, 86_400, -86_400, 1_800, -1_800][tape::pick(6)] } else { *tape::of(OFFSETS) };
        if offset.abs() > 14 * 3_600 + 1 {
            offset = 0;
        }
        transitions.push((t, offset));
        last = offset;
        // Far enough apart for what chrono does of local times (three days).
        t += [30 * 86_400, 260_000, 4 * 86_400, 365 * 86_400, 180_000_000, 300_000][tape::pick(6)] + tape::range(0, 3_600);
    }

    let sign = if last <= 0 { "" } else { "-" };
    let a = last.abs();
    let footer = format!("ZZZ{sign}{}:{:02}:{:02}", a / 3_600, a / 60 % 60, a % 60);
    let file = tzif(&transitions, first, &footer, Some(("ZZZ", false)));

    let name = format!("Sim/{:016x}", crate::ctx::fingerprint(&format!("{transitions:?}{first}")));
    Zone { name, posix: None, first, transitions, rule: Some(Rule::Fixed(last)), file }
}

pub fn generate() -> Zone {
    match tape::weighted(&[2, 6, 4, 4]) {
        0 => Zone::utc(),
        1 => real(tape::pick(REAL.len())),
        2 => from_rule(*tape::of(RULES)),
        _ => synthetic(),
    }
}
