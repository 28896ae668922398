//! Invocations of the builder macros, with values the simulator draws, and what each must build.

mod generated;
pub use generated::CASES;

use std::cell::RefCell;
use std::collections::BTreeMap;

/// Whether both gave a component, or what is wrong.
pub type Outcome = Result<bool, String>;

pub struct Case {
    pub kind: &'static str,
    /// The kinds of text its values are read from.
    pub holes: &'static [&'static str],
    pub run: fn(&Holes) -> Outcome,
}

/// The values of an invocation.
pub struct Holes {
    pub texts: Vec<String>,
    /// Those taken.
    taken: RefCell<Vec<usize>>,
}

impl Holes {
    pub fn new(texts: Vec<String>) -> Self {
        Self { texts, taken: RefCell::default() }
    }

    fn begin(&self) -> Vec<usize> {
        let mut taken = self.taken.take();
        taken.sort_unstable();
        taken
    }

    fn s(&self, i: usize) -> &str {
        self.taken.borrow_mut().push(i);
        &self.texts[i]
    }

    fn string(&self, i: usize) -> String {
        self.s(i).to_string()
    }

    fn number(&self, i: usize) -> u64 {
        self.s(i).bytes().fold(0, |n: u64, x| n.wrapping_mul(31).wrapping_add(x.into()))
    }

    fn u8(&self, i: usize) -> u8 {
        self.number(i) as u8
    }

    fn i8(&self, i: usize) -> i8 {
        self.number(i) as i8
    }

    fn u32(&self, i: usize) -> u32 {
        self.number(i) as u32
    }

    fn f32(&self, i: usize) -> f32 {
        self.u8(i) as f32 / 4. - 20.
    }

    fn weekday(&self, i: usize) -> ikal::WeekdayNum {
        let text = ["SU", "1MO", "-1TU", "WE", "3TH", "-2FR", "SA"][usize::from(self.u8(i) % 7)];
        text.parse().expect("a day of the week")
    }

    fn parsed<T: std::str::FromStr + Default>(&self, i: usize) -> T {
        self.s(i).parse().unwrap_or_default()
    }

    fn length(&self, i: usize) -> chrono::TimeDelta {
        ikal::parse_duration(self.s(i)).unwrap_or_default()
    }

    #[allow(dead_code)]
    fn offset(&self, i: usize) -> chrono::FixedOffset {
        self.s(i).parse().unwrap_or(chrono::FixedOffset::east_opt(7_200).expect("two hours"))
    }

    fn period(&self, i: usize) -> ikal::Period {
        let default = ikal::Period::StartDur(ikal::period::StartDur { start: ikal::DateTime::default(), duration: chrono::TimeDelta::hours(1) });
        self.s(i).parse().unwrap_or(default)
    }

    fn alarm(&self, i: usize) -> ikal::VAlarm {
        self.s(i).parse().unwrap_or_else(|_| ikal::valarm::Display::default().into())
    }

    fn audio(&self, i: usize) -> ikal::valarm::Audio {
        match self.s(i).parse() {
            Ok(ikal::VAlarm::Audio(x)) => x,
            _ => ikal::valarm::Audio::default(),
        }
    }

    fn params<T: WithParams>(&self, i: usize) -> T {
        T::with_params(self.s(i))
    }

    /// One with extension properties, whose type has no public name.
    fn todo(&self, i: usize) -> ikal::VTodo {
        let text = format!("BEGIN:VTODO\r\nDTSTAMP:20240101T000000\r\nUID:1\r\nX-TEXT;LANGUAGE=fr:{}\r\nEND:VTODO\r\n", self.s(i).replace(['\r', '\n'], " "));
        text.parse().unwrap_or_default()
    }
}

trait WithParams {
    fn with_params(text: &str) -> Self;
}

fn language() -> BTreeMap<String, String> {
    BTreeMap::from([("LANGUAGE".to_string(), "fr".to_string())])
}

impl WithParams for ikal::Text {
    fn with_params(text: &str) -> Self {
        Self { params: language(), text: text.to_string() }
    }
}

impl WithParams for ikal::Uri {
    fn with_params(text: &str) -> Self {
        Self { params: language(), uri: text.to_string() }
    }
}

fn compare<T: PartialEq + std::fmt::Debug>(built: Result<T, ikal::Error>, wanted: Result<T, ikal::Error>, given: Vec<usize>, needed: Vec<usize>) -> Outcome {
    if given.windows(2).any(|x| x[0] == x[1]) {
        return Err(format!("evaluated the values {given:?}"));
    }
    match (built, wanted) {
        (Ok(built), Ok(wanted)) => {
            if built != wanted || format!("{built:?}") != format!("{wanted:?}") {
                return Err(format!("built {built:?}, not {wanted:?}"));
            }
            if given != needed {
                return Err(format!("evaluated the values {given:?}, not {needed:?}"));
            }
            Ok(true)
        }
        (Err(_), Err(_)) => Ok(false),
        (built, wanted) => Err(format!("built {built:?}, not {wanted:?}")),
    }
}
