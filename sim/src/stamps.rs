//! Every date-time and every period of a component.

use crate::components;
use crate::model::Any;

#[derive(Default)]
pub struct Stamps {
    pub dates: Vec<ikal::Date>,
    pub periods: Vec<ikal::Period>,
}

pub trait Visit {
    fn visit(&self, _: &mut Stamps) {}
}

impl Visit for ikal::Date {
    fn visit(&self, out: &mut Stamps) {
        out.dates.push(*self);
    }
}

impl Visit for ikal::DateTime {
    fn visit(&self, out: &mut Stamps) {
        out.dates.push((*self).into());
    }
}

impl Visit for ikal::Recur {
    fn visit(&self, out: &mut Stamps) {
        self.until.visit(out);
    }
}

impl Visit for ikal::Period {
    fn visit(&self, out: &mut Stamps) {
        match self {
            Self::StartEnd(x) => {
                x.start.visit(out);
                x.end.visit(out);
            }
            Self::StartDur(x) => x.start.visit(out),
        }
        out.periods.push(self.clone());
    }
}

impl Visit for ikal::RDate {
    fn visit(&self, out: &mut Stamps) {
        match self {
            Self::Date(x) => x.visit(out),
            Self::Period(x) => x.visit(out),
        }
    }
}

impl Visit for ikal::Trigger {
    fn visit(&self, out: &mut Stamps) {
        if let Self::DateTime(x) = self {
            x.visit(out);
        }
    }
}

impl<T: Visit> Visit for Option<T> {
    fn visit(&self, out: &mut Stamps) {
        if let Some(x) = self {
            x.visit(out);
        }
    }
}

impl<T: Visit> Visit for Vec<T> {
    fn visit(&self, out: &mut Stamps) {
        for x in self {
            x.visit(out);
        }
    }
}

macro_rules! nothing {
    ($($ty:ty),*) => { $( impl Visit for $ty {} )* };
}

nothing!(
    ikal::Text, ikal::Uri, ikal::Class, ikal::Geo, ikal::Status, ikal::TimeTransparency, ikal::RequestStatus, chrono::TimeDelta,
    chrono::FixedOffset, String, u8, u32
);

macro_rules! component {
    ($ty:ty, $kind:literal, [$($card:ident $field:ident),*], [$($child:ident)*]) => {
        impl Visit for $ty {
            fn visit(&self, out: &mut Stamps) {
                $( self.$field.visit(out); )*
                $( self.$child.visit(out); )*
            }
        }
    };
}

components!(component);

impl Visit for ikal::VAlarm {
    fn visit(&self, out: &mut Stamps) {
        match self {
            Self::Audio(x) => x.visit(out),
            Self::Display(x) => x.visit(out),
            Self::Email(x) => x.visit(out),
        }
    }
}

pub fn of(any: &Any) -> Stamps {
    let mut out = Stamps::default();
    match any {
        Any::Calendar(x) => x.visit(&mut out),
        Any::Event(x) => x.visit(&mut out),
        Any::Todo(x) => x.visit(&mut out),
        Any::Journal(x) => x.visit(&mut out),
        Any::Freebusy(x) => x.visit(&mut out),
        Any::Timezone(x) => x.visit(&mut out),
        Any::Alarm(x) => x.visit(&mut out),
        Any::Standard(x) => x.visit(&mut out),
        Any::Daylight(x) => x.visit(&mut out),
        Any::Audio(x) => x.visit(&mut out),
        Any::Display(x) => x.visit(&mut out),
        Any::Email(x) => x.visit(&mut out),
    }
    out
}
