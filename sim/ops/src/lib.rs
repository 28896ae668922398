//! The generic parts of ikal, at the types the simulator uses: compiled here rather than in the
//! simulator, as this crate is instrumented like ikal itself (see `wrap.sh`).

use ikal::Date;
use ikal::iter::Recur;

pub type Boxed<T> = Box<dyn Iterator<Item = T>>;

macro_rules! series {
    ($($name:ident: $ty:ty),*) => { $(
        pub mod $name {
            use super::*;

            #[inline(never)]
            pub fn next(iter: &mut Recur<$ty>) -> Option<$ty> {
                iter.next()
            }

            #[inline(never)]
            pub fn between(x: &$ty, start: Date, end: Date) -> Boxed<$ty> {
                Box::new(x.recurrent().between(start, end))
            }

            #[inline(never)]
            pub fn at(x: &$ty, date: Date) -> Boxed<$ty> {
                Box::new(x.recurrent().at(date))
            }

            #[inline(never)]
            pub fn after(x: &$ty, date: Date) -> Boxed<$ty> {
                Box::new(x.recurrent().after(date))
            }

            #[inline(never)]
            pub fn write(x: &$ty) -> Result<String, ikal::Error> {
                ikal::ser::ical(x)
            }
        }
    )* };
}

series!(event: ikal::VEvent, journal: ikal::VJournal, todo: ikal::VTodo);
