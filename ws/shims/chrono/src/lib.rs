//! chrono, but for what time it is: that can be set.
pub use chrono::*;
use chrono::offset::LocalResult;
use std::{cell::RefCell, time::Duration};

type Clock = Box<dyn Fn() -> Duration>;
thread_local! {
    static CLOCK: RefCell<Option<Clock>> = const { RefCell::new(None) };
}
/// From now on (in this thread) this is what tells the time since 1970; `None`: the system does.
pub fn set_clock(c: Option<Clock>) {
    CLOCK.with(|x| *x.borrow_mut() = c)
}
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Utc;
impl Utc {
    pub fn now() -> DateTime<Utc> {
        let t = CLOCK.with(|c| c.borrow().as_ref().map(|f| f()));
        let t = match t {
            Some(d) => chrono::DateTime::from_timestamp(d.as_secs() as i64, d.subsec_nanos()).expect("a time out of range"),
            None => chrono::Utc::now(),
        };
        t.with_timezone(&Utc)
    }
}
impl TimeZone for Utc {
    type Offset = chrono::Utc;
    fn from_offset(_: &chrono::Utc) -> Utc {
        Utc
    }
    fn offset_from_local_date(&self, _: &NaiveDate) -> LocalResult<chrono::Utc> {
        LocalResult::Single(chrono::Utc)
    }
    fn offset_from_local_datetime(&self, _: &NaiveDateTime) -> LocalResult<chrono::Utc> {
        LocalResult::Single(chrono::Utc)
    }
    fn offset_from_utc_date(&self, _: &NaiveDate) -> chrono::Utc {
        chrono::Utc
    }
    fn offset_from_utc_datetime(&self, _: &NaiveDateTime) -> chrono::Utc {
        chrono::Utc
    }
}
pub mod prelude {
    pub use super::{DateTime, Utc};
    pub use chrono::prelude::{Datelike, Local, NaiveDate, NaiveDateTime, NaiveTime, SecondsFormat, SubsecRound, TimeZone, Timelike, Weekday};
}
