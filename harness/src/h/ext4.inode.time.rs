// Timestamps of inodes: signed 32-bit seconds, two bits of epoch, 30 bits of nanoseconds.
use super::*;
use crate::sym::*;

/// Instants under the solver: chrono keeps a calendar date, the arithmetic of which is out of reach.
/// A date and time stand for a plain count of seconds instead, the high half of it in the place of
/// the date and the low half in that of the seconds of the day.
#[cfg(kani)]
pub mod instants {
    use chrono::{DateTime, NaiveDateTime, TimeDelta, Utc};
    const EPOCH: NaiveDateTime = DateTime::UNIX_EPOCH.naive_utc();
    fn place(t: NaiveDateTime) -> [u32; 3] {
        unsafe { std::mem::transmute(t) }
    }
    /// where chrono keeps date, seconds and nanoseconds
    fn layout() -> (usize, usize, usize) {
        let t = place(chrono::NaiveDate::from_ymd_opt(1970, 1, 1).unwrap().and_hms_nano_opt(0, 0, 1, 2).unwrap());
        let at = |x: u32| if t[0] == x { 0 } else if t[1] == x { 1 } else { 2 };
        let (s, f) = (at(1), at(2));
        (3 - s - f, s, f)
    }
    fn get(t: NaiveDateTime) -> (i64, i64) {
        let (d, s, f) = layout();
        let (t, e) = (place(t), place(EPOCH));
        (((t[d] as i32 - e[d] as i32) as i64) << 32 | t[s] as i64, t[f] as i64)
    }
    fn put(seconds: i64, nanos: i64) -> NaiveDateTime {
        let (d, s, f) = layout();
        let mut t = place(EPOCH);
        t[d] = (t[d] as i32 + (seconds >> 32) as i32) as u32;
        t[s] = seconds as u32;
        t[f] = nanos as u32;
        unsafe { std::mem::transmute(t) }
    }
    pub fn add(this: NaiveDateTime, rhs: TimeDelta) -> Option<NaiveDateTime> {
        let (mut s, mut n) = get(this);
        s += rhs.num_seconds();
        n += rhs.subsec_nanos() as i64;
        if n < 0 {
            n += 1_000_000_000;
            s -= 1;
        } else if n >= 1_000_000_000 {
            n -= 1_000_000_000;
            s += 1;
        }
        Some(put(s, n))
    }
    pub fn from_timestamp(seconds: i64, nanos: u32) -> Option<DateTime<Utc>> {
        (nanos < 1_000_000_000).then(|| put(seconds, nanos as i64).and_utc())
    }
    pub fn timestamp<Tz: chrono::TimeZone>(this: &DateTime<Tz>) -> i64 {
        get(this.naive_utc()).0
    }
}
macro_rules! h_time {
    ($name:ident, $unwind:literal, $body:block) => {
        #[cfg_attr(kani, kani::proof, kani::unwind($unwind), kani::stub(std::alloc::dealloc, crate::sym::no_dealloc),
            kani::stub(chrono::NaiveDateTime::checked_add_signed, crate::ext4::inode::time::verif::instants::add),
            kani::stub(chrono::DateTime::timestamp, crate::ext4::inode::time::verif::instants::timestamp),
            kani::stub(chrono::DateTime::from_timestamp, crate::ext4::inode::time::verif::instants::from_timestamp))]
        pub fn $name() $body
    };
}
pub(crate) use h_time;
h_time!(p20_time, 10, {
    let base: u32 = any();
    let extra: u32 = any();
    let t = decode_extra_time(base, extra);
    let seconds = base as i32 as i64 + (((extra & 3) as i64) << 32);
    let nanos = (extra >> 2) as i64;
    // more than a second of nanoseconds carries over
    let (carry, nanos) = if nanos >= 1_000_000_000 { (1, nanos - 1_000_000_000) } else { (0, nanos) };
    assert!(t.timestamp() == seconds + carry, "seconds");
    assert!(t.timestamp_subsec_nanos() as i64 == nanos, "nanoseconds");
    cover!(seconds < 0 && nanos > 0, "before 1970");
    cover!(seconds > 0xffff_ffff, "after 2106");
});
