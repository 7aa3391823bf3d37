use crate::base::*;
use std::ops::*;
fn max(a: i128, b: i128) -> i128 { if a > b { a } else { b } }
fn min(a: i128, b: i128) -> i128 { if a < b { a } else { b } }
fn meet(a: (i128, i128), b: (i128, i128)) -> (i128, i128) { canon((max(a.0, b.0), min(a.1, b.1))) }
macro_rules! pairs { ($($m:ident, $a:ty, $b:ty, $pa:expr, $pb:expr;)*) => { $( mod $m { use super::*; both! {
    triple!(c08_intersection, f_intersection, fn(a: $a, b: $b) -> TimeInterval<T> { a & b } requires(window(&a, $pa) && window(&b, $pb)) ensures(|r| { let m = meet(cb(&a), cb(&b)); is(r, m.0, m.1) }));
} } )* } }
macro_rules! assigns { ($($m:ident, $b:ty, $pb:expr;)*) => { $( mod $m { use super::*; both! {
    triple!(c08_intersection_assign, f_intersection_assign, fn(a: TimeInterval<T>, b: $b) -> TimeInterval<T> { let mut c = a; c &= b; c } requires(window(&b, $pb)) ensures(|r| { let m = meet(cb(&a), cb(&b)); is(r, m.0, m.1) }));
} } )* } }
pairs! { interval_interval, TimeInterval<T>, TimeInterval<T>, false, false; interval_point, TimeInterval<T>, T, false, true; point_interval, T, TimeInterval<T>, true, false; point_point, T, T, true, true;
    interval_range, TimeInterval<T>, Range<T>, false, false; interval_range_inclusive, TimeInterval<T>, RangeInclusive<T>, false, false; interval_range_from, TimeInterval<T>, RangeFrom<T>, false, false;
    interval_range_to, TimeInterval<T>, RangeTo<T>, false, false; interval_range_to_inclusive, TimeInterval<T>, RangeToInclusive<T>, false, false; }
assigns! { assign_interval, TimeInterval<T>, false; assign_point, T, true; assign_range, Range<T>, false; assign_range_inclusive, RangeInclusive<T>, false; assign_range_from, RangeFrom<T>, false; assign_range_to, RangeTo<T>, false; assign_range_to_inclusive, RangeToInclusive<T>, false; }
both! {
    triple!(c08_intersection_ref, f_intersection_ref, fn(a: TimeInterval<T>, b: TimeInterval<T>) -> TimeInterval<T> { &a & b } ensures(|r| { let m = meet(cb(&a), cb(&b)); is(r, m.0, m.1) }));
}
