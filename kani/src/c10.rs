use crate::base::*;
use std::ops::*;
macro_rules! pairs { ($($m:ident, $a:ty, $b:ty, $pa:expr, $pb:expr;)*) => { $( mod $m { use super::*; both! {
    triple!(c10_contains, f_contains, fn(a: $a, b: $b) -> bool { TimeContaining::contains(&a, &b) } requires(window(&a, $pa) && window(&b, $pb)) ensures(|r| { let (x, y) = (cb(&a), cb(&b)); *r == (y.0 == M || (x.0 != M && x.0 <= y.0 && y.1 <= x.1)) }));
    triple!(c10_overlaps, f_overlaps, fn(a: $a, b: $b) -> bool { a.overlaps(&b) } requires(window(&a, $pa) && window(&b, $pb)) ensures(|r| { let (x, y) = (cb(&a), cb(&b)); *r == (x.0 != M && y.0 != M && x.0 <= y.1 && y.0 <= x.1) }));
} } )* } }
pairs! { interval_interval, TimeInterval<T>, TimeInterval<T>, false, false; interval_point, TimeInterval<T>, T, false, true; point_interval, T, TimeInterval<T>, true, false; point_point, T, T, true, true;
    interval_range, TimeInterval<T>, Range<T>, false, false; interval_range_inclusive, TimeInterval<T>, RangeInclusive<T>, false, false; interval_range_from, TimeInterval<T>, RangeFrom<T>, false, false;
    interval_range_to, TimeInterval<T>, RangeTo<T>, false, false; interval_range_to_inclusive, TimeInterval<T>, RangeToInclusive<T>, false, false;
    range_interval, Range<T>, TimeInterval<T>, false, false; range_inclusive_interval, RangeInclusive<T>, TimeInterval<T>, false, false; range_from_interval, RangeFrom<T>, TimeInterval<T>, false, false;
    range_to_interval, RangeTo<T>, TimeInterval<T>, false, false; range_to_inclusive_interval, RangeToInclusive<T>, TimeInterval<T>, false, false; range_range, Range<T>, Range<T>, false, false; range_point, Range<T>, T, false, true; }
