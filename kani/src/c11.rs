use crate::base::*;
use std::cmp::Ordering::{self, *};
use std::ops::*;
macro_rules! pairs { ($($m:ident, $b:ty, $pb:expr;)*) => { $( mod $m { use super::*; both! {
    triple!(c11_eq, f_eq, fn(a: TimeInterval<T>, b: $b) -> (bool, bool) { (a == b, a != b) } requires(window(&b, $pb)) ensures(|r| { let e = cb(&a) == cb(&b); *r == (e, !e) }));
    triple!(c11_rel, f_rel, fn(a: TimeInterval<T>, b: $b) -> (bool, bool, bool, bool) { (a < b, a <= b, a > b, a >= b) } requires(window(&b, $pb)) ensures(|r| { let (x, y) = (cb(&a), cb(&b)); let n = x.0 != M && y.0 != M; let (l, g, e) = (n && x.1 < y.0, n && x.0 > y.1, x == y); *r == (l, l || e, g, g || e) }));
    triple!(c11_cmp, f_cmp, fn(a: TimeInterval<T>, b: $b) -> Option<Ordering> { a.partial_cmp(&b) } requires(window(&b, $pb)) ensures(|r| { let (x, y) = (cb(&a), cb(&b)); let n = x.0 != M && y.0 != M; *r == if n && x.1 < y.0 { Some(Less) } else if n && x.0 > y.1 { Some(Greater) } else if x == y { Some(Equal) } else { None } }));
} } )* } }
pairs! { interval, TimeInterval<T>, false; point, T, true; range, Range<T>, false; range_inclusive, RangeInclusive<T>, false; range_from, RangeFrom<T>, false; range_to, RangeTo<T>, false; range_to_inclusive, RangeToInclusive<T>, false; }
