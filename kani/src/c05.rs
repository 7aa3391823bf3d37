use crate::base::*;
use std::ops::*;
both! {
type I = TimeInterval<T>;
contract!(c05_new, f_new, fn(a: T, b: T) -> I { I::new(a, b) } ensures(|r| is(r, a.k(), b.k())));
contract!(c05_pair, f_pair, fn(a: T, b: T) -> I { I::from((a, b)) } ensures(|r| is(r, a.k(), b.k())));
contract!(c05_singleton, f_singleton, fn(a: T) -> I { I::singleton(a) } ensures(|r| is(r, a.k(), a.k())));
contract!(c05_point, f_point, fn(a: T) -> I { I::from(a) } ensures(|r| is(r, a.k(), a.k())));
contract!(c05_after, f_after, fn(a: T) -> I { I::after(a) } ensures(|r| is(r, a.k(), M)));
contract!(c05_before, f_before, fn(a: T) -> I { I::before(a) } ensures(|r| is(r, -M, a.k())));
contract!(c05_constants, f_constants, fn() -> (I, I, I, I) { (I::all(), I::from(..), I::empty(), I::default()) } ensures(|r| is(&r.0, -M, M) && is(&r.1, -M, M) && is(&r.2, M, -M) && is(&r.3, M, -M)));
contract!(c05_new_unchecked, f_new_unchecked, fn(a: T, b: T) -> I { unsafe { I::new_unchecked(a, b) } } requires(a.k() <= b.k() && a.k() < M && b.k() > -M) ensures(|r| is(r, a.k(), b.k())));
contract!(c05_centered, f_centered, fn(o: T, d: TimeValue) -> Option<I> { I::centered(o, d) } requires(!inf(o.k())) ensures(|r| match r { None => d.k() < 0, Some(i) => d.k() >= 0 && is(i, if d.k() == M { -M } else { sat(o.k() - d.k()) }, if d.k() == M { M } else { sat(o.k() + d.k()) }) }));
contract!(c05_enlarge, f_enlarge, fn(i: I, d: TimeValue) -> Option<I> { i.enlarge(d) } requires(!inf(d.k())) ensures(|r| { let (l, u) = if void(&i) { (M, -M) } else { canon((add(lo(&i), -d.k()), add(up(&i), d.k()))) }; match r { None => l == M, Some(j) => l != M && is(j, l, u) } }));
contract!(c05_opposite, f_opposite, fn(i: I) -> I { -i } ensures(|r| is(r, -up(&i), -lo(&i))));
}
contract!(c05_duration, f_duration, fn(i: TimeSlot) -> TimeValue { i.duration() } ensures(|r| r.k() == if void(&i) { 0 } else if lo(&i) == -M || up(&i) == M { M } else { sat(up(&i) - lo(&i)) }));
macro_rules! questions { ($m:ident, $w:ty, $point:expr, $($from:tt)*) => { mod $m { use super::*; both! {
    contract!(c05_bounds, f_bounds, fn(w: $w) -> (T, T, bool, bool) { (w.lower_bound(), w.upper_bound(), TimeBounds::is_empty(&w), w.is_singleton()) } requires(window(&w, $point)) ensures(|r| { let (l, u) = cb(&w); r.0.k() == l && r.1.k() == u && r.2 == (l == M) && r.3 == (l == u) }));
    contract!(c05_bounded, f_bounded, fn(w: $w) -> (bool, bool, bool, bool) { (w.is_low_bounded(), w.is_up_bounded(), w.is_bounded(), w.is_all()) } requires(window(&w, $point)) ensures(|r| { let (l, u) = cb(&w); let e = l == M; *r == (!e && l > -M, !e && u < M, !e && l > -M && u < M, l == -M && u == M) }));
    contract!(c05_convex, f_convex, fn(w: $w) -> (usize, bool, TimeInterval<T>) { (w.convex_count(), w.is_convex(), w.convex_envelope()) } requires(window(&w, $point)) ensures(|r| { let (l, u) = cb(&w); r.0 == (if l == M { 0 } else { 1 }) && r.1 && is(&r.2, l, u) }));
    triple!(c05_iter, f_iter, fn(w: $w) -> (Option<TimeInterval<T>>, bool) { let mut it = w.iter(); let a = it.next(); (a, it.next().is_none()) } requires(window(&w, $point)) ensures(|r| { let (l, u) = cb(&w); r.1 && match &r.0 { None => l == M, Some(i) => l != M && is(i, l, u) } }));
    contract!(c05_into, f_into, fn(w: $w) -> TimeInterval<T> { TimeInterval::from(w) } requires(window(&w, $point)) ensures(|r| { let (l, u) = canon(old(w.raw())); is(r, l, u) }));
} } } }
questions!(interval, TimeInterval<T>, false,);
questions!(point, T, true,);
questions!(range, Range<T>, false,);
questions!(range_inclusive, RangeInclusive<T>, false,);
questions!(range_from, RangeFrom<T>, false,);
questions!(range_to, RangeTo<T>, false,);
questions!(range_to_inclusive, RangeToInclusive<T>, false,);
