use crate::base::*;
type V = TimeValue;
type D = Timestamp;
/// does this bound of a sum stay in the finite range (infinite bounds stay infinite) ?
fn fine(a: i128, b: i128) -> bool { inf(a) || inf(b) || (a + b < M && a + b > -M) }
/// the sum of two intervals given by their bounds
fn sum(x: (i128, i128), y: (i128, i128)) -> (i128, i128) { if x.0 == M || y.0 == M { (M, -M) } else { (addb(x.0, y.0), addb(x.1, y.1)) } }
fn addb(a: i128, b: i128) -> i128 { if inf(a) { a } else if inf(b) { b } else { a + b } }
fn neg(x: (i128, i128)) -> (i128, i128) { (-x.1, -x.0) }
fn sum_ok(x: (i128, i128), y: (i128, i128)) -> bool { x.0 == M || y.0 == M || (fine(x.0, y.0) && fine(x.1, y.1)) }
/// a point is a finite one
fn w<W: Win>(x: &W, point: bool) -> bool { window(x, point) }
macro_rules! ops { ($($m:ident, $a:ty, $b:ty, $r:ty, $pa:expr, $pb:expr;)*) => { $( mod $m { use super::*;
    triple!(c12_add, f_add, fn(a: $a, b: $b) -> $r { a + b } requires(w(&a, $pa) && w(&b, $pb) && sum_ok(cb(&a), cb(&b))) ensures(|r| { let e = sum(cb(&a), cb(&b)); is(r, e.0, e.1) }));
    triple!(c12_sub, f_sub, fn(a: $a, b: $b) -> $r { a - b } requires(w(&a, $pa) && w(&b, $pb) && sum_ok(cb(&a), neg(cb(&b)))) ensures(|r| { let e = sum(cb(&a), neg(cb(&b))); is(r, e.0, e.1) }));
} )* } }
macro_rules! subs { ($($m:ident, $a:ty, $b:ty, $r:ty, $pa:expr, $pb:expr;)*) => { $( mod $m { use super::*;
    triple!(c12_sub, f_sub, fn(a: $a, b: $b) -> $r { a - b } requires(w(&a, $pa) && w(&b, $pb) && sum_ok(cb(&a), neg(cb(&b)))) ensures(|r| { let e = sum(cb(&a), neg(cb(&b))); is(r, e.0, e.1) }));
} )* } }
macro_rules! assigns { ($($m:ident, $a:ty, $b:ty, $pb:expr;)*) => { $( mod $m { use super::*;
    triple!(c12_add_assign, f_add_assign, fn(a: $a, b: $b) -> $a { let mut c = a; c += b; c } requires(w(&b, $pb) && sum_ok(cb(&a), cb(&b))) ensures(|r| { let e = sum(cb(&a), cb(&b)); is(r, e.0, e.1) }));
    triple!(c12_sub_assign, f_sub_assign, fn(a: $a, b: $b) -> $a { let mut c = a; c -= b; c } requires(w(&b, $pb) && sum_ok(cb(&a), neg(cb(&b)))) ensures(|r| { let e = sum(cb(&a), neg(cb(&b))); is(r, e.0, e.1) }));
} )* } }
ops! {
    span_duration, TimeSpan, V, TimeSpan, false, true; slot_duration, TimeSlot, V, TimeSlot, false, true; duration_span, V, TimeSpan, TimeSpan, true, false; duration_slot, V, TimeSlot, TimeSlot, true, false;
    span_span, TimeSpan, TimeSpan, TimeSpan, false, false; slot_span, TimeSlot, TimeSpan, TimeSlot, false, false; date_span, D, TimeSpan, TimeSlot, true, false; span_date, TimeSpan, D, TimeSlot, false, true;
}
subs! { slot_slot, TimeSlot, TimeSlot, TimeSpan, false, false; slot_date, TimeSlot, D, TimeSpan, false, true; date_slot, D, TimeSlot, TimeSpan, true, false; }
assigns! { assign_span_duration, TimeSpan, V, true; assign_slot_duration, TimeSlot, V, true; assign_span_span, TimeSpan, TimeSpan, false; assign_slot_span, TimeSlot, TimeSpan, false; }
