use crate::base::*;
type V = TimeValue;
type D = Timestamp;
contract!(c01_add, f_add, fn(a: V, b: V) -> V { a + b } requires(!clash(a.k(), b.k())) ensures(|r| r.k() == add(a.k(), b.k())));
contract!(c01_sub, f_sub, fn(a: V, b: V) -> V { a - b } requires(!clash(a.k(), -b.k())) ensures(|r| r.k() == add(a.k(), -b.k())));
triple!(c01_add_assign, f_add_assign, fn(a: V, b: V) -> V { let mut c = a; c += b; c } requires(!clash(a.k(), b.k())) ensures(|r| r.k() == add(a.k(), b.k())));
triple!(c01_sub_assign, f_sub_assign, fn(a: V, b: V) -> V { let mut c = a; c -= b; c } requires(!clash(a.k(), -b.k())) ensures(|r| r.k() == add(a.k(), -b.k())));
contract!(c01_neg, f_neg, fn(a: V) -> V { -a } ensures(|r| r.k() == -a.k()));
contract!(c01_date_add, f_date_add, fn(a: D, b: V) -> D { a + b } requires(!clash(a.k(), b.k())) ensures(|r| r.k() == add(a.k(), b.k())));
contract!(c01_date_sub, f_date_sub, fn(a: D, b: V) -> D { a - b } requires(!clash(a.k(), -b.k())) ensures(|r| r.k() == add(a.k(), -b.k())));
triple!(c01_date_add_assign, f_date_add_assign, fn(a: D, b: V) -> D { let mut c = a; c += b; c } requires(!clash(a.k(), b.k())) ensures(|r| r.k() == add(a.k(), b.k())));
triple!(c01_date_sub_assign, f_date_sub_assign, fn(a: D, b: V) -> D { let mut c = a; c -= b; c } requires(!clash(a.k(), -b.k())) ensures(|r| r.k() == add(a.k(), -b.k())));
contract!(c01_add_date, f_add_date, fn(a: V, b: D) -> D { a + b } requires(!clash(a.k(), b.k())) ensures(|r| r.k() == add(a.k(), b.k())));
contract!(c01_sub_date, f_sub_date, fn(a: V, b: D) -> D { a - b } requires(!clash(a.k(), -b.k())) ensures(|r| r.k() == add(a.k(), -b.k())));
contract!(c01_distance, f_distance, fn(a: D, b: D) -> V { a - b } requires(!clash(a.k(), -b.k())) ensures(|r| r.k() == add(a.k(), -b.k())));
contract!(c01_date_neg, f_date_neg, fn(a: D) -> D { -a } ensures(|r| r.k() == -a.k()));
contract!(c01_from_ticks, f_from_ticks, fn(a: i64) -> V { V::from_ticks(a) } ensures(|r| r.k() == sat(a as i128)));
contract!(c01_from_ticks_unchecked, f_from_ticks_unchecked, fn(a: i64) -> V { unsafe { V::from_ticks_unchecked(a) } } requires(a != i64::MIN) ensures(|r| r.k() == a as i128));
contract!(c01_as_ticks, f_as_ticks, fn(a: V) -> i64 { a.as_ticks() } ensures(|r| *r as i128 == a.k()));
contract!(c01_from_origin, f_from_origin, fn(a: V) -> D { D::from_origin(a) } ensures(|r| r.since_origin().as_ticks() == a.as_ticks()));
contract!(c01_after, f_after, fn(a: V) -> V { a.just_after() } ensures(|r| r.k() == if inf(a.k()) { a.k() } else { a.k() + 1 }));
contract!(c01_before, f_before, fn(a: V) -> V { a.just_before() } ensures(|r| r.k() == if inf(a.k()) { a.k() } else { a.k() - 1 }));
contract!(c01_date_after, f_date_after, fn(a: D) -> D { a.just_after() } ensures(|r| r.k() == if inf(a.k()) { a.k() } else { a.k() + 1 }));
contract!(c01_date_before, f_date_before, fn(a: D) -> D { a.just_before() } ensures(|r| r.k() == if inf(a.k()) { a.k() } else { a.k() - 1 }));
contract!(c01_tests, f_tests, fn(a: V) -> (bool, bool, bool) { (a.is_finite(), a.is_future_infinite(), a.is_past_infinite()) } ensures(|r| *r == (!inf(a.k()), a.k() == M, a.k() == -M)));
contract!(c01_date_tests, f_date_tests, fn(a: D) -> (bool, bool, bool) { (a.is_finite(), a.is_future_infinite(), a.is_past_infinite()) } ensures(|r| *r == (!inf(a.k()), a.k() == M, a.k() == -M)));
contract!(c01_signs, f_signs, fn(a: V) -> (bool, bool, bool, bool, bool) { (a.is_zero(), a.is_positive(), a.is_negative(), a.is_strictly_positive(), a.is_strictly_negative()) } ensures(|r| *r == (a.k() == 0, a.k() >= 0, a.k() <= 0, a.k() > 0, a.k() < 0)));
contract!(c01_infinite, f_infinite, fn() -> (V, D, V, D) { (V::INFINITE, D::INFINITE, V::default(), D::default()) } ensures(|r| r.0.k() == M && r.1.k() == M && r.2.k() == 0 && r.3.k() == 0));
contract!(c01_cmp, f_cmp, fn(a: V, b: V) -> (std::cmp::Ordering, Option<std::cmp::Ordering>) { (a.cmp(&b), V::partial_cmp(&a, &b)) } ensures(|r| r.0 == a.k().cmp(&b.k()) && r.1 == Some(a.k().cmp(&b.k()))));
contract!(c01_rel, f_rel, fn(a: V, b: V) -> (bool, bool, bool, bool, bool) { (a == b, a < b, a <= b, a > b, a >= b) } ensures(|r| *r == (a.k() == b.k(), a.k() < b.k(), a.k() <= b.k(), a.k() > b.k(), a.k() >= b.k())));
contract!(c01_date_cmp, f_date_cmp, fn(a: D, b: D) -> std::cmp::Ordering { a.cmp(&b) } ensures(|r| *r == a.k().cmp(&b.k())));
contract!(c01_date_rel, f_date_rel, fn(a: D, b: D) -> (bool, bool, bool, bool, bool) { (a == b, a < b, a <= b, a > b, a >= b) } ensures(|r| *r == (a.k() == b.k(), a.k() < b.k(), a.k() <= b.k(), a.k() > b.k(), a.k() >= b.k())));
always_panics!(c01_clash_add, fn(a: V, b: V) { a + b } requires(clash(a.k(), b.k())));
always_panics!(c01_clash_sub, fn(a: V, b: V) { a - b } requires(clash(a.k(), -b.k())));
always_panics!(c01_clash_add_assign, fn(a: V, b: V) { let mut c = a; c += b; } requires(clash(a.k(), b.k())));
always_panics!(c01_clash_sub_assign, fn(a: V, b: V) { let mut c = a; c -= b; } requires(clash(a.k(), -b.k())));
always_panics!(c01_clash_date_add, fn(a: D, b: V) { a + b } requires(clash(a.k(), b.k())));
always_panics!(c01_clash_date_sub, fn(a: D, b: V) { a - b } requires(clash(a.k(), -b.k())));
always_panics!(c01_clash_distance, fn(a: D, b: D) { a - b } requires(clash(a.k(), -b.k())));
// (a contract the Verus units assume of the standard library or of chrono, proved on its own code)
contract!(c01_assumed_saturating_add, t_sadd, fn(a: i64, b: i64) -> i64 { a.saturating_add(b) } ensures(|r| *r as i128 == (a as i128 + b as i128).clamp(i64::MIN as i128, i64::MAX as i128)));
contract!(c01_assumed_abs, t_abs, fn(a: i64) -> i64 { a.abs() } requires(a != i64::MIN) ensures(|r| *r == if a < 0 { -a } else { a }));
