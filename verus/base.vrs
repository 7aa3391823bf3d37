#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::cmp::Ordering;
use std::ops::{Add, AddAssign, Div, Mul, Neg, Sub, SubAssign};
use std::mem::swap;
fn main() {}
verus! {
global size_of usize == 8;

// ---- trusted contracts of the standard library -----------------------------------------------------------------------
pub assume_specification [i64::saturating_add] (a: i64, b: i64) -> (r: i64)
    ensures r == if a + b > i64::MAX { i64::MAX as int } else if a + b < i64::MIN { i64::MIN as int } else { a + b };
pub assume_specification [i64::saturating_mul] (a: i64, b: i64) -> (r: i64)
    ensures r == if a * b > i64::MAX { i64::MAX as int } else if a * b < i64::MIN { i64::MIN as int } else { a * b };
pub assume_specification [i64::abs] (a: i64) -> (r: i64)
    requires a != i64::MIN
    ensures r == if a < 0 { -a } else { a as int };

/// stands for a panic: proved unreachable
#[verifier::external_body]
pub fn vpanic() -> ! requires false { panic!() }

// ---- constants ---------------------------------------------------------------------------------------------------------
pub open spec fn M() -> int { 0x7fff_ffff_ffff_ffff }

pub const INFINITE_TIME_VALUE: i64 =
//@const - :: INFINITE_TIME_VALUE
;
pub const SUBSEC_BITLEN: usize =
//@const - :: SUBSEC_BITLEN
;
pub proof fn constants() ensures INFINITE_TIME_VALUE == M(), SUBSEC_BITLEN == 30, TimeValue::INFINITE.0 == M() {}

// ---- time values ---------------------------------------------------------------------------------------------------------
#[derive(Copy, Clone)]
pub struct TimeValue(pub i64);

pub open spec fn okv(t: TimeValue) -> bool { -M() <= t.0 <= M() }
pub open spec fn sgn(x: int) -> int { if x > 0 { 1 } else if x < 0 { -1 } else { 0 } }
/// saturation of an exact number of ticks
pub open spec fn sat(x: int) -> int { if x > M() { M() } else if x < -M() { -M() } else { x } }
pub open spec fn isinf(x: int) -> bool { x == M() || x == -M() }
/// sum on the extended line
pub open spec fn xadd(a: int, b: int) -> int { if isinf(a) { a } else if isinf(b) { b } else { sat(a + b) } }
pub open spec fn xaddok(a: int, b: int) -> bool { !(a == M() && b == -M()) && !(a == -M() && b == M()) }

// comparisons derived by the compiler on the tick number (also proved by Kani on the compiled crate)
impl PartialEqSpecImpl for TimeValue { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &TimeValue) -> bool { self.0 == o.0 } }
impl PartialEq for TimeValue { fn eq(&self, o: &TimeValue) -> (r: bool) { self.0 == o.0 } }
impl Eq for TimeValue {}
impl PartialOrdSpecImpl for TimeValue { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &TimeValue) -> Option<Ordering> { if self.0 < o.0 { Some(Ordering::Less) } else if self.0 > o.0 { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl PartialOrd for TimeValue { fn partial_cmp(&self, o: &TimeValue) -> (r: Option<Ordering>) { if self.0 < o.0 { Some(Ordering::Less) } else if self.0 > o.0 { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl OrdSpecImpl for TimeValue { open spec fn obeys_cmp_spec() -> bool { true }
  open spec fn cmp_spec(&self, o: &TimeValue) -> Ordering { if self.0 < o.0 { Ordering::Less } else if self.0 > o.0 { Ordering::Greater } else { Ordering::Equal } } }
impl Ord for TimeValue { fn cmp(&self, o: &TimeValue) -> (r: Ordering) { if self.0 < o.0 { Ordering::Less } else if self.0 > o.0 { Ordering::Greater } else { Ordering::Equal } } }

impl NegSpecImpl for TimeValue { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { self.0 != i64::MIN } open spec fn neg_spec(self) -> TimeValue { TimeValue((-self.0) as i64) } }
impl Neg for TimeValue { type Output = TimeValue;
//@fn Neg for TimeValue :: neg
    fn neg(self) -> (r: TimeValue)
//@end
}
impl AddSpecImpl<TimeValue> for TimeValue { open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TimeValue) -> bool { okv(self) && okv(o) && xaddok(self.0 as int, o.0 as int) }
  open spec fn add_spec(self, o: TimeValue) -> TimeValue { TimeValue(xadd(self.0 as int, o.0 as int) as i64) } }
impl Add for TimeValue { type Output = TimeValue;
//@fn Add for TimeValue :: add
    fn add(self, other: Self) -> (r: Self)
//@end
}
impl SubSpecImpl<TimeValue> for TimeValue { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TimeValue) -> bool { okv(self) && okv(o) && xaddok(self.0 as int, -o.0 as int) }
  open spec fn sub_spec(self, o: TimeValue) -> TimeValue { TimeValue(xadd(self.0 as int, -o.0 as int) as i64) } }
impl Sub for TimeValue { type Output = TimeValue;
//@fn Sub for TimeValue :: sub
    fn sub(self, v: TimeValue) -> (r: TimeValue)
//@end
}
impl TimeValue {
    pub const INFINITE: TimeValue =
//@const TimePoint for TimeValue :: INFINITE
    ;
    /// `TimeValue::default()` derived by the compiler
    #[verifier::external_body]
    pub fn default() -> (r: TimeValue) ensures r.0 == 0 { TimeValue(0) }
//@fn TimeValue :: from_ticks
    pub fn from_ticks(t: i64) -> (r: Self)
        ensures r.0 == sat(t as int)
//@end
//@fn TimePoint for TimeValue :: is_future_infinite
    pub fn is_future_infinite(&self) -> (r: bool) ensures r == (self.0 == M())
//@end
//@fn TimePoint for TimeValue :: is_past_infinite
    pub fn is_past_infinite(&self) -> (r: bool) requires okv(*self) ensures r == (self.0 == -M())
//@end
//@fn TimePoint for TimeValue :: is_finite
    pub fn is_finite(&self) -> (r: bool) requires okv(*self) ensures r == (-M() < self.0 < M())
//@end
//@fn TimePoint for TimeValue :: just_after
    pub fn just_after(&self) -> (r: TimeValue) requires okv(*self) ensures r.0 == if isinf(self.0 as int) { self.0 as int } else { self.0 + 1 }
//@end
//@fn TimePoint for TimeValue :: just_before
    pub fn just_before(&self) -> (r: TimeValue) requires okv(*self) ensures r.0 == if isinf(self.0 as int) { self.0 as int } else { self.0 - 1 }
//@end
//@fn TimeValue :: as_ticks
    pub fn as_ticks(&self) -> (r: i64) ensures r == self.0
//@end
//@fn TimeValue :: is_zero
    pub fn is_zero(&self) -> (r: bool) ensures r == (self.0 == 0)
//@end
//@fn TimeValue :: is_positive
    pub fn is_positive(&self) -> (r: bool) ensures r == (self.0 >= 0)
//@end
//@fn TimeValue :: is_negative
    pub fn is_negative(&self) -> (r: bool) ensures r == (self.0 <= 0)
//@end
//@fn TimeValue :: is_strictly_positive
    pub fn is_strictly_positive(&self) -> (r: bool) ensures r == (self.0 > 0)
//@end
//@fn TimeValue :: is_strictly_negative
    pub fn is_strictly_negative(&self) -> (r: bool) ensures r == (self.0 < 0)
//@end
}
#[derive(PartialEq, Eq, Structural)]
pub enum TimePropagation { Unchanged, Propagated }
#[derive(PartialEq, Eq, Structural)]
pub enum TimeInconsistencyError { Recovered, Fatal }
pub type TimePropagationResult = Result<TimePropagation, TimeInconsistencyError>;
