use crate::base::*;
/// whole seconds per unit
const YEAR: i128 = 31_556_952;
fn whole(n: i128, secs: i128) -> i128 { sat(n * secs * (1 << 30)) }
macro_rules! from_i64 { ($($h:ident $f:ident $call:ident $secs:expr;)*) => { $( contract!($h, $f, fn(n: i64) -> TimeValue { TimeValue::$call(n) } ensures(|r| r.k() == whole(n as i128, $secs))); )* } }
from_i64! {
    c02_from_years f_from_years from_years YEAR; c02_from_months f_from_months from_months YEAR / 12; c02_from_weeks f_from_weeks from_weeks 604800;
    c02_from_days f_from_days from_days 86400; c02_from_hours f_from_hours from_hours 3600; c02_from_mins f_from_mins from_mins 60; c02_from_secs f_from_secs from_secs 1;
}
/// from any integer type: the same number, clamped to what an i64 holds (which is far beyond the finite range of every unit)
fn whole_u(n: u128, secs: i128) -> i128 { if n > 1 << 64 { M } else { whole(n as i128, secs) } }
fn whole_i(n: i128, secs: i128) -> i128 { if n > 1 << 64 { M } else if n < -(1 << 64) { -M } else { whole(n, secs) } }
fn clamp_u(n: u128) -> i128 { if n > M as u128 { M } else { n as i128 } }
fn clamp_i(n: i128) -> i128 { if n > M { M } else if n < -M { -M } else { n } }
/// stands for from_millis, from_micros and from_nanos (whose contracts are proved apart): reports its argument
fn recorder(n: i64) -> TimeValue { TimeValue::from_ticks(n) }
macro_rules! int_units { ($($m:ident $t:ty, $big:ty, $whole:ident, $clamp:ident;)*) => { $( mod $m { use super::*; use chronologic::IntoTimeValue;
    contract!(c02_years, f_years, fn(n: $t) -> TimeValue { n.years() } ensures(|r| r.k() == $whole(n as $big, YEAR)));
    contract!(c02_months, f_months, fn(n: $t) -> TimeValue { n.months() } ensures(|r| r.k() == $whole(n as $big, YEAR / 12)));
    contract!(c02_weeks, f_weeks, fn(n: $t) -> TimeValue { n.weeks() } ensures(|r| r.k() == $whole(n as $big, 604800)));
    contract!(c02_days, f_days, fn(n: $t) -> TimeValue { n.days() } ensures(|r| r.k() == $whole(n as $big, 86400)));
    contract!(c02_hours, f_hours, fn(n: $t) -> TimeValue { n.hours() } ensures(|r| r.k() == $whole(n as $big, 3600)));
    contract!(c02_mins, f_mins, fn(n: $t) -> TimeValue { n.mins() } ensures(|r| r.k() == $whole(n as $big, 60)));
    contract!(c02_secs, f_secs, fn(n: $t) -> TimeValue { n.secs() } ensures(|r| r.k() == $whole(n as $big, 1)));
    contract!(c02_ticks, f_ticks, fn(n: $t) -> TimeValue { n.ticks() } ensures(|r| r.k() == $clamp(n as $big)));
    #[kani::proof] #[kani::stub(TimeValue::from_millis, recorder)] fn c02_millis() { let n: $t = kani::any(); assert!(n.millis().k() == $clamp(n as $big)); }
    #[kani::proof] #[kani::stub(TimeValue::from_micros, recorder)] fn c02_micros() { let n: $t = kani::any(); assert!(n.micros().k() == $clamp(n as $big)); }
    #[kani::proof] #[kani::stub(TimeValue::from_nanos, recorder)] fn c02_nanos() { let n: $t = kani::any(); assert!(n.nanos().k() == $clamp(n as $big)); }
} )* } }
int_units! { int_i8 i8, i128, whole_i, clamp_i; int_u8 u8, i128, whole_i, clamp_i; int_i16 i16, i128, whole_i, clamp_i; int_u16 u16, i128, whole_i, clamp_i;
    int_i32 i32, i128, whole_i, clamp_i; int_u32 u32, i128, whole_i, clamp_i; int_i64 i64, i128, whole_i, clamp_i; int_u64 u64, i128, whole_i, clamp_i;
    int_i128 i128, i128, whole_i, clamp_i; int_u128 u128, u128, whole_u, clamp_u; int_isize isize, i128, whole_i, clamp_i; int_usize usize, i128, whole_i, clamp_i; }
// (a contract the Verus units assume of the standard library or of chrono, proved on its own code)
contract!(c02_assumed_saturating_mul, t_smul, fn(a: i64, b: i64) -> i64 { a.saturating_mul(b) } ensures(|r| *r as i128 == (a as i128 * b as i128).clamp(i64::MIN as i128, i64::MAX as i128)));
