use crate::base::*;
contract!(c04_as_secs, f_as_secs, fn(a: TimeValue) -> i64 { a.as_secs() } ensures(|r| *r as i128 == a.k() >> 30));
always_panics!(c04_to_std_negative, fn(a: TimeValue) { std::time::Duration::from(a) } requires(a.k() < 0));
// (a contract the Verus units assume of the standard library or of chrono, proved on its own code)
contract!(c04_assumed_duration, t_dur, fn(s: u64, n: u32) -> (u64, u32) { let d = std::time::Duration::new(s, n); (d.as_secs(), d.subsec_nanos()) } requires(n < 1_000_000_000) ensures(|r| r.0 == s && r.1 == n));
triple!(c04_assumed_chrono_sign, t_csign, fn(n: i64) -> (chrono::Duration, chrono::Duration) { (chrono::Duration::nanoseconds(n), chrono::Duration::zero()) } requires(true) ensures(|r| (r.0 < r.1) == (n < 0) && (r.0 == r.1) == (n == 0) && (r.0 > r.1) == (n > 0)));
