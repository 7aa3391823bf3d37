use crate::base::*;
type V = TimeValue;
type D = Timestamp;
fn period(p: V) -> bool { p.k() > 0 && p.k() < M }
// the sequences yield their start, then one date every period, and nothing once out of the finite range
triple!(c20_forward_first, f_forward_first, fn(t: D, p: V) -> Option<D> { t.forward_sequence(p).next() } requires(period(p) && !inf(t.k()) && t.k() - p.k() > -M) ensures(|r| r.map(|x| x.k()) == Some(t.k())));
triple!(c20_forward_next, f_forward_next, fn(t: D, p: V) -> (Option<D>, Option<D>) { let mut s = t.forward_sequence(p); s.next(); (s.next(), s.next()) } requires(period(p) && !inf(t.k()) && t.k() - p.k() > -M) ensures(|r| { let (a, b) = (t.k() + p.k(), t.k() + 2 * p.k()); r.0.map(|x| x.k()) == (if a < M { Some(a) } else { None }) && r.1.map(|x| x.k()) == (if b < M { Some(b) } else { None }) }));
triple!(c20_backward_first, f_backward_first, fn(t: D, p: V) -> Option<D> { t.backward_sequence(p).next() } requires(period(p) && !inf(t.k()) && t.k() + p.k() < M) ensures(|r| r.map(|x| x.k()) == Some(t.k())));
triple!(c20_backward_next, f_backward_next, fn(t: D, p: V) -> (Option<D>, Option<D>) { let mut s = t.backward_sequence(p); s.next(); (s.next(), s.next()) } requires(period(p) && !inf(t.k()) && t.k() + p.k() < M) ensures(|r| { let (a, b) = (t.k() - p.k(), t.k() - 2 * p.k()); r.0.map(|x| x.k()) == (if a > -M { Some(a) } else { None }) && r.1.map(|x| x.k()) == (if b > -M { Some(b) } else { None }) }));
// a period which is not strictly positive never gives a sequence
always_panics!(c20_forward_period, fn(t: D, p: V) { let _ = t.forward_sequence(p); } requires(p.k() <= 0 && !inf(t.k())));
always_panics!(c20_backward_period, fn(t: D, p: V) { let _ = t.backward_sequence(p); } requires(p.k() <= 0 && !inf(t.k())));
// (a contract the Verus units assume of the standard library or of chrono, proved on its own code)
contract!(c20_assumed_abs_diff, t_absd, fn(a: i64, b: i64) -> u64 { a.abs_diff(b) } ensures(|r| *r as i128 == (a as i128 - b as i128).abs()));
