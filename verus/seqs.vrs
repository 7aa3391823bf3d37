//@include stamps
// ---- periodic sequences (C20) ------------------------------------------------------------------------------------------------
/// the next date, one period (positive or negative) further; out of the finite range, nothing remains
pub open spec fn stepped(t: int, d: int) -> int { if isinf(t) { t } else if -M() < t + d < M() { t + d } else if d > 0 { M() } else { -M() } }
pub open spec fn date(t: int) -> Option<int> { if isinf(t) { None } else { Some(t) } }
/// where n calls of `next` lead
pub open spec fn walk(t: int, d: int, n: int) -> int
    decreases n
{ if n <= 0 { t } else { stepped(walk(t, d, n - 1), d) } }
/// the number of dates which remain
pub open spec fn left(t: int, d: int) -> int { if isinf(t) { 0 } else if d > 0 { (M() - 1 - t) / d } else { (M() - 1 + t) / (-d) } }
pub open spec fn fine(t: int, d: int) -> bool { -M() <= t <= M() && (0 < d < M() || -M() < d < 0) }
/// every date of the sequence, in its order, then nothing
pub proof fn walk_is(t: int, d: int, n: int)
    requires fine(t, d), 0 <= n
    ensures n <= left(t, d) ==> walk(t, d, n) == t + n * d && (n > 0 ==> !isinf(walk(t, d, n))), n > left(t, d) ==> isinf(walk(t, d, n)),
        !isinf(t) && n <= left(t, d) ==> -M() < t + n * d < M(), 0 <= left(t, d) < 0x1_0000_0000_0000_0000, isinf(t) ==> walk(t, d, n) == t
    decreases n
{
    let m = left(t, d);
    let e = if d > 0 { d } else { -d };
    let room = if d > 0 { M() - 1 - t } else { M() - 1 + t };
    if !isinf(t) {
        assert(room / e <= room && room / e >= 0) by (nonlinear_arith) requires room >= 0, e >= 1;
        assert((room / e) * e <= room < (room / e + 1) * e) by (nonlinear_arith) requires room >= 0, e >= 1;
        if n <= m { assert(n * e <= m * e && 0 <= n * e) by (nonlinear_arith) requires 0 <= n <= m, e >= 1; }
        if n == m + 1 { assert(n * e == (m + 1) * e); }
        assert(n * d == n * e || n * d == -(n * e)) by (nonlinear_arith) requires d == e || d == -e;
        assert(n * d == (if d > 0 { n * e } else { -(n * e) })) by (nonlinear_arith) requires d == (if d > 0 { e } else { -e });
        assert(n * d == (n - 1) * d + d) by (nonlinear_arith);
    }
    if n > 0 { walk_is(t, d, n - 1); } else { assert(0 * d == 0); }
}
#[derive(Copy, Clone)]
pub struct TimeSeqForward { pub t: Timestamp, pub step: TimeValue }
#[derive(Copy, Clone)]
pub struct TimeSeqBackward { pub t: Timestamp, pub step: TimeValue }
/// a panic which is the answer looked for
#[verifier::external_body]
pub fn stop() ensures false { panic!() }
//@for W H V S C in TimeSeqForward:TimeSeqForward:TimeSeqBackward:1:M() TimeSeqBackward:TimeSeqBackward:TimeSeqForward:-1:(-M())
impl %W% {
    pub open spec fn d(&self) -> int { %S% * (self.step.0 as int) }
    /// the last date given, one period before the next one, or the end of the sequence
    pub open spec fn inv(&self) -> bool { 0 < self.step.0 < M() && okv(self.t.0) && self.t.k() != -%C% }
    /// the dates which remain are those of o after n calls of `next`
    pub open spec fn ahead(&self, o: &%W%, n: int) -> bool { self.step == o.step && self.t.k() == walk(o.t.k(), o.d(), n) }
//@fn Timestamped for %H% :: timestamp
    pub fn timestamp(&self) -> (r: Timestamp) ensures r == self.t
//@end
//@fn TimeSequence for %H% :: new
    pub fn new(t: Timestamp, delta: TimeValue) -> (r: Self)
        requires t.ok(), !isinf(t.k()), 0 < delta.0 < M(), !isinf(xadd(t.k(), -(%S% * delta.0)))
        ensures r.inv(), r.step == delta, walk(r.t.k(), r.d(), 1) == t.k()
//@post
        proof { reveal_with_fuel(walk, 2); }
//@end
    /// whatever the period: a sequence which is returned has a strictly positive one
//@fn TimeSequence for %H% :: new as new_or_stop
    pub fn new_or_stop(t: Timestamp, delta: TimeValue) -> (r: Self)
        requires t.ok(), !isinf(t.k()), okv(delta)
        ensures 0 < delta.0 < M()
//@rule vpanic ( ) ==> stop()
//@end
//@fn TimeSequence for %H% :: reverse
    pub fn reverse(self) -> (r: %V%) ensures r.t == self.t, r.step == self.step
//@end
//@fn TimeSequence for %H% :: period
    pub fn period(&self) -> (r: TimeValue) ensures r == self.step
//@end
//@fn TimeSequence for %H% :: len
    pub fn len(&self) -> (r: usize)
        requires self.inv()
        ensures r == left(self.t.k(), self.d())
//@end
//@fn Iterator for %H% :: next
    pub fn next(&mut self) -> (r: Option<Timestamp>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).ahead(old(self), 1), r == (if isinf(final(self).t.k()) { None } else { Some(final(self).t) })
//@rule self . t += $*e ; ==> self.t.add_assign($*e);
//@rule self . t -= $*e ; ==> self.t.sub_assign($*e);
//@rule ( $*c ) . then_some ( $*e ) ==> (if $*c { Some($*e) } else { None })
//@start
        proof { reveal_with_fuel(walk, 2); }
//@end
//@fn Iterator for %H% :: size_hint
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 == left(self.t.k(), self.d()), r.1 == Some(r.0)
//@end
//@fn Iterator for %H% :: count
    pub fn count(self) -> (r: usize)
        requires self.inv()
        ensures r == left(self.t.k(), self.d())
//@end
//@fn Iterator for %H% :: last
    pub fn last(self) -> (r: Option<Timestamp>)
        requires self.inv()
        ensures r is None <==> left(self.t.k(), self.d()) == 0, r is Some ==> r.unwrap().k() == walk(self.t.k(), self.d(), left(self.t.k(), self.d()))
//@rule ( $*c ) . then_some ( $*e ) ==> (if $*c { Some($*e) } else { None })
//@start
        proof { self.places(left(self.t.k(), self.d())); }
//@end
//@fn Iterator for %H% :: nth
    pub fn nth(&mut self, n: usize) -> (r: Option<Timestamp>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).ahead(old(self), n + 1), r == (if isinf(final(self).t.k()) { None } else { Some(final(self).t) })
//@start
        proof { self.places(n + 1); }
//@end
    pub proof fn places(&self, n: int)
        requires self.inv(), n >= 0
        ensures n <= left(self.t.k(), self.d()) ==> walk(self.t.k(), self.d(), n) == self.t.k() + %S% * (n * self.step.0) && 0 <= n * self.step.0 < 2 * M() && (n > 0 ==> !isinf(walk(self.t.k(), self.d(), n))),
            n > left(self.t.k(), self.d()) ==> walk(self.t.k(), self.d(), n) == %C%, 0 <= left(self.t.k(), self.d()) <= u64::MAX
    {
        let (t, d, p) = (self.t.k(), self.d(), self.step.0 as int);
        walk_is(t, d, n);
        assert(n * d == %S% * (n * p)) by (nonlinear_arith) requires d == %S% * p;
        assert(0 <= n * p) by (nonlinear_arith) requires n >= 0, p >= 0;
        if isinf(t) { assert(left(t, d) == 0); if n == 0 { assert(0 * p == 0); } }
        walk_side(t, d, n);
    }
}
//@endfor
pub proof fn walk_side(t: int, d: int, n: int)
    requires fine(t, d), 0 <= n, t != (if d > 0 { -M() } else { M() })
    ensures isinf(walk(t, d, n)) ==> walk(t, d, n) == (if d > 0 { M() } else { -M() })
    decreases n
{ if n > 0 { walk_side(t, d, n - 1); } }
impl Timestamp {
    /// the first multiple of the period not before the date
    pub open spec fn aligned(&self, p: int) -> int { sat(up(self.k(), p)) }
//@fn Timestamp :: forward_sequence
    pub fn forward_sequence(self, period: TimeValue) -> (r: TimeSeqForward)
        requires self.ok(), !isinf(self.k()), 0 < period.0 < M(), self.k() - period.0 > -M()
        ensures r.inv(), r.step == period, walk(r.t.k(), r.d(), 1) == self.k()
//@end
//@fn Timestamp :: forward_periods
    pub fn forward_periods(self, period: TimeValue) -> (r: TimeSeqForward)
        requires self.ok(), !isinf(self.k()), 0 < period.0 < M(), !isinf(self.aligned(period.0 as int)), self.aligned(period.0 as int) - period.0 > -M()
        ensures r.inv(), r.step == period, walk(r.t.k(), r.d(), 1) == self.aligned(period.0 as int)
//@end
//@fn Timestamp :: backward_sequence
    pub fn backward_sequence(self, period: TimeValue) -> (r: TimeSeqBackward)
        requires self.ok(), !isinf(self.k()), 0 < period.0 < M(), self.k() + period.0 < M()
        ensures r.inv(), r.step == period, walk(r.t.k(), r.d(), 1) == self.k()
//@end
//@fn Timestamp :: backward_periods
    pub fn backward_periods(self, period: TimeValue) -> (r: TimeSeqBackward)
        requires self.ok(), !isinf(self.k()), 0 < period.0 < M(), !isinf(self.aligned(period.0 as int)), self.aligned(period.0 as int) + period.0 < M()
        ensures r.inv(), r.step == period, walk(r.t.k(), r.d(), 1) == self.aligned(period.0 as int)
//@end
}
/// the start is the first multiple of the period not before the date
pub proof fn aligned_is(t: Timestamp, p: int)
    requires 0 < p
    ensures up(t.k(), p) % p == 0, t.k() <= up(t.k(), p) < t.k() + p
{
    let x = -t.k();
    assert((x / p) * p <= x < (x / p) * p + p) by (nonlinear_arith) requires p > 0;
    assert(-((x / p) * p) == (-(x / p)) * p) by (nonlinear_arith);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-(x / p), p);
}
/// n calls of `next` and then m of them are n + m of them: `nth` may be followed by any other call
pub proof fn walks(t: int, d: int, n: int, m: int)
    requires n >= 0, m >= 0
    ensures walk(walk(t, d, n), d, m) == walk(t, d, n + m)
    decreases m
{ if m > 0 { walks(t, d, n, m - 1); } }
