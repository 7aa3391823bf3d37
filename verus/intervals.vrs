//@include base
//@grule T :: INFINITE ==> TimeValue::INFINITE
//@grule I :: TimePoint :: INFINITE ==> TimeValue::INFINITE
//@grule Self :: TimePoint :: INFINITE ==> TimeValue::INFINITE
// ---- intervals ---------------------------------------------------------------------------------------------------------
impl TimeValue {
    /// `Ord::min`/`Ord::max`, which the standard library defines by the order
    fn min(self, o: TimeValue) -> (r: TimeValue) ensures r == (if o.0 < self.0 { o } else { self }) { if o < self { o } else { self } }
    fn max(self, o: TimeValue) -> (r: TimeValue) ensures r == (if o.0 < self.0 { self } else { o }) { if o < self { self } else { o } }
}

#[derive(Copy, Clone)]
pub struct TimeInterval { pub lower: TimeValue, pub upper: TimeValue }

/// non-empty: it holds at least one finite point
pub open spec fn ne(t: TimeInterval) -> bool { -M() <= t.lower.0 < M() && -M() < t.upper.0 <= M() && t.lower.0 <= t.upper.0 }
/// the empty interval
pub open spec fn em(t: TimeInterval) -> bool { t.lower.0 == M() && t.upper.0 == -M() }
pub open spec fn okt(t: TimeInterval) -> bool { ne(t) || em(t) }
impl TimeInterval {
    /// the points from a bound to the other, on the extended line
    pub open spec fn has(&self, x: int) -> bool { self.lower.0 <= x <= self.upper.0 }
    pub open spec fn spec_new(l: TimeValue, u: TimeValue) -> TimeInterval {
        if l.0 < u.0 || (l.0 == u.0 && !isinf(l.0 as int)) { TimeInterval { lower: l, upper: u } } else { TimeInterval { lower: TimeValue(M() as i64), upper: TimeValue((-M()) as i64) } }
    }
//@fn TimeBounds for TimeInterval<T> :: is_empty
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.lower.0 == M())
//@end
//@fn TimeBounds for TimeInterval<T> :: lower_bound
    pub fn lower_bound(&self) -> (r: TimeValue) ensures r == self.lower
//@end
//@fn TimeBounds for TimeInterval<T> :: upper_bound
    pub fn upper_bound(&self) -> (r: TimeValue) ensures r == self.upper
//@end
//@fn TimeBounds for TimeInterval<T> :: is_singleton
    pub fn is_singleton(&self) -> (r: bool) requires okt(*self) ensures r == (ne(*self) && self.lower == self.upper)
//@end
//@fn TimeBounds for TimeInterval<T> :: is_low_bounded
    pub fn is_low_bounded(&self) -> (r: bool) requires okt(*self) ensures r == (ne(*self) && self.lower.0 > -M())
//@end
//@fn TimeBounds for TimeInterval<T> :: is_up_bounded
    pub fn is_up_bounded(&self) -> (r: bool) requires okt(*self) ensures r == (ne(*self) && self.upper.0 < M())
//@end
//@fn TimeBounds for TimeInterval<T> :: is_bounded
    pub fn is_bounded(&self) -> (r: bool) requires okt(*self) ensures r == (ne(*self) && self.lower.0 > -M() && self.upper.0 < M())
//@end
//@fn TimeInterval<T> :: empty
    pub fn empty() -> (r: Self) ensures em(r)
//@end
//@fn Default for TimeInterval<T> :: default
    pub fn default() -> (r: Self) ensures em(r)
//@end
//@fn TimeInterval<T> :: new_unchecked
    pub fn new_unchecked(lower: TimeValue, upper: TimeValue) -> (r: Self) requires okv(lower), okv(upper), lower.0 <= upper.0, lower.0 != M(), upper.0 != -M() ensures r.lower == lower, r.upper == upper, okt(r)
//@end
//@fn TimeInterval<T> :: singleton
    pub fn singleton(t: TimeValue) -> (r: Self) requires okv(t) ensures r == Self::spec_new(t, t), okt(r)
//@end
//@fn TimeInterval<T> :: new
    pub fn new(lower: TimeValue, upper: TimeValue) -> (r: Self) requires okv(lower), okv(upper)
        ensures r == Self::spec_new(lower, upper), okt(r)
//@end
//@fn TimeInterval<T> :: after
    pub fn after(t: TimeValue) -> (r: Self) requires okv(t) ensures r == Self::spec_new(t, TimeValue::INFINITE), okt(r)
//@end
//@fn TimeInterval<T> :: before
    pub fn before(t: TimeValue) -> (r: Self) requires okv(t) ensures r == Self::spec_new(TimeValue((-M()) as i64), t), okt(r)
//@end
//@fn TimeInterval<T> :: all
    pub fn all() -> (r: Self) ensures r.lower.0 == -M(), r.upper.0 == M()
//@end
//@fn TimeTruncation for TimeInterval<T> :: truncate_before
    pub fn truncate_before(&mut self, lower: TimeValue) -> (r: bool) requires okt(*old(self)), okv(lower)
        ensures okt(*final(self)), forall|x: int| -M() < x < M() ==> (final(self).has(x) <==> old(self).has(x) && lower.0 <= x),
            forall|x: int| -M() <= x <= M() && lower.0 <= x && lower.0 < M() ==> (final(self).has(x) <==> old(self).has(x)),
            !r ==> *final(self) == *old(self), r ==> *final(self) != *old(self), *final(self) == (if lower.0 <= old(self).lower.0 { *old(self) } else { TimeInterval::spec_new(lower, old(self).upper) })
//@end
//@fn TimeTruncation for TimeInterval<T> :: truncate_after
    pub fn truncate_after(&mut self, upper: TimeValue) -> (r: bool) requires okt(*old(self)), okv(upper)
        ensures okt(*final(self)), forall|x: int| -M() < x < M() ==> (final(self).has(x) <==> old(self).has(x) && x <= upper.0),
            forall|x: int| -M() <= x <= M() && x <= upper.0 && upper.0 > -M() ==> (final(self).has(x) <==> old(self).has(x)),
            !r ==> *final(self) == *old(self), r ==> *final(self) != *old(self), *final(self) == (if upper.0 >= old(self).upper.0 { *old(self) } else { TimeInterval::spec_new(old(self).lower, upper) })
//@end
}

/// windows made of one interval at most (points, intervals, ranges): the code generic over `TimeConvex` uses nothing else of them.
/// The contracts are proved for each such type on the compiled crate by Kani (C05).
pub trait TimeConvex: Sized {
    spec fn iv(&self) -> TimeInterval;
    fn is_empty(&self) -> (r: bool) requires okt(self.iv()) ensures r == em(self.iv());
    fn lower_bound(&self) -> (r: TimeValue) requires okt(self.iv()) ensures r == self.iv().lower;
    fn upper_bound(&self) -> (r: TimeValue) requires okt(self.iv()) ensures r == self.iv().upper;
    fn into(self) -> (r: TimeInterval) requires okt(self.iv()) ensures r == self.iv();
}
impl TimeConvex for TimeInterval {
    open spec fn iv(&self) -> TimeInterval { *self }
    fn is_empty(&self) -> (r: bool) { TimeInterval::is_empty(self) }
    fn lower_bound(&self) -> (r: TimeValue) { self.lower }
    fn upper_bound(&self) -> (r: TimeValue) { self.upper }
    fn into(self) -> (r: TimeInterval) { self }
}
