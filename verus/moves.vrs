//@include setops
// ---- translation (C12): on a line without end, an infinite bound meaning that there is no bound -----------------------------
pub open spec fn holds(t: TimeInterval, x: int) -> bool { ne(t) && (t.lower.0 == -M() || t.lower.0 <= x) && (t.upper.0 == M() || x <= t.upper.0) }
pub open spec fn set_holds(s: Seq<TimeInterval>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && holds(#[trigger] s[k], x) }
/// the bound moved, and moved within the finite range
pub open spec fn plus(a: int, d: int) -> int { if isinf(a) { a } else if isinf(d) { d } else { a + d } }
pub open spec fn infits(a: int, d: int) -> bool { isinf(a) || isinf(d) || -M() < a + d < M() }
pub open spec fn void() -> TimeInterval { block(M(), -M()) }
pub open spec fn summed(t: TimeInterval, u: TimeInterval) -> TimeInterval { if em(t) || em(u) { void() } else { block(plus(t.lower.0 as int, u.lower.0 as int), plus(t.upper.0 as int, u.upper.0 as int)) } }
pub open spec fn movable(t: TimeInterval, u: TimeInterval) -> bool { okt(t) && okt(u) && (ne(t) && ne(u) ==> infits(t.lower.0 as int, u.lower.0 as int) && infits(t.upper.0 as int, u.upper.0 as int)) }
pub open spec fn pt(d: TimeValue) -> TimeInterval { TimeInterval { lower: d, upper: d } }
pub open spec fn opp(t: TimeInterval) -> TimeInterval { block(-t.upper.0, -t.lower.0) }
pub proof fn sum_one(t: TimeInterval, u: TimeInterval, x: int, y: int)
    requires movable(t, u), holds(t, x), holds(u, y)
    ensures holds(summed(t, u), x + y)
{}
pub proof fn sum_two(t: TimeInterval, u: TimeInterval, z: int) -> (p: (int, int))
    requires movable(t, u), holds(summed(t, u), z)
    ensures holds(t, p.0), holds(u, p.1), p.0 + p.1 == z
{
    // the greatest of the lower limits on y, or the least of the upper ones, if there are any
    let (ul, uu, zl, zu) = (u.lower.0 as int, u.upper.0 as int, z - t.upper.0, z - t.lower.0);
    let y = if ul != -M() && t.upper.0 != M() { if ul > zl { ul } else { zl } } else if ul != -M() { ul } else if t.upper.0 != M() { zl }
        else if uu != M() && t.lower.0 != -M() { if uu < zu { uu } else { zu } } else if uu != M() { uu } else if t.lower.0 != -M() { zu } else { 0 };
    (z - y, y)
}
/// exactly the sums of a point of each
pub proof fn sums_of_intervals(t: TimeInterval, u: TimeInterval)
    requires movable(t, u)
    ensures forall|z: int| #[trigger] holds(summed(t, u), z) <==> (exists|x: int, y: int| #[trigger] holds(t, x) && #[trigger] holds(u, y) && x + y == z)
{
    assert forall|z: int| #[trigger] holds(summed(t, u), z) <==> (exists|x: int, y: int| #[trigger] holds(t, x) && #[trigger] holds(u, y) && x + y == z) by {
        if holds(summed(t, u), z) { let (x, y) = sum_two(t, u, z); assert(holds(t, x) && holds(u, y) && x + y == z); }
        if exists|x: int, y: int| #[trigger] holds(t, x) && #[trigger] holds(u, y) && x + y == z { let (x, y) = choose|x: int, y: int| #[trigger] holds(t, x) && #[trigger] holds(u, y) && x + y == z; sum_one(t, u, x, y); }
    }
}
pub proof fn sum_ok(t: TimeInterval, u: TimeInterval) requires movable(t, u) ensures okt(summed(t, u)) {}

impl TimeValue {
//@fn AddAssign for TimeValue :: add_assign
    pub fn add_assign(&mut self, other: TimeValue)
        requires okv(*old(self)), okv(other), xaddok(old(self).0 as int, other.0 as int)
        ensures final(self).0 == xadd(old(self).0 as int, other.0 as int)
//@end
//@fn SubAssign for TimeValue :: sub_assign
    pub fn sub_assign(&mut self, v: TimeValue)
        requires okv(*old(self)), okv(v), xaddok(old(self).0 as int, -v.0 as int)
        ensures final(self).0 == xadd(old(self).0 as int, -v.0 as int)
//@rule * self += $*e } ==> self.add_assign($*e); }
//@rule * self += - v ==> self.add_assign(-v)
//@end
}
impl AddSpecImpl<TimeValue> for TimeInterval { open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TimeValue) -> bool { okv(o) && !isinf(o.0 as int) && movable(self, pt(o)) }
  open spec fn add_spec(self, o: TimeValue) -> TimeInterval { summed(self, pt(o)) } }
impl Add<TimeValue> for TimeInterval { type Output = TimeInterval;
//@fn Add<TimeValue> for TimeInterval<T> :: add
    fn add(self, other: TimeValue) -> (r: TimeInterval)
//@end
}
impl SubSpecImpl<TimeValue> for TimeInterval { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TimeValue) -> bool { okv(o) && !isinf(o.0 as int) && movable(self, opp(pt(o))) }
  open spec fn sub_spec(self, o: TimeValue) -> TimeInterval { summed(self, opp(pt(o))) } }
impl Sub<TimeValue> for TimeInterval { type Output = TimeInterval;
//@fn Sub<TimeValue> for TimeInterval<T> :: sub
    fn sub(self, other: TimeValue) -> (r: TimeInterval)
//@end
}
impl TimeInterval {
//@fn AddAssign<TimeValue> for TimeInterval<T> :: add_assign as add_assign_value
    pub fn add_assign_value(&mut self, other: TimeValue)
        requires okv(other), !isinf(other.0 as int), movable(*old(self), pt(other))
        ensures *final(self) == summed(*old(self), pt(other))
//@rule self . $f += $*e ; ==> self.$f.add_assign($*e);
//@end
//@fn SubAssign<TimeValue> for TimeInterval<T> :: sub_assign as sub_assign_value
    pub fn sub_assign_value(&mut self, other: TimeValue)
        requires okv(other), !isinf(other.0 as int), movable(*old(self), opp(pt(other)))
        ensures *final(self) == summed(*old(self), opp(pt(other)))
//@rule self . $f -= $*e ; ==> self.$f.sub_assign($*e);
//@end
}
impl AddSpecImpl<TimeInterval> for TimeValue { open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TimeInterval) -> bool { okv(self) && !isinf(self.0 as int) && movable(o, pt(self)) }
  open spec fn add_spec(self, o: TimeInterval) -> TimeInterval { summed(o, pt(self)) } }
impl Add<TimeInterval> for TimeValue { type Output = TimeInterval;
//@fn Add<TimeInterval<T>> for TimeValue :: add as add_interval
    fn add(self, other: TimeInterval) -> (r: TimeInterval)
//@end
}
impl SubSpecImpl<TimeInterval> for TimeValue { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TimeInterval) -> bool { okv(self) && !isinf(self.0 as int) && okt(o) && movable(opp(o), pt(self)) }
  open spec fn sub_spec(self, o: TimeInterval) -> TimeInterval { summed(opp(o), pt(self)) } }
impl Sub<TimeInterval> for TimeValue { type Output = TimeInterval;
//@fn Sub<TimeInterval<T>> for TimeValue :: sub as sub_interval
    fn sub(self, other: TimeInterval) -> (r: TimeInterval)
//@end
}
impl AddSpecImpl<TimeInterval> for TimeInterval { open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TimeInterval) -> bool { movable(self, o) }
  open spec fn add_spec(self, o: TimeInterval) -> TimeInterval { summed(self, o) } }
impl Add<TimeInterval> for TimeInterval { type Output = TimeInterval;
//@fn Add<TimeSpan> for TimeInterval<T> :: add as add_span
    fn add(self, other: TimeInterval) -> (r: TimeInterval)
//@end
}
impl SubSpecImpl<TimeInterval> for TimeInterval { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TimeInterval) -> bool { okt(o) && movable(self, opp(o)) }
  open spec fn sub_spec(self, o: TimeInterval) -> TimeInterval { summed(self, opp(o)) } }
impl Sub<TimeInterval> for TimeInterval { type Output = TimeInterval;
//@fn Sub<TimeSpan> for TimeInterval<T> :: sub as sub_span
    fn sub(self, other: TimeInterval) -> (r: TimeInterval)
//@end
}
impl TimeInterval {
//@fn AddAssign<TimeSpan> for TimeInterval<T> :: add_assign as add_assign_span
    pub fn add_assign_span(&mut self, other: TimeInterval)
        requires movable(*old(self), other)
        ensures *final(self) == summed(*old(self), other)
//@rule self . $f += $*e ; ==> self.$f.add_assign($*e);
//@end
//@fn SubAssign<TimeSpan> for TimeInterval<T> :: sub_assign as sub_assign_span
    pub fn sub_assign_span(&mut self, other: TimeInterval)
        requires okt(other), movable(*old(self), opp(other))
        ensures *final(self) == summed(*old(self), opp(other))
//@rule self . $f -= $*e ; ==> self.$f.sub_assign($*e);
//@end
// the forms on dates, which are the same on the duration since the origin
//@fn Sub for TimeSlot :: sub as slot_sub_slot
    pub fn slot_sub_slot(self, other: TimeInterval) -> (r: TimeInterval)
        requires okt(other), movable(self, opp(other))
        ensures r == summed(self, opp(other))
//@end
//@fn Sub<Timestamp> for TimeSlot :: sub as slot_sub_date
    pub fn slot_sub_date(self, other: TimeValue) -> (r: TimeInterval)
        requires okv(other), !isinf(other.0 as int), movable(self, opp(pt(other)))
        ensures r == summed(self, opp(pt(other)))
//@end
//@fn Add<Timestamp> for TimeSpan :: add as span_add_date
    pub fn span_add_date(self, other: TimeValue) -> (r: TimeInterval)
        requires okv(other), !isinf(other.0 as int), movable(self, pt(other))
        ensures r == summed(self, pt(other))
//@rule other + self ==> other.date_add_span(self)
//@end
//@fn Sub<Timestamp> for TimeSpan :: sub as span_sub_date
    pub fn span_sub_date(self, other: TimeValue) -> (r: TimeInterval)
        requires okv(other), !isinf(other.0 as int), movable(self, opp(pt(other)))
        ensures r == summed(self, opp(pt(other)))
//@rule ( - other ) + self ==> (-other).date_add_span(self)
//@end
}
impl TimeValue {
//@fn Add<TimeSpan> for Timestamp :: add as date_add_span
    pub fn date_add_span(self, other: TimeInterval) -> (r: TimeInterval)
        requires okv(self), !isinf(self.0 as int), movable(other, pt(self))
        ensures r == summed(other, pt(self))
//@rule TimeSlot :: new ==> TimeInterval::new
//@end
//@fn Sub<TimeSpan> for Timestamp :: sub as date_sub_span
    pub fn date_sub_span(self, other: TimeInterval) -> (r: TimeInterval)
        requires okv(self), !isinf(self.0 as int), okt(other), movable(opp(other), pt(self))
        ensures r == summed(opp(other), pt(self))
//@rule TimeSlot :: new ==> TimeInterval::new
//@end
//@fn Sub<TimeSlot> for Timestamp :: sub as date_sub_slot
    pub fn date_sub_slot(self, other: TimeInterval) -> (r: TimeInterval)
        requires okv(self), !isinf(self.0 as int), okt(other), movable(opp(other), pt(self))
        ensures r == summed(opp(other), pt(self))
//@end
}
// ---- sets of instants and of durations
/// a list of intervals, and the canonical set of their points, say the same of every point of the line
pub proof fn same_line(r: Seq<TimeInterval>, v: Seq<TimeInterval>)
    requires canon(r), forall|k: int| 0 <= k < v.len() ==> okt(#[trigger] v[k]), forall|x: int| #![trigger seq_has(r, x)] #![trigger seq_has(v, x)] -M() <= x <= M() ==> (seq_has(r, x) <==> seq_has(v, x))
    ensures forall|z: int| #![trigger set_holds(r, z)] #![trigger set_holds(v, z)] set_holds(r, z) <==> set_holds(v, z)
{
    assert forall|k: int| 0 <= k < r.len() implies okt(#[trigger] r[k]) by { assert(ne(r[k])); }
    line_points(r); line_points(v);
    assert forall|z: int| #![trigger set_holds(r, z)] #![trigger set_holds(v, z)] set_holds(r, z) <==> set_holds(v, z) by {
        let x = on_line(z);
        assert(set_holds(r, z) <==> seq_has(r, x));
        assert(set_holds(v, z) <==> seq_has(v, x));
    }
}
pub open spec fn on_line(z: int) -> int { if z > M() { M() } else if z < -M() { -M() } else { z } }
pub proof fn line_points(v: Seq<TimeInterval>)
    requires forall|k: int| 0 <= k < v.len() ==> okt(#[trigger] v[k])
    ensures forall|z: int| #![trigger set_holds(v, z)] set_holds(v, z) <==> seq_has(v, on_line(z))
{
    assert forall|z: int| #![trigger set_holds(v, z)] set_holds(v, z) <==> seq_has(v, on_line(z)) by {
        if set_holds(v, z) { let k = choose|k: int| 0 <= k < v.len() && holds(#[trigger] v[k], z); assert(v[k].has(on_line(z))); }
        if seq_has(v, on_line(z)) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).has(on_line(z)); assert(holds(v[k], z)); }
    }
}
pub open spec fn movables(s: Seq<TimeInterval>, t: TimeInterval) -> bool { forall|k: int| 0 <= k < s.len() ==> movable(#[trigger] s[k], t) }
/// the set `r` holds the points of `s` moved by `d` (of the opposites of its points moved by `d`)
pub open spec fn moved(r: Seq<TimeInterval>, s: Seq<TimeInterval>, d: int) -> bool { canon(r) && forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z - d) }
pub open spec fn mirrored(r: Seq<TimeInterval>, s: Seq<TimeInterval>, d: int) -> bool { canon(r) && forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, d - z) }
pub proof fn moved_is(v: Seq<TimeInterval>, s: Seq<TimeInterval>, d: TimeValue)
    requires canon(s), okv(d), !isinf(d.0 as int), movables(s, pt(d)), v.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == summed(s[k], pt(d))
    ensures moved(v, s, d.0 as int)
{
    assert forall|k: int| 0 <= k < v.len() implies ne(#[trigger] v[k]) by { assert(ne(s[k])); assert(movable(s[k], pt(d))); }
    assert forall|a: int, b: int| 0 <= a < b < v.len() implies (#[trigger] v[a]).upper.0 + 1 < (#[trigger] v[b]).lower.0 by { assert(s[a].upper.0 + 1 < s[b].lower.0); assert(movable(s[a], pt(d)) && movable(s[b], pt(d))); assert(ne(s[a]) && ne(s[b])); }
    assert forall|z: int| #[trigger] set_holds(v, z) <==> set_holds(s, z - d.0) by {
        if set_holds(v, z) { let k = choose|k: int| 0 <= k < v.len() && holds(#[trigger] v[k], z); assert(movable(s[k], pt(d))); assert(ne(s[k])); assert(holds(s[k], z - d.0)); }
        if set_holds(s, z - d.0) { let k = choose|k: int| 0 <= k < s.len() && holds(#[trigger] s[k], z - d.0); assert(movable(s[k], pt(d))); assert(holds(v[k], z)); }
    }
}
pub open spec fn opps(s: Seq<TimeInterval>) -> Seq<TimeInterval> { Seq::new(s.len(), |k: int| opp(s[s.len() - 1 - k])) }
pub proof fn mirrored_is(v: Seq<TimeInterval>, s: Seq<TimeInterval>, d: TimeValue)
    requires canon(s), okv(d), !isinf(d.0 as int), movables(opps(s), pt(d)), v.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == summed(opp(s[s.len() - 1 - k]), pt(d))
    ensures mirrored(v, s, d.0 as int)
{
    let o = opps(s); let n = s.len() as int;
    assert forall|k: int| 0 <= k < n implies #[trigger] v[k] == summed(o[k], pt(d)) by {}
    assert(canon(o)) by {
        assert forall|k: int| 0 <= k < n implies ne(#[trigger] o[k]) by { assert(ne(s[n - 1 - k])); }
        assert forall|a: int, b: int| 0 <= a < b < n implies (#[trigger] o[a]).upper.0 + 1 < (#[trigger] o[b]).lower.0 by { assert(s[n - 1 - b].upper.0 + 1 < s[n - 1 - a].lower.0); }
    }
    moved_is(v, o, d);
    assert forall|z: int| #[trigger] set_holds(v, z) <==> set_holds(s, d.0 - z) by {
        let x = z - d.0;
        if set_holds(o, x) { let k = choose|k: int| 0 <= k < n && holds(#[trigger] o[k], x); assert(ne(s[n - 1 - k])); assert(holds(s[n - 1 - k], -x)); }
        if set_holds(s, -x) { let k = choose|k: int| 0 <= k < n && holds(#[trigger] s[k], -x); assert(ne(s[k])); assert(o[n - 1 - k] == opp(s[k])); assert(holds(o[n - 1 - k], x)); }
    }
}
impl TimeSet {
//@for N H in add_value:Add<TimeValue>forTimeSet<T> add_date:Add<Timestamp>forTimeSpans
//@fn %H% :: add as %N%
    pub fn %N%(self, other: TimeValue) -> (r: TimeSet)
        requires self.ok(), okv(other), !isinf(other.0 as int), movables(self.0@, pt(other))
        ensures moved(r.0@, self.0@, other.0 as int)
//@rule self . 0 . iter ( ) . map ( | tw | $*e ) . collect ( ) ==> map_vec(&self.0, |tw: &TimeInterval| -> (r: TimeInterval) requires movable(*tw, pt(other)) ensures r == summed(*tw, pt(other)) { $*e })
//@rule ^ Self ( $*a ) ==> ({ let v = $*a; proof { moved_is(v@, self.0@, other); } TimeSet(v) })
//@rule ^ TimeSet ( $*a ) ==> ({ let v = $*a; proof { moved_is(v@, self.0@, other); } TimeSet(v) })
//@end
//@endfor
//@for N H in sub_value:Sub<TimeValue>forTimeSet<T> sub_date:Sub<Timestamp>forTimeSpans
//@fn %H% :: sub as %N%
    pub fn %N%(self, other: TimeValue) -> (r: TimeSet)
        requires self.ok(), okv(other), !isinf(other.0 as int), movables(self.0@, pt(TimeValue((-other.0) as i64)))
        ensures moved(r.0@, self.0@, -other.0)
//@rule self . 0 . iter ( ) . map ( | tw | $*e ) . collect ( ) ==> map_vec(&self.0, |tw: &TimeInterval| -> (r: TimeInterval) requires movable(*tw, opp(pt(other))) ensures r == summed(*tw, opp(pt(other))) { $*e })
//@rule ^ Self ( $*a ) ==> ({ let v = $*a; proof { moved_is(v@, self.0@, TimeValue((-other.0) as i64)); } TimeSet(v) })
//@rule ^ TimeSet ( $*a ) ==> ({ let v = $*a; proof { moved_is(v@, self.0@, TimeValue((-other.0) as i64)); } TimeSet(v) })
//@start
        proof { assert(opp(pt(other)) == pt(TimeValue((-other.0) as i64))); }
//@end
//@endfor
//@fn AddAssign<TimeValue> for TimeSet<T> :: add_assign as add_assign_value
    pub fn add_assign_value(&mut self, t: TimeValue)
        requires old(self).ok(), okv(t), !isinf(t.0 as int), movables(old(self).0@, pt(t))
        ensures moved(final(self).0@, old(self).0@, t.0 as int)
//@rule self . 0 . iter_mut ( ) . for_each ( | tw | * tw += $a ) ==> { let ghost s = self.0@; let mut k: usize = 0; while k < self.0.len() { let tw = &mut self.0[k]; tw.add_assign_value($a); k = k + 1; } proof { moved_is(self.0@, s, t); } }
//@inv
        invariant k <= s.len(), self.0@.len() == s.len(), okv(t), !isinf(t.0 as int), movables(s, pt(t)), forall|j: int| 0 <= j < k ==> #[trigger] self.0@[j] == summed(s[j], pt(t)), forall|j: int| k <= j < s.len() ==> #[trigger] self.0@[j] == s[j]
        decreases s.len() - k
//@end
//@fn SubAssign<TimeValue> for TimeSet<T> :: sub_assign as sub_assign_value
    pub fn sub_assign_value(&mut self, t: TimeValue)
        requires old(self).ok(), okv(t), !isinf(t.0 as int), movables(old(self).0@, pt(TimeValue((-t.0) as i64)))
        ensures moved(final(self).0@, old(self).0@, -t.0)
//@rule self . 0 . iter_mut ( ) . for_each ( | tw | * tw -= $a ) ==> { let ghost s = self.0@; let ghost d = TimeValue((-t.0) as i64); let mut k: usize = 0; while k < self.0.len() { let tw = &mut self.0[k]; tw.sub_assign_value($a); k = k + 1; } proof { moved_is(self.0@, s, d); } }
//@inv
        invariant k <= s.len(), self.0@.len() == s.len(), okv(t), !isinf(t.0 as int), d == TimeValue((-t.0) as i64), pt(d) == opp(pt(t)), movables(s, pt(d)), forall|j: int| 0 <= j < k ==> #[trigger] self.0@[j] == summed(s[j], pt(d)), forall|j: int| k <= j < s.len() ==> #[trigger] self.0@[j] == s[j]
        decreases s.len() - k
//@end
}
impl TimeValue {
//@fn Add<TimeSpans> for Timestamp :: add as date_add_spans
    pub fn date_add_spans(self, other: TimeSet) -> (r: TimeSet)
        requires other.ok(), okv(self), !isinf(self.0 as int), movables(other.0@, pt(self))
        ensures moved(r.0@, other.0@, self.0 as int)
//@rule other + self ==> other.add_date(self)
//@end
//@fn Sub<TimeSpans> for Timestamp :: sub as date_sub_spans
    pub fn date_sub_spans(self, other: TimeSet) -> (r: TimeSet)
        requires other.ok(), okv(self), !isinf(self.0 as int), movables(opps(other.0@), pt(self))
        ensures mirrored(r.0@, other.0@, self.0 as int)
//@rule other . 0 . into_iter ( ) . rev ( ) . map ( | i | $*e ) . collect ( ) ==> map_rev(&other.0, |i_: &TimeInterval| -> (r: TimeInterval) requires okt(*i_), movable(opp(*i_), pt(self)) ensures r == summed(opp(*i_), pt(self)) { let i = *i_; $*e })
//@rule self - i ==> self.date_sub_span(i)
//@rule ^ TimeSet ( $*a ) ==> ({ proof { let o = opps(other.0@); assert forall|k: int| 0 <= k < other.0.len() implies okt(#[trigger] other.0@[k]) && movable(opp(other.0@[k]), pt(self)) by { assert(ne(other.0@[k])); assert(o[o.len() - 1 - k] == opp(other.0@[k])); } } let v = $*a; proof { mirrored_is(v@, other.0@, self); } TimeSet(v) })
//@end
}
pub open spec fn sums(r: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>) -> bool {
    canon(r) && forall|z: int| #[trigger] set_holds(r, z) <==> (exists|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(t, y) && x + y == z)
}
/// the sums of the first intervals with one
pub open spec fn first_sums(s: Seq<TimeInterval>, n: int, t: TimeInterval, x: int) -> bool { exists|k: int| 0 <= k < n && summed(#[trigger] s[k], t).has(x) }
pub proof fn sums_with(r: Seq<TimeInterval>, s: Seq<TimeInterval>, t: TimeInterval)
    requires canon(r), canon(s), okt(t), movables(s, t), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r, x) <==> first_sums(s, s.len() as int, t, x))
    ensures sums(r, s, one(t))
{
    let v = Seq::new(s.len(), |k: int| summed(s[k], t));
    assert forall|k: int| 0 <= k < v.len() implies okt(#[trigger] v[k]) by { assert(movable(s[k], t)); sum_ok(s[k], t); }
    assert forall|x: int| #![trigger seq_has(r, x)] #![trigger seq_has(v, x)] -M() <= x <= M() implies (seq_has(r, x) <==> seq_has(v, x)) by {
        if seq_has(v, x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).has(x); assert(summed(s[k], t).has(x)); assert(first_sums(s, s.len() as int, t, x)); }
        if seq_has(r, x) { assert(first_sums(s, s.len() as int, t, x)); let k = choose|k: int| 0 <= k < s.len() && summed(#[trigger] s[k], t).has(x); assert(v[k].has(x)); }
    }
    same_line(r, v);
    assert forall|z: int| #[trigger] set_holds(r, z) <==> (exists|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(one(t), y) && x + y == z) by {
        if set_holds(v, z) { let k = choose|k: int| 0 <= k < v.len() && holds(#[trigger] v[k], z); assert(movable(s[k], t)); let (x, y) = sum_two(s[k], t, z); assert(set_holds(s, x)); assert(holds(one(t)[0], y)); assert(set_holds(one(t), y)); }
        if exists|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(one(t), y) && x + y == z {
            let (x, y) = choose|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(one(t), y) && x + y == z;
            let k = choose|k: int| 0 <= k < s.len() && holds(#[trigger] s[k], x); assert(movable(s[k], t)); sum_one(s[k], t, x, y); assert(holds(v[k], z)); }
    }
}
impl TimeSet {
//@for N H F O U in add_span:Add<TimeSpan>forTimeSet<T>:add:+:other sub_span:Sub<TimeSpan>forTimeSet<T>:sub:-:opp(other)
//@fn %H% :: %F% as %N%
    pub fn %N%(self, other: TimeInterval) -> (r: TimeSet)
        requires self.ok(), okt(other), movables(self.0@, %U%)
        ensures sums(r.0@, self.0@, one(%U%))
//@rule self . 0 . into_iter ( ) . fold ( $*a , | r , i | $*e ) ==> { let mut r = $*a; let mut k: usize = 0; while k < self.0.len() { let i = self.0[k]; proof { assert(movable(self.0@[k as int], %U%)); sum_ok(i, %U%); } r = $*e; k = k + 1; } proof { sums_with(r.0@, self.0@, %U%); } r }
//@rule r | ( $*e ) ==> r.bitor_set_tw($*e)
//@inv
        invariant k <= self.0@.len(), okt(other), okt(%U%), movables(self.0@, %U%), canon(r.0@), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r.0@, x) <==> first_sums(self.0@, k as int, %U%, x))
        decreases self.0@.len() - k
//@end
//@endfor
//@for N H F G U in add_assign_span:AddAssign<TimeSpan>forTimeSet<T>:add_assign:add_span:other sub_assign_span:SubAssign<TimeSpan>forTimeSet<T>:sub_assign:sub_span:opp(other)
//@fn %H% :: %F% as %N%
    pub fn %N%(&mut self, other: TimeInterval)
        requires old(self).ok(), okt(other), movables(old(self).0@, %U%)
        ensures sums(final(self).0@, old(self).0@, one(%U%))
//@rule self . clone ( ) + other ==> self.clone().%G%(other)
//@rule self . clone ( ) - other ==> self.clone().%G%(other)
//@end
//@endfor
}
/// the intervals of a vector, in order
pub struct BagVec { pub v: Vec<TimeInterval>, pub i: usize }
pub open spec fn from_at(s: Seq<TimeInterval>, i: int, x: int) -> bool { exists|k: int| i <= k < s.len() && (#[trigger] s[k]).has(x) }
impl Bag for BagVec {
    open spec fn inv(&self) -> bool { self.i <= self.v@.len() && forall|k: int| 0 <= k < self.v@.len() ==> okt(#[trigger] self.v@[k]) }
    open spec fn has(&self, x: int) -> bool { from_at(self.v@, self.i as int, x) }
    open spec fn left(&self) -> nat { (self.v@.len() - self.i) as nat }
    fn next(&mut self) -> (r: Option<TimeInterval>)
    {
        if self.i < self.v.len() {
            let x = self.v[self.i]; let ghost s = self.v@; let ghost i = self.i as int; self.i += 1;
            proof { assert forall|z: int| #![trigger from_at(s, i, z)] #![trigger from_at(s, i + 1, z)] from_at(s, i, z) <==> (x.has(z) || from_at(s, i + 1, z)) by { if x.has(z) { assert(s[i].has(z)); } if from_at(s, i + 1, z) { let k = choose|k: int| i + 1 <= k < s.len() && (#[trigger] s[k]).has(z); assert(s[k].has(z)); } } }
            Some(x)
        } else { None }
    }
}
/// row by row: the list of the results for each interval of one with each of the other
#[verifier::opaque]
pub open spec fn row(n: int, m: int) -> int { m / n }
#[verifier::opaque]
pub open spec fn col(n: int, m: int) -> int { m % n }
pub proof fn cell(n: int, a: int, b: int)
    requires 0 <= a, 0 <= b < n
    ensures row(n, a * n + b) == a, col(n, a * n + b) == b, 0 <= a * n
{ reveal(row); reveal(col); vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a * n + b, n, a, b); assert(0 <= a * n) by (nonlinear_arith) requires 0 <= a, 0 < n; }
pub proof fn rows(n: int, l: int, m: int)
    requires 0 <= m < l * n, 0 <= n, 0 <= l
    ensures 0 <= row(n, m) < l, 0 <= col(n, m) < n, m == row(n, m) * n + col(n, m)
{ reveal(row); reveal(col); if n == 0 { assert(l * n == 0); } else { let q = m / n; vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m, n); assert(0 <= q < l) by (nonlinear_arith) requires 0 <= m < l * n, n > 0, m == n * q + m % n, 0 <= m % n < n; assert(n * q == q * n) by (nonlinear_arith); } }
pub proof fn place(n: int, l: int, a: int, b: int) -> (m: int)
    requires 0 <= a < l, 0 <= b < n
    ensures 0 <= m < l * n, row(n, m) == a, col(n, m) == b
{ cell(n, a, b); assert(0 <= a * n + b < l * n) by (nonlinear_arith) requires 0 <= a < l, 0 <= b < n; a * n + b }
#[verifier::opaque]
pub open spec fn all_sums(v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>) -> bool {
    v.len() == s.len() * t.len() && forall|m: int| 0 <= m < v.len() ==> #[trigger] v[m] == summed(s[row(t.len() as int, m)], t[col(t.len() as int, m)])
}
pub proof fn pick(v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>, a: int, b: int) -> (m: int)
    requires all_sums(v, s, t), 0 <= a < s.len(), 0 <= b < t.len()
    ensures 0 <= m < v.len(), v[m] == summed(s[a], t[b])
{ reveal(all_sums); place(t.len() as int, s.len() as int, a, b) }
pub proof fn unpick(v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>, m: int) -> (p: (int, int))
    requires all_sums(v, s, t), 0 <= m < v.len()
    ensures 0 <= p.0 < s.len(), 0 <= p.1 < t.len(), v[m] == summed(s[p.0], t[p.1])
{ reveal(all_sums); rows(t.len() as int, s.len() as int, m); (row(t.len() as int, m), col(t.len() as int, m)) }
pub open spec fn all_movable(s: Seq<TimeInterval>, t: Seq<TimeInterval>) -> bool { forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < t.len() ==> movable(#[trigger] s[a], #[trigger] t[b]) }
pub proof fn sums_of_lists(r: Seq<TimeInterval>, v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>)
    requires all_movable(s, t), all_sums(v, s, t), canon(r), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r, x) <==> from_at(v, 0, x))
    ensures sums(r, s, t)
{
    sums_ok(v, s, t);
    assert forall|x: int| #![trigger seq_has(r, x)] #![trigger seq_has(v, x)] -M() <= x <= M() implies (seq_has(r, x) <==> seq_has(v, x)) by { assert(seq_has(v, x) <==> from_at(v, 0, x)); }
    same_line(r, v);
    assert forall|z: int| #[trigger] set_holds(r, z) <==> (exists|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(t, y) && x + y == z) by {
        if set_holds(v, z) { let (x, y) = sum_parts(v, s, t, z); }
        if exists|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(t, y) && x + y == z {
            let (x, y) = choose|x: int, y: int| #[trigger] set_holds(s, x) && #[trigger] set_holds(t, y) && x + y == z;
            sum_whole(v, s, t, x, y);
        }
    }
}
proof fn sum_parts(v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>, z: int) -> (r: (int, int))
    requires all_movable(s, t), all_sums(v, s, t), set_holds(v, z)
    ensures set_holds(s, r.0), set_holds(t, r.1), r.0 + r.1 == z
{
    let m = choose|m: int| 0 <= m < v.len() && holds(#[trigger] v[m], z); let (a, b) = unpick(v, s, t, m);
    assert(movable(s[a], t[b])); let (x, y) = sum_two(s[a], t[b], z); assert(set_holds(s, x)); assert(set_holds(t, y));
    (x, y)
}
proof fn sum_whole(v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>, x: int, y: int)
    requires all_movable(s, t), all_sums(v, s, t), set_holds(s, x), set_holds(t, y)
    ensures set_holds(v, x + y)
{
    let a = choose|k: int| 0 <= k < s.len() && holds(#[trigger] s[k], x); let b = choose|k: int| 0 <= k < t.len() && holds(#[trigger] t[k], y);
    assert(movable(s[a], t[b])); sum_one(s[a], t[b], x, y);
    let m = pick(v, s, t, a, b); assert(holds(v[m], x + y));
}
pub proof fn sums_ok(v: Seq<TimeInterval>, s: Seq<TimeInterval>, t: Seq<TimeInterval>)
    requires all_movable(s, t), all_sums(v, s, t)
    ensures forall|m: int| 0 <= m < v.len() ==> okt(#[trigger] v[m])
{ assert forall|m: int| 0 <= m < v.len() implies okt(#[trigger] v[m]) by { let (a, b) = unpick(v, s, t, m); assert(movable(s[a], t[b])); sum_ok(s[a], t[b]); } }
/// the opposites of the intervals, in the same order
pub open spec fn negs(s: Seq<TimeInterval>) -> Seq<TimeInterval> { Seq::new(s.len(), |k: int| opp(s[k])) }
pub proof fn negs_is(s: Seq<TimeInterval>)
    requires canon(s)
    ensures forall|y: int| #[trigger] set_holds(negs(s), y) <==> set_holds(s, -y)
{
    let o = negs(s);
    assert forall|y: int| #[trigger] set_holds(o, y) <==> set_holds(s, -y) by {
        if set_holds(o, y) { let k = choose|k: int| 0 <= k < o.len() && holds(#[trigger] o[k], y); assert(ne(s[k])); assert(o[k] == opp(s[k])); assert(holds(s[k], -y)); }
        if set_holds(s, -y) { let k = choose|k: int| 0 <= k < s.len() && holds(#[trigger] s[k], -y); assert(ne(s[k])); assert(o[k] == opp(s[k])); assert(holds(o[k], y)); }
    }
}
pub open spec fn the_same(t: Seq<TimeInterval>) -> Seq<TimeInterval> { t }
/// `s.into_iter().flat_map(|i| t.iter().copied().map(move |j| (i, j))).map(|(a, b)| f).collect()` up to the collected list: what the standard library does
pub fn cross<F: Fn(TimeInterval, TimeInterval) -> TimeInterval>(s: &Vec<TimeInterval>, t: &Vec<TimeInterval>, f: F) -> (r: BagVec)
    requires forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < t.len() ==> call_requires(f, (#[trigger] s@[a], #[trigger] t@[b]))
    ensures r.i == 0, r.v@.len() == s@.len() * t@.len(), forall|m: int| 0 <= m < r.v@.len() ==> call_ensures(f, (s@[row(t@.len() as int, m)], t@[col(t@.len() as int, m)]), #[trigger] r.v@[m])
{
    let mut v: Vec<TimeInterval> = Vec::new(); let mut i: usize = 0; let ghost n = t@.len() as int;
    while i < s.len()
        invariant i <= s.len(), n == t@.len(), forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < t.len() ==> call_requires(f, (#[trigger] s@[a], #[trigger] t@[b])),
            v@.len() == i * n, forall|m: int| 0 <= m < v@.len() ==> call_ensures(f, (s@[row(n, m)], t@[col(n, m)]), #[trigger] v@[m])
        decreases s.len() - i
    {
        let mut j: usize = 0;
        while j < t.len()
            invariant i < s.len(), j <= t.len(), n == t@.len(), forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < t.len() ==> call_requires(f, (#[trigger] s@[a], #[trigger] t@[b])),
                v@.len() == i * n + j, forall|m: int| 0 <= m < v@.len() ==> call_ensures(f, (s@[row(n, m)], t@[col(n, m)]), #[trigger] v@[m])
            decreases t.len() - j
        {
            let ghost w = v@; proof { cell(n, i as int, j as int); }
            let x = f(s[i], t[j]); v.push(x);
            proof { assert forall|m: int| 0 <= m < v@.len() implies call_ensures(f, (s@[row(n, m)], t@[col(n, m)]), #[trigger] v@[m]) by { if m < w.len() { assert(v@[m] == w[m]); } } }
            j = j + 1;
        }
        proof { assert((i + 1) * n == i * n + n) by (nonlinear_arith); }
        i = i + 1;
    }
    BagVec { v, i: 0 }
}
impl TimeSet {
//@for N H F O U V in add_spans:Add<TimeSpans>forTimeSet<T>:add:+:b:the_same sub_spans:Sub<TimeSpans>forTimeSet<T>:sub:-:opp(b):negs
//@fn %H% :: %F% as %N%
    pub fn %N%(self, other: TimeSet) -> (r: TimeSet)
        requires self.ok(), other.ok(), all_movable(self.0@, %V%(other.0@))
        ensures sums(r.0@, self.0@, %V%(other.0@))
//@rule self . 0 . into_iter ( ) . flat_map ( | i | other . 0 . iter ( ) . copied ( ) . map ( move | j | ( i , j ) ) ) . map ( | ( a , b ) | $*e ) . collect ( ) ==> { let ghost s = self.0@; let ghost t = %V%(other.0@); proof { assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < t.len() implies okt(#[trigger] other.0@[b]) && movable(#[trigger] s[a], ({ let b = other.0@[b]; %U% })) by { assert(movable(s[a], t[b])); assert(ne(other.0@[b])); } } let f_ = |a: TimeInterval, b: TimeInterval| -> (r: TimeInterval) requires okt(b), movable(a, %U%) ensures r == summed(a, %U%) { $*e }; let c = cross(&self.0, &other.0, f_); proof { let v = c.v@; assert forall|m: int| 0 <= m < v.len() implies #[trigger] v[m] == summed(s[row(t.len() as int, m)], t[col(t.len() as int, m)]) by { rows(t.len() as int, s.len() as int, m); } assert(all_sums(v, s, t)) by { reveal(all_sums); } sums_ok(v, s, t); } let r = TimeSet::from_iter(c); proof { sums_of_lists(r.0@, c.v@, s, t); } r }
//@end
//@endfor
//@for N H F G V in add_assign_spans:AddAssign<TimeSpans>forTimeSet<T>:add_assign:add_spans:the_same sub_assign_spans:SubAssign<TimeSpans>forTimeSet<T>:sub_assign:sub_spans:negs
//@fn %H% :: %F% as %N%
    pub fn %N%(&mut self, other: TimeSet)
        requires old(self).ok(), other.ok(), all_movable(old(self).0@, %V%(other.0@))
        ensures sums(final(self).0@, old(self).0@, %V%(other.0@))
//@rule self . clone ( ) + other ==> self.clone().%G%(other)
//@rule self . clone ( ) - other ==> self.clone().%G%(other)
//@end
//@endfor
}
// ---- lazy translation: an iterator is the list of what it still gives
pub trait Listed: Sized {
    spec fn seq(&self) -> Seq<TimeInterval>;
    fn next(&mut self) -> (r: Option<TimeInterval>)
        ensures old(self).seq().len() == 0 ==> r is None && final(self).seq().len() == 0, old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1);
}
pub struct TimeValueTranslIter<I: Listed> { pub t: TimeValue, pub iter: I }
impl<I: Listed> TimeValueTranslIter<I> {
    pub open spec fn seq(&self) -> Seq<TimeInterval> { Seq::new(self.iter.seq().len(), |k: int| summed(self.iter.seq()[k], pt(self.t))) }
    pub open spec fn inv(&self) -> bool { okv(self.t) && !isinf(self.t.0 as int) && canon(self.iter.seq()) && movables(self.iter.seq(), pt(self.t)) }
//@fn Iterator for TimeValueTranslIter<I> :: next as next_transl
    fn next_transl(&mut self) -> (r: Option<TimeInterval>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).t == old(self).t, old(self).seq().len() == 0 ==> r is None && final(self).seq().len() == 0, old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() =~= old(self).seq().skip(1)
//@rule self . iter . next ( ) . map ( | tw | $*e ) . and_then ( | tw | $*f ) ==> { let ghost t_ = self.t; let d = self.t; self.iter.next().map(|tw: TimeInterval| -> (r: TimeInterval) requires ne(tw), okv(d), !isinf(d.0 as int), movable(tw, pt(d)) ensures r == summed(tw, pt(d)) { $*e }).and_then(|tw: TimeInterval| -> (r: Option<TimeInterval>) requires okt(tw) ensures r == (if em(tw) { None } else { Some(tw) }) { $*f }) }
//@rule tw + self . t ==> tw.add(d)
//@start
        proof { let s = self.iter.seq(); if s.len() > 0 { assert(movable(s[0], pt(self.t))); assert(ne(s[0])); sum_ok(s[0], pt(self.t)); assert forall|a: int, b: int| 0 <= a < b < s.skip(1).len() implies (#[trigger] s.skip(1)[a]).upper.0 + 1 < (#[trigger] s.skip(1)[b]).lower.0 by { assert(s[a + 1].upper.0 + 1 < s[b + 1].lower.0); } } }
//@end
}
/// the items of a lazy translation are those of the translated set
pub proof fn lazy_moved<I: Listed>(i: TimeValueTranslIter<I>)
    requires i.inv()
    ensures moved(i.seq(), i.iter.seq(), i.t.0 as int)
{ moved_is(i.seq(), i.iter.seq(), i.t); }
//@fn TimeTranslation<TimeValue> for I :: translation as translation_value
pub fn translation_value<I: Listed>(this: I, t: TimeValue) -> (r: TimeValueTranslIter<I>)
    ensures r.iter == this, r.t == t
//@rule self ==> this
//@end
//@fn TimeTranslation<&TimeSpan> for I :: translation as translation_span
pub fn translation_span<I: Listed>(this: I, ts: &TimeInterval) -> (r: IntoConvexIter)
    requires canon(this.seq()), okt(*ts), movables(this.seq(), *ts)
    ensures sums(r.0.seq(), this.seq(), one(*ts)), r.0.seq().len() < 0x0800_0000_0000_0000
//@rule self . fold ( $*a , | r , tw | $*e ) ==> { let mut it = this; let ghost s = this.seq(); let ghost mut k = 0int; let mut r = $*a; loop { match it.next() { None => { break; } Some(tw) => { proof { assert(movable(s[k], *ts)); assert(ne(s[k])); sum_ok(tw, *ts); } r = $*e; proof { k = k + 1; } } } } proof { sums_with(r.0@, s, *ts); } r }
//@rule TimeSet :: <$*t> :: empty ( ) ==> TimeSet::empty()
//@rule r | ( $*e ) ==> r.bitor_set_tw($*e)
//@rule tw . into_iter ( ) ==> tw.into_iter_owned()
//@inv
        invariant 0 <= k <= s.len(), canon(s), it.seq() =~= s.skip(k), okt(*ts), movables(s, *ts), canon(r.0@), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r.0@, x) <==> first_sums(s, k, *ts, x))
        ensures k == s.len()
        decreases s.len() - k
//@end
