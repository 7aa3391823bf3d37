//@include values
pub assume_specification [i64::abs_diff] (a: i64, b: i64) -> (r: u64)
    ensures r == if a < b { b - a } else { a - b };
// ---- timestamps (C01) ------------------------------------------------------------------------------------------------------
impl TimeValue {
//@fn AddAssign for TimeValue :: add_assign
    pub fn add_assign(&mut self, other: TimeValue)
        requires okv(*old(self)), okv(other), xaddok(old(self).0 as int, other.0 as int)
        ensures final(self).0 == xadd(old(self).0 as int, other.0 as int)
//@end
//@fn SubAssign for TimeValue :: sub_assign
    pub fn sub_assign(&mut self, v: TimeValue)
        requires okv(*old(self)), okv(v), xaddok(old(self).0 as int, -v.0 as int)
        ensures final(self).0 == xadd(old(self).0 as int, -v.0 as int)
//@rule * self += $*e } ==> self.add_assign($*e); }
//@rule * self += - v ==> self.add_assign(-v)
//@end
//@fn TimeValue :: from_ticks_unchecked
    pub fn from_ticks_unchecked(t: i64) -> (r: Self) requires t != i64::MIN ensures r.0 == t
//@end
}
// comparisons derived by the compiler (also proved by Kani on the compiled crate)
impl PartialEqSpecImpl for Timestamp { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Timestamp) -> bool { self.0.0 == o.0.0 } }
impl PartialEq for Timestamp { fn eq(&self, o: &Timestamp) -> (r: bool) { self.0 == o.0 } }
impl Eq for Timestamp {}
impl NegSpecImpl for Timestamp { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { self.0.0 != i64::MIN } open spec fn neg_spec(self) -> Timestamp { Timestamp(TimeValue((-self.0.0) as i64)) } }
impl Neg for Timestamp { type Output = Timestamp;
//@fn Neg for Timestamp :: neg
    fn neg(self) -> (r: Timestamp)
//@end
}
impl AddSpecImpl<TimeValue> for Timestamp { open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: TimeValue) -> bool { okv(self.0) && okv(o) && xaddok(self.0.0 as int, o.0 as int) }
  open spec fn add_spec(self, o: TimeValue) -> Timestamp { Timestamp(TimeValue(xadd(self.0.0 as int, o.0 as int) as i64)) } }
impl Add<TimeValue> for Timestamp { type Output = Timestamp;
//@fn Add<TimeValue> for Timestamp :: add
    fn add(self, other: TimeValue) -> (r: Timestamp)
//@end
}
impl SubSpecImpl<TimeValue> for Timestamp { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: TimeValue) -> bool { okv(self.0) && okv(o) && xaddok(self.0.0 as int, -o.0 as int) }
  open spec fn sub_spec(self, o: TimeValue) -> Timestamp { Timestamp(TimeValue(xadd(self.0.0 as int, -o.0 as int) as i64)) } }
impl Sub<TimeValue> for Timestamp { type Output = Timestamp;
//@fn Sub<TimeValue> for Timestamp :: sub
    fn sub(self, other: TimeValue) -> (r: Timestamp)
//@end
}
impl SubSpecImpl<Timestamp> for Timestamp { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: Timestamp) -> bool { okv(self.0) && okv(o.0) && xaddok(self.0.0 as int, -o.0.0 as int) }
  open spec fn sub_spec(self, o: Timestamp) -> TimeValue { TimeValue(xadd(self.0.0 as int, -o.0.0 as int) as i64) } }
impl Sub<Timestamp> for Timestamp { type Output = TimeValue;
//@fn Sub for Timestamp :: sub
    fn sub(self, other: Timestamp) -> (r: TimeValue)
//@end
}
impl AddSpecImpl<Timestamp> for TimeValue { open spec fn obeys_add_spec() -> bool { true }
  open spec fn add_req(self, o: Timestamp) -> bool { okv(self) && okv(o.0) && xaddok(o.0.0 as int, self.0 as int) }
  open spec fn add_spec(self, o: Timestamp) -> Timestamp { Timestamp(TimeValue(xadd(o.0.0 as int, self.0 as int) as i64)) } }
impl Add<Timestamp> for TimeValue { type Output = Timestamp;
//@fn Add<Timestamp> for TimeValue :: add
    fn add(self, tw: Timestamp) -> (r: Timestamp)
//@end
}
impl SubSpecImpl<Timestamp> for TimeValue { open spec fn obeys_sub_spec() -> bool { true }
  open spec fn sub_req(self, o: Timestamp) -> bool { okv(self) && okv(o.0) && xaddok(-o.0.0 as int, self.0 as int) }
  open spec fn sub_spec(self, o: Timestamp) -> Timestamp { Timestamp(TimeValue(xadd(-o.0.0 as int, self.0 as int) as i64)) } }
impl Sub<Timestamp> for TimeValue { type Output = Timestamp;
//@fn Sub<Timestamp> for TimeValue :: sub
    fn sub(self, tw: Timestamp) -> (r: Timestamp)
//@end
}
impl Timestamp {
    pub const INFINITE: Timestamp =
//@const TimePoint for Timestamp :: INFINITE
    ;
    pub open spec fn k(&self) -> int { self.0.0 as int }
    pub open spec fn ok(&self) -> bool { okv(self.0) }
//@fn AddAssign<TimeValue> for Timestamp :: add_assign
    pub fn add_assign(&mut self, other: TimeValue)
        requires old(self).ok(), okv(other), xaddok(old(self).k(), other.0 as int)
        ensures final(self).k() == xadd(old(self).k(), other.0 as int)
//@rule self . 0 += $*e ; ==> self.0.add_assign($*e);
//@end
//@fn SubAssign<TimeValue> for Timestamp :: sub_assign
    pub fn sub_assign(&mut self, other: TimeValue)
        requires old(self).ok(), okv(other), xaddok(old(self).k(), -other.0 as int)
        ensures final(self).k() == xadd(old(self).k(), -other.0 as int)
//@rule self . 0 -= $*e ; ==> self.0.sub_assign($*e);
//@end
//@fn TimePoint for Timestamp :: is_finite
    pub fn is_finite(&self) -> (r: bool) requires self.ok() ensures r == !isinf(self.k())
//@end
//@fn TimePoint for Timestamp :: is_future_infinite
    pub fn is_future_infinite(&self) -> (r: bool) ensures r == (self.k() == M())
//@end
//@fn TimePoint for Timestamp :: is_past_infinite
    pub fn is_past_infinite(&self) -> (r: bool) requires self.ok() ensures r == (self.k() == -M())
//@end
//@fn TimePoint for Timestamp :: just_after
    pub fn just_after(&self) -> (r: Timestamp) requires self.ok() ensures r.k() == if isinf(self.k()) { self.k() } else { self.k() + 1 }
//@end
//@fn TimePoint for Timestamp :: just_before
    pub fn just_before(&self) -> (r: Timestamp) requires self.ok() ensures r.k() == if isinf(self.k()) { self.k() } else { self.k() - 1 }
//@end
//@fn Timestamped for Timestamp :: timestamp
    pub fn timestamp(&self) -> (r: Timestamp) ensures r == *self
//@end
//@fn TimeBounds for Timestamp :: is_empty
    pub fn is_empty(&self) -> (r: bool) ensures !r
//@end
//@fn TimeBounds for Timestamp :: is_singleton
    pub fn is_singleton(&self) -> (r: bool) ensures r
//@end
//@fn TimeBounds for Timestamp :: is_bounded
    pub fn is_bounded(&self) -> (r: bool) requires self.ok() ensures r == !isinf(self.k())
//@end
//@fn TimeBounds for Timestamp :: is_low_bounded
    pub fn is_low_bounded(&self) -> (r: bool) requires self.ok() ensures r == !isinf(self.k())
//@end
//@fn TimeBounds for Timestamp :: is_up_bounded
    pub fn is_up_bounded(&self) -> (r: bool) requires self.ok() ensures r == !isinf(self.k())
//@end
//@fn TimeBounds for Timestamp :: lower_bound
    pub fn lower_bound(&self) -> (r: Timestamp) ensures r == *self
//@end
//@fn TimeBounds for Timestamp :: upper_bound
    pub fn upper_bound(&self) -> (r: Timestamp) ensures r == *self
//@end
//@fn Timestamped for &T :: timestamp as timestamp_of_ref
    pub fn timestamp_of_ref(self: &&Timestamp) -> (r: Timestamp) ensures r == **self
//@rule T :: timestamp ( self ) ==> (*self).timestamp()
//@end
}
// ---- sums of any number of terms (C01): an iterator is the list of what it still gives
pub trait Terms: Sized {
    spec fn seq(&self) -> Seq<TimeValue>;
    fn next(&mut self) -> (r: Option<TimeValue>)
        ensures old(self).seq().len() == 0 ==> r is None && final(self).seq().len() == 0, old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1);
}
/// the first terms summed from left to right
pub open spec fn total(s: Seq<TimeValue>, n: int) -> int decreases n { if n <= 0 { 0 } else { xadd(total(s, n - 1), s[n - 1].0 as int) } }
pub open spec fn summable(s: Seq<TimeValue>) -> bool { forall|k: int| 0 <= k < s.len() ==> okv(#[trigger] s[k]) && xaddok(total(s, k), s[k].0 as int) }
/// finite terms whose partial sums stay in range sum to their sum
pub open spec fn plain(s: Seq<TimeValue>, n: int) -> int decreases n { if n <= 0 { 0 } else { plain(s, n - 1) + s[n - 1].0 } }
pub proof fn total_is_plain(s: Seq<TimeValue>, n: int)
    requires 0 <= n <= s.len(), forall|k: int| 0 <= k < s.len() ==> !isinf((#[trigger] s[k]).0 as int) && okv(s[k]), forall|k: int| 0 <= k <= s.len() ==> -M() < #[trigger] plain(s, k) < M()
    ensures total(s, n) == plain(s, n), forall|k: int| 0 <= k < n ==> xaddok(#[trigger] total(s, k), s[k].0 as int)
    decreases n
{ if n > 0 { total_is_plain(s, n - 1); assert(plain(s, n) == plain(s, n - 1) + s[n - 1].0); } }
//@fn Sum for TimeValue :: sum as sum_terms
pub fn sum_terms<I: Terms>(iter: I) -> (r: TimeValue)
    requires summable(iter.seq())
    ensures okv(r), r.0 == total(iter.seq(), iter.seq().len() as int)
//@rule iter . fold ( $*i , | a , b | $*e ) ==> { let mut it = iter; let ghost s = iter.seq(); let ghost mut k = 0int; let mut a: TimeValue = $*i; loop { match it.next() { None => { break; } Some(b) => { proof { assert(okv(s[k])); } a = $*e; proof { k = k + 1; } } } } a }
//@rule TimeValue :: default ( ) ==> TimeValue(0)
//@inv
        invariant 0 <= k <= s.len(), summable(s), it.seq() =~= s.skip(k), okv(a), a.0 == total(s, k)
        ensures k == s.len()
        decreases s.len() - k
//@end
