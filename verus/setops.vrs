//@include ranges
// ---- intersection (C08) --------------------------------------------------------------------------------------------------------
impl TimeInterval {
//@fn BitAnd<TW> for &TimeInterval<T> :: bitand as bitand_ref
    pub fn bitand_ref<TW: TimeConvex>(&self, tw: TW) -> (r: TimeInterval)
        requires okt(*self), okt(tw.iv())
        ensures okt(r), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> self.has(x) && tw.iv().has(x))
//@end
//@fn BitAnd<TW> for TimeInterval<T> :: bitand
    pub fn bitand<TW: TimeConvex>(self, tw: TW) -> (r: TimeInterval)
        requires okt(self), okt(tw.iv())
        ensures okt(r), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> self.has(x) && tw.iv().has(x))
//@rule ( & self ) . bitand ==> (&self).bitand_ref
//@end
//@fn BitAndAssign<TW> for TimeInterval<T> :: bitand_assign
    pub fn bitand_assign<TW: TimeConvex>(&mut self, tw: TW)
        requires okt(*old(self)), okt(tw.iv())
        ensures okt(*final(self)), forall|x: int| -M() <= x <= M() ==> (#[trigger] final(self).has(x) <==> old(self).has(x) && tw.iv().has(x))
//@end
}
impl TimeValue {
//@fn BitAnd<TW> for TimeValue :: bitand
    pub fn bitand<TW: TimeConvex>(self, tw: TW) -> (r: TimeInterval)
        requires okv(self), okt(tw.iv())
        ensures okt(r), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> x == self.0 && !isinf(x) && tw.iv().has(x))
//@end
//@fn BitAnd<TW> for Timestamp :: bitand as bitand_stamp
    pub fn bitand_stamp<TW: TimeConvex>(self, tw: TW) -> (r: TimeInterval)
        requires okv(self), okt(tw.iv())
        ensures okt(r), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> x == self.0 && !isinf(x) && tw.iv().has(x))
//@end
}
pub proof fn reach(s: Seq<TimeInterval>, k: int, x: int)
    requires canon(s), 0 <= k < s.len(), seq_has(s, x)
    ensures x <= s[k].upper.0 ==> (s[k].has(x) || (k > 0 && x <= s[k - 1].upper.0)), x > s[k].upper.0 ==> k + 1 < s.len() && x >= s[k + 1].lower.0
{
    let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).has(x);
    if j < k { if j < k - 1 { assert(s[j].upper.0 + 1 < s[k - 1].lower.0); } }
    if j > k { assert(s[k].upper.0 + 1 < s[j].lower.0); if j > k + 1 { assert(s[k + 1].upper.0 + 1 < s[j].lower.0); } }
}
pub proof fn cut_low(s: Seq<TimeInterval>, k: int, f: TimeInterval, lower: int)
    requires canon(s), 0 <= k < s.len(), ne(f), f.upper == s[k].upper, f.lower.0 == (if s[k].lower.0 > lower { s[k].lower.0 as int } else { lower }), k > 0 ==> s[k - 1].upper.0 < lower
    ensures canon(s.skip(k).update(0, f)), forall|x: int| #[trigger] seq_has(s.skip(k).update(0, f), x) <==> seq_has(s, x) && x >= lower
{
    let t = s.skip(k).update(0, f);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).upper.0 + 1 < (#[trigger] t[b]).lower.0 by { assert(s[a + k].upper.0 + 1 < s[b + k].lower.0); }
    assert forall|x: int| #[trigger] seq_has(t, x) <==> seq_has(s, x) && x >= lower by {
        if seq_has(t, x) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).has(x); assert(s[j + k].has(x)); if j > 0 { assert(s[k].upper.0 + 1 < s[j + k].lower.0); } }
        if seq_has(s, x) && x >= lower {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).has(x);
            if j < k - 1 { assert(s[j].upper.0 + 1 < s[k - 1].lower.0); }
            assert(j >= k); assert(t[j - k].has(x));
        }
    }
}
pub proof fn cut_high(s: Seq<TimeInterval>, k: int, f: TimeInterval, upper: int)
    requires canon(s), 0 <= k < s.len(), ne(f), f.lower == s[k].lower, f.upper.0 == (if s[k].upper.0 < upper { s[k].upper.0 as int } else { upper }), k + 1 < s.len() ==> s[k + 1].lower.0 > upper
    ensures canon(s.take(k + 1).update(k, f)), forall|x: int| #[trigger] seq_has(s.take(k + 1).update(k, f), x) <==> seq_has(s, x) && x <= upper
{
    let t = s.take(k + 1).update(k, f);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies (#[trigger] t[a]).upper.0 + 1 < (#[trigger] t[b]).lower.0 by { assert(s[a].upper.0 + 1 < s[b].lower.0); }
    assert forall|x: int| #[trigger] seq_has(t, x) <==> seq_has(s, x) && x <= upper by {
        if seq_has(t, x) { let j = choose|j: int| 0 <= j < t.len() && (#[trigger] t[j]).has(x); assert(s[j].has(x)); if j < k { assert(s[j].upper.0 + 1 < s[k].lower.0); } }
        if seq_has(s, x) && x <= upper {
            let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).has(x);
            if j > k + 1 { assert(s[k + 1].upper.0 + 1 < s[j].lower.0); }
            assert(j <= k); assert(t[j].has(x));
        }
    }
}
/// the first interval which reaches the bound; the last which starts at most at it
pub open spec fn first_up(s: Seq<TimeInterval>, lower: int) -> int
    decreases s.len()
{ if s.len() == 0 { 0 } else if s[0].upper.0 >= lower { 0 } else { 1 + first_up(s.skip(1), lower) } }
pub proof fn first_up_is(s: Seq<TimeInterval>, lower: int)
    ensures 0 <= first_up(s, lower) <= s.len(), forall|j: int| 0 <= j < first_up(s, lower) ==> (#[trigger] s[j]).upper.0 < lower, first_up(s, lower) < s.len() ==> s[first_up(s, lower)].upper.0 >= lower,
        first_up(s, lower) == s.len() ==> forall|x: int| #[trigger] seq_has(s, x) ==> x < lower
    decreases s.len()
{
    if s.len() > 0 && s[0].upper.0 < lower {
        let t = s.skip(1); first_up_is(t, lower); let k = first_up(t, lower);
        assert forall|j: int| 0 <= j < k + 1 implies (#[trigger] s[j]).upper.0 < lower by { if j > 0 { assert(t[j - 1].upper.0 < lower); } }
    }
}
pub open spec fn last_low(s: Seq<TimeInterval>, upper: int) -> int
    decreases s.len()
{ if s.len() == 0 { -1 } else if s.last().lower.0 <= upper { s.len() - 1 } else { last_low(s.drop_last(), upper) } }
pub proof fn last_low_is(s: Seq<TimeInterval>, upper: int)
    ensures -1 <= last_low(s, upper) < s.len(), forall|j: int| last_low(s, upper) < j < s.len() ==> (#[trigger] s[j]).lower.0 > upper, last_low(s, upper) >= 0 ==> s[last_low(s, upper)].lower.0 <= upper,
        last_low(s, upper) == -1 ==> forall|x: int| #[trigger] seq_has(s, x) ==> x > upper
    decreases s.len()
{
    if s.len() > 0 && s.last().lower.0 > upper {
        let t = s.drop_last(); last_low_is(t, upper); let k = last_low(t, upper);
        assert forall|j: int| k < j < s.len() implies (#[trigger] s[j]).lower.0 > upper by { if j < s.len() - 1 { assert(t[j].lower.0 > upper); } }
    }
}
impl TimeSet {
// ---- truncation (C14)
//@fn TimeTruncation for TimeSet<T> :: truncate_before
    pub fn truncate_before(&mut self, lower: TimeValue) -> (r: bool)
        requires old(self).ok(), okv(lower)
        ensures result(final(self).0@, |x: int| old(self).has(x) && x >= lower.0 && lower.0 < M()), r == (final(self).0@ != old(self).0@)
//@rule self . 0 . iter ( ) . position ( | i | $*e ) ==> position(&self.0, |i: &TimeInterval| -> (r: bool) ensures r == (i.upper.0 >= lower.0) { $*e })
//@rule self . 0 . drain ( $*a .. $*b ) ==> drain_range(&mut self.0, $*a, $*b)
//@start
        let ghost s = self.0@;
        proof { canon_reach(s); }
//@post
        proof {
            let k = first_up(s, lower.0 as int); first_up_is(s, lower.0 as int);
            if lower.0 < M() && k < s.len() {
                let f = TimeInterval { lower: if s[k].lower.0 > lower.0 { s[k].lower } else { lower }, upper: s[k].upper };
                cut_low(s, k, f, lower.0 as int);
                assert(self.0@ =~= s.skip(k).update(0, f));
                if k > 0 { assert(self.0@.len() < s.len()); } else if s[0].lower.0 >= lower.0 { assert(self.0@ =~= s); } else { assert(self.0@[0] != s[0]); }
            } else {
                assert forall|x: int| !(seq_has(s, x) && x >= lower.0 && lower.0 < M()) by {}
                assert forall|x: int| !#[trigger] seq_has(self.0@, x) by {}
                if s.len() == 0 { assert(self.0@ =~= s); } else { assert(self.0@.len() != s.len()); }
            }
        }
//@end
//@fn TimeTruncation for TimeSet<T> :: truncate_after
    pub fn truncate_after(&mut self, upper: TimeValue) -> (r: bool)
        requires old(self).ok(), okv(upper)
        ensures result(final(self).0@, |x: int| old(self).has(x) && x <= upper.0 && upper.0 > -M()), r == (final(self).0@ != old(self).0@)
//@rule self . 0 . iter ( ) . rposition ( | i | $*e ) ==> rposition(&self.0, |i: &TimeInterval| -> (r: bool) ensures r == (i.lower.0 <= upper.0) { $*e })
//@start
        let ghost s = self.0@;
        proof { canon_reach(s); }
//@post
        proof {
            let k = last_low(s, upper.0 as int); last_low_is(s, upper.0 as int);
            if upper.0 > -M() && k >= 0 {
                let f = TimeInterval { lower: s[k].lower, upper: if s[k].upper.0 < upper.0 { s[k].upper } else { upper } };
                cut_high(s, k, f, upper.0 as int);
                assert(self.0@ =~= s.take(k + 1).update(k, f));
                if k + 1 < s.len() { assert(self.0@.len() < s.len()); } else if s[k].upper.0 <= upper.0 { assert(self.0@ =~= s); } else { assert(self.0@[k] != s[k]); }
            } else {
                assert forall|x: int| !(seq_has(s, x) && x <= upper.0 && upper.0 > -M()) by {}
                assert forall|x: int| !#[trigger] seq_has(self.0@, x) by {}
                if s.len() == 0 { assert(self.0@ =~= s); } else { assert(self.0@.len() != s.len()); }
            }
        }
//@end
}
impl TimeSet {
// ---- intersection
//@for N A in bitand_set_ref:TimeSet<T> bitand_ref_ref:Self
//@fn BitAnd<%A%> for &TimeSet<T> :: bitand as %N%
    pub fn %N%(&self, tw: &TimeSet) -> (r: TimeSet)
        requires self.ok(), tw.ok()
        ensures result(r.0@, |x: int| self.has(x) && tw.has(x))
//@rule ^ $*a . intersection ( $*b ) . collect ( ) ==> TimeSet::from_iter_sorted(intersection_iter($*a, $*b))
//@end
//@endfor
//@fn BitAnd<TW> for &TimeSet<T> :: bitand as bitand_tw_ref
    pub fn bitand_tw_ref<TW: TimeConvex>(&self, tw: TW) -> (r: TimeSet)
        requires self.ok(), okt(tw.iv())
        ensures result(r.0@, |x: int| self.has(x) && tw.iv().has(x))
//@rule ^ $*a . intersection ( tw . into ( ) ) . collect ( ) ==> TimeSet::from_iter_sorted(intersection_interval($*a, tw.into()))
//@end
//@fn BitAnd<Self> for TimeSet<T> :: bitand as bitand_set_set
    pub fn bitand_set_set(self, tw: TimeSet) -> (r: TimeSet)
        requires self.ok(), tw.ok()
        ensures result(r.0@, |x: int| self.has(x) && tw.has(x))
//@rule ( & self ) . bitand ( tw ) ==> (&self).bitand_set_ref(&tw)
//@end
//@fn BitAnd<&Self> for TimeSet<T> :: bitand as bitand_set_rset
    pub fn bitand_set_rset(self, tw: &TimeSet) -> (r: TimeSet)
        requires self.ok(), tw.ok()
        ensures result(r.0@, |x: int| self.has(x) && tw.has(x))
//@rule ( & self ) . bitand ( tw ) ==> (&self).bitand_ref_ref(tw)
//@end
//@fn BitAnd<TW> for TimeSet<T> :: bitand as bitand_set_tw
    pub fn bitand_set_tw<TW: TimeConvex>(self, tw: TW) -> (r: TimeSet)
        requires self.ok(), okt(tw.iv())
        ensures result(r.0@, |x: int| self.has(x) && tw.iv().has(x))
//@rule ( & self ) . bitand ( tw ) ==> (&self).bitand_tw_ref(tw)
//@end
//@fn BitAndAssign<TW> for TimeSet<T> :: bitand_assign as bitand_assign_tw
    pub fn bitand_assign_tw<TW: TimeConvex>(&mut self, tw: TW)
        requires old(self).ok(), okt(tw.iv())
        ensures result(final(self).0@, |x: int| old(self).has(x) && tw.iv().has(x))
//@end
//@fn BitAndAssign<Self> for TimeSet<T> :: bitand_assign as bitand_assign_set
    pub fn bitand_assign_set(&mut self, tw: TimeSet)
        requires old(self).ok(), tw.ok()
        ensures result(final(self).0@, |x: int| old(self).has(x) && tw.has(x))
//@rule self . clone ( ) . bitand ( tw ) ==> self.clone().bitand_set_set(tw)
//@end
//@fn BitAndAssign<&Self> for TimeSet<T> :: bitand_assign as bitand_assign_rset
    pub fn bitand_assign_rset(&mut self, tw: &TimeSet)
        requires old(self).ok(), tw.ok()
        ensures result(final(self).0@, |x: int| old(self).has(x) && tw.has(x))
//@rule self . clone ( ) . bitand ( tw ) ==> self.clone().bitand_set_rset(tw)
//@end
}
// ---- complement (C09): the point at an infinity stands for the half line which reaches it
pub open spec fn nearest(x: int) -> int { if x == M() { M() - 1 } else if x == -M() { -M() + 1 } else { x } }
pub proof fn gaps(s: Seq<TimeInterval>)
    requires canon(s)
    ensures forall|k: int, x: int| #![trigger s[k], seq_has(s, x)] 0 < k < s.len() && s[k - 1].upper.0 < x < s[k].lower.0 ==> !seq_has(s, x),
        forall|x: int| s.len() > 0 && x < s[0].lower.0 ==> !#[trigger] seq_has(s, x), forall|x: int| s.len() > 0 && x > s.last().upper.0 ==> !#[trigger] seq_has(s, x),
        forall|k: int, x: int| #![trigger s[k], seq_has(s, x)] 0 <= k < s.len() && s[k].has(x) ==> seq_has(s, x),
{
    canon_reach(s);
    assert forall|k: int, x: int| #![trigger s[k], seq_has(s, x)] 0 < k < s.len() && s[k - 1].upper.0 < x < s[k].lower.0 implies !seq_has(s, x) by {
        if seq_has(s, x) { reach(s, k, x); reach(s, k - 1, x); }
    }
}
impl TimeInterval {
//@fn Not for TimeInterval<T> :: not
    pub fn not(self) -> (r: TimeSet)
        requires okt(self)
        ensures result(r.0@, |x: int| !self.has(nearest(x)))
//@start
        proof { small(); }
//@rule vec ! [ TimeInterval { $*a } , TimeInterval { $*b } , ] ==> ({ let v = vec![TimeInterval { $*a }, TimeInterval { $*b }]; proof { two_has(v@[0], v@[1]); assert(v@ =~= two(v@[0], v@[1])); } v })
//@rule vec ! [ TimeInterval { $*a } ] ==> ({ let v = vec![TimeInterval { $*a }]; proof { one_has(v@[0]); assert(v@ =~= one(v@[0])); } v })
//@end
}
impl TimeValue {
//@fn Not for $timepoint :: not
    pub fn not(self) -> (r: TimeSet)
        requires okv(self), !isinf(self.0 as int)
        ensures result(r.0@, |x: int| nearest(x) != self.0)
//@start
        proof { small(); }
//@rule TimeInterval :: before ( self . just_before ( ) ) ==> TimeInterval::before(self.just_before())
//@rule vec ! [ first , second ] ==> ({ let v = vec![first, second]; proof { two_has(v@[0], v@[1]); assert(v@ =~= two(v@[0], v@[1])); } v })
//@rule vec ! [ $a ] ==> ({ let v = vec![$a]; proof { one_has(v@[0]); assert(v@ =~= one(v@[0])); } v })
//@end
}
/// the complement of the first k intervals, up to the end of the last of them
pub open spec fn missing(s: Seq<TimeInterval>, c: Seq<TimeInterval>, k: int) -> bool {
    canon(c) && (c.len() > 0 ==> c.last().upper.0 + 1 == s[k - 1].lower.0)
    && forall|x: int| -M() <= x <= s[k - 1].upper.0 ==> (#[trigger] seq_has(c, x) <==> !seq_has(s, nearest(x)))
}
pub open spec fn block(l: int, u: int) -> TimeInterval { TimeInterval { lower: TimeValue(l as i64), upper: TimeValue(u as i64) } }
pub proof fn missing_first(s: Seq<TimeInterval>)
    requires canon(s), s.len() > 0
    ensures s[0].lower.0 > -M() + 1 ==> missing(s, one(block(-M(), s[0].lower.0 - 1)), 1), s[0].lower.0 <= -M() + 1 ==> missing(s, Seq::empty(), 1)
{
    gaps(s);
    let t = block(-M(), s[0].lower.0 - 1);
    one_has(t);
    if s[0].lower.0 > -M() + 1 { assert(canon(one(t))); }
}
pub proof fn missing_step(s: Seq<TimeInterval>, c: Seq<TimeInterval>, k: int)
    requires canon(s), 0 < k < s.len(), missing(s, c, k)
    ensures missing(s, c.push(block(s[k - 1].upper.0 + 1, s[k].lower.0 - 1)), k + 1)
{
    gaps(s);
    let t = block(s[k - 1].upper.0 + 1, s[k].lower.0 - 1);
    assert(s[k - 1].upper.0 + 1 < s[k].lower.0);
    assert(ne(s[k]) && ne(s[k - 1]));
    push_has(c, t);
    push_canon(c, t);
    let d = c.push(t);
    canon_reach(c);
    assert forall|x: int| -M() <= x <= s[k].upper.0 implies (#[trigger] seq_has(d, x) <==> !seq_has(s, nearest(x))) by {
        if x <= s[k - 1].upper.0 { assert(seq_has(c, x) <==> !seq_has(s, nearest(x))); }
        else if x < s[k].lower.0 { assert(s[k].lower.0 <= M() - 1); assert(nearest(x) == x); }
        else { assert(s[k].has(nearest(x))); assert(seq_has(s, nearest(x))); }
    }
}
pub proof fn missing_last(s: Seq<TimeInterval>, c: Seq<TimeInterval>)
    requires canon(s), s.len() > 0, missing(s, c, s.len() as int)
    ensures s.last().upper.0 < M() - 1 ==> result(c.push(block(s.last().upper.0 + 1, M())), |x: int| !seq_has(s, nearest(x))),
        s.last().upper.0 >= M() - 1 ==> result(c, |x: int| !seq_has(s, nearest(x)))
{
    gaps(s); canon_reach(c); canon_reach(s);
    let t = block(s.last().upper.0 + 1, M());
    push_has(c, t);
    if s.last().upper.0 < M() - 1 { push_canon(c, t); }
}
impl TimeSet {
//@fn Not for TimeSet<T> :: not
    pub fn not(self) -> (r: TimeSet)
        requires self.ok()
        ensures result(r.0@, |x: int| !self.has(nearest(x)))
//@rule ( .. $*a ) . into ( ) ==> TimeConvex::into(RangeTo { end: $*a })
//@rule ( $*a .. ) . into ( ) ==> TimeConvex::into(RangeFrom { start: $*a })
//@rule self . 0 . iter ( ) . skip ( 1 ) . for_each ( | tw | { $*_b } ) ==> { let mut k = 1; while k < self.0.len() { let tw = &self.0[k]; let ghost c = compl@; $*_b proof { missing_step(s, c, k as int); assert(compl@ =~= c.push(block(s[k - 1].upper.0 + 1, s[k as int].lower.0 - 1))); } k = k + 1; } }
//@start
        let ghost s = self.0@;
        proof { alloc(&self.0); if s.len() > 0 { missing_first(s); assert(Seq::<TimeInterval>::empty().push(block(-M(), s[0].lower.0 - 1)) =~= one(block(-M(), s[0].lower.0 - 1))); } }
//@inv
        invariant 1 <= k <= s.len(), s == self.0@, canon(s), previous.0 == (if s[k - 1].upper.0 == M() { M() } else { s[k - 1].upper.0 + 1 }), missing(s, compl@, k as int)
        decreases s.len() - k
//@after ; } k = k + 1 ; } }
        proof { missing_last(s, compl@); }
//@end
}

// ---- opposite (C05, C06)
impl NegSpecImpl for TimeInterval { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { okt(self) } open spec fn neg_spec(self) -> TimeInterval { block(-self.upper.0, -self.lower.0) } }
impl Neg for TimeInterval { type Output = TimeInterval;
//@fn Neg for TimeInterval<T> :: neg
    fn neg(self) -> (r: TimeInterval)
//@end
}
pub proof fn opposite(t: TimeInterval)
    requires okt(t)
    ensures okt(block(-t.upper.0, -t.lower.0)), forall|x: int| #[trigger] block(-t.upper.0, -t.lower.0).has(x) <==> t.has(-x)
{}
/// `v.iter().map(f).collect()`, `v.iter().rev().map(f).collect()`: what the standard library does
pub fn map_vec<F: Fn(&TimeInterval) -> TimeInterval>(v: &Vec<TimeInterval>, f: F) -> (r: Vec<TimeInterval>)
    requires forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],))
    ensures r.len() == v.len(), forall|k: int| 0 <= k < v.len() ==> call_ensures(f, (&v@[k],), #[trigger] r@[k])
{
    let mut r: Vec<TimeInterval> = Vec::new(); let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), r.len() == i, forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (&v@[k],), #[trigger] r@[k])
        decreases v.len() - i
    { let x = f(&v[i]); r.push(x); i += 1; }
    r
}
pub fn map_rev<F: Fn(&TimeInterval) -> TimeInterval>(v: &Vec<TimeInterval>, f: F) -> (r: Vec<TimeInterval>)
    requires forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],))
    ensures r.len() == v.len(), forall|k: int| 0 <= k < v.len() ==> call_ensures(f, (&v@[v.len() - 1 - k],), #[trigger] r@[k])
{
    let mut r: Vec<TimeInterval> = Vec::new(); let mut i = v.len();
    while i > 0
        invariant i <= v.len(), r.len() == v.len() - i, forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < r.len() ==> call_ensures(f, (&v@[v.len() - 1 - k],), #[trigger] r@[k])
        decreases i
    { i -= 1; let x = f(&v[i]); r.push(x); }
    r
}
impl TimeSet {
//@fn Neg for TimeSet<T> :: neg
    pub fn neg(self) -> (r: TimeSet)
        requires self.ok()
        ensures result(r.0@, |x: int| self.has(-x))
//@rule self . 0 . iter ( ) . rev ( ) . map ( | & t | $*e ) . collect ( ) ==> map_rev(&self.0, |t_: &TimeInterval| -> (r: TimeInterval) requires okt(*t_) ensures r == block(-t_.upper.0, -t_.lower.0) { let t = *t_; $*e })
//@rule Self ( $*a ) ==> ({ let v = $*a; proof { reversed(self.0@, v@); } TimeSet(v) })
//@end
}
pub proof fn reversed(s: Seq<TimeInterval>, v: Seq<TimeInterval>)
    requires canon(s)
    ensures v.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == block(-s[s.len() - 1 - k].upper.0, -s[s.len() - 1 - k].lower.0)) ==> canon(v) && forall|x: int| #[trigger] seq_has(v, x) <==> seq_has(s, -x)
{
    if v.len() == s.len() && (forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == block(-s[s.len() - 1 - k].upper.0, -s[s.len() - 1 - k].lower.0)) {
        let n = s.len();
        assert forall|k: int| 0 <= k < v.len() implies ne(#[trigger] v[k]) by { assert(ne(s[n - 1 - k])); }
        assert forall|a: int, b: int| 0 <= a < b < v.len() implies (#[trigger] v[a]).upper.0 + 1 < (#[trigger] v[b]).lower.0 by { assert(s[n - 1 - b].upper.0 + 1 < s[n - 1 - a].lower.0); }
        assert forall|x: int| #[trigger] seq_has(v, x) <==> seq_has(s, -x) by {
            if seq_has(v, x) { let j = choose|j: int| 0 <= j < v.len() && (#[trigger] v[j]).has(x); assert(s[n - 1 - j].has(-x)); }
            if seq_has(s, -x) { let j = choose|j: int| 0 <= j < s.len() && (#[trigger] s[j]).has(-x); assert(v[n - 1 - j].has(x)); }
        }
    }
}

// ---- containment and overlap (C10)
pub open spec fn within(a: TimeInterval, b: TimeInterval) -> bool { b.lower.0 <= a.lower.0 && a.upper.0 <= b.upper.0 }
pub open spec fn meets(a: TimeInterval, b: TimeInterval) -> bool { ne(a) && ne(b) && a.lower.0 <= b.upper.0 && b.lower.0 <= a.upper.0 }
pub proof fn within_is(a: TimeInterval, b: TimeInterval)
    requires okt(a), okt(b)
    ensures within(a, b) <==> (forall|x: int| #[trigger] a.has(x) ==> b.has(x))
{ if ne(a) { assert(a.has(a.lower.0 as int)); assert(a.has(a.upper.0 as int)); } }
pub proof fn meets_is(a: TimeInterval, b: TimeInterval)
    requires okt(a), okt(b)
    ensures meets(a, b) <==> (exists|x: int| -M() < x < M() && #[trigger] a.has(x) && b.has(x)), meets(a, b) <==> (exists|x: int| #[trigger] a.has(x) && b.has(x))
{ if meets(a, b) { let x = if a.lower.0 > b.lower.0 { a.lower.0 as int } else { b.lower.0 as int }; let y = if x == -M() { x + 1 } else { x }; assert(a.has(y) && b.has(y)); } }
/// a window among its kind: its bounds are those of its points
pub open spec fn set_low(s: Seq<TimeInterval>) -> int { if s.len() == 0 { M() } else { s[0].lower.0 as int } }
pub open spec fn set_up(s: Seq<TimeInterval>) -> int { if s.len() == 0 { -M() } else { s.last().upper.0 as int } }
//@fn TimeContaining<TW2> for TW1 :: contains as contains_convex
pub fn contains_convex<TW1: TimeConvex, TW2: TimeConvex>(this: &TW1, rhs: &TW2) -> (r: bool)
    requires okt(this.iv()), okt(rhs.iv())
    ensures r == within(rhs.iv(), this.iv()), r == (forall|x: int| #[trigger] rhs.iv().has(x) ==> this.iv().has(x))
//@rule self ==> this
//@start
        proof { within_is(rhs.iv(), this.iv()); }
//@end
//@fn TimeContaining<TW2> for TW1 :: contains as contains_in_convex
pub fn contains_in_convex<TW1: TimeConvex>(this: &TW1, rhs: &TimeSet) -> (r: bool)
    requires okt(this.iv()), rhs.ok()
    ensures r == (forall|x: int| #[trigger] seq_has(rhs.0@, x) ==> this.iv().has(x))
//@rule self ==> this
//@start
        proof { canon_reach(rhs.0@); let s = rhs.0@; if s.len() > 0 { assert(seq_has(s, s[0].lower.0 as int) && seq_has(s, s.last().upper.0 as int)); assert(ne(s[0])); } }
//@end
pub proof fn contains_part(s: Seq<TimeInterval>, t: TimeInterval)
    requires canon(s), ne(t)
    ensures ({ let k = first_up(s, t.lower.0 as int);
        0 <= k <= s.len() && (forall|j: int| 0 <= j < k ==> (#[trigger] s[j]).upper.0 < t.lower.0) && (k < s.len() ==> s[k].upper.0 >= t.lower.0)
        && ((forall|x: int| #[trigger] t.has(x) ==> seq_has(s, x)) <==> (k < s.len() && within(t, s[k])))
        && ((exists|x: int| #[trigger] t.has(x) && seq_has(s, x)) <==> (k < s.len() && s[k].lower.0 <= t.upper.0)) })
{
    let k = first_up(s, t.lower.0 as int); first_up_is(s, t.lower.0 as int); gaps(s); canon_reach(s);
    assert(t.has(t.lower.0 as int)); assert(t.has(t.upper.0 as int));
    if k < s.len() {
        if within(t, s[k]) { assert forall|x: int| #[trigger] t.has(x) implies seq_has(s, x) by { assert(s[k].has(x)); } }
        else if s[k].lower.0 > t.lower.0 { assert(!seq_has(s, t.lower.0 as int)) by { if seq_has(s, t.lower.0 as int) { reach(s, k, t.lower.0 as int); } } }
        else { let x = s[k].upper.0 + 1; assert(t.has(x)); assert(!seq_has(s, x)) by { if seq_has(s, x) { reach(s, k, x); assert(s[k].upper.0 + 1 < s[k + 1].lower.0); } } }
        if s[k].lower.0 <= t.upper.0 { let x = if s[k].lower.0 > t.lower.0 { s[k].lower.0 as int } else { t.lower.0 as int }; assert(s[k].has(x)); assert(t.has(x) && seq_has(s, x)); }
        else { assert forall|x: int| #[trigger] t.has(x) implies !seq_has(s, x) by { if seq_has(s, x) { reach(s, k, x); } } }
    } else if s.len() > 0 {
        assert(s[s.len() - 1].upper.0 < t.lower.0);
    }
}
/// `it.all(f)`, `it.any(f)`: what the standard library does
pub fn all<F: Fn(TimeInterval) -> bool>(it: IntoConvexIter, f: F) -> (r: bool)
    requires forall|k: int| 0 <= k < it.0.seq().len() ==> call_requires(f, (#[trigger] it.0.seq()[k],))
    ensures r ==> forall|k: int| 0 <= k < it.0.seq().len() ==> call_ensures(f, (#[trigger] it.0.seq()[k],), true), !r ==> exists|k: int| 0 <= k < it.0.seq().len() && call_ensures(f, (#[trigger] it.0.seq()[k],), false)
{
    let ghost s = it.0.seq(); let mut itr = it; let ghost mut i = 0int;
    loop
        invariant 0 <= i <= s.len(), s == it.0.seq(), itr.0.seq() == s.skip(i), forall|k: int| 0 <= k < s.len() ==> call_requires(f, (#[trigger] s[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (#[trigger] s[k],), true)
        decreases s.len() - i
    { match itr.next_() { None => { return true; } Some(x) => { proof { assert(x == s[i]); } if !f(x) { return false; } proof { i = i + 1; } } } }
}
pub fn any_of<F: Fn(TimeInterval) -> bool>(it: IntoConvexIter, f: F) -> (r: bool)
    requires forall|k: int| 0 <= k < it.0.seq().len() ==> call_requires(f, (#[trigger] it.0.seq()[k],))
    ensures !r ==> forall|k: int| 0 <= k < it.0.seq().len() ==> call_ensures(f, (#[trigger] it.0.seq()[k],), false), r ==> exists|k: int| 0 <= k < it.0.seq().len() && call_ensures(f, (#[trigger] it.0.seq()[k],), true)
{
    let ghost s = it.0.seq(); let mut itr = it; let ghost mut i = 0int;
    loop
        invariant 0 <= i <= s.len(), s == it.0.seq(), itr.0.seq() == s.skip(i), forall|k: int| 0 <= k < s.len() ==> call_requires(f, (#[trigger] s[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (#[trigger] s[k],), false)
        decreases s.len() - i
    { match itr.next_() { None => { return false; } Some(x) => { proof { assert(x == s[i]); } if f(x) { return true; } proof { i = i + 1; } } } }
}
pub open spec fn set_contains(s: Seq<TimeInterval>, t: TimeInterval) -> bool { forall|x: int| #[trigger] t.has(x) ==> seq_has(s, x) }
pub open spec fn set_meets(s: Seq<TimeInterval>, t: TimeInterval) -> bool { exists|x: int| #[trigger] t.has(x) && seq_has(s, x) }
pub proof fn by_parts(s: Seq<TimeInterval>, t: Seq<TimeInterval>)
    ensures (forall|k: int| 0 <= k < t.len() ==> set_contains(s, #[trigger] t[k])) <==> (forall|x: int| #[trigger] seq_has(t, x) ==> seq_has(s, x)),
        (exists|k: int| 0 <= k < t.len() && set_meets(s, #[trigger] t[k])) <==> (exists|x: int| #[trigger] seq_has(t, x) && seq_has(s, x))
{
    if forall|k: int| 0 <= k < t.len() ==> set_contains(s, #[trigger] t[k]) {
        assert forall|x: int| #[trigger] seq_has(t, x) implies seq_has(s, x) by { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).has(x); assert(set_contains(s, t[k])); }
    }
    if forall|x: int| #[trigger] seq_has(t, x) ==> seq_has(s, x) {
        assert forall|k: int| 0 <= k < t.len() implies set_contains(s, #[trigger] t[k]) by { assert forall|x: int| #[trigger] t[k].has(x) implies seq_has(s, x) by { assert(seq_has(t, x)); } }
    }
    if exists|k: int| 0 <= k < t.len() && set_meets(s, #[trigger] t[k]) {
        let k = choose|k: int| 0 <= k < t.len() && set_meets(s, #[trigger] t[k]); let x = choose|x: int| #[trigger] t[k].has(x) && seq_has(s, x); assert(seq_has(t, x) && seq_has(s, x));
    }
    if exists|x: int| #[trigger] seq_has(t, x) && seq_has(s, x) {
        let x = choose|x: int| #[trigger] seq_has(t, x) && seq_has(s, x); let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).has(x); assert(set_meets(s, t[k]));
    }
}
impl TimeSet {
//@fn TimeContaining<TW> for TimeSet<T> :: contains as contains_tw
    pub fn contains_tw<TW: TimeConvex>(&self, rhs: &TW) -> (r: bool)
        requires self.ok(), okt(rhs.iv())
        ensures r == set_contains(self.0@, rhs.iv())
//@rule self . 0 . iter ( ) . find ( | ts | $*e ) ==> find(&self.0, |ts: &TimeInterval| -> (r: bool) ensures r == (ts.upper.0 >= rhs.iv().lower.0) { $*e })
//@rule . map ( | ts | $*g ) ==> .map(|ts: &TimeInterval| -> (r: bool) requires okt(*ts) ensures r == within(rhs.iv(), *ts) { $*g })
//@rule ts . contains ( rhs ) ==> contains_convex(ts, rhs)
//@start
        proof { if ne(rhs.iv()) { contains_part(self.0@, rhs.iv()); } }
//@end
//@fn TimeContaining<Self> for TimeSet<T> :: contains
    pub fn contains(&self, rhs: &TimeSet) -> (r: bool)
        requires self.ok(), rhs.ok()
        ensures r == (forall|x: int| #[trigger] seq_has(rhs.0@, x) ==> seq_has(self.0@, x))
//@rule rhs . into_iter ( ) . all ( | tw | $*e ) ==> all(rhs.into_iter(), |tw: TimeInterval| -> (r: bool) requires okt(tw) ensures r == set_contains(self.0@, tw) { $*e })
//@rule self . contains ( & tw ) ==> self.contains_tw(&tw)
//@start
        proof { by_parts(self.0@, rhs.0@); }
//@end
//@fn TimeOverlapping<TW> for TimeSet<T> :: overlaps as overlaps_tw
    pub fn overlaps_tw<TW: TimeConvex>(&self, rhs: &TW) -> (r: bool)
        requires self.ok(), okt(rhs.iv())
        ensures r == set_meets(self.0@, rhs.iv())
//@rule self . 0 . iter ( ) . find ( | ts | $*e ) ==> find(&self.0, |ts: &TimeInterval| -> (r: bool) ensures r == (ts.upper.0 >= rhs.iv().lower.0) { $*e })
//@rule . map ( | ts | $*g ) ==> .map(|ts: &TimeInterval| -> (r: bool) requires okt(*ts) ensures r == (ts.lower.0 <= rhs.iv().upper.0) { $*g })
//@start
        proof { if ne(rhs.iv()) { contains_part(self.0@, rhs.iv()); } }
//@end
//@fn TimeOverlapping<Self> for TimeSet<T> :: overlaps
    pub fn overlaps(&self, rhs: &TimeSet) -> (r: bool)
        requires self.ok(), rhs.ok()
        ensures r == (exists|x: int| #[trigger] seq_has(rhs.0@, x) && seq_has(self.0@, x))
//@rule rhs . into_iter ( ) . any ( | tw | $*e ) ==> any_of(rhs.into_iter(), |tw: TimeInterval| -> (r: bool) requires okt(tw) ensures r == set_meets(self.0@, tw) { $*e })
//@rule self . overlaps ( & tw ) ==> self.overlaps_tw(&tw)
//@start
        proof { by_parts(self.0@, rhs.0@); }
//@end
}
//@fn TimeOverlapping<TW2> for TW1 :: overlaps as overlaps_convex
pub fn overlaps_convex<TW1: TimeConvex, TW2: TimeConvex>(this: &TW1, rhs: &TW2) -> (r: bool)
    requires okt(this.iv()), okt(rhs.iv())
    ensures r == (exists|x: int| -M() < x < M() && #[trigger] this.iv().has(x) && rhs.iv().has(x))
//@rule self ==> this
//@start
        proof { meets_is(this.iv(), rhs.iv()); }
//@end
//@fn TimeOverlapping<TimeSet<TW::TimePoint>> for TW :: overlaps as convex_overlaps_set
pub fn convex_overlaps_set<TW: TimeConvex>(this: &TW, rhs: &TimeSet) -> (r: bool)
    requires okt(this.iv()), rhs.ok()
    ensures r == set_meets(rhs.0@, this.iv())
//@rule self ==> this
//@rule rhs . overlaps ( this ) ==> rhs.overlaps_tw(this)
//@end

// ---- any window: the questions answered from its parts (C05, C11)
pub trait Window: Sized {
    spec fn parts(&self) -> Seq<TimeInterval>;
    spec fn okw(&self) -> bool;
    fn w_is_empty(&self) -> (r: bool) requires self.okw() ensures r == (self.parts().len() == 0), canon(self.parts());
    fn w_lower_bound(&self) -> (r: TimeValue) requires self.okw() ensures self.parts().len() == 0 ==> r.0 == M(), self.parts().len() > 0 ==> r == self.parts()[0].lower, canon(self.parts());
    fn w_upper_bound(&self) -> (r: TimeValue) requires self.okw() ensures self.parts().len() == 0 ==> r.0 == -M(), self.parts().len() > 0 ==> r == self.parts().last().upper, canon(self.parts());
    fn w_is_low_bounded(&self) -> (r: bool) requires self.okw() ensures r == (self.parts().len() > 0 && self.parts()[0].lower.0 > -M());
    fn w_is_up_bounded(&self) -> (r: bool) requires self.okw() ensures r == (self.parts().len() > 0 && self.parts().last().upper.0 < M());
    fn w_is_convex(&self) -> (r: bool) requires self.okw() ensures r == (self.parts().len() <= 1);
    fn w_convex_count(&self) -> (r: usize) requires self.okw() ensures r == self.parts().len();
    fn w_iter(&self) -> (r: Items) requires self.okw() ensures r.seq() == self.parts();
}
/// the iterator over the parts of a window (`option::IntoIter` or the wrapper of a vector's)
pub enum Items { Opt(OptSrc), Vector(IntoConvexIter) }
impl Items {
    pub open spec fn seq(&self) -> Seq<TimeInterval> { match self { Items::Opt(o) => if o.v is Some { one(o.v.unwrap()) } else { Seq::empty() }, Items::Vector(v) => v.0.seq() } }
    fn next(&mut self) -> (r: Option<TimeInterval>)
        ensures old(self).seq().len() == 0 ==> r is None && final(self).seq().len() == 0, old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() =~= old(self).seq().skip(1)
    { match self { Items::Opt(o) => { let r = o.v; o.v = None; r } Items::Vector(v) => { v.next_() } } }
}
/// `Iterator::eq`: what the standard library does
pub fn iter_eq(a: Items, b: Items) -> (r: bool)
    requires forall|k: int| 0 <= k < a.seq().len() ==> okt(#[trigger] a.seq()[k]), forall|k: int| 0 <= k < b.seq().len() ==> okt(#[trigger] b.seq()[k])
    ensures r == (a.seq() =~= b.seq())
{
    let mut i = a; let mut j = b; let ghost mut n = 0int;
    loop
        invariant 0 <= n <= a.seq().len(), n <= b.seq().len(), i.seq() =~= a.seq().skip(n), j.seq() =~= b.seq().skip(n), forall|k: int| 0 <= k < n ==> a.seq()[k] == b.seq()[k],
            forall|k: int| 0 <= k < a.seq().len() ==> okt(#[trigger] a.seq()[k]), forall|k: int| 0 <= k < b.seq().len() ==> okt(#[trigger] b.seq()[k])
        decreases a.seq().len() - n
    {
        match i.next() {
            None => { return match j.next() { None => true, Some(_) => false }; }
            Some(x) => { match j.next() { None => { return false; } Some(y) => { proof { assert(x == a.seq()[n] && y == b.seq()[n]); } if !x.eq(&y) { proof { assert(x != y); } return false; } proof { if !em(x) { assert(one(x)[0] == one(y)[0]); } } } } }
        }
        proof { n = n + 1; }
    }
}
pub proof fn same_points(a: Seq<TimeInterval>, b: Seq<TimeInterval>)
    requires canon(a), canon(b)
    ensures a =~= b <==> (forall|x: int| #![trigger seq_has(a, x)] #![trigger seq_has(b, x)] seq_has(a, x) <==> seq_has(b, x))
    decreases a.len()
{
    if forall|x: int| #![trigger seq_has(a, x)] #![trigger seq_has(b, x)] seq_has(a, x) <==> seq_has(b, x) {
        canon_reach(a); canon_reach(b);
        if a.len() > 0 { assert(seq_has(b, a[0].lower.0 as int)); assert(seq_has(b, a.last().upper.0 as int)); }
        if b.len() > 0 { assert(seq_has(a, b[0].lower.0 as int)); assert(seq_has(a, b.last().upper.0 as int)); }
        if a.len() > 0 {
            assert(a[0].lower == b[0].lower);
            head_end(a, b); head_end(b, a);
            assert(a[0] == b[0]);
            let c = a.skip(1); let d = b.skip(1);
            assert(canon(c)) by { assert forall|i: int, j: int| 0 <= i < j < c.len() implies (#[trigger] c[i]).upper.0 + 1 < (#[trigger] c[j]).lower.0 by { assert(a[i + 1].upper.0 + 1 < a[j + 1].lower.0); } }
            assert(canon(d)) by { assert forall|i: int, j: int| 0 <= i < j < d.len() implies (#[trigger] d[i]).upper.0 + 1 < (#[trigger] d[j]).lower.0 by { assert(b[i + 1].upper.0 + 1 < b[j + 1].lower.0); } }
            tail_has(a); tail_has(b);
            assert forall|x: int| seq_has(c, x) <==> seq_has(d, x) by { assert(seq_has(a, x) <==> seq_has(b, x)); }
            same_points(c, d);
            assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by { if i > 0 { assert(c[i - 1] == d[i - 1]); } }
        }
    }
}
proof fn tail_has(s: Seq<TimeInterval>)
    requires canon(s), s.len() > 0
    ensures forall|x: int| #[trigger] seq_has(s.skip(1), x) <==> seq_has(s, x) && !s[0].has(x)
{
    let t = s.skip(1);
    assert forall|x: int| #[trigger] seq_has(t, x) <==> seq_has(s, x) && !s[0].has(x) by {
        if seq_has(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).has(x); assert(s[k + 1].has(x)); assert(s[0].upper.0 + 1 < s[k + 1].lower.0); }
        if seq_has(s, x) && !s[0].has(x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x); assert(t[k - 1].has(x)); }
    }
}
proof fn head_end(a: Seq<TimeInterval>, b: Seq<TimeInterval>)
    requires canon(a), canon(b), a.len() > 0, b.len() > 0, a[0].lower == b[0].lower, forall|x: int| #![trigger seq_has(a, x)] #![trigger seq_has(b, x)] seq_has(a, x) <==> seq_has(b, x)
    ensures a[0].upper.0 <= b[0].upper.0
{
    if a[0].upper.0 > b[0].upper.0 {
        let x = b[0].upper.0 + 1;
        assert(a[0].has(x)); assert(seq_has(a, x));
        reach(b, 0, x); assert(b[0].upper.0 + 1 < b[1].lower.0);
    }
}
impl Window for TimeSet {
    open spec fn parts(&self) -> Seq<TimeInterval> { self.0@ }
    open spec fn okw(&self) -> bool { self.ok() }
    fn w_is_empty(&self) -> (r: bool) { TimeSet::is_empty(self) }
    fn w_lower_bound(&self) -> (r: TimeValue) { TimeSet::lower_bound(self) }
    fn w_upper_bound(&self) -> (r: TimeValue) { TimeSet::upper_bound(self) }
    fn w_is_low_bounded(&self) -> (r: bool) { TimeSet::is_low_bounded(self) }
    fn w_is_up_bounded(&self) -> (r: bool) { TimeSet::is_up_bounded(self) }
//@fn trait TimeWindow:TimeBounds :: is_convex as w_is_convex
    fn w_is_convex(&self) -> (r: bool)
//@end
    fn w_convex_count(&self) -> (r: usize) { TimeSet::convex_count(self) }
    fn w_iter(&self) -> (r: Items) { Items::Vector(TimeSet::iter(self)) }
}
//@for W in TimeInterval TimeValue Range RangeFrom RangeInclusive RangeTo RangeToInclusive
impl Window for %W% {
    open spec fn parts(&self) -> Seq<TimeInterval> { if em(self.iv()) { Seq::empty() } else { one(self.iv()) } }
    open spec fn okw(&self) -> bool { self.okc() && okt(self.iv()) }
    fn w_is_empty(&self) -> (r: bool) { TimeConvex::is_empty(self) }
    fn w_lower_bound(&self) -> (r: TimeValue) { TimeConvex::lower_bound(self) }
    fn w_upper_bound(&self) -> (r: TimeValue) { TimeConvex::upper_bound(self) }
    fn w_is_low_bounded(&self) -> (r: bool) { Convex::is_low_bounded(self) }
    fn w_is_up_bounded(&self) -> (r: bool) { Convex::is_up_bounded(self) }
//@fn TimeWindow for TW :: is_convex as w_is_convex
    fn w_is_convex(&self) -> (r: bool)
//@end
//@fn TimeWindow for TW :: convex_count as w_convex_count
    fn w_convex_count(&self) -> (r: usize)
//@rule self . is_empty ( ) ==> TimeConvex::is_empty(self)
//@end
//@fn TimeWindow for TW :: iter as w_iter
    fn w_iter(&self) -> (r: Items)
//@rule None . into_iter ( ) ==> Items::Opt(OptSrc { v: None })
//@rule Some ( $*a ) . into_iter ( ) ==> Items::Opt(OptSrc { v: Some($*a) })
//@rule self . is_empty ( ) ==> TimeConvex::is_empty(self)
//@rule self . lower_bound ( ) ==> TimeConvex::lower_bound(self)
//@rule self . upper_bound ( ) ==> TimeConvex::upper_bound(self)
//@end
}
//@endfor
//@fn trait TimeWindow:TimeBounds :: is_all
pub fn is_all<W: Window>(this: &W) -> (r: bool)
    requires this.okw()
    ensures r == (this.parts().len() == 1 && this.parts()[0].lower.0 == -M() && this.parts()[0].upper.0 == M())
//@rule self ==> this
//@rule . is_empty ==> .w_is_empty
//@rule . is_convex ==> .w_is_convex
//@rule . is_low_bounded ==> .w_is_low_bounded
//@rule . is_up_bounded ==> .w_is_up_bounded
//@start
        proof { if this.parts().len() == 1 { assert(this.parts().last() == this.parts()[0]); } }
//@end
//@fn trait TimeWindow:TimeBounds :: convex_envelope
pub fn convex_envelope<W: Window>(this: &W) -> (r: TimeInterval)
    requires this.okw()
    ensures okt(r), em(r) == (this.parts().len() == 0), ne(r) ==> r.lower == this.parts()[0].lower && r.upper == this.parts().last().upper && forall|x: int| #[trigger] seq_has(this.parts(), x) ==> r.has(x)
//@rule self ==> this
//@rule . lower_bound ==> .w_lower_bound
//@rule . upper_bound ==> .w_upper_bound
//@post
        proof { canon_reach(this.parts()); if this.parts().len() > 0 { assert(ne(this.parts()[0]) && ne(this.parts().last())); assert(seq_has(this.parts(), this.parts()[0].lower.0 as int)); } }
//@end
/// the points of the interval whose finite bounds are moved outwards by `d`
pub open spec fn grown(t: TimeInterval, d: int, x: int) -> bool { ne(t) && (t.lower.0 == -M() || t.lower.0 - d <= x) && (t.upper.0 == M() || x <= t.upper.0 + d) }
/// `b.then_some(v)`
fn then_some(b: bool, v: TimeInterval) -> (r: Option<TimeInterval>) ensures r == (if b { Some(v) } else { None }) { if b { Some(v) } else { None } }
impl TimeInterval {
//@fn TimeInterval<T> :: centered
    pub fn centered(origin: TimeValue, delta: TimeValue) -> (r: Option<TimeInterval>)
        requires okv(origin), okv(delta), !isinf(origin.0 as int)
        ensures (r is Some) == (delta.0 >= 0), r is Some ==> ne(r.unwrap()) && forall|x: int| -M() < x < M() ==> (#[trigger] r.unwrap().has(x) <==> delta.0 == M() || (origin.0 - delta.0 <= x <= origin.0 + delta.0))
//@rule ^ $*c . then_some ( $*v ) ==> then_some($*c, $*v)
//@rule Self { lower ==> TimeInterval { lower
//@end
//@fn TimeInterval<T> :: enlarge
    pub fn enlarge(&self, delta: TimeValue) -> (r: Option<TimeInterval>)
        requires okt(*self), okv(delta), !isinf(delta.0 as int)
        ensures r is Some ==> ne(r.unwrap()) && forall|x: int| -M() < x < M() ==> (#[trigger] r.unwrap().has(x) <==> grown(*self, delta.0 as int, x)),
            r is None ==> forall|x: int| -M() < x < M() ==> !#[trigger] grown(*self, delta.0 as int, x)
//@rule ^ $*c . then_some ( $*v ) ==> then_some($*c, $*v)
//@end
//@fn TimeSlot :: duration
    pub fn duration(&self) -> (r: TimeValue)
        requires okt(*self)
        ensures em(*self) ==> r.0 == 0, ne(*self) ==> r.0 == (if self.lower.0 == -M() || self.upper.0 == M() { M() } else { sat(self.upper.0 - self.lower.0) })
//@end
}

// ---- equality and precedence (C11)
pub open spec fn same(a: Seq<TimeInterval>, b: Seq<TimeInterval>) -> bool { forall|x: int| #![trigger seq_has(a, x)] #![trigger seq_has(b, x)] seq_has(a, x) <==> seq_has(b, x) }
pub open spec fn precedes(a: Seq<TimeInterval>, b: Seq<TimeInterval>) -> bool { a.len() > 0 && b.len() > 0 && forall|x: int, y: int| #[trigger] seq_has(a, x) && #[trigger] seq_has(b, y) ==> x < y }
pub proof fn before(a: Seq<TimeInterval>, b: Seq<TimeInterval>)
    requires canon(a), canon(b)
    ensures precedes(a, b) <==> a.len() > 0 && b.len() > 0 && a.last().upper.0 < b[0].lower.0, precedes(b, a) <==> a.len() > 0 && b.len() > 0 && b.last().upper.0 < a[0].lower.0
{ canon_reach(a); canon_reach(b); }
pub proof fn canon_one(t: TimeInterval)
    ensures ne(t) ==> canon(one(t)), canon(Seq::<TimeInterval>::empty())
{}
impl TimeInterval {
//@fn PartialEq<TW> for TimeInterval<T> :: eq
    pub fn eq<W: Window>(&self, other: &W) -> (r: bool)
        requires okt(*self), other.okw()
        ensures canon(other.parts()), r == same(self.parts(), other.parts()), r == (self.parts() =~= other.parts())
//@rule . is_convex ==> .w_is_convex
//@rule . lower_bound ==> .w_lower_bound
//@rule . upper_bound ==> .w_upper_bound
//@start
        let canon_ = other.w_is_empty(); // (its contract gives canon(other.parts()); no effect)
        proof { canon_one(*self); same_points(self.parts(), other.parts()); let p = other.parts(); if p.len() == 1 { assert(p[0] == p.last()); assert(p =~= one(p[0])); } }
//@end
}
impl TimeSet {
//@fn PartialEq<TW> for TimeSet<T> :: eq
    pub fn eq<W: Window>(&self, other: &W) -> (r: bool)
        requires self.ok(), other.okw()
        ensures canon(other.parts()), r == same(self.0@, other.parts()), r == (self.0@ =~= other.parts())
//@rule ^ self . iter ( ) . eq ( other . iter ( ) ) ==> iter_eq(Items::Vector(self.iter()), other.w_iter())
//@start
        let canon_ = other.w_is_empty(); // (its contract gives canon(other.parts()); no effect)
        proof { same_points(self.0@, other.parts()); }
//@end
}
//@for W P in TimeInterval:self.parts() TimeSet:self.0@
impl %W% {
//@fn PartialOrd<TW> for $time<T> :: lt
    pub fn lt<W: Window>(&self, other: &W) -> (r: bool)
        requires self.okw(), other.okw()
        ensures canon(other.parts()), r == precedes(%P%, other.parts())
//@macro timepartialcmp %W%
//@rule other . is_empty ==> other.w_is_empty
//@rule other . lower_bound ==> other.w_lower_bound
//@start
        let canon_ = other.w_is_empty(); // (its contract gives canon(other.parts()); no effect)
        proof { if %P%.len() == 1 { canon_one(%P%[0]); } before(%P%, other.parts()); }
//@end
//@fn PartialOrd<TW> for $time<T> :: gt
    pub fn gt<W: Window>(&self, other: &W) -> (r: bool)
        requires self.okw(), other.okw()
        ensures canon(other.parts()), r == precedes(other.parts(), %P%)
//@macro timepartialcmp %W%
//@rule other . is_empty ==> other.w_is_empty
//@rule other . upper_bound ==> other.w_upper_bound
//@start
        let canon_ = other.w_is_empty(); // (its contract gives canon(other.parts()); no effect)
        proof { if %P%.len() == 1 { canon_one(%P%[0]); } before(%P%, other.parts()); }
//@end
//@fn PartialOrd<TW> for $time<T> :: le
    pub fn le<W: Window>(&self, other: &W) -> (r: bool)
        requires self.okw(), other.okw()
        ensures r == (precedes(%P%, other.parts()) || same(%P%, other.parts()))
//@macro timepartialcmp %W%
//@end
//@fn PartialOrd<TW> for $time<T> :: ge
    pub fn ge<W: Window>(&self, other: &W) -> (r: bool)
        requires self.okw(), other.okw()
        ensures r == (precedes(other.parts(), %P%) || same(%P%, other.parts()))
//@macro timepartialcmp %W%
//@end
//@fn PartialOrd<TW> for $time<T> :: partial_cmp
    pub fn partial_cmp<W: Window>(&self, other: &W) -> (r: Option<Ordering>)
        requires self.okw(), other.okw()
        ensures r == (if precedes(%P%, other.parts()) { Some(Ordering::Less) } else if precedes(other.parts(), %P%) { Some(Ordering::Greater) } else if same(%P%, other.parts()) { Some(Ordering::Equal) } else { None })
//@macro timepartialcmp %W%
//@end
}
//@endfor
