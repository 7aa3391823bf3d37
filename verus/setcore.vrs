//@include iters
//@grule Self :: TimePoint ==> TimeValue
//@grule . get_unchecked ( $*i ) ==> [$*i]
//@grule { $*a . get_unchecked_mut ( $*i ) } ==> (&mut $*a[$*i])
// ---- trusted contracts of the standard library used on vectors of intervals -----------------------------------------------
/// `v.drain(a..b)`, dropped at once
#[verifier::external_body]
pub fn drain_range(v: &mut Vec<TimeInterval>, a: usize, b: usize)
    requires a <= b <= old(v).len()
    ensures final(v)@ == old(v)@.take(a as int) + old(v)@.skip(b as int)
{ v.drain(a..b); }
/// `v.reverse()`
#[verifier::external_body]
pub fn reverse(v: &mut Vec<TimeInterval>)
    ensures final(v)@ == old(v)@.reverse()
{ v.reverse(); }
/// `v.iter().position(f)`, `v.iter().rposition(f)`, `v.iter().find(f)`: what the standard library does, proved against their meaning
pub fn position<F: Fn(&TimeInterval) -> bool>(v: &Vec<TimeInterval>, f: F) -> (r: Option<usize>)
    requires forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],))
    ensures r is Some ==> r.unwrap() < v.len() && call_ensures(f, (&v@[r.unwrap() as int],), true) && (forall|k: int| 0 <= k < r.unwrap() ==> call_ensures(f, (&#[trigger] v@[k],), false)),
        r is None ==> forall|k: int| 0 <= k < v.len() ==> call_ensures(f, (&#[trigger] v@[k],), false)
{
    let mut i = 0;
    while i < v.len()
        invariant 0 <= i <= v.len(), forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (&#[trigger] v@[k],), false)
        decreases v.len() - i
    { if f(&v[i]) { return Some(i); } i += 1; }
    None
}
pub fn rposition<F: Fn(&TimeInterval) -> bool>(v: &Vec<TimeInterval>, f: F) -> (r: Option<usize>)
    requires forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],))
    ensures r is Some ==> r.unwrap() < v.len() && call_ensures(f, (&v@[r.unwrap() as int],), true) && (forall|k: int| r.unwrap() < k < v.len() ==> call_ensures(f, (&#[trigger] v@[k],), false)),
        r is None ==> forall|k: int| 0 <= k < v.len() ==> call_ensures(f, (&#[trigger] v@[k],), false)
{
    let mut i = v.len();
    while i > 0
        invariant 0 <= i <= v.len(), forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| i <= k < v.len() ==> call_ensures(f, (&#[trigger] v@[k],), false)
        decreases i
    { i -= 1; if f(&v[i]) { return Some(i); } }
    None
}
pub fn find<F: Fn(&TimeInterval) -> bool>(v: &Vec<TimeInterval>, f: F) -> (r: Option<&TimeInterval>)
    requires forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],))
    ensures r is Some ==> exists|p: int| 0 <= p < v.len() && r == Some(&#[trigger] v@[p]) && call_ensures(f, (&v@[p],), true) && (forall|k: int| 0 <= k < p ==> call_ensures(f, (&#[trigger] v@[k],), false)),
        r is None ==> forall|k: int| 0 <= k < v.len() ==> call_ensures(f, (&#[trigger] v@[k],), false)
{
    match position(v, f) { Some(p) => { Some(&v[p]) } None => None }
}

// ---- sets ------------------------------------------------------------------------------------------------------------------
pub struct TimeSet(pub Vec<TimeInterval>);
/// an allocation of the standard library holds less than 2^63 bytes
#[verifier::external_body]
pub proof fn alloc(v: &Vec<TimeInterval>) ensures v@.len() < 0x0800_0000_0000_0000 {}
pub proof fn canon_reach(s: Seq<TimeInterval>)
    requires canon(s)
    ensures forall|x: int| #[trigger] seq_has(s, x) ==> s.len() > 0 && -M() <= s[0].lower.0 <= x <= s.last().upper.0 <= M(),
        s.len() > 0 ==> seq_has(s, s[0].lower.0 as int) && seq_has(s, s.last().upper.0 as int),
        seq_has(s, M()) ==> seq_has(s, M() - 1), seq_has(s, -M()) ==> seq_has(s, -M() + 1)
{
    assert forall|x: int| #[trigger] seq_has(s, x) implies s.len() > 0 && -M() <= s[0].lower.0 <= x <= s.last().upper.0 <= M() by {
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x);
        if k > 0 { assert(s[0].upper.0 + 1 < s[k].lower.0); }
        if k < s.len() - 1 { assert(s[k].upper.0 + 1 < s[s.len() - 1].lower.0); }
    }
    if s.len() > 0 { assert(s[0].has(s[0].lower.0 as int)); assert(s[s.len() - 1].has(s.last().upper.0 as int)); }
    if seq_has(s, M()) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(M()); assert(s[k].has(M() - 1)); }
    if seq_has(s, -M()) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(-M()); assert(s[k].has(-M() + 1)); }
}
pub proof fn push_has(s: Seq<TimeInterval>, t: TimeInterval)
    ensures forall|x: int| #[trigger] seq_has(s.push(t), x) <==> seq_has(s, x) || t.has(x)
{
    let p = s.push(t);
    assert forall|x: int| #[trigger] seq_has(p, x) <==> seq_has(s, x) || t.has(x) by {
        if seq_has(p, x) { let k = choose|k: int| 0 <= k < p.len() && (#[trigger] p[k]).has(x); if k < s.len() { assert(s[k].has(x)); } }
        if seq_has(s, x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x); assert(p[k].has(x)); }
        if t.has(x) { assert(p[s.len() as int].has(x)); }
    }
}
pub proof fn push_canon(s: Seq<TimeInterval>, t: TimeInterval)
    requires canon(s), ne(t), s.len() > 0 ==> t.lower.0 > s.last().upper.0 + 1
    ensures canon(s.push(t))
{
    let p = s.push(t);
    assert forall|a: int, b: int| 0 <= a < b < p.len() implies (#[trigger] p[a]).upper.0 + 1 < (#[trigger] p[b]).lower.0 by {
        if b < s.len() { assert(s[a].upper.0 + 1 < s[b].lower.0); } else if a < s.len() - 1 { assert(s[a].upper.0 + 1 < s[s.len() - 1].lower.0); }
    }
}
impl Clone for TimeSet {
    /// derived by the compiler
    #[verifier::external_body]
    fn clone(&self) -> (r: TimeSet) ensures r.0@ == self.0@ { unimplemented!() }
}
impl TimeSet {
    pub open spec fn ok(&self) -> bool { canon(self.0@) }
    pub open spec fn has(&self, x: int) -> bool { seq_has(self.0@, x) }
//@fn TimeSet<T> :: all
    pub fn all() -> (r: Self) ensures r.ok(), forall|x: int| #[trigger] seq_has(r.0@, x) <==> -M() <= x <= M()
//@rule vec ! [ $*a ] ==> ({ let v = vec![$*a]; proof { assert(v@[0].has(0)); assert(forall|x: int| v@[0].has(x) <==> seq_has(v@, x)); } v })
//@end
//@fn TimeSet<T> :: empty
    pub fn empty() -> (r: Self) ensures r.ok(), r.0@.len() == 0, forall|x: int| !#[trigger] seq_has(r.0@, x)
//@end
//@fn TimeSet<T> :: convex
    pub fn convex(lower: TimeValue, upper: TimeValue) -> (r: Self)
        requires okv(lower), okv(upper)
        ensures r.ok(), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r.0@, x) <==> TimeInterval::spec_new(lower, upper).has(x))
//@rule vec ! [ $*a ] ==> ({ let v = vec![$*a]; proof { assert(forall|x: int| v@[0].has(x) <==> seq_has(v@, x)); } v })
//@end
//@fn TimeSet<T> :: singleton
    pub fn singleton(t: TimeValue) -> (r: Self)
        requires okv(t)
        ensures r.ok(), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r.0@, x) <==> x == t.0 && !isinf(x))
//@rule $*a . into ( ) ==> TimeSet::from($*a)
//@end
//@fn From<TW> for TimeSet<T> :: from
    pub fn from<TW: TimeConvex>(tw: TW) -> (r: Self)
        requires okt(tw.iv())
        ensures r.ok(), r.0@ == (if em(tw.iv()) { Seq::empty() } else { one(tw.iv()) }), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r.0@, x) <==> tw.iv().has(x))
//@rule vec ! [ $*a ] ==> ({ let v = vec![$*a]; proof { assert(forall|x: int| v@[0].has(x) <==> seq_has(v@, x)); assert(v@ =~= one(tw.iv())); } v })
//@end
//@fn TimeBounds for TimeSet<T> :: is_empty
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.0@.len() == 0)
//@end
//@fn TimeBounds for TimeSet<T> :: lower_bound
    pub fn lower_bound(&self) -> (r: TimeValue)
        ensures r.0 == if self.0@.len() == 0 { M() } else { self.0@[0].lower.0 as int }
//@rule . map ( TimeInterval :: lower_bound ) . unwrap_or ( $*d ) ==> .map(|t: &TimeInterval| -> (r: TimeValue) ensures r == t.lower { TimeInterval::lower_bound(t) }).unwrap_or($*d)
//@end
//@fn TimeBounds for TimeSet<T> :: upper_bound
    pub fn upper_bound(&self) -> (r: TimeValue)
        ensures r.0 == if self.0@.len() == 0 { -M() } else { self.0@.last().upper.0 as int }
//@rule . map ( TimeInterval :: upper_bound ) . unwrap_or ( $*d ) ==> .map(|t: &TimeInterval| -> (r: TimeValue) ensures r == t.upper { TimeInterval::upper_bound(t) }).unwrap_or($*d)
//@end
//@fn TimeBounds for TimeSet<T> :: is_singleton
    pub fn is_singleton(&self) -> (r: bool)
        requires self.ok()
        ensures r == (self.0@.len() == 1 && self.0@[0].lower == self.0@[0].upper)
//@end
//@fn TimeBounds for TimeSet<T> :: is_low_bounded
    pub fn is_low_bounded(&self) -> (r: bool)
        requires self.ok()
        ensures r == (self.0@.len() > 0 && self.0@[0].lower.0 > -M())
//@rule . map ( | s | $*e ) ==> .map(|s: &TimeInterval| -> (r: bool) requires ne(*s) ensures r == (s.lower.0 > -M()) { $*e })
//@end
//@fn TimeBounds for TimeSet<T> :: is_up_bounded
    pub fn is_up_bounded(&self) -> (r: bool)
        requires self.ok()
        ensures r == (self.0@.len() > 0 && self.0@.last().upper.0 < M())
//@rule . map ( | s | $*e ) ==> .map(|s: &TimeInterval| -> (r: bool) requires ne(*s) ensures r == (s.upper.0 < M()) { $*e })
//@end
//@fn TimeBounds for TimeSet<T> :: is_bounded
    pub fn is_bounded(&self) -> (r: bool)
        requires self.ok()
        ensures r == (self.0@.len() > 0 && self.0@[0].lower.0 > -M() && self.0@.last().upper.0 < M())
//@end
//@fn TimeWindow for TimeSet<T> :: convex_count
    pub fn convex_count(&self) -> (r: usize) ensures r == self.0@.len()
//@end
//@fn TimeWindow for TimeSet<T> :: iter
    pub fn iter(&self) -> (r: IntoConvexIter) ensures r.0.seq() == self.0@, self.0@.len() < 0x0800_0000_0000_0000
//@rule crate :: iter :: intoiter :: IntoConvexIter ==> IntoConvexIter
//@rule self . 0 . clone ( ) . into_iter ( ) ==> Slice::of(&self.0)
//@end
//@fn IntoIterator for &'a TimeSet<T> :: into_iter
    pub fn into_iter(&self) -> (r: IntoConvexIter) ensures r.0.seq() == self.0@, self.0@.len() < 0x0800_0000_0000_0000
//@rule intoiter :: IntoConvexIter ==> IntoConvexIter
//@rule self . 0 . iter ( ) . copied ( ) ==> Slice::of(&self.0)
//@end
//@fn IntoIterator for TimeSet<T> :: into_iter as into_iter_owned
    pub fn into_iter_owned(self) -> (r: IntoConvexIter) ensures r.0.seq() == self.0@, self.0@.len() < 0x0800_0000_0000_0000
//@rule intoiter :: IntoConvexIter ==> IntoConvexIter
//@rule self . 0 . into_iter ( ) ==> Slice::of(&self.0)
//@end

//@fn FromIterator<TimeInterval<T>> for TimeSet<T> :: from_iter as from_iter_sorted
    /// collecting sorted separated intervals: the slow branch is never taken
    pub fn from_iter_sorted<I: Src>(iter: I) -> (r: Self)
        requires iter.inv()
        ensures r.ok(), forall|x: int| #![trigger seq_has(r.0@, x)] #![trigger iter.has(x)] seq_has(r.0@, x) <==> iter.has(x)
//@rule iter . into_iter ( ) . filter ( | i | $*c ) ==> iter
//@rule None => Self :: empty ( ) ==> None => { Self::empty() }
//@rule iter . fold ( $a . into ( ) , | mut r , i | $*b ) ==> { let mut r = TimeSet::from($a); proof { assert(r.0@.len() == 1 && r.0@[0] == $a); } loop { let ghost it = iter; match iter.next() { None => { break; } Some(i) => { let ghost s = r.0@; proof { assert(it.has(i.lower.0 as int)); } r = $*b; proof { push_has(s, i); assert(r.0@ == s.push(i)); } } } } r }
//@rule r |= i ==> vpanic()
//@inv
        invariant iter.inv(), canon(r.0@), r.0@.len() > 0, forall|x: int| #[trigger] iter.has(x) ==> x > r.0@.last().upper.0 + 1,
            forall|x: int| #![trigger iter0.has(x)] #![trigger iter.has(x)] #![trigger seq_has(r.0@, x)] iter0.has(x) <==> (seq_has(r.0@, x) || iter.has(x))
        ensures forall|x: int| !#[trigger] iter.has(x)
        decreases iter.most()
//@start
        let ghost iter0 = iter;
        proof { iter.laws(); }
//@end
}

// ---- union (C06, C07) --------------------------------------------------------------------------------------------------------
/// the result of an operation on windows: canonical, and exactly the points said
pub open spec fn result(r: Seq<TimeInterval>, p: spec_fn(int) -> bool) -> bool {
    canon(r) && forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r, x) <==> p(x))
}
pub open spec fn one(t: TimeInterval) -> Seq<TimeInterval> { Seq::empty().push(t) }
pub open spec fn two(t: TimeInterval, u: TimeInterval) -> Seq<TimeInterval> { Seq::empty().push(t).push(u) }
pub proof fn one_has(t: TimeInterval) ensures forall|x: int| #[trigger] seq_has(one(t), x) <==> t.has(x)
{
    push_has(Seq::empty(), t);
}
pub proof fn two_has(t: TimeInterval, u: TimeInterval) ensures forall|x: int| #[trigger] seq_has(two(t, u), x) <==> t.has(x) || u.has(x)
{
    push_has(one(t), u); one_has(t);
}
/// the points of a list filled one by one, up to two
pub proof fn small()
    ensures forall|x: int| !#[trigger] seq_has(Seq::<TimeInterval>::empty(), x),
        forall|t: TimeInterval, x: int| #[trigger] seq_has(Seq::<TimeInterval>::empty().push(t), x) <==> t.has(x),
        forall|t: TimeInterval, u: TimeInterval, x: int| #[trigger] seq_has(Seq::<TimeInterval>::empty().push(t).push(u), x) <==> t.has(x) || u.has(x)
{
    assert forall|t: TimeInterval, x: int| #[trigger] seq_has(Seq::<TimeInterval>::empty().push(t), x) <==> t.has(x) by { one_has(t); assert(seq_has(one(t), x) <==> t.has(x)); }
    assert forall|t: TimeInterval, u: TimeInterval, x: int| #[trigger] seq_has(Seq::<TimeInterval>::empty().push(t).push(u), x) <==> t.has(x) || u.has(x) by { two_has(t, u); assert(seq_has(two(t, u), x) <==> t.has(x) || u.has(x)); }
}
impl TimeInterval {
//@fn BitOr<TW>for&TimeInterval<T> :: bitor as bitor_ref
    pub fn bitor_ref<TW: TimeConvex>(&self, tw: TW) -> (r: TimeSet)
        requires okt(*self), okt(tw.iv())
        ensures result(r.0@, |x: int| self.has(x) || tw.iv().has(x))
//@rule ( * self ) . into ( ) ==> TimeSet::from(*self)
//@start
        proof { small(); one_has(*self); one_has(tw.iv()); }
//@rule vec ! [ TimeInterval { $*a } ] ==> ({ let v = vec![TimeInterval { $*a }]; proof { one_has(v@[0]); assert(v@ =~= one(v@[0])); } v })
//@rule vec ! [ $*a , $*b ] ==> ({ let v = vec![$*a, $*b]; proof { two_has(v@[0], v@[1]); assert(v@ =~= two(v@[0], v@[1])); } v })
//@end
//@fn BitOr<TW>for TimeInterval<T> :: bitor
    pub fn bitor<TW: TimeConvex>(self, tw: TW) -> (r: TimeSet)
        requires okt(self), okt(tw.iv())
        ensures result(r.0@, |x: int| self.has(x) || tw.iv().has(x))
//@rule ( & self ) . bitor ==> (&self).bitor_ref
//@end
}
impl TimeValue {
//@fn BitOr<TW>for TimeValue :: bitor
    pub fn bitor<TW: TimeConvex>(self, tw: TW) -> (r: TimeSet)
        requires okv(self), okt(tw.iv())
        ensures result(r.0@, |x: int| (x == self.0 && !isinf(x)) || tw.iv().has(x))
//@end
// (the text for `Timestamp`, read on the same line as every other generic of this unit)
//@fn BitOr<TW>for Timestamp :: bitor as bitor_stamp
    pub fn bitor_stamp<TW: TimeConvex>(self, tw: TW) -> (r: TimeSet)
        requires okv(self), okt(tw.iv())
        ensures result(r.0@, |x: int| (x == self.0 && !isinf(x)) || tw.iv().has(x))
//@end
}

impl TimeSet {
//@for N A in bitor_set_ref:TimeSet<T> bitor_ref_ref:Self
//@fn BitOr<%A%> for &TimeSet<T> :: bitor as %N%
    pub fn %N%(&self, tw: &TimeSet) -> (r: TimeSet)
        requires self.ok(), tw.ok()
        ensures result(r.0@, |x: int| self.has(x) || tw.has(x))
//@rule ^ $*a . union ( $*b ) . collect ( ) ==> TimeSet::from_iter_sorted(union_iter($*a, $*b))
//@end
//@endfor
//@fn BitOr<TW> for &TimeSet<T> :: bitor as bitor_tw_ref
    pub fn bitor_tw_ref<TW: TimeConvex>(&self, tw: TW) -> (r: TimeSet)
        requires self.ok(), okt(tw.iv())
        ensures result(r.0@, |x: int| self.has(x) || tw.iv().has(x))
//@rule ^ $*a . union ( tw . into ( ) ) . collect ( ) ==> TimeSet::from_iter_sorted(union_interval($*a, tw.into()))
//@end
//@fn BitOr<Self> for TimeSet<T> :: bitor as bitor_set_set
    pub fn bitor_set_set(self, tw: TimeSet) -> (r: TimeSet)
        requires self.ok(), tw.ok()
        ensures result(r.0@, |x: int| self.has(x) || tw.has(x))
//@rule ( & self ) . bitor ( tw ) ==> (&self).bitor_set_ref(&tw)
//@end
//@fn BitOr<&Self> for TimeSet<T> :: bitor as bitor_set_rset
    pub fn bitor_set_rset(self, tw: &TimeSet) -> (r: TimeSet)
        requires self.ok(), tw.ok()
        ensures result(r.0@, |x: int| self.has(x) || tw.has(x))
//@rule ( & self ) . bitor ( tw ) ==> (&self).bitor_ref_ref(tw)
//@end
//@fn BitOr<TW> for TimeSet<T> :: bitor as bitor_set_tw
    pub fn bitor_set_tw<TW: TimeConvex>(self, tw: TW) -> (r: TimeSet)
        requires self.ok(), okt(tw.iv())
        ensures result(r.0@, |x: int| self.has(x) || tw.iv().has(x))
//@rule ( & self ) . bitor ( tw ) ==> (&self).bitor_tw_ref(tw)
//@end
//@fn BitOrAssign<TW> for TimeSet<T> :: bitor_assign as bitor_assign_tw
    pub fn bitor_assign_tw<TW: TimeConvex>(&mut self, tw: TW)
        requires old(self).ok(), okt(tw.iv())
        ensures result(final(self).0@, |x: int| old(self).has(x) || tw.iv().has(x))
//@rule self . clone ( ) . bitor ( tw ) ==> self.clone().bitor_set_tw(tw)
//@end
//@fn BitOrAssign<Self> for TimeSet<T> :: bitor_assign as bitor_assign_set
    pub fn bitor_assign_set(&mut self, tw: TimeSet)
        requires old(self).ok(), tw.ok()
        ensures result(final(self).0@, |x: int| old(self).has(x) || tw.has(x))
//@rule self . clone ( ) . bitor ( tw ) ==> self.clone().bitor_set_set(tw)
//@end
//@fn BitOrAssign<&Self> for TimeSet<T> :: bitor_assign as bitor_assign_rset
    pub fn bitor_assign_rset(&mut self, tw: &TimeSet)
        requires old(self).ok(), tw.ok()
        ensures result(final(self).0@, |x: int| old(self).has(x) || tw.has(x))
//@rule self . clone ( ) . bitor ( tw ) ==> self.clone().bitor_set_rset(tw)
//@end
}

// ---- collecting any intervals in any order (C06) ----------------------------------------------------------------------------
/// any finite iterator of intervals, canonical or empty each
pub trait Bag: Sized {
    spec fn inv(&self) -> bool;
    spec fn has(&self, x: int) -> bool;
    spec fn left(&self) -> nat;
    fn next(&mut self) -> (r: Option<TimeInterval>)
        requires old(self).inv()
        ensures final(self).inv(),
            r is None ==> (forall|x: int| -M() <= x <= M() ==> !#[trigger] old(self).has(x)) && (forall|x: int| -M() <= x <= M() ==> !#[trigger] final(self).has(x)),
            r is Some ==> okt(r.unwrap()) && final(self).left() < old(self).left()
                && (forall|x: int| #![trigger old(self).has(x)] #![trigger final(self).has(x)] -M() <= x <= M() ==> (old(self).has(x) <==> (r.unwrap().has(x) || final(self).has(x))));
}
/// the point is in one of the first sets
pub open spec fn any(s: Seq<TimeSet>, n: int, x: int) -> bool { exists|j: int| 0 <= j < n && #[trigger] s[j].has(x) }
pub proof fn any_one(s: Seq<TimeSet>)
    requires s.len() > 0
    ensures forall|x: int| #![trigger any(s, 1, x)] any(s, 1, x) <==> seq_has(s[0].0@, x)
{ assert forall|x: int| #![trigger any(s, 1, x)] any(s, 1, x) <==> seq_has(s[0].0@, x) by { if s[0].has(x) { assert(any(s, 1, x)); } } }
pub proof fn any_more(s: Seq<TimeSet>, n: int)
    requires 0 <= n < s.len()
    ensures forall|x: int| #![trigger any(s, n + 1, x)] any(s, n + 1, x) <==> any(s, n, x) || seq_has(s[n].0@, x)
{
    assert forall|x: int| #![trigger any(s, n + 1, x)] any(s, n + 1, x) <==> any(s, n, x) || seq_has(s[n].0@, x) by {
        if any(s, n, x) { let j = choose|j: int| 0 <= j < n && #[trigger] s[j].has(x); assert(s[j].has(x)); }
        if s[n].has(x) { assert(any(s, n + 1, x)); }
    }
}
/// `Iterator::filter` with a closure which answers whether the interval is not empty
pub struct Filtered<I: Bag> { pub it: I }
impl<I: Bag> Filtered<I> {
    fn next(&mut self) -> (r: Option<TimeInterval>)
        requires old(self).it.inv()
        ensures final(self).it.inv(),
            r is None ==> (forall|x: int| -M() <= x <= M() ==> !#[trigger] old(self).it.has(x)) && (forall|x: int| -M() <= x <= M() ==> !#[trigger] final(self).it.has(x)),
            r is Some ==> ne(r.unwrap()) && final(self).it.left() < old(self).it.left()
                && (forall|x: int| #![trigger old(self).it.has(x)] #![trigger final(self).it.has(x)] -M() <= x <= M() ==> (old(self).it.has(x) <==> (r.unwrap().has(x) || final(self).it.has(x))))
    {
        loop
            invariant self.it.inv(), self.it.left() <= old(self).it.left(), forall|x: int| #![trigger old(self).it.has(x)] #![trigger self.it.has(x)] -M() <= x <= M() ==> (old(self).it.has(x) <==> self.it.has(x))
            decreases self.it.left()
        { match self.it.next() { None => { return None; } Some(i) => { if !i.is_empty() { return Some(i); } } } }
    }
}
pub fn filtered<I: Bag, F: Fn(&TimeInterval) -> bool>(it: I, f: F) -> (r: Filtered<I>)
    requires forall|i: &TimeInterval| okt(*i) ==> #[trigger] call_requires(f, (i,)), forall|i: &TimeInterval, b: bool| okt(*i) && #[trigger] call_ensures(f, (i,), b) ==> b == ne(*i)
    ensures r.it == it
{ Filtered { it } }

impl TimeSet {
//@fn FromIterator<TimeInterval<T>> for TimeSet<T> :: from_iter
    pub fn from_iter<I: Bag>(iter: I) -> (r: Self)
        requires iter.inv()
        ensures result(r.0@, |x: int| iter.has(x))
//@rule iter . into_iter ( ) . filter ( | i | $*c ) ==> filtered(iter, |i: &TimeInterval| -> (b: bool) requires okt(*i) ensures b == ne(*i) { $*c })
//@rule None => Self :: empty ( ) ==> None => { Self::empty() }
//@rule iter . fold ( $a . into ( ) , | mut r , i | $*b ) ==> { let mut r = TimeSet::from($a); proof { one_has($a); assert(r.0@ == one($a)); } loop { let ghost it = iter.it; match iter.next() { None => { proof { assert forall|x: int| -M() <= x <= M() implies !#[trigger] iter.it.has(x) by { assert(!it.has(x)); } } break; } Some(i) => { let ghost s = r.0@; proof { push_has(s, i); canon_reach(s); } r = $*b; proof { if i.lower.0 <= s.last().upper.0 + 1 { assert(i.has(i.lower.0 as int)); assert(seq_has(r.0@, i.lower.0 as int)); } if i.lower.0 > s.last().upper.0 + 1 { push_canon(s, i); } } } } } r }
//@rule r |= i ==> r.bitor_assign_tw(i)
//@inv
        invariant iter.it.inv(), canon(r.0@), r.0@.len() > 0,
            forall|x: int| #![trigger iter0.has(x)] #![trigger iter.it.has(x)] #![trigger seq_has(r.0@, x)] -M() <= x <= M() ==> (iter0.has(x) <==> (seq_has(r.0@, x) || iter.it.has(x)))
        ensures forall|x: int| -M() <= x <= M() ==> !#[trigger] iter.it.has(x)
        decreases iter.it.left()
//@start
        let ghost iter0 = iter;
//@end
//@fn FromIterator<TimeSet<T>> for TimeSet<T> :: from_iter as from_iter_sets
    /// collecting sets: the list is one of slices here, iterated in order
    pub fn from_iter_sets(iter: &Vec<TimeSet>) -> (r: Self)
        requires forall|k: int| 0 <= k < iter.len() ==> (#[trigger] iter[k]).ok()
        ensures result(r.0@, |x: int| any(iter@, iter.len() as int, x))
//@rule iter . into_iter ( ) . reduce ( | r , s | $*e ) . unwrap_or ( $*d ) ==> if iter.len() == 0 { $*d } else { let mut r = iter[0].clone(); let mut k = 1; proof { any_one(iter@); } while k < iter.len() { let s = iter[k].clone(); r = $*e; proof { any_more(iter@, k as int); } k = k + 1; } r }
//@rule r | s ==> r.bitor_set_set(s)
//@inv
        invariant 1 <= k <= iter.len(), forall|k: int| 0 <= k < iter.len() ==> (#[trigger] iter[k]).ok(),
            canon(r.0@), forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r.0@, x) <==> any(iter@, k as int, x))
        decreases iter.len() - k
//@end
}
//@fn TimeUnion<TimeSet<TW::TimePoint>> for TW :: union as union_set
pub fn union_set<I: Src>(this: I, tw: TimeSet) -> (r: IterUnion<I, IntoConvexIter>)
    requires this.inv(), tw.ok()
    ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> this.has(x) || tw.has(x)
//@rule self ==> this
//@rule tw . into_iter ( ) ==> tw.into_iter_owned()
//@end
//@fn TimeUnion<&TimeSet<TW::TimePoint>> for TW :: union as union_set_ref
pub fn union_set_ref<I: Src>(this: I, tw: &TimeSet) -> (r: IterUnion<I, IntoConvexIter>)
    requires this.inv(), tw.ok()
    ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> this.has(x) || tw.has(x)
//@rule self ==> this
//@rule tw . clone ( ) . into_iter ( ) ==> tw.iter()
//@end
//@fn TimeIntersection<TimeSet<TW::TimePoint>> for TW :: intersection as intersection_set
pub fn intersection_set<I: Src>(this: I, tw: TimeSet) -> (r: IterIntersection<I, IntoConvexIter>)
    requires this.inv(), tw.ok(), this.most() + tw.0@.len() <= usize::MAX
    ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> this.has(x) && tw.has(x)
//@rule self ==> this
//@rule tw . into_iter ( ) ==> tw.into_iter_owned()
//@end
//@fn TimeIntersection<&TimeSet<TW::TimePoint>> for TW :: intersection as intersection_set_ref
pub fn intersection_set_ref<I: Src>(this: I, tw: &TimeSet) -> (r: IterIntersection<I, IntoConvexIter>)
    requires this.inv(), tw.ok(), this.most() + tw.0@.len() <= usize::MAX
    ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> this.has(x) && tw.has(x)
//@rule self ==> this
//@rule tw . clone ( ) . into_iter ( ) ==> tw.iter()
//@end
/// `Vec::shrink_to_fit`
#[verifier::external_body]
fn shrunk_to_fit(v: &mut Vec<TimeInterval>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
impl TimeSet {
//@fn TimeSet<T> :: shrink_to_fit
    pub fn shrink_to_fit(&mut self) ensures final(self).0@ == old(self).0@
//@rule self . 0 . shrink_to_fit ( ) ==> shrunk_to_fit(&mut self.0)
//@end
}
