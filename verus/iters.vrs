//@include intervals
//@grule Self :: Item ==> TimeInterval
// ---- sources of sorted separated intervals (TimeConvexIterator) ----------------------------------------------------------
/// What a fused iterator of sorted, separated, non-empty intervals is: `has` is the set of the points still to come.
/// `std::iter::Fuse` makes any source stay exhausted, so a field of type `Fuse<I>` is one of these.
pub trait Src: Sized {
    spec fn inv(&self) -> bool;
    spec fn has(&self, x: int) -> bool;
    /// at least so many items remain, at most so many
    spec fn least(&self) -> nat;
    spec fn most(&self) -> nat;
    /// a half line reaches an infinity when it holds it; no point, no item; all points, one item
    proof fn laws(&self)
        requires self.inv()
        ensures forall|x: int| #[trigger] self.has(x) ==> -M() <= x <= M(),
            self.has(M()) ==> self.has(M() - 1), self.has(-M()) ==> self.has(-M() + 1),
            (forall|x: int| !#[trigger] self.has(x)) ==> self.least() == 0,
            (forall|x: int| -M() < x < M() ==> #[trigger] self.has(x)) ==> self.least() <= 1;
    fn next(&mut self) -> (r: Option<TimeInterval>)
        requires old(self).inv()
        ensures final(self).inv(),
            r is None ==> old(self).least() == 0 && final(self).least() == 0 && final(self).most() <= old(self).most()
                && (forall|x: int| !#[trigger] old(self).has(x)) && (forall|x: int| !#[trigger] final(self).has(x)),
            r is Some ==> ne(r.unwrap())
                && (forall|x: int| #![trigger old(self).has(x)] #![trigger final(self).has(x)] old(self).has(x) <==> (r.unwrap().has(x) || final(self).has(x)))
                && (forall|x: int| #[trigger] final(self).has(x) ==> x > r.unwrap().upper.0 + 1)
                && final(self).most() < old(self).most() && old(self).least() <= final(self).least() + 1;
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 <= self.least(), r.1 is Some ==> self.most() <= r.1.unwrap();
}

// ---- union (C07, C21) -------------------------------------------------------------------------------------------------
#[derive(Copy, Clone)]
pub enum UnionState { Init, WaitI, WaitJ, OnlyI, OnlyJ, End }
pub struct IterUnion<I: Src, J: Src> { pub i: I, pub j: J, pub state: UnionState, pub tmp: TimeInterval }
impl<I: Src, J: Src> IterUnion<I, J> {
//@fn IterUnion<I,J> :: new
    pub fn new(i: I, j: J) -> (r: Self)
        requires i.inv(), j.inv()
        ensures r.inv(), forall|x: int| r.has(x) <==> i.has(x) || j.has(x), r.least() == 0, r.most() == i.most() + j.most()
//@rule . fuse ( ) ==>
//@end
    pub open spec fn waiting(&self) -> bool { self.state is WaitI || self.state is WaitJ }
}
impl<I: Src, J: Src> Src for IterUnion<I, J> {
    open spec fn inv(&self) -> bool {
        self.i.inv() && self.j.inv() && match self.state {
            UnionState::Init => true,
            UnionState::WaitI => ne(self.tmp) && (forall|x: int| #[trigger] self.j.has(x) ==> x > self.tmp.upper.0 + 1),
            UnionState::WaitJ => ne(self.tmp) && (forall|x: int| #[trigger] self.i.has(x) ==> x > self.tmp.upper.0 + 1),
            UnionState::OnlyI => forall|x: int| !#[trigger] self.j.has(x),
            UnionState::OnlyJ => forall|x: int| !#[trigger] self.i.has(x),
            UnionState::End => (forall|x: int| !#[trigger] self.i.has(x)) && (forall|x: int| !#[trigger] self.j.has(x)),
        }
    }
    open spec fn has(&self, x: int) -> bool { self.i.has(x) || self.j.has(x) || (self.waiting() && self.tmp.has(x)) }
    open spec fn least(&self) -> nat { match self.state { UnionState::OnlyI => self.i.least(), UnionState::OnlyJ => self.j.least(), _ => 0 } }
    open spec fn most(&self) -> nat {
        match self.state {
            UnionState::OnlyI => self.i.most(), UnionState::OnlyJ => self.j.most(), UnionState::End => 0,
            UnionState::Init => self.i.most() + self.j.most(), _ => self.i.most() + self.j.most() + 1
        }
    }
    proof fn laws(&self) {
        self.i.laws(); self.j.laws();
        assert forall|x: int| #[trigger] self.i.has(x) implies self.has(x) by {}
        assert forall|x: int| #[trigger] self.j.has(x) implies self.has(x) by {}
        if forall|x: int| -M() < x < M() ==> #[trigger] self.has(x) {
            if self.state is OnlyI { assert forall|x: int| -M() < x < M() implies #[trigger] self.i.has(x) by { assert(self.has(x)); } }
            if self.state is OnlyJ { assert forall|x: int| -M() < x < M() implies #[trigger] self.j.has(x) by { assert(self.has(x)); } }
        }
    }
//@fn Iterator for IterUnion<I,J> :: next
    fn next(&mut self) -> (r: Option<TimeInterval>)
//@inv
        invariant self.inv(), forall|x: int| #![trigger self.has(x)] #![trigger old(self).has(x)] self.has(x) <==> old(self).has(x), self.most() <= old(self).most(), old(self).least() == self.least()
        decreases self.most()
//@end
//@fn Iterator for IterUnion<I,J> :: size_hint
    fn size_hint(&self) -> (r: (usize, Option<usize>))
//@rule imax . checked_add ( jmax ) . and_then ( | max | $*e ) ==> (match imax.checked_add(jmax) { Some(max) => $*e, None => None })
//@end
}

// ---- intersection (C08, C21) --------------------------------------------------------------------------------------------
#[derive(Copy, Clone)]
pub enum InterState { Init, WaitI, WaitJ, End }
pub struct IterIntersection<I: Src, J: Src> { pub i: I, pub j: J, pub state: InterState, pub tmp: TimeInterval }
impl<I: Src, J: Src> IterIntersection<I, J> {
//@fn IterIntersection<I,J> :: new
    pub fn new(i: I, j: J) -> (r: Self)
        requires i.inv(), j.inv(), i.most() + j.most() <= usize::MAX
        ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> i.has(x) && j.has(x), r.least() == 0, r.most() == i.most() + j.most()
//@rule . fuse ( ) ==>
//@end
}
impl<I: Src, J: Src> Src for IterIntersection<I, J> {
    open spec fn inv(&self) -> bool {
        self.i.inv() && self.j.inv() && self.i.most() + self.j.most() <= usize::MAX && match self.state {
            InterState::WaitI => ne(self.tmp) && (forall|x: int| #[trigger] self.j.has(x) ==> x > self.tmp.upper.0 + 1),
            InterState::WaitJ => ne(self.tmp) && (forall|x: int| #[trigger] self.i.has(x) ==> x > self.tmp.upper.0 + 1),
            _ => true,
        }
    }
    open spec fn has(&self, x: int) -> bool {
        match self.state {
            InterState::Init => self.i.has(x) && self.j.has(x),
            InterState::WaitI => self.i.has(x) && (self.j.has(x) || self.tmp.has(x)),
            InterState::WaitJ => self.j.has(x) && (self.i.has(x) || self.tmp.has(x)),
            InterState::End => false,
        }
    }
    open spec fn least(&self) -> nat { 0 }
    open spec fn most(&self) -> nat { if self.state is End { 0 } else { self.i.most() + self.j.most() } }
    proof fn laws(&self) { self.i.laws(); self.j.laws(); }
//@fn Iterator for IterIntersection<I,J> :: next
    fn next(&mut self) -> (r: Option<TimeInterval>)
//@inv
        invariant self.inv(), forall|x: int| #![trigger self.has(x)] #![trigger old(self).has(x)] self.has(x) <==> old(self).has(x), self.most() <= old(self).most()
        decreases self.most(), (if self.state is End { 0int } else { 1 })
//@end
//@fn Iterator for IterIntersection<I,J> :: size_hint
    fn size_hint(&self) -> (r: (usize, Option<usize>))
//@end
}

// ---- complement (C09, C21) ----------------------------------------------------------------------------------------------
pub struct IterComplementary<I: Src> { pub iter: I, pub lower: TimeValue }
impl<I: Src> IterComplementary<I> {
//@fn IterComplementary<I> :: new
    pub fn new(iter: I) -> (r: Self)
        requires iter.inv()
        ensures r.inv(), r.most() == iter.most() + 1, forall|x: int| -M() < x < M() ==> (#[trigger] r.has(x) <==> !iter.has(x)), r.has(M()) <==> !iter.has(M() - 1), r.has(-M()) <==> !iter.has(-M() + 1)
//@rule . fuse ( ) ==>
//@end
}
impl<I: Src> Src for IterComplementary<I> {
    open spec fn inv(&self) -> bool {
        self.iter.inv() && okv(self.lower) && (self.lower.0 > -M() ==> forall|x: int| #[trigger] self.iter.has(x) ==> x > self.lower.0)
    }
    open spec fn has(&self, x: int) -> bool {
        self.lower.0 < M() && self.lower.0 <= x <= M() && !self.iter.has(if x == M() { M() - 1 } else if x == -M() { -M() + 1 } else { x })
    }
    open spec fn least(&self) -> nat {
        if self.lower.0 == M() { 0 } else if self.lower.0 > -M() { self.iter.least() } else if self.iter.least() == 0 { 0 } else { (self.iter.least() - 1) as nat }
    }
    open spec fn most(&self) -> nat { if self.lower.0 == M() { 0 } else { self.iter.most() + 1 } }
    proof fn laws(&self) {
        self.iter.laws();
        if self.lower.0 < M() {
            if self.lower.0 > -M() { assert(self.has(self.lower.0 as int)); }
            if forall|x: int| !#[trigger] self.has(x) {
                assert forall|x: int| -M() < x < M() implies #[trigger] self.iter.has(x) by { assert(!self.has(x)); }
            }
            if forall|x: int| -M() < x < M() ==> #[trigger] self.has(x) {
                assert forall|x: int| !#[trigger] self.iter.has(x) by {
                    if self.iter.has(x) { if -M() < x < M() { assert(self.has(x)); } else if x == M() { assert(self.has(M() - 1)); } else { assert(self.has(-M() + 1)); } }
                }
            }
        }
    }
//@fn Iterator for IterComplementary<I> :: next
    fn next(&mut self) -> (r: Option<TimeInterval>)
//@rule let start = $*a . and_then ( | $n | $*e ) ; ==> let start: Option<TimeInterval> = match $*a { Some($n) => $*e, None => None };
//@rule while let Some ( $n ) = self . iter . next ( ) { $*_b } ==> for $n in self.iter.by_ref() { $*_b }
//@rule for $n in self . iter . by_ref ( ) { $*_b } ==> loop { let ghost it = self.iter; match self.iter.next() { None => { break; } Some($n) => { proof { self.iter.laws(); assert(it.has($n.lower.0 as int)); } $*_b } } }
//@start
        proof { self.iter.laws(); }
//@before if start . is_some ( )
        proof { self.iter.laws(); }
//@inv
        invariant self.inv(), forall|x: int| #![trigger self.has(x)] #![trigger old(self).has(x)] self.has(x) <==> old(self).has(x),
            self.most() <= old(self).most(), old(self).least() <= self.least(),
            self.lower.0 == -M() ==> self.iter.least() == 0 && forall|x: int| !#[trigger] self.iter.has(x),
        ensures self.iter.least() == 0, forall|x: int| !#[trigger] self.iter.has(x)
        decreases self.iter.most()
//@end
//@fn Iterator for IterComplementary<I> :: size_hint
    fn size_hint(&self) -> (r: (usize, Option<usize>))
//@rule max . and_then ( | i | $*e ) ==> (match max { Some(i) => $*e, None => None })
//@end
}

// ---- the intervals of a set or of an interval -----------------------------------------------------------------------------
/// sorted, separated, non-empty
pub open spec fn canon(s: Seq<TimeInterval>) -> bool {
    (forall|k: int| 0 <= k < s.len() ==> ne(#[trigger] s[k])) && (forall|a: int, b: int| 0 <= a < b < s.len() ==> (#[trigger] s[a]).upper.0 + 1 < (#[trigger] s[b]).lower.0)
}
pub open spec fn seq_has(s: Seq<TimeInterval>, x: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x) }

/// `std::vec::IntoIter`, `Copied<slice::Iter>` over intervals: they give the elements in order (assumed contract of the standard library)
#[verifier::external_body]
pub struct Slice(std::vec::IntoIter<TimeInterval>);
impl Slice {
    pub uninterp spec fn seq(&self) -> Seq<TimeInterval>;
    #[verifier::external_body]
    /// (an allocation of the standard library holds less than 2^63 bytes)
    pub fn of(v: &Vec<TimeInterval>) -> (r: Slice) ensures r.seq() == v@, v.len() < 0x0800_0000_0000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn next(&mut self) -> (r: Option<TimeInterval>)
        ensures old(self).seq().len() == 0 ==> r is None && final(self).seq() == old(self).seq(),
            old(self).seq().len() > 0 ==> r == Some(old(self).seq()[0]) && final(self).seq() == old(self).seq().skip(1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn size_hint(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.seq().len(), r.1 == Some(r.0) { unimplemented!() }
    #[verifier::external_body]
    pub fn count(self) -> (r: usize) ensures r == self.seq().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn last(self) -> (r: Option<TimeInterval>)
        ensures self.seq().len() == 0 ==> r is None, self.seq().len() > 0 ==> r == Some(self.seq().last()) { unimplemented!() }
    #[verifier::external_body]
    pub fn nth(&mut self, n: usize) -> (r: Option<TimeInterval>)
        ensures n < old(self).seq().len() ==> r == Some(old(self).seq()[n as int]) && final(self).seq() == old(self).seq().skip(n + 1),
            n >= old(self).seq().len() ==> r is None && final(self).seq().len() == 0
    { unimplemented!() }
}
pub struct IntoConvexIter(pub Slice);
impl IntoConvexIter {
//@fn Iterator for IntoConvexIter<T,I> :: next as next_
    pub fn next_(&mut self) -> (r: Option<TimeInterval>)
        ensures old(self).0.seq().len() == 0 ==> r is None && final(self).0.seq() == old(self).0.seq(),
            old(self).0.seq().len() > 0 ==> r == Some(old(self).0.seq()[0]) && final(self).0.seq() == old(self).0.seq().skip(1)
//@end
//@fn Iterator for IntoConvexIter<T,I> :: size_hint as size_hint_
    pub fn size_hint_(&self) -> (r: (usize, Option<usize>)) ensures r.0 == self.0.seq().len(), r.1 == Some(r.0)
//@end
//@fn Iterator for IntoConvexIter<T,I> :: count
    pub fn count(self) -> (r: usize) ensures r == self.0.seq().len()
//@end
//@fn Iterator for IntoConvexIter<T,I> :: last
    pub fn last(self) -> (r: Option<TimeInterval>)
        ensures self.0.seq().len() == 0 ==> r is None, self.0.seq().len() > 0 ==> r == Some(self.0.seq().last())
//@end
//@fn Iterator for IntoConvexIter<T,I> :: nth
    pub fn nth(&mut self, n: usize) -> (r: Option<TimeInterval>)
        ensures n < old(self).0.seq().len() ==> r == Some(old(self).0.seq()[n as int]) && final(self).0.seq() == old(self).0.seq().skip(n + 1),
            n >= old(self).0.seq().len() ==> r is None && final(self).0.seq().len() == 0
//@end
}
impl Src for IntoConvexIter {
    open spec fn inv(&self) -> bool { canon(self.0.seq()) }
    open spec fn has(&self, x: int) -> bool { seq_has(self.0.seq(), x) }
    open spec fn least(&self) -> nat { self.0.seq().len() }
    open spec fn most(&self) -> nat { self.0.seq().len() }
    proof fn laws(&self) {
        let s = self.0.seq();
        if self.has(M()) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(M()); assert(s[k].has(M() - 1)); }
        if self.has(-M()) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(-M()); assert(s[k].has(-M() + 1)); }
        if s.len() > 0 { assert(s[0].has(s[0].lower.0 as int)); assert(self.has(s[0].lower.0 as int)); }
        if s.len() > 1 {
            let x = s[0].upper.0 + 1;
            assert(-M() < x < M()) by { assert(s[0].upper.0 + 1 < s[1].lower.0); }
            assert(!self.has(x)) by {
                if self.has(x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x); if k > 0 { assert(s[0].upper.0 + 1 < s[k].lower.0); } }
            }
        }
    }
    fn next(&mut self) -> (r: Option<TimeInterval>) {
        let ghost s = self.0.seq();
        let r = self.next_();
        proof {
            let t = self.0.seq();
            if s.len() > 0 {
                assert forall|x: int| seq_has(s, x) <==> (s[0].has(x) || seq_has(t, x)) by {
                    if seq_has(s, x) { let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x); if k > 0 { assert(t[k - 1].has(x)); } }
                    if seq_has(t, x) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).has(x); assert(s[k + 1].has(x)); }
                    if s[0].has(x) { assert(seq_has(s, x)); }
                }
                assert forall|x: int| seq_has(t, x) implies x > s[0].upper.0 + 1 by {
                    let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).has(x); assert(s[0].upper.0 + 1 < s[k + 1].lower.0);
                }
            }
        }
        r
    }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { self.size_hint_() }
}
/// `std::option::IntoIter` over an interval (its three methods are those of the standard library)
pub struct OptSrc { pub v: Option<TimeInterval> }
impl Src for OptSrc {
    open spec fn inv(&self) -> bool { self.v is Some ==> ne(self.v.unwrap()) }
    open spec fn has(&self, x: int) -> bool { self.v is Some && self.v.unwrap().has(x) }
    open spec fn least(&self) -> nat { if self.v is Some { 1 } else { 0 } }
    open spec fn most(&self) -> nat { if self.v is Some { 1 } else { 0 } }
    proof fn laws(&self) { if self.v is Some { assert(self.has(self.v.unwrap().lower.0 as int)); } }
    fn next(&mut self) -> (r: Option<TimeInterval>) { let r = self.v; self.v = None; r }
    fn size_hint(&self) -> (r: (usize, Option<usize>)) { if self.v.is_some() { (1, Some(1)) } else { (0, Some(0)) } }
}
impl TimeInterval {
//@fn IntoIterator for TimeInterval<T> :: into_iter
    pub fn into_iter(self) -> (r: OptSrc)
        requires okt(self)
        ensures r.inv(), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> self.has(x)), r.v == (if em(self) { None } else { Some(self) })
//@rule None . into_iter ( ) ==> OptSrc { v: None }
//@rule Some ( $*a ) . into_iter ( ) ==> OptSrc { v: Some($*a) }
//@end
}

// ---- the methods which build the iterators -----------------------------------------------------------------------------------
//@fn TimeUnion<TW2> for TW1 :: union as union_iter
pub fn union_iter<I: Src, J: Src>(this: I, tw: J) -> (r: IterUnion<I, J>)
    requires this.inv(), tw.inv()
    ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> this.has(x) || tw.has(x)
//@rule self ==> this
//@end
//@fn TimeUnion<TimeInterval<TW::TimePoint>> for TW :: union as union_interval
pub fn union_interval<I: Src>(this: I, tw: TimeInterval) -> (r: IterUnion<I, OptSrc>)
    requires this.inv(), okt(tw)
    ensures r.inv(), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> this.has(x) || tw.has(x))
//@rule self ==> this
//@end
//@fn TimeUnion<&TimeInterval<TW::TimePoint>> for TW :: union as union_interval_ref
pub fn union_interval_ref<I: Src>(this: I, tw: &TimeInterval) -> (r: IterUnion<I, OptSrc>)
    requires this.inv(), okt(*tw)
    ensures r.inv(), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> this.has(x) || tw.has(x))
//@rule self ==> this
//@end
//@fn TimeIntersection<TW2> for TW1 :: intersection as intersection_iter
pub fn intersection_iter<I: Src, J: Src>(this: I, tw: J) -> (r: IterIntersection<I, J>)
    requires this.inv(), tw.inv(), this.most() + tw.most() <= usize::MAX
    ensures r.inv(), forall|x: int| #[trigger] r.has(x) <==> this.has(x) && tw.has(x)
//@rule self ==> this
//@end
//@fn TimeIntersection<TimeInterval<TW::TimePoint>> for TW :: intersection as intersection_interval
pub fn intersection_interval<I: Src>(this: I, tw: TimeInterval) -> (r: IterIntersection<I, OptSrc>)
    requires this.inv(), okt(tw), this.most() < usize::MAX
    ensures r.inv(), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> this.has(x) && tw.has(x))
//@rule self ==> this
//@end
//@fn TimeIntersection<&TimeInterval<TW::TimePoint>> for TW :: intersection as intersection_interval_ref
pub fn intersection_interval_ref<I: Src>(this: I, tw: &TimeInterval) -> (r: IterIntersection<I, OptSrc>)
    requires this.inv(), okt(*tw), this.most() < usize::MAX
    ensures r.inv(), forall|x: int| -M() <= x <= M() ==> (#[trigger] r.has(x) <==> this.has(x) && tw.has(x))
//@rule self ==> this
//@end
//@fn TimeComplementary for TW :: complementary as complementary_iter
pub fn complementary_iter<I: Src>(this: I) -> (r: IterComplementary<I>)
    requires this.inv()
    ensures r.inv(), r.most() == this.most() + 1, forall|x: int| -M() < x < M() ==> (#[trigger] r.has(x) <==> !this.has(x)), r.has(M()) <==> !this.has(M() - 1), r.has(-M()) <==> !this.has(-M() + 1)
//@rule self ==> this
//@end
//@fn TimeExclusion<TW2> for TW1 :: exclusion as exclusion_iter
pub fn exclusion_iter<I: Src, J: Src>(this: I, tw: J) -> (r: IterIntersection<I, IterComplementary<J>>)
    requires this.inv(), tw.inv(), this.most() + tw.most() < usize::MAX
    ensures r.inv(), forall|x: int| -M() < x < M() ==> (#[trigger] r.has(x) <==> this.has(x) && !tw.has(x))
//@rule self ==> this
//@rule this . intersection ( $*a . complementary ( ) ) ==> intersection_iter(this, complementary_iter($*a))
//@end
