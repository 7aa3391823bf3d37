//@include graph
// ---- looking up constraints (C18, C21) -----------------------------------------------------------------------------------
pub struct TimeGraphConstraint<'a> { pub from: Instant, pub to: Instant, pub graph: &'a TimeGraph }
impl<'a> TimeGraphConstraint<'a> {
    pub open spec fn ok(&self) -> bool { self.graph.minimal() && self.from < self.graph.n() && self.to < self.graph.n() }
    pub open spec fn is(&self, g: &TimeGraph, f: int, t: int) -> bool { self.graph == g && self.from == f && self.to == t }
}
impl<'a> TimeConvex for TimeGraphConstraint<'a> {
    /// what the graph holds, for the instants of the graph
    open spec fn iv(&self) -> TimeInterval {
        if self.ok() { TimeInterval { lower: TimeValue(self.graph.c(self.from as int, self.to as int) as i64), upper: TimeValue(-self.graph.c(self.to as int, self.from as int) as i64) } }
        else { TimeInterval { lower: TimeValue(M() as i64), upper: TimeValue(M() as i64) } }
    }
//@fn TimeBounds for TimeGraphConstraint<'_> :: is_empty
    fn is_empty(&self) -> (r: bool)
//@start
        proof { self.held(); }
//@end
//@fn TimeBounds for TimeGraphConstraint<'_> :: lower_bound
    fn lower_bound(&self) -> (r: TimeValue)
//@start
        proof { self.held(); }
//@end
//@fn TimeBounds for TimeGraphConstraint<'_> :: upper_bound
    fn upper_bound(&self) -> (r: TimeValue)
//@start
        proof { self.held(); }
//@end
//@fn From<K>for TimeSpan :: from as into
    fn into(self) -> (r: TimeInterval)
//@end
}
impl<'a> TimeGraphConstraint<'a> {
    pub proof fn held(&self)
        ensures okt(self.iv()) ==> self.ok(), self.ok() ==> ne(self.iv()) && self.iv().lower.0 == self.graph.c(self.from as int, self.to as int) && self.iv().upper.0 == -self.graph.c(self.to as int, self.from as int)
    {
        if self.ok() {
            let c = self.graph.mat();
            let (f, t) = (self.from as int, self.to as int);
            assert(c(f, t) == at(self.graph.data@, f, t) && c(t, f) == at(self.graph.data@, t, f));
            assert(c(f, f) == 0);
            if c(f, t) > NEG() && c(t, f) > NEG() { assert(c(f, f) >= c(f, t) + c(t, f)); }
        }
    }
//@fn TimeBounds for TimeGraphConstraint<'_> :: is_low_bounded
    fn is_low_bounded(&self) -> (r: bool) requires self.ok() ensures r == (self.iv().lower.0 > -M())
//@start
        proof { self.held(); }
//@end
//@fn TimeBounds for TimeGraphConstraint<'_> :: is_up_bounded
    fn is_up_bounded(&self) -> (r: bool) requires self.ok() ensures r == (self.iv().upper.0 < M())
//@start
        proof { self.held(); }
//@end
//@fn TimeWindow for TW :: is_convex
    fn is_convex(&self) -> (r: bool) ensures r
//@end
//@fn trait TimeWindow:TimeBounds :: is_all
    fn is_all(&self) -> (r: bool) requires self.ok() ensures r == (self.iv().lower.0 == -M() && self.iv().upper.0 == M())
//@start
        proof { self.held(); }
//@end
//@fn From<TimeGraphConstraint<'a>>for((Instant,Instant),TimeSpan) :: from as to_pair
    pub fn to_pair(k: TimeGraphConstraint<'a>) -> (r: ((Instant, Instant), TimeInterval)) requires k.ok() ensures r.0.0 == k.from, r.0.1 == k.to, r.1 == k.iv()
//@start
        proof { k.held(); }
//@end
}
impl<'a> TimeConstraint for TimeGraphConstraint<'a> {
    open spec fn f(&self) -> Instant { self.from }
    open spec fn t(&self) -> Instant { self.to }
//@fn TimeConstraint for TimeGraphConstraint<'a> :: from
    fn from(&self) -> (r: Instant)
//@end
//@fn TimeConstraint for TimeGraphConstraint<'a> :: to
    fn to(&self) -> (r: Instant)
//@end
}
impl<TW: TimeConvex> TimeConvex for ((Instant, Instant), TW) {
    open spec fn iv(&self) -> TimeInterval { self.1.iv() }
//@fn TimeBounds for((Instant,Instant),TW) :: is_empty
    fn is_empty(&self) -> (r: bool)
//@end
//@fn TimeBounds for((Instant,Instant),TW) :: lower_bound
    fn lower_bound(&self) -> (r: TimeValue)
//@end
//@fn TimeBounds for((Instant,Instant),TW) :: upper_bound
    fn upper_bound(&self) -> (r: TimeValue)
//@end
//@fn From<K>for TimeSpan :: from as into
    fn into(self) -> (r: TimeInterval)
//@end
}
impl<TW: TimeConvex> TimeConstraint for ((Instant, Instant), TW) {
    open spec fn f(&self) -> Instant { self.0.0 }
    open spec fn t(&self) -> Instant { self.0.1 }
//@fn TimeConstraint for((Instant,Instant),TW) :: from
    fn from(&self) -> (r: Instant)
//@end
//@fn TimeConstraint for((Instant,Instant),TW) :: to
    fn to(&self) -> (r: Instant)
//@end
}
//@fn trait TimeConstraint:TimeConvex<TimePoint=TimeValue> :: equiv
pub fn equiv<K1: TimeConstraint, K: TimeConstraint>(this: &K1, k: &K) -> (r: bool)
    requires ne(this.iv()), ne(k.iv())
    ensures r == ((this.f() == k.f() && this.t() == k.t() && this.iv() == k.iv()) || (this.f() != k.f() && this.f() == k.t() && this.t() == k.f() && this.iv().lower.0 == -k.iv().upper.0 && this.iv().upper.0 == -k.iv().lower.0))
//@rule self ==> this
//@end

impl TimeGraph {
    /// a bound of the difference of the two dates is known
    pub open spec fn link(&self, i: int, j: int) -> bool { self.c(i, j) > NEG() || self.c(j, i) > NEG() }
    pub open spec fn inside(&self, i: int, j: int) -> bool { i < self.n() && j < self.n() }
//@fn TimeGraph :: timespan
    pub fn timespan(&self, i: Instant, j: Instant) -> (r: TimeInterval)
        requires self.wf()
        ensures self.inside(i as int, j as int) ==> r.lower.0 == self.c(i as int, j as int) && r.upper.0 == -self.c(j as int, i as int), !self.inside(i as int, j as int) ==> r.lower.0 == -M() && r.upper.0 == M()
//@start
        proof { if self.inside(i as int, j as int) { assert(at(self.data@, i as int, j as int) < M() && at(self.data@, j as int, i as int) < M()); } }
//@end
//@fn TimeGraph :: instant_cmp
    pub fn instant_cmp(&self, i: Instant, j: Instant) -> (r: Option<Ordering>)
        requires self.minimal()
        ensures !self.inside(i as int, j as int) ==> r is None,
            self.inside(i as int, j as int) ==> r == (if self.c(i as int, j as int) > 0 { Some(Ordering::Less) } else if self.c(j as int, i as int) > 0 { Some(Ordering::Greater) } else if self.c(i as int, j as int) == 0 && self.c(j as int, i as int) == 0 { Some(Ordering::Equal) } else { None }),
            self.inside(i as int, j as int) ==> (r == Some(Ordering::Less) <==> forall|s: Dates| #[trigger] self.fits(s) ==> s(i as int) < s(j as int))
                && (r == Some(Ordering::Greater) <==> forall|s: Dates| #[trigger] self.fits(s) ==> s(i as int) > s(j as int))
                && (r == Some(Ordering::Equal) <==> forall|s: Dates| #[trigger] self.fits(s) ==> s(i as int) == s(j as int))
//@start
        proof { self.compared(i as int, j as int); }
//@end
    /// what all the dates of a graph say of two of them
    pub proof fn compared(&self, i: int, j: int)
        requires self.minimal(), 0 <= i, 0 <= j
        ensures self.inside(i, j) ==> (self.c(i, j) > 0 <==> forall|s: Dates| #[trigger] self.fits(s) ==> s(i) < s(j))
            && (self.c(j, i) > 0 <==> forall|s: Dates| #[trigger] self.fits(s) ==> s(i) > s(j))
            && (self.c(i, j) == 0 && self.c(j, i) == 0 <==> forall|s: Dates| #[trigger] self.fits(s) ==> s(i) == s(j))
            && !(self.c(i, j) > 0 && self.c(j, i) > 0)
    {
        if self.inside(i, j) {
            let c = self.mat();
            let n = self.n();
            assert(bounded(c, n, M())) by { assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] c(a, b) == NEG() || -M() <= c(a, b) <= M() by { assert(NEG() <= at(self.data@, a, b) < M()); } }
            if c(i, j) <= 0 { let s = tight(c, n, i, j, 1); assert(self.fits(s)); }
            if c(j, i) <= 0 { let s = tight(c, n, j, i, 1); assert(self.fits(s)); }
            if c(i, j) < 0 { let s = tight(c, n, i, j, 0); assert(self.fits(s)); }
            if c(j, i) < 0 { let s = tight(c, n, j, i, 0); assert(self.fits(s)); }
            let z = feasible(c, n);
            assert(self.fits(z));
            assert(c(i, i) == 0);
            if c(i, j) > NEG() && c(j, i) > NEG() { assert(c(i, i) >= c(i, j) + c(j, i)); }
            assert forall|s: Dates| #[trigger] self.fits(s) implies (c(i, j) > NEG() ==> s(j) - s(i) >= c(i, j)) && (c(j, i) > NEG() ==> s(i) - s(j) >= c(j, i)) by {}
        }
    }
//@fn TimeGraph :: constraint
    pub fn constraint(&self, from: Instant, to: Instant) -> (r: Option<TimeGraphConstraint<'_>>)
        requires self.minimal()
        ensures r is Some <==> self.inside(from as int, to as int) && self.link(from as int, to as int), r is Some ==> r.unwrap().is(self, from as int, to as int) && r.unwrap().ok() && okt(r.unwrap().iv()) && ne(r.unwrap().iv())
                && r.unwrap().iv().lower.0 == self.c(from as int, to as int) && r.unwrap().iv().upper.0 == -self.c(to as int, from as int)
//@start
        proof { if self.inside(from as int, to as int) { assert(NEG() <= at(self.data@, from as int, to as int) && NEG() <= at(self.data@, to as int, from as int)); (TimeGraphConstraint { from, to, graph: self }).held(); } }
//@end
//@fn TimeGraph :: are_distinct_instants
    pub fn are_distinct_instants(&self, i: Instant, j: Instant) -> (r: bool)
        requires self.minimal()
        ensures r == (self.inside(i as int, j as int) && (self.c(i as int, j as int) > 0 || self.c(j as int, i as int) > 0))
//@rule self . constraint ( $*a ) . map ( | k | $*e ) . unwrap_or ( $*d ) ==> (match self.constraint($*a) { Some(k) => { proof { k.held(); } $*e } None => $*d })
//@end
}

// ---- enumerations (C18, C21) -----------------------------------------------------------------------------------------------
/// the pairs still to come of an enumeration from the instant i, from j on
pub open spec fn from_pairs(g: &TimeGraph, i: int, j: int) -> Seq<(int, int)>
    decreases g.n() - j
{
    if i >= g.n() || j >= g.n() { Seq::empty() }
    else if i != j && g.link(i, j) { seq![(i, j)] + from_pairs(g, i, j + 1) }
    else { from_pairs(g, i, j + 1) }
}
/// the pairs (i',j') with i' < j' which follow (i,j)
pub open spec fn all_pairs(g: &TimeGraph, i: int, j: int) -> Seq<(int, int)>
    decreases g.n() - i, g.n() - j
{
    if i >= g.n() { Seq::empty() }
    else if j + 1 >= g.n() { all_pairs(g, i + 1, i + 1) }
    else if g.link(i, j + 1) { seq![(i, j + 1)] + all_pairs(g, i, j + 1) }
    else { all_pairs(g, i, j + 1) }
}
pub open spec fn before(p: (int, int), q: (int, int)) -> bool { p.0 < q.0 || (p.0 == q.0 && p.1 < q.1) }
pub open spec fn ascending(s: Seq<(int, int)>) -> bool { forall|a: int, b: int| 0 <= a < b < s.len() ==> before(#[trigger] s[a], #[trigger] s[b]) }
pub open spec fn lists(s: Seq<(int, int)>, p: (int, int)) -> bool { exists|a: int| 0 <= a < s.len() && #[trigger] s[a] == p }
pub proof fn lists_more(p: (int, int), s: Seq<(int, int)>)
    ensures forall|q: (int, int)| #[trigger] lists(seq![p] + s, q) <==> q == p || lists(s, q),
        ascending(s) && (forall|q: (int, int)| #[trigger] lists(s, q) ==> before(p, q)) ==> ascending(seq![p] + s)
{
    let t = seq![p] + s;
    assert(t[0] == p);
    assert forall|q: (int, int)| #[trigger] lists(t, q) <==> q == p || lists(s, q) by {
        if lists(t, q) { let a = choose|a: int| 0 <= a < t.len() && #[trigger] t[a] == q; if a > 0 { assert(s[a - 1] == q); } }
        if lists(s, q) { let a = choose|a: int| 0 <= a < s.len() && #[trigger] s[a] == q; assert(t[a + 1] == q); }
    }
    if ascending(s) && (forall|q: (int, int)| #[trigger] lists(s, q) ==> before(p, q)) {
        assert forall|a: int, b: int| 0 <= a < b < t.len() implies before(#[trigger] t[a], #[trigger] t[b]) by { assert(t[b] == s[b - 1]); assert(lists(s, s[b - 1])); if a > 0 { assert(t[a] == s[a - 1]); } }
    }
}
/// exactly the linked pairs, each once, in order
pub proof fn from_pairs_are(g: &TimeGraph, i: int, j: int)
    requires 0 <= i, 0 <= j
    ensures forall|p: (int, int)| #[trigger] lists(from_pairs(g, i, j), p) <==> p.0 == i && i < g.n() && j <= p.1 < g.n() && p.1 != i && g.link(i, p.1), ascending(from_pairs(g, i, j)),
        j <= g.n() ==> from_pairs(g, i, j).len() <= g.n() - j
    decreases g.n() - j
{
    if !(i >= g.n() || j >= g.n()) {
        from_pairs_are(g, i, j + 1);
        if i != j && g.link(i, j) { lists_more((i, j), from_pairs(g, i, j + 1)); }
    }
}
pub proof fn all_pairs_are(g: &TimeGraph, i: int, j: int)
    requires 0 <= i <= j, i < g.n() ==> j < g.n()
    ensures forall|p: (int, int)| #[trigger] lists(all_pairs(g, i, j), p) <==> before((i, j), p) && p.0 < p.1 < g.n() && g.link(p.0, p.1), ascending(all_pairs(g, i, j)),
        i < g.n() ==> 2 * all_pairs(g, i, j).len() <= 2 * (g.n() - 1 - j) + (g.n() - 1 - i) * (g.n() - 2 - i)
    decreases g.n() - i, g.n() - j
{
    let n = g.n();
    if i < n {
        if j + 1 >= n {
            all_pairs_are(g, i + 1, i + 1);
            assert((n - 1 - i) * (n - 2 - i) == (n - 2 - i) * (n - 3 - i) + 2 * (n - 2 - i)) by (nonlinear_arith);
            if i + 1 == n { assert((n - 1 - i) * (n - 2 - i) == 0) by (nonlinear_arith) requires i + 1 == n; }
        } else { all_pairs_are(g, i, j + 1); if g.link(i, j + 1) { lists_more((i, j + 1), all_pairs(g, i, j + 1)); } }
    }
}
#[derive(Clone)]
pub struct TimeConstraintFromIter<'a> { pub graph: &'a TimeGraph, pub i: Instant, pub j: Instant }
impl<'a> TimeConstraintFromIter<'a> {
    pub open spec fn inv(&self) -> bool { self.graph.minimal() && (self.i < self.graph.n() ==> self.j <= self.graph.n()) }
    pub open spec fn pairs(&self) -> Seq<(int, int)> { from_pairs(self.graph, self.i as int, self.j as int) }
//@fn Iterator for TimeConstraintFromIter<'a> :: next
    pub fn next(&mut self) -> (r: Option<TimeGraphConstraint<'a>>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).graph == old(self).graph, old(self).pairs().len() == 0 ==> r is None && final(self).pairs().len() == 0,
            old(self).pairs().len() > 0 ==> r is Some && r.unwrap().is(old(self).graph, old(self).pairs()[0].0, old(self).pairs()[0].1) && r.unwrap().ok() && final(self).pairs() =~= old(self).pairs().skip(1)
//@inv
        invariant self.inv(), self.graph == old(self).graph, self.i < self.graph.n(), self.j <= self.graph.n(), self.pairs() == old(self).pairs()
        decreases self.graph.n() - self.j
//@end
//@fn Iterator for TimeConstraintFromIter<'a> :: size_hint
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 <= self.pairs().len(), r.1 is Some ==> self.pairs().len() <= r.1.unwrap()
//@start
        proof { from_pairs_are(self.graph, self.i as int, self.j as int); }
//@end
}
#[derive(Clone)]
pub struct TimeConstraintIter<'a> { pub graph: &'a TimeGraph, pub i: Instant, pub j: Instant }
impl<'a> TimeConstraintIter<'a> {
    pub open spec fn inv(&self) -> bool { self.graph.minimal() && self.i <= self.graph.n() && (self.i < self.graph.n() ==> self.i <= self.j < self.graph.n()) }
    pub open spec fn pairs(&self) -> Seq<(int, int)> { all_pairs(self.graph, self.i as int, self.j as int) }
//@fn Iterator for TimeConstraintIter<'a> :: next
    pub fn next(&mut self) -> (r: Option<TimeGraphConstraint<'a>>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).graph == old(self).graph, old(self).pairs().len() == 0 ==> r is None && final(self).pairs().len() == 0,
            old(self).pairs().len() > 0 ==> r is Some && r.unwrap().is(old(self).graph, old(self).pairs()[0].0, old(self).pairs()[0].1) && r.unwrap().ok() && final(self).pairs() =~= old(self).pairs().skip(1)
//@inv
        invariant self.inv(), self.graph == old(self).graph, self.i < self.graph.n(), self.pairs() == old(self).pairs()
        decreases self.graph.n() - self.i, self.graph.n() - self.j
//@end
//@fn Iterator for TimeConstraintIter<'a> :: size_hint
    pub fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 <= self.pairs().len(), r.1 is Some ==> self.pairs().len() <= r.1.unwrap()
//@start
        proof {
            let (n, i, j) = (self.graph.n(), self.i as int, self.j as int);
            ix_max(n, 0); ix_max(i, 0);
            if i < n {
                all_pairs_are(self.graph, i, j);
                assert((n - 1 - i) * (n - 2 - i) >= 0) by (nonlinear_arith) requires i < n;
                assert(n * n - n >= i * i - i) by (nonlinear_arith) requires 0 <= i < n;
                assert(n * n >= n) by (nonlinear_arith) requires n >= 1;
                assert(i * i >= i) by (nonlinear_arith) requires i >= 0;
                assert((n * n - n) % 2 == 0) by (nonlinear_arith);
                assert((i * i - i) % 2 == 0) by (nonlinear_arith);
                assert((n * n - n) - (i * i - i) + 2 - 2 * j >= 2 * (n - 1 - j) + (n - 1 - i) * (n - 2 - i)) by (nonlinear_arith) requires 0 <= i < n;
            }
        }
//@end
}
/// an iterator of constraints followed by `map` with a function which swaps the ends
pub struct Swapped<'a> { pub iter: TimeConstraintFromIter<'a> }
pub fn swapped<'a, F: Fn(TimeGraphConstraint<'a>) -> TimeGraphConstraint<'a>>(iter: TimeConstraintFromIter<'a>, f: F) -> (r: Swapped<'a>)
    requires forall|k: TimeGraphConstraint<'a>| #[trigger] call_requires(f, (k,)), forall|k: TimeGraphConstraint<'a>, r: TimeGraphConstraint<'a>| #[trigger] call_ensures(f, (k,), r) ==> r.is(k.graph, k.to as int, k.from as int)
    ensures r.iter == iter
{ Swapped { iter } }
impl TimeGraph {
//@fn TimeGraph :: constraints_from
    pub fn constraints_from(&self, from: Instant) -> (r: TimeConstraintFromIter<'_>)
        requires self.minimal()
        ensures r.inv(), r.graph == self, forall|p: (int, int)| #[trigger] lists(r.pairs(), p) <==> p.0 == from && p.1 != from && 0 <= p.1 && self.inside(p.0, p.1) && self.link(p.0, p.1), ascending(r.pairs())
//@start
        proof { from_pairs_are(self, from as int, 0); }
//@end
//@fn TimeGraph :: constraints_to
    pub fn constraints_to(&self, to: Instant) -> (r: Swapped<'_>)
        requires self.minimal()
        ensures r.iter.inv(), r.iter.graph == self, forall|p: (int, int)| #[trigger] lists(r.iter.pairs(), p) <==> p.0 == to && p.1 != to && 0 <= p.1 && self.inside(p.1, p.0) && self.link(p.1, p.0), ascending(r.iter.pairs())
//@rule $*a . map ( | mut k | { $*_b } ) ==> swapped($*a, |k_: TimeGraphConstraint| -> (r: TimeGraphConstraint) ensures r.is(k_.graph, k_.to as int, k_.from as int) { let mut k = k_; $*_b })
//@end
//@fn TimeGraph :: iter
    pub fn iter(&self) -> (r: TimeConstraintIter<'_>)
        requires self.minimal()
        ensures r.inv(), r.graph == self, forall|p: (int, int)| #[trigger] lists(r.pairs(), p) <==> 0 <= p.0 < p.1 < self.n() && self.link(p.0, p.1), ascending(r.pairs())
//@start
        proof { all_pairs_are(self, 0, 0); }
//@end

// ---- shrinking (C18) ----------------------------------------------------------------------------------------------------------
//@fn TimeGraph :: shrink_to
    pub fn shrink_to(&mut self, n: Instant)
        ensures final(self).size == old(self).size, final(self).data@ == old(self).data@
//@rule self . data . shrink_to ( $*a ) ==> vshrink_to(&mut self.data, $*a)
//@start
        proof { ix_max(n as int, 0); }
//@end
//@fn TimeGraph :: shrink_to_fit
    pub fn shrink_to_fit(&mut self)
        requires old(self).minimal()
        ensures final(self).minimal(), final(self).size <= old(self).size,
            forall|i: int, j: int| 0 <= i < final(self).n() && 0 <= j < final(self).n() ==> #[trigger] at(final(self).data@, i, j) == old(self).c(i, j),
            forall|i: int, j: int| final(self).n() <= i < old(self).n() && 0 <= j < i ==> !#[trigger] old(self).link(i, j),
            final(self).n() > 0 ==> exists|i: int, j: int| i == final(self).n() - 1 && 0 <= j < i && #[trigger] old(self).link(i, j),
            forall|s: Dates| #[trigger] final(self).fits(s) <==> old(self).fits(s)
//@rule ( 0 .. self . size ) . rev ( ) . find ( | & i | $*c ) . map ( | $k | $*d ) . unwrap_or ( $*e ) ==> (match { let mut r_: Option<u32> = None; let mut i_: u32 = self.size; while i_ > 0 && r_.is_none() { i_ = i_ - 1; let i = i_; if $*c { r_ = Some(i_); } } r_ } { Some($k) => $*d, None => $*e })
//@rule ( 0 .. i ) . any ( | j | { $*_c } ) ==> { let mut any_ = false; let mut j_: u32 = 0; while j_ < i && !any_ { let j = j_; proof { assert(NEG() <= at(self.data@, i as int, j as int) && NEG() <= at(self.data@, j as int, i as int)); } if { $*_c } { any_ = true; assert(self.link(i as int, j as int)); } j_ = j_ + 1; } any_ }
//@rule self . data . shrink_to_fit ( ) ==> vshrink(&mut self.data)
//@start
        proof { ix_max(self.size as int, 0); }
//@inv
        invariant i_ <= self.size, *self == *old(self), self.minimal(), forall|a: int, b: int| i_ <= a < self.n() && 0 <= b < a && !(r_ is Some && a == i_) ==> !#[trigger] self.link(a, b),
            r_ is Some ==> r_.unwrap() == i_ && i_ < self.size && exists|b: int| 0 <= b < i_ && #[trigger] self.link(i_ as int, b)
        decreases i_, (if r_ is Some { 0int } else { 1 })
//@inv
        invariant j_ <= i, i < self.size, self.minimal(), *self == *old(self), !any_ ==> forall|b: int| 0 <= b < j_ ==> !#[trigger] self.link(i as int, b), any_ ==> exists|b: int| 0 <= b < i && #[trigger] self.link(i as int, b)
        decreases i - j_
//@before self . data . truncate
        proof { ix_max(self.size as int, 0); let (a, b) = (self.n(), old(self).n()); assert(sq(a) <= sq(b)) by (nonlinear_arith) requires 0 <= a <= b; }
//@post
        proof {
            shrunk(*old(self), *self);
        }
//@end
}
pub proof fn shrunk(g: TimeGraph, h: TimeGraph)
    requires g.minimal(), h.size <= g.size, h.data@ == g.data@.take(sq(h.n())), forall|i: int, j: int| h.n() <= i < g.n() && 0 <= j < i ==> !#[trigger] g.link(i, j)
    ensures h.minimal(), forall|i: int, j: int| 0 <= i < h.n() && 0 <= j < h.n() ==> #[trigger] at(h.data@, i, j) == g.c(i, j), forall|s: Dates| #[trigger] h.fits(s) <==> g.fits(s)
{
    let n = h.n();
    assert(sq(n) <= sq(g.n())) by (nonlinear_arith) requires 0 <= n <= g.n();
    assert(sq(n) >= 0) by (nonlinear_arith);
    is_sized(h.data@, n);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] at(h.data@, i, j) == g.c(i, j) by { ix_range(i, j, n); }
    let c = g.mat();
    let d = h.mat();
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] d(i, j) == c(i, j) by { assert(at(h.data@, i, j) == g.c(i, j)); }
    assert(h.wf()) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies NEG() <= #[trigger] at(h.data@, i, j) < M() by { assert(NEG() <= at(g.data@, i, j) < M()); } }
    agree(c, d, n, |i: int| 0);
    assert forall|s: Dates| #[trigger] h.fits(s) <==> g.fits(s) by {
        if h.fits(s) { assert forall|i: int, j: int| 0 <= i < g.n() && 0 <= j < g.n() && #[trigger] c(i, j) > NEG() implies s(j) - s(i) >= c(i, j) by {
            if i < n && j < n { assert(d(i, j) > NEG()); } else if i == j { assert(c(i, i) == 0); } else if i > j { assert(!g.link(i, j)); } else { assert(!g.link(j, i)); } } }
        if g.fits(s) { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] d(i, j) > NEG() implies s(j) - s(i) >= d(i, j) by { assert(c(i, j) > NEG()); } }
    }
}
