//@include intervals
pub mod net { use super::*;
//@include queries
}
use net::{TimeConstraint, TimeGraph, TimeGraphConstraint, TimeConstraintFromIter, Instant, Dates, lists, ascending, lists_more};
//@include moves
// ---- schedulers (C19) --------------------------------------------------------------------------------------------------------
impl Listed for IntoConvexIter {
    open spec fn seq(&self) -> Seq<TimeInterval> { self.0.seq() }
    fn next(&mut self) -> (r: Option<TimeInterval>) { self.next_() }
}
/// what a restriction keeps: any window, with the operators required by `retain`
pub trait Keep: Window {
    proof fn canonical(&self) requires self.okw() ensures canon(self.parts());
    fn contains(&self, rhs: &TimeSet) -> (r: bool) requires self.okw(), rhs.ok() ensures r == (forall|x: int| #[trigger] seq_has(rhs.0@, x) ==> seq_has(self.parts(), x));
    fn overlaps(&self, rhs: &TimeSet) -> (r: bool) requires self.okw(), rhs.ok() ensures r == (exists|x: int| #[trigger] seq_has(rhs.0@, x) && seq_has(self.parts(), x));
    fn and_into(self, s: &mut TimeSet) requires self.okw(), old(s).ok() ensures result(final(s).0@, |x: int| old(s).has(x) && seq_has(self.parts(), x));
}
impl Keep for TimeSet {
    proof fn canonical(&self) {}
    fn contains(&self, rhs: &TimeSet) -> (r: bool) { TimeSet::contains(self, rhs) }
    fn overlaps(&self, rhs: &TimeSet) -> (r: bool) { TimeSet::overlaps(self, rhs) }
    fn and_into(self, s: &mut TimeSet) { s.bitand_assign_set(self) }
}
//@for W in TimeInterval TimeValue Range RangeFrom RangeInclusive RangeTo RangeToInclusive
impl Keep for %W% {
    proof fn canonical(&self) { canon_one(self.iv()); }
    fn contains(&self, rhs: &TimeSet) -> (r: bool) { proof { one_iv(self.iv()); } contains_in_convex(self, rhs) }
    fn overlaps(&self, rhs: &TimeSet) -> (r: bool) { proof { one_iv(self.iv()); if set_meets(rhs.0@, self.iv()) { } } convex_overlaps_set(self, rhs) }
    fn and_into(self, s: &mut TimeSet) { proof { one_iv(self.iv()); } s.bitand_assign_tw(self) }
}
//@endfor
pub proof fn one_iv(t: TimeInterval)
    ensures em(t) ==> forall|x: int| !#[trigger] seq_has(Seq::<TimeInterval>::empty(), x) && !t.has(x), ne(t) ==> forall|x: int| #[trigger] seq_has(one(t), x) <==> t.has(x)
{ one_has(t); }
pub fn repeated(x: TimeSet, n: usize) -> (r: Vec<TimeSet>)
    ensures r.len() == n, forall|k: int| 0 <= k < n ==> (#[trigger] r@[k]).0@ == x.0@
{
    let mut r: Vec<TimeSet> = Vec::new(); let mut k: usize = 0;
    while k < n
        invariant k <= n, r.len() == k, forall|j: int| 0 <= j < k ==> (#[trigger] r@[j]).0@ == x.0@
        decreases n - k
    { r.push(x.clone()); k = k + 1; }
    r
}
pub fn copied(v: &Vec<TimeSet>) -> (r: Vec<TimeSet>)
    ensures same_slots(r@, v@)
{
    let mut r: Vec<TimeSet> = Vec::new(); let mut k: usize = 0;
    while k < v.len()
        invariant k <= v.len(), r.len() == k, forall|j: int| 0 <= j < k ==> (#[trigger] r@[j]).0@ == v@[j].0@
        decreases v.len() - k
    { r.push(v[k].clone()); k = k + 1; }
    r
}
pub type Slots = Seq<TimeSet>;
pub open spec fn same_slots(a: Slots, b: Slots) -> bool { a.len() == b.len() && forall|k: int| 0 <= k < b.len() ==> (#[trigger] a[k]).0@ == b[k].0@ }
/// what the graph holds between two instants
pub open spec fn span(g: &TimeGraph, i: int, j: int) -> TimeInterval { block(g.c(i, j), -g.c(j, i)) }
/// a complete choice of dates
pub open spec fn choice(g: &TimeGraph, d: Slots, s: Dates) -> bool { g.fits(s) && forall|j: int| 0 <= j < d.len() ==> set_holds((#[trigger] d[j]).0@, s(j)) }
/// the dates of j which some date of i allows
pub open spec fn reached(g: &TimeGraph, i: int, j: int, a: Seq<TimeInterval>, z: int) -> bool { exists|x: int| #[trigger] set_holds(a, x) && holds(span(g, i, j), z - x) }
pub open spec fn oks(d: Slots) -> bool { forall|j: int| 0 <= j < d.len() ==> canon((#[trigger] d[j]).0@) }
pub open spec fn some(d: Slots) -> bool { forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j]).0@.len() > 0 }
/// no sum of this bound and of a bound of the constraints from i leaves the finite range
pub open spec fn room(g: &TimeGraph, i: int, x: int) -> bool { forall|j: int| 0 <= j < g.n() && j != i ==> infits(x, #[trigger] g.c(i, j)) && infits(x, -g.c(j, i)) }
pub open spec fn roomy(g: &TimeGraph, i: int, s: Seq<TimeInterval>) -> bool { forall|k: int| 0 <= k < s.len() ==> room(g, i, (#[trigger] s[k]).lower.0 as int) && room(g, i, s[k].upper.0 as int) }

/// the ends of the parts are those of the points
pub proof fn ends(r: Seq<TimeInterval>, k: int)
    requires canon(r), 0 <= k < r.len()
    ensures seq_has(r, r[k].lower.0 as int), seq_has(r, r[k].upper.0 as int), !seq_has(r, r[k].lower.0 - 1), !seq_has(r, r[k].upper.0 + 1)
{
    assert(ne(r[k])); assert(r[k].has(r[k].lower.0 as int) && r[k].has(r[k].upper.0 as int));
    assert forall|m: int| 0 <= m < r.len() implies !(#[trigger] r[m]).has(r[k].lower.0 - 1) && !r[m].has(r[k].upper.0 + 1) by {
        assert(ne(r[m]));
        if m < k { assert(r[m].upper.0 + 1 < r[k].lower.0); } if k < m { assert(r[k].upper.0 + 1 < r[m].lower.0); }
    }
}
pub proof fn low_end(s: Seq<TimeInterval>, l: int) -> (m: int)
    requires seq_has(s, l), !seq_has(s, l - 1)
    ensures 0 <= m < s.len(), s[m].lower.0 == l
{ let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).has(l); if s[m].lower.0 < l { assert(s[m].has(l - 1)); } m }
pub proof fn high_end(s: Seq<TimeInterval>, u: int) -> (m: int)
    requires seq_has(s, u), !seq_has(s, u + 1)
    ensures 0 <= m < s.len(), s[m].upper.0 == u
{ let m = choose|m: int| 0 <= m < s.len() && (#[trigger] s[m]).has(u); if s[m].upper.0 > u { assert(s[m].has(u + 1)); } m }
pub open spec fn both(r: Seq<TimeInterval>, s: Seq<TimeInterval>, w: Seq<TimeInterval>) -> bool { forall|x: int| -M() <= x <= M() ==> (#[trigger] seq_has(r, x) <==> seq_has(s, x) && seq_has(w, x)) }
pub proof fn both_ends(r: Seq<TimeInterval>, s: Seq<TimeInterval>, w: Seq<TimeInterval>, k: int)
    requires canon(r), canon(s), canon(w), both(r, s, w), 0 <= k < r.len()
    ensures isinf(r[k].lower.0 as int) || (exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).lower == r[k].lower) || (exists|m: int| 0 <= m < w.len() && (#[trigger] w[m]).lower == r[k].lower),
        isinf(r[k].upper.0 as int) || (exists|m: int| 0 <= m < s.len() && (#[trigger] s[m]).upper == r[k].upper) || (exists|m: int| 0 <= m < w.len() && (#[trigger] w[m]).upper == r[k].upper)
{
    ends(r, k); let (l, u) = (r[k].lower.0 as int, r[k].upper.0 as int); assert(ne(r[k]));
    if !isinf(l) { if !seq_has(s, l - 1) { let m = low_end(s, l); assert(s[m].lower == r[k].lower); } else { let m = low_end(w, l); assert(w[m].lower == r[k].lower); } }
    if !isinf(u) { if !seq_has(s, u + 1) { let m = high_end(s, u); assert(s[m].upper == r[k].upper); } else { let m = high_end(w, u); assert(w[m].upper == r[k].upper); } }
}
pub proof fn both_room(g: &TimeGraph, i: int, r: Seq<TimeInterval>, s: Seq<TimeInterval>, w: Seq<TimeInterval>)
    requires canon(r), canon(s), canon(w), both(r, s, w), roomy(g, i, s), roomy(g, i, w)
    ensures roomy(g, i, r)
{ assert forall|k: int| 0 <= k < r.len() implies room(g, i, (#[trigger] r[k]).lower.0 as int) && room(g, i, r[k].upper.0 as int) by { both_ends(r, s, w, k); } }
pub proof fn both_line(r: Seq<TimeInterval>, s: Seq<TimeInterval>, w: Seq<TimeInterval>)
    requires canon(r), canon(s), canon(w), both(r, s, w)
    ensures forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && set_holds(w, z)
{
    okts(r); okts(s); okts(w);
    line_points(r); line_points(s); line_points(w);
    assert forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && set_holds(w, z) by { let x = on_line(z); assert(-M() <= x <= M()); }
}
pub proof fn okts(r: Seq<TimeInterval>) requires canon(r) ensures forall|k: int| 0 <= k < r.len() ==> okt(#[trigger] r[k])
{ assert forall|k: int| 0 <= k < r.len() implies okt(#[trigger] r[k]) by { assert(ne(r[k])); } }
/// a set without part is a set without point of the line
pub proof fn void_line(r: Seq<TimeInterval>)
    requires canon(r)
    ensures r.len() == 0 <==> (forall|z: int| !#[trigger] set_holds(r, z))
{ if r.len() > 0 { assert(ne(r[0])); let z = if r[0].lower.0 == -M() { r[0].upper.0 as int } else { r[0].lower.0 as int }; assert(holds(r[0], z)); assert(set_holds(r, z)); } }
pub proof fn span_fits(g: &TimeGraph, s: Dates, i: int, j: int)
    requires g.minimal(), g.fits(s), 0 <= i < g.n(), 0 <= j < g.n()
    ensures holds(span(g, i, j), s(j) - s(i))
{
    span_ok(g, i, j); let c = g.mat(); assert(c(i, j) == g.c(i, j) && c(j, i) == g.c(j, i)); assert(net::fits(c, g.n(), s));
}
pub proof fn span_ok(g: &TimeGraph, i: int, j: int)
    requires g.minimal(), 0 <= i < g.n(), 0 <= j < g.n()
    ensures ne(span(g, i, j)), span(g, i, j).lower.0 == g.c(i, j), span(g, i, j).upper.0 == -g.c(j, i), !g.link(i, j) ==> forall|z: int| #[trigger] holds(span(g, i, j), z)
{
    let k = TimeGraphConstraint { from: i as u32, to: j as u32, graph: g }; k.held();
    assert(net::NEG() <= net::at(g.data@, i, j) < M() && net::NEG() <= net::at(g.data@, j, i) < M());
}
pub proof fn lists_less(s: Seq<(int, int)>)
    requires ascending(s), s.len() > 0
    ensures ascending(s.skip(1)), forall|q: (int, int)| #[trigger] lists(s.skip(1), q) <==> lists(s, q) && q != s[0], lists(s, s[0])
{
    let t = s.skip(1);
    assert forall|a: int, b: int| 0 <= a < b < t.len() implies net::before(#[trigger] t[a], #[trigger] t[b]) by { assert(net::before(s[a + 1], s[b + 1])); }
    assert(s[0] == s[0]);
    assert forall|q: (int, int)| #[trigger] lists(t, q) <==> lists(s, q) && q != s[0] by {
        if lists(t, q) { let a = choose|a: int| 0 <= a < t.len() && #[trigger] t[a] == q; assert(s[a + 1] == q); assert(net::before(s[0], s[a + 1])); }
        if lists(s, q) && q != s[0] { let a = choose|a: int| 0 <= a < s.len() && #[trigger] s[a] == q; assert(t[a - 1] == q); }
    }
}
/// the set j after the instant i was restricted to the dates a
pub open spec fn follows(g: &TimeGraph, i: int, j: int, a: Seq<TimeInterval>, r: Seq<TimeInterval>, s: Seq<TimeInterval>) -> bool {
    canon(r) && forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && reached(g, i, j, a, z)
}
pub struct TimeScheduler<'a> { pub constraints: &'a TimeGraph, pub schedule: Vec<TimeSet> }
impl<'a> TimeScheduler<'a> {
    pub open spec fn fit(&self) -> bool { self.constraints.minimal() && self.schedule@.len() == self.constraints.n() && oks(self.schedule@) }
    pub open spec fn inv(&self) -> bool { self.fit() && some(self.schedule@) }
//@fn TimeScheduler<'_> :: new
    pub fn new(graph: &'a TimeGraph) -> (r: TimeScheduler<'a>)
        requires graph.minimal()
        ensures r.inv(), r.constraints == graph, forall|j: int, z: int| 0 <= j < r.schedule@.len() ==> #[trigger] set_holds(r.schedule@[j].0@, z)
//@rule iter :: repeat ( $*a ) . take ( $*n ) . collect ( ) ==> { let x = $*a; let r = repeated(x, $*n); proof { okts(x.0@); line_points(x.0@); assert forall|j: int, z: int| 0 <= j < r@.len() implies #[trigger] set_holds(r@[j].0@, z) by { assert(r@[j].0@ == x.0@); assert(seq_has(x.0@, on_line(z))); } assert forall|j: int| 0 <= j < r@.len() implies canon((#[trigger] r@[j]).0@) && r@[j].0@.len() > 0 by { assert(seq_has(x.0@, 0)); } } r }
//@rule TimeSlots :: all ( ) ==> TimeSet::all()
//@end
//@fn TimeScheduler<'_> :: constraints
    pub fn constraints(&self) -> (r: &TimeGraph) ensures r == self.constraints
//@end
//@fn TimeScheduler<'_> :: scheduling
    pub fn scheduling(&self, i: Instant) -> (r: Option<&TimeSet>) ensures r is Some <==> i < self.schedule.len(), r is Some ==> *r.unwrap() == self.schedule@[i as int]
//@end
//@fn TimeScheduler<'_> :: schedule
    pub fn schedule(&self) -> (r: &[TimeSet]) ensures r@ == self.schedule@
//@rule & self . schedule ==> self.schedule.as_slice()
//@end
//@fn TimeScheduler<'_> :: latest_beginning
    pub fn latest_beginning(&self) -> (r: TimeValue)
        requires self.inv(), self.schedule.len() > 0
        ensures exists|j: int| 0 <= j < self.schedule.len() && r == (#[trigger] self.schedule@[j]).0@.last().upper, forall|j: int| 0 <= j < self.schedule.len() ==> r.0 <= (#[trigger] self.schedule@[j]).0@.last().upper.0
//@rule self . schedule . iter ( ) . map ( | i | $*e ) . min ( ) . unwrap ( ) ==> { let mut m = { let i = &self.schedule[0]; $*e }; let mut k: usize = 1; while k < self.schedule.len() { let v_ = { let i = &self.schedule[k]; $*e }; m = m.min(v_); k = k + 1; } m }
//@inv
        invariant 1 <= k <= self.schedule.len(), self.inv(), exists|j: int| 0 <= j < k && m == (#[trigger] self.schedule@[j]).0@.last().upper, forall|j: int| 0 <= j < k ==> m.0 <= (#[trigger] self.schedule@[j]).0@.last().upper.0
        decreases self.schedule.len() - k
//@end
//@fn TimeScheduler<'_> :: earliest_ending
    pub fn earliest_ending(&self) -> (r: TimeValue)
        requires self.inv(), self.schedule.len() > 0
        ensures exists|j: int| 0 <= j < self.schedule.len() && r == (#[trigger] self.schedule@[j]).0@[0].lower, forall|j: int| 0 <= j < self.schedule.len() ==> r.0 >= (#[trigger] self.schedule@[j]).0@[0].lower.0
//@rule self . schedule . iter ( ) . map ( | i | $*e ) . max ( ) . unwrap ( ) ==> { let mut m = { let i = &self.schedule[0]; $*e }; let mut k: usize = 1; while k < self.schedule.len() { let v_ = { let i = &self.schedule[k]; $*e }; m = m.max(v_); k = k + 1; } m }
//@inv
        invariant 1 <= k <= self.schedule.len(), self.inv(), exists|j: int| 0 <= j < k && m == (#[trigger] self.schedule@[j]).0@[0].lower, forall|j: int| 0 <= j < k ==> m.0 >= (#[trigger] self.schedule@[j]).0@[0].lower.0
        decreases self.schedule.len() - k
//@end
//@fn TimeScheduler<'_> :: propagate_scheduling
    pub fn propagate_scheduling(&mut self, i: Instant)
        requires old(self).fit(), i < old(self).schedule.len(), roomy(old(self).constraints, i as int, old(self).schedule@[i as int].0@), old(self).schedule@[i as int].0@.len() > 0
        ensures final(self).fit(), final(self).constraints == old(self).constraints, final(self).schedule@[i as int].0@ == old(self).schedule@[i as int].0@,
            forall|j: int| 0 <= j < final(self).schedule.len() && j != i ==> follows(old(self).constraints, i as int, j, old(self).schedule@[i as int].0@, (#[trigger] final(self).schedule@[j]).0@, old(self).schedule@[j].0@)
//@rule = $*a . iter ( ) . intersection ( $*b . translation ( & TimeInterval :: from ( k ) ) ) . collect ( ) ==> = { let a_ = $*a.iter(); proof { room_moves(self.constraints, i as int, k.to as int, self.schedule@[i as int].0@); } let k_ = TimeConvex::into(k); let b_ = translation_span($*b, &k_); let ghost bs = b_.0.seq(); let r_ = TimeSet::from_iter_sorted(intersection_iter(a_, b_)); proof { assert(both(r_.0@, a_.0.seq(), bs)); both_line(r_.0@, a_.0.seq(), bs); } r_ }
//@rule * self . schedule . get_unchecked_mut ( $*j ) = $*e ; ==> { let v_ = $*e; proof { after_one(self.constraints, i as int, k.to as int, self.schedule@[i as int].0@, v_.0@, self.schedule@[k.to as int].0@); } self.schedule.set($*j, v_); }
//@rule self . schedule . get_unchecked ( $*j ) ==> (&self.schedule[$*j])
//@rule self . constraints . constraints_from ( i ) . for_each ( | k | { $*_b } ) ==> { let mut it = self.constraints.constraints_from(i); loop { let ghost ps = it.pairs(); let ghost d1 = self.schedule@; match it.next() { None => { break; } Some(k) => { proof { k.held(); lists_less(ps); } { $*_b } proof { assert(self.schedule@ =~= d1.update(k.to as int, self.schedule@[k.to as int])); } } } } }
//@inv
        invariant self.fit(), self.constraints == old(self).constraints, i < self.schedule.len(), roomy(self.constraints, i as int, self.schedule@[i as int].0@),
            self.schedule@[i as int].0@ == old(self).schedule@[i as int].0@, self.schedule@.len() == old(self).schedule@.len(),
            it.inv(), it.graph == self.constraints, ascending(it.pairs()), forall|p: (int, int)| #[trigger] lists(it.pairs(), p) ==> p.0 == i && p.1 != i && 0 <= p.1 < self.constraints.n(),
            forall|j: int| 0 <= j < self.schedule@.len() && lists(it.pairs(), (i as int, j)) ==> (#[trigger] self.schedule@[j]).0@ == old(self).schedule@[j].0@,
            forall|j: int| 0 <= j < self.schedule@.len() && j != i && !lists(it.pairs(), (i as int, j)) ==> follows(self.constraints, i as int, j, old(self).schedule@[i as int].0@, (#[trigger] self.schedule@[j]).0@, old(self).schedule@[j].0@),
        ensures it.pairs().len() == 0
        decreases it.pairs().len()
//@start
        proof {
            let a = self.schedule@[i as int].0@;
            void_line(a);
            assert forall|j: int| 0 <= j < self.schedule@.len() && j != i && !self.constraints.link(i as int, j) implies follows(self.constraints, i as int, j, a, (#[trigger] self.schedule@[j]).0@, self.schedule@[j].0@) by { span_ok(self.constraints, i as int, j); let x = choose|x: int| set_holds(a, x); assert forall|z: int| reached(self.constraints, i as int, j, a, z) by { assert(set_holds(a, x)); } }
        }
//@end
}
pub proof fn room_moves(g: &TimeGraph, i: int, j: int, a: Seq<TimeInterval>)
    requires g.minimal(), 0 <= i < g.n(), 0 <= j < g.n(), i != j, canon(a), roomy(g, i, a)
    ensures movables(a, span(g, i, j)), okt(span(g, i, j))
{
    span_ok(g, i, j);
    assert forall|k: int| 0 <= k < a.len() implies movable(#[trigger] a[k], span(g, i, j)) by { assert(ne(a[k])); assert(room(g, i, a[k].lower.0 as int) && room(g, i, a[k].upper.0 as int)); assert(g.c(i, j) == g.c(i, j)); }
}
/// one slot intersected with the moved dates
pub proof fn after_one(g: &TimeGraph, i: int, j: int, a: Seq<TimeInterval>, r: Seq<TimeInterval>, s: Seq<TimeInterval>)
    requires canon(r), exists|b: Seq<TimeInterval>| #[trigger] sums(b, a, one(span(g, i, j))) && forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && set_holds(b, z)
    ensures follows(g, i, j, a, r, s)
{
    let b = choose|b: Seq<TimeInterval>| #[trigger] sums(b, a, one(span(g, i, j))) && forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && set_holds(b, z);
    let t = one(span(g, i, j));
    assert forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && reached(g, i, j, a, z) by {
        if set_holds(b, z) { let (x, y) = choose|x: int, y: int| #[trigger] set_holds(a, x) && #[trigger] set_holds(t, y) && x + y == z; let m = choose|m: int| 0 <= m < t.len() && holds(#[trigger] t[m], y); assert(y == z - x); }
        if reached(g, i, j, a, z) { let x = choose|x: int| #[trigger] set_holds(a, x) && holds(span(g, i, j), z - x); assert(holds(t[0], z - x)); assert(set_holds(t, z - x)); assert(set_holds(b, z)); }
    }
}
// ---- restrictions
/// the dates kept at the instant i
pub open spec fn kept(r: Seq<TimeInterval>, s: Seq<TimeInterval>, w: Seq<TimeInterval>) -> bool { canon(r) && forall|z: int| #[trigger] set_holds(r, z) <==> set_holds(s, z) && set_holds(w, z) }
/// nothing is added
pub open spec fn less(d: Slots, e: Slots) -> bool { d.len() == e.len() && forall|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(e[j].0@, z) ==> set_holds(d[j].0@, z) }
/// something is removed
pub open spec fn gone(d: Slots, e: Slots) -> bool { exists|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(d[j].0@, z) && !set_holds(e[j].0@, z) }
/// every date of s is in w
pub open spec fn inside(s: Seq<TimeInterval>, w: Seq<TimeInterval>) -> bool { forall|z: int| #[trigger] set_holds(s, z) ==> set_holds(w, z) }
/// the slots e are the slots d once the instant i is restricted to w
pub open spec fn restricted(g: &TimeGraph, i: int, w: Seq<TimeInterval>, d: Slots, e: Slots) -> bool {
    d.len() == e.len() && kept(e[i].0@, d[i].0@, w) && forall|j: int| 0 <= j < d.len() && j != i ==> follows(g, i, j, e[i].0@, (#[trigger] e[j]).0@, d[j].0@)
}
/// a choice whose date of i is kept is still a choice
pub proof fn still_choice(g: &TimeGraph, i: int, w: Seq<TimeInterval>, d: Slots, e: Slots, s: Dates)
    requires g.minimal(), 0 <= i < d.len() == g.n(), restricted(g, i, w, d, e), choice(g, d, s), set_holds(w, s(i))
    ensures choice(g, e, s)
{
    assert(set_holds(d[i].0@, s(i)));
    assert forall|j: int| 0 <= j < e.len() implies set_holds((#[trigger] e[j]).0@, s(j)) by {
        if j != i { span_fits(g, s, i, j); assert(set_holds(d[j].0@, s(j))); assert(set_holds(e[i].0@, s(i))); assert(reached(g, i, j, e[i].0@, s(j))); }
    }
}
/// inclusion and meeting read on the line
pub proof fn inside_line(s: Seq<TimeInterval>, w: Seq<TimeInterval>)
    requires canon(s), canon(w)
    ensures inside(s, w) <==> (forall|x: int| #[trigger] seq_has(s, x) ==> seq_has(w, x))
{
    okts(s); okts(w); line_points(s); line_points(w);
    if inside(s, w) {
        assert forall|x: int| #[trigger] seq_has(s, x) implies seq_has(w, x) by { on_range(s, x); assert(set_holds(s, x)); assert(set_holds(w, x)); assert(on_line(x) == x); }
    }
    if forall|x: int| #[trigger] seq_has(s, x) ==> seq_has(w, x) { assert forall|z: int| #[trigger] set_holds(s, z) implies set_holds(w, z) by { assert(seq_has(s, on_line(z))); } }
}
pub proof fn on_range(s: Seq<TimeInterval>, x: int)
    requires canon(s), seq_has(s, x)
    ensures -M() <= x <= M()
{ let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).has(x); assert(ne(s[k])); }
pub proof fn meet_line(s: Seq<TimeInterval>, w: Seq<TimeInterval>)
    requires canon(s), canon(w)
    ensures (exists|z: int| #[trigger] set_holds(s, z) && set_holds(w, z)) <==> (exists|x: int| #[trigger] seq_has(s, x) && seq_has(w, x))
{
    okts(s); okts(w); line_points(s); line_points(w);
    if exists|z: int| #[trigger] set_holds(s, z) && set_holds(w, z) { let z = choose|z: int| #[trigger] set_holds(s, z) && set_holds(w, z); assert(seq_has(s, on_line(z)) && seq_has(w, on_line(z))); }
    if exists|x: int| #[trigger] seq_has(s, x) && seq_has(w, x) { let x = choose|x: int| #[trigger] seq_has(s, x) && seq_has(w, x); on_range(s, x); assert(on_line(x) == x); assert(set_holds(s, x) && set_holds(w, x)); }
}
pub proof fn same_is(d: Slots, e: Slots) requires same_slots(e, d) ensures less(d, e), less(e, d)
{ assert forall|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(e[j].0@, z) implies set_holds(d[j].0@, z) by { assert(e[j].0@ == d[j].0@); } assert forall|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(d[j].0@, z) implies set_holds(e[j].0@, z) by { assert(e[j].0@ == d[j].0@); } }
/// "the property of a restriction": what `retain` says of the slots before and after
pub open spec fn restriction(g: &TimeGraph, i: int, w: Seq<TimeInterval>, d: Slots, r: TimePropagationResult, e: Slots) -> bool {
    match r {
        Err(x) => x == TimeInconsistencyError::Recovered && same_slots(e, d) && forall|s: Dates| #[trigger] choice(g, d, s) ==> !set_holds(w, s(i)),
        Ok(TimePropagation::Unchanged) => same_slots(e, d) && inside(d[i].0@, w),
        Ok(TimePropagation::Propagated) => oks(e) && some(e) && restricted(g, i, w, d, e) && gone(d, e),
    }
}
impl<'a> TimeScheduler<'a> {
//@fn TimeScheduler<'_> :: retain
    pub fn retain<TW: Keep>(&mut self, i: u32, tw: TW) -> (r: TimePropagationResult)
        requires old(self).inv(), i < old(self).schedule.len(), tw.okw(), roomy(old(self).constraints, i as int, old(self).schedule@[i as int].0@), roomy(old(self).constraints, i as int, tw.parts())
        ensures final(self).inv(), final(self).constraints == old(self).constraints, restriction(old(self).constraints, i as int, tw.parts(), old(self).schedule@, r, final(self).schedule@),
            forall|s: Dates| #[trigger] choice(old(self).constraints, old(self).schedule@, s) && set_holds(tw.parts(), s(i as int)) ==> r is Ok && choice(old(self).constraints, final(self).schedule@, s)
//@rule assert ! [ $*a , "index out of bounds" ] ==> assert!($*a)
//@rule * self . schedule . get_unchecked_mut ( $*j ) &= tw ; ==> { let ghost d1 = self.schedule@; tw.and_into(&mut self.schedule[$*j]); proof { let r_ = self.schedule@[i as int].0@; assert(both(r_, d1[i as int].0@, w)); both_line(r_, d1[i as int].0@, w); both_room(self.constraints, i as int, r_, d1[i as int].0@, w); void_line(r_); meet_line(d1[i as int].0@, w); let z = choose|z: int| #[trigger] set_holds(d1[i as int].0@, z) && set_holds(w, z); assert(set_holds(r_, z)); assert(self.schedule@ =~= d1.update(i as int, self.schedule@[i as int])); assert(!inside(d[i as int].0@, w)); let y = choose|y: int| #[trigger] set_holds(d[i as int].0@, y) && !set_holds(w, y); assert(!set_holds(r_, y)); } }
//@rule self . schedule . get_unchecked ( $*j ) ==> (&self.schedule[$*j])
//@rule self . schedule . clone ( ) ==> copied(&self.schedule)
//@rule self . schedule . iter ( ) . any ( | slots | $*e ) ==> { let mut b_ = false; let mut k: usize = 0; while k < self.schedule.len() { let slots = &self.schedule[k]; if $*e { b_ = true; break; } k = k + 1; } b_ }
//@inv
                        invariant_except_break !b_
                        invariant k <= self.schedule.len(), self.fit(), forall|j: int| 0 <= j < k ==> (#[trigger] self.schedule@[j]).0@.len() > 0
                        ensures b_ ==> k < self.schedule.len() && self.schedule@[k as int].0@.len() == 0, !b_ ==> k == self.schedule.len(), k <= self.schedule.len(), forall|j: int| 0 <= j < k ==> (#[trigger] self.schedule@[j]).0@.len() > 0
                        decreases self.schedule.len() - k
//@start
        let ghost w = tw.parts(); let ghost g = self.constraints; let ghost d = self.schedule@;
        proof { tw.canonical(); same_is(d, d); inside_line(d[i as int].0@, w); meet_line(d[i as int].0@, w); }
//@after self . propagate_scheduling ( i ) ;
                proof {
                    let e = self.schedule@;
                    assert(restricted(g, i as int, w, d, e));
                    assert forall|s: Dates| #[trigger] choice(g, d, s) && set_holds(w, s(i as int)) implies choice(g, e, s) by { still_choice(g, i as int, w, d, e, s); }
                    assert(gone(d, e));
                    assert forall|s: Dates, j: int| #![trigger choice(g, e, s), e[j]] 0 <= j < e.len() && e[j].0@.len() == 0 implies !choice(g, e, s) by { void_line(e[j].0@); if choice(g, e, s) { assert(set_holds(e[j].0@, s(j))); } }
                }
//@end
}
/// what a removal takes: `!tw` for a set, an interval, a point
pub trait Out: Sized {
    spec fn out(&self) -> Seq<TimeInterval>;
    spec fn oko(&self) -> bool;
    proof fn parts_ok(&self) requires self.oko() ensures forall|k: int| 0 <= k < self.out().len() ==> okt(#[trigger] self.out()[k]);
    fn not_(self) -> (r: TimeSet) requires self.oko() ensures result(r.0@, |x: int| !seq_has(self.out(), nearest(x)));
}
impl Out for TimeSet { open spec fn out(&self) -> Seq<TimeInterval> { self.0@ } open spec fn oko(&self) -> bool { self.ok() }
    proof fn parts_ok(&self) { okts(self.0@); }
    fn not_(self) -> (r: TimeSet) { TimeSet::not(self) } }
impl Out for TimeInterval { open spec fn out(&self) -> Seq<TimeInterval> { one(*self) } open spec fn oko(&self) -> bool { okt(*self) }
    proof fn parts_ok(&self) {}
    fn not_(self) -> (r: TimeSet) { proof { one_has(self); } TimeInterval::not(self) } }
impl Out for TimeValue { open spec fn out(&self) -> Seq<TimeInterval> { one(pt(*self)) } open spec fn oko(&self) -> bool { okv(*self) && !isinf(self.0 as int) }
    proof fn parts_ok(&self) {}
    fn not_(self) -> (r: TimeSet) { proof { one_has(pt(self)); assert forall|x: int| pt(self).has(x) <==> x == self.0 by {} } TimeValue::not(self) } }
/// the finite dates of the set are those out of the window
pub open spec fn outside(r: Seq<TimeInterval>, w: Seq<TimeInterval>) -> bool { canon(r) && forall|z: int| -M() < z < M() ==> (#[trigger] set_holds(r, z) <==> !set_holds(w, z)) }
pub proof fn outside_is(r: Seq<TimeInterval>, w: Seq<TimeInterval>)
    requires result(r, |x: int| !seq_has(w, nearest(x))), forall|k: int| 0 <= k < w.len() ==> okt(#[trigger] w[k])
    ensures outside(r, w)
{ okts(r); line_points(r); line_points(w); assert forall|z: int| -M() < z < M() implies (#[trigger] set_holds(r, z) <==> !set_holds(w, z)) by { assert(on_line(z) == z && nearest(z) == z); } }
/// what stays allowed of a window once it is taken out
pub open spec fn roomy_out(g: &TimeGraph, i: int, w: Seq<TimeInterval>) -> bool { forall|r: Seq<TimeInterval>| #[trigger] outside(r, w) ==> roomy(g, i, r) }
impl<'a> TimeScheduler<'a> {
//@fn TimeScheduler<'_> :: remove
    pub fn remove<TW: Out>(&mut self, i: u32, tw: TW) -> (r: TimePropagationResult)
        requires old(self).inv(), i < old(self).schedule.len(), tw.oko(), roomy(old(self).constraints, i as int, old(self).schedule@[i as int].0@), roomy_out(old(self).constraints, i as int, tw.out())
        ensures final(self).inv(), final(self).constraints == old(self).constraints, exists|w: Seq<TimeInterval>| outside(w, tw.out()) && #[trigger] restriction(old(self).constraints, i as int, w, old(self).schedule@, r, final(self).schedule@),
            forall|s: Dates| #[trigger] choice(old(self).constraints, old(self).schedule@, s) && !set_holds(tw.out(), s(i as int)) && -M() < s(i as int) < M() ==> r is Ok && choice(old(self).constraints, final(self).schedule@, s)
//@rule self . retain ( i , ! tw ) ==> ({ let ghost o = tw.out(); proof { tw.parts_ok(); } let w_ = tw.not_(); proof { outside_is(w_.0@, o); assert(w_.parts() == w_.0@); } let ghost d = self.schedule@; let r_ = self.retain(i, w_); proof { assert(restriction(self.constraints, i as int, w_.0@, d, r_, self.schedule@)); } r_ })
//@end
}
// ---- deadlines and start lines
pub open spec fn tame(s: Seq<TimeInterval>, p: int) -> bool { forall|k: int| 0 <= k < s.len() ==> (isinf((#[trigger] s[k]).lower.0 as int) || -p <= s[k].lower.0 <= p) && (isinf(s[k].upper.0 as int) || -p <= s[k].upper.0 <= p) }
pub open spec fn tames(d: Slots, p: int) -> bool { forall|j: int| 0 <= j < d.len() ==> tame((#[trigger] d[j]).0@, p) }
/// the finite ends of a set are the dates where it begins or stops
pub proof fn begins(s: Seq<TimeInterval>, z: int, p: int)
    requires canon(s), tame(s, p), set_holds(s, z), !set_holds(s, z - 1)
    ensures -p <= z <= p, !isinf(z)
{ let m = choose|m: int| 0 <= m < s.len() && holds(#[trigger] s[m], z); assert(!holds(s[m], z - 1)); assert(s[m].lower.0 == z); assert(ne(s[m])); }
pub proof fn stops(s: Seq<TimeInterval>, z: int, p: int)
    requires canon(s), tame(s, p), set_holds(s, z), !set_holds(s, z + 1)
    ensures -p <= z <= p, !isinf(z)
{ let m = choose|m: int| 0 <= m < s.len() && holds(#[trigger] s[m], z); assert(!holds(s[m], z + 1)); assert(s[m].upper.0 == z); assert(ne(s[m])); }
pub proof fn its_ends(r: Seq<TimeInterval>, k: int)
    requires canon(r), 0 <= k < r.len()
    ensures !isinf(r[k].lower.0 as int) ==> set_holds(r, r[k].lower.0 as int) && !set_holds(r, r[k].lower.0 - 1), !isinf(r[k].upper.0 as int) ==> set_holds(r, r[k].upper.0 as int) && !set_holds(r, r[k].upper.0 + 1)
{
    assert(ne(r[k])); let (l, u) = (r[k].lower.0 as int, r[k].upper.0 as int);
    if !isinf(l) { assert(holds(r[k], l)); assert forall|m: int| 0 <= m < r.len() implies !holds(#[trigger] r[m], l - 1) by { assert(ne(r[m])); if m < k { assert(r[m].upper.0 + 1 < r[k].lower.0); } if k < m { assert(r[k].upper.0 + 1 < r[m].lower.0); } } }
    if !isinf(u) { assert(holds(r[k], u)); assert forall|m: int| 0 <= m < r.len() implies !holds(#[trigger] r[m], u + 1) by { assert(ne(r[m])); if m < k { assert(r[m].upper.0 + 1 < r[k].lower.0); } if k < m { assert(r[k].upper.0 + 1 < r[m].lower.0); } } }
}
pub proof fn kept_tame(r: Seq<TimeInterval>, s: Seq<TimeInterval>, w: Seq<TimeInterval>, p: int)
    requires kept(r, s, w), canon(s), canon(w), tame(s, p), tame(w, p)
    ensures tame(r, p)
{
    assert forall|k: int| 0 <= k < r.len() implies (isinf((#[trigger] r[k]).lower.0 as int) || -p <= r[k].lower.0 <= p) && (isinf(r[k].upper.0 as int) || -p <= r[k].upper.0 <= p) by {
        its_ends(r, k); let (l, u) = (r[k].lower.0 as int, r[k].upper.0 as int);
        if !isinf(l) { if !set_holds(s, l - 1) { begins(s, l, p); } else { begins(w, l, p); } }
        if !isinf(u) { if !set_holds(s, u + 1) { stops(s, u, p); } else { stops(w, u, p); } }
    }
}
pub proof fn follows_tame(g: &TimeGraph, i: int, j: int, a: Seq<TimeInterval>, r: Seq<TimeInterval>, s: Seq<TimeInterval>, p: int, b: int)
    requires g.minimal(), 0 <= i < g.n(), 0 <= j < g.n(), follows(g, i, j, a, r, s), canon(a), canon(s), tame(a, p), tame(s, p), net::bounded(g.mat(), g.n(), b), 0 <= b
    ensures tame(r, p + b)
{
    span_ok(g, i, j); let t = span(g, i, j); let c = g.mat(); assert(c(i, j) == g.c(i, j) && c(j, i) == g.c(j, i));
    assert forall|k: int| 0 <= k < r.len() implies (isinf((#[trigger] r[k]).lower.0 as int) || -(p + b) <= r[k].lower.0 <= p + b) && (isinf(r[k].upper.0 as int) || -(p + b) <= r[k].upper.0 <= p + b) by {
        its_ends(r, k); let (l, u) = (r[k].lower.0 as int, r[k].upper.0 as int);
        if !isinf(l) {
            if !set_holds(s, l - 1) { begins(s, l, p); }
            else {
                assert(reached(g, i, j, a, l)); let x = choose|x: int| #[trigger] set_holds(a, x) && holds(t, l - x);
                assert(!reached(g, i, j, a, l - 1)); assert(!holds(t, l - 1 - x)); assert(t.lower.0 == l - x);
                if set_holds(a, x - 1) { assert(holds(t, (l - 1) - (x - 1))); assert(false); }
                begins(a, x, p);
            }
        }
        if !isinf(u) {
            if !set_holds(s, u + 1) { stops(s, u, p); }
            else {
                assert(reached(g, i, j, a, u)); let x = choose|x: int| #[trigger] set_holds(a, x) && holds(t, u - x);
                assert(!reached(g, i, j, a, u + 1)); assert(!holds(t, u + 1 - x)); assert(t.upper.0 == u - x);
                if set_holds(a, x + 1) { assert(holds(t, (u + 1) - (x + 1))); assert(false); }
                stops(a, x, p);
            }
        }
    }
}
pub proof fn tame_room(g: &TimeGraph, i: int, s: Seq<TimeInterval>, p: int, b: int)
    requires g.minimal(), 0 <= i < g.n(), canon(s), tame(s, p), net::bounded(g.mat(), g.n(), b), 0 <= b, 0 <= p, p + b < M()
    ensures roomy(g, i, s)
{
    let c = g.mat();
    assert forall|k: int| 0 <= k < s.len() implies room(g, i, (#[trigger] s[k]).lower.0 as int) && room(g, i, s[k].upper.0 as int) by {
        assert forall|j: int| 0 <= j < g.n() && j != i implies infits(s[k].lower.0 as int, #[trigger] g.c(i, j)) && infits(s[k].lower.0 as int, -g.c(j, i)) && infits(s[k].upper.0 as int, g.c(i, j)) && infits(s[k].upper.0 as int, -g.c(j, i)) by { assert(c(i, j) == g.c(i, j) && c(j, i) == g.c(j, i)); }
    }
}
/// one restriction among those of a line
pub proof fn one_line(g: &TimeGraph, i: int, w: Seq<TimeInterval>, d: Slots, r: TimePropagationResult, e: Slots, p: int, b: int)
    requires g.minimal(), 0 <= i < d.len() == g.n(), oks(d), canon(w), tame(w, p), tames(d, p), net::bounded(g.mat(), g.n(), b), 0 <= b, restriction(g, i, w, d, r, e)
    ensures tames(e, p + b), less(d, e), r is Ok ==> inside(e[i].0@, w)
{
    match r {
        Ok(TimePropagation::Propagated) => {
            kept_tame(e[i].0@, d[i].0@, w, p);
            assert forall|j: int| 0 <= j < e.len() implies tame((#[trigger] e[j]).0@, p + b) by { if j != i { follows_tame(g, i, j, e[i].0@, e[j].0@, d[j].0@, p, b); } }
            assert forall|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(e[j].0@, z) implies set_holds(d[j].0@, z) by { if j != i { assert(follows(g, i, j, e[i].0@, e[j].0@, d[j].0@)); } }
        }
        _ => { same_is(d, e); assert forall|j: int| 0 <= j < e.len() implies tame((#[trigger] e[j]).0@, p + b) by { assert(e[j].0@ == d[j].0@); assert(tame(d[j].0@, p)); } }
    }
}
/// no sum of a bound of the slots, or of the line, and of bounds of the constraints leaves the finite range
pub open spec fn quiet(g: &TimeGraph, d: Slots, line: int, p: int, b: int) -> bool {
    net::bounded(g.mat(), g.n(), b) && tames(d, p) && 0 <= b && 0 <= p && (isinf(line) || -p <= line <= p) && p + (g.n() + 1) * b < M()
}
/// every date of every instant is in w
pub open spec fn all_inside(d: Slots, n: int, w: Seq<TimeInterval>) -> bool { forall|j: int| 0 <= j < n ==> inside((#[trigger] d[j]).0@, w) }
pub open spec fn lined(s: Dates, n: int, w: Seq<TimeInterval>) -> bool { forall|j: int| 0 <= j < n ==> set_holds(w, #[trigger] s(j)) }
/// what restricting all the instants to w says
pub open spec fn lines(g: &TimeGraph, w: Seq<TimeInterval>, d: Slots, r: TimePropagationResult, e: Slots) -> bool {
    match r {
        Err(x) => x == TimeInconsistencyError::Recovered && same_slots(e, d) && forall|s: Dates| #[trigger] choice(g, d, s) ==> !lined(s, g.n(), w),
        Ok(TimePropagation::Unchanged) => same_slots(e, d) && all_inside(d, g.n(), w),
        Ok(TimePropagation::Propagated) => oks(e) && some(e) && less(d, e) && all_inside(e, g.n(), w) && gone(d, e) && forall|s: Dates| #[trigger] choice(g, d, s) && lined(s, g.n(), w) ==> choice(g, e, s),
    }
}
pub proof fn less_gone(d: Slots, e: Slots, f: Slots)
    requires less(d, e), less(e, f)
    ensures less(d, f), gone(d, e) || gone(e, f) ==> gone(d, f)
{
    assert forall|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(f[j].0@, z) implies set_holds(d[j].0@, z) by { assert(set_holds(e[j].0@, z)); }
    if gone(d, e) { let (j, z) = choose|j: int, z: int| 0 <= j < d.len() && #[trigger] set_holds(d[j].0@, z) && !set_holds(e[j].0@, z); assert(!set_holds(f[j].0@, z)); }
    if gone(e, f) { let (j, z) = choose|j: int, z: int| 0 <= j < e.len() && #[trigger] set_holds(e[j].0@, z) && !set_holds(f[j].0@, z); assert(set_holds(d[j].0@, z)); }
}
pub open spec fn off_deadline(t: Seq<TimeInterval>, x: int) -> bool { t.len() > 0 && t[0].lower.0 > x }
pub open spec fn off_startline(t: Seq<TimeInterval>, x: int) -> bool { t.len() > 0 && t.last().upper.0 < x }
pub open spec fn until(x: TimeValue) -> RangeToInclusive { RangeToInclusive { end: x } }
pub open spec fn since(x: TimeValue) -> RangeFrom { RangeFrom { start: x } }
pub proof fn none_deadline(t: Seq<TimeInterval>, x: TimeValue)
    requires canon(t), okv(x), off_deadline(t, x.0 as int)
    ensures forall|z: int| #[trigger] set_holds(t, z) ==> !set_holds(Window::parts(&until(x)), z)
{
    assert forall|z: int| #[trigger] set_holds(t, z) implies !set_holds(Window::parts(&until(x)), z) by {
        let m = choose|m: int| 0 <= m < t.len() && holds(#[trigger] t[m], z); assert(ne(t[m])); assert(ne(t[0])); if m > 0 { assert(t[0].upper.0 + 1 < t[m].lower.0); }
        assert(t[m].lower.0 > x.0);
    }
}
pub proof fn none_startline(t: Seq<TimeInterval>, x: TimeValue)
    requires canon(t), okv(x), off_startline(t, x.0 as int)
    ensures forall|z: int| #[trigger] set_holds(t, z) ==> !set_holds(Window::parts(&since(x)), z)
{
    assert forall|z: int| #[trigger] set_holds(t, z) implies !set_holds(Window::parts(&since(x)), z) by {
        let n = t.len() - 1; let m = choose|m: int| 0 <= m < t.len() && holds(#[trigger] t[m], z); assert(ne(t[m])); assert(ne(t[n])); if m < n { assert(t[m].upper.0 + 1 < t[n].lower.0); }
        assert(t[m].upper.0 < x.0);
    }
}
pub proof fn tame_more(s: Seq<TimeInterval>, p: int, q: int)
    requires tame(s, p), p <= q
    ensures tame(s, q)
{}
pub proof fn step_room(g: &TimeGraph, d: Slots, i: int, w: Seq<TimeInterval>, p: int, b: int)
    requires g.minimal(), 0 <= i < d.len() == g.n(), oks(d), canon(w), tame(w, p), tames(d, p + i * b), net::bounded(g.mat(), g.n(), b), 0 <= b, 0 <= p, p + (g.n() + 1) * b < M()
    ensures roomy(g, i, d[i].0@), roomy(g, i, w), tame(w, p + i * b)
{
    assert(0 <= i * b) by (nonlinear_arith) requires 0 <= i, 0 <= b;
    assert(i * b + b <= (g.n() + 1) * b) by (nonlinear_arith) requires i < g.n(), 0 <= b;
    let q = p + i * b;
    tame_more(w, p, q); tame_room(g, i, d[i].0@, q, b); tame_room(g, i, w, q, b);
}
/// what is known of the slots once the first instants are restricted
pub open spec fn so_far(g: &TimeGraph, w: Seq<TimeInterval>, d: Slots, i: int, r: TimePropagationResult, e: Slots) -> bool {
    less(d, e) && match r {
        Err(x) => x == TimeInconsistencyError::Recovered && forall|s: Dates| #[trigger] choice(g, d, s) ==> !lined(s, g.n(), w),
        Ok(x) => all_inside(e, i, w) && (x == TimePropagation::Unchanged ==> same_slots(e, d)) && (x == TimePropagation::Propagated ==> gone(d, e)) && forall|s: Dates| #[trigger] choice(g, d, s) && lined(s, g.n(), w) ==> choice(g, e, s),
    }
}
/// one more instant: what the result has to be
pub proof fn one_more(g: &TimeGraph, w: Seq<TimeInterval>, d: Slots, i: int, a: TimePropagation, e: Slots, m: TimePropagationResult, f: Slots)
    requires so_far(g, w, d, i, Ok(a), e), restriction(g, i, w, e, m, f), 0 <= i < d.len() == g.n(), less(e, f), m is Ok ==> inside(f[i].0@, w),
        forall|s: Dates| #[trigger] choice(g, e, s) && set_holds(w, s(i)) ==> m is Ok && choice(g, f, s)
    ensures so_far(g, w, d, i + 1, match m { Err(x) => Err(x), Ok(TimePropagation::Unchanged) => Ok(a), Ok(TimePropagation::Propagated) => Ok(TimePropagation::Propagated) }, f)
{
    less_gone(d, e, f);
    assert forall|s: Dates| #[trigger] choice(g, d, s) && lined(s, g.n(), w) implies m is Ok && choice(g, f, s) by { assert(choice(g, e, s)); assert(set_holds(w, s(i))); }
    if m is Ok { assert forall|j: int| 0 <= j < i + 1 implies inside((#[trigger] f[j]).0@, w) by { if j < i { assert(inside(e[j].0@, w)); assert forall|z: int| #[trigger] set_holds(f[j].0@, z) implies set_holds(w, z) by { assert(set_holds(e[j].0@, z)); } } } }
    if m == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Unchanged) { assert(a == TimePropagation::Unchanged ==> same_slots(f, d)) by { if a == TimePropagation::Unchanged { assert forall|k: int| 0 <= k < d.len() implies (#[trigger] f[k]).0@ == d[k].0@ by { assert(e[k].0@ == d[k].0@); } } } }
}
impl<'a> TimeScheduler<'a> {
//@for N X P T K W in set_deadline:deadline:..=deadline:RangeToInclusive:end:until set_startline:startline:startline..:RangeFrom:start:since
//@fn TimeScheduler<'_> :: %N%
    pub fn %N%(&mut self, %X%: TimeValue) -> (r: TimePropagationResult)
        requires old(self).inv(), okv(%X%), exists|p: int, b: int| #[trigger] quiet(old(self).constraints, old(self).schedule@, %X%.0 as int, p, b)
        ensures final(self).inv(), final(self).constraints == old(self).constraints, lines(old(self).constraints, Window::parts(&%W%(%X%)), old(self).schedule@, r, final(self).schedule@)
//@rule %P% ==> (%T% { %K%: %X% })
//@rule self . schedule . iter ( ) . any ( | tw | $*e ) ==> { let mut b_ = false; let mut k: usize = 0; while k < self.schedule.len() { let tw = &self.schedule[k]; if $*e { b_ = true; break; } k = k + 1; } proof { if b_ { let t = d[k as int].0@; none_%X%(t, %X%); assert forall|s: Dates| #[trigger] choice(g, d, s) implies !lined(s, g.n(), w) by { assert(set_holds(d[k as int].0@, s(k as int))); assert(!set_holds(w, s(k as int))); } } } b_ }
//@rule self . schedule . clone ( ) ==> copied(&self.schedule)
//@rule ( 0 .. $*n ) . try_fold ( $*v , | result , i | match $*m ? { $*_b } ) ==> { let n_ = $*n; let mut acc_: TimePropagationResult = Ok($*v); let mut i: u32 = 0; while i < n_ { let ghost e1 = self.schedule@; let result = match acc_ { Ok(x_) => x_, Err(x_) => { acc_ = Err(x_); break; } }; proof { step_room(self.constraints, e1, i as int, w, p, b); } acc_ = match { let ghost r1 = result; let m_ = $*m; proof { one_line(g, i as int, w, e1, m_, self.schedule@, p + i * b, b); one_more(g, w, d, i as int, r1, e1, m_, self.schedule@); assert((i + 1) * b == i * b + b) by (nonlinear_arith); } m_ } { Err(e_) => Err(e_), Ok(v_) => match v_ { $*_b } }; i = i + 1; } acc_ }
//@inv
            invariant_except_break !b_
            invariant k <= self.schedule.len(), self.inv(), self.schedule@ == d
            ensures b_ ==> k < self.schedule.len() && off_%X%(d[k as int].0@, %X%.0 as int)
            decreases self.schedule.len() - k
//@inv
            invariant i <= n_, n_ == g.n(), d.len() == g.n(), self.inv(), self.constraints == g, canon(w), tame(w, p), Window::parts(&%W%(%X%)) == w, okv(%X%), quiet(g, d, %X%.0 as int, p, b),
                tames(self.schedule@, p + i * b), so_far(g, w, d, i as int, acc_, self.schedule@)
            ensures acc_ is Err || i == n_
            decreases n_ - i
//@start
        let ghost g = self.constraints; let ghost d = self.schedule@; let ghost w = Window::parts(&%W%(%X%));
        let ghost (p, b) = choose|p: int, b: int| #[trigger] quiet(g, d, %X%.0 as int, p, b);
        proof { same_is(d, d); canon_one(%W%(%X%).iv()); assert(canon(w)); assert(tame(w, p)); assert(0 * b == 0); }
//@before if result . is_err ( )
            proof { if same_slots(self.schedule@, d) { let e = self.schedule@; assert forall|j: int| 0 <= j < g.n() && inside(e[j].0@, w) implies inside((#[trigger] d[j]).0@, w) by { assert(e[j].0@ == d[j].0@); } } }
//@end
//@endfor
}
