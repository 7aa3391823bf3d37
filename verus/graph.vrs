//@include intervals
// ---- the matrix of a graph ------------------------------------------------------------------------------------------------
//@grule self . data . get_unchecked ( $*i ) ==> (&self.data[$*i])
//@grule self . data . get_unchecked_mut ( $*i ) ==> (&mut self.data[$*i])
pub type Instant = u32;
/// `v.resize(n, x)`, `v.fill(x)`, `v.truncate(n)`, `v.clear()` and the operations on capacities
#[verifier::external_body]
pub fn vresize(v: &mut Vec<TimeValue>, n: usize, x: TimeValue)
    ensures final(v)@.len() == n, forall|k: int| 0 <= k < n ==> #[trigger] final(v)@[k] == (if k < old(v)@.len() { old(v)@[k] } else { x })
{ v.resize(n, x) }
#[verifier::external_body]
pub fn vfill(v: &mut Vec<TimeValue>, x: TimeValue)
    ensures final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() ==> #[trigger] final(v)@[k] == x
{ v.fill(x) }
#[verifier::external_body]
pub fn vshrink(v: &mut Vec<TimeValue>) ensures final(v)@ == old(v)@ { v.shrink_to_fit() }
#[verifier::external_body]
pub fn vshrink_to(v: &mut Vec<TimeValue>, n: usize) ensures final(v)@ == old(v)@ { v.shrink_to(n) }

pub open spec fn NEG() -> int { -M() }
/// the place of the cell (i,j)
#[verifier::opaque]
pub open spec fn ix(i: int, j: int) -> int { if i >= j { i * i + j } else { j * (j + 2) - i } }
pub open spec fn sq(n: int) -> int { n * n }
pub proof fn ix_range(i: int, j: int, n: int)
    requires 0 <= i < n, 0 <= j < n
    ensures 0 <= ix(i, j) < sq(n), sq(n) <= 0xffff_ffff_ffff_ffff || n > 0xffff_ffff
{
    reveal(ix);
    let m = if i >= j { i } else { j };
    assert(m * m + 2 * m + 1 == (m + 1) * (m + 1)) by (nonlinear_arith);
    assert((m + 1) * (m + 1) <= n * n) by (nonlinear_arith) requires 0 <= m < n;
    assert(j * (j + 2) == j * j + 2 * j) by (nonlinear_arith);
    assert(m * m >= 0) by (nonlinear_arith) requires m >= 0;
    if n <= 0xffff_ffff { assert(n * n <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= n <= 0xffff_ffff; }
}
pub proof fn ix_one(i: int, j: int, a: int, b: int)
    requires 0 <= i, 0 <= j, 0 <= a, 0 <= b, ix(i, j) == ix(a, b)
    ensures i == a, j == b
{
    reveal(ix);
    let m = if i >= j { i } else { j };
    let p = if a >= b { a } else { b };
    assert(j * (j + 2) == j * j + 2 * j) by (nonlinear_arith);
    assert(b * (b + 2) == b * b + 2 * b) by (nonlinear_arith);
    if m < p { assert(m * m + 2 * m + 1 <= p * p) by (nonlinear_arith) requires 0 <= m < p; }
    if p < m { assert(p * p + 2 * p + 1 <= m * m) by (nonlinear_arith) requires 0 <= p < m; }
}
pub open spec fn at(d: Seq<TimeValue>, i: int, j: int) -> int { d[ix(i, j)].0 as int }
/// the cells of an n x n matrix are all in the vector
pub open spec fn sized(d: Seq<TimeValue>, n: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> 0 <= #[trigger] ix(i, j) < d.len() }
pub proof fn is_sized(d: Seq<TimeValue>, n: int)
    requires d.len() >= sq(n), n >= 0
    ensures sized(d, n)
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies 0 <= #[trigger] ix(i, j) < d.len() by { ix_range(i, j, n); } }

#[derive(Clone)]
pub struct TimeGraph { pub size: Instant, pub data: Vec<TimeValue> }
impl TimeGraph {
    pub open spec fn n(&self) -> int { self.size as int }
    pub open spec fn c(&self, i: int, j: int) -> int { at(self.data@, i, j) }
    /// the storage holds the matrix, with possible lower bounds in it
    pub open spec fn wf(&self) -> bool { self.data@.len() == sq(self.n()) && sized(self.data@, self.n()) && forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() ==> NEG() <= #[trigger] at(self.data@, i, j) < M() }
    /// same instants and same constraints
    pub open spec fn same(&self, o: &TimeGraph) -> bool { self.size == o.size && forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() ==> #[trigger] at(self.data@, i, j) == o.c(i, j) }
//@fn TimeGraph :: size
    pub fn size(&self) -> (r: u32) ensures r == self.size
//@end
//@fn TimeGraph :: lower
    pub fn lower(&self, i: Instant, j: Instant) -> (r: TimeValue)
        requires ix(i as int, j as int) < self.data.len()
        ensures r.0 == self.c(i as int, j as int)
//@start
        proof { reveal(ix); ix_range(i as int, j as int, 0x1_0000_0000); ix_max(i as int, j as int); }
//@end
//@fn TimeGraph :: lower_mut
    pub fn lower_mut(&mut self, i: Instant, j: Instant) -> (r: &mut TimeValue)
        requires ix(i as int, j as int) < old(self).data.len()
        ensures r.0 == old(self).c(i as int, j as int), final(self).size == old(self).size, final(self).data@.len() == old(self).data@.len(),
            final(self).c(i as int, j as int) == final(r).0,
            forall|a: int, b: int| 0 <= a && 0 <= b && !(a == i && b == j) ==> #[trigger] at(final(self).data@, a, b) == old(self).c(a, b),
//@start
        proof { reveal(ix); ix_range(i as int, j as int, 0x1_0000_0000); ix_max(i as int, j as int);
            assert forall|a: int, b: int| 0 <= a && 0 <= b && !(a == i && b == j) implies #[trigger] ix(a, b) != ix(i as int, j as int) by { if ix(a, b) == ix(i as int, j as int) { ix_one(i as int, j as int, a, b); } } }
//@end
}
pub proof fn ix_max(i: int, j: int)
    requires 0 <= i <= 0xffff_ffff, 0 <= j <= 0xffff_ffff
    ensures 0 <= i * i <= 0xffff_fffe_0000_0001, 0 <= i * i + j <= 0xffff_ffff_ffff_ffff, 0 <= j * (j + 2) <= 0xffff_ffff_ffff_ffff, i < j ==> i <= j * (j + 2),
        // other ways to write the rank
        j * (j + 2) == j * j + 2 * j, j * (j + 2) == (j + 2) * j, j * (j + 2) == (j + 1) * (j + 1) - 1, 0 <= j * j + 2 * j <= 0xffff_ffff_ffff_ffff, 0 <= (j + 1) * (j + 1) <= 0x1_0000_0000_0000_0000, i < j ==> i <= j * j + 2 * j
{
    assert(j * (j + 2) == j * j + 2 * j && j * (j + 2) == (j + 2) * j && j * (j + 2) == (j + 1) * (j + 1) - 1) by (nonlinear_arith);
    assert(0 <= i * i <= 0xffff_ffff * 0xffff_ffff) by (nonlinear_arith) requires 0 <= i <= 0xffff_ffff;
    assert(0 <= j * (j + 2) <= 0xffff_ffff * 0x1_0000_0001) by (nonlinear_arith) requires 0 <= j <= 0xffff_ffff;
    assert(j <= j * (j + 2)) by (nonlinear_arith) requires 0 <= j;
}
pub proof fn ix_out(i: int, j: int, n: int)
    requires 0 <= i, 0 <= j, 0 <= n, n <= i || n <= j
    ensures ix(i, j) >= sq(n)
{
    reveal(ix);
    let m = if i >= j { i } else { j };
    assert(m * m >= n * n) by (nonlinear_arith) requires m >= n >= 0;
    assert(j * (j + 2) == j * j + 2 * j) by (nonlinear_arith);
}

// ---- dates satisfying the constraints ------------------------------------------------------------------------------------
pub type Mat = spec_fn(int, int) -> int;
pub type Dates = spec_fn(int) -> int;
/// t_j - t_i is at least c(i,j), for all instants below n
pub open spec fn fits(c: Mat, n: int, s: Dates) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] c(i, j) > NEG() ==> s(j) - s(i) >= c(i, j) }
/// t_t - t_f is in the interval
pub open spec fn meets(k: TimeInterval, f: int, t: int, s: Dates) -> bool { (k.lower.0 > NEG() ==> s(t) - s(f) >= k.lower.0) && (k.upper.0 < M() ==> s(t) - s(f) <= k.upper.0) }
pub open spec fn closed(c: Mat, n: int) -> bool {
    (forall|i: int| 0 <= i < n ==> #[trigger] c(i, i) == 0)
    && (forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && #[trigger] c(i, k) > NEG() && #[trigger] c(k, j) > NEG() ==> c(i, j) > NEG() && c(i, j) >= c(i, k) + c(k, j))
}
pub open spec fn bounded(c: Mat, n: int, b: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] c(i, j) == NEG() || -b <= c(i, j) <= b }
/// bounds the proofs allow for the magnitude of the ticks, so that sums stay finite
pub open spec fn B() -> int { 0x0800_0000_0000_0000 - 1 }

/// x is the maximum of w(a) + c(a,k)
pub open spec fn is_top(c: Mat, n: int, w: Dates, k: int, x: int) -> bool {
    (forall|a: int| 0 <= a < n && #[trigger] c(a, k) > NEG() ==> x >= w(a) + c(a, k)) && (exists|a: int| 0 <= a < n && #[trigger] c(a, k) > NEG() && x == w(a) + c(a, k))
}
pub proof fn top_exists(c: Mat, n: int, w: Dates, k: int, m: int) -> (x: int)
    requires 0 <= k < m, c(k, k) > NEG(), m <= n
    ensures is_top(c, m, w, k, x)
    decreases m
{
    // the instants below m - 1, the last one, or both
    if k < m - 1 {
        let y = top_exists(c, n, w, k, m - 1);
        let z = w(m - 1) + c(m - 1, k);
        if c(m - 1, k) > NEG() && z > y { assert(is_top(c, m, w, k, z)); z } else { assert(is_top(c, m, w, k, y)); y }
    } else { top_below(c, w, k, m - 1, w(k) + c(k, k)) }
}
/// the maximum of x = w(k) + c(k,k) and of the instants below m
pub proof fn top_below(c: Mat, w: Dates, k: int, m: int, x: int) -> (y: int)
    requires 0 <= m, x == w(k) + c(k, k), c(k, k) > NEG(), k >= m
    ensures y >= x, forall|a: int| 0 <= a < m && #[trigger] c(a, k) > NEG() ==> y >= w(a) + c(a, k), y == x || (exists|a: int| 0 <= a < m && #[trigger] c(a, k) > NEG() && y == w(a) + c(a, k))
    decreases m
{
    if m == 0 { x } else {
        let y = top_below(c, w, k, m - 1, x);
        let z = w(m - 1) + c(m - 1, k);
        if c(m - 1, k) > NEG() && z > y { z } else { y }
    }
}
/// dates of a closed matrix: each instant as early as possible after the dates w
pub open spec fn earliest(c: Mat, n: int, w: Dates) -> Dates { |k: int| choose|x: int| is_top(c, n, w, k, x) }
pub proof fn earliest_fits(c: Mat, n: int, w: Dates)
    requires closed(c, n)
    ensures fits(c, n, earliest(c, n, w)), forall|k: int| 0 <= k < n ==> is_top(c, n, w, k, #[trigger] earliest(c, n, w)(k))
{
    let s = earliest(c, n, w);
    assert forall|k: int| 0 <= k < n implies is_top(c, n, w, k, #[trigger] s(k)) by { assert(c(k, k) == 0); let x = top_exists(c, n, w, k, n); }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] c(i, j) > NEG() implies s(j) - s(i) >= c(i, j) by {
        assert(is_top(c, n, w, i, s(i)) && is_top(c, n, w, j, s(j)));
        let a = choose|a: int| 0 <= a < n && #[trigger] c(a, i) > NEG() && s(i) == w(a) + c(a, i);
        assert(c(a, i) > NEG() && c(i, j) > NEG());
        assert(c(a, j) >= c(a, i) + c(i, j));
    }
}

/// the bounds of a closed matrix are the tightest: dates exist on the wrong side of any better one
pub proof fn tight(c: Mat, n: int, i: int, j: int, x: int) -> (s: Dates)
    requires closed(c, n), bounded(c, n, M()), 0 <= i < n, 0 <= j < n, c(i, j) == NEG() || c(i, j) < x
    ensures fits(c, n, s), s(j) - s(i) < x
{
    let far = -M() - (if x < 0 { -x } else { x }) - 1;
    let w = |a: int| if a == i { 0 } else { far };
    let s = earliest(c, n, w);
    earliest_fits(c, n, w);
    assert(is_top(c, n, w, i, s(i)) && is_top(c, n, w, j, s(j)));
    assert(c(i, i) == 0);
    s
}
pub proof fn feasible(c: Mat, n: int) -> (s: Dates)
    requires closed(c, n)
    ensures fits(c, n, s)
{ let w = |a: int| 0int; earliest_fits(c, n, w); earliest(c, n, w) }

/// what adding an edge to a closed matrix gives: c holds the new bound at (f,t)
pub open spec fn relaxed(c: Mat, f: int, t: int) -> Mat {
    |i: int, j: int| if c(i, f) > NEG() && c(t, j) > NEG() && c(i, f) + c(f, t) + c(t, j) > c(i, j) { c(i, f) + c(f, t) + c(t, j) } else { c(i, j) }
}
/// closed but for the edge (f,t), which is consistent with the others
pub open spec fn ready(c: Mat, n: int, f: int, t: int) -> bool {
    0 <= f < n && 0 <= t < n && f != t && c(f, t) > NEG() && (c(t, f) > NEG() ==> c(f, t) + c(t, f) <= 0)
    && (forall|i: int| 0 <= i < n ==> #[trigger] c(i, i) == 0)
    && (forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && !(i == f && k == t) && !(k == f && j == t) && #[trigger] c(i, k) > NEG() && #[trigger] c(k, j) > NEG() ==> c(i, j) > NEG() && c(i, j) >= c(i, k) + c(k, j))
}
pub proof fn relaxed_closed(c: Mat, n: int, f: int, t: int)
    requires ready(c, n, f, t), bounded(c, n, 3 * B())
    ensures closed(relaxed(c, f, t), n)
{
    let r = relaxed(c, f, t);
    assert(c(f, f) == 0 && c(t, t) == 0);
    assert forall|i: int| 0 <= i < n implies #[trigger] r(i, i) == 0 by {
        if c(i, f) > NEG() && c(t, i) > NEG() { if i != f && i != t { assert(c(t, f) >= c(t, i) + c(i, f)); } }
    }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && #[trigger] r(i, k) > NEG() && #[trigger] r(k, j) > NEG() implies r(i, j) > NEG() && r(i, j) >= r(i, k) + r(k, j) by {
        assert(c(i, f) == NEG() || c(i, f) <= 3 * B());
        assert(c(t, j) == NEG() || c(t, j) <= 3 * B());
        assert(c(i, k) == NEG() || c(i, k) <= 3 * B());
        assert(c(k, j) == NEG() || c(k, j) <= 3 * B());
        assert(c(k, f) == NEG() || c(k, f) <= 3 * B());
        assert(c(t, k) == NEG() || c(t, k) <= 3 * B());
        assert(c(f, t) <= 3 * B());
        assert(c(i, j) == NEG() || c(i, j) >= -3 * B());
        if c(t, k) > NEG() && c(k, f) > NEG() { if !(k == t || k == f) { assert(c(t, f) >= c(t, k) + c(k, f)); } }
        if c(i, k) > NEG() && c(k, f) > NEG() { if k != f && !(i == f && k == t) { assert(c(i, f) >= c(i, k) + c(k, f)); } }
        if c(t, k) > NEG() && c(k, j) > NEG() { if k != t && !(k == f && j == t) { assert(c(t, j) >= c(t, k) + c(k, j)); } }
    }
}
/// the dates are the same before and after
pub proof fn relaxed_fits(c: Mat, n: int, f: int, t: int, s: Dates)
    requires ready(c, n, f, t), bounded(c, n, 3 * B())
    ensures fits(relaxed(c, f, t), n, s) <==> fits(c, n, s)
{
    let r = relaxed(c, f, t);
    if fits(c, n, s) {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] r(i, j) > NEG() implies s(j) - s(i) >= r(i, j) by {
            if c(i, f) > NEG() && c(t, j) > NEG() { assert(s(f) - s(i) >= c(i, f)); assert(s(t) - s(f) >= c(f, t)); assert(s(j) - s(t) >= c(t, j)); }
            if c(i, j) > NEG() { assert(s(j) - s(i) >= c(i, j)); }
        }
    }
    if fits(r, n, s) {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] c(i, j) > NEG() implies s(j) - s(i) >= c(i, j) by { assert(r(i, j) >= c(i, j)); }
    }
}
/// the matrix with another bound at (f,t)
pub open spec fn put(c: Mat, f: int, t: int, x: int) -> Mat { |i: int, j: int| if i == f && j == t { x } else { c(i, j) } }
pub proof fn put_ready(c: Mat, n: int, f: int, t: int, x: int)
    requires closed(c, n), 0 <= f < n, 0 <= t < n, f != t, x > c(f, t), x > NEG(), c(t, f) == NEG() || x + c(t, f) <= 0
    ensures ready(put(c, f, t, x), n, f, t)
{
    let r = put(c, f, t, x);
    assert forall|i: int| 0 <= i < n implies #[trigger] r(i, i) == 0 by { assert(c(i, i) == 0); }
    assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && !(i == f && k == t) && !(k == f && j == t) && #[trigger] r(i, k) > NEG() && #[trigger] r(k, j) > NEG() implies r(i, j) > NEG() && r(i, j) >= r(i, k) + r(k, j) by {
        assert(c(i, j) >= c(i, k) + c(k, j));
    }
}
pub proof fn put_fits(c: Mat, n: int, f: int, t: int, x: int, s: Dates)
    requires 0 <= f < n, 0 <= t < n, x > c(f, t), x > NEG()
    ensures fits(put(c, f, t, x), n, s) <==> fits(c, n, s) && s(t) - s(f) >= x
{
    let r = put(c, f, t, x);
    if fits(r, n, s) {
        assert(r(f, t) == x);
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] c(i, j) > NEG() implies s(j) - s(i) >= c(i, j) by { assert(r(i, j) >= c(i, j)); }
    }
    if fits(c, n, s) && s(t) - s(f) >= x {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] r(i, j) > NEG() implies s(j) - s(i) >= r(i, j) by { if !(i == f && j == t) { assert(c(i, j) > NEG()); } }
    }
}

pub open spec fn small(k: TimeInterval) -> bool { (isinf(k.lower.0 as int) || -B() <= k.lower.0 <= B()) && (isinf(k.upper.0 as int) || -B() <= k.upper.0 <= B()) }
/// a constraint holds for all dates of a closed matrix when its bounds do not improve it, for none when they go past the opposite bound
pub proof fn implied(gr: &TimeGraph, c: Mat, n: int, k: TimeInterval, f: int, t: int)
    requires c == gr.mat(), n == gr.n()
    ensures closed(c, n) && bounded(c, n, B()) && ne(k) && 0 <= f < n && 0 <= t < n ==>
        ((forall|s: Dates| #[trigger] gr.fits(s) ==> meets(k, f, t, s)) <==> k.lower.0 <= c(f, t) && -k.upper.0 <= c(t, f))
        && (k.lower.0 > NEG() && c(t, f) > NEG() && k.lower.0 + c(t, f) > 0 ==> forall|s: Dates| #[trigger] gr.fits(s) ==> !meets(k, f, t, s))
        && (k.upper.0 < M() && c(f, t) > NEG() && c(f, t) > k.upper.0 ==> forall|s: Dates| #[trigger] gr.fits(s) ==> !meets(k, f, t, s)),
        em(k) ==> forall|s: Dates| !#[trigger] meets(k, f, t, s)
{
    if closed(c, n) && bounded(c, n, B()) && ne(k) && 0 <= f < n && 0 <= t < n {
        if k.lower.0 > c(f, t) { let s = tight(c, n, f, t, k.lower.0 as int); assert(gr.fits(s) && !meets(k, f, t, s)); }
        if -k.upper.0 > c(t, f) { let s = tight(c, n, t, f, -k.upper.0 as int); assert(gr.fits(s) && !meets(k, f, t, s)); }
        assert forall|s: Dates| #[trigger] gr.fits(s) implies (c(f, t) > NEG() ==> s(t) - s(f) >= c(f, t)) && (c(t, f) > NEG() ==> s(f) - s(t) >= c(t, f)) by {}
    }
}
/// the same cells make the same dates
pub proof fn agree(c: Mat, d: Mat, n: int, s: Dates)
    requires forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] c(i, j) == d(i, j)
    ensures fits(c, n, s) <==> fits(d, n, s), closed(c, n) ==> closed(d, n), forall|f: int, t: int| #[trigger] ready(c, n, f, t) ==> ready(d, n, f, t)
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] d(i, j) == c(i, j) by { assert(c(i, j) == d(i, j)); }
    if closed(c, n) {
        assert forall|i: int| 0 <= i < n implies #[trigger] d(i, i) == 0 by { assert(c(i, i) == 0); }
        assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && #[trigger] d(i, k) > NEG() && #[trigger] d(k, j) > NEG() implies d(i, j) > NEG() && d(i, j) >= d(i, k) + d(k, j) by { assert(c(i, k) > NEG() && c(k, j) > NEG()); }
    }
    assert forall|f: int, t: int| #[trigger] ready(c, n, f, t) implies ready(d, n, f, t) by {
        assert forall|i: int| 0 <= i < n implies #[trigger] d(i, i) == 0 by { assert(c(i, i) == 0); }
        assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && !(i == f && k == t) && !(k == f && j == t) && #[trigger] d(i, k) > NEG() && #[trigger] d(k, j) > NEG() implies d(i, j) > NEG() && d(i, j) >= d(i, k) + d(k, j) by { assert(c(i, k) > NEG() && c(k, j) > NEG()); }
    }
}
pub proof fn grown(c: Mat, m: int, d: Mat, n: int)
    requires forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] d(i, j) == (if i < m && j < m { c(i, j) } else if i == j { 0 } else { NEG() })
    ensures closed(c, m) ==> closed(d, n), forall|b: int| b >= 0 && #[trigger] bounded(c, m, b) ==> bounded(d, n, b), m <= n ==> forall|s: Dates| #[trigger] fits(d, n, s) <==> fits(c, m, s)
{
    if closed(c, m) {
        assert forall|i: int| 0 <= i < n implies #[trigger] d(i, i) == 0 by { if i < m { assert(c(i, i) == 0); } }
        assert forall|i: int, j: int, k: int| 0 <= i < n && 0 <= j < n && 0 <= k < n && #[trigger] d(i, k) > NEG() && #[trigger] d(k, j) > NEG() implies d(i, j) > NEG() && d(i, j) >= d(i, k) + d(k, j) by { if i < m && j < m && k < m { assert(c(i, k) > NEG() && c(k, j) > NEG()); } }
    }
        if m <= n { assert forall|s: Dates| #[trigger] fits(d, n, s) <==> fits(c, m, s) by {
            if fits(d, n, s) { assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && #[trigger] c(i, j) > NEG() implies s(j) - s(i) >= c(i, j) by { assert(d(i, j) == c(i, j)); } }
            if fits(c, m, s) { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] d(i, j) > NEG() implies s(j) - s(i) >= d(i, j) by { if i < m && j < m { assert(c(i, j) > NEG()); } } }
        } }
    assert forall|b: int| b >= 0 && #[trigger] bounded(c, m, b) implies bounded(d, n, b) by { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] d(i, j) == NEG() || -b <= d(i, j) <= b by { if i < m && j < m { assert(c(i, j) == c(i, j)); } } }
}
/// a new bound put at (f,t) in a closed matrix, which it does not contradict
pub proof fn put_step(g: Mat, c: Mat, n: int, f: int, t: int)
    requires closed(g, n), 0 <= f < n, 0 <= t < n, f != t, c(f, t) > g(f, t), g(f, t) >= NEG(), g(t, f) == NEG() || c(f, t) + g(t, f) <= 0,
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && !(i == f && j == t) ==> #[trigger] c(i, j) == g(i, j)
    ensures ready(c, n, f, t), forall|s: Dates| #[trigger] fits(c, n, s) <==> fits(g, n, s) && s(t) - s(f) >= c(f, t),
        bounded(g, n, B()) && -B() <= c(f, t) <= B() ==> bounded(c, n, B()) && bounded(c, n, 3 * B()), bounded(g, n, 3 * B()) && -3 * B() <= c(f, t) <= 3 * B() ==> bounded(c, n, 3 * B())
{
    let x = c(f, t);
    put_ready(g, n, f, t, x);
    assert forall|s: Dates| #[trigger] fits(c, n, s) <==> fits(g, n, s) && s(t) - s(f) >= c(f, t) by { put_fits(g, n, f, t, x, s); agree(put(g, f, t, x), c, n, s); }
    agree(put(g, f, t, x), c, n, |i: int| 0);
    assert(forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] c(i, j) == g(i, j) || c(i, j) == c(f, t));
}

// ---- constraints -----------------------------------------------------------------------------------------------------------
pub trait TimeConstraint: TimeConvex {
    spec fn f(&self) -> Instant;
    spec fn t(&self) -> Instant;
    fn from(&self) -> (r: Instant) requires okt(self.iv()) ensures r == self.f();
    fn to(&self) -> (r: Instant) requires okt(self.iv()) ensures r == self.t();
}
pub open spec fn max2(a: int, b: int) -> int { if a >= b { a } else { b } }

impl TimeGraph {
    pub open spec fn mat(&self) -> Mat { |i: int, j: int| self.c(i, j) }
    /// a graph whose constraints are the tightest ones, in the range of the proofs
    pub open spec fn minimal(&self) -> bool { self.wf() && closed(self.mat(), self.n()) }
    /// the dates t satisfy the constraints of the graph
    pub open spec fn fits(&self, s: Dates) -> bool { fits(self.mat(), self.n(), s) }
    /// `TimeGraph::default()` derived by the compiler
    pub fn default() -> (r: TimeGraph) ensures r.n() == 0, r.minimal(), forall|s: Dates| #[trigger] r.fits(s)
    { TimeGraph { size: 0, data: Vec::new() } }
//@fn TimeGraph :: resize
    pub fn resize(&mut self, n: Instant)
        requires old(self).wf()
        ensures final(self).wf(), final(self).size == n,
            forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] at(final(self).data@, i, j) == (if i < old(self).n() && j < old(self).n() { old(self).c(i, j) } else if i == j { 0 } else { NEG() }),
            closed(old(self).mat(), old(self).n()) ==> closed(final(self).mat(), n as int), forall|b: int| b >= 0 && #[trigger] bounded(old(self).mat(), old(self).n(), b) ==> bounded(final(self).mat(), n as int, b),
            old(self).n() <= n ==> forall|s: Dates| #![trigger final(self).fits(s)] #![trigger old(self).fits(s)] #![trigger fits(final(self).mat(), final(self).n(), s)] final(self).fits(s) <==> old(self).fits(s)
//@rule self . data . resize ( $*a , $*b ) ==> vresize(&mut self.data, $*a, $*b)
//@rule ( $*a .. $*b ) . for_each ( | $i | { $*_x } ) ==> { let a_ = $*a; let e_ = $*b; let b_ = if e_ < a_ { a_ } else { e_ }; for $i in a_..b_ { $*_x } }
//@start
        let ghost old_ = *self;
        proof { ix_max(n as int, 0); ix_max(self.size as int, 0); reveal(ix);
            assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies 0 <= #[trigger] ix(i, j) < sq(n as int) by { ix_range(i, j, n as int); }
            assert forall|i: int, j: int| 0 <= i && 0 <= j && (self.n() <= i || self.n() <= j) implies #[trigger] ix(i, j) >= sq(self.n()) by { ix_out(i, j, self.n()); } }
//@inv
            invariant a_ == old_.size, b_ == (if n < a_ { a_ } else { n }), self.size == old_.size, self.data@.len() == sq(n as int), sized(self.data@, n as int),
                forall|a: int, b: int| 0 <= a < n && 0 <= b < n ==> #[trigger] at(self.data@, a, b) == (if a < old_.n() && b < old_.n() { old_.c(a, b) } else if a == b && a < i { 0 } else { NEG() })
//@final
        proof { grown(old_.mat(), old_.n(), self.mat(), n as int); }
//@end
//@fn TimeGraph :: with_size
    pub fn with_size(size: u32) -> (r: TimeGraph)
        ensures r.minimal(), r.size == size, forall|i: int, j: int| 0 <= i < size && 0 <= j < size ==> #[trigger] at(r.data@, i, j) == (if i == j { 0 } else { NEG() })
//@end
//@fn TimeGraph :: reset
    pub fn reset(&mut self)
        requires old(self).wf()
        ensures final(self).minimal(), final(self).size == old(self).size, forall|i: int, j: int| 0 <= i < final(self).size && 0 <= j < final(self).size ==> #[trigger] at(final(self).data@, i, j) == (if i == j { 0 } else { NEG() })
//@rule self . data . fill ( $*a ) ==> vfill(&mut self.data, $*a)
//@rule ( $*a .. $*b ) . for_each ( | $i | { $*_x } ) ==> { let a_ = $*a; let e_ = $*b; let b_ = if e_ < a_ { a_ } else { e_ }; for $i in a_..b_ { $*_x } }
//@inv
            invariant a_ == 0, b_ == old(self).size, self.size == old(self).size, self.data@.len() == sq(self.n()), sized(self.data@, self.n()),
                forall|a: int, b: int| 0 <= a < self.n() && 0 <= b < self.n() ==> #[trigger] at(self.data@, a, b) == (if a == b && a < i { 0 } else { NEG() })
//@end
//@fn TimeGraph :: propagate_lower_bound
    pub fn propagate_lower_bound(&mut self, io: Instant, jo: Instant)
        requires old(self).wf(), ready(old(self).mat(), old(self).n(), io as int, jo as int), bounded(old(self).mat(), old(self).n(), 3 * B())
        ensures final(self).wf(), final(self).size == old(self).size,
            forall|i: int, j: int| 0 <= i < old(self).n() && 0 <= j < old(self).n() ==> #[trigger] at(final(self).data@, i, j) == relaxed(old(self).mat(), io as int, jo as int)(i, j),
            closed(final(self).mat(), final(self).n()), bounded(old(self).mat(), old(self).n(), B()) ==> bounded(final(self).mat(), final(self).n(), 3 * B()),
            forall|s: Dates| #![trigger final(self).fits(s)] #![trigger old(self).fits(s)] #![trigger fits(final(self).mat(), final(self).n(), s)] final(self).fits(s) <==> old(self).fits(s)
//@rule for $i in 0 .. self . size ( ) { ==> let n_ = self.size(); for $i in 0..n_ {
//@start
        let ghost c0 = self.mat();
        let ghost io_ = io as int;
        let ghost jo_ = jo as int;
        proof { assert(c0(io_, io_) == 0 && c0(jo_, jo_) == 0);
            assert forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() implies c0(i, j) == NEG() || -3 * B() <= #[trigger] at(self.data@, i, j) <= 3 * B() by { assert(c0(i, j) == self.c(i, j)); }
        }
//@inv
            invariant self.size == old(self).size, n_ == self.size, io < n_, jo < n_, io != jo, io_jo.0 == c0(io_, jo_), self.data@.len() == old(self).data@.len(), sized(self.data@, self.n()), ready(c0, self.n(), io_, jo_), bounded(c0, self.n(), 3 * B()), io_ == io, jo_ == jo,
                forall|a: int, b: int| 0 <= a < n_ && 0 <= b < n_ ==> #[trigger] at(self.data@, a, b) == (if b == jo_ && a < i && c0(a, io_) > NEG() && c0(a, io_) + c0(io_, jo_) > c0(a, jo_) { c0(a, io_) + c0(io_, jo_) } else { c0(a, b) })
//@inv
            invariant self.size == old(self).size, n_ == self.size, io < n_, jo < n_, io != jo, self.data@.len() == old(self).data@.len(), sized(self.data@, self.n()), ready(c0, self.n(), io_, jo_), bounded(c0, self.n(), 3 * B()), io_ == io, jo_ == jo,
                forall|a: int, b: int| 0 <= a < n_ && 0 <= b < n_ ==> #[trigger] at(self.data@, a, b) == (if b == jo_ || a < j { relaxed(c0, io_, jo_)(a, b) } else { c0(a, b) })
//@inv
            invariant self.size == old(self).size, n_ == self.size, j < n_, io < n_, jo < n_, io != jo, j_jo.0 == relaxed(c0, io_, jo_)(j as int, jo_), self.data@.len() == old(self).data@.len(), sized(self.data@, self.n()), ready(c0, self.n(), io_, jo_), bounded(c0, self.n(), 3 * B()), io_ == io, jo_ == jo,
                forall|a: int, b: int| 0 <= a < n_ && 0 <= b < n_ ==> #[trigger] at(self.data@, a, b) == (if b == jo_ || a < j || (a == j && b < i) { relaxed(c0, io_, jo_)(a, b) } else { c0(a, b) })
//@final
        proof {
            relaxed_closed(c0, self.n(), io_, jo_);
            assert forall|s: Dates| #[trigger] self.fits(s) <==> old(self).fits(s) by {
                relaxed_fits(c0, self.n(), io_, jo_, s);
                agree(relaxed(c0, io_, jo_), self.mat(), self.n(), s);
            }
            agree(relaxed(c0, io_, jo_), self.mat(), self.n(), |i: int| 0);
        }
//@end
//@fn TimeGraph :: propagate
    pub fn propagate<K: TimeConstraint>(&mut self, k: K) -> (r: TimePropagationResult)
        requires old(self).minimal(), bounded(old(self).mat(), old(self).n(), B()), okt(k.iv()), small(k.iv()), k.f() < u32::MAX, k.t() < u32::MAX
        ensures final(self).minimal(),
            r is Err ==> r == Err::<TimePropagation, TimeInconsistencyError>(TimeInconsistencyError::Recovered) && final(self).same(old(self)) && (forall|s: Dates| #[trigger] old(self).fits(s) ==> !meets(k.iv(), k.f() as int, k.t() as int, s)),
            r is Ok ==> final(self).n() == max2(old(self).n(), max2(k.f() as int, k.t() as int) + 1) && (forall|s: Dates| #[trigger] final(self).fits(s) <==> old(self).fits(s) && meets(k.iv(), k.f() as int, k.t() as int, s)),
            r == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Unchanged) <==> k.f() < old(self).n() && k.t() < old(self).n() && ne(k.iv()) && (forall|s: Dates| #[trigger] old(self).fits(s) ==> meets(k.iv(), k.f() as int, k.t() as int, s)),
            r == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Unchanged) ==> final(self).same(old(self))
        decreases (if k.f() < old(self).n() && k.t() < old(self).n() { 0int } else { 1 })
//@rule self . propagate_lower_bound ( $*a , $*b ) ==> { let a_ = $*a; let b_ = $*b; proof { put_step(g, self.mat(), self.n(), a_ as int, b_ as int); } TimeGraph::propagate_lower_bound(self, a_, b_) }
//@rule * self . lower_mut ( $*a ) = $*b ; ==> proof { g = self.mat(); } *self.lower_mut($*a) = $*b;
//@start
        let ghost mut g = self.mat();
        let ghost iv = k.iv();
        let ghost f = k.f() as int;
        let ghost t = k.t() as int;
        proof { implied(self, self.mat(), self.n(), iv, f, t); }
//@end
}
