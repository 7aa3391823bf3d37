//@include queries
// ---- path consistency of a whole matrix (C17) ----------------------------------------------------------------------------
/// the largest magnitude of the bounds of n instants for which the proofs show that no sum leaves the finite range
pub open spec fn BB(n: int) -> int { (M() - 1) / (2 * (n + 2)) }
pub open spec fn step(x: int, a: int, b: int) -> int { if a > NEG() && b > NEG() && a + b > x { a + b } else { x } }
/// the tightest bounds through intermediate instants below k (exact arithmetic)
pub open spec fn fw(e: Mat, k: int, i: int, j: int) -> int
    decreases k
{ if k <= 0 { e(i, j) } else { step(fw(e, k - 1, i, j), fw(e, k - 1, i, k - 1), fw(e, k - 1, k - 1, j)) } }
pub open spec fn level(e: Mat, k: int) -> Mat { |i: int, j: int| fw(e, k, i, j) }
/// no instant comes before itself
pub open spec fn sane(e: Mat, n: int, k: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] fw(e, k, i, i) == 0 }
pub open spec fn nonneg(e: Mat, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] e(i, i) >= 0 }
pub open spec fn passed(e: Mat, n: int, k: int) -> bool {
    forall|i: int, j: int, m: int| 0 <= i < n && 0 <= j < n && 0 <= m < k && #[trigger] fw(e, k, i, m) > NEG() && #[trigger] fw(e, k, m, j) > NEG() ==> fw(e, k, i, j) > NEG() && fw(e, k, i, j) >= fw(e, k, i, m) + fw(e, k, m, j)
}
pub open spec fn within_level(e: Mat, n: int, k: int, b: int) -> bool { forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] fw(e, k, i, j) == NEG() || -b <= fw(e, k, i, j) <= b }
/// the instants from which the bounds of level k start, seen from i
pub open spec fn src(e: Mat, n: int, k: int, i: int, a: int) -> bool { 0 <= a < n && (a == i || a < k) && fw(e, k, i, a) > NEG() }
pub open spec fn follows(e: Mat, n: int, k: int, i: int, t: Dates) -> bool { forall|a: int, b: int| #![trigger e(a, b)] src(e, n, k, i, a) && 0 <= b < n && e(a, b) > NEG() ==> t(b) - t(a) >= e(a, b) }
pub open spec fn sound(e: Mat, n: int, k: int) -> bool {
    forall|i: int, t: Dates, j: int| 0 <= i < n && 0 <= j < n && #[trigger] follows(e, n, k, i, t) && #[trigger] fw(e, k, i, j) > NEG() ==> t(j) - t(i) >= fw(e, k, i, j)
}
pub proof fn grows(e: Mat, k: int, i: int, j: int)
    requires k >= 0
    ensures fw(e, k + 1, i, j) >= fw(e, k, i, j) >= e(i, j)
    decreases k
{ if k > 0 { grows(e, k - 1, i, j); } }
pub proof fn sane_before(e: Mat, n: int, k: int)
    requires k > 0, sane(e, n, k), nonneg(e, n)
    ensures sane(e, n, k - 1)
{ assert forall|i: int| 0 <= i < n implies #[trigger] fw(e, k - 1, i, i) == 0 by { grows(e, k - 1, i, i); assert(fw(e, k, i, i) == 0); assert(e(i, i) >= 0); } }
/// dates of the constraints are dates of every level
pub proof fn level_fits(e: Mat, n: int, k: int, s: Dates)
    requires 0 <= k <= n
    ensures fits(e, n, s) <==> fits(level(e, k), n, s)
    decreases k
{
    let l = level(e, k);
    if k > 0 {
        level_fits(e, n, k - 1, s);
        let p = level(e, k - 1);
        if fits(p, n, s) {
            assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] l(i, j) > NEG() implies s(j) - s(i) >= l(i, j) by {
                if p(i, j) > NEG() {} if p(i, k - 1) > NEG() {} if p(k - 1, j) > NEG() {}
            }
        }
    } else { agree(e, l, n, s); }
    if fits(l, n, s) { assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] e(i, j) > NEG() implies s(j) - s(i) >= e(i, j) by { grows(e, k, i, j); assert(l(i, j) > NEG()); } }
}
/// among m + 1 windows of length b, one holds none of m points
pub proof fn gap_in(q: spec_fn(int) -> int, m: int, lo: int, b: int, w: Set<int>) -> (r: int)
    requires m >= 0, b >= 1, w.finite(), w.len() > m
    ensures w.contains(r), forall|a: int| 0 <= a < m ==> !(lo + r * b <= #[trigger] q(a) < lo + (r + 1) * b)
    decreases m
{
    if m == 0 { if w =~= Set::<int>::empty() { } w.choose() } else {
        let x = q(m - 1) - lo;
        let w0 = x / b;
        let r = gap_in(q, m - 1, lo, b, w.remove(w0));
        if lo + r * b <= q(m - 1) < lo + (r + 1) * b {
            assert(x / b == r) by (nonlinear_arith) requires r * b <= x < (r + 1) * b, b >= 1;
        }
        r
    }
}
pub proof fn gap(q: spec_fn(int) -> int, m: int, lo: int, b: int) -> (th: int)
    requires m >= 0, b >= 1
    ensures lo <= th, th + b <= lo + (m + 1) * b, forall|a: int| 0 <= a < m ==> !(th <= #[trigger] q(a) < th + b)
{
    let w = vstd::set_lib::set_int_range(0, m + 1);
    vstd::set_lib::lemma_int_range(0, m + 1);
    let r = gap_in(q, m, lo, b, w);
    assert(r * b >= 0) by (nonlinear_arith) requires r >= 0, b >= 1;
    assert((r + 1) * b == r * b + b) by (nonlinear_arith);
    assert((r + 1) * b <= (m + 1) * b) by (nonlinear_arith) requires r <= m, b >= 1;
    lo + r * b
}
/// the bounds of level k from i are dates which follow the constraints of its sources
pub proof fn row_follows(e: Mat, n: int, k: int, i: int, a: int, x: int)
    requires passed(e, n, k), 0 <= k <= n, 0 <= i < n, fw(e, k, i, i) == 0, src(e, n, k, i, a), 0 <= x < n, e(a, x) > NEG()
    ensures fw(e, k, i, x) > NEG(), fw(e, k, i, x) >= fw(e, k, i, a) + e(a, x)
{ grows(e, k, a, x); if a != i { assert(fw(e, k, i, a) > NEG() && fw(e, k, a, x) > NEG()); } }
pub proof fn level_bounds(e: Mat, n: int, k: int, b: int)
    requires passed(e, n, k), sound(e, n, k), sane(e, n, k), 0 <= k <= n, b >= 1, bounded(e, n, b), 2 * (n + 2) * b < M()
    ensures within_level(e, n, k, (k + 2) * b)
{
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fw(e, k, i, j) == NEG() || -((k + 2) * b) <= fw(e, k, i, j) <= (k + 2) * b by {
        let s = |x: int| fw(e, k, i, x);
        let q = |a: int| if a < k { fw(e, k, i, a) } else { 0int };
        assert(fw(e, k, i, i) == 0);
        assert((k + 2) * b >= b) by (nonlinear_arith) requires k >= 0, b >= 1;
        if s(j) > (k + 2) * b {
            let th = gap(q, k + 1, 1, b);
            let t = |x: int| if s(x) >= th + b { s(x) - 1 } else { s(x) };
            assert(follows(e, n, k, i, t)) by {
                assert forall|a: int, x: int| #![trigger e(a, x)] src(e, n, k, i, a) && 0 <= x < n && e(a, x) > NEG() implies t(x) - t(a) >= e(a, x) by {
                    row_follows(e, n, k, i, a, x);
                    if a < k { assert(q(a) == s(a)); } else { assert(q(k) == s(i)); }
                    assert(e(a, x) <= b);
                }
            }
            assert(t(j) - t(i) >= fw(e, k, i, j));
        }
        if s(j) > NEG() && s(j) < -((k + 2) * b) {
            let th = gap(q, k + 1, -((k + 2) * b), b);
            let t = |x: int| if s(x) < th { s(x) - 1 } else { s(x) };
            assert(follows(e, n, k, i, t)) by {
                assert forall|a: int, x: int| #![trigger e(a, x)] src(e, n, k, i, a) && 0 <= x < n && e(a, x) > NEG() implies t(x) - t(a) >= e(a, x) by {
                    row_follows(e, n, k, i, a, x);
                    if a < k { assert(q(a) == s(a)); } else { assert(q(k) == s(i)); }
                    assert(e(a, x) >= -b);
                }
            }
            assert(t(j) - t(i) >= fw(e, k, i, j));
        }
        grows(e, k, i, j); assert(e(i, j) == NEG() || e(i, j) >= -b); assert(b <= 2 * (n + 2) * b) by (nonlinear_arith) requires b >= 1, n >= 0;
    }
}
pub proof fn levels(e: Mat, n: int, k: int, b: int)
    requires bounded(e, n, b), nonneg(e, n), 0 <= k <= n, sane(e, n, k), b >= 1, 2 * (n + 2) * b < M()
    ensures passed(e, n, k), sound(e, n, k), within_level(e, n, k, (k + 2) * b)
    decreases k
{
    if k == 0 {
        assert forall|i: int, t: Dates, j: int| 0 <= i < n && 0 <= j < n && #[trigger] follows(e, n, k, i, t) && #[trigger] fw(e, k, i, j) > NEG() implies t(j) - t(i) >= fw(e, k, i, j) by {
            assert(fw(e, k, i, i) == 0);
            assert(src(e, n, k, i, i) && e(i, j) > NEG());
        }
    } else {
        let p = k - 1;
        sane_before(e, n, k);
        levels(e, n, p, b);
        assert(fw(e, p, p, p) == 0);
        assert(2 * ((p + 2) * b) <= 2 * (n + 2) * b) by (nonlinear_arith) requires p + 2 <= n + 2, b >= 1;
        assert forall|i: int, j: int, m: int| 0 <= i < n && 0 <= j < n && 0 <= m < k && #[trigger] fw(e, k, i, m) > NEG() && #[trigger] fw(e, k, m, j) > NEG() implies fw(e, k, i, j) > NEG() && fw(e, k, i, j) >= fw(e, k, i, m) + fw(e, k, m, j) by {
            assert(fw(e, p, i, p) == NEG() || -((p + 2) * b) <= fw(e, p, i, p));
            assert(fw(e, p, p, j) == NEG() || -((p + 2) * b) <= fw(e, p, p, j));
            if m < p {
                if fw(e, p, i, m) > NEG() && fw(e, p, m, j) > NEG() { }
                if fw(e, p, i, m) > NEG() && fw(e, p, m, p) > NEG() { assert(fw(e, p, i, p) >= fw(e, p, i, m) + fw(e, p, m, p)); }
                if fw(e, p, p, m) > NEG() && fw(e, p, m, j) > NEG() { assert(fw(e, p, p, j) >= fw(e, p, p, m) + fw(e, p, m, j)); }
                if fw(e, p, p, m) > NEG() && fw(e, p, m, p) > NEG() { assert(fw(e, p, p, p) >= fw(e, p, p, m) + fw(e, p, m, p)); }
            }
        }
        assert forall|i: int, t: Dates, j: int| 0 <= i < n && 0 <= j < n && #[trigger] follows(e, n, k, i, t) && #[trigger] fw(e, k, i, j) > NEG() implies t(j) - t(i) >= fw(e, k, i, j) by {
            assert(follows(e, n, p, i, t)) by {
                assert forall|a: int, x: int| #![trigger e(a, x)] src(e, n, p, i, a) && 0 <= x < n && e(a, x) > NEG() implies t(x) - t(a) >= e(a, x) by { grows(e, p, i, a); assert(src(e, n, k, i, a)); }
            }
            if fw(e, p, i, j) > NEG() { assert(t(j) - t(i) >= fw(e, p, i, j)); }
            if fw(e, p, i, p) > NEG() && fw(e, p, p, j) > NEG() {
                assert(follows(e, n, p, p, t)) by {
                    assert forall|a: int, x: int| #![trigger e(a, x)] src(e, n, p, p, a) && 0 <= x < n && e(a, x) > NEG() implies t(x) - t(a) >= e(a, x) by {
                        grows(e, p, i, a);
                        assert(fw(e, p, i, p) >= -((p + 2) * b));
                        assert(fw(e, p, p, a) >= -((p + 2) * b));
                        assert(fw(e, k, i, a) > NEG());
                        assert(src(e, n, k, i, a));
                    }
                }
                assert(t(p) - t(i) >= fw(e, p, i, p));
                assert(t(j) - t(p) >= fw(e, p, p, j));
            }
        }
        level_bounds(e, n, k, b);
    }
}
/// the last level is the minimal matrix
pub proof fn last_level(e: Mat, n: int, b: int)
    requires bounded(e, n, b), nonneg(e, n), 0 <= n, sane(e, n, n), b >= 1, 2 * (n + 2) * b < M()
    ensures closed(level(e, n), n), forall|s: Dates| #[trigger] fits(level(e, n), n, s) <==> fits(e, n, s)
{
    levels(e, n, n, b);
    let l = level(e, n);
    assert forall|i: int| 0 <= i < n implies #[trigger] l(i, i) == 0 by { assert(fw(e, n, i, i) == 0); }
    assert forall|s: Dates| #[trigger] fits(l, n, s) <==> fits(e, n, s) by { level_fits(e, n, n, s); }
}
pub proof fn BB_bound(n: int)
    requires 0 <= n <= 0xffff_ffff
    ensures BB(n) >= 1, 2 * (n + 2) * BB(n) < M(), n >= 1 ==> 6 * BB(n) < M()
{
    let d = 2 * (n + 2);
    assert(d * ((M() - 1) / d) <= M() - 1) by (nonlinear_arith) requires d >= 4;
    assert((M() - 1) / d >= 1) by (nonlinear_arith) requires 4 <= d <= 0x2_0000_0002;
    if n >= 1 { assert((M() - 1) / d <= (M() - 1) / 6) by (nonlinear_arith) requires d >= 6; }
}
/// what one step of the algorithm combines
pub open spec fn steps(e: Mat, n: int, k: int, l: int) -> bool {
    (!(k == 0 && e(0, 0) > 0) ==> fw(e, k, k, k) == 0)
    && (forall|i: int, j: int| 0 <= i < n && 0 <= j < n ==> #[trigger] fw(e, k, i, j) == NEG() || -l <= fw(e, k, i, j) <= l)
}
pub proof fn has_steps(e: Mat, n: int, k: int, b: int, l: int)
    requires bounded(e, n, b), nonneg(e, n), 0 <= k < n, k > 0 ==> sane(e, n, k), b >= 1, 2 * (n + 2) * b < M(), l == (n + 1) * b
    ensures steps(e, n, k, l), 2 * l < M()
{
    assert(2 * (n + 2) * b == 2 * l + 2 * b) by (nonlinear_arith) requires l == (n + 1) * b;
    if k > 0 { levels(e, n, k, b); assert(fw(e, k, k, k) == 0); assert((k + 2) * b <= (n + 1) * b) by (nonlinear_arith) requires k < n, b >= 1; }
    else { assert(b <= (n + 1) * b) by (nonlinear_arith) requires n >= 1, b >= 1; assert(e(0, 0) >= 0); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] fw(e, k, i, j) == NEG() || -l <= fw(e, k, i, j) <= l by { assert(e(i, j) == fw(e, k, i, j)); } }
}
/// with the bound of k to itself null, the row and the column of k do not change
pub proof fn same_step(e: Mat, k: int, i: int, j: int)
    requires k >= 0, fw(e, k, k, k) == 0
    ensures fw(e, k + 1, i, k) == fw(e, k, i, k), fw(e, k + 1, k, j) == fw(e, k, k, j), fw(e, k + 1, i, j) == step(fw(e, k, i, j), fw(e, k, i, k), fw(e, k, k, j))
{}
impl TimeGraph {
//@fn TimeGraph :: global_propagation
    fn global_propagation(&mut self) -> (r: TimePropagationResult)
        requires old(self).wf(), nonneg(old(self).mat(), old(self).n()), bounded(old(self).mat(), old(self).n(), BB(old(self).n()))
        ensures final(self).minimal(),
            r is Ok ==> r == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Propagated) && final(self).n() == old(self).n() && (forall|s: Dates| #[trigger] final(self).fits(s) <==> old(self).fits(s)),
            r is Err ==> r == Err::<TimePropagation, TimeInconsistencyError>(TimeInconsistencyError::Fatal) && final(self).n() == 0 && (forall|s: Dates| !#[trigger] old(self).fits(s)),
//@rule for $i in 0 .. self . size ( ) { ==> let n_ = self.size(); for $i in 0..n_ {
//@start
        let ghost e = self.mat();
        let ghost n = self.n();
        let ghost b = BB(n);
        let ghost l = (n + 1) * b;
        let ghost old_ = *self;
        proof { BB_bound(n); assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] at(self.data@, i, j) == NEG() || -b <= at(self.data@, i, j) <= b by { assert(e(i, j) == self.c(i, j)); } }
//@inv
            invariant *old(self) == old_, self.size == old_.size, n_ == self.size, n == self.n(), e == old_.mat(), b == BB(n), l == (n + 1) * b, b >= 1, 2 * (n + 2) * b < M(), n >= 1 ==> 6 * b < M(), self.data@.len() == sq(n), sized(self.data@, n), nonneg(e, n), bounded(e, n, b), k > 0 ==> sane(e, n, k as int),
                forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] at(self.data@, x, y) == fw(e, k as int, x, y)
//@inv
            invariant *old(self) == old_, self.size == old_.size, n_ == self.size, n == self.n(), e == old_.mat(), b == BB(n), l == (n + 1) * b, b >= 1, 2 * (n + 2) * b < M(), n >= 1 ==> 6 * b < M(), self.data@.len() == sq(n), sized(self.data@, n), nonneg(e, n), bounded(e, n, b), k > 0 ==> sane(e, n, k as int), 0 <= k < n, steps(e, n, k as int, l), 2 * l < M(),
                k == 0 && e(0, 0) > 0 ==> i == 0,
                forall|x: int| 0 <= x < i ==> #[trigger] fw(e, k + 1, x, x) == 0,
                forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] at(self.data@, x, y) == fw(e, (if x < i { k + 1 } else { k as int }), x, y)
//@inv
            invariant *old(self) == old_, self.size == old_.size, n_ == self.size, n == self.n(), e == old_.mat(), b == BB(n), l == (n + 1) * b, b >= 1, 2 * (n + 2) * b < M(), n >= 1 ==> 6 * b < M(), self.data@.len() == sq(n), sized(self.data@, n), nonneg(e, n), bounded(e, n, b), k > 0 ==> sane(e, n, k as int), 0 <= k < n, 0 <= i < n, steps(e, n, k as int, l), 2 * l < M(),
                k == 0 && e(0, 0) > 0 ==> i == 0 && (forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] at(self.data@, x, y) == NEG() || -b <= at(self.data@, x, y) <= (if x == 0 && y < j { 3 * b } else { b })) && 0 < at(self.data@, 0, 0) <= 2 * b,
                !(k == 0 && e(0, 0) > 0) ==> forall|x: int, y: int| 0 <= x < n && 0 <= y < n ==> #[trigger] at(self.data@, x, y) == fw(e, (if x < i || (x == i && y < j) { k + 1 } else { k as int }), x, y)
//@before 2 let n_ =
        proof { has_steps(e, n, k as int, b, l); }
//@before 1 let val
        proof {
            if !(k == 0 && e(0, 0) > 0) { same_step(e, k as int, i as int, j as int); grows(e, k as int, i as int, j as int);
                assert(at(self.data@, i as int, k as int) == fw(e, k as int, i as int, k as int));
                assert(at(self.data@, k as int, j as int) == fw(e, k as int, k as int, j as int));
                assert(at(self.data@, i as int, j as int) == fw(e, k as int, i as int, j as int)); }
            else { assert(at(self.data@, 0, j as int) >= NEG()); }
        }
//@before if { self . lower ( i , i )
        proof { grows(e, k + 1, i as int, i as int); assert(e(i as int, i as int) >= 0); assert(at(self.data@, i as int, i as int) >= 0 || true); }
//@before Ok (
        proof {
            assert(sane(e, n, n)) by { if n == 0 { } }
            levels(e, n, n, b); last_level(e, n, b);
            let v = level(e, n);
            assert forall|s: Dates| #[trigger] self.fits(s) <==> old_.fits(s) by { agree(v, self.mat(), n, s); assert(fits(v, n, s) <==> fits(e, n, s)); }
            agree(v, self.mat(), n, |i: int| 0);
            assert((n + 2) * b < M()) by (nonlinear_arith) requires 2 * (n + 2) * b < M(), n >= 0, b >= 1;
            assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies NEG() <= #[trigger] at(self.data@, i, j) < M() by { assert(fw(e, n, i, j) == at(self.data@, i, j)); grows(e, n, i, j); assert(e(i, j) == NEG() || e(i, j) >= -b); }
        }
//@after self . data . clear ( ) ;
        proof { assert(sq(0) == 0); assert(self.data@.len() == 0); assert(self.wf()); assert(closed(self.mat(), 0)); }
//@before self . size = 0
        proof {
            if k == 0 && e(0, 0) > 0 { assert forall|s: Dates| !#[trigger] old_.fits(s) by { if old_.fits(s) { assert(s(0) - s(0) >= e(0, 0)); } } }
            else { assert(at(self.data@, i as int, i as int) == fw(e, k + 1, i as int, i as int));
                assert forall|s: Dates| !#[trigger] old_.fits(s) by { level_fits(e, n, k + 1, s); let l = level(e, k + 1); if old_.fits(s) { assert(l(i as int, i as int) > NEG()); } } }
        }
//@end
}
// ---- merging graphs and adding lists of constraints (C17) ------------------------------------------------------------------
/// the magnitude of the bounds allowed for both the incremental and the bulk propagations up to n instants
pub open spec fn BC(n: int) -> int { if BB(n) < B() { BB(n) } else { B() } }
pub proof fn BB_order(m: int, n: int)
    requires 0 <= m <= n <= 0xffff_ffff
    ensures BB(n) <= BB(m), BC(n) <= BC(m), 1 <= BC(n) <= B(), BC(n) <= BB(m)
{
    BB_bound(n);
    let (x, y) = (2 * (m + 2), 2 * (n + 2));
    assert((M() - 1) / y <= (M() - 1) / x) by (nonlinear_arith) requires 4 <= x <= y;
}
pub proof fn narrower(c: Mat, n: int, a: int, b: int)
    requires bounded(c, n, a), a <= b
    ensures bounded(c, n, b)
{ assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] c(i, j) == NEG() || -b <= c(i, j) <= b by {} }
pub proof fn ix_onto(z: int, n: int) -> (p: (int, int))
    requires 0 <= z < sq(n), 0 <= n
    ensures 0 <= p.0 < n, 0 <= p.1 < n, ix(p.0, p.1) == z
    decreases n
{
    let m = n - 1;
    if n == 0 { assert(n * n == 0) by (nonlinear_arith) requires n == 0; (0, 0) } else if z < sq(m) { ix_onto(z, m) } else {
        reveal(ix);
        let r = z - m * m;
        assert(n * n == m * m + 2 * m + 1) by (nonlinear_arith) requires m == n - 1;
        assert(m * (m + 2) == m * m + 2 * m) by (nonlinear_arith);
        if r <= m { (m, r) } else { (2 * m - r, m) }
    }
}
/// the cells of d which lie in the m first instants added to those of c
pub open spec fn both(c: Mat, m: int, d: Mat) -> Mat { |i: int, j: int| if i < m && j < m && d(i, j) > c(i, j) { d(i, j) } else { c(i, j) } }
pub proof fn both_fits(c: Mat, n: int, d: Mat, m: int, s: Dates)
    requires 0 <= m <= n
    ensures fits(both(c, m, d), n, s) ==> fits(c, n, s), fits(both(c, m, d), n, s) && (forall|i: int, j: int| 0 <= i < m && 0 <= j < m ==> #[trigger] d(i, j) >= NEG()) ==> fits(d, m, s), fits(c, n, s) && fits(d, m, s) ==> fits(both(c, m, d), n, s)
{
    let e = both(c, m, d);
    if fits(e, n, s) {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] c(i, j) > NEG() implies s(j) - s(i) >= c(i, j) by { assert(e(i, j) >= c(i, j)); }
        assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m && #[trigger] d(i, j) > NEG() implies s(j) - s(i) >= d(i, j) by { assert(e(i, j) >= d(i, j)); }
    }
    if fits(c, n, s) && fits(d, m, s) {
        assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n && #[trigger] e(i, j) > NEG() implies s(j) - s(i) >= e(i, j) by { if i < m && j < m { if d(i, j) > NEG() {} } if c(i, j) > NEG() {} }
    }
}
pub proof fn sq_order(m: int, n: int)
    requires 0 <= m <= n
    ensures sq(m) <= sq(n)
{ assert(m * m <= n * n) by (nonlinear_arith) requires 0 <= m <= n; }
impl TimeGraph {
    /// what makes sure that no sum leaves the finite range with n instants
    pub open spec fn modest(&self, n: int) -> bool { bounded(self.mat(), self.n(), BC(n)) }
//@fn TimeGraph :: merge
    pub fn merge(&mut self, mut graph: TimeGraph) -> (r: TimePropagationResult)
        requires old(self).minimal(), graph.minimal(), old(self).modest(max2(old(self).n(), graph.n())), graph.modest(max2(old(self).n(), graph.n()))
        ensures final(self).minimal(),
            r is Ok ==> final(self).n() == max2(old(self).n(), graph.n()) && (forall|s: Dates| #[trigger] final(self).fits(s) <==> old(self).fits(s) && graph.fits(s)),
            r is Err ==> r == Err::<TimePropagation, TimeInconsistencyError>(TimeInconsistencyError::Fatal) && final(self).n() == 0 && (forall|s: Dates| #[trigger] old(self).fits(s) ==> !graph.fits(s)),
            r == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Unchanged) ==> final(self).same(old(self)),
            r == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Unchanged) <==> graph.n() <= old(self).n() && (forall|s: Dates| #[trigger] old(self).fits(s) ==> graph.fits(s))
//@rule self . data . iter_mut ( ) . zip ( $*g ) . for_each ( | ( $a , $b ) | $*x ) ; ==> let other_ = $*g; let mut z_: usize = 0; while z_ < self.data.len() && z_ < other_.len() { let $a = &mut self.data[z_]; let $b = other_[z_]; $*x z_ = z_ + 1; }
//@before 1 let other_
        let ghost a0 = *self;
        let ghost g0 = graph;
        let ghost a1 = *old(self);
        let ghost g1 = graph_;
        proof { assert(swapped ==> a0 == g1 && g0 == a1); assert(!swapped ==> a0 == a1 && g0 == g1); sq_order(g0.n(), a0.n()); }
//@inv
            invariant *old(self) == a1, self.size == a0.size, self.data@.len() == a0.data@.len(), other_@ == g0.data@, z_ <= self.data@.len(), z_ <= other_@.len(),
                forall|k: int| 0 <= k < self.data@.len() ==> #[trigger] self.data@[k].0 == (if k < z_ && other_@[k].0 > a0.data@[k].0 { other_@[k].0 } else { a0.data@[k].0 }),
                change ==> exists|k: int| 0 <= k < z_ && #[trigger] other_@[k].0 > a0.data@[k].0,
                !change ==> forall|k: int| 0 <= k < z_ ==> other_@[k].0 <= a0.data@[k].0
            decreases self.data@.len() - z_
//@before if change
        let ghost n = a0.n();
        let ghost m = g0.n();
        let ghost e = self.mat();
        proof {
            let c = a0.mat();
            let d = g0.mat();
            assert(z_ == g0.data@.len());
            is_sized(self.data@, n);
            assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] at(self.data@, i, j) == both(c, m, d)(i, j) by {
                assert(0 <= ix(i, j) < self.data@.len());
                if i < m && j < m { assert(0 <= ix(i, j) < g0.data@.len()); } else { ix_out(i, j, m); }
            }
            assert forall|i: int, j: int| 0 <= i < m && 0 <= j < m implies #[trigger] d(i, j) >= NEG() by { assert(at(g0.data@, i, j) >= NEG()); }
            assert forall|s: Dates| #![trigger self.fits(s)] #![trigger a1.fits(s)] self.fits(s) <==> a1.fits(s) && g1.fits(s) by { both_fits(c, n, d, m, s); agree(both(c, m, d), e, n, s); assert(self.fits(s) == fits(e, n, s)); }
            assert(n <= 0xffff_ffff);
            BB_order(n, n);
            assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] e(i, j) == NEG() || -BB(n) <= e(i, j) <= BB(n) by {
                assert(e(i, j) == at(self.data@, i, j)); assert(c(i, j) == NEG() || -BC(n) <= c(i, j) <= BC(n));
                if i < m && j < m { assert(d(i, j) == NEG() || -BC(n) <= d(i, j) <= BC(n)); }
            }
            assert forall|i: int| 0 <= i < n implies #[trigger] e(i, i) >= 0 by { assert(e(i, i) == at(self.data@, i, i)); assert(c(i, i) == 0); }
            if change {
                let k = choose|k: int| 0 <= k < z_ && #[trigger] other_@[k].0 > a0.data@[k].0;
                let p = ix_onto(k, m);
                assert(d(p.0, p.1) > c(p.0, p.1));
                narrower(c, n, BC(n), M());
                let s = tight(c, n, p.0, p.1, d(p.0, p.1));
                assert(a0.fits(s) && !g0.fits(s)) by { if g0.fits(s) { assert(c(p.0, p.1) == at(a0.data@, p.0, p.1)); assert(d(p.0, p.1) > NEG()); } }
            } else {
                assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] at(self.data@, i, j) == c(i, j) by { assert(0 <= ix(i, j) < self.data@.len()); }
                agree(c, e, n, |i: int| 0);
                assert forall|s: Dates| #[trigger] a0.fits(s) implies g0.fits(s) by { both_fits(c, n, d, m, s); agree(c, both(c, m, d), n, s); }
            }
        }
//@start
        let ghost graph_ = graph;
//@end
}
/// the constraints which an iterator gives, one after the other; the announced number of items is a bound of theirs
pub trait Items<K>: Sized {
    spec fn seq(&self) -> Seq<K>;
    fn next(&mut self) -> (r: Option<K>)
        ensures r is None <==> old(self).seq().len() == 0, r is None ==> final(self).seq() == old(self).seq(), r is Some ==> r.unwrap() == old(self).seq()[0] && final(self).seq() == old(self).seq().skip(1);
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        ensures r.1 is Some ==> self.seq().len() <= r.1.unwrap();
}
/// the dates satisfy all the constraints of a list
/// an empty constraint is never satisfied
pub proof fn none_meets<K: TimeConstraint>(q: Seq<K>, k: int)
    requires 0 <= k < q.len(), em(q[k].iv())
    ensures forall|s: Dates| !#[trigger] all_meet(q, s)
{ assert forall|s: Dates| !#[trigger] all_meet(q, s) by { if all_meet(q, s) { assert(held(q[k], s)); } } }
pub open spec fn held<K: TimeConstraint>(k: K, s: Dates) -> bool { meets(k.iv(), k.f() as int, k.t() as int, s) && ne(k.iv()) }
pub open spec fn all_meet<K: TimeConstraint>(q: Seq<K>, s: Dates) -> bool { forall|k: int| 0 <= k < q.len() ==> held(#[trigger] q[k], s) }
/// instants of a graph of n instants after adding a list of constraints
pub open spec fn span<K: TimeConstraint>(n: int, q: Seq<K>) -> int
    decreases q.len()
{ if q.len() == 0 { n } else { max2(span(n, q.drop_last()), max2(q.last().f() as int, q.last().t() as int) + 1) } }
pub proof fn span_order<K: TimeConstraint>(n: int, q: Seq<K>, m: int)
    requires 0 <= m <= q.len()
    ensures n <= span(n, q.take(m)) <= span(n, q), forall|k: int| 0 <= k < m ==> #[trigger] q[k].f() < span(n, q) && q[k].t() < span(n, q)
    decreases q.len()
{
    if q.len() > 0 {
        if m < q.len() { span_order(n, q.drop_last(), m); assert(q.drop_last().take(m) =~= q.take(m)); assert forall|k: int| 0 <= k < m implies #[trigger] q[k].f() < span(n, q) && q[k].t() < span(n, q) by { assert(q.drop_last()[k] == q[k]); } }
        else { assert(q.take(m) =~= q); span_order(n, q.drop_last(), m - 1); assert forall|k: int| 0 <= k < m implies #[trigger] q[k].f() < span(n, q) && q[k].t() < span(n, q) by { if k < m - 1 { assert(q.drop_last()[k] == q[k]); } } }
    } else { assert(q.take(m) =~= q); }
}
pub open spec fn modest<K: TimeConstraint>(k: K, n: int) -> bool { okt(k.iv()) && k.f() < u32::MAX && k.t() < u32::MAX && (isinf(k.iv().lower.0 as int) || -BC(n) <= k.iv().lower.0 <= BC(n)) && (isinf(k.iv().upper.0 as int) || -BC(n) <= k.iv().upper.0 <= BC(n)) }
pub proof fn spans<K: TimeConstraint>(n: int, q: Seq<K>)
    requires 0 <= n <= u32::MAX, forall|k: int| 0 <= k < q.len() ==> #[trigger] q[k].f() < u32::MAX && q[k].t() < u32::MAX
    ensures n <= span(n, q) <= u32::MAX
    decreases q.len()
{ if q.len() > 0 { assert(q.last() == q[q.len() - 1]); assert forall|k: int| 0 <= k < q.len() - 1 implies #[trigger] q.drop_last()[k].f() < u32::MAX && q.drop_last()[k].t() < u32::MAX by { assert(q[k].f() < u32::MAX); } spans(n, q.drop_last()); } }
/// one more constraint of a list
pub proof fn more<K: TimeConstraint>(q: Seq<K>, m: int, k: K, n: int)
    requires 0 <= m < q.len(), k == q[m]
    ensures q.skip(m)[0] == k, q.skip(m).skip(1) == q.skip(m + 1), span(n, q.take(m + 1)) == max2(span(n, q.take(m)), max2(k.f() as int, k.t() as int) + 1), span(n, q.take(m + 1)) <= span(n, q),
        forall|s: Dates| #[trigger] all_meet(q.take(m + 1), s) <==> all_meet(q.take(m), s) && meets(k.iv(), k.f() as int, k.t() as int, s) && ne(k.iv())
{
    let (p, r) = (q.take(m), q.take(m + 1));
    assert(q.skip(m).skip(1) =~= q.skip(m + 1));
    assert(r.drop_last() =~= p);
    assert(r.last() == k);
    span_order(n, q, m + 1);
    assert forall|s: Dates| #[trigger] all_meet(r, s) <==> all_meet(p, s) && meets(k.iv(), k.f() as int, k.t() as int, s) && ne(k.iv()) by {
        if all_meet(r, s) { assert(held(r[m], s)); assert forall|x: int| 0 <= x < p.len() implies held(#[trigger] p[x], s) by { assert(held(r[x], s)); } }
        if all_meet(p, s) && held(k, s) { assert forall|x: int| 0 <= x < r.len() implies held(#[trigger] r[x], s) by { if x < m { assert(held(p[x], s)); } else { assert(r[x] == k); } } }
    }
}
/// a bound raised at (f,t)
pub proof fn raised(c: Mat, n: int, d: Mat, f: int, t: int, x: int, b: int)
    requires 0 <= f < n, 0 <= t < n, x == NEG() || -b <= x <= b, bounded(c, n, b), 0 <= b < M(), nonneg(c, n), d(f, t) == (if c(f, t) < x { x } else { c(f, t) }),
        forall|i: int, j: int| 0 <= i < n && 0 <= j < n && !(i == f && j == t) ==> #[trigger] d(i, j) == c(i, j)
    ensures bounded(d, n, b), nonneg(d, n), forall|s: Dates| #[trigger] fits(d, n, s) <==> fits(c, n, s) && (x > NEG() ==> s(t) - s(f) >= x)
{
    assert(c(f, t) == NEG() || -b <= c(f, t) <= b);
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] d(i, j) == NEG() || -b <= d(i, j) <= b by { assert(c(i, j) == NEG() || -b <= c(i, j) <= b); }
    assert forall|i: int| 0 <= i < n implies #[trigger] d(i, i) >= 0 by { assert(c(i, i) >= 0); }
    assert forall|s: Dates| #[trigger] fits(d, n, s) <==> fits(c, n, s) && (x > NEG() ==> s(t) - s(f) >= x) by {
        if c(f, t) < x { put_fits(c, n, f, t, x, s); agree(put(c, f, t, x), d, n, s); }
        else { agree(c, d, n, s); if fits(c, n, s) && x > NEG() { assert(s(t) - s(f) >= c(f, t)); } }
    }
}
impl TimeGraph {
    pub proof fn holds(&self, b: int)
        requires self.data@.len() == sq(self.n()), sized(self.data@, self.n()), bounded(self.mat(), self.n(), b), b < M()
        ensures self.wf()
    { let c = self.mat(); assert forall|i: int, j: int| 0 <= i < self.n() && 0 <= j < self.n() implies NEG() <= #[trigger] at(self.data@, i, j) < M() by { assert(c(i, j) == NEG() || -b <= c(i, j) <= b); } }
//@fn TimeGraph :: extend
    pub fn extend<I: Items<K>, K: TimeConstraint>(&mut self, iter: I) -> (r: TimePropagationResult)
        requires old(self).minimal(), old(self).modest(span(old(self).n(), iter.seq())), forall|k: int| 0 <= k < iter.seq().len() ==> modest(#[trigger] iter.seq()[k], span(old(self).n(), iter.seq()))
        ensures final(self).minimal(),
            r is Ok ==> final(self).n() == span(old(self).n(), iter.seq()) && (forall|s: Dates| #[trigger] final(self).fits(s) <==> old(self).fits(s) && all_meet(iter.seq(), s)),
            r is Err ==> (forall|s: Dates| #[trigger] old(self).fits(s) ==> !all_meet(iter.seq(), s)),
            r == Err::<TimePropagation, TimeInconsistencyError>(TimeInconsistencyError::Fatal) ==> final(self).n() == 0,
            r == Err::<TimePropagation, TimeInconsistencyError>(TimeInconsistencyError::Recovered) ==> final(self).same(old(self)),
            r == Ok::<TimePropagation, TimeInconsistencyError>(TimePropagation::Unchanged) ==> final(self).same(old(self))
//@rule . into_iter ( ) ==>
//@rule $i . for_each ( | $k | { $*_x } ) ; ==> loop { let ghost g_ = *self; match $i.next() { None => { break; } Some($k) => { proof { more(q, m, $k, n0); if ne($k.iv()) {} m = m + 1; } $*_x proof { let (c, e) = (g2.mat(), self.mat()); assert forall|x: int, y: int| 0 <= x < self.n() && 0 <= y < self.n() && !(x == t_ && y == f_) implies #[trigger] e(x, y) == c(x, y) by { assert(e(x, y) == at(self.data@, x, y)); } raised(c, self.n(), e, t_, f_, -u_, b); self.holds(b); if consistent == true { assert(self.n() == span(n0, q.take(m))); assert forall|s: Dates| #[trigger] self.fits(s) <==> a.fits(s) && all_meet(q.take(m), s) by { assert(self.fits(s) <==> g2.fits(s) && (-u_ > NEG() ==> s(f_) - s(t_) >= -u_)); assert(g2.fits(s) <==> g1.fits(s) && (l_ > NEG() ==> s(t_) - s(f_) >= l_)); assert(g1.fits(s) <==> g_.fits(s)); assert(all_meet(q.take(m), s) <==> all_meet(q.take(m - 1), s) && meets(k.iv(), f_, t_, s)); } } } } } }
//@rule return ; ==> continue;
//@rule Some ( $k ) => self . propagate ( $k ) ==> Some($k) => { proof { more(q, 0, $k, n0); assert(q.take(1) =~= q); } self.propagate($k) }
//@start
        let ghost a = *self;
        let ghost q = iter.seq();
        let ghost n0 = self.n();
        let ghost nn = span(n0, q);
        let ghost b = BC(nn);
        let ghost mut m: int = 0;
        proof { span_order(n0, q, 0); spans(n0, q); assert(q.take(0) =~= Seq::<K>::empty()); assert(q.skip(0) =~= q); BB_order(n0, nn);
            narrower(self.mat(), n0, b, B());
            assert(nonneg(self.mat(), n0)) by { let c = self.mat(); assert forall|i: int| 0 <= i < n0 implies #[trigger] c(i, i) >= 0 by { assert(c(i, i) == 0); } } }
//@inv
            invariant *old(self) == a, 0 <= m <= q.len(), iter.seq() == q.skip(m), nn == span(n0, q), b == BC(nn), nn <= u32::MAX, forall|k: int| 0 <= k < q.len() ==> modest(#[trigger] q[k], nn),
                self.wf(), bounded(self.mat(), self.n(), b), nonneg(self.mat(), self.n()), n0 <= self.n() <= nn, a.n() == n0, 1 <= b <= B(),
                consistent ==> self.n() == span(n0, q.take(m)) && forall|s: Dates| #![trigger self.fits(s)] #![trigger a.fits(s)] self.fits(s) <==> a.fits(s) && all_meet(q.take(m), s),
                !consistent ==> exists|k: int| 0 <= k < m && em(#[trigger] q[k].iv())
            ensures m == q.len()
            decreases q.len() - m
//@before let lower
        let ghost g1 = *self;
        let ghost (f_, t_, l_, u_) = (k.f() as int, k.t() as int, k.iv().lower.0 as int, k.iv().upper.0 as int);
        proof { let (c, e) = (g_.mat(), g1.mat());
            assert forall|x: int| 0 <= x < g1.n() implies #[trigger] e(x, x) >= 0 by { assert(e(x, x) == at(g1.data@, x, x)); if x < g_.n() { assert(c(x, x) >= 0); } } }
//@before let upper
        let ghost g2 = *self;
        proof { let (c, e) = (g1.mat(), g2.mat());
            assert forall|x: int, y: int| 0 <= x < g2.n() && 0 <= y < g2.n() && !(x == f_ && y == t_) implies #[trigger] e(x, y) == c(x, y) by { assert(e(x, y) == at(g2.data@, x, y)); }
            raised(c, g2.n(), e, f_, t_, l_, b); }
//@before self . resize ( 0
        proof { let k = choose|k: int| 0 <= k < m && em(#[trigger] q[k].iv()); none_meets(q, k); }
//@before if consistent { self . global_propagation
        proof { assert(q.take(m) =~= q || !(m == q.len())); BB_order(self.n(), nn); narrower(self.mat(), self.n(), b, BB(self.n())); }
//@end
//@fn FromIterator<K>for TimeGraph :: from_iter
    pub fn from_iter<I: Items<K>, K: TimeConstraint>(iter: I) -> (r: TimeGraph)
        requires forall|k: int| 0 <= k < iter.seq().len() ==> modest(#[trigger] iter.seq()[k], span(0, iter.seq()))
        ensures r.minimal(), r.n() == span(0, iter.seq()), forall|s: Dates| #[trigger] r.fits(s) <==> all_meet(iter.seq(), s)
//@rule . expect ( $*a ) ==> .or_panic()
//@end
//@fn Extend<K>for TimeGraph :: extend as extend_trait
    pub fn extend_trait<I: Items<K>, K: TimeConstraint>(&mut self, iter: I)
        requires old(self).minimal(), old(self).modest(span(old(self).n(), iter.seq())), forall|k: int| 0 <= k < iter.seq().len() ==> modest(#[trigger] iter.seq()[k], span(old(self).n(), iter.seq()))
        ensures final(self).minimal(), final(self).n() == span(old(self).n(), iter.seq()), forall|s: Dates| #[trigger] final(self).fits(s) <==> old(self).fits(s) && all_meet(iter.seq(), s)
//@rule . expect ( $*a ) ==> .or_panic()
//@end
}
/// `Result::expect`: a return shows a success, an error panics (it is not an obligation that it succeeds)
pub trait OrPanic { spec fn good(&self) -> bool; fn or_panic(self) where Self: Sized ensures self.good(); }
impl OrPanic for TimePropagationResult {
    open spec fn good(&self) -> bool { self is Ok }
    #[verifier::external_body]
    fn or_panic(self) { self.ok().unwrap(); }
}
/// two minimal graphs of the same dates hold the same constraints, however they were built
pub proof fn one_minimal(g: &TimeGraph, h: &TimeGraph)
    requires g.minimal(), h.minimal(), g.size == h.size, forall|s: Dates| #[trigger] g.fits(s) <==> h.fits(s)
    ensures g.same(h)
{
    let n = g.n();
    let (c, d) = (g.mat(), h.mat());
    assert(bounded(c, n, M())) by { assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] c(a, b) == NEG() || -M() <= c(a, b) <= M() by { assert(NEG() <= at(g.data@, a, b) < M()); } }
    assert(bounded(d, n, M())) by { assert forall|a: int, b: int| 0 <= a < n && 0 <= b < n implies #[trigger] d(a, b) == NEG() || -M() <= d(a, b) <= M() by { assert(NEG() <= at(h.data@, a, b) < M()); } }
    assert forall|i: int, j: int| 0 <= i < n && 0 <= j < n implies #[trigger] at(g.data@, i, j) == h.c(i, j) by {
        assert(at(h.data@, i, j) >= NEG());
        if c(i, j) < d(i, j) { let s = tight(c, n, i, j, d(i, j)); assert(g.fits(s)); assert(h.fits(s)); }
        if d(i, j) < c(i, j) { let s = tight(d, n, i, j, c(i, j)); assert(h.fits(s)); assert(g.fits(s)); }
    }
}
