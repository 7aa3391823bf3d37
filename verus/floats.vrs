//@include scale
// ---- scaling by a floating point factor (C24) ----------------------------------------------------------------------------------
// The floating point types are replaced by wrappers whose operators carry the rules of IEEE 754 as assumed contracts: the exact
// result of an operation is rounded by `rnd(w, .)` (w: bits of the mantissa), of which only what follows is assumed.
/// rounding to the nearest representable number (a number too large gives an infinity, whose value lies beyond all the finite ones)
pub uninterp spec fn rnd(w: int, x: real) -> real;
/// the finite numbers lie strictly between -top(w) and top(w)
pub uninterp spec fn top(w: int) -> real;
pub open spec fn unit(w: int) -> real { if w == 24 { 1real / 16777216real } else { 1real / 9007199254740992real } }
pub open spec fn tiny() -> real { 1real / 1267650600228229401496703205376real }
pub open spec fn absr(x: real) -> real { if x < 0real { -x } else { x } }
#[verifier::external_body]
pub proof fn ieee_order(w: int, a: real, b: real) requires w == 24 || w == 53 ensures a <= b ==> rnd(w, a) <= rnd(w, b) {}
#[verifier::external_body]
pub proof fn ieee_near(w: int, x: real) requires w == 24 || w == 53, absr(x) <= 1267650600228229401496703205376real ensures absr(rnd(w, x) - x) <= absr(x) * unit(w) + tiny() {}
#[verifier::external_body]
pub proof fn ieee_exact(w: int) requires w == 24 || w == 53
    ensures rnd(w, 0real) == 0real, rnd(w, 1real) == 1real, rnd(w, 9223372036854775807real) == 9223372036854775808real, rnd(w, -9223372036854775807real) == -9223372036854775808real,
        rnd(w, 9223372036854775808real) == 9223372036854775808real, rnd(w, -9223372036854775808real) == -9223372036854775808real, top(w) > 1267650600228229401496703205376real {}
/// product and quotient of reals (hidden from the solver where they are only rounded)
#[verifier::opaque] pub open spec fn rmul(a: real, b: real) -> real { a * b }
#[verifier::opaque] pub open spec fn rdiv(a: real, b: real) -> real { a / b }
/// truncation toward zero
pub open spec fn tr(x: real) -> int { if x >= 0real { x.floor() } else { -((-x).floor()) } }
pub open spec fn clip(x: int) -> int { if x > i64::MAX { i64::MAX as int } else if x < i64::MIN { i64::MIN as int } else { x } }
/// the rounded product of a finite number of ticks
pub open spec fn fprod(w: int, a: int, x: real) -> real { rnd(w, rmul(rnd(w, a as real), x)) }
/// an infinite duration stays infinite, a finite one gives the rounded product, truncated
pub open spec fn fmul(w: int, a: int, x: real) -> int { if isinf(a) { if x > 0real { a } else if x < 0real { -a } else { 0 } } else { sat(tr(fprod(w, a, x))) } }
pub open spec fn inv(w: int, x: real) -> real { rnd(w, rdiv(1real, x)) }
pub open spec fn finr(w: int, x: real) -> bool { -top(w) < x < top(w) }
pub open spec fn fmulv(w: int, t: TimeValue, x: real) -> TimeValue { TimeValue(fmul(w, t.0 as int, x) as i64) }
//@for T W in F32:24 F64:53
#[verifier::external_body] #[derive(Copy, Clone)] pub struct %T%(f64);
impl %T% {
    pub uninterp spec fn v(self) -> real;
    pub uninterp spec fn nan(self) -> bool;
    /// a finite number
    pub open spec fn fin(self) -> bool { !self.nan() && finr(%W%, self.v()) }
    /// `i as f`
    #[verifier::external_body] pub fn of(i: i64) -> (r: %T%) ensures r.fin(), r.v() == rnd(%W%, i as real) { unimplemented!() }
    /// `f as i64`
    #[verifier::external_body] pub fn to(self) -> (r: i64) requires !self.nan() ensures r == clip(tr(self.v())) { unimplemented!() }
    #[verifier::external_body] pub fn zero() -> (r: %T%) ensures r.fin(), r.v() == 0real { unimplemented!() }
    #[verifier::external_body] pub fn one() -> (r: %T%) ensures r.fin(), r.v() == 1real { unimplemented!() }
    #[verifier::external_body] pub fn abs(self) -> (r: %T%) requires !self.nan() ensures !r.nan(), r.v() == absr(self.v()) { unimplemented!() }
}
pub uninterp spec fn neg_%T%(a: %T%) -> %T%;
pub uninterp spec fn mul_%T%(a: %T%, b: %T%) -> %T%;
pub uninterp spec fn div_%T%(a: %T%, b: %T%) -> %T%;
#[verifier::external_body]
pub proof fn ieee_%T%(a: %T%, b: %T%)
    ensures a.fin() && b.fin() ==> !mul_%T%(a, b).nan() && mul_%T%(a, b).v() == rnd(%W%, rmul(a.v(), b.v())), a.fin() && b.fin() && b.v() != 0real ==> !div_%T%(a, b).nan() && div_%T%(a, b).v() == rnd(%W%, rdiv(a.v(), b.v())), a.fin() ==> neg_%T%(a).fin() && neg_%T%(a).v() == -a.v() {}
impl MulSpecImpl<%T%> for %T% { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, n: %T%) -> bool { self.fin() && n.fin() } open spec fn mul_spec(self, n: %T%) -> %T% { mul_%T%(self, n) } }
impl Mul<%T%> for %T% { type Output = %T%; #[verifier::external_body] fn mul(self, n: %T%) -> (r: %T%) { unimplemented!() } }
impl DivSpecImpl<%T%> for %T% { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, n: %T%) -> bool { self.fin() && n.fin() && n.v() != 0real } open spec fn div_spec(self, n: %T%) -> %T% { div_%T%(self, n) } }
impl Div<%T%> for %T% { type Output = %T%; #[verifier::external_body] fn div(self, n: %T%) -> (r: %T%) { unimplemented!() } }
impl NegSpecImpl for %T% { open spec fn obeys_neg_spec() -> bool { true } open spec fn neg_req(self) -> bool { self.fin() } open spec fn neg_spec(self) -> %T% { neg_%T%(self) } }
impl Neg for %T% { type Output = %T%; #[verifier::external_body] fn neg(self) -> (r: %T%) { unimplemented!() } }
impl PartialEqSpecImpl for %T% { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &%T%) -> bool { !self.nan() && !o.nan() && self.v() == o.v() } }
impl PartialEq for %T% { #[verifier::external_body] fn eq(&self, o: &%T%) -> (r: bool) { unimplemented!() } }
impl PartialOrdSpecImpl for %T% { open spec fn obeys_partial_cmp_spec() -> bool { true }
  open spec fn partial_cmp_spec(&self, o: &%T%) -> Option<Ordering> { if self.nan() || o.nan() { None } else if self.v() < o.v() { Some(Ordering::Less) } else if self.v() > o.v() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
impl PartialOrd for %T% { #[verifier::external_body] fn partial_cmp(&self, o: &%T%) -> (r: Option<Ordering>) { unimplemented!() } }
//@endfor
pub proof fn tr_order(x: real, y: real) requires x <= y ensures tr(x) <= tr(y)
{ assert(x >= 0real ==> (x.floor() as real) <= x); }
/// scaling keeps order (reverses it for a negative factor), and the sign
pub proof fn fmul_order(w: int, a: int, b: int, x: real)
    requires w == 24 || w == 53, -M() <= a <= b <= M()
    ensures x >= 0real ==> fmul(w, a, x) <= fmul(w, b, x), x <= 0real ==> fmul(w, b, x) <= fmul(w, a, x), -M() <= fmul(w, a, x) <= M(), -M() <= fmul(w, b, x) <= M(),
        a == 0 || x == 0real ==> fmul(w, a, x) == 0, a >= 0 && x >= 0real ==> fmul(w, a, x) >= 0, a <= 0 && x <= 0real ==> fmul(w, a, x) >= 0, a >= 0 && x <= 0real ==> fmul(w, a, x) <= 0, a <= 0 && x >= 0real ==> fmul(w, a, x) <= 0
{
    reveal(rmul);
    ieee_exact(w);
    let (ra, rb) = (rnd(w, a as real), rnd(w, b as real));
    ieee_order(w, a as real, b as real); ieee_order(w, a as real, 0real); ieee_order(w, 0real, a as real);
    if x >= 0real { assert(ra * x <= rb * x) by (nonlinear_arith) requires ra <= rb, x >= 0real; } 
    if x <= 0real { assert(ra * x >= rb * x) by (nonlinear_arith) requires ra <= rb, x <= 0real; }
    ieee_order(w, ra * x, rb * x); ieee_order(w, rb * x, ra * x); ieee_order(w, ra * x, 0real); ieee_order(w, 0real, ra * x);
    if ra >= 0real && x >= 0real || ra <= 0real && x <= 0real { assert(ra * x >= 0real) by (nonlinear_arith) requires ra >= 0real && x >= 0real || ra <= 0real && x <= 0real; }
    if ra <= 0real && x >= 0real || ra >= 0real && x <= 0real { assert(ra * x <= 0real) by (nonlinear_arith) requires ra <= 0real && x >= 0real || ra >= 0real && x <= 0real; }
    if x == 0real { assert(ra * x == 0real) by (nonlinear_arith) requires x == 0real; assert(rb * x == 0real) by (nonlinear_arith) requires x == 0real; }
    if a == 0 { assert(0real * x == 0real) by (nonlinear_arith); }
    if !isinf(a) && !isinf(b) { if x >= 0real { tr_order(fprod(w, a, x), fprod(w, b, x)); } else { tr_order(fprod(w, b, x), fprod(w, a, x)); } }
}
pub proof fn absr_mul(a: real, x: real) ensures absr(a * x) == absr(a) * absr(x)
{
    if a >= 0real && x >= 0real { assert(a * x >= 0real) by (nonlinear_arith) requires a >= 0real, x >= 0real; }
    if a >= 0real && x < 0real { assert(a * x <= 0real) by (nonlinear_arith) requires a >= 0real, x < 0real; assert(a * (-x) == -(a * x)) by (nonlinear_arith); }
    if a < 0real && x >= 0real { assert(a * x <= 0real) by (nonlinear_arith) requires a < 0real, x >= 0real; assert((-a) * x == -(a * x)) by (nonlinear_arith); }
    if a < 0real && x < 0real { assert(a * x >= 0real) by (nonlinear_arith) requires a < 0real, x < 0real; assert((-a) * (-x) == a * x) by (nonlinear_arith); }
}
/// the product of the rounded number of ticks is close to the exact one
pub proof fn fprod_near(w: int, a: int, x: real)
    requires w == 24 || w == 53, -M() < a < M(), a != 0
    ensures absr(rnd(w, a as real) * x - a as real * x) <= absr(a as real * x) * (2real * unit(w)), absr(x) <= absr(a as real * x)
{
    let (ar, ra, u) = (a as real, rnd(w, a as real), unit(w));
    ieee_near(w, ar); absr_mul(ar, x); absr_mul(ra - ar, x);
    assert((ra - ar) * x == ra * x - ar * x) by (nonlinear_arith);
    assert(absr(ar) >= 1real);
    let (e, m, y) = (absr(ra - ar), absr(ar), absr(x));
    assert(tiny() <= u * m) by (nonlinear_arith) requires m >= 1real, u == unit(w), tiny() <= u, u >= 0real;
    assert(e <= m * (2real * u)) by (nonlinear_arith) requires e <= m * u + tiny(), tiny() <= u * m;
    assert(e * y <= (m * (2real * u)) * y) by (nonlinear_arith) requires e <= m * (2real * u), y >= 0real;
    assert((m * (2real * u)) * y == (m * y) * (2real * u)) by (nonlinear_arith);
    assert(y <= m * y) by (nonlinear_arith) requires m >= 1real, y >= 0real;
}
/// the real result within the rounding of the type, then truncated toward zero and saturated
pub proof fn fmul_near(w: int, a: int, x: real)
    requires w == 24 || w == 53, -M() < a < M()
    ensures
        fmul(w, a, x) == sat(tr(fprod(w, a, x))),
        absr(a as real * x) <= 604462909807314587353088real ==> absr(fprod(w, a, x) - a as real * x) <= absr(a as real * x) * (4real * unit(w)) + tiny(),
        a as real * x > 604462909807314587353088real ==> fmul(w, a, x) == M(),
        a as real * x < -604462909807314587353088real ==> fmul(w, a, x) == -M()
{
    reveal(rmul);
    let (ar, ra, u) = (a as real, rnd(w, a as real), unit(w));
    ieee_exact(w);
    if a == 0 { assert(0real * x == 0real) by (nonlinear_arith); assert(0real * (4real * u) == 0real); }
    else {
        fprod_near(w, a, x);
        let (p, z) = (ar * x, ra * x);
        assert(absr(p) * (2real * u) <= absr(p) * 0.5real) by (nonlinear_arith) requires u <= 0.25real, absr(p) >= 0real;
        if absr(p) <= 604462909807314587353088real {
            ieee_near(w, z);
            assert(absr(z) * u <= absr(p) * (2real * u)) by (nonlinear_arith) requires absr(z) <= absr(p) * 2real, u >= 0real;
            assert(absr(p) * (2real * u) + absr(p) * (2real * u) == absr(p) * (4real * u)) by (nonlinear_arith);
        } else if p > 0real { ieee_order(w, 9223372036854775808real, z); assert(tr(rnd(w, z)) >= 9223372036854775808) by { tr_order(9223372036854775808real, rnd(w, z)); } }
        else { ieee_order(w, z, -9223372036854775808real); assert(tr(rnd(w, z)) <= -9223372036854775808) by { tr_order(rnd(w, z), -9223372036854775808real); } }
    }
}
/// dividing (multiplying by the rounded inverse) gives the real quotient within the rounding of the type
pub proof fn fdiv_near(w: int, a: int, x: real)
    requires w == 24 || w == 53, -M() < a < M(), x != 0real, absr(1real / x) <= 1267650600228229401496703205376real
    ensures absr(a as real * (1real / x)) <= 151115727451828646838272real ==> absr(fprod(w, a, inv(w, x)) - a as real * (1real / x)) <= absr(a as real * (1real / x)) * (6real * unit(w)) + 1real / 68719476736real
{
    reveal(rdiv);
    let (ar, y, n, u) = (a as real, 1real / x, inv(w, x), unit(w));
    let (p, q) = (ar * y, ar * n);
    if absr(p) <= 151115727451828646838272real {
        ieee_near(w, y);
        absr_mul(ar, y); absr_mul(ar, n - y); fmul_near(w, a, n);
        let (m, e, s) = (absr(ar), absr(n - y), absr(y));
        assert(ar * (n - y) == q - p) by (nonlinear_arith) requires q == ar * n, p == ar * y;
        assert(m * e <= m * (s * u + tiny())) by (nonlinear_arith) requires e <= s * u + tiny(), m >= 0real;
        assert(m * (s * u + tiny()) == (m * s) * u + m * tiny()) by (nonlinear_arith);
        assert(m <= 9223372036854775808real);
        assert(m * tiny() <= 9223372036854775808real * tiny()) by (nonlinear_arith) requires m <= 9223372036854775808real, tiny() >= 0real;
        let (g, t) = (absr(p), 1real / 137438953472real);
        assert(absr(q - p) <= g * u + t);
        assert(0real <= g * u <= g * 0.25real) by (nonlinear_arith) requires 0real <= u <= 0.25real, g >= 0real;
        assert(absr(q) <= g + g * u + t);
        assert(absr(q) <= 604462909807314587353088real);
        assert(absr(q) * (4real * u) <= (g + g * u + t) * (4real * u)) by (nonlinear_arith) requires absr(q) <= g + g * u + t, u >= 0real;
        assert((g + g * u + t) * (4real * u) == g * (4real * u) + (g * u) * (4real * u) + t * (4real * u)) by (nonlinear_arith);
        assert((g * u) * (4real * u) <= (g * u) * 1real) by (nonlinear_arith) requires g * u >= 0real, 4real * u <= 1real;
        assert(g * (4real * u) + g * u + g * u == g * (6real * u)) by (nonlinear_arith);
        assert(t * (4real * u) <= t * 0.25real) by (nonlinear_arith) requires 4real * u <= 0.25real, t >= 0real;
    }
}
pub proof fn fmul_cases(w: int, a: int, x: real)
    requires w == 24 || w == 53, -M() <= a <= M()
    ensures finr(w, rnd(w, a as real)), -M() <= fmul(w, a, x) <= M(), isinf(a) ==> fmul(w, a, x) == (if x > 0real { a } else if x < 0real { -a } else { 0 }),
        !isinf(a) ==> fmul(w, a, x) == (if rnd(w, rmul(rnd(w, a as real), x)) > rnd(w, M() as real) { M() } else if rnd(w, rmul(rnd(w, a as real), x)) < -rnd(w, M() as real) { -M() } else { sat(clip(tr(rnd(w, rmul(rnd(w, a as real), x))))) })
{
    ieee_exact(w); ieee_order(w, a as real, M() as real); ieee_order(w, (-M()) as real, a as real); fmul_order(w, a, a, x);
    let q = fprod(w, a, x);
    if q > 9223372036854775808real { tr_order(9223372036854775808real, q); }
    if q < -9223372036854775808real { tr_order(q, -9223372036854775808real); }
}
// ---- durations
//@for T W P in F32:24:f32 F64:53:f64
impl MulSpecImpl<%T%> for TimeValue { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, n: %T%) -> bool { okv(self) && n.fin() } open spec fn mul_spec(self, n: %T%) -> TimeValue { fmulv(%W%, self, n.v()) } }
impl Mul<%T%> for TimeValue { type Output = TimeValue;
//@fn Mul<$time> for TimeValue :: mul
    fn mul(self, n: %T%) -> (r: TimeValue)
//@macro timevalscalingfloat %P%
//@with $time=%T%
//@rule self . 0 as %T% ==> %T%::of(self.0)
//@rule INFINITE_TIME_VALUE as %T% ==> %T%::of(INFINITE_TIME_VALUE)
//@rule t as i64 ==> t.to()
//@rule 0. ==> %T%::zero()
//@rule 1. ==> %T%::one()
//@start
        proof { constants(); fmul_cases(%W%, self.0 as int, n.v()); lossless_%T%(); }
//@end
}
impl DivSpecImpl<%T%> for TimeValue { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, n: %T%) -> bool { okv(self) && n.fin() && n.v() != 0real && finr(%W%, inv(%W%, n.v())) } open spec fn div_spec(self, n: %T%) -> TimeValue { fmulv(%W%, self, inv(%W%, n.v())) } }
impl Div<%T%> for TimeValue { type Output = TimeValue;
//@fn Div<$time> for TimeValue :: div
    fn div(self, n: %T%) -> (r: TimeValue)
//@macro timevalscalingfloat %P%
//@with $time=%T%
//@rule self . mul ( $*a ) ==> self * ($*a)
//@rule 0. ==> %T%::zero()
//@rule 1. ==> %T%::one()
//@start
        proof { ieee_exact(%W%); lossless_%T%(); }
//@end
}
pub proof fn lossless_%T%()
    ensures forall|a: %T%, b: %T%| #![trigger mul_%T%(a, b)] a.fin() && b.fin() ==> !mul_%T%(a, b).nan() && mul_%T%(a, b).v() == rnd(%W%, rmul(a.v(), b.v())), forall|a: %T%, b: %T%| #![trigger div_%T%(a, b)] a.fin() && b.fin() && b.v() != 0real ==> !div_%T%(a, b).nan() && div_%T%(a, b).v() == rnd(%W%, rdiv(a.v(), b.v())), forall|a: %T%| a.fin() ==> (#[trigger] neg_%T%(a)).fin() && neg_%T%(a).v() == -a.v()
{
    assert forall|a: %T%| a.fin() implies (#[trigger] neg_%T%(a)).fin() && neg_%T%(a).v() == -a.v() by { ieee_%T%(a, a); }
    assert forall|a: %T%, b: %T%| #![trigger mul_%T%(a, b)] a.fin() && b.fin() implies !mul_%T%(a, b).nan() && mul_%T%(a, b).v() == rnd(%W%, rmul(a.v(), b.v())) by { ieee_%T%(a, b); }
    assert forall|a: %T%, b: %T%| #![trigger div_%T%(a, b)] a.fin() && b.fin() && b.v() != 0real implies !div_%T%(a, b).nan() && div_%T%(a, b).v() == rnd(%W%, rdiv(a.v(), b.v())) by { ieee_%T%(a, b); }
}
//@endfor
// ---- in place, spans, sets, commuted
pub open spec fn ffits(w: int, t: TimeInterval, x: real) -> bool { okt(t) && (ne(t) ==> (isinf(t.lower.0 as int) || -M() < fmul(w, t.lower.0 as int, x) < M()) && (isinf(t.upper.0 as int) || -M() < fmul(w, t.upper.0 as int, x) < M())) }
pub open spec fn fspan(w: int, t: TimeInterval, x: real) -> TimeInterval { if em(t) { t } else if x < 0real { block(fmul(w, t.upper.0 as int, x), fmul(w, t.lower.0 as int, x)) } else { block(fmul(w, t.lower.0 as int, x), fmul(w, t.upper.0 as int, x)) } }
pub proof fn fspan_ok(w: int, t: TimeInterval, x: real)
    requires ffits(w, t, x), w == 24 || w == 53
    ensures okt(fspan(w, t, x)), ne(t) ==> ne(fspan(w, t, x)), em(t) ==> em(fspan(w, t, x)), ne(t) ==> -M() <= fmul(w, t.upper.0 as int, x) <= M() && -M() <= fmul(w, t.lower.0 as int, x) <= M(),
        ne(t) && x >= 0real ==> fmul(w, t.lower.0 as int, x) < M() && fmul(w, t.upper.0 as int, x) > -M(), ne(t) && x < 0real ==> fmul(w, t.lower.0 as int, x) > -M() && fmul(w, t.upper.0 as int, x) < M()
{ if ne(t) { fmul_order(w, t.lower.0 as int, t.upper.0 as int, x); } }
pub open spec fn fall(w: int, s: Seq<TimeInterval>, x: real) -> bool { forall|k: int| 0 <= k < s.len() ==> ffits(w, #[trigger] s[k], x) }
/// the products of the bounds, in order
pub open spec fn fspans(w: int, s: Seq<TimeInterval>, x: real) -> Seq<TimeInterval> { Seq::new(s.len(), |k: int| fspan(w, s[if x >= 0real { k } else { s.len() - 1 - k }], x)) }
/// those which meet merged
pub open spec fn fproducts(w: int, r: Seq<TimeInterval>, s: Seq<TimeInterval>, x: real) -> bool { canon(r) && forall|y: int| #![trigger seq_has(r, y)] seq_has(r, y) <==> seq_has(fspans(w, s, x), y) }
pub proof fn fspans_are(w: int, v: Seq<TimeInterval>, s: Seq<TimeInterval>, x: real)
    requires w == 24 || w == 53, canon(s), fall(w, s, x), v.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == fspan(w, s[k], x)
    ensures rising(fspans(w, s, x)), x >= 0real ==> v =~= fspans(w, s, x), x < 0real ==> v.reverse() =~= fspans(w, s, x)
{
    let f = fspans(w, s, x);
    assert forall|k: int| 0 <= k < f.len() implies ne(#[trigger] f[k]) by { let j = if x >= 0real { k } else { s.len() - 1 - k }; assert(ne(s[j])); fspan_ok(w, s[j], x); }
    assert forall|a: int, b: int| 0 <= a < b < f.len() implies (#[trigger] f[a]).lower.0 <= (#[trigger] f[b]).lower.0 && f[a].upper.0 <= f[b].upper.0 by {
        let i = if x >= 0real { a } else { s.len() - 1 - b }; let j = if x >= 0real { b } else { s.len() - 1 - a };
        assert(s[i].upper.0 + 1 < s[j].lower.0); assert(ne(s[i]) && ne(s[j])); fspan_ok(w, s[i], x); fspan_ok(w, s[j], x);
        fmul_order(w, s[i].lower.0 as int, s[j].lower.0 as int, x); fmul_order(w, s[i].upper.0 as int, s[j].upper.0 as int, x);
    }
}
pub open spec fn divides(w: int, x: real) -> bool { x != 0real && finr(w, inv(w, x)) }
/// the inverse has the sign of the divisor
pub proof fn inv_sign(w: int, x: real) requires w == 24 || w == 53, x != 0real ensures x > 0real ==> inv(w, x) >= 0real, x < 0real ==> inv(w, x) <= 0real
{
    reveal(rdiv); ieee_exact(w); ieee_order(w, 0real, 1real / x); ieee_order(w, 1real / x, 0real);
    if x > 0real { assert(1real / x >= 0real) by (nonlinear_arith) requires x > 0real; } else { assert(1real / x <= 0real) by (nonlinear_arith) requires x < 0real; }
}
/// a divisor is taken for its sign, its inverse for its value
pub proof fn fspan_div(w: int, t: TimeInterval, x: real)
    requires w == 24 || w == 53, divides(w, x), ffits(w, t, inv(w, x))
    ensures ne(t) && inv(w, x) == 0real ==> fmul(w, t.lower.0 as int, inv(w, x)) == 0 && fmul(w, t.upper.0 as int, inv(w, x)) == 0
{ if ne(t) { fmul_order(w, t.lower.0 as int, t.upper.0 as int, inv(w, x)); } }
//@for T W P in F32:24:f32 F64:53:f64
impl TimeValue {
//@fn MulAssign<$scale> for $time :: mul_assign as mul_assign_%T%
    pub fn mul_assign_%T%(&mut self, n: %T%)
        requires okv(*old(self)), n.fin()
        ensures *final(self) == fmulv(%W%, *old(self), n.v())
//@macro timescalingassign TimeValue,%P%
//@end
//@fn DivAssign<$scale> for $time :: div_assign as div_assign_%T%
    pub fn div_assign_%T%(&mut self, n: %T%)
        requires okv(*old(self)), n.fin(), divides(%W%, n.v())
        ensures *final(self) == fmulv(%W%, *old(self), inv(%W%, n.v()))
//@macro timescalingassign TimeValue,%P%
//@end
}
impl MulSpecImpl<%T%> for TimeInterval { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, n: %T%) -> bool { n.fin() && ffits(%W%, self, n.v()) } open spec fn mul_spec(self, n: %T%) -> TimeInterval { fspan(%W%, self, n.v()) } }
impl Mul<%T%> for TimeInterval { type Output = TimeInterval;
//@fn Mul<$scale> for TimeSpan :: mul
    fn mul(self, f: %T%) -> (r: TimeInterval)
//@macro timespanscalingfloat %P%
//@with $scale=%T%
//@rule TimeSpan { ==> TimeInterval {
//@rule 0. ==> %T%::zero()
//@start
        proof { fspan_ok(%W%, self, f.v()); }
//@end
}
impl DivSpecImpl<%T%> for TimeInterval { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, n: %T%) -> bool { n.fin() && divides(%W%, n.v()) && ffits(%W%, self, inv(%W%, n.v())) } open spec fn div_spec(self, n: %T%) -> TimeInterval { fspan(%W%, self, inv(%W%, n.v())) } }
impl Div<%T%> for TimeInterval { type Output = TimeInterval;
//@fn Div<$scale> for TimeSpan :: div
    fn div(self, f: %T%) -> (r: TimeInterval)
//@macro timespanscalingfloat %P%
//@with $scale=%T%
//@rule TimeSpan { ==> TimeInterval {
//@rule 0. ==> %T%::zero()
//@start
        proof { fspan_ok(%W%, self, inv(%W%, f.v())); fspan_div(%W%, self, f.v()); inv_sign(%W%, f.v()); }
//@end
}
impl TimeInterval {
//@fn MulAssign<$scale> for $time :: mul_assign as mul_assign_%T%
    pub fn mul_assign_%T%(&mut self, n: %T%)
        requires n.fin(), ffits(%W%, *old(self), n.v())
        ensures *final(self) == fspan(%W%, *old(self), n.v())
//@macro timescalingassign TimeSpan,%P%
//@end
//@fn DivAssign<$scale> for $time :: div_assign as div_assign_%T%
    pub fn div_assign_%T%(&mut self, n: %T%)
        requires n.fin(), divides(%W%, n.v()), ffits(%W%, *old(self), inv(%W%, n.v()))
        ensures *final(self) == fspan(%W%, *old(self), inv(%W%, n.v()))
//@macro timescalingassign TimeSpan,%P%
//@end
}
impl TimeSet {
//@fn Mul<$scale> for TimeSpans :: mul as mul_%T%
    pub fn mul_%T%(self, f: %T%) -> (r: TimeSet)
        requires self.ok(), f.fin(), fall(%W%, self.0@, f.v())
        ensures fproducts(%W%, r.0@, self.0@, f.v())
//@macro timespansscalefloat %P%
//@with $scale=%T%
//@rule 0. ==> %T%::zero()
//@rule 1. ==> %T%::one()
//@rule inners . reverse ( ) ==> reverse(&mut inners)
//@rule self . 0 . iter ( ) . map ( | tw | $*e ) . collect :: < Vec < _ > > ( ) ==> map_vec(&self.0, |tw: &TimeInterval| -> (r: TimeInterval) requires ffits(%W%, *tw, f.v()), f.fin() ensures r == fspan(%W%, *tw, f.v()) { $*e })
//@rule let mut inners = $*e ; ==> proof { let s = self.0@; assert forall|k: int| 0 <= k < s.len() implies ne(#[trigger] s[k]) && ffits(%W%, s[k], f.v()) by {} } let mut inners = $*e; proof { fspans_are(%W%, inners@, self.0@, f.v()); }
//@end
//@fn MulAssign<$scale> for TimeSpans :: mul_assign as mul_assign_%T%
    pub fn mul_assign_%T%(&mut self, f: %T%)
        requires old(self).ok(), f.fin(), fall(%W%, old(self).0@, f.v())
        ensures fproducts(%W%, final(self).0@, old(self).0@, f.v())
//@macro timespansscalefloat %P%
//@with $scale=%T%
//@rule 0. ==> %T%::zero()
//@rule 1. ==> %T%::one()
//@rule self . 0 . iter_mut ( ) . for_each ( | tw | * tw *= $a ) ; ==> { let ghost s = self.0@; let mut k: usize = 0; while k < self.0.len() { proof { assert(ffits(%W%, s[k as int], f.v())); } let tw = &mut self.0[k]; tw.mul_assign_%T%($a); k = k + 1; } proof { fspans_are(%W%, self.0@, s, f.v()); } }
//@rule self . 0 . reverse ( ) ==> reverse(&mut self.0)
//@inv
        invariant k <= s.len(), self.0@.len() == s.len(), f.fin(), fall(%W%, s, f.v()), forall|j: int| 0 <= j < k ==> #[trigger] self.0@[j] == fspan(%W%, s[j], f.v()), forall|j: int| k <= j < s.len() ==> #[trigger] self.0@[j] == s[j]
        decreases s.len() - k
//@end
//@fn Div<$scale> for TimeSpans :: div as div_%T%
    pub fn div_%T%(self, f: %T%) -> (r: TimeSet)
        requires self.ok(), f.fin(), divides(%W%, f.v()), fall(%W%, self.0@, inv(%W%, f.v()))
        ensures fproducts(%W%, r.0@, self.0@, inv(%W%, f.v()))
//@macro timespansscalefloat %P%
//@with $scale=%T%
//@rule self * ( $*a ) ==> self.mul_%T%($*a)
//@rule 1. ==> %T%::one()
//@start
        proof { ieee_exact(%W%); lossless_%T%(); }
//@end
//@fn DivAssign<$scale> for TimeSpans :: div_assign as div_assign_%T%
    pub fn div_assign_%T%(&mut self, f: %T%)
        requires old(self).ok(), f.fin(), divides(%W%, f.v()), fall(%W%, old(self).0@, inv(%W%, f.v()))
        ensures fproducts(%W%, final(self).0@, old(self).0@, inv(%W%, f.v()))
//@macro timespansscalefloat %P%
//@with $scale=%T%
//@rule * self *= $*a / f ==> self.mul_assign_%T%($*a / f)
//@rule 1. ==> %T%::one()
//@start
        proof { ieee_exact(%W%); lossless_%T%(); }
//@end
}
//@fn Mul<$time> for $scale :: mul as times_value_%T%
pub fn times_value_%T%(this: %T%, t: TimeValue) -> (r: TimeValue)
    requires okv(t), this.fin()
    ensures r == fmulv(%W%, t, this.v())
//@macro timerevmulall %P%
//@rule self ==> this
//@end
//@fn Mul<$time> for $scale :: mul as times_span_%T%
pub fn times_span_%T%(this: %T%, t: TimeInterval) -> (r: TimeInterval)
    requires this.fin(), ffits(%W%, t, this.v())
    ensures r == fspan(%W%, t, this.v())
//@macro timerevmulall %P%
//@rule self ==> this
//@end
//@fn Mul<$time> for $scale :: mul as times_spans_%T%
pub fn times_spans_%T%(this: %T%, t: TimeSet) -> (r: TimeSet)
    requires t.ok(), this.fin(), fall(%W%, t.0@, this.v())
    ensures fproducts(%W%, r.0@, t.0@, this.v())
//@macro timerevmulall %P%
//@rule t * self ==> t.mul_%T%(self)
//@rule self ==> this
//@end
//@endfor
