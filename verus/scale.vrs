//@include moves
// ---- scaling by an integer (C13) -----------------------------------------------------------------------------------------------
pub assume_specification [i64::saturating_div] (a: i64, b: i64) -> (r: i64)
    requires b != 0
    ensures r == (if tdiv(a as int, b as int) > i64::MAX { i64::MAX as int } else { tdiv(a as int, b as int) });
/// quotient rounded toward zero
pub open spec fn tdiv(a: int, n: int) -> int { if a >= 0 { if n > 0 { a / n } else { -(a / (-n)) } } else { if n > 0 { -((-a) / n) } else { (-a) / (-n) } } }
pub open spec fn xmul(a: int, n: int) -> int { sat(a * n) }
pub open spec fn xdiv(a: int, n: int) -> int { if isinf(a) { if n < 0 { -a } else { a } } else { tdiv(a, n) } }
/// a factor beyond the line behaves as the infinity of its sign
pub proof fn beyond(a: int, n: int)
    requires -M() <= a <= M()
    ensures n > M() ==> sat(a * n) == sat(a * M()), n < -M() ==> sat(a * n) == sat(a * -M())
{
    if n > M() {
        if a > 0 { assert(a * n >= n) by (nonlinear_arith) requires a > 0, n > 0; assert(a * M() >= M()) by (nonlinear_arith) requires a > 0, M() > 0; }
        else if a < 0 { assert(a * n <= -n) by (nonlinear_arith) requires a < 0, n > 0; assert(a * M() <= -M()) by (nonlinear_arith) requires a < 0, M() > 0; }
    }
    if n < -M() {
        if a > 0 { assert(a * n <= n) by (nonlinear_arith) requires a > 0, n < 0; assert(a * -M() <= -M()) by (nonlinear_arith) requires a > 0, M() > 0; }
        else if a < 0 { assert(a * n >= -n) by (nonlinear_arith) requires a < 0, n < 0; assert(a * -M() >= M()) by (nonlinear_arith) requires a < 0, M() > 0; }
    }
}
pub proof fn quotient(a: int, n: int)
    requires n != 0
    ensures a >= 0 && n > 0 ==> 0 <= tdiv(a, n) <= a, a >= 0 && n < 0 ==> -a <= tdiv(a, n) <= 0, a <= 0 && n > 0 ==> a <= tdiv(a, n) <= 0, a <= 0 && n < 0 ==> 0 <= tdiv(a, n) <= -a,
        (n > a || n < a) && (n > -a || n < -a) && (n > 0 ==> n > a && n > -a) && (n < 0 ==> n < a && n < -a) ==> tdiv(a, n) == 0
{
    let b = if a >= 0 { a } else { -a }; let m = if n > 0 { n } else { -n };
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(b, m); vstd::arithmetic::div_mod::lemma_mod_bound(b, m);
    assert(0 <= b / m <= b) by (nonlinear_arith) requires m >= 1, b >= 0, b == m * (b / m) + b % m, 0 <= b % m < m;
    if m > b { assert(b / m == 0) by (nonlinear_arith) requires m > b, b >= 0, b == m * (b / m) + b % m, 0 <= b % m < m, 0 <= b / m; }
}
/// the quotient keeps order, or reverses it for a negative divisor
pub proof fn quotient_order(a: int, b: int, n: int)
    requires a <= b, n != 0
    ensures n > 0 ==> tdiv(a, n) <= tdiv(b, n), n < 0 ==> tdiv(b, n) <= tdiv(a, n)
{
    quotient(a, n); quotient(b, n);
    let m = if n > 0 { n } else { -n };
    if a >= 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered(a, b, m); }
    if b <= 0 { vstd::arithmetic::div_mod::lemma_div_is_ordered(-b, -a, m); }
}
//@for T V in i8:timevalscalingsmall u8:timevalscalingsmall i16:timevalscalingsmall u16:timevalscalingsmall i32:timevalscalingsmall u32:timevalscalingsmall i64:timevalscalingsmall
impl MulSpecImpl<%T%> for TimeValue { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, n: %T%) -> bool { okv(self) } open spec fn mul_spec(self, n: %T%) -> TimeValue { TimeValue(xmul(self.0 as int, n as int) as i64) } }
impl Mul<%T%> for TimeValue { type Output = TimeValue;
//@fn Mul<$scale> for TimeValue :: mul
    fn mul(self, n: %T%) -> (r: TimeValue)
//@macro %V% %T%
//@end
}
impl DivSpecImpl<%T%> for TimeValue { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, n: %T%) -> bool { okv(self) && n != 0 } open spec fn div_spec(self, n: %T%) -> TimeValue { TimeValue(xdiv(self.0 as int, n as int) as i64) } }
impl Div<%T%> for TimeValue { type Output = TimeValue;
//@fn Div<$scale> for TimeValue :: div
    fn div(self, n: %T%) -> (r: TimeValue)
//@macro %V% %T%
//@start
        proof { quotient(self.0 as int, n as int); }
//@end
}
//@endfor
//@for T V in i128:timevalscalingbig isize:timevalscalingbig u64:timevalscalingubig u128:timevalscalingubig usize:timevalscalingubig
impl MulSpecImpl<%T%> for TimeValue { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, n: %T%) -> bool { okv(self) } open spec fn mul_spec(self, n: %T%) -> TimeValue { TimeValue(xmul(self.0 as int, n as int) as i64) } }
impl Mul<%T%> for TimeValue { type Output = TimeValue;
//@fn Mul<$time> for TimeValue :: mul
    fn mul(self, n: %T%) -> (r: TimeValue)
//@macro %V% %T%
//@start
        proof { beyond(self.0 as int, n as int); constants(); }
//@end
}
impl DivSpecImpl<%T%> for TimeValue { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, n: %T%) -> bool { okv(self) && n != 0 } open spec fn div_spec(self, n: %T%) -> TimeValue { TimeValue(xdiv(self.0 as int, n as int) as i64) } }
impl Div<%T%> for TimeValue { type Output = TimeValue;
//@fn Div<$time> for TimeValue :: div
    fn div(self, n: %T%) -> (r: TimeValue)
//@macro %V% %T%
//@start
        proof { quotient(self.0 as int, n as int); constants(); }
//@end
}
//@endfor
// ---- in place, spans, sets, commuted
pub open spec fn scalable(t: TimeInterval, n: int) -> bool { okt(t) && (ne(t) ==> (isinf(t.lower.0 as int) || -M() < t.lower.0 * n < M()) && (isinf(t.upper.0 as int) || -M() < t.upper.0 * n < M())) }
pub open spec fn span_mul(t: TimeInterval, n: int) -> TimeInterval { if em(t) { t } else if n < 0 { block(xmul(t.upper.0 as int, n), xmul(t.lower.0 as int, n)) } else { block(xmul(t.lower.0 as int, n), xmul(t.upper.0 as int, n)) } }
pub open spec fn span_div(t: TimeInterval, n: int) -> TimeInterval { if n < 0 { block(xdiv(t.upper.0 as int, n), xdiv(t.lower.0 as int, n)) } else { block(xdiv(t.lower.0 as int, n), xdiv(t.upper.0 as int, n)) } }
pub proof fn span_mul_ok(t: TimeInterval, n: int)
    requires scalable(t, n)
    ensures okt(span_mul(t, n)), ne(t) ==> ne(span_mul(t, n)), ne(t) ==> -M() <= xmul(t.upper.0 as int, n) <= M() && -M() <= xmul(t.lower.0 as int, n) <= M(),
        ne(t) && n >= 0 ==> xmul(t.lower.0 as int, n) < M() && xmul(t.upper.0 as int, n) > -M(), ne(t) && n < 0 ==> xmul(t.lower.0 as int, n) > -M() && xmul(t.upper.0 as int, n) < M()
{
    if ne(t) {
        let (l, u) = (t.lower.0 as int, t.upper.0 as int);
        if n > 0 { assert(l * n <= u * n) by (nonlinear_arith) requires l <= u, n > 0; assert(-M() * n < 0 && M() * n > 0) by (nonlinear_arith) requires n > 0, M() > 0; assert(-M() * n <= -M() && M() * n >= M()) by (nonlinear_arith) requires n >= 1, M() > 0; }
        if n < 0 { assert(u * n <= l * n) by (nonlinear_arith) requires l <= u, n < 0; assert(-M() * n >= M() && M() * n <= -M()) by (nonlinear_arith) requires n <= -1, M() > 0; }
        if n == 0 { assert(l * n == 0 && u * n == 0) by (nonlinear_arith) requires n == 0; }
    }
}
pub proof fn span_div_ok(t: TimeInterval, n: int)
    requires okt(t), n != 0
    ensures okt(span_div(t, n)), ne(t) ==> ne(span_div(t, n)), em(t) ==> em(span_div(t, n)), -M() <= xdiv(t.lower.0 as int, n) <= M(), -M() <= xdiv(t.upper.0 as int, n) <= M()
{ quotient(t.lower.0 as int, n); quotient(t.upper.0 as int, n); if ne(t) { quotient_order(t.lower.0 as int, t.upper.0 as int, n); } }
pub open spec fn scalables(s: Seq<TimeInterval>, n: int) -> bool { forall|k: int| 0 <= k < s.len() ==> scalable(#[trigger] s[k], n) }
/// the bounds of the intervals multiplied, in order
pub open spec fn scaled(r: Seq<TimeInterval>, s: Seq<TimeInterval>, n: int) -> bool {
    canon(r) && (n == 0 ==> r == (if s.len() == 0 { Seq::empty() } else { one(pt(TimeValue(0))) })) && (n != 0 ==> r.len() == s.len() && forall|k: int| 0 <= k < s.len() ==> #[trigger] r[k] == span_mul(s[if n > 0 { k } else { s.len() - 1 - k }], n))
}
pub proof fn scaled_is(v: Seq<TimeInterval>, s: Seq<TimeInterval>, n: int)
    requires n != 0, canon(s), scalables(s, n), v.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == span_mul(s[k], n)
    ensures n > 0 ==> scaled(v, s, n), n < 0 ==> scaled(v.reverse(), s, n)
{
    let w = if n > 0 { v } else { v.reverse() };
    assert forall|k: int| 0 <= k < w.len() implies ne(#[trigger] w[k]) by { let j = if n > 0 { k } else { s.len() - 1 - k }; assert(ne(s[j])); span_mul_ok(s[j], n); assert(w[k] == v[j]); }
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies (#[trigger] w[a]).upper.0 + 1 < (#[trigger] w[b]).lower.0 by {
        let i = if n > 0 { a } else { s.len() - 1 - b }; let j = if n > 0 { b } else { s.len() - 1 - a };
        assert(s[i].upper.0 + 1 < s[j].lower.0); assert(ne(s[i]) && ne(s[j])); span_mul_ok(s[i], n); span_mul_ok(s[j], n);
        assert(scalable(s[i], n) && scalable(s[j], n));
        let (u, l) = (s[i].upper.0 as int, s[j].lower.0 as int);
        assert(v[i] == span_mul(s[i], n) && v[j] == span_mul(s[j], n));
        if n > 0 { assert(w[a] == v[i] && w[b] == v[j]); assert(l * n >= u * n + 2) by (nonlinear_arith) requires l >= u + 2, n >= 1; }
        else { assert(w[a] == v[j] && w[b] == v[i]); assert(u * n >= l * n + 2) by (nonlinear_arith) requires l >= u + 2, n <= -1; }
    }
}
/// `v.iter().map(f).filter(g).collect()`: what the standard library does, when `g` keeps all
pub fn map_filter<F: Fn(&TimeInterval) -> TimeInterval, G: Fn(&TimeInterval) -> bool>(v: &Vec<TimeInterval>, f: F, g: G) -> (r: Vec<TimeInterval>)
    requires forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int, y: TimeInterval| 0 <= k < v.len() && #[trigger] call_ensures(f, (&v@[k],), y) ==> call_requires(g, (&y,)) && !call_ensures(g, (&y,), false)
    ensures r.len() == v.len(), forall|k: int| 0 <= k < v.len() ==> call_ensures(f, (&v@[k],), #[trigger] r@[k])
{
    let mut r: Vec<TimeInterval> = Vec::new(); let mut i = 0;
    while i < v.len()
        invariant i <= v.len(), r.len() == i, forall|k: int| 0 <= k < v.len() ==> call_requires(f, (&#[trigger] v@[k],)), forall|k: int| 0 <= k < i ==> call_ensures(f, (&v@[k],), #[trigger] r@[k]),
            forall|k: int, y: TimeInterval| 0 <= k < v.len() && #[trigger] call_ensures(f, (&v@[k],), y) ==> call_requires(g, (&y,)) && !call_ensures(g, (&y,), false)
        decreases v.len() - i
    { let x = f(&v[i]); let b = g(&x); if b { r.push(x); } i += 1; }
    r
}
/// sorted by both bounds
pub open spec fn rising(v: Seq<TimeInterval>) -> bool { (forall|k: int| 0 <= k < v.len() ==> ne(#[trigger] v[k])) && forall|a: int, b: int| 0 <= a < b < v.len() ==> (#[trigger] v[a]).lower.0 <= (#[trigger] v[b]).lower.0 && v[a].upper.0 <= v[b].upper.0 }
/// the first `i` are separated
pub open spec fn apart(v: Seq<TimeInterval>, i: int) -> bool { forall|a: int, b: int| 0 <= a < b < i ==> (#[trigger] v[a]).upper.0 + 1 < (#[trigger] v[b]).lower.0 }
pub proof fn joined(v: Seq<TimeInterval>, w: Seq<TimeInterval>, i: int)
    requires rising(v), apart(v, i), 0 < i < v.len(), v[i - 1].upper.0 >= v[i].lower.0 - 1, w == v.update(i - 1, TimeInterval { lower: v[i - 1].lower, upper: v[i].upper }).remove(i)
    ensures rising(w), apart(w, i), forall|x: int| #![trigger seq_has(w, x)] #![trigger seq_has(v, x)] seq_has(w, x) <==> seq_has(v, x)
{
    let m = TimeInterval { lower: v[i - 1].lower, upper: v[i].upper };
    assert(forall|k: int| 0 <= k < w.len() ==> #[trigger] w[k] == (if k < i - 1 { v[k] } else if k == i - 1 { m } else { v[k + 1] }));
    assert(ne(v[i]) && ne(v[i - 1]));
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies (#[trigger] w[a]).lower.0 <= (#[trigger] w[b]).lower.0 && w[a].upper.0 <= w[b].upper.0 by {
        let (a2, b2) = (if a < i { a } else { a + 1 }, if b < i { b } else { b + 1 });
        assert(v[a2].lower.0 <= v[b2].lower.0 && v[a2].upper.0 <= v[b2].upper.0);
        if b > i - 1 { assert(v[i].upper.0 <= v[b2].upper.0); }
        if a < i { assert(v[a].upper.0 <= v[i].upper.0); }
    }
    assert forall|x: int| #![trigger seq_has(w, x)] #![trigger seq_has(v, x)] seq_has(w, x) <==> seq_has(v, x) by {
        if seq_has(w, x) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).has(x);
            if k < i - 1 { assert(v[k].has(x)); } else if k > i - 1 { assert(v[k + 1].has(x)); } else { assert(v[i - 1].has(x) || v[i].has(x)); } }
        if seq_has(v, x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).has(x);
            if k < i - 1 { assert(w[k].has(x)); } else if k > i { assert(w[k - 1].has(x)); } else { assert(v[i - 1].lower.0 <= v[i].lower.0 && v[i - 1].upper.0 <= v[i].upper.0); assert(w[i - 1].has(x)); } }
    }
}
//@fn - :: check_joined_inners
pub fn check_joined_inners(inners: &mut Vec<TimeInterval>)
    requires rising(old(inners)@)
    ensures canon(final(inners)@), forall|x: int| #![trigger seq_has(final(inners)@, x)] #![trigger seq_has(old(inners)@, x)] seq_has(final(inners)@, x) <==> seq_has(old(inners)@, x)
//@inv
        invariant 1 <= i, i <= inners@.len() || inners@.len() == 0, rising(inners@), apart(inners@, i as int), forall|x: int| #![trigger seq_has(inners@, x)] #![trigger seq_has(v0, x)] seq_has(inners@, x) <==> seq_has(v0, x)
        decreases inners@.len() - i
//@start
        let ghost v0 = inners@;
//@after { let previous = $*a ; let current = $*b ;
        let ghost v = inners@; proof { assert(ne(v[i as int]) && ne(v[i - 1])); }
//@after inners . remove ( i ) ;
        proof { joined(v, inners@, i as int); }
//@end
pub open spec fn divided(s: Seq<TimeInterval>, n: int) -> Seq<TimeInterval> { Seq::new(s.len(), |k: int| span_div(s[if n > 0 { k } else { s.len() - 1 - k }], n)) }
/// the quotients of the bounds, in order, those which meet merged
pub open spec fn quotients(r: Seq<TimeInterval>, s: Seq<TimeInterval>, n: int) -> bool { canon(r) && forall|x: int| #![trigger seq_has(r, x)] seq_has(r, x) <==> seq_has(divided(s, n), x) }
pub proof fn divided_is(v: Seq<TimeInterval>, s: Seq<TimeInterval>, n: int)
    requires n != 0, canon(s), v.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == span_div(s[k], n)
    ensures rising(divided(s, n)), n > 0 ==> v =~= divided(s, n), n < 0 ==> v.reverse() =~= divided(s, n)
{
    let w = divided(s, n);
    assert forall|k: int| 0 <= k < w.len() implies ne(#[trigger] w[k]) by { let j = if n > 0 { k } else { s.len() - 1 - k }; assert(ne(s[j])); span_div_ok(s[j], n); }
    assert forall|a: int, b: int| 0 <= a < b < w.len() implies (#[trigger] w[a]).lower.0 <= (#[trigger] w[b]).lower.0 && w[a].upper.0 <= w[b].upper.0 by {
        let i = if n > 0 { a } else { s.len() - 1 - b }; let j = if n > 0 { b } else { s.len() - 1 - a };
        assert(s[i].upper.0 + 1 < s[j].lower.0); assert(ne(s[i]) && ne(s[j])); span_div_ok(s[i], n); span_div_ok(s[j], n);
        xdiv_order(s[i].lower.0 as int, s[j].lower.0 as int, n); xdiv_order(s[i].upper.0 as int, s[j].upper.0 as int, n);
    }
}
pub proof fn xdiv_order(a: int, b: int, n: int)
    requires -M() <= a <= b <= M(), n != 0
    ensures n > 0 ==> xdiv(a, n) <= xdiv(b, n), n < 0 ==> xdiv(b, n) <= xdiv(a, n)
{ quotient(a, n); quotient(b, n); quotient_order(a, b, n); }
/// the intervals scaled one by one and collected are the scaled set
pub proof fn lazily_scaled(r: Seq<TimeInterval>, v: Seq<TimeInterval>, s: Seq<TimeInterval>, n: int)
    requires canon(s), scalables(s, n), v.len() == s.len(), forall|k: int| 0 <= k < s.len() ==> #[trigger] v[k] == span_mul(s[k], n), result(r, |x: int| from_at(v, 0, x))
    ensures scaled(r, s, n)
{
    assert forall|x: int| #[trigger] from_at(v, 0, x) == seq_has(v, x) by { if seq_has(v, x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).has(x); assert(v[k].has(x)); } }
    let w = if n > 0 { v } else if n < 0 { v.reverse() } else if s.len() == 0 { Seq::empty() } else { one(pt(TimeValue(0))) };
    if n != 0 { scaled_is(v, s, n); } else {
        one_has(pt(TimeValue(0)));
        assert forall|k: int| 0 <= k < s.len() implies #[trigger] v[k] == pt(TimeValue(0)) by { assert(ne(s[k])); let (l, u) = (s[k].lower.0 as int, s[k].upper.0 as int); assert(l * n == 0 && u * n == 0) by (nonlinear_arith) requires n == 0; }
    }
    assert forall|x: int| -M() <= x <= M() implies (#[trigger] seq_has(r, x) <==> seq_has(w, x)) by {
        assert(seq_has(r, x) <==> seq_has(v, x));
        if seq_has(v, x) { let k = choose|k: int| 0 <= k < v.len() && (#[trigger] v[k]).has(x); if n < 0 { assert(w[v.len() - 1 - k].has(x)); } else if n == 0 { assert(w[0].has(x)); } }
        if seq_has(w, x) { let k = choose|k: int| 0 <= k < w.len() && (#[trigger] w[k]).has(x); if n < 0 { assert(v[v.len() - 1 - k].has(x)); } else if n == 0 { assert(v[0].has(x)); } }
    }
    same_points(r, w);
}
/// `i.map(f)` collected in a list
pub fn map_listed<I: Listed, F: Fn(TimeInterval) -> TimeInterval>(i: I, f: F) -> (r: BagVec)
    requires forall|k: int| 0 <= k < i.seq().len() ==> call_requires(f, (#[trigger] i.seq()[k],))
    ensures r.i == 0, r.v@.len() == i.seq().len(), forall|k: int| 0 <= k < i.seq().len() ==> call_ensures(f, (i.seq()[k],), #[trigger] r.v@[k])
{
    let mut it = i; let ghost s = i.seq(); let mut v: Vec<TimeInterval> = Vec::new();
    loop
        invariant v@.len() <= s.len(), it.seq() =~= s.skip(v@.len() as int), forall|k: int| 0 <= k < s.len() ==> call_requires(f, (#[trigger] s[k],)), forall|k: int| 0 <= k < v@.len() ==> call_ensures(f, (s[k],), #[trigger] v@[k])
        ensures v@.len() == s.len()
        decreases s.len() - v@.len()
    { match it.next() { None => { break; } Some(x) => { proof { assert(x == s[v@.len() as int]); } let y = f(x); v.push(y); } } }
    BagVec { v, i: 0 }
}
//@for T in i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize
impl TimeValue {
//@fn MulAssign<$scale> for $time :: mul_assign as mul_assign_%T%
    pub fn mul_assign_%T%(&mut self, n: %T%)
        requires okv(*old(self))
        ensures final(self).0 == xmul(old(self).0 as int, n as int)
//@macro timescalingassign TimeValue,%T%
//@end
//@fn DivAssign<$scale> for $time :: div_assign as div_assign_%T%
    pub fn div_assign_%T%(&mut self, n: %T%)
        requires okv(*old(self)), n != 0
        ensures final(self).0 == xdiv(old(self).0 as int, n as int)
//@macro timescalingassign TimeValue,%T%
//@start
        proof { quotient(self.0 as int, n as int); }
//@end
}
impl MulSpecImpl<%T%> for TimeInterval { open spec fn obeys_mul_spec() -> bool { true } open spec fn mul_req(self, n: %T%) -> bool { scalable(self, n as int) } open spec fn mul_spec(self, n: %T%) -> TimeInterval { span_mul(self, n as int) } }
impl Mul<%T%> for TimeInterval { type Output = TimeInterval;
//@fn Mul<$scale> for TimeSpan :: mul
    fn mul(self, n: %T%) -> (r: TimeInterval)
//@macro timespanscalingint %T%
//@rule TimeSpan { ==> TimeInterval {
//@start
        proof { span_mul_ok(self, n as int); }
//@end
}
impl DivSpecImpl<%T%> for TimeInterval { open spec fn obeys_div_spec() -> bool { true } open spec fn div_req(self, n: %T%) -> bool { okt(self) && n != 0 } open spec fn div_spec(self, n: %T%) -> TimeInterval { span_div(self, n as int) } }
impl Div<%T%> for TimeInterval { type Output = TimeInterval;
//@fn Div<$scale> for TimeSpan :: div
    fn div(self, n: %T%) -> (r: TimeInterval)
//@macro timespanscalingint %T%
//@rule TimeSpan { ==> TimeInterval {
//@start
        proof { span_div_ok(self, n as int); }
//@end
}
impl TimeInterval {
//@fn MulAssign<$scale> for $time :: mul_assign as mul_assign_%T%
    pub fn mul_assign_%T%(&mut self, n: %T%)
        requires scalable(*old(self), n as int)
        ensures *final(self) == span_mul(*old(self), n as int)
//@macro timescalingassign TimeSpan,%T%
//@end
//@fn DivAssign<$scale> for $time :: div_assign as div_assign_%T%
    pub fn div_assign_%T%(&mut self, n: %T%)
        requires okt(*old(self)), n != 0
        ensures *final(self) == span_div(*old(self), n as int)
//@macro timescalingassign TimeSpan,%T%
//@end
}
impl TimeSet {
//@fn Mul<$scale> for TimeSpans :: mul as mul_%T%
    pub fn mul_%T%(self, n: %T%) -> (r: TimeSet)
        requires self.ok(), scalables(self.0@, n as int)
        ensures scaled(r.0@, self.0@, n as int)
//@macro timespansscaleint %T%
//@rule TimeSpans :: empty ( ) ==> ({ let e_ = TimeSet::empty(); proof { assert(e_.0@ =~= Seq::empty()); } e_ })
//@rule vec ! [ TimeSpan :: singleton ( $*a ) ] ==> ({ let v = vec![TimeInterval::singleton($*a)]; proof { assert(v@[0] == pt(TimeValue(0))); assert(v@ =~= one(pt(TimeValue(0)))); } v })
//@rule self . 0 . iter ( ) . map ( | tw | $*e ) . filter ( | tw | $*f ) . collect :: < Vec < _ > > ( ) ==> map_filter(&self.0, |tw: &TimeInterval| -> (r: TimeInterval) requires scalable(*tw, n as int), ne(*tw) ensures r == span_mul(*tw, n as int), ne(r) { proof { span_mul_ok(*tw, n as int); } $*e }, |tw: &TimeInterval| -> (r: bool) ensures r == (tw.lower.0 != M()) { $*f })
//@rule inners . reverse ( ) ==> reverse(&mut inners)
//@rule self . 0 . iter ( ) . map ( | tw | $*e ) . collect :: < Vec < _ > > ( ) ==> map_vec(&self.0, |tw: &TimeInterval| -> (r: TimeInterval) requires scalable(*tw, n as int) ensures r == span_mul(*tw, n as int) { $*e })
//@rule let mut inners = $*e ; ==> proof { let s = self.0@; assert forall|k: int| 0 <= k < s.len() implies ne(#[trigger] s[k]) && scalable(s[k], n as int) by {} } let mut inners = $*e; proof { scaled_is(inners@, self.0@, n as int); }
//@end
//@fn Div<$scale> for TimeSpans :: div as div_%T%
    pub fn div_%T%(self, n: %T%) -> (r: TimeSet)
        requires self.ok(), n != 0
        ensures quotients(r.0@, self.0@, n as int)
//@macro timespansscaleint %T%
//@rule copy /= n ==> copy.div_assign_%T%(n)
//@end
//@fn MulAssign<$scale> for TimeSpans :: mul_assign as mul_assign_%T%
    pub fn mul_assign_%T%(&mut self, n: %T%)
        requires old(self).ok(), scalables(old(self).0@, n as int)
        ensures scaled(final(self).0@, old(self).0@, n as int)
//@macro timespansscaleint %T%
//@rule self . 0 . push ( TimeSpan :: singleton ( $*a ) ) ; ==> self.0.push(TimeInterval::singleton($*a)); proof { assert(self.0@[0] == pt(TimeValue(0))); assert(self.0@ =~= one(pt(TimeValue(0)))); }
//@rule self . 0 . iter_mut ( ) . for_each ( | tw | * tw *= $a ) ; ==> { let ghost s = self.0@; let mut k: usize = 0; while k < self.0.len() { proof { assert(scalable(s[k as int], n as int)); } let tw = &mut self.0[k]; tw.mul_assign_%T%($a); k = k + 1; } proof { scaled_is(self.0@, s, n as int); } }
//@rule self . 0 . reverse ( ) ==> reverse(&mut self.0)
//@inv
        invariant k <= s.len(), self.0@.len() == s.len(), scalables(s, n as int), forall|j: int| 0 <= j < k ==> #[trigger] self.0@[j] == span_mul(s[j], n as int), forall|j: int| k <= j < s.len() ==> #[trigger] self.0@[j] == s[j]
        decreases s.len() - k
//@start
        proof { if self.0@.len() == 0 { assert(self.0@ =~= Seq::empty()); } }
//@end
//@fn DivAssign<$scale> for TimeSpans :: div_assign as div_assign_%T%
    pub fn div_assign_%T%(&mut self, n: %T%)
        requires old(self).ok(), n != 0
        ensures quotients(final(self).0@, old(self).0@, n as int)
//@macro timespansscaleint %T%
//@rule self . 0 . iter_mut ( ) . for_each ( | tw | * tw /= $a ) ; ==> { let ghost s = self.0@; let mut k: usize = 0; while k < self.0.len() { proof { assert(ne(s[k as int])); } let tw = &mut self.0[k]; tw.div_assign_%T%($a); k = k + 1; } proof { divided_is(self.0@, s, n as int); } }
//@rule self . 0 . reverse ( ) ==> reverse(&mut self.0)
//@inv
        invariant k <= s.len(), self.0@.len() == s.len(), n != 0, canon(s), forall|j: int| 0 <= j < k ==> #[trigger] self.0@[j] == span_div(s[j], n as int), forall|j: int| k <= j < s.len() ==> #[trigger] self.0@[j] == s[j]
        decreases s.len() - k
//@end
}
//@fn Mul<$time> for $scale :: mul as times_value_%T%
pub fn times_value_%T%(this: %T%, t: TimeValue) -> (r: TimeValue)
    requires okv(t)
    ensures r.0 == xmul(t.0 as int, this as int)
//@macro timerevmulall %T%
//@rule self ==> this
//@end
//@fn Mul<$time> for $scale :: mul as times_span_%T%
pub fn times_span_%T%(this: %T%, t: TimeInterval) -> (r: TimeInterval)
    requires scalable(t, this as int)
    ensures r == span_mul(t, this as int)
//@macro timerevmulall %T%
//@rule self ==> this
//@end
//@fn Mul<$time> for $scale :: mul as times_spans_%T%
pub fn times_spans_%T%(this: %T%, t: TimeSet) -> (r: TimeSet)
    requires t.ok(), scalables(t.0@, this as int)
    ensures scaled(r.0@, t.0@, this as int)
//@macro timerevmulall %T%
//@rule t * self ==> t.mul_%T%(self)
//@rule self ==> this
//@end
//@fn TimeScaling<S> for I :: scaling as scaling_%T%
/// scaling any window, as the iterator of its intervals
pub fn scaling_%T%<I: Listed>(this: I, scale: %T%) -> (r: IntoConvexIter)
    requires canon(this.seq()), scalables(this.seq(), scale as int)
    ensures scaled(r.0.seq(), this.seq(), scale as int)
//@rule self . map ( | tw | $*e ) . collect :: < TimeSet < I :: TimePoint > > ( ) ==> { let ghost s = this.seq(); let c = map_listed(this, |tw: TimeInterval| -> (r: TimeInterval) requires scalable(tw, scale as int) ensures r == span_mul(tw, scale as int) { $*e }); proof { assert forall|k: int| 0 <= k < s.len() implies okt(#[trigger] c.v@[k]) by { assert(ne(s[k])); assert(c.v@[k] == span_mul(s[k], scale as int)); span_mul_ok(s[k], scale as int); } } let r_ = TimeSet::from_iter(c); proof { lazily_scaled(r_.0@, c.v@, s, scale as int); } r_ }
//@rule tw . into_iter ( ) ==> tw.into_iter_owned()
//@end
//@endfor
