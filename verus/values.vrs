//@include base
// ---- rounding, units, conversions (C02, C03, C04) ---------------------------------------------------------------------
/// q is the quotient of x by p rounded down
proof fn quotient(x: int, p: int, q: int)
    requires p > 0, q * p <= x < q * p + p
    ensures x / p == q
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(x, p, q, x - q * p);
}
proof fn division(x: int, p: int)
    requires p > 0
    ensures (x / p) * p <= x < (x / p) * p + p, x - x % p == (x / p) * p
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, p);
    vstd::arithmetic::div_mod::lemma_mod_bound(x, p);
    assert(p * (x / p) == (x / p) * p) by (nonlinear_arith);
}
/// the greatest multiple of p not greater than x, the least not smaller, the one on the side of zero
pub open spec fn down(x: int, p: int) -> int { (x / p) * p }
pub open spec fn up(x: int, p: int) -> int { -(((-x) / p) * p) }
pub open spec fn toward0(x: int, p: int) -> int { if x < 0 { up(x, p) } else { down(x, p) } }

/// these are what their names say
pub proof fn rounding_is_nearest(x: int, p: int, k: int)
    requires p > 0
    ensures
        down(x, p) <= x, up(x, p) >= x, down(x, p) % p == 0, up(x, p) % p == 0,
        k * p <= x ==> k * p <= down(x, p),
        k * p >= x ==> k * p >= up(x, p),
{
    division(x, p); division(-x, p);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(x / p, p);
    vstd::arithmetic::div_mod::lemma_mod_multiples_basic(-((-x) / p), p);
    assert(-((-x) / p) * p == -(((-x) / p) * p)) by (nonlinear_arith);
    let d = x / p; let u = -((-x) / p);
    if k * p <= x && k > d { assert(k * p >= d * p + p) by (nonlinear_arith) requires k > d, p > 0; }
    if k * p <= x && k <= d { assert(k * p <= d * p) by (nonlinear_arith) requires k <= d, p > 0; }
    if k * p >= x && k < u { assert(k * p <= u * p - p) by (nonlinear_arith) requires k < u, p > 0; assert(u * p == -(((-x) / p) * p)) by (nonlinear_arith) requires u == -((-x) / p); }
    if k * p >= x && k >= u { assert(k * p >= u * p) by (nonlinear_arith) requires k >= u, p > 0; assert(u * p == -(((-x) / p) * p)) by (nonlinear_arith) requires u == -((-x) / p); }
}

impl TimeValue {
//@fn TimeValue :: floor
    pub fn floor(self, period: TimeValue) -> (r: Self)
        requires okv(self), 0 < period.0 < M()
        ensures isinf(self.0 as int) ==> r == self,
            !isinf(self.0 as int) ==> r.0 == sat(down(self.0 as int, period.0 as int))
//@start
        proof {
            let x = self.0 as int; let p = period.0 as int;
            division(x, p);
            if x >= 0 {
                assert((x / p) * p >= 0) by (nonlinear_arith) requires x >= 0, p > 0;
            } else {
                let n = -(x + 1); let q = n / p;
                division(n, p);
                assert((-q - 1) * p == -(q * p) - p) by (nonlinear_arith);
                quotient(x, p, -q - 1);
            }
        }
//@end
//@fn TimeValue :: ceil
    pub fn ceil(self, period: TimeValue) -> (r: Self)
        requires okv(self), 0 < period.0 < M()
        ensures isinf(self.0 as int) ==> r == self,
            !isinf(self.0 as int) ==> r.0 == sat(up(self.0 as int, period.0 as int))
//@start
        proof {
            let x = self.0 as int; let p = period.0 as int;
            division(-x, p);
            if x > 0 {
                let q = (x - 1) / p;
                division(x - 1, p);
                assert((-q - 1) * p == -(q * p) - p) by (nonlinear_arith);
                quotient(-x, p, -q - 1);
                assert((q + 1) * p == q * p + p) by (nonlinear_arith);
            } else {
                let q = (-x) / p;
                assert(q * p >= 0) by (nonlinear_arith) requires q == (-x) / p, x <= 0, p > 0;
                assert((-q) * p == -(q * p)) by (nonlinear_arith);
            }
        }
//@end
}

// ---- units (C02) ---------------------------------------------------------------------------------------------------------
pub exec const MAX_SEC: i64 ensures MAX_SEC == 0x1_ffff_ffff {
    proof { assert(i64::MAX >> 30usize == 0x1_ffff_ffffi64) by (bit_vector); }
//@const - :: MAX_SEC
}
pub open spec fn T() -> int { 0x40000000 } // ticks in a second
/// n/unit seconds in ticks, rounded toward zero, without any bound
pub open spec fn ticks_of(n: int, unit: int) -> int { if n >= 0 { (n * T()) / unit } else { -((-n * T()) / unit) } }

impl TimeValue {
//@fn TimeValue :: from_secs
    pub fn from_secs(sec: i64) -> (r: Self)
        ensures r.0 == sat(sec * T())
//@start
        proof { assert(-0x1_ffff_ffff <= sec <= 0x1_ffff_ffff ==> (sec << 30usize) == sec * 0x40000000) by (bit_vector);  }
//@end
//@fn TimeValue :: from_fract
    fn from_fract(t: i64, unit: i64) -> (r: Self)
        requires 1 < unit <= 1_000_000_000
        ensures r.0 == sat(ticks_of(t as int, unit as int))
//@start
        let ghost n = if t >= 0 { t as int } else { -t };
        let ghost s = n / (unit as int);
        let ghost f = n - s * unit;
        proof {
            division(n, unit as int);
            assert(s >= 0 && s <= n) by (nonlinear_arith) requires s == n / (unit as int), n >= 0, unit > 0;
            assert((-s) * unit == -(s * unit)) by (nonlinear_arith);
            // n * T == (s * T + (f * T) / unit) * unit + rest
            division(f * T(), unit as int);
            let g = (f * T()) / (unit as int);
            assert(f * T() >= 0 && f * T() < unit * T());
            assert(0 <= g < T()) by (nonlinear_arith) requires g * unit <= f * T(), f * T() < g * unit + unit, f * T() < unit * T(), unit > 0, f * T() >= 0;
            assert((s * T() + g) * unit == (s * unit) * T() + g * unit) by (nonlinear_arith);
            quotient(n * T(), unit as int, s * T() + g);
            // the quotient and the rest, on each side of zero
            let sec: i64 = s as i64; let minus_sec: i64 = (-s) as i64; let frac: i64 = f as i64; let minus_frac: i64 = (-f) as i64;
            assert(-0x1_ffff_ffff <= sec <= 0x1_ffff_ffff ==> (sec << 30usize) == sec * 0x40000000) by (bit_vector);
            assert(-0x1_ffff_ffff <= minus_sec <= 0x1_ffff_ffff ==> (minus_sec << 30usize) == minus_sec * 0x40000000) by (bit_vector);
            assert(-1_000_000_000 <= frac <= 1_000_000_000 ==> (frac << 30usize) == frac * 0x40000000) by (bit_vector);
            assert(-1_000_000_000 <= minus_frac <= 1_000_000_000 ==> (minus_frac << 30usize) == minus_frac * 0x40000000) by (bit_vector);
            assert(-(minus_frac * T()) == f * T());
        }
//@end
//@for U C in years:31556952 months:2629746 weeks:604800 days:86400 hours:3600 mins:60
//@fn TimeValue :: from_%U%
    pub fn from_%U%(n: i64) -> (r: Self)
        ensures r.0 == sat(n * %C% * T())
//@end
//@endfor
//@for U C in millis:1_000 micros:1_000_000 nanos:1_000_000_000
//@fn TimeValue :: from_%U%
    pub fn from_%U%(n: i64) -> (r: Self)
        ensures r.0 == sat(ticks_of(n as int, %C%))
//@end
//@endfor
}

pub trait IntoTimeValue: Sized {
    spec fn valid(self) -> bool;
//@for U in years months weeks days hours mins secs millis micros nanos ticks
    fn %U%(self) -> TimeValue requires self.valid();
//@endfor
}
//@for N in i8 u8 i16 u16 i32 u32 i64 u64 i128 u128 isize usize
impl IntoTimeValue for %N% {
    open spec fn valid(self) -> bool { true }
//@for U C in years:31556952 months:2629746 weeks:604800 days:86400 hours:3600 mins:60 secs:1
//@fn IntoTimeValue for $num :: %U%
    fn %U%(self) -> (r: TimeValue)
        ensures r.0 == sat(self * %C% * T())
//@macro convert_safely %N%
//@end
//@endfor
//@for U C in millis:1_000 micros:1_000_000 nanos:1_000_000_000
//@fn IntoTimeValue for $num :: %U%
    fn %U%(self) -> (r: TimeValue)
        ensures r.0 == sat(ticks_of(self as int, %C%))
//@macro convert_safely %N%
//@start
        proof { far_ticks(self as int, %C%); }
//@end
//@endfor
//@fn IntoTimeValue for $num :: ticks
    fn ticks(self) -> (r: TimeValue)
        ensures r.0 == sat(self as int)
//@macro convert_safely %N%
//@end
}
//@endfor
/// counts out of the 64-bit range are out of the finite range
proof fn far_ticks(n: int, unit: int)
    requires 1 < unit <= 1_000_000_000
    ensures n >= i64::MAX ==> sat(ticks_of(n, unit)) == M() && sat(ticks_of(i64::MAX as int, unit)) == M(),
        n <= i64::MIN ==> sat(ticks_of(n, unit)) == -M() && sat(ticks_of(i64::MIN as int, unit)) == -M()
{
    let a = if n >= 0 { n } else { -n };
    if a >= i64::MAX { far(a, unit); } far(i64::MAX as int, unit); far(-(i64::MIN as int), unit);
}
proof fn far(a: int, unit: int)
    requires 1 < unit <= 1_000_000_000, a >= i64::MAX
    ensures (a * T()) / unit > M()
{
    division(a * T(), unit);
    let q = (a * T()) / unit;
    if q <= M() { assert(q * unit + unit <= (M() + 1) * unit) by (nonlinear_arith) requires q <= M(), unit > 0;
        assert((M() + 1) * unit <= (M() + 1) * 1_000_000_000) by (nonlinear_arith) requires unit <= 1_000_000_000; }
}

// ---- truncation to a unit (C03) --------------------------------------------------------------------------------------------
impl IntoTimeValue for TimeValue {
    open spec fn valid(self) -> bool { okv(self) }
//@for U C in years:31556952 months:2629746 weeks:604800 days:86400 hours:3600 mins:60 secs:1
//@fn IntoTimeValue for TimeValue :: %U%
    fn %U%(self) -> (r: TimeValue)
        ensures r.0 == if isinf(self.0 as int) { self.0 as int } else { sat(toward0(self.0 as int, %C% * T())) }
//@end
//@endfor
//@for U C in millis:1_000 micros:1_000_000 nanos:1_000_000_000
//@fn IntoTimeValue for TimeValue :: %U%
    fn %U%(self) -> (r: TimeValue)
        ensures r.0 == if isinf(self.0 as int) { self.0 as int } else { sat(toward0(self.0 as int, ticks_of(1, %C%))) }
//@start
        proof { assert(0 < (1 * T()) / %C% < M()) by (compute); }
//@end
//@endfor
//@fn IntoTimeValue for TimeValue :: ticks
    fn ticks(self) -> (r: TimeValue)
        ensures r == self
//@end
}

// ---- conversions (C04) -----------------------------------------------------------------------------------------------------
pub const SUBSEC_BITMASK: i64 = 0x3fff_ffff;
/// the source's own expression of the mask has this value
exec const SOURCE_MASK: i64 ensures SOURCE_MASK == 0x3fff_ffff {
    proof { assert(!((!0i64) << 30usize) == 0x3fff_ffffi64) by (bit_vector); }
//@const - :: SUBSEC_BITMASK
}
/// a number of nanoseconds rounded from ticks: less than one nanosecond away
pub open spec fn near(ns: int, t: int) -> bool { -T() < ns * T() - t * 1_000_000_000 < T() }

impl TimeValue {
//@fn TimeValue :: as_secs
    pub fn as_secs(&self) -> (r: i64)
        ensures r == self.0 as int / T()
//@start
        proof { let x = self.0; assert(x >> 30usize == x / 0x4000_0000) by (bit_vector); }
//@end
//@fn TimeValue :: subsec_nanos
    pub fn subsec_nanos(&self) -> (r: i32)
        ensures 0 <= r < 1_000_000_000, near(r as int, self.0 as int % T())
//@start
        proof {
            let x = self.0;
            assert(x & 0x3fff_ffff == x % 0x4000_0000) by (bit_vector);
            let f = (x & 0x3fff_ffff) as u64;
            let y = (f * 10_000_000_000 + 5_000_000_000) as u64;
            assert(0 <= x & 0x3fff_ffff <= 0x3fff_ffff) by (bit_vector);
            assert(y >> 30usize == y / 0x4000_0000) by (bit_vector);
        }
//@end
//@fn TimeValue :: subsec_micros
    pub fn subsec_micros(&self) -> (r: i32)
        ensures 0 <= r < 1_000_000, exists|ns: int| 0 <= ns < 1_000_000_000 && #[trigger] near(ns, self.0 as int % T()) && r == ns / 1_000
//@rule self . subsec_nanos ( ) ==> ({ let ns = self.subsec_nanos(); assert(near(ns as int, self.0 as int % T())); ns })
//@end
//@fn TimeValue :: subsec_millis
    pub fn subsec_millis(&self) -> (r: i32)
        ensures 0 <= r < 1_000, exists|ns: int| 0 <= ns < 1_000_000_000 && #[trigger] near(ns, self.0 as int % T()) && r == ns / 1_000_000
//@rule self . subsec_nanos ( ) ==> ({ let ns = self.subsec_nanos(); assert(near(ns as int, self.0 as int % T())); ns })
//@end
}

// The time types of chrono and std, and the contracts assumed of them.
pub mod chrono {
    use vstd::prelude::*;
    use core::cmp::Ordering;
    use vstd::std_specs::cmp::*;
    #[verifier::external_body]
    pub struct Duration(i128);
    impl Duration {
        /// length in nanoseconds
        pub uninterp spec fn ns(&self) -> int;
        #[verifier::external_body]
        pub fn nanoseconds(n: i64) -> (r: Duration) ensures r.ns() == n { unimplemented!() }
        #[verifier::external_body]
        pub fn num_nanoseconds(&self) -> (r: Option<i64>) ensures i64::MIN <= self.ns() <= i64::MAX ==> r == Some(self.ns() as i64), !(i64::MIN <= self.ns() <= i64::MAX) ==> r is None { unimplemented!() }
        #[verifier::external_body]
        pub fn zero() -> (r: Duration) ensures r.ns() == 0 { unimplemented!() }
    }
    impl PartialEqSpecImpl for Duration { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, o: &Duration) -> bool { self.ns() == o.ns() } }
    impl PartialEq for Duration { #[verifier::external_body] fn eq(&self, o: &Duration) -> (r: bool) { unimplemented!() } }
    impl PartialOrdSpecImpl for Duration { open spec fn obeys_partial_cmp_spec() -> bool { true }
      open spec fn partial_cmp_spec(&self, o: &Duration) -> Option<Ordering> { if self.ns() < o.ns() { Some(Ordering::Less) } else if self.ns() > o.ns() { Some(Ordering::Greater) } else { Some(Ordering::Equal) } } }
    impl PartialOrd for Duration { #[verifier::external_body] fn partial_cmp(&self, o: &Duration) -> (r: Option<Ordering>) { unimplemented!() } }
}
#[verifier::external_body]
pub struct NaiveDateTime(i128);
impl NaiveDateTime {
    /// nanoseconds since the epoch
    pub uninterp spec fn ns(&self) -> int;
    #[verifier::external_body]
    pub fn from_timestamp_opt(s: i64, n: u32) -> (r: Option<NaiveDateTime>)
        ensures -8_000_000_000_000 < s < 8_000_000_000_000 && n < 1_000_000_000 ==> r is Some && r.unwrap().ns() == s * 1_000_000_000 + n
    { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>) ensures i64::MIN <= self.ns() <= i64::MAX ==> r == Some(self.ns() as i64) { unimplemented!() }
}
/// stands for chrono::DateTime<Tz>, whatever the time zone
#[verifier::external_body]
pub struct DateTime(i128);
impl DateTime {
    pub uninterp spec fn ns(&self) -> int;
    /// `Utc.from_utc_datetime`
    #[verifier::external_body]
    pub fn from_utc_datetime(t: &NaiveDateTime) -> (r: DateTime) ensures r.ns() == t.ns() { unimplemented!() }
    #[verifier::external_body]
    pub fn timestamp_nanos_opt(&self) -> (r: Option<i64>) ensures i64::MIN <= self.ns() <= i64::MAX ==> r == Some(self.ns() as i64) { unimplemented!() }
}
pub mod time {
    use vstd::prelude::*;
    #[verifier::external_body]
    pub struct Duration(i128);
    impl Duration {
        pub uninterp spec fn secs(&self) -> u64;
        pub uninterp spec fn nanos(&self) -> u32;
        #[verifier::external_body]
        pub broadcast proof fn nanos_bound(&self) ensures 0 <= #[trigger] self.nanos() < 1_000_000_000 { }
        #[verifier::external_body]
        pub fn new(s: u64, n: u32) -> (r: Duration) requires n < 1_000_000_000 ensures r.secs() == s, r.nanos() == n { unimplemented!() }
        #[verifier::external_body]
        pub fn as_secs(&self) -> (r: u64) ensures r == self.secs() { unimplemented!() }
        #[verifier::external_body]
        pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.nanos() { unimplemented!() }
    }
}

//@fn From<TimeValue> for chrono::Duration :: from as to_chrono
fn to_chrono(value: TimeValue) -> (r: chrono::Duration)
    requires okv(value)
    ensures r.ns() == (value.0 * 1_000_000_000) / T()
//@start
    proof { let x = (value.0 as i128 * 1_000_000_000) as i128; assert(x >> 30usize == x / 0x4000_0000) by (bit_vector); }
//@end
impl TimeValue {
//@fn TimeValue :: to_duration
    pub fn to_duration(&self) -> (r: chrono::Duration) requires okv(*self) ensures r.ns() == (self.0 * 1_000_000_000) / T()
//@rule ( * self ) . into ( ) ==> to_chrono(*self)
//@rule chrono :: Duration :: from ( $*a ) ==> to_chrono($*a)
//@end
//@fn From<chrono::Duration> for TimeValue :: from as from_chrono
fn from_chrono(t: chrono::Duration) -> (r: TimeValue)
    ensures r.0 == sat(ticks_of(t.ns(), 1_000_000_000))
//@start
    proof { far_ticks(t.ns(), 1_000_000_000); }
//@end
}
//@fn From<TimeValue> for time::Duration :: from as to_std
fn to_std(value: TimeValue) -> (r: time::Duration)
    requires 0 <= value.0
    ensures near(r.secs() * 1_000_000_000 + r.nanos(), value.0 as int)
//@final
//@end
impl TimeValue {
//@fn From<time::Duration> for TimeValue :: from as from_std
fn from_std(t: time::Duration) -> (r: TimeValue)
    ensures r.0 == sat(ticks_of(t.secs() * 1_000_000_000 + t.nanos(), 1_000_000_000))
//@start
    proof {
        t.nanos_bound();
        let s = t.secs(); let n = t.nanos();
        assert(s <= 0x1_ffff_ffff ==> (s as i64) << 30usize == s * 0x4000_0000) by (bit_vector);
        assert(n < 1_000_000_000 ==> (n as i64) << 30usize == n * 0x4000_0000) by (bit_vector);
        quotient((s * 1_000_000_000 + n) * T(), 1_000_000_000, s * T() + (n * T()) / 1_000_000_000);
    }
//@end
}

#[derive(Copy, Clone)]
pub struct Timestamp(pub TimeValue);
impl Timestamp {
//@fn Timestamp :: from_origin
    pub fn from_origin(t: TimeValue) -> (r: Self) ensures r.0 == t
//@end
//@fn Timestamp :: since_origin
    pub fn since_origin(self) -> (r: TimeValue) ensures r == self.0
//@end
//@fn Timestamp :: floor
    pub fn floor(self, period: TimeValue) -> (r: Self)
        requires okv(self.0), 0 < period.0 < M()
        ensures r.0.0 == if isinf(self.0.0 as int) { self.0.0 as int } else { sat(down(self.0.0 as int, period.0 as int)) }
//@end
//@fn Timestamp :: ceil
    pub fn ceil(self, period: TimeValue) -> (r: Self)
        requires okv(self.0), 0 < period.0 < M()
        ensures r.0.0 == if isinf(self.0.0 as int) { self.0.0 as int } else { sat(up(self.0.0 as int, period.0 as int)) }
//@end
//@fn From<NaiveDateTime> for Timestamp :: from as from_naive
    fn from_naive(t: NaiveDateTime) -> (r: Self)
        requires i64::MIN <= t.ns() <= i64::MAX
        ensures r.0.0 == sat(ticks_of(t.ns(), 1_000_000_000))
//@end
//@fn From<DateTime<Tz>> for Timestamp :: from as from_datetime
    fn from_datetime(t: DateTime) -> (r: Self)
        requires i64::MIN <= t.ns() <= i64::MAX
        ensures r.0.0 == sat(ticks_of(t.ns(), 1_000_000_000))
//@end
}
//@fn From<Timestamp> for NaiveDateTime :: from as to_naive
fn to_naive(value: Timestamp) -> (r: NaiveDateTime)
    requires okv(value.0)
    ensures near(r.ns(), value.0.0 as int)
//@end
impl Timestamp {
//@fn Timestamp :: to_datetime
    pub fn to_datetime(&self) -> (r: DateTime) requires okv(self.0) ensures near(r.ns(), self.0.0 as int)
//@rule Utc . from_utc_datetime ( & ( * self ) . into ( ) ) ==> DateTime::from_utc_datetime(&to_naive(*self))
//@end
}

/// there and back again: the same number of nanoseconds to within one, order kept
pub proof fn round_trip(ns: int)
    ensures ({ let t = ticks_of(ns, 1_000_000_000); let b = (t * 1_000_000_000) / T(); -1 <= b - ns <= 1 })
{
}
pub proof fn round_trip_near(ns: int, b: int)
    requires near(b, ticks_of(ns, 1_000_000_000))
    ensures -1 <= b - ns <= 1
{
}
pub proof fn conversions_keep_order(a: int, b: int)
    requires a <= b
    ensures ticks_of(a, 1_000_000_000) <= ticks_of(b, 1_000_000_000), (a * 1_000_000_000) / T() <= (b * 1_000_000_000) / T(),
        sat(ticks_of(a, 1_000_000_000)) <= sat(ticks_of(b, 1_000_000_000))
{
}
/// seconds and sub-second parts recompose the value
pub proof fn recompose(t: int, ns: int)
    requires 0 <= ns < 1_000_000_000, near(ns, t % T())
    ensures near((t / T()) * 1_000_000_000 + ns, t)
{
}
