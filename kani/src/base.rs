pub use chronologic::*;
pub const M: i128 = i64::MAX as i128;
/// saturation on the extended integer line
pub fn sat(x: i128) -> i128 { if x > M { M } else if x < -M { -M } else { x } }
pub fn inf(x: i128) -> bool { x == M || x == -M }
pub fn clash(a: i128, b: i128) -> bool { (a == M && b == -M) || (a == -M && b == M) }
pub fn add(a: i128, b: i128) -> i128 { if inf(a) { a } else if inf(b) { b } else { sat(a + b) } }
pub trait Pt: TimePoint + std::ops::Add<TimeValue, Output = Self> + std::ops::Sub<TimeValue, Output = Self> { fn k(self) -> i128; fn mk(t: i128) -> Self; }
impl Pt for TimeValue { fn k(self) -> i128 { self.as_ticks() as i128 } fn mk(t: i128) -> Self { TimeValue::from_ticks(t as i64) } }
impl Pt for Timestamp { fn k(self) -> i128 { self.since_origin().as_ticks() as i128 } fn mk(t: i128) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t as i64)) } }
pub trait Arb { fn arb() -> Self; }
macro_rules! arb_int { ($($t:ty),*) => { $( impl Arb for $t { fn arb() -> Self { kani::any() } } )* } }
arb_int!(i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize, bool);
/// every value of the extended line
impl Arb for TimeValue { fn arb() -> Self { let t: i64 = kani::any(); kani::assume(t != i64::MIN); TimeValue::from_ticks(t) } }
impl Arb for Timestamp { fn arb() -> Self { Timestamp::from_origin(TimeValue::arb()) } }
/// every interval, whatever the two bounds
impl<T: Pt + Arb> Arb for TimeInterval<T> { fn arb() -> Self { TimeInterval::new(T::arb(), T::arb()) } }
pub fn lo<T: Pt>(i: &TimeInterval<T>) -> i128 { i.lower_bound().k() }
pub fn up<T: Pt>(i: &TimeInterval<T>) -> i128 { i.upper_bound().k() }
/// the interval [l,u], canonically empty when it has no finite point
pub fn is<T: Pt>(i: &TimeInterval<T>, l: i128, u: i128) -> bool {
    if l > u || l >= M || u <= -M { lo(i) == M && up(i) == -M } else { lo(i) == l && up(i) == u }
}
pub fn wf<T: Pt>(i: &TimeInterval<T>) -> bool { (lo(i) == M && up(i) == -M) || (lo(i) <= up(i) && lo(i) < M && up(i) > -M) }
pub fn void<T: Pt>(i: &TimeInterval<T>) -> bool { lo(i) == M }
/// a point which is reached only if the code above has returned: a failure which is not a panic
pub fn returned() { unsafe { let p = std::hint::black_box(0usize) as *const u64; std::hint::black_box(p.read_unaligned()); } }

#[macro_export]
macro_rules! contract {
    ($h:ident, $f:ident, fn($($a:ident : $t:ty),*) -> $r:ty { $($body:tt)* } requires($($req:tt)*) ensures(|$o:ident| $($ens:tt)*)) => {
        #[kani::requires($($req)*)]
        #[kani::ensures(|$o: &$r| $($ens)*)]
        fn $f($($a: $t),*) -> $r { $($body)* }
        #[kani::proof_for_contract($f)]
        fn $h() { $f($(<$t as Arb>::arb()),*); }
    };
    ($h:ident, $f:ident, fn($($a:ident : $t:ty),*) -> $r:ty { $($body:tt)* } ensures(|$o:ident| $($ens:tt)*)) => {
        contract!($h, $f, fn($($a : $t),*) -> $r { $($body)* } requires(true) ensures(|$o| $($ens)*));
    };
}
/// the code never returns for these inputs: it always panics
#[macro_export]
macro_rules! always_panics {
    ($h:ident, fn($($a:ident : $t:ty),*) { $($body:tt)* } requires($($req:tt)*)) => {
        #[kani::proof] #[kani::should_panic]
        fn $h() { $( let $a = <$t as Arb>::arb(); )* kani::assume($($req)*); { $($body)* }; returned(); }
    };
}
/// the same contract for the operations in place, stated as a triple (the frame checks that Kani adds
/// to a contract make these ones a hundred times slower, and there is nothing to frame: the only
/// memory written is the local variable)
#[macro_export]
macro_rules! triple {
    ($h:ident, $f:ident, fn($($a:ident : $t:ty),*) -> $r:ty { $($body:tt)* } requires($($req:tt)*) ensures(|$o:ident| $($ens:tt)*)) => {
        fn $f($($a: $t),*) -> $r { $($body)* }
        #[kani::proof]
        fn $h() { $( let $a = <$t as Arb>::arb(); )* kani::assume($($req)*); let r = $f($($a.clone()),*); let $o = &r; assert!($($ens)*); }
    };
    ($h:ident, $f:ident, fn($($a:ident : $t:ty),*) -> $r:ty { $($body:tt)* } ensures(|$o:ident| $($ens:tt)*)) => {
        triple!($h, $f, fn($($a : $t),*) -> $r { $($body)* } requires(true) ensures(|$o| $($ens)*));
    };
}
/// both time points: durations and dates
#[macro_export]
macro_rules! both { ($($i:item)*) => {
    mod durations { use super::*; type T = TimeValue; $($i)* }
    mod dates { use super::*; type T = Timestamp; $($i)* }
} }
use std::ops::*;
/// a convex window seen as its bounds, from what it is made of (the oracle of the window questions)
pub trait Win { type P: Pt; fn raw(&self) -> (i128, i128); }
impl<T: Pt> Win for TimeInterval<T> { type P = T; fn raw(&self) -> (i128, i128) { (lo(self), up(self)) } }
impl Win for TimeValue { type P = TimeValue; fn raw(&self) -> (i128, i128) { (self.k(), self.k()) } }
impl Win for Timestamp { type P = Timestamp; fn raw(&self) -> (i128, i128) { (self.k(), self.k()) } }
impl<T: Pt> Win for Range<T> { type P = T; fn raw(&self) -> (i128, i128) { if self.start.k() >= self.end.k() { (M, -M) } else { (self.start.k(), if self.end.k() == M { M } else { self.end.k() - 1 }) } } }
impl<T: Pt> Win for RangeInclusive<T> { type P = T; fn raw(&self) -> (i128, i128) { (self.start().k(), self.end().k()) } }
impl<T: Pt> Win for RangeFrom<T> { type P = T; fn raw(&self) -> (i128, i128) { (self.start.k(), M) } }
impl<T: Pt> Win for RangeTo<T> { type P = T; fn raw(&self) -> (i128, i128) { (-M, if self.end.k() == M { M } else { self.end.k() - 1 }) } }
impl<T: Pt> Win for RangeToInclusive<T> { type P = T; fn raw(&self) -> (i128, i128) { (-M, self.end.k()) } }
impl<T: Pt + Arb> Arb for Range<T> { fn arb() -> Self { T::arb()..T::arb() } }
impl<T: Pt + Arb> Arb for RangeInclusive<T> { fn arb() -> Self { T::arb()..=T::arb() } }
impl<T: Pt + Arb> Arb for RangeFrom<T> { fn arb() -> Self { T::arb().. } }
impl<T: Pt + Arb> Arb for RangeTo<T> { fn arb() -> Self { ..T::arb() } }
impl<T: Pt + Arb> Arb for RangeToInclusive<T> { fn arb() -> Self { ..=T::arb() } }
/// its canonical bounds: (M, -M) when it has no finite point
pub fn canon(b: (i128, i128)) -> (i128, i128) { if b.0 > b.1 || b.0 >= M || b.1 <= -M { (M, -M) } else { b } }
pub fn cb<W: Win>(w: &W) -> (i128, i128) { canon(w.raw()) }
/// infinite points are not windows: every other value is one
pub fn window<W: Win>(w: &W, point: bool) -> bool { !point || !inf(w.raw().0) }
/// the parts of a set of at most two intervals
pub fn parts<T: Pt>(s: &TimeSet<T>) -> [Option<(i128, i128)>; 3] {
    let mut it = s.iter();
    let mut f = || it.next().map(|i| (lo(&i), up(&i)));
    [f(), f(), f()]
}
/// exactly these points, canonically
pub fn are(p: [Option<(i128, i128)>; 3], a: (i128, i128), b: (i128, i128)) -> bool {
    let (a, b) = (canon(a), canon(b));
    if a.0 == M { p == [if b.0 == M { None } else { Some(b) }, None, None] }
    else if b.0 == M { p == [Some(a), None, None] }
    else {
        let (a, b) = if a.0 <= b.0 { (a, b) } else { (b, a) };
        if b.0 <= a.1 + 1 { p == [Some((a.0, if a.1 > b.1 { a.1 } else { b.1 })), None, None] } else { p == [Some(a), Some(b), None] }
    }
}
