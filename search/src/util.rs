//! Bridges between the oracle and the crate, and generators.
use crate::ctx::Rng;
use crate::spec::*;
use chronologic::iter::TimeConvexIterator;
use chronologic::*;

pub trait Pt: TimePoint + std::fmt::Debug + std::ops::Add<TimeValue, Output = Self> + std::ops::Sub<TimeValue, Output = Self> {
    fn mk(t: i128) -> Self;
    fn tk(self) -> i128;
}
impl Pt for TimeValue {
    fn mk(t: i128) -> Self { TimeValue::from_ticks(t as i64) }
    fn tk(self) -> i128 { self.as_ticks() as i128 }
}
impl Pt for Timestamp {
    fn mk(t: i128) -> Self { Timestamp::from_origin(TimeValue::from_ticks(t as i64)) }
    fn tk(self) -> i128 { self.since_origin().as_ticks() as i128 }
}
pub fn tv(t: i128) -> TimeValue { TimeValue::mk(t) }
pub fn ts(t: i128) -> Timestamp { Timestamp::mk(t) }

/// an interval from inclusive extended bounds (inverted: the empty one)
pub fn iv<T: Pt>(b: B) -> TimeInterval<T> { if b.0 > b.1 { TimeInterval::empty() } else { TimeInterval::new(T::mk(b.0), T::mk(b.1)) } }
pub fn rd<T: Pt>(i: &TimeInterval<T>) -> B { (i.lower_bound().tk(), i.upper_bound().tk()) }
/// the parts listed by a window, as they are
pub fn parts<T: Pt, I: IntoIterator<Item = TimeInterval<T>>>(i: I) -> S {
    let mut v = vec![];
    for x in i { v.push(rd(&x)); if v.len() > 10_000 { panic!("endless iteration") } }
    v
}
pub fn set<T: Pt>(s: &S) -> TimeSet<T> { s.iter().map(|&b| iv::<T>(b)).collect() }
/// a set built from its parts, or nothing if the construction itself is wrong (another property's matter)
pub fn set_ok<T: Pt>(s: &S) -> Option<TimeSet<T>> { let r = set::<T>(s); (parts(&r) == *s).then_some(r) }

pub fn is_canon<T: Pt>(i: &TimeInterval<T>) -> Result<(), String> {
    let (l, u) = rd(i);
    if l > u { if (l, u) == (M, -M) { Ok(()) } else { Err(format!("inverted bounds [{},{}] instead of the canonical empty interval", l, u)) } }
    else if l >= M || u <= -M || l < -M || u > M { Err(format!("ill-formed interval [{},{}]", l, u)) } else { Ok(()) }
}
pub fn points_of<T: Pt>(i: &TimeInterval<T>) -> S { norm(vec![rd(i)]) }

/// a source of intervals with nothing but next()
pub struct Src<T>(pub std::vec::IntoIter<B>, pub std::marker::PhantomData<T>);
pub fn src<T: Pt>(s: &S) -> Src<T> { Src(s.clone().into_iter(), std::marker::PhantomData) }
impl<T: Pt> Iterator for Src<T> { type Item = TimeInterval<T>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(iv) } fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() } }
impl<T: Pt> TimeConvexIterator for Src<T> { type TimePoint = T; }

/// all the canonical sets with finite bounds in 0..n, possibly unbounded on each side
pub fn small_sets(n: usize) -> Vec<S> {
    let mut r: Vec<S> = vec![];
    for mask in 0u32..(1 << n) {
        for ends in 0..4 {
            let mut v: S = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| (i as i128, i as i128)).collect();
            if ends & 1 == 1 { v.push((-M, -1)) }
            if ends & 2 == 2 { v.push((n as i128, M)) }
            r.push(norm(v));
        }
    }
    r.sort(); r.dedup();
    r
}
pub const EXT: [i128; 11] = [-M, -M + 1, -M + 2, -M + 3, -1, 0, 1, M - 3, M - 2, M - 1, M];
pub fn bound(r: &mut Rng) -> i128 {
    match r.below(10) {
        0..=3 => r.range(-8, 8) as i128,
        4 | 5 => *r.pick(&EXT),
        6 => r.range(-(1 << 40), 1 << 40) as i128,
        7 => { let k = r.below(63); let s = if r.chance(1, 2) { 1 } else { -1 }; (s * ((1i128 << k) + r.range(-2, 2) as i128)).clamp(-M, M) }
        _ => (r.next() as i64 as i128).max(-M),
    }
}
pub fn rset(r: &mut Rng, parts: u64) -> S {
    let k = r.below(parts + 1);
    let wide = r.chance(1, 2);
    norm((0..k).map(|_| {
        if wide { let (a, b) = (bound(r), bound(r)); if r.chance(1, 2) { (a.min(b), a.max(b)) } else { (a, (a + r.below(6) as i128).min(M)) } }
        else { let a = r.range(-20, 20) as i128; let mut x = (a, a + r.below(5) as i128);
               if r.chance(1, 24) { x.0 = -M } if r.chance(1, 24) { x.1 = M } x }
    }).collect())
}
/// bounded away from the ends of the time line
pub fn mset(r: &mut Rng, parts: u64, mag: i64) -> S {
    let k = r.below(parts + 1);
    norm((0..k).map(|_| { let a = r.range(-mag, mag) as i128; let b = a + if r.chance(1, 3) { r.range(0, mag) as i128 } else { r.below(4) as i128 };
        (if r.chance(1, 12) { -M } else { a }, if r.chance(1, 12) { M } else { b }) }).collect())
}
pub fn span_text(s: &S) -> String {
    if s.is_empty() { return "{}".into() }
    let b = |x: i128| if x == M { "+oo".to_string() } else if x == -M { "-oo".into() } else if x > M - 1000 { format!("MAX-{}", M - x) } else if x < -M + 1000 { format!("-MAX+{}", M + x) } else { x.to_string() };
    s.iter().map(|&(l, u)| format!("[{},{}]", b(l), b(u))).collect::<Vec<_>>().join("U")
}
/// checks a window given by its parts against the exact expected canonical parts
pub fn expect_parts(what: &str, got: S, exp: &S) -> Result<(), String> {
    if got == *exp { Ok(()) } else {
        let n = norm(got.clone());
        Err(format!("{}: got {}, expected {}{}", what, span_text(&got), span_text(exp), if n == *exp { " (same points, but not canonical)" } else { "" }))
    }
}

/// the interval if its construction is right, or nothing (another property's matter)
pub fn iv_ok<T: Pt>(b: B) -> Option<TimeInterval<T>> {
    let i = iv::<T>(b);
    (points_of(&i) == norm(vec![b]) && is_canon(&i).is_ok()).then_some(i)
}
/// the same for a set of at most one part
pub fn iv_set_ok<T: Pt>(s: &S) -> Option<TimeInterval<T>> { iv_ok(s.first().copied().unwrap_or((1, 0))) }
pub fn win_ok<T: Pt, W: TimeWindow<TimePoint = T>>(w: &W, s: &S) -> bool {
    w.is_empty() == s.is_empty() && (s.is_empty() || (w.lower_bound().tk() == s[0].0 && w.upper_bound().tk() == s[s.len() - 1].1)) && parts(w.iter()) == *s
}
/// runs a block for each convex window type which can hold these points
#[macro_export]
macro_rules! each_convex {
    ($t:ty, $s:expr, $w:ident, $b:block) => {{
        let s: &$crate::spec::S = $s;
        if s.len() <= 1 {
            let (lo, up) = s.first().copied().unwrap_or((5, 3));
            let (l, u) = (<$t>::mk(lo), <$t>::mk(up));
            { let $w = $crate::util::iv::<$t>((lo, up)); if win_ok(&$w, s) $b }
            { let $w = l..=u; if win_ok(&$w, s) $b }
            if up < M - 1 { let $w = l..<$t>::mk(up + 1); if win_ok(&$w, s) $b }
            if lo == up && lo.abs() < M { let $w = l; if win_ok(&$w, s) $b }
            if up == M { let $w = l..; if win_ok(&$w, s) $b }
            if lo == -M { let $w = ..=u; if win_ok(&$w, s) $b }
            if lo == -M && up < M - 1 { let $w = ..<$t>::mk(up + 1); if win_ok(&$w, s) $b }
        }
    }};
}
/// runs a block for each window type which can hold these points
#[macro_export]
macro_rules! each_window {
    ($t:ty, $s:expr, $w:ident, $b:block) => {{
        if let Some($w) = $crate::util::set_ok::<$t>($s) $b
        $crate::each_convex!($t, $s, $w, $b);
    }};
}
