use crate::ctx::*;
use crate::p_graph::*;
use crate::spec::*;
use crate::util::*;
use crate::{ensure, same};
use chronologic::iter::*;
use chronologic::graph::*;
use chronologic::*;

#[derive(Debug, Clone, Copy, PartialEq)]
enum Kind { Forward, Backward, Periods, BackPeriods }
/// the exact sequence: first date, signed step, number of dates
fn model(kind: Kind, t: i128, p: i128) -> Option<(i128, i128, i128)> {
    let (first, step) = match kind { Kind::Forward => (t, p), Kind::Backward => (t, -p), Kind::Periods | Kind::BackPeriods => (t.div_euclid(p) * p + if t.rem_euclid(p) == 0 { 0 } else { p }, if kind == Kind::Periods { p } else { -p }) };
    if first.abs() >= M || (first - step).abs() >= M { return None } // the domain: the step before the first one stays finite
    let n = if step > 0 { (M - 1 - first) / step + 1 } else { (first - (1 - M)) / -step + 1 };
    Some((first, step, n))
}
macro_rules! seq_check { ($s:expr, $m:expr, $skips:expr) => {{
    let (first, step, n) = $m;
    let item = |k: i128| if k < n { Some(first + k * step) } else { None };
    let mut s = $s; let mut k: i128 = 0; // k: dates already passed
    let hint = |s: &_, k: i128| -> Result<(), String> { let h = Iterator::size_hint(s); let r = (n - k).max(0) as usize; same!(format!("size hint after {} dates", k), h, (r, Some(r))); Ok(()) };
    hint(&s, 0)?;
    same!("count", s.clone().count() as i128, n);
    same!("last", s.clone().last().map(|x| x.tk()), item(n - 1));
    for &j in $skips.iter() {
        if j == 0 { same!(format!("date {}", k), s.next().map(|x| x.tk()), item(k)); k += 1; }
        else { same!(format!("nth({}) after {} dates", j - 1, k), s.nth((j - 1) as usize).map(|x| x.tk()), item(k + j as i128 - 1)); k += j as i128; }
        hint(&s, k)?;
        same!(format!("count after {} dates", k), s.clone().count() as i128, (n - k).max(0));
        same!(format!("last after {} dates", k), s.clone().last().map(|x| x.tk()), if k < n { item(n - 1) } else { None });
        if k > n + 2 { break }
    }
    if n - k < 50 { let rest: Vec<i128> = s.by_ref().take(60).map(|x| x.tk()).collect(); let e: Vec<i128> = (k..n).map(|x| first + x * step).collect(); same!(format!("dates left after {} dates", k), rest, e); for _ in 0..3 { same!("an exhausted sequence", s.next(), None); } same!("nth of an exhausted sequence", s.nth(2), None); }
    Ok(())
}}; }
fn sequence(kind: Kind, t: i128, p: i128, skips: &[u64]) -> Result<(), String> {
    let Some(m) = model(kind, t, p) else { return Ok(()) };
    match kind { Kind::Forward => seq_check!(ts(t).forward_sequence(tv(p)), m, skips), Kind::Backward => seq_check!(ts(t).backward_sequence(tv(p)), m, skips), Kind::Periods => seq_check!(ts(t).forward_periods(tv(p)), m, skips), Kind::BackPeriods => seq_check!(ts(t).backward_periods(tv(p)), m, skips) }
}
pub fn c20(c: &mut Ctx) {
    const KINDS: [Kind; 4] = [Kind::Forward, Kind::Backward, Kind::Periods, Kind::BackPeriods];
    c.stage("small and extreme sequences", 0);
    for k in KINDS { for t in [-M + 2, -M + 9, -M + 40, -20, -7, -1, 0, 1, 5, 12, M - 40, M - 9, M - 2] { for p in [1, 2, 3, 7, 10, 1000, 1 << 40, M / 3, M / 2, M / 2 + 1, M - 2, M - 1] { for sk in [&[0u64, 0, 0, 0][..], &[3, 0, 2, 1, 0], &[1, 1, 5, 0], &[1000, 0, 1], &[u64::MAX / 2, 0, 1], &[2, 1 << 62, 0, 3]] {
        c.case(|| format!("{:?} from {} by {}, steps {:?}", k, t, p, sk), || sequence(k, t, p, sk)); } } } }
    c.stage("periods which are not strictly positive", 0);
    for t in [-M + 3, -20, 0, 5, M - 3] { for p in [0, -1, -7, 1 - M, -M] { for k in KINDS {
        c.case(|| format!("{:?} from {} by {}", k, t, p), || {
            let r = no_panic(|| match k { Kind::Forward => drop(ts(t).forward_sequence(tv(p))), Kind::Backward => drop(ts(t).backward_sequence(tv(p))), Kind::Periods => drop(ts(t).forward_periods(tv(p))), Kind::BackPeriods => drop(ts(t).backward_periods(tv(p))) });
            ensure!(r.is_err(), "a period of {} is accepted", p); Ok(()) });
    } } }
    c.stage("random", 70);
    while c.more() {
        let k = *c.rng.pick(&KINDS); let t = bound(&mut c.rng); let mut p = bound(&mut c.rng).abs().max(1);
        if c.rng.chance(1, 2) { p = ((M - t.abs()) / (1 + c.rng.below(40) as i128)).max(1) }
        if t.abs() == M || p >= M { continue }
        let sk: Vec<u64> = (0..c.rng.below(7)).map(|_| match c.rng.below(4) { 0 => 0, 1 => c.rng.below(5), 2 => c.rng.below(60), _ => c.rng.next() >> c.rng.below(60) }).collect();
        c.case(|| format!("{:?} from {} by {}, steps {:?}", k, t, p, sk), || sequence(k, t, p, &sk));
    }
}

// ------------------------------------------------------------------ C21
/// steps an iterator to its end: the announced bounds hold at every moment, and the end is final
fn protocol<I: Iterator>(what: &str, it: impl Fn() -> I) -> Result<(), String> {
    let mut total = 0usize;
    { let mut i = it(); while i.next().is_some() { total += 1; if total > 5000 { return Err(format!("{}: endless", what)) } } }
    let mut i = it();
    for k in 0..=total {
        let left = total - k;
        let (lo, hi) = i.size_hint();
        ensure!(lo <= left && hi.map_or(true, |h| left <= h), "{}: size hint {:?} after {} items while {} remain", what, (lo, hi), k, left);
        let n = i.next();
        ensure!(n.is_some() == (k < total), "{}: item {} appears or disappears", what, k);
    }
    for _ in 0..3 {
        ensure!(i.next().is_none(), "{}: an exhausted iterator yields again", what);
        let (lo, _) = i.size_hint();
        ensure!(lo == 0, "{}: size hint {} of an exhausted iterator", what, lo);
    }
    Ok(())
}
/// like a source, but not fused: yields again after its end, and announces little
struct Rude(Vec<B>, usize, u8);
impl Iterator for Rude { type Item = TimeInterval<TimeValue>;
    fn next(&mut self) -> Option<Self::Item> { let n = self.0.len(); let k = self.1; self.1 += 1; if k % (n + 1) == n { None } else { Some(iv(self.0[k % (n + 1)])) } }
    fn size_hint(&self) -> (usize, Option<usize>) { let left = self.0.len().saturating_sub(self.1); match self.2 { 0 => (0, None), 1 => (left, Some(left)), 2 => (left, None), _ => (0, Some(left + 3)) } } }
impl TimeConvexIterator for Rude { type TimePoint = TimeValue; }
struct Vast(std::vec::IntoIter<B>);
impl Iterator for Vast { type Item = TimeInterval<TimeValue>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(iv) } fn size_hint(&self) -> (usize, Option<usize>) { (0, Some(usize::MAX)) } }
impl TimeConvexIterator for Vast { type TimePoint = TimeValue; }
fn interval_iterators(a: &S, b: &S) -> Result<(), String> {
    let s = |x: &S| src::<TimeValue>(x);
    protocol("union", || s(a).union(s(b)))?; protocol("intersection", || s(a).intersection(s(b)))?; protocol("complement", || s(a).complementary())?; protocol("exclusion", || s(a).exclusion(s(b)))?;
    protocol("double complement", || s(a).complementary().complementary())?;
    for f in 0..4u8 { for g in [0u8, 1, 3] {
        let r = |x: &S, f: u8| Rude(x.clone(), 0, f);
        protocol("union of unfused sources", || r(a, f).union(r(b, g)))?; protocol("intersection of unfused sources", || r(a, f).intersection(r(b, g)))?;
        protocol("complement of an unfused source", || r(a, f).complementary())?;
    } }
    protocol("union of sources with vast hints", || Vast(a.clone().into_iter()).union(Vast(b.clone().into_iter())))?;
    protocol("intersection of sources with vast hints", || Vast(a.clone().into_iter()).intersection(Vast(b.clone().into_iter())))?;
    protocol("complement of a source with a vast hint", || Vast(a.clone().into_iter()).complementary())?;
    if let Some(x) = set_ok::<TimeValue>(a) { protocol("set", || x.clone().into_iter())?; protocol("set reference", || (&x).into_iter())?; protocol("window", || x.iter())?; 
        same!("count of a set iterator", (&x).into_iter().count(), a.len()); same!("last of a set iterator", (&x).into_iter().last().map(|i| rd(&i)), a.last().copied());
        for n in 0..a.len() + 2 { let mut i = (&x).into_iter(); same!("nth of a set iterator", i.nth(n).map(|i| rd(&i)), a.get(n).copied()); same!("next after nth", i.next().map(|i| rd(&i)), a.get(n + 1).copied());
            let mut u = s(a).union(s(b)); let all = parts(s(a).union(s(b))); same!("nth of a union", u.nth(n).map(|i| rd(&i)), all.get(n).copied()); same!("next after nth of a union", u.next().map(|i| rd(&i)), all.get(n + 1).copied());
            let mut u = s(a).intersection(s(b)); let all = parts(s(a).intersection(s(b))); same!("nth of an intersection", u.nth(n).map(|i| rd(&i)), all.get(n).copied());
            let mut u = s(a).complementary(); let all = parts(s(a).complementary()); same!("nth of a complement", u.nth(n).map(|i| rd(&i)), all.get(n).copied()); }
    }
    Ok(())
}
fn graph_iterators(n: u32, ks: &[K]) -> Result<(), String> {
    let mut g = TimeGraph::with_size(n);
    for k in ks { let _ = g.propagate(((k.0, k.1), iv::<TimeValue>(k.2))); }
    protocol("graph constraints", || g.iter())?;
    for i in (0..g.size() + 2).chain([u32::MAX]) { protocol("constraints from an instant", || g.constraints_from(i))?; protocol("constraints to an instant", || g.constraints_to(i))?; }
    Ok(())
}
pub fn c21(c: &mut Ctx) {
    let v = small_sets(3);
    c.stage("small sets", 0);
    for a in &v { for b in &v { c.case(|| format!("{} and {}", span_text(a), span_text(b)), || interval_iterators(a, b)); } }
    c.stage("random sets", 40);
    while c.more() { let (a, b) = (rset(&mut c.rng, 7), rset(&mut c.rng, 7)); c.case(|| format!("{} and {}", span_text(&a), span_text(&b)), || interval_iterators(&a, &b)); }
    c.stage("random graphs", 40);
    while c.more() { let n = c.rng.below(7) as u32; let m = c.rng.below(8); let ks = rks(&mut c.rng, n.max(1), m, true); c.case(|| format!("graph of {} instants with {:?}", n, ks), || graph_iterators(n, &ks)); }
}
