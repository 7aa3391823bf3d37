use crate::ctx::*;
use crate::spec::*;
use crate::util::*;
use crate::{ensure, same, each_convex, each_window};
use chronologic::*;

fn bounds_pool() -> Vec<i128> { let mut v: Vec<i128> = EXT.to_vec(); v.extend([-7, 5, 9, 1 << 40, -(1 << 40)]); v.sort(); v }

fn check_interval<T: Pt>(what: &str, i: TimeInterval<T>, exp: &S) -> Result<(), String> {
    is_canon(&i).map_err(|e| format!("{}: {}", what, e))?;
    same!(what, points_of(&i), *exp);
    describe(what, &i, exp)
}
/// all the questions about a window, against its points
fn describe<T: Pt, W: TimeWindow<TimePoint = T>>(what: &str, w: &W, s: &S) -> Result<(), String> {
    let (lo, up) = (s.first().map_or(M, |x| x.0), s.last().map_or(-M, |x| x.1));
    let e = s.is_empty();
    same!(format!("{}.is_empty", what), w.is_empty(), e);
    same!(format!("{}.lower_bound", what), w.lower_bound().tk(), lo);
    same!(format!("{}.upper_bound", what), w.upper_bound().tk(), up);
    same!(format!("{}.is_singleton", what), w.is_singleton(), s.len() == 1 && lo == up);
    same!(format!("{}.is_low_bounded", what), w.is_low_bounded(), !e && lo > -M);
    same!(format!("{}.is_up_bounded", what), w.is_up_bounded(), !e && up < M);
    same!(format!("{}.is_bounded", what), w.is_bounded(), !e && lo > -M && up < M);
    same!(format!("{}.is_all", what), w.is_all(), *s == vec![(-M, M)]);
    same!(format!("{}.convex_count", what), w.convex_count(), s.len());
    same!(format!("{}.is_convex", what), w.is_convex(), s.len() <= 1);
    let env = w.convex_envelope();
    is_canon(&env)?;
    same!(format!("{}.convex_envelope", what), points_of(&env), if e { vec![] } else { vec![(lo, up)] });
    expect_parts(&format!("{}.iter", what), parts(w.iter()), s)
}



pub fn c05(c: &mut Ctx) {
    let v = bounds_pool();
    c.stage("constants", 0);
    c.case(|| "constants".into(), || {
        check_interval::<TimeValue>("empty", TimeInterval::empty(), &vec![])?; check_interval::<TimeValue>("default", TimeInterval::default(), &vec![])?;
        check_interval::<Timestamp>("all", TimeInterval::all(), &vec![(-M, M)])?; check_interval::<Timestamp>("from ..", TimeInterval::from(..), &vec![(-M, M)])?;
        expect_parts("set empty", parts(&TimeSlots::empty()), &vec![])?; expect_parts("set all", parts(&TimeSlots::all()), &vec![(-M, M)])?;
        describe("set empty", &TimeSpans::empty(), &vec![])?; describe("set all", &TimeSpans::all(), &vec![(-M, M)])
    });
    c.stage("one and two bounds at the pool", 0);
    for &a in &v { c.case(|| format!("bound {}", a), || { tvm::one(a)?; tsm::one(a) }); }
    for &a in &v { for &b in &v { c.case(|| format!("bounds {} and {}", a, b), || { tvm::two(a, b)?; tsm::two(a, b)?; duration(a, b) }); } }
    for &a in &v { for &b in &v { for &d in &v { c.case(|| format!("bounds {} and {} enlarged by {}", a, b, d), || { tvm::three(a, b, d).or_else(skip)?; tsm::three(a, b, d).or_else(skip) }); } } }
    c.stage("sets", 0);
    for s in small_sets(5) { c.case(|| span_text(&s), || describe_set(&s)); }
    c.stage("random", 60);
    while c.more() {
        let (a, b, d) = (bound(&mut c.rng), bound(&mut c.rng), bound(&mut c.rng)); let s = rset(&mut c.rng, 6);
        c.case(|| format!("bounds {} {} and {}, set {}", a, b, d, span_text(&s)), || {
            tvm::one(a)?; tvm::two(a, b)?; tsm::two(a, b)?; duration(a, b)?; tvm::three(a, b, d).or_else(skip)?; describe_set(&s) });
    }
}
fn describe_set(s: &S) -> Result<(), String> {
    if let Some(t) = set_ok::<TimeValue>(s) { describe("set", &t, s)?; expect_parts("set by value", parts(t.clone().into_iter()), s)?; expect_parts("set by reference", parts(&t), s)?; }
    Ok(())
}
/// a case which needs a window that could not be built: another property's matter
pub fn skip(e: String) -> Result<(), String> { if e.is_empty() { Ok(()) } else { Err(e) } }
fn duration(a: i128, b: i128) -> Result<(), String> {
    let s = norm(vec![(a, b)]);
    let d = if s.is_empty() { 0 } else if a == -M || b == M { M } else { (b - a).min(M) };
    same!("duration", TimeSlot::new(ts(a), ts(b)).duration().tk(), d);
    Ok(())
}

// ------------------------------------------------------------------ relations


pub fn c10(c: &mut Ctx) {
    let v = small_sets(3);
    c.stage("all pairs of small windows", 0);
    for a in &v { for b in &v { c.case(|| format!("{} and {}", span_text(a), span_text(b)), || { tvm::relations_contain(a, b)?; tsm::relations_contain(a, b) }); } }
    c.stage("extreme intervals", 0);
    for &a in &EXT { for &b in &EXT { for &p in &EXT { for &q in &EXT { if a <= b && p <= q { let (x, y) = (norm(vec![(a, b)]), norm(vec![(p, q)]));
        c.case(|| format!("{} and {}", span_text(&x), span_text(&y)), || tvm::relations_contain(&x, &y)); } } } } }
    c.stage("random", 60);
    while c.more() {
        let a = rset(&mut c.rng, 6); let mut b = rset(&mut c.rng, 4);
        if c.rng.chance(1, 2) { b = inter(&a, &b) }
        c.case(|| format!("{} and {}", span_text(&a), span_text(&b)), || tsm::relations_contain(&a, &b));
    }
}


pub fn c11(c: &mut Ctx) {
    let v = small_sets(4);
    c.stage("all pairs of small windows", 0);
    for a in &v { for b in &v { c.case(|| format!("{} and {}", span_text(a), span_text(b)), || { tvm::precedence(a, b)?; tsm::precedence(a, b) }); } }
    c.stage("extreme intervals", 0);
    for &a in &EXT { for &b in &EXT { for &p in &EXT { for &q in &EXT { if a <= b && p <= q { let (x, y) = (norm(vec![(a, b)]), norm(vec![(p, q)]));
        c.case(|| format!("{} and {}", span_text(&x), span_text(&y)), || tvm::precedence(&x, &y)); } } } } }
    c.stage("random", 60);
    while c.more() {
        let a = rset(&mut c.rng, 5); let b = if c.rng.chance(1, 4) { a.clone() } else { rset(&mut c.rng, 5) };
        c.case(|| format!("{} and {}", span_text(&a), span_text(&b)), || tsm::precedence(&a, &b));
    }
}


pub fn c14(c: &mut Ctx) {
    c.stage("small windows", 0);
    for s in small_sets(6) { for b in (-2..9).chain([-M, -M + 1, M - 1, M]) { c.case(|| format!("{} at {}", span_text(&s), b), || { tvm::truncation(&s, b)?; tsm::truncation(&s, b) }); } }
    c.stage("extreme intervals", 0);
    for &a in &EXT { for &b in &EXT { for &p in &EXT { if a <= b { let s = norm(vec![(a, b)]); c.case(|| format!("{} at {}", span_text(&s), p), || tvm::truncation(&s, p)); } } } }
    c.stage("random", 60);
    while c.more() {
        let s = rset(&mut c.rng, 7); let b = if s.is_empty() || c.rng.chance(1, 3) { bound(&mut c.rng) } else { let p = *c.rng.pick(&s); ((if c.rng.chance(1, 2) { p.0 } else { p.1 }) + c.rng.range(-1, 1) as i128).clamp(-M, M) };
        c.case(|| format!("{} at {}", span_text(&s), b), || tvm::truncation(&s, b));
    }
}

macro_rules! typed { ($($i:item)*) => { mod tvm { use super::*; type T = TimeValue; $($i)* } mod tsm { use super::*; type T = Timestamp; $($i)* } } }
typed! {
pub fn one(a: i128) -> Result<(), String> {
    let t = T::mk(a);
    check_interval("singleton", TimeInterval::singleton(t), &(if a.abs() < M { vec![(a, a)] } else { vec![] }))?;
    check_interval("from point", TimeInterval::from(t), &(if a.abs() < M { vec![(a, a)] } else { vec![] }))?;
    check_interval("after", TimeInterval::after(t), &norm(vec![(a, M)]))?;
    check_interval("before", TimeInterval::before(t), &norm(vec![(-M, a)]))?;
    check_interval("from t..", TimeInterval::from(t..), &norm(vec![(a, M)]))?;
    check_interval("from ..=t", TimeInterval::from(..=t), &norm(vec![(-M, a)]))?;
    let u = if a == M { M } else { a - 1 };
    check_interval("from ..t", TimeInterval::from(..t), &norm(vec![(-M, u)]))?;
    describe("t..", &(t..), &norm(vec![(a, M)]))?;
    describe("..=t", &(..=t), &norm(vec![(-M, a)]))?;
    describe("..t", &(..t), &norm(vec![(-M, u)]))?;
    if a.abs() < M { describe("point", &t, &vec![(a, a)])?; }
    let s = TimeSet::singleton(t);
    expect_parts("set singleton", parts(&s), &(if a.abs() < M { vec![(a, a)] } else { vec![] }))?;
    Ok(())
}
pub fn two(a: i128, b: i128) -> Result<(), String> {
    let (x, y) = (T::mk(a), T::mk(b));
    let s = norm(vec![(a, b)]);
    check_interval("new", TimeInterval::new(x, y), &s)?;
    check_interval("from pair", TimeInterval::from((x, y)), &s)?;
    check_interval("from x..=y", TimeInterval::from(x..=y), &s)?;
    describe("x..=y", &(x..=y), &s)?;
    let h = if a >= b { vec![] } else { norm(vec![(a, if b == M { M } else { b - 1 })]) };
    check_interval("from x..y", TimeInterval::from(x..y), &h)?;
    describe("x..y", &(x..y), &h)?;
    let t = TimeSet::convex(x, y);
    expect_parts("set convex", parts(&t), &s)?;
    describe("set", &t, &s)?;
    if !s.is_empty() { check_interval("new_unchecked", unsafe { TimeInterval::new_unchecked(x, y) }, &s)?; }
    let i = TimeInterval::new(x, y);
    check_interval("opposite", -i, &neg(&s))?;
    expect_parts("into_iter", parts(i), &s)?;
    expect_parts("set from interval", parts(&TimeSet::from(i)), &s)?;
    // centre, radius and enlargement
    if a.abs() < M {
        let c = TimeInterval::centered(x, TimeValue::mk(b));
        if b < 0 { ensure!(c.is_none(), "centered with a negative radius"); }
        else { check_interval("centered", c.ok_or("centered gives nothing")?, &norm(vec![(if b == M { -M } else { sat(a - b) as i128 }, if b == M { M } else { sat(a + b) as i128 })]))?; }
    }
    Ok(())
}
pub fn three(a: i128, b: i128, d: i128) -> Result<(), String> {
    if d.abs() == M { return Ok(()) }
    let i = iv_ok::<T>((a, b)).ok_or("")?;
    let s = points_of(&i);
    let e = i.enlarge(TimeValue::mk(d));
    let add = |p: i128, q: i128| if p.abs() == M { p } else { (p + q).clamp(-M, M) };
    let exp = if s.is_empty() { vec![] } else { norm(vec![(add(s[0].0, -d), add(s[0].1, d))]) };
    match e { None => ensure!(exp.is_empty(), "enlarge({}) gives nothing instead of {}", d, span_text(&exp)), Some(e) => { ensure!(!exp.is_empty(), "enlarge({}) gives an interval", d); check_interval("enlarge", e, &exp)?; } }
    Ok(())
}
pub fn relations_contain(a: &S, b: &S) -> Result<(), String> {
    let (c, o) = (subset(b, a), !inter(a, b).is_empty());
    // the convex windows contain anything
    each_convex!(T, a, x, { each_window!(T, b, y, { same!(format!("{} contains {}", span_text(a), span_text(b)), TimeContaining::contains(&x, &y), c); }); });
    if let Some(x) = set_ok::<T>(a) {
        each_convex!(T, b, y, { same!("set contains convex", x.contains(&y), c); same!("set overlaps convex", x.overlaps(&y), o); same!("convex overlaps set", y.overlaps(&x), o); });
        if let Some(y) = set_ok::<T>(b) { same!("set contains set", x.contains(&y), c); same!("set overlaps set", x.overlaps(&y), o); }
    }
    each_convex!(T, a, x, { each_convex!(T, b, y, { same!("convex overlaps convex", x.overlaps(&y), o); same!("overlap the other way", y.overlaps(&x), o); }); });
    Ok(())
}
pub fn precedence(a: &S, b: &S) -> Result<(), String> {
    use std::cmp::Ordering::*;
    let lt = !a.is_empty() && !b.is_empty() && a.last().unwrap().1 < b[0].0;
    let gt = !a.is_empty() && !b.is_empty() && b.last().unwrap().1 < a[0].0;
    let eq = a == b;
    let pc = if lt { Some(Less) } else if gt { Some(Greater) } else if eq { Some(Equal) } else { None };
    macro_rules! all { ($k:expr, $x:expr, $y:expr) => {
        same!(format!("{} ==", $k), $x == $y, eq); same!(format!("{} !=", $k), $x != $y, !eq);
        same!(format!("{} <", $k), $x < $y, lt); same!(format!("{} >", $k), $x > $y, gt);
        same!(format!("{} <=", $k), $x <= $y, lt || eq); same!(format!("{} >=", $k), $x >= $y, gt || eq);
        same!(format!("{} partial_cmp", $k), $x.partial_cmp(&$y), pc);
    } }
    if a.len() <= 1 { if let Some(x) = iv_set_ok::<T>(a) { each_window!(T, b, y, { all!("interval", x, y); }); } }
    if let Some(x) = set_ok::<T>(a) { each_window!(T, b, y, { all!("set", x, y); }); }
    Ok(())
}
pub fn truncation(a: &S, b: i128) -> Result<(), String> {
    let t = T::mk(b);
    let (x, y) = (inter(a, &vec![(b, M)]), inter(a, &vec![(-M, b)]));
    if a.len() <= 1 {
        if let Some(i) = iv_set_ok::<T>(a) {
            let mut j = i; same!("interval truncate_before reports", j.truncate_before(t), x != *a); is_canon(&j)?; same!("interval truncate_before", points_of(&j), x);
            let mut j = i; same!("interval truncate_after reports", j.truncate_after(t), y != *a); is_canon(&j)?; same!("interval truncate_after", points_of(&j), y);
        }
    }
    if let Some(s) = set_ok::<T>(a) {
        let mut r = s.clone(); same!("set truncate_before reports", r.truncate_before(t), x != *a); expect_parts("set truncate_before", parts(&r), &x)?;
        let mut r = s; same!("set truncate_after reports", r.truncate_after(t), y != *a); expect_parts("set truncate_after", parts(&r), &y)?;
    }
    Ok(())
}
}
