use crate::ctx::*;
use crate::p_sets::{scale, shrink};
use crate::spec::*;
use crate::util::*;
use crate::{ensure, same};
use chronologic::iter::*;
use chronologic::*;

fn pt(t: i128) -> S { vec![(t, t)] }
fn canon<T: Pt>(what: &str, i: TimeInterval<T>, e: &S) -> Result<(), String> { is_canon(&i).map_err(|x| format!("{}: {}", what, x))?; expect_parts(what, points_of(&i), e) }

/// interval (dates or durations) and a duration or an interval of durations
fn interval_moves(a: &S, b: &S) -> Result<(), String> {
    if !sum_ok(a, b) || !sum_ok(a, &neg(b)) { return Ok(()) }
    let (p, m) = (sum(a, b), sum(a, &neg(b)));
    if let (Some(x), Some(y), Some(d)) = (iv_set_ok::<TimeValue>(a), iv_set_ok::<Timestamp>(a), iv_set_ok::<TimeValue>(b)) {
        canon("span + span", x + d, &p)?; canon("span - span", x - d, &m)?; canon("slot + span", y + d, &p)?; canon("slot - span", y - d, &m)?;
        let mut z = x; z += d; canon("span += span", z, &p)?; let mut z = x; z -= d; canon("span -= span", z, &m)?;
        let mut z = y; z += d; canon("slot += span", z, &p)?; let mut z = y; z -= d; canon("slot -= span", z, &m)?;
        if let Some(e) = iv_set_ok::<Timestamp>(b) { canon("slot - slot", y - e, &m)?; }
        if b.len() == 1 && b[0].0 == b[0].1 && b[0].0.abs() < M {
            let (t, u) = (tv(b[0].0), ts(b[0].0));
            canon("span + duration", x + t, &p)?; canon("span - duration", x - t, &m)?; canon("slot + duration", y + t, &p)?; canon("slot - duration", y - t, &m)?;
            canon("duration + span", t + x, &p)?; canon("duration - span", t - x, &neg(&m))?; canon("duration + slot", t + y, &p)?; canon("duration - slot", t - y, &neg(&m))?;
            let mut z = x; z += t; canon("span += duration", z, &p)?; let mut z = x; z -= t; canon("span -= duration", z, &m)?;
            let mut z = y; z += t; canon("slot += duration", z, &p)?; let mut z = y; z -= t; canon("slot -= duration", z, &m)?;
            canon("span + date", x + u, &p)?; canon("date + span", u + x, &p)?; canon("date - span", u - x, &neg(&m))?;
            canon("span - date", x - u, &m)?;
            canon("slot - date", y - u, &m)?; canon("date - slot", u - y, &neg(&m))?;
            expect_parts("lazy slot + duration", parts(y.into_iter().translation(t)), &p)?; expect_parts("lazy span + duration", parts(x.into_iter().translation(t)), &p)?;
        }
    }
    Ok(())
}
fn set_moves(a: &S, b: &S) -> Result<(), String> {
    if !sum_ok(a, b) || !sum_ok(a, &neg(b)) { return Ok(()) }
    let (p, m) = (sum(a, b), sum(a, &neg(b)));
    if let (Some(x), Some(y), Some(d)) = (set_ok::<TimeValue>(a), set_ok::<Timestamp>(a), set_ok::<TimeValue>(b)) {
        expect_parts("spans + spans", parts(x.clone() + d.clone()), &p)?; expect_parts("spans - spans", parts(x.clone() - d.clone()), &m)?;
        expect_parts("slots + spans", parts(y.clone() + d.clone()), &p)?; expect_parts("slots - spans", parts(y.clone() - d.clone()), &m)?;
        let mut z = x.clone(); z += d.clone(); expect_parts("spans += spans", parts(z), &p)?; let mut z = x.clone(); z -= d.clone(); expect_parts("spans -= spans", parts(z), &m)?;
        let mut z = y.clone(); z += d.clone(); expect_parts("slots += spans", parts(z), &p)?; let mut z = y.clone(); z -= d.clone(); expect_parts("slots -= spans", parts(z), &m)?;
        if b.len() <= 1 { if let Some(i) = iv_set_ok::<TimeValue>(b) {
            expect_parts("spans + span", parts(x.clone() + i), &p)?; expect_parts("spans - span", parts(x.clone() - i), &m)?;
            expect_parts("slots + span", parts(y.clone() + i), &p)?; expect_parts("slots - span", parts(y.clone() - i), &m)?;
            let mut z = x.clone(); z += i; expect_parts("spans += span", parts(z), &p)?; let mut z = y.clone(); z -= i; expect_parts("slots -= span", parts(z), &m)?;
            expect_parts("lazy slots + span", parts(src::<Timestamp>(a).translation(&i)), &p)?; expect_parts("lazy spans + span", parts(src::<TimeValue>(a).translation(&i)), &p)?;
        } }
        if b.len() == 1 && b[0].0 == b[0].1 && b[0].0.abs() < M {
            let (t, u) = (tv(b[0].0), ts(b[0].0));
            expect_parts("spans + duration", parts(x.clone() + t), &p)?; expect_parts("spans - duration", parts(x.clone() - t), &m)?;
            expect_parts("slots + duration", parts(y.clone() + t), &p)?; expect_parts("slots - duration", parts(y.clone() - t), &m)?;
            let mut z = x.clone(); z += t; expect_parts("spans += duration", parts(z), &p)?; let mut z = y.clone(); z -= t; expect_parts("slots -= duration", parts(z), &m)?;
            let mut z = y.clone(); z += t; expect_parts("slots += duration", parts(z), &p)?; let mut z = x.clone(); z -= t; expect_parts("spans -= duration", parts(z), &m)?;
            expect_parts("spans + date", parts(x.clone() + u), &p)?; expect_parts("date + spans", parts(u + x.clone()), &p)?; expect_parts("date - spans", parts(u - x.clone()), &neg(&m))?;
            expect_parts("lazy slots + duration", parts(src::<Timestamp>(a).translation(t)), &p)?;
            expect_parts("lazy spans + duration", parts(src::<TimeValue>(a).translation(t)), &p)?;
            if sum_ok(&neg(a), &neg(b)) { expect_parts("spans - date", parts(x.clone() - u), &m)?; }
        }
    }
    Ok(())
}
fn point_moves(a: i128, b: &S) -> Result<(), String> {
    if !sum_ok(&pt(a), b) || !sum_ok(&pt(a), &neg(b)) { return Ok(()) }
    if b.len() <= 1 { if let Some(i) = iv_set_ok::<TimeValue>(b) { canon("date + span", ts(a) + i, &sum(&pt(a), b))?; canon("date - span", ts(a) - i, &sum(&pt(a), &neg(b)))?; } }
    Ok(())
}
pub fn c12(c: &mut Ctx) {
    let v: Vec<S> = small_sets(3);
    c.stage("small windows", 0);
    for a in &v { for b in &v { c.case(|| format!("{} and {}", span_text(a), span_text(b)), || {
        if a.len() <= 1 && b.len() <= 1 { interval_moves(a, b)?; }
        set_moves(a, b)?; for p in -1..4 { point_moves(p, b)?; } Ok(()) }); } }
    c.stage("durations", 0);
    for a in &small_sets(6) { for d in [-7i128, -1, 0, 1, 3, 1 << 40, -(1 << 40), M / 2, -M / 2] { c.case(|| format!("{} moved by {}", span_text(a), d), || { if a.len() <= 1 { interval_moves(a, &pt(d))?; } set_moves(a, &pt(d)) }); } }
    c.stage("extreme intervals", 0);
    for &a in &EXT { for &b in &EXT { for &p in &EXT { for &q in &EXT { if a <= b && p <= q { let (x, y) = (norm(vec![(a, b)]), norm(vec![(p, q)]));
        c.case(|| format!("{} and {}", span_text(&x), span_text(&y)), || { interval_moves(&x, &y)?; set_moves(&x, &y) }); } } } } }
    c.stage("random", 60);
    while c.more() {
        let (a, b) = if c.rng.chance(1, 3) { (mset(&mut c.rng, 5, 1 << 60), mset(&mut c.rng, 3, 1 << 60)) } else { (rset(&mut c.rng, 6), rset(&mut c.rng, 4)) };
        let b = if c.rng.chance(1, 3) && !b.is_empty() { pt(b[0].1.min(1 << 61).max(-(1 << 61))) } else { b };
        c.case(|| format!("{} and {}", span_text(&a), span_text(&b)), || { if a.len() <= 1 && b.len() <= 1 { interval_moves(&a, &b)?; } set_moves(&a, &b)?; if !a.is_empty() && a[0].1 < M { point_moves(a[0].1, &b)?; } Ok(()) });
    }
}

// ------------------------------------------------------------------ C13
fn fits(s: &S, n: i128) -> bool { s.iter().all(|p| [p.0, p.1].iter().all(|&x| x.abs() == M || x.checked_mul(n).map_or(false, |y| y.unsigned_abs() < M as u128))) }
macro_rules! by {
    ($n:expr, $a:expr, $s:expr, $($t:ty),*) => { $( if let Ok(n) = <$t>::try_from($n) {
        let (k, a, s): (i128, i128, &S) = ($n, $a, $s);
        let nm = stringify!($t);
        // values
        let e = if k == 0 || a == 0 { 0 } else if a.abs() == M { a.signum() * k.signum() * M } else { a.checked_mul(k).map_or(a.signum() * k.signum() * M, |x| x.clamp(-M, M)) };
        if !(a.abs() == M && k == 0) { same!(format!("duration * {}", nm), (tv(a) * n).tk(), e); same!(format!("{} * duration", nm), (n * tv(a)).tk(), e); let mut z = tv(a); z *= n; same!(format!("duration *= {}", nm), z.tk(), e); }
        else { same!(format!("infinite duration * zero {}", nm), (tv(a) * n).tk(), 0); }
        if k != 0 {
            let q = if a.abs() == M { a * k.signum() } else { a / k };
            same!(format!("duration / {}", nm), (tv(a) / n).tk(), q); let mut z = tv(a); z /= n; same!(format!("duration /= {}", nm), z.tk(), q);
        } else { ensure!(panics(|| tv(a) / n), "division by zero ({}) should panic", nm); }
        // intervals and sets
        if s.len() <= 1 { if let Some(i) = iv_set_ok::<TimeValue>(s) {
            if fits(s, k) && !(k == 0 && s.iter().any(|p| p.0 == -M || p.1 == M)) { let e = scale(s, k); canon(&format!("interval * {}", nm), i * n, &e)?; canon(&format!("{} * interval", nm), n * i, &e)?; let mut z = i; z *= n; canon(&format!("interval *= {}", nm), z, &e)?; }
            if k != 0 { let e = shrink(s, k); canon(&format!("interval / {}", nm), i / n, &e)?; let mut z = i; z /= n; canon(&format!("interval /= {}", nm), z, &e)?; }
        } }
        if let Some(x) = set_ok::<TimeValue>(s) {
            if fits(s, k) { let e = scale(s, k); expect_parts(&format!("set * {}", nm), parts(x.clone() * n), &e)?; expect_parts(&format!("{} * set", nm), parts(n * x.clone()), &e)?; let mut z = x.clone(); z *= n; expect_parts(&format!("set *= {}", nm), parts(z), &e)?;
                { expect_parts(&format!("lazy set * {}", nm), parts(src::<TimeValue>(s).scaling(n)), &e)?; } }
            if k != 0 { let e = shrink(s, k); expect_parts(&format!("set / {}", nm), parts(x.clone() / n), &e)?; let mut z = x.clone(); z /= n; expect_parts(&format!("set /= {}", nm), parts(z), &e)?; }
        }
    } )* };
}
fn scaled(n: i128, a: i128, s: &S) -> Result<(), String> {
    by!(n, a, s, i8, u8, i16, u16, i32, u32, i64, u64, i128, u128, isize, usize);
    Ok(())
}
pub fn c13(c: &mut Ctx) {
    let mut f: Vec<i128> = (-9..10).collect();
    for k in [7, 8, 15, 16, 31, 32, 62, 63, 64, 65, 100, 126] { for d in -2..=2 { f.push((1i128 << k) + d); f.push(-(1i128 << k) + d); } }
    f.extend([i128::MAX, i128::MIN, M, -M, M - 1, 1000, -1000]);
    let vals: Vec<i128> = vec![0, 1, -1, 2, -2, 3, 7, -7, 100, -100, 1 << 31, -(1 << 31), 1 << 61, -(1 << 61), (1 << 62) - 1, 1 << 62, M - 1, -M + 1, M, -M, M / 3, -M / 3];
    c.stage("values", 0);
    for &a in &vals { for &n in &f { c.case(|| format!("{} ticks by {}", a, n), || scaled(n, a, &vec![])); } }
    c.stage("small sets", 0);
    for s in &small_sets(6) { for n in -5..6 { c.case(|| format!("{} by {}", span_text(s), n), || scaled(n, 1, s)); } }
    for s in &small_sets(2) { for &n in &f { c.case(|| format!("{} by {}", span_text(s), n), || scaled(n, 1, s)); } }
    c.stage("huge unsigned factors", 0);
    for n in [u128::MAX, u128::MAX - 1, 1u128 << 127] { c.case(|| format!("factor {}", n), || {
        same!("1 * n", (tv(1) * n).tk(), M); same!("-1 * n", (tv(-1) * n).tk(), -M); same!("0 * n", (tv(0) * n).tk(), 0); same!("5 / n", (tv(5) / n).tk(), 0); same!("oo / n", (tv(-M) / n).tk(), -M); Ok(()) }); }
    c.stage("random", 60);
    while c.more() {
        let n = match c.rng.below(4) { 0 => *c.rng.pick(&f), 1 => c.rng.next() as i64 as i128, _ => c.rng.range(-12, 12) as i128 };
        let a = bound(&mut c.rng);
        let s = if c.rng.chance(1, 2) { rset(&mut c.rng, 6) } else { let m = 1i64 << c.rng.range(4, 60); mset(&mut c.rng, 6, m) };
        c.case(|| format!("{} and {} by {}", a, span_text(&s), n), || scaled(n, a, &s));
    }
}

// ------------------------------------------------------------------ C24
/// (mantissa, exponent) of a finite factor, exactly
fn decode(f: f64) -> (i128, i32) {
    let b = f.to_bits(); let e = (b >> 52 & 0x7ff) as i32; let m = (b & ((1 << 52) - 1)) as i128;
    let (m, e) = if e == 0 { (m, -1074) } else { (m | 1 << 52, e - 1075) };
    (if f < 0. { -m } else { m }, e)
}
const HUGE: i128 = 1 << 120;
fn shift(x: i128, e: i32) -> i128 { if x == 0 { 0 } else if e >= 0 { if e > 120 || x.abs() > HUGE >> e { x.signum() * HUGE } else { x << e } } else if e < -126 { 0 } else { x.signum() * (x.abs() >> -e) } }
/// exact product and quotient, truncated (HUGE: beyond everything)
fn product(a: i128, f: f64) -> i128 { let (m, e) = decode(f); shift(a * m, e) }
fn quotient(a: i128, f: f64) -> i128 { let (m, e) = decode(f); let k = a.unsigned_abs().leading_zeros() as i32 - 2; if a == 0 { 0 } else { shift((a << k) / m, -e - k) } }
/// the exact result `q` of a scaling of `a`, within the rounding of a type with `p` bits of mantissa
fn close(what: &str, got: TimeValue, q: i128, p: u32) -> Result<(), String> {
    let g = got.tk(); let tol = (q.abs() >> (p - 3)) + 2;
    let ok = if g == M { q + tol >= M } else if g == -M { q - tol <= -M } else { (g - q).abs() <= tol && g.abs() < M };
    if ok && !(g > 0 && q < 0) && !(g < 0 && q > 0) { Ok(()) } else { Err(format!("{}: got {}, the exact result is {}", what, g, q)) }
}
macro_rules! float_by { ($t:ty, $p:expr, $f:expr, $a:expr, $s:expr) => {{
    let (f, a, s): ($t, i128, &S) = ($f, $a, $s); let nm = stringify!($t); let x = f as f64;
    if f.is_finite() {
        let sg = if f > 0. { 1 } else if f < 0. { -1 } else { 0 };
        let r = tv(a) * f;
        if a.abs() == M { same!(format!("infinite duration * {}", nm), r.tk(), a * sg); } else { close(&format!("duration * {}", nm), r, product(a, x), $p)?; }
        same!(format!("{} * duration", nm), f * tv(a), r); let mut z = tv(a); z *= f; same!(format!("duration *= {}", nm), z, r);
        let at = |b: i128| (tv(b) * f).tk();
        let fits = s.iter().all(|p| [p.0, p.1].iter().all(|&b| b.abs() == M || at(b).abs() < M));
        if fits {
            let e = norm(s.iter().map(|p| if f < 0. { (at(p.1), at(p.0)) } else { (at(p.0), at(p.1)) }).collect());
            if s.len() <= 1 { if let Some(i) = iv_set_ok::<TimeValue>(s) { canon(&format!("interval * {}", nm), i * f, &e)?; canon(&format!("{} * interval", nm), f * i, &e)?; let mut z = i; z *= f; canon(&format!("interval *= {}", nm), z, &e)?; } }
            if let Some(w) = set_ok::<TimeValue>(s) { expect_parts(&format!("set * {}", nm), parts(w.clone() * f), &e)?; expect_parts(&format!("{} * set", nm), parts(f * w.clone()), &e)?; let mut z = w.clone(); z *= f; expect_parts(&format!("set *= {}", nm), parts(z), &e)?; }
        }
        let inv = 1. / f;
        if f != 0. && inv.is_finite() {
            let r = tv(a) / f;
            if a.abs() == M { same!(format!("infinite duration / {}", nm), r.tk(), a * sg); } else { close(&format!("duration / {}", nm), r, quotient(a, x), $p)?; }
            let mut z = tv(a); z /= f; same!(format!("duration /= {}", nm), z, r);
            let at = |b: i128| (tv(b) / f).tk();
            let fits = s.iter().all(|p| [p.0, p.1].iter().all(|&b| b.abs() == M || at(b).abs() < M));
            if fits {
                let e = norm(s.iter().map(|p| if f < 0. { (at(p.1), at(p.0)) } else { (at(p.0), at(p.1)) }).collect());
                if s.len() <= 1 { if let Some(i) = iv_set_ok::<TimeValue>(s) { canon(&format!("interval / {}", nm), i / f, &e)?; let mut z = i; z /= f; canon(&format!("interval /= {}", nm), z, &e)?; } }
                if let Some(w) = set_ok::<TimeValue>(s) { expect_parts(&format!("set / {}", nm), parts(w.clone() / f), &e)?; let mut z = w.clone(); z /= f; expect_parts(&format!("set /= {}", nm), parts(z), &e)?; }
            }
        }
    }
}}; }
fn floats(f: f64, a: i128, s: &S) -> Result<(), String> {
    float_by!(f64, 53, f, a, s); float_by!(f32, 24, f as f32, a, s); Ok(())
}
pub fn c24(c: &mut Ctx) {
    let mut f: Vec<f64> = vec![0., -0., 1., 0.5, 0.1, 1. / 3., 0.9999999, 1.0000001, 2., 2.5, 3., 7., 10., 49., 100., 1e3, 1e9, 1e15, 1e18, 9.2e18, 1e19, 1e25, 1e30, 1e37, 1e300, f64::MAX, f64::MIN_POSITIVE, 5e-324, 1e-300, 1e-37, 1e-20, 1e-9, f32::MAX as f64, f32::MIN_POSITIVE as f64];
    for x in f.clone() { f.push(-x); }
    let vals: Vec<i128> = vec![0, 1, -1, 2, -2, 3, 7, -7, 100, -100, 1 << 24, (1 << 24) + 1, 1 << 31, -(1 << 31), (1 << 53) + 1, 1 << 61, -(1 << 61), (1 << 62) - 1, 1 << 62, M - 1, -M + 1, M, -M, M / 3, -M / 3];
    c.stage("values", 0);
    for &a in &vals { for &x in &f { c.case(|| format!("{} ticks by {:e}", a, x), || floats(x, a, &vec![])); } }
    c.stage("small sets", 0);
    for s in &small_sets(4) { for x in [0., -0., 1., -1., 0.5, -0.5, 0.3, -0.3, 1.5, -1.5, 2., 2.5, -3., 1e-9, 1e9, -1e9] { c.case(|| format!("{} by {:e}", span_text(s), x), || floats(x, 1, s)); } }
    c.stage("parts brought together by rounding", 0);
    for k in [24, 25, 30, 53, 54, 55, 58, 60] { for g in [2i128, 3, 4, 64, 200] { for x in [1., -1., 1.25, -1.25, 0.75, 1.9999, -1.9999] { let b = 1i128 << k;
        let s = norm(vec![(b, b + 1), (b + 1 + g, b + 2 + g), (b + 2 + 2 * g, b + 1000)]);
        c.case(|| format!("{} by {:e}", span_text(&s), x), || floats(x, b, &s)); } } }
    c.stage("random", 60);
    while c.more() {
        let x = match c.rng.below(4) { 0 => *c.rng.pick(&f), 1 => f64::from_bits(c.rng.next()), 2 => c.rng.range(-1000, 1000) as f64 / 64., _ => { let k = c.rng.range(-40, 40); (c.rng.range(-1 << 30, 1 << 30) as f64) * (k as f64).exp2() / (1u64 << 30) as f64 } };
        let x = if x.is_finite() { x } else { 1.5 };
        let a = bound(&mut c.rng);
        let s = if c.rng.chance(1, 2) { rset(&mut c.rng, 6) } else { let m = 1i64 << c.rng.range(4, 60); mset(&mut c.rng, 6, m) };
        c.case(|| format!("{} and {} by {:e}", a, span_text(&s), x), || floats(x, a, &s));
    }
}
