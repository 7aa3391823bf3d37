use crate::ctx::*;
use crate::spec::*;
use crate::util::*;
use crate::{ensure, same};
use chronologic::*;

fn pool() -> Vec<i128> {
    let mut v: Vec<i128> = vec![];
    for k in 0..63 { for d in -2..=2 { let x = (1i128 << k) + d; v.push(x); v.push(-x); } }
    for d in 0..6 { v.push(M - d); v.push(-M + d); }
    for d in -12..=12 { v.push(d) }
    v.retain(|x| x.abs() <= M);
    v.sort(); v.dedup(); v
}

pub fn c01(c: &mut Ctx) {
    let v = pool();
    c.stage("unary operations at the pool", 0);
    for &a in v.iter().chain(&[i64::MIN as i128]) {
        c.case(|| format!("t = {} ticks", a), || {
            let t = TimeValue::from_ticks(a as i64);
            let e = a.max(-M);
            same!("from_ticks", t.as_ticks() as i128, e);
            unary(t, e)
        });
    }
    c.stage("binary operations at the pool", 0);
    for &a in &v { for &b in &v { c.case(|| format!("a = {}, b = {} ticks", a, b), || binary(a, b)); } }
    c.stage("random operations", 60);
    while c.more() {
        let (a, b) = (bound(&mut c.rng), bound(&mut c.rng));
        let l: Vec<i128> = (0..c.rng.below(6)).map(|_| bound(&mut c.rng)).collect();
        c.case(|| format!("a = {}, b = {}, list = {:?} ticks", a, b, l), || {
            unary(tv(a), a)?; binary(a, b)?;
            if l.iter().any(|&x| x == M) && l.iter().any(|&x| x == -M) { return Ok(()) }
            // the sum saturates step by step: only claimed when no partial sum overflows
            let (mut s, mut ok) = (0i128, true);
            for &x in &l { s = if s.abs() == M { s } else if x.abs() == M { x } else { if (s + x).abs() >= M { ok = false } s + x } }
            if ok { same!("sum", l.iter().map(|&x| tv(x)).sum::<TimeValue>().tk(), s); }
            Ok(())
        });
    }
}
fn unary(t: TimeValue, e: i128) -> Result<(), String> {
    let s = ts(e);
    same!("neg", (-t).tk(), -e); same!("neg (date)", (-s).tk(), -e);
    same!("is_finite", t.is_finite(), e.abs() < M); same!("is_finite (date)", s.is_finite(), e.abs() < M);
    same!("is_future_infinite", t.is_future_infinite(), e == M); same!("is_future_infinite (date)", s.is_future_infinite(), e == M);
    same!("is_past_infinite", t.is_past_infinite(), e == -M); same!("is_past_infinite (date)", s.is_past_infinite(), e == -M);
    let (n, p) = if e.abs() == M { (e, e) } else { (e + 1, e - 1) };
    same!("just_after", t.just_after().tk(), n); same!("just_after (date)", s.just_after().tk(), n);
    same!("just_before", t.just_before().tk(), p); same!("just_before (date)", s.just_before().tk(), p);
    same!("is_zero", t.is_zero(), e == 0);
    same!("is_positive", t.is_positive(), e >= 0); same!("is_negative", t.is_negative(), e <= 0);
    same!("is_strictly_positive", t.is_strictly_positive(), e > 0); same!("is_strictly_negative", t.is_strictly_negative(), e < 0);
    same!("INFINITE", TimeValue::INFINITE.tk(), M); same!("INFINITE (date)", Timestamp::INFINITE.tk(), M);
    same!("default", TimeValue::default().tk(), 0);
    Ok(())
}
fn binary(a: i128, b: i128) -> Result<(), String> {
    let (x, y) = (tv(a), tv(b));
    let (p, q) = (ts(a), ts(b));
    same!("cmp", x.cmp(&y), a.cmp(&b)); same!("cmp (dates)", p.cmp(&q), a.cmp(&b));
    same!("eq", x == y, a == b); same!("lt", x < y, a < b);
    let undef = |a: i128, b: i128| a.abs() == M && b == -a;
    let add = |a: i128, b: i128| if a.abs() == M { a } else if b.abs() == M { b } else { (a + b).clamp(-M, M) };
    if undef(a, b) {
        ensure!(panics(|| x + y), "{} + {} should panic", a, b);
        ensure!(panics(|| p + y), "date {} + {} should panic", a, b);
        ensure!(panics(|| x + q), "{} + date {} should panic", a, b);
        ensure!(panics(|| { let mut z = x; z += y; z }), "{} += {} should panic", a, b);
        ensure!(panics(|| { let mut z = p; z += y; z }), "date {} += {} should panic", a, b);
    } else {
        let e = add(a, b);
        same!("+", (x + y).tk(), e); same!("date + duration", (p + y).tk(), e); same!("duration + date", (x + q).tk(), e);
        let mut z = x; z += y; same!("+=", z.tk(), e);
        let mut z = p; z += y; same!("date += duration", z.tk(), e);
    }
    if undef(a, -b) {
        ensure!(panics(|| x - y), "{} - {} should panic", a, b);
        ensure!(panics(|| p - y), "date {} - {} should panic", a, b);
        ensure!(panics(|| p - q), "date {} - date {} should panic", a, b);
        ensure!(panics(|| { let mut z = x; z -= y; z }), "{} -= {} should panic", a, b);
        ensure!(panics(|| { let mut z = p; z -= y; z }), "date {} -= {} should panic", a, b);
    } else {
        let e = add(a, -b);
        same!("-", (x - y).tk(), e); same!("date - duration", (p - y).tk(), e); same!("date - date", (p - q).tk(), e);
        same!("duration - date", (x - q).tk(), e);
        let mut z = x; z -= y; same!("-=", z.tk(), e);
        let mut z = p; z -= y; same!("date -= duration", z.tk(), e);
    }
    Ok(())
}

const TICK: i128 = 1 << 30;
fn whole(n: i128, secs: i128) -> i128 { let s = n.checked_mul(secs).unwrap_or(if n > 0 { i128::MAX / TICK } else { i128::MIN / TICK + 1 }); s.checked_mul(TICK).unwrap_or(if s > 0 { M } else { -M }).clamp(-M, M) }
fn fract(n: i128, unit: i128) -> i128 { n.checked_mul(TICK).map(|x| x / unit).unwrap_or(if n > 0 { M } else { -M }).clamp(-M, M) }
const YEAR: i128 = 31_556_952;

macro_rules! unit_case {
    ($c:expr, $t:ty, $n:expr) => {{
        let n: i128 = $n;
        if let Ok(x) = <$t>::try_from(n) { $c.case(|| format!("{} as {}", n, stringify!($t)), || {
            same!("years", x.years().tk(), whole(n, YEAR)); same!("months", x.months().tk(), whole(n, YEAR / 12));
            same!("weeks", x.weeks().tk(), whole(n, 604800)); same!("days", x.days().tk(), whole(n, 86400));
            same!("hours", x.hours().tk(), whole(n, 3600)); same!("mins", x.mins().tk(), whole(n, 60)); same!("secs", x.secs().tk(), whole(n, 1));
            same!("millis", x.millis().tk(), fract(n, 1000)); same!("micros", x.micros().tk(), fract(n, 1_000_000)); same!("nanos", x.nanos().tk(), fract(n, 1_000_000_000));
            same!("ticks", x.ticks().tk(), n.clamp(-M, M)); Ok(())
        }); }
    }};
}
fn units(c: &mut Ctx, n: i128) {
    unit_case!(c, i8, n); unit_case!(c, u8, n); unit_case!(c, i16, n); unit_case!(c, u16, n); unit_case!(c, i32, n); unit_case!(c, u32, n);
    unit_case!(c, i64, n); unit_case!(c, u64, n); unit_case!(c, i128, n); unit_case!(c, isize, n); unit_case!(c, usize, n);
    if n >= 0 { let u = n as u128; c.case(|| format!("{} as u128", u), || {
        same!("secs", u.secs().tk(), whole(n, 1)); same!("years", u.years().tk(), whole(n, YEAR)); same!("months", u.months().tk(), whole(n, YEAR / 12)); same!("weeks", u.weeks().tk(), whole(n, 604800));
        same!("days", u.days().tk(), whole(n, 86400)); same!("hours", u.hours().tk(), whole(n, 3600)); same!("mins", u.mins().tk(), whole(n, 60));
        same!("millis", u.millis().tk(), fract(n, 1000)); same!("micros", u.micros().tk(), fract(n, 1_000_000)); same!("nanos", u.nanos().tk(), fract(n, 1_000_000_000)); same!("ticks", u.ticks().tk(), n.clamp(-M, M)); Ok(()) }); }
    if let Ok(x) = i64::try_from(n) { c.case(|| format!("from_*({})", x), || {
        same!("from_years", TimeValue::from_years(x).tk(), whole(n, YEAR)); same!("from_months", TimeValue::from_months(x).tk(), whole(n, YEAR / 12));
        same!("from_weeks", TimeValue::from_weeks(x).tk(), whole(n, 604800)); same!("from_days", TimeValue::from_days(x).tk(), whole(n, 86400));
        same!("from_hours", TimeValue::from_hours(x).tk(), whole(n, 3600)); same!("from_mins", TimeValue::from_mins(x).tk(), whole(n, 60));
        same!("from_secs", TimeValue::from_secs(x).tk(), whole(n, 1)); same!("from_millis", TimeValue::from_millis(x).tk(), fract(n, 1000));
        same!("from_micros", TimeValue::from_micros(x).tk(), fract(n, 1_000_000)); same!("from_nanos", TimeValue::from_nanos(x).tk(), fract(n, 1_000_000_000));
        same!("from_ticks", TimeValue::from_ticks(x).tk(), n.max(-M)); Ok(()) }); }
}
pub fn c02(c: &mut Ctx) {
    let mut v = pool();
    let maxsec: i128 = i64::MAX as i128 >> 30;
    for u in [1, 60, 3600, 86400, 604800, YEAR / 12, YEAR] { for d in -2..=2 { v.push(maxsec / u + d); v.push(-maxsec / u + d); } }
    for u in [1000i128, 1_000_000, 1_000_000_000] { for d in -3..=3 { v.push(maxsec * u + d); v.push(-maxsec * u + d); v.push((maxsec + 1) * u + d); v.push(-(maxsec + 1) * u + d); } }
    for k in 62..127 { for d in -2..=2 { v.push((1i128 << k) + d); v.push(-(1i128 << k) + d); } }
    v.push(i128::MAX); v.push(i128::MIN); v.push(i64::MIN as i128);
    v.sort(); v.dedup();
    c.stage("units at the pool", 0);
    for n in v { units(c, n) }
    c.case(|| "u128::MAX".into(), || { same!("secs", u128::MAX.secs().tk(), M); same!("nanos", u128::MAX.nanos().tk(), M); same!("ticks", u128::MAX.ticks().tk(), M); Ok(()) });
    c.stage("random units", 60);
    while c.more() { let mut n = bound(&mut c.rng); if c.rng.chance(1, 4) { n >>= c.rng.below(40) as u32; } units(c, n) }
}

fn floor_spec(a: i128, p: i128) -> i128 { if a.abs() == M { a } else { (a.div_euclid(p) * p).clamp(-M, M) } }
fn ceil_spec(a: i128, p: i128) -> i128 { if a.abs() == M { a } else { (-((-a).div_euclid(p)) * p).clamp(-M, M) } }
fn rounding(a: i128, p: i128) -> Result<(), String> {
    same!("floor", tv(a).floor(tv(p)).tk(), floor_spec(a, p)); same!("ceil", tv(a).ceil(tv(p)).tk(), ceil_spec(a, p));
    same!("floor (date)", ts(a).floor(tv(p)).tk(), floor_spec(a, p)); same!("ceil (date)", ts(a).ceil(tv(p)).tk(), ceil_spec(a, p));
    Ok(())
}
fn truncations(a: i128) -> Result<(), String> {
    let t = tv(a);
    let tr = |u: i128| if a.abs() == M { a } else { a / u * u };
    same!("years", t.years().tk(), tr(YEAR * TICK)); same!("months", t.months().tk(), tr(YEAR / 12 * TICK)); same!("weeks", t.weeks().tk(), tr(604800 * TICK));
    same!("days", t.days().tk(), tr(86400 * TICK)); same!("hours", t.hours().tk(), tr(3600 * TICK)); same!("mins", t.mins().tk(), tr(60 * TICK)); same!("secs", t.secs().tk(), tr(TICK));
    same!("millis", t.millis().tk(), tr(TICK / 1000)); same!("micros", t.micros().tk(), tr(TICK / 1_000_000)); same!("nanos", t.nanos().tk(), tr(TICK / 1_000_000_000));
    same!("ticks", t.ticks().tk(), a); Ok(())
}
pub fn c03(c: &mut Ctx) {
    let v = pool();
    c.stage("small values, all periods", 0);
    for a in -60..=60 { for p in 1..=25 { c.case(|| format!("value {} ticks, period {} ticks", a, p), || rounding(a, p)); } }
    c.stage("pool of values and periods", 0);
    for &a in &v { for &p in v.iter().filter(|&&p| p > 0 && p < M) { c.case(|| format!("value {} ticks, period {} ticks", a, p), || rounding(a, p)); } }
    c.stage("truncation to units", 0);
    for &a in &v { c.case(|| format!("value {} ticks", a), || truncations(a)); }
    for u in [YEAR, YEAR / 12, 604800, 86400, 3600, 60, 1] { for k in -5i128..=5 { for d in -1..=1 { let a = k * u * TICK + d; c.case(|| format!("value {} ticks", a), || truncations(a)); } } }
    c.stage("random", 60);
    while c.more() {
        let a = bound(&mut c.rng); let p = loop { let p = bound(&mut c.rng).abs(); if p > 0 && p < M { break p } };
        c.case(|| format!("value {} ticks, period {} ticks", a, p), || { rounding(a, p)?; truncations(a) });
    }
}

const NS: i128 = 1_000_000_000;
fn near(what: &str, ns: i128, back: i128) -> Result<(), String> { ensure!((ns - back).abs() <= 1, "{}: {} ns becomes {} ns", what, ns, back); Ok(()) }
fn from_ns(ns: i128) -> Result<(), String> {
    use chrono::*;
    // exact ticks, within one nanosecond (1.08 tick)
    let exact_hi = |t: i128| { let d = t * NS - ns * TICK; d.abs() <= TICK + NS }; // |t/TICK - ns/NS| <= 1ns + rounding of a tick
    if let Ok(n) = i64::try_from(ns) {
        let d = chrono::Duration::nanoseconds(n);
        let t: TimeValue = d.into();
        if fract(ns, NS).abs() == M { same!("from calendar duration", t.tk(), fract(ns, NS)); }
        else { ensure!(exact_hi(t.tk()), "calendar duration of {} ns becomes {} ticks", ns, t.tk());
               near("calendar duration and back", ns, chrono::Duration::from(t).num_nanoseconds().unwrap_or(i64::MAX) as i128)?;
               near("calendar duration and to_duration", ns, t.to_duration().num_nanoseconds().unwrap_or(i64::MAX) as i128)?; }
        let dt: NaiveDateTime = DateTime::from_timestamp_nanos(n).naive_utc();
        let s: Timestamp = dt.into(); let s2: Timestamp = DateTime::<Utc>::from_timestamp_nanos(n).into();
        same!("date from calendar", s2, s);
        if s.is_finite() {
            ensure!(exact_hi(s.tk()), "date at {} ns becomes {} ticks", ns, s.tk());
            near("date and back", ns, NaiveDateTime::from(s).and_utc().timestamp_nanos_opt().map_or(i128::MAX, |x| x as i128))?;
            near("to_datetime", ns, s.to_datetime().timestamp_nanos_opt().map_or(i128::MAX, |x| x as i128))?;
        } else { same!("far date", s.tk(), fract(ns, NS)); }
    }
    if ns >= 0 && ns / NS <= u64::MAX as i128 {
        let d = std::time::Duration::new((ns / NS) as u64, (ns % NS) as u32);
        let t: TimeValue = d.into();
        if ns / NS > M >> 30 { same!("from long standard duration", t.tk(), M); }
        else { ensure!(t.tk() < M && exact_hi(t.tk()), "standard duration of {} ns becomes {} ticks", ns, t.tk());
               near("standard duration and back", ns, std::time::Duration::from(t).as_nanos() as i128)?; }
    }
    Ok(())
}
fn value(a: i128) -> Result<(), String> {
    let t = tv(a);
    let (s, ms, us, ns) = (t.as_secs() as i128, t.subsec_millis() as i128, t.subsec_micros() as i128, t.subsec_nanos() as i128);
    same!("as_secs", s, a >> 30);
    ensure!((0..1000).contains(&ms) && (0..1_000_000).contains(&us) && (0..NS).contains(&ns), "sub-second parts {} ms {} us {} ns", ms, us, ns);
    let f = a - (s << 30); // sub-second ticks
    let within = |x: i128, unit: i128| { let d = x * unit * TICK - f * NS; d.abs() < (unit + 1) * TICK }; // |x*unit - f| < unit + 1 ns
    ensure!(within(ns, 1), "subsec_nanos {} for {} ticks", ns, f); ensure!(within(us, 1000), "subsec_micros {} for {} ticks", us, f); ensure!(within(ms, 1_000_000), "subsec_millis {} for {} ticks", ms, f);
    if a.abs() < M {
        let back = TimeValue::from(chrono::Duration::from(t)).tk();
        ensure!((back - a).abs() <= 3, "calendar round trip {} -> {}", a, back);
        if a >= 0 { let b = TimeValue::from(std::time::Duration::from(t)).tk(); ensure!((b - a).abs() <= 3, "standard round trip {} -> {}", a, b); }
        else { ensure!(panics(|| std::time::Duration::from(t)), "a negative standard duration should be refused"); }
        let b = Timestamp::from(chrono::NaiveDateTime::from(ts(a))).tk(); ensure!((b - a).abs() <= 3, "date round trip {} -> {}", a, b);
    }
    Ok(())
}
pub fn c04(c: &mut Ctx) {
    let v = pool();
    c.stage("values at the pool", 0);
    for &a in &v { c.case(|| format!("{} ticks", a), || value(a)); }
    c.stage("nanoseconds at the pool", 0);
    let mut w = v.clone();
    let maxsec: i128 = M >> 30;
    for s in [maxsec, maxsec + 1, i32::MAX as i128, i32::MAX as i128 + 1, u32::MAX as i128, u32::MAX as i128 + 1] { for d in [-NS, -1, 0, 1, NS - 1, NS, NS + 1] { w.push(s * NS + d); w.push(-s * NS + d); } }
    for k in -40..=40i128 { w.push(k * 50_000_000); w.push(k * 999_999_999); }
    for k in [64, 70, 80, 93] { w.push(1 << k) }
    for ns in w { c.case(|| format!("{} ns", ns), || from_ns(ns)); }
    c.stage("long calendar durations", 0);
    for s in [9_300_000_000i64, 1 << 40, i64::MAX / 1000] { c.case(|| format!("calendar duration of +-{} s", s), || {
        same!("long", TimeValue::from(chrono::Duration::seconds(s)).tk(), M); same!("long negative", TimeValue::from(chrono::Duration::seconds(-s)).tk(), -M); Ok(()) }); }
    c.stage("random", 60);
    while c.more() {
        let a = bound(&mut c.rng); let f = c.rng.range(-1 << 31, 1 << 31) as i128;
        c.case(|| format!("{} ticks / ns, {} ticks / ns", a, f), || { value(a)?; value(f)?; from_ns(a)?; from_ns(f) });
        let (a, b) = (c.rng.next() as i64, c.rng.next() as i64);
        c.case(|| format!("order of {} and {} ns", a, b), || { let (a, b) = (a.min(b), a.max(b));
            ensure!(TimeValue::from(chrono::Duration::nanoseconds(a)) <= TimeValue::from(chrono::Duration::nanoseconds(b)), "calendar durations {} and {} ns are swapped", a, b); Ok(()) });
    }
}
