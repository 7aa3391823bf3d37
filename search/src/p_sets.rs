use crate::ctx::*;
use crate::p_window::skip;
use crate::spec::*;
use crate::util::*;
use crate::{each_convex, ensure, same};
use chronologic::iter::*;
use chronologic::*;

// ------------------------------------------------------------------ C06: collecting and histories

#[derive(Debug, Clone)]
enum Op { Collect(S), Or(usize), OrIv(B), And(usize), AndIv(B), Not, Neg, Add(i128), AddSpan(B), Sub(i128), SubSpan(B), AddSet(S), Mul(i64), Div(i64), Before(i128), After(i128), ConvexNot(B), Excl(usize) }
fn random_op(r: &mut Rng) -> Op {
    let b = |r: &mut Rng| { let a = r.range(-40, 40) as i128; let u = a + r.below(9) as i128; (if r.chance(1, 12) { -M } else { a }, if r.chance(1, 12) { M } else { u }) };
    match r.below(18) {
        0 | 1 => Op::Collect((0..r.below(6)).map(|_| b(r)).collect()), 2 => Op::Or(r.below(3) as usize), 3 => Op::OrIv(b(r)), 4 => Op::And(r.below(3) as usize), 5 => Op::AndIv(b(r)),
        6 => Op::Not, 7 => Op::Neg, 8 => Op::Add(r.range(-9, 9) as i128), 9 => Op::AddSpan(b(r)), 10 => Op::Sub(r.range(-9, 9) as i128), 11 => Op::SubSpan(b(r)),
        12 => Op::AddSet(rset(r, 3)), 13 => Op::Mul(r.range(-3, 3)), 14 => Op::Div(*r.pick(&[-3, -2, -1, 1, 2, 3, 4])), 15 => Op::Before(r.range(-50, 50) as i128), 16 => Op::After(r.range(-50, 50) as i128),
        _ => if r.chance(1, 2) { Op::ConvexNot(b(r)) } else { Op::Excl(r.below(3) as usize) },
    }
}
pub fn scale(s: &S, n: i128) -> S {
    if n == 0 { return if s.is_empty() { vec![] } else { vec![(0, 0)] } }
    let f = |x: i128| if x.abs() == M { x * n.signum() } else { x * n };
    norm(s.iter().map(|&(l, u)| if n < 0 { (f(u), f(l)) } else { (f(l), f(u)) }).collect())
}
pub fn shrink(s: &S, n: i128) -> S {
    let f = |x: i128| if x.abs() == M { x * n.signum() } else { x / n };
    norm(s.iter().map(|&(l, u)| if n < 0 { (f(u), f(l)) } else { (f(l), f(u)) }).collect())
}
fn history(ops: &[(usize, Op)]) -> Result<(), String> {
    let mut r: Vec<(TimeSpans, S)> = vec![(TimeSpans::empty(), vec![]), (TimeSpans::all(), vec![(-M, M)]), (TimeSpans::empty(), vec![])];
    for (k, (i, op)) in ops.iter().enumerate() {
        let (t, s) = r[*i].clone();
        if s.iter().any(|p| [p.0, p.1].iter().any(|x| x.abs() < M && x.abs() > 1 << 50)) { continue }
        let one = |b: &B| norm(vec![*b]);
        let (nt, ns) = match op {
            Op::Collect(l) => (l.iter().map(|b| iv(*b)).collect(), norm(l.clone())),
            Op::Or(j) => (if k % 2 == 0 { t | &r[*j].0 } else { let mut t = t; t |= r[*j].0.clone(); t }, union(&s, &r[*j].1)),
            Op::OrIv(b) => (if k % 2 == 0 { t | iv::<TimeValue>(*b) } else { let mut t = t; t |= iv::<TimeValue>(*b); t }, union(&s, &one(b))),
            Op::And(j) => (if k % 2 == 0 { &t & &r[*j].0 } else { let mut t = t; t &= &r[*j].0; t }, inter(&s, &r[*j].1)),
            Op::AndIv(b) => (if k % 2 == 0 { t & iv::<TimeValue>(*b) } else { let mut t = t; t &= iv::<TimeValue>(*b); t }, inter(&s, &one(b))),
            Op::Not => (!t, compl(&s)), Op::Neg => (-t, neg(&s)),
            Op::Add(d) => (t + tv(*d), sum(&s, &one(&(*d, *d)))), Op::Sub(d) => (t - tv(*d), sum(&s, &one(&(-*d, -*d)))),
            Op::AddSpan(b) => (t + iv::<TimeValue>(*b), sum(&s, &one(b))), Op::SubSpan(b) => (t - iv::<TimeValue>(*b), sum(&s, &neg(&one(b)))),
            Op::AddSet(x) => { if !sum_ok(&s, x) { continue } (t + set::<TimeValue>(x), sum(&s, x)) }
            Op::Mul(n) => (t * *n, scale(&s, *n as i128)), Op::Div(n) => (t / *n, shrink(&s, *n as i128)),
            Op::Before(b) => { let mut t = t; t.truncate_before(tv(*b)); (t, inter(&s, &one(&(*b, M)))) }
            Op::After(b) => { let mut t = t; t.truncate_after(tv(*b)); (t, inter(&s, &one(&(-M, *b)))) }
            Op::ConvexNot(b) => (!iv::<TimeValue>(*b), compl(&one(b))),
            Op::Excl(j) => ((&t).into_iter().exclusion((&r[*j].0).into_iter()).collect(), inter(&s, &compl(&r[*j].1))),
        };
        expect_parts(&format!("step {} ({:?} on register {})", k, op, i), parts(&nt), &ns)?;
        r[k % 3] = (nt, ns);
        for x in &r { for y in &r { same!("equality of two sets", x.0 == y.0, x.1 == y.1); } }
    }
    Ok(())
}
pub fn c06(c: &mut Ctx) {
    c.stage("lists of small intervals", 0);
    let mut all: Vec<B> = vec![(5, 2)];
    for a in 0..4i128 { for b in a..4 { all.push((a, b)) } }
    all.push((-M, 0)); all.push((3, M)); all.push((-M, M));
    for &x in &all { for &y in &all { for &z in &all { let l = [x, y, z]; c.case(|| format!("collect {:?}", l), || { tvm::collecting(&l)?; tsm::collecting(&l[..2]) }); } } }
    c.stage("random lists", 25);
    while c.more() {
        let k = c.rng.below(9) as usize; let ext = c.rng.chance(1, 4);
        let l: Vec<B> = (0..k).map(|_| if ext { (bound(&mut c.rng), bound(&mut c.rng)) } else { let a = c.rng.range(-15, 15) as i128; (a, a + c.rng.range(-1, 5) as i128) }).collect();
        c.case(|| format!("collect {:?}", l), || tvm::collecting(&l));
    }
    c.stage("random histories", 50);
    while c.more() {
        let n = 1 + c.rng.below(14) as usize;
        let ops: Vec<(usize, Op)> = (0..n).map(|_| (c.rng.below(3) as usize, random_op(&mut c.rng))).collect();
        c.case(|| format!("operations {:?}", ops), || history(&ops));
    }
}

// ------------------------------------------------------------------ C07 / C08: binary operations
/// the same operation through every kind of operands
macro_rules! forms {
    ($t:ty, $a:expr, $b:expr, $op:tt, $assign:tt, $lazy:ident, $exp:expr, $ivout:expr) => {{
        let (a, b, e): (&S, &S, &S) = ($a, $b, &$exp);
        if a.len() <= 1 {
            if let Some(i) = iv_set_ok::<$t>(a) {
                each_convex!($t, b, w, { expect_parts(concat!("interval ", stringify!($op), " convex"), $ivout(i $op w.clone()), e)?; expect_parts(concat!("&interval ", stringify!($op), " convex"), $ivout(&i $op w.clone()), e)?; });
                if a.len() == 1 && a[0].0 == a[0].1 { let p = <$t>::mk(a[0].0); each_convex!($t, b, w, { expect_parts(concat!("point ", stringify!($op), " convex"), $ivout(p $op w.clone()), e)?; }); }
            }
        }
        if let Some(x) = set_ok::<$t>(a) {
            each_convex!($t, b, w, {
                expect_parts(concat!("set ", stringify!($op), " convex"), parts(x.clone() $op w.clone()), e)?;
                expect_parts(concat!("&set ", stringify!($op), " convex"), parts(&x $op w.clone()), e)?;
                let mut y = x.clone(); y $assign w.clone(); expect_parts(concat!("set ", stringify!($assign), " convex"), parts(y), e)?;
            });
            if let Some(z) = set_ok::<$t>(b) {
                expect_parts(concat!("set ", stringify!($op), " set"), parts(x.clone() $op z.clone()), e)?;
                expect_parts(concat!("set ", stringify!($op), " &set"), parts(x.clone() $op &z), e)?;
                expect_parts(concat!("&set ", stringify!($op), " set"), parts(&x $op z.clone()), e)?;
                expect_parts(concat!("&set ", stringify!($op), " &set"), parts(&x $op &z), e)?;
                let mut y = x.clone(); y $assign z.clone(); expect_parts(concat!("set ", stringify!($assign), " set"), parts(y), e)?;
                let mut y = x.clone(); y $assign &z; expect_parts(concat!("set ", stringify!($assign), " &set"), parts(y), e)?;
                expect_parts(concat!(stringify!($lazy), " with a set"), parts(src::<$t>(a).$lazy(z.clone())), e)?;
                expect_parts(concat!(stringify!($lazy), " with a set reference"), parts(src::<$t>(a).$lazy(&z)), e)?;
                expect_parts(concat!(stringify!($lazy), " of sets"), parts((&x).into_iter().$lazy(z.clone().into_iter())), e)?;
            }
        }
        expect_parts(concat!("lazy ", stringify!($lazy)), parts(src::<$t>(a).$lazy(src::<$t>(b))), e)?;
        if b.len() <= 1 {
            if let Some(i) = iv_set_ok::<$t>(b) { expect_parts(concat!("lazy ", stringify!($lazy), " with an interval"), parts(src::<$t>(a).$lazy(i)), e)?; expect_parts(concat!("lazy ", stringify!($lazy), " with an interval reference"), parts(src::<$t>(a).$lazy(&i)), e)?; }
            if let Some(&(lo, up)) = b.first() {
                let (l, u) = (<$t>::mk(lo), <$t>::mk(up));
                expect_parts(concat!("lazy ", stringify!($lazy), " with a range"), parts(src::<$t>(a).$lazy(l..=u)), e)?;
                if up < M - 1 { expect_parts(concat!("lazy ", stringify!($lazy), " with a half-open range"), parts(src::<$t>(a).$lazy(l..<$t>::mk(up + 1))), e)?; }
                if up == M { expect_parts(concat!("lazy ", stringify!($lazy), " with t.."), parts(src::<$t>(a).$lazy(l..)), e)?; }
                if lo == -M { expect_parts(concat!("lazy ", stringify!($lazy), " with ..=t"), parts(src::<$t>(a).$lazy(..=u)), e)?; }
                if lo == -M && up < M - 1 { expect_parts(concat!("lazy ", stringify!($lazy), " with ..t"), parts(src::<$t>(a).$lazy(..<$t>::mk(up + 1))), e)?; }
            } else { expect_parts(concat!("lazy ", stringify!($lazy), " with an empty range"), parts(src::<$t>(a).$lazy(<$t>::mk(5)..=<$t>::mk(2))), e)?; }
        }
    }};
}
macro_rules! union_all { ($name:ident, $t:ty) => { fn $name(a: &S, b: &S) -> Result<(), String> { let e = union(a, b); forms!($t, a, b, |, |=, union, e, parts); Ok(()) } }; }
union_all!(union_tv, TimeValue);
union_all!(union_ts, Timestamp);
macro_rules! inter_all { ($name:ident, $t:ty) => { fn $name(a: &S, b: &S) -> Result<(), String> {
    let e = inter(a, b);
    let canon = |i: TimeInterval<$t>| -> S { if let Err(_) = is_canon(&i) { vec![rd(&i)] } else { parts(i) } };
    forms!($t, a, b, &, &=, intersection, e, canon);
    if a.len() <= 1 { if let Some(i) = iv_set_ok::<$t>(a) { each_convex!($t, b, w, { let mut j = i; j &= w.clone(); is_canon(&j)?; expect_parts("interval &= convex", points_of(&j), &e)?; let k = i & w; is_canon(&k)?; }); } }
    Ok(())
} }; }
inter_all!(inter_tv, TimeValue);
inter_all!(inter_ts, Timestamp);
macro_rules! excl_all { ($name:ident, $t:ty) => { fn $name(a: &S, b: &S) -> Result<(), String> {
    let e = inter(a, &compl(b));
    expect_parts("exclusion", parts(src::<$t>(a).exclusion(src::<$t>(b))), &e)?;
    if let (Some(x), Some(y)) = (set_ok::<$t>(a), set_ok::<$t>(b)) {
        expect_parts("exclusion of sets", parts((&x).into_iter().exclusion(y.clone().into_iter())), &e)?;
    }
    if b.len() <= 1 { if let Some(i) = iv_set_ok::<$t>(b) { expect_parts("exclusion of an interval", parts(src::<$t>(a).exclusion(i.into_iter())), &e)?; } }
    Ok(())
} }; }
excl_all!(excl_tv, TimeValue);
excl_all!(excl_ts, Timestamp);

fn pairs(c: &mut Ctx, f: impl Fn(&S, &S) -> Result<(), String>) {
    let v = small_sets(4);
    c.stage("all pairs of small sets", 0);
    for a in &v { for b in &v { c.case(|| format!("{} and {}", span_text(a), span_text(b)), || f(a, b).or_else(skip)); } }
    c.stage("extreme intervals", 0);
    for &a in &EXT { for &b in &EXT { for &p in &EXT { for &q in &EXT { if a <= b && p <= q { let (x, y) = (norm(vec![(a, b)]), norm(vec![(p, q)]));
        c.case(|| format!("{} and {}", span_text(&x), span_text(&y)), || f(&x, &y).or_else(skip)); } } } } }
    c.stage("random sets", 70);
    while c.more() {
        let (a, mut b) = (rset(&mut c.rng, 9), rset(&mut c.rng, 9));
        if c.rng.chance(1, 5) { b = compl(&a) } else if c.rng.chance(1, 6) { b = norm(b.iter().chain(&compl(&a)).copied().collect()) }
        c.case(|| format!("{} and {}", span_text(&a), span_text(&b)), || f(&a, &b).or_else(skip));
    }
}
pub fn c07(c: &mut Ctx) { pairs(c, |a, b| { union_tv(a, b)?; union_ts(a, b) }); nested(c, true); }
pub fn c08(c: &mut Ctx) { pairs(c, |a, b| { inter_tv(a, b)?; excl_tv(a, b)?; if a.len() + b.len() < 6 { inter_ts(a, b)?; excl_ts(a, b)?; } Ok(()) }); nested(c, false); }
/// operations fed by the result of other lazy operations
fn nested(c: &mut Ctx, un: bool) {
    c.stage("nested lazy operations", 20);
    while c.more() {
        let (a, b, d) = (rset(&mut c.rng, 6), rset(&mut c.rng, 6), rset(&mut c.rng, 6));
        c.case(|| format!("{} , {} and {}", span_text(&a), span_text(&b), span_text(&d)), || {
            let (x, y, z) = (|| src::<Timestamp>(&a), || src::<Timestamp>(&b), || src::<Timestamp>(&d));
            if un { expect_parts("(a|b)|c", parts(x().union(y()).union(z())), &union(&union(&a, &b), &d))?; expect_parts("a|(b|c)", parts(x().union(y().union(z()))), &union(&a, &union(&b, &d))) }
            else { expect_parts("(a&b)&c", parts(x().intersection(y()).intersection(z())), &inter(&inter(&a, &b), &d))?; expect_parts("a&(b&c)", parts(x().intersection(y().intersection(z()))), &inter(&a, &inter(&b, &d)))?;
                   expect_parts("a-(b&c)", parts(x().exclusion(y().intersection(z()))), &inter(&a, &compl(&inter(&b, &d)))) }
        });
    }
}

// ------------------------------------------------------------------ C09: complement

pub fn c09(c: &mut Ctx) {
    c.stage("small sets", 0);
    for s in small_sets(8) { c.case(|| span_text(&s), || { tvm::complement(&s)?; tsm::complement(&s) }); }
    c.stage("extreme intervals", 0);
    for &a in &EXT { for &b in &EXT { for &p in &EXT { for &q in &EXT { if a <= b && p <= q { let s = norm(vec![(a, b), (p, q)]); c.case(|| span_text(&s), || { tvm::complement(&s)?; tsm::complement(&s) }); } } } } }
    c.stage("random sets", 60);
    while c.more() { let s = rset(&mut c.rng, 9); c.case(|| span_text(&s), || tvm::complement(&s)); }
}

macro_rules! typed { ($($i:item)*) => { mod tvm { use super::*; type T = TimeValue; $($i)* } mod tsm { use super::*; type T = Timestamp; $($i)* } } }
typed! {
pub fn collecting(l: &[B]) -> Result<(), String> {
    let s = norm(l.to_vec());
    let mk = |b: &B| if b.0 > b.1 || b.0 == M || b.1 == -M { TimeInterval::empty() } else { iv::<T>(*b) };
    let t: TimeSet<T> = l.iter().map(mk).collect();
    expect_parts("collect", parts(&t), &s)?;
    let u: TimeSet<T> = l.iter().map(|b| TimeSet::from(mk(b))).collect();
    expect_parts("collect sets", parts(&u), &s)?;
    ensure!(t == u, "two sets of the same points differ");
    let (k, m) = l.split_at(l.len() / 2);
    let v: TimeSet<T> = [k, m].into_iter().map(|x| x.iter().map(mk).collect::<TimeSet<T>>()).collect();
    expect_parts("collect two halves", parts(&v), &s)
}
pub fn complement(s: &S) -> Result<(), String> {
    let e = compl(s);
    let edge = s.iter().any(|p| p.0 == M - 1 || p.1 == M - 1 || p.0 == -M + 1 || p.1 == -M + 1);
    expect_parts("lazy complement", parts(src::<T>(s).complementary()), &e)?;
    if !edge { expect_parts("lazy double complement", parts(src::<T>(s).complementary().complementary()), s)?; }
    if let Some(x) = set_ok::<T>(s) {
        let n = !x.clone();
        expect_parts("!set", parts(&n), &e)?;
        if !edge { expect_parts("!!set", parts(!n), s)?; }
        expect_parts("complement of a set iterator", parts((&x).into_iter().complementary()), &e)?;
    }
    if s.len() <= 1 {
        if let Some(i) = iv_set_ok::<T>(s) { let n = !i; expect_parts("!interval", parts(&n), &e)?; if !edge { expect_parts("!!interval", parts(!n), s)?; } }
        if let Some(&(l, u)) = s.first() { if l == u { let n = !T::mk(l); expect_parts("!point", parts(&n), &e)?; } }
    }
    Ok(())
}
}
