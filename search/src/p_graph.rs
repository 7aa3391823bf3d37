use crate::ctx::*;
use crate::spec::*;
use crate::util::*;
use crate::{ensure, same};
use chronologic::graph::*;
use chronologic::*;

pub type K = (u32, u32, B); // from, to, bounds (inverted: empty)

/// the whole matrix, read through two different queries (nothing if they disagree: another property's matter)
fn matrix(g: &TimeGraph) -> Option<Vec<Vec<B>>> {
    let n = g.size();
    let mut r = vec![vec![(0, 0); n as usize]; n as usize];
    for i in 0..n { for j in 0..n {
        let x = rd(&g.timespan(i, j));
        let y = match g.constraint(i, j) { None => (-M, M), Some(k) => (k.lower_bound().tk(), k.upper_bound().tk()) };
        if x != y { return None }
        r[i as usize][j as usize] = x;
    } }
    Some(r)
}
fn net_matrix(n: &Net) -> Vec<Vec<B>> { (0..n.n).map(|i| (0..n.n).map(|j| n.span(i, j)).collect()).collect() }
fn compare(what: &str, g: &TimeGraph, net: &Net) -> Result<(), String> {
    same!(format!("{}: number of instants", what), g.size() as usize, net.n);
    let m = matrix(g).ok_or("")?;
    let e = net_matrix(net);
    for i in 0..net.n { for j in 0..net.n { same!(format!("{}: constraint from {} to {}", what, i, j), m[i][j], e[i][j]); } }
    Ok(())
}
/// adds a constraint through one of the window types which can hold it
fn put(g: &mut TimeGraph, k: &K, kind: u64) -> String {
    let (f, t, (l, u)) = *k;
    let (a, b) = (tv(l), tv(u));
    let r = match kind % 5 {
        0 if l == u && l.abs() < M => g.propagate(((f, t), a)),
        1 if u == M && l < M => g.propagate(((f, t), a..)),
        2 if l == -M && u > -M => g.propagate(((f, t), ..=b)),
        3 if l > u => g.propagate(((f, t), TimeSpan::empty())),
        4 if l <= u && u < M - 1 => g.propagate(((f, t), a..tv(u + 1))),
        _ if kind % 2 == 0 => g.propagate(((f, t), a..=b)),
        _ => g.propagate(((f, t), iv::<TimeValue>((l, u)))),
    };
    format!("{:?}", r)
}
fn rbound(r: &mut Rng, mag: i64) -> B {
    let a = r.range(-mag, mag) as i128;
    match r.below(12) {
        0 => (a, a), 1 | 2 => (a, M), 3 | 4 => (-M, a), 5 => (-M, M),
        6 if r.chance(1, 2) => (a, a - 1 - r.below(3) as i128),
        _ => (a, a + r.range(0, mag) as i128),
    }
}
pub fn rks(r: &mut Rng, n: u32, count: u64, grow: bool) -> Vec<K> {
    let mag = *r.pick(&[2, 5, 5, 20, 1000, 1 << 32, 1 << 55]);
    let order: Vec<i64> = (0..n + 3).map(|_| r.range(-mag, mag)).collect(); // a hidden solution makes many histories consistent
    let hidden = r.chance(2, 3);
    (0..count).map(|_| {
        let top = if grow { n + 2 } else { n };
        let (f, t) = (r.below(top as u64) as u32, r.below(top as u64) as u32);
        let b = rbound(r, mag);
        let d = order[t as usize] as i128 - order[f as usize] as i128;
        if hidden && r.chance(9, 10) { (f, t, (if b.0 == -M { -M } else { d - r.below(mag as u64 + 1) as i128 }, if b.1 == M { M } else { d + r.below(mag as u64 + 1) as i128 })) } else { (f, t, b) }
    }).collect()
}
/// mostly a small number of instants, sometimes a larger one
fn size(r: &mut Rng, n: u64) -> u32 { if r.chance(1, 12) { n as u32 + r.below(8) as u32 } else { r.below(n) as u32 } }
/// what the oracle says of one added constraint
fn oracle(net: &Net, k: &K) -> (Net, &'static str) {
    let (f, t, b) = (k.0 as usize, k.1 as usize, k.2);
    if b.0 > b.1 { return (net.clone(), "Err(Recovered)") }
    let mut x = net.clone();
    let grown = f.max(t) >= net.n;
    x.add(f, t, b);
    if !x.close() { return (net.clone(), "Err(Recovered)") }
    let s = if !grown && x == *net { "Ok(Unchanged)" } else { "Ok(Propagated)" };
    (x, s)
}
/// `minimal`: look at the resulting graph; otherwise look at the verdicts and at what refusals leave
fn history(n: u32, ks: &[K], minimal: bool, salt: u64) -> Result<(), String> {
    let mut g = TimeGraph::with_size(n);
    let mut net = Net::new(n as usize);
    if compare("", &g, &net).is_err() { return Ok(()) } // creation is another property's matter
    for (s, k) in ks.iter().enumerate() {
        let (x, e) = oracle(&net, k);
        let before = matrix(&g).map(|m| (g.size(), m));
        let r = put(&mut g, k, salt + s as u64);
        if minimal {
            if r.starts_with("Ok") != e.starts_with("Ok") { return Ok(()) }
            if r.starts_with("Ok") { compare(&format!("after step {} ({:?})", s, k), &g, &x).or_else(crate::p_window::skip)?; }
            else if matrix(&g).map(|m| (g.size(), m)) != before { return Ok(()) }
        } else {
            same!(format!("answer at step {} ({:?})", s, k), r.as_str(), e);
            if e.starts_with("Err") {
                if let (Some(b), Some(a)) = (&before, matrix(&g).map(|m| (g.size(), m))) { same!(format!("graph after the refusal at step {} ({:?})", s, k), &a, b); }
            }
            else if compare("", &g, &x).is_err() { return Ok(()) }
        }
        net = x;
    }
    Ok(())
}
fn histories(c: &mut Ctx, minimal: bool) {
    c.stage("all histories of three constraints on three instants with bounds in -1..1", 0);
    let mut ks: Vec<K> = vec![];
    for f in 0..3 { for t in 0..3 { for b in [(1, 1), (-1, 1), (0, M), (1, M), (-M, 0), (-M, -1), (0, -1)] { ks.push((f, t, b)) } } }
    let mut turn = 0u64;
    for a in &ks { for b in &ks { for d in &ks { turn += 1; if turn % 3 != (c.seed % 3) && c.only.is_none() && c.budget.as_secs() < 60 { CASE.fetch_add(1, std::sync::atomic::Ordering::SeqCst); continue } let h = [*a, *b, *d]; c.case(|| format!("graph of 2 instants, constraints {:?}", h), || history(2, &h, minimal, turn)); } } }
    c.stage("random histories", 85);
    while c.more() {
        let n = size(&mut c.rng, 7); let m = 2 + c.rng.below(if n > 7 { 40 } else { 12 }); let grow = c.rng.chance(1, 2); let salt = c.rng.below(100);
        let ks = rks(&mut c.rng, n.max(1), m, grow);
        c.case(|| format!("graph of {} instants, constraints {:?}", n, ks), || history(n, &ks, minimal, salt));
    }
}
pub fn c15(c: &mut Ctx) { histories(c, true) }
pub fn c16(c: &mut Ctx) { histories(c, false) }

// ------------------------------------------------------------------ C17
fn build(n: u32, ks: &[K]) -> Option<(TimeGraph, Net)> {
    let mut g = TimeGraph::with_size(n); let mut net = Net::new(n as usize);
    for k in ks { let (x, e) = oracle(&net, k); if put(&mut g, k, 7) != e { return None } net = x; }
    compare("", &g, &net).ok()?;
    Some((g, net))
}
fn as_new(g: &mut TimeGraph, ks: &[K]) -> Result<(), String> {
    same!("instants of the emptied graph", g.size(), 0);
    let mut h = TimeGraph::with_size(0);
    for k in ks {
        let (a, b) = (put(g, k, 7), put(&mut h, k, 7));
        same!(format!("answer of the emptied graph to {:?} (compared with a new one)", k), a, b);
        same!("instants", g.size(), h.size());
        same!("constraints of the emptied graph (compared with a new one)", matrix(g), matrix(&h));
    }
    Ok(())
}
fn after(g: &mut TimeGraph, r: String, before: &Net, all: &[K], extra: Option<&Net>, later: &[K], bulk: bool, n_all: usize) -> Result<(), String> {
    let mut x = before.clone();
    let empty = all.iter().any(|k| k.2 .0 > k.2 .1);
    for k in all { if k.2 .0 <= k.2 .1 { x.add(k.0 as usize, k.1 as usize, k.2) } }
    if let Some(e) = extra { x.grow(e.n); for i in 0..e.n { for j in 0..e.n { let (l, u) = e.span(i, j); x.add(i, j, (l, u)) } } }
    x.grow(n_all);
    let ok = x.close() && !empty;
    if ok { ensure!(r.starts_with("Ok"), "answer {} to consistent constraints", r); compare("after a bulk addition", g, &x)?; }
    else {
        ensure!(r.starts_with("Err"), "answer {} to inconsistent constraints", r);
        if r == "Err(Fatal)" { as_new(g, later)?; } else { ensure!(!bulk, "a bulk failure is reported as recovered"); compare("after a recovered failure", g, before)?; }
    }
    Ok(())
}
fn bulk(n: u32, first: &[K], ks: &[K], later: &[K], way: u64) -> Result<(), String> {
    let Some((g0, net)) = build(n, first) else { return Ok(()) };
    let span = |k: &K| ((k.0, k.1), iv::<TimeValue>(k.2));
    // extending
    let mut g = g0.clone();
    let r = match way % 4 {
        0 => g.extend(ks.iter().map(span)),
        1 => g.extend(ks.iter().map(span).filter(|_| true)),
        2 => { let mut i = ks.iter(); g.extend(std::iter::from_fn(move || i.next().map(span))) }
        _ => g.extend(ks.iter().map(span).collect::<Vec<_>>()),
    };
    after(&mut g, format!("{:?}", r), &net, ks, None, later, ks.len() > 1, 0).map_err(|e| if e.is_empty() { e } else { format!("extend: {}", e) })?;
    // the trait form panics on inconsistency
    let mut g = g0.clone();
    let mut x = net.clone(); for k in ks { if k.2 .0 <= k.2 .1 { x.add(k.0 as usize, k.1 as usize, k.2) } }
    let ok = x.close() && ks.iter().all(|k| k.2 .0 <= k.2 .1);
    match no_panic(|| { Extend::extend(&mut g, ks.iter().map(span)); g }) { Ok(g) => { ensure!(ok, "Extend accepts inconsistent constraints"); compare("Extend", &g, &x)?; } Err(e) => ensure!(!ok, "Extend: {}", e) }
    // collecting
    let mut x = Net::new(0); for k in ks { if k.2 .0 <= k.2 .1 { x.add(k.0 as usize, k.1 as usize, k.2) } }
    let ok = x.close() && ks.iter().all(|k| k.2 .0 <= k.2 .1);
    match no_panic(|| ks.iter().map(span).collect::<TimeGraph>()) { Ok(g) => { ensure!(ok, "collecting accepts inconsistent constraints"); compare("collect", &g, &x)?; } Err(e) => ensure!(!ok, "collect: {}", e) }
    Ok(())
}
fn merging(n: u32, a: &[K], m: u32, b: &[K], later: &[K]) -> Result<(), String> {
    let (Some((g, x)), Some((h, y))) = (build(n, a), build(m, b)) else { return Ok(()) };
    let mut r = g.clone(); let s = format!("{:?}", r.merge(h.clone()));
    if s == "Ok(Unchanged)" { compare("an unchanged merge", &r, &x)?; }
    if s.starts_with("Ok") {
        // nothing new: no instant, and every bound is already held
        let news = y.n > x.n || (0..y.n).any(|i| (0..y.n).any(|j| y.span(i, j).0 > x.span(i, j).0));
        same!("merge answers unchanged", s == "Ok(Unchanged)", !news);
    }
    after(&mut r, s, &x, &[], Some(&y), later, true, x.n.max(y.n)).map_err(|e| if e.is_empty() { e } else { format!("merge: {}", e) })?;
    // extending by the constraints of another graph
    let mut r = g.clone(); let s = format!("{:?}", r.extend(h.iter()));
    let list: Vec<K> = (0..y.n).flat_map(|i| (i + 1..y.n).map(move |j| (i, j))).map(|(i, j)| (i as u32, j as u32, y.span(i, j))).filter(|k| k.2 != (-M, M)).collect();
    after(&mut r, s, &x, &list, None, later, false, 0).map_err(|e| if e.is_empty() { e } else { format!("extend by a graph: {}", e) })?;
    Ok(())
}
pub fn c17(c: &mut Ctx) {
    c.stage("random bulks", 50);
    while c.more() {
        let n = size(&mut c.rng, 6); let f = if n > 6 { 4 } else { 1 }; let (p, q) = (f * c.rng.below(5), f * c.rng.below(8)); let grow = c.rng.chance(1, 2); let way = c.rng.next();
        let mut all = rks(&mut c.rng, n.max(1), p + q, grow); let ks = all.split_off(p as usize);
        let later = rks(&mut c.rng, 3, 3, true);
        c.case(|| format!("graph of {} instants with {:?}, bulk {:?}, later {:?}", n, all, ks, later), || bulk(n, &all, &ks, &later, way).or_else(crate::p_window::skip));
    }
    c.stage("random merges", 45);
    while c.more() {
        let (n, m) = (size(&mut c.rng, 6), size(&mut c.rng, 6)); let f = if n.max(m) > 6 { 4 } else { 1 }; let (p, q) = (f * c.rng.below(6), f * c.rng.below(6));
        let mut a = rks(&mut c.rng, n.max(m).max(1), p + q, false); let mut b = a.split_off(p as usize);
        if c.rng.chance(3, 4) { a.retain(|k| k.0 < n && k.1 < n); b.retain(|k| k.0 < m && k.1 < m); }
        let later = rks(&mut c.rng, 3, 3, true);
        c.case(|| format!("graph of {} instants with {:?}, merged with {} instants and {:?}, later {:?}", n, a, m, b, later), || merging(n, &a, m, &b, &later).or_else(crate::p_window::skip));
    }
}

// ------------------------------------------------------------------ C18
#[derive(Debug, Clone)]
enum Op { Put(K), Resize(u32), Reset, Shrink, ShrinkTo(u32), Clone }
fn queries(what: &str, g: &TimeGraph, net: &Net) -> Result<(), String> {
    let n = net.n as u32;
    same!(format!("{}: size", what), g.size(), n);
    let ids: Vec<u32> = (0..n + 2).chain([1 << 16, u32::MAX - 1, u32::MAX]).collect();
    for &i in &ids {
        for &j in &ids {
            let inside = i < n && j < n;
            let e = if inside { net.span(i as usize, j as usize) } else { (-M, M) };
            same!(format!("{}: timespan({},{})", what, i, j), rd(&g.timespan(i, j)), e);
            match g.constraint(i, j) {
                None => ensure!(e == (-M, M), "{}: no constraint({},{}) instead of {:?}", what, i, j, e),
                Some(k) => {
                    ensure!(e != (-M, M), "{}: constraint({},{}) exists", what, i, j);
                    same!("bounds", (k.lower_bound().tk(), k.upper_bound().tk()), e);
                    same!("instants", (TimeConstraint::from(&k), TimeConstraint::to(&k)), (i, j));
                    ensure!(!k.is_empty() && k.is_low_bounded() == (e.0 > -M) && k.is_up_bounded() == (e.1 < M), "{}: boundedness of constraint({},{})", what, i, j);
                    same!("is_singleton", k.is_singleton(), e.0 == e.1);
                    let r = g.constraint(j, i).ok_or("no constraint in the other direction")?;
                    ensure!(k.equiv(&r) && r.equiv(&k), "{}: constraint({},{}) is not equivalent to the reverse one", what, i, j);
                    // equivalence with constraints which differ by an instant or by a bound
                    for (a, b, l, u) in [(i, j, e.0, e.1), (i, j, e.0, M), (i, j, -M, e.1), (i, j + 1, e.0, e.1), (i + 1, j, e.0, e.1), (j, i, e.0, e.1), (j, i, -e.1, -e.0), (j, i, -e.1, M), (j, i, -M, -e.0), (j, i + 1, -e.1, -e.0), (j + 1, i, -e.1, -e.0), (j + 7, i + 9, -e.1, -e.0)] {
                        if l > u { continue }
                        let x = ((a, b), iv::<TimeValue>((l, u)));
                        let eq = ((a, b) == (i, j) && (l, u) == e) || (i != j && (a, b) == (j, i) && (l, u) == (-e.1, -e.0));
                        ensure!(k.equiv(&x) == eq && x.equiv(&k) == eq, "{}: constraint({},{}) in {:?} equivalent to ({},{}) in {:?}: {}", what, i, j, e, a, b, (l, u), !eq);
                    }
                    let (ij, s): ((u32, u32), TimeSpan) = g.constraint(i, j).unwrap().into();
                    same!("conversion", (ij, rd(&s)), ((i, j), e));
                    let s: TimeSpan = g.constraint(i, j).unwrap().into(); same!("conversion to a span", rd(&s), e);
                }
            }
            let order = if !inside { None } else if e.0 > 0 { Some(std::cmp::Ordering::Less) } else if e.1 < 0 { Some(std::cmp::Ordering::Greater) } else if e == (0, 0) { Some(std::cmp::Ordering::Equal) } else { None };
            same!(format!("{}: instant_cmp({},{})", what, i, j), g.instant_cmp(i, j), order);
            same!(format!("{}: are_distinct_instants({},{})", what, i, j), g.are_distinct_instants(i, j), e.0 > 0 || e.1 < 0);
        }
        let mut from: Vec<(u32, u32, B)> = g.constraints_from(i).map(|k| (TimeConstraint::from(&k), TimeConstraint::to(&k), (k.lower_bound().tk(), k.upper_bound().tk()))).collect();
        let mut to: Vec<(u32, u32, B)> = g.constraints_to(i).map(|k| (TimeConstraint::from(&k), TimeConstraint::to(&k), (k.lower_bound().tk(), k.upper_bound().tk()))).collect();
        from.sort(); to.sort();
        let near: Vec<u32> = if i < n { (0..n).filter(|&j| j != i && net.span(i as usize, j as usize) != (-M, M)).collect() } else { vec![] };
        same!(format!("{}: constraints_from({})", what, i), from, near.iter().map(|&j| (i, j, net.span(i as usize, j as usize))).collect::<Vec<_>>());
        same!(format!("{}: constraints_to({})", what, i), to, near.iter().map(|&j| (j, i, net.span(j as usize, i as usize))).collect::<Vec<_>>());
    }
    let mut all: Vec<(u32, u32, B)> = g.iter().map(|k| { let (f, t, b) = (TimeConstraint::from(&k), TimeConstraint::to(&k), (k.lower_bound().tk(), k.upper_bound().tk())); if f <= t { (f, t, b) } else { (t, f, (-b.1, -b.0)) } }).collect();
    all.sort();
    let e: Vec<(u32, u32, B)> = (0..n).flat_map(|i| (i + 1..n).map(move |j| (i, j))).map(|(i, j)| (i, j, net.span(i as usize, j as usize))).filter(|k| k.2 != (-M, M)).collect();
    same!(format!("{}: iter", what), all, e);
    Ok(())
}
fn storage(n: u32, ops: &[Op]) -> Result<(), String> {
    let mut g = TimeGraph::with_size(n); let mut net = Net::new(n as usize);
    queries("a new graph", &g, &net)?;
    for (s, op) in ops.iter().enumerate() {
        let what = format!("after step {} ({:?})", s, op);
        match op {
            Op::Put(k) => {
                let (x, e) = oracle(&net, k);
                if put(&mut g, k, s as u64) != e { return Ok(()) } // another property's matter
                if matrix(&g) != Some(net_matrix(&x)) {
                    // either the propagation or the storage is wrong: only look at what the storage alone decides
                    return two_views(&what, &g);
                }
                net = x;
            }
            Op::Resize(m) => { g.resize(*m); net.shrink(*m as usize); net.grow(*m as usize); }
            Op::Reset => { g.reset(); net = Net::new(net.n); }
            Op::Shrink => { g.shrink_to_fit(); let k = (0..net.n).rev().find(|&i| (0..i).any(|j| net.span(i, j) != (-M, M))).map_or(0, |i| i + 1); net.shrink(k); }
            Op::ShrinkTo(m) => g.shrink_to(*m),
            Op::Clone => { let h = g.clone(); queries(&what, &g, &net)?; g = h; }
        }
        queries(&what, &g, &net)?;
    }
    Ok(())
}
/// the two directions of a pair and the two kinds of queries must agree whatever the propagation did
fn two_views(what: &str, g: &TimeGraph) -> Result<(), String> {
    let n = g.size();
    for i in 0..n { for j in 0..n {
        let (a, b) = (rd(&g.timespan(i, j)), rd(&g.timespan(j, i)));
        same!(format!("{}: timespan({},{}) and the opposite of timespan({},{})", what, i, j, j, i), a, (-b.1, -b.0));
        let k = g.constraint(i, j).map_or((-M, M), |k| (k.lower_bound().tk(), k.upper_bound().tk()));
        same!(format!("{}: constraint({},{}) and timespan({},{})", what, i, j, i, j), k, a);
    } }
    Ok(())
}
pub fn c18(c: &mut Ctx) {
    c.stage("growing and shrinking", 0);
    for n in 0..6 { for m in 0..7 { for p in 0..7 { c.case(|| format!("sizes {} {} {}", n, m, p), || {
        let full: Vec<Op> = (0..n).flat_map(|i| (0..i).map(move |j| (i, j))).map(|(i, j)| Op::Put((j, i, ((i * 10 + j) as i128, 100 + (i * 10 + j) as i128)))).collect();
        let mut ops = full; ops.extend([Op::Clone, Op::Resize(m), Op::Resize(p), Op::Shrink, Op::Resize(p), Op::ShrinkTo(0), Op::Reset, Op::Shrink]);
        storage(n, &ops) }); } } }
    c.stage("random histories", 80);
    while c.more() {
        let n = size(&mut c.rng, 6); let len = 1 + c.rng.below(9) as usize;
        let ks = rks(&mut c.rng, n.max(1), len as u64, true);
        let ops: Vec<Op> = ks.into_iter().map(|k| match c.rng.below(12) { 0 => Op::Resize(c.rng.below(8) as u32), 1 => Op::Reset, 2 | 3 => Op::Shrink, 4 => Op::ShrinkTo(c.rng.below(4) as u32), 5 => Op::Clone, _ => Op::Put(k) }).collect();
        c.case(|| format!("graph of {} instants, operations {:?}", n, ops), || storage(n, &ops));
    }
}
