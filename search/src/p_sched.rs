use crate::ctx::*;
use crate::p_graph::*;
use crate::spec::*;
use crate::util::*;
use crate::{ensure, same};
use chronologic::graph::*;
use chronologic::*;

#[derive(Debug, Clone)]
enum Op { Retain(u32, S), Remove(u32, S), Deadline(i128), Start(i128) }

fn slots(s: &TimeScheduler<'_>) -> Vec<S> { s.schedule().iter().map(|x| parts(x)).collect() }
/// does some complete choice use date d for instant i ? (small finite domain)
fn solutions(net: &Net, dom: &[S], lo: i128, hi: i128) -> Vec<Vec<bool>> {
    let n = dom.len(); let w = (hi - lo + 1) as usize;
    let mut ok = vec![vec![false; w]; n];
    let mut cur = vec![0i128; n];
    fn rec(net: &Net, dom: &[S], lo: i128, hi: i128, k: usize, cur: &mut Vec<i128>, ok: &mut Vec<Vec<bool>>) -> bool {
        if k == dom.len() { return true }
        let mut any = false;
        for d in lo..=hi {
            if !has(&dom[k], d) { continue }
            if (0..k).all(|j| { let (l, u) = net.span(j, k); let x = d - cur[j]; (l == -M || l <= x) && (u == M || x <= u) }) {
                cur[k] = d;
                if rec(net, dom, lo, hi, k + 1, cur, ok) { ok[k][(d - lo) as usize] = true; any = true; }
            }
        }
        any
    }
    rec(net, dom, lo, hi, 0, &mut cur, &mut ok);
    ok
}
fn history(n: u32, ks: &[K], ops: &[Op]) -> Result<(), String> {
    // the graph
    let mut g = TimeGraph::with_size(n); let mut net = Net::new(n as usize);
    for k in ks {
        let mut x = net.clone(); if k.2 .0 > k.2 .1 { continue } x.add(k.0 as usize, k.1 as usize, k.2);
        if !x.close() { continue }
        if g.propagate(((k.0, k.1), iv::<TimeValue>(k.2))).is_err() { return Ok(()) }
        net = x;
    }
    if g.size() as usize != net.n || (0..net.n).any(|i| (0..net.n).any(|j| rd(&g.timespan(i as u32, j as u32)) != net.span(i, j))) { return Ok(()) }
    let n = net.n as u32;
    if n == 0 { return Ok(()) }
    let mut s = TimeScheduler::new(&g);
    same!("a new schedule", slots(&s), vec![vec![(-M, M)]; n as usize]);
    same!("constraints of the scheduler", s.constraints().size(), n);
    for (step, op) in ops.iter().enumerate() {
        let what = format!("step {} ({:?})", step, op);
        let old = slots(&s);
        let (r, single, window) = match op {
            Op::Retain(i, w) => { let i = i % n;
                let Some(t) = set_ok::<Timestamp>(w) else { return Ok(()) };
                let r = if w.len() == 1 && step % 2 == 0 { let (l, u) = w[0]; if u == M { s.retain(i, ts(l)..) } else if l == -M { s.retain(i, ..=ts(u)) } else { s.retain(i, ts(l)..=ts(u)) } } else { s.retain(i, t) };
                (format!("{:?}", r), Some(i), w.clone()) }
            Op::Remove(i, w) => { let i = i % n;
                let Some(t) = set_ok::<Timestamp>(w) else { return Ok(()) };
                let r = if w.len() == 1 && step % 2 == 0 { let (l, u) = w[0]; let x = iv::<Timestamp>((l, u)); s.remove(i, x) } else { s.remove(i, t) };
                (format!("{:?}", r), Some(i), compl(w)) }
            Op::Deadline(d) => (format!("{:?}", s.set_deadline(ts(*d))), None, vec![(-M, *d)]),
            Op::Start(d) => (format!("{:?}", s.set_startline(ts(*d))), None, vec![(*d, M)]),
        };
        let new = slots(&s);
        same!(format!("{}: number of slots", what), new.len(), n as usize);
        for i in 0..n { same!("scheduling", s.scheduling(i).map(|x| parts(x)), Some(new[i as usize].clone())); }
        ensure!(s.scheduling(n).is_none(), "scheduling of an absent instant");
        for x in &new { ensure!(wf(x), "{}: ill-formed slots {}", what, span_text(x)); }
        let restricted: Vec<S> = (0..n).map(|i| if single.map_or(true, |x| x == i) { inter(&old[i as usize], &window) } else { old[i as usize].clone() }).collect();
        // a complete choice in a small window of dates
        let (lo, hi) = (-14i128, 14i128);
        let clip = |v: &Vec<S>| -> Vec<S> { v.iter().map(|x| inter(x, &vec![(lo, hi)])).collect() };
        let sols = solutions(&net, &clip(&restricted), lo, hi);
        if r.starts_with("Err") {
            same!(format!("{}: schedule after a refusal", what), new, old);
            ensure!(sols.iter().all(|x| x.iter().all(|&b| !b)), "{}: refused, while some complete choice of dates remains (for example {:?})", what,
                sols.iter().map(|x| x.iter().position(|&b| b).map(|k| k as i128 + lo)).collect::<Vec<_>>());
            // nothing else remains when everything is within the window of dates
        } else {
            for i in 0..n as usize {
                ensure!(!new[i].is_empty(), "{}: accepted, but instant {} has no date", what, i);
                ensure!(subset(&new[i], &restricted[i]), "{}: dates {} of instant {} are not among {}", what, span_text(&new[i]), i, span_text(&restricted[i]));
                for (d, &b) in sols[i].iter().enumerate() { ensure!(!b || has(&new[i], d as i128 + lo), "{}: date {} of instant {} is removed, but belongs to a complete choice", what, d as i128 + lo, i); }
            }
            if let Some(i) = single {
                let i = i as usize;
                same!(format!("{}: dates of the restricted instant", what), &new[i], &restricted[i]);
                for j in 0..n as usize { if j != i && new != old {
                    let reach = sum(&new[i], &vec![net.span(i, j)]);
                    ensure!(subset(&new[j], &reach), "{}: dates {} of instant {} are not all reachable ({})", what, span_text(&new[j]), j, span_text(&reach));
                } }
            }
            if r == "Ok(Unchanged)" { same!(format!("{}: unchanged schedule", what), new, old); }
            else { ensure!(new != old, "{}: reported as a change, but nothing changed", what); }
        }
        let early = s.schedule().iter().map(|x| x.lower_bound().tk()).max().unwrap(); same!("earliest_ending", s.earliest_ending().tk(), early);
        let late = s.schedule().iter().map(|x| x.upper_bound().tk()).min().unwrap(); same!("latest_beginning", s.latest_beginning().tk(), late);
    }
    Ok(())
}
pub fn c19(c: &mut Ctx) {
    c.stage("random histories", 95);
    while c.more() {
        let n = 1 + c.rng.below(4) as u32;
        let ks: Vec<K> = (0..c.rng.below(5)).map(|_| { let (f, t) = (c.rng.below(n as u64) as u32, c.rng.below(n as u64) as u32); let a = c.rng.range(-5, 5) as i128; let u = a + c.rng.below(4) as i128;
            (f, t, (if c.rng.chance(1, 6) { -M } else { a }, if c.rng.chance(1, 6) { M } else { u })) }).collect();
        let w = |r: &mut Rng| -> S { let k = 1 + r.below(4); norm((0..k).map(|_| { let a = r.range(-10, 10) as i128; (if r.chance(1, 10) { -M } else { a }, if r.chance(1, 10) { M } else { a + r.below(6) as i128 }) }).collect()) };
        let ops: Vec<Op> = (0..1 + c.rng.below(6)).map(|_| { let i = c.rng.below(n as u64) as u32; match c.rng.below(6) { 0 | 1 | 2 => Op::Retain(i, w(&mut c.rng)), 3 => Op::Remove(i, w(&mut c.rng)), 4 => Op::Deadline(c.rng.range(-10, 12) as i128), _ => Op::Start(c.rng.range(-12, 10) as i128) } }).collect();
        c.case(|| format!("graph of {} instants with {:?}, operations {:?}", n, ks, ops), || history(n, &ks, &ops));
    }
}
