//! The oracle: sets of extended integers, as canonical lists of inclusive bounds.
//! -M and M stand for the infinities.
pub const M: i128 = i64::MAX as i128;
pub type B = (i128, i128);
pub type S = Vec<B>;

/// exact saturation of an integer on the extended line
pub fn sat(x: i128) -> i64 { x.clamp(-M, M) as i64 }

/// canonical form: parts with at least one finite point, sorted, separated by a missing point
pub fn norm(mut v: S) -> S {
    v.retain(|&(l, u)| l <= u && l < M && u > -M);
    v.sort();
    let mut r: S = vec![];
    for (l, u) in v {
        match r.last_mut() {
            Some(p) if l <= p.1 + 1 => { if u > p.1 { p.1 = u } }
            _ => r.push((l, u)),
        }
    }
    r
}
pub fn union(a: &S, b: &S) -> S { norm(a.iter().chain(b).copied().collect()) }
pub fn inter(a: &S, b: &S) -> S {
    let mut r = vec![];
    for x in a { for y in b { r.push((x.0.max(y.0), x.1.min(y.1))) } }
    norm(r)
}
pub fn compl(a: &S) -> S {
    let a = norm(a.clone());
    let mut r = vec![];
    let mut lo = -M;
    for (l, u) in a { if l > -M { r.push((lo, l - 1)) } lo = if u == M { M + 1 } else { u + 1 } }
    if lo <= M { r.push((lo, M)) }
    norm(r)
}
pub fn has(a: &S, x: i128) -> bool { a.iter().any(|&(l, u)| l <= x && x <= u) }
pub fn neg(a: &S) -> S { norm(a.iter().map(|&(l, u)| (-u, -l)).collect()) }
pub fn subset(a: &S, b: &S) -> bool { inter(a, b) == *a }
/// sum of two extended bounds of the same side
pub fn addb(a: i128, b: i128) -> i128 { if a.abs() == M { a } else if b.abs() == M { b } else { a + b } }
pub fn sum(a: &S, b: &S) -> S {
    let mut r = vec![];
    for x in a { for y in b { r.push((addb(x.0, y.0), addb(x.1, y.1))) } }
    norm(r)
}
/// does every finite bound of the sum stay strictly inside the finite range ?
pub fn sum_ok(a: &S, b: &S) -> bool {
    a.iter().all(|x| b.iter().all(|y| [(x.0, y.0), (x.1, y.1)].iter().all(|&(p, q)| p.abs() == M || q.abs() == M || (p + q).abs() < M)))
}
pub fn wf(v: &S) -> bool {
    v.iter().all(|&(l, u)| l <= u && l < M && u > -M && l >= -M && u <= M) && v.windows(2).all(|w| w[0].1 + 1 < w[1].0)
}
/// simple temporal network oracle: lower[i][j] = lower bound of t_j - t_i (None: unconstrained)
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Net { pub n: usize, pub m: Vec<Vec<Option<i128>>> }
impl Net {
    pub fn new(n: usize) -> Net {
        let mut m = vec![vec![None; n]; n];
        for i in 0..n { m[i][i] = Some(0) }
        Net { n, m }
    }
    pub fn grow(&mut self, n: usize) {
        if n <= self.n { return }
        let mut r = Net::new(n);
        for i in 0..self.n { for j in 0..self.n { r.m[i][j] = self.m[i][j] } }
        *self = r;
    }
    pub fn shrink(&mut self, n: usize) {
        if n >= self.n { return }
        let mut r = Net::new(n);
        for i in 0..n { for j in 0..n { r.m[i][j] = self.m[i][j] } }
        *self = r;
    }
    fn raise(&mut self, i: usize, j: usize, v: i128) { if self.m[i][j].map_or(true, |x| x < v) { self.m[i][j] = Some(v) } }
    pub fn add(&mut self, i: usize, j: usize, b: B) {
        self.grow(i.max(j) + 1);
        if b.0 > -M { self.raise(i, j, b.0) }
        if b.1 < M { self.raise(j, i, -b.1) }
    }
    /// closes the network by relaxing until nothing changes; false if inconsistent
    pub fn close(&mut self) -> bool {
        for _ in 0..self.n + 1 {
            let mut changed = false;
            for i in 0..self.n { for j in 0..self.n { for k in 0..self.n {
                if let (Some(a), Some(b)) = (self.m[i][k], self.m[k][j]) {
                    if self.m[i][j].map_or(true, |x| x < a + b) { self.m[i][j] = Some(a + b); changed = true }
                }
            } } }
            if (0..self.n).any(|i| self.m[i][i].unwrap() > 0) { return false }
            if !changed { return true }
        }
        true
    }
    pub fn span(&self, i: usize, j: usize) -> B {
        if i >= self.n || j >= self.n { return (-M, M) }
        (self.m[i][j].unwrap_or(-M), self.m[j][i].map_or(M, |x| -x))
    }
}
