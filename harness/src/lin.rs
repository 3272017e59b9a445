//! Large instances of the distribution properties. On the exponents of the toy group the outputs are affine in the
//! draws; the image of the uniform draws is then an affine space, and two distributions are equal exactly when the
//! spaces are. The space is obtained by running the code once for every basis vector of the draws, and that the
//! code is affine there is checked on every pair of them (an instance that is not is left to the enumeration of
//! small fields, and counted as such).
use crate::{form::F, toy};

pub const Q: u64 = (1 << 61) - 1;

pub struct Affine {
    pub base: Vec<u64>,
    pub dirs: Vec<Vec<u64>>,
    pub runs: u64,
}
fn minus(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| toy::subm(*x, *y, Q)).collect()
}
fn plus(a: &[u64], b: &[u64]) -> Vec<u64> {
    a.iter().zip(b).map(|(x, y)| toy::addm(*x, *y, Q)).collect()
}
/// `f` over F_(2^61-1), as a function of its draws; None when it is not affine
pub fn affine(f: &dyn Fn() -> Result<Vec<u64>, String>) -> Result<Option<Affine>, String> {
    let (base, n) = toy::scripted(Q, &[], f)?;
    let mut runs = 1;
    let mut dirs: Vec<Vec<u64>> = vec![];
    let unit = |i: usize, v: u64| {
        let mut d = vec![0; n];
        d[i] = v;
        d
    };
    for i in 0..n {
        let (r, k) = toy::scripted(Q, &unit(i, 1), f)?;
        runs += 1;
        if r.len() != base.len() || k != n {
            return Ok(None);
        }
        dirs.push(minus(&r, &base));
    }
    let check = |d: &[u64]| -> Result<bool, String> {
        let (r, k) = toy::scripted(Q, d, f)?;
        let mut want = base.clone();
        for (c, x) in d.iter().zip(&dirs) {
            if *c != 0 {
                want = plus(&want, &x.iter().map(|v| toy::mulm(*v, *c, Q)).collect::<Vec<_>>());
            }
        }
        Ok(k == n && r == want)
    };
    for i in 0..n {
        runs += 1;
        if !check(&unit(i, Q - 5))? {
            return Ok(None);
        }
        if n <= 16 {
            for j in 0..i {
                let mut d = unit(i, 1);
                d[j] = 3;
                runs += 1;
                if !check(&d)? {
                    return Ok(None);
                }
            }
        }
    }
    let d: Vec<u64> = (0..n as u64).map(|i| i * i + 7).collect();
    if !check(&d)? {
        return Ok(None);
    }
    Ok(Some(Affine { base, dirs, runs }))
}

/// a linear space, in reduced form
#[derive(Default)]
pub struct Span(Vec<(usize, Vec<u64>)>);
impl Span {
    pub fn of(v: &[Vec<u64>]) -> Span {
        let mut s = Span::default();
        for x in v {
            s.add(x);
        }
        s
    }
    fn reduce(&self, v: &[u64]) -> Vec<u64> {
        let mut v = v.to_vec();
        for (p, r) in &self.0 {
            let c = v[*p];
            if c != 0 {
                for (x, y) in v.iter_mut().zip(r) {
                    *x = toy::subm(*x, toy::mulm(c, *y, Q), Q);
                }
            }
        }
        v
    }
    pub fn add(&mut self, v: &[u64]) {
        let v = self.reduce(v);
        if let Some(p) = v.iter().position(|x| *x != 0) {
            let i = toy::invm(v[p], Q);
            self.0.push((p, v.iter().map(|x| toy::mulm(*x, i, Q)).collect()));
        }
    }
    pub fn has(&self, v: &[u64]) -> bool {
        self.reduce(v).iter().all(|x| *x == 0)
    }
    pub fn dim(&self) -> usize {
        self.0.len()
    }
}
/// are these the same affine spaces
pub fn same(a: &Affine, b: &Affine) -> bool {
    let (x, y) = (Span::of(&a.dirs), Span::of(&b.dirs));
    x.dim() == y.dim() && b.dirs.iter().all(|d| x.has(d)) && x.has(&minus(&a.base, &b.base))
}
pub fn diff(a: &[u64], b: &[u64]) -> Vec<u64> {
    minus(a, b)
}

/// at most `cap` of the maximal refused attribute sets (over the leaves of `f`), in a fixed order
pub fn refused(f: &F, cap: usize) -> Vec<Vec<u32>> {
    match f {
        F::L(_) => vec![vec![]],
        F::A(a, b) => {
            let mut out: Vec<Vec<u32>> = vec![];
            let (la, lb) = (a.leaves(), b.leaves());
            let (ra, rb) = (refused(a, cap), refused(b, cap));
            for i in 0..ra.len().max(rb.len()) {
                if let Some(x) = ra.get(i) {
                    out.push([x.clone(), lb.clone()].concat());
                }
                if let Some(x) = rb.get(i) {
                    out.push([la.clone(), x.clone()].concat());
                }
            }
            out.truncate(cap);
            out
        }
        F::O(a, b) => {
            let (ra, rb) = (refused(a, cap), refused(b, cap));
            let mut out = vec![];
            'all: for s in 0..ra.len() + rb.len() {
                for i in 0..=s {
                    if let (Some(x), Some(y)) = (ra.get(i), rb.get(s - i)) {
                        out.push([x.clone(), y.clone()].concat());
                        if out.len() >= cap {
                            break 'all;
                        }
                    }
                }
            }
            out
        }
    }
}

/// chains and balanced formulas of about `n` leaves
pub fn larges(n: u32) -> Vec<F> {
    let o = |k: bool, a: F, b: F| if k { F::A(Box::new(a), Box::new(b)) } else { F::O(Box::new(a), Box::new(b)) };
    let gates: [&dyn Fn(u32) -> bool; 5] = [&|_| true, &|i| i % 2 == 0, &|i| i % 3 == 0, &|i| i % 3 != 0, &|i| i > 3];
    let mut v = vec![];
    for g in gates {
        v.push((2..=n).fold(F::L(1), |f, i| o(g(i), f, F::L(i))));
        v.push((1..n).rev().fold(F::L(n), |f, i| o(g(i), F::L(i), f)));
    }
    fn bal(lo: u32, hi: u32, d: u32, pat: u32) -> F {
        if hi - lo == 1 {
            return F::L(lo);
        }
        let m = lo + (hi - lo) / 2;
        let (a, b) = (Box::new(bal(lo, m, d + 1, pat)), Box::new(bal(m, hi, d + 1, pat)));
        if pat >> (d % 3) & 1 == 1 { F::A(a, b) } else { F::O(a, b) }
    }
    for p in 1..8 {
        v.push(bal(1, n + 1, 0, p));
    }
    v
}
