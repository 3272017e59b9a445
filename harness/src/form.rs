//! Monotone formulas: enumeration, truth tables, rewrites.
use cosmian_abe_gpsw::core::msp::Node;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum F {
    L(u32),
    A(Box<F>, Box<F>),
    O(Box<F>, Box<F>),
}
use F::*;

impl F {
    pub fn node(&self) -> Node {
        match self {
            L(a) => Node::Leaf(*a),
            A(x, y) => Node::And(Box::new(x.node()), Box::new(y.node())),
            O(x, y) => Node::Or(Box::new(x.node()), Box::new(y.node())),
        }
    }
    pub fn eval(&self, s: &dyn Fn(u32) -> bool) -> bool {
        match self {
            L(a) => s(*a),
            A(x, y) => x.eval(s) && y.eval(s),
            O(x, y) => x.eval(s) || y.eval(s),
        }
    }
    pub fn sat(&self, attrs: &[u32]) -> bool {
        self.eval(&|a| attrs.contains(&a))
    }
    pub fn leaves(&self) -> Vec<u32> {
        match self {
            L(a) => vec![*a],
            A(x, y) | O(x, y) => {
                let mut v = x.leaves();
                v.extend(y.leaves());
                v
            }
        }
    }
    pub fn map(&self, f: &dyn Fn(u32) -> u32) -> F {
        match self {
            L(a) => L(f(*a)),
            A(x, y) => A(Box::new(x.map(f)), Box::new(y.map(f))),
            O(x, y) => O(Box::new(x.map(f)), Box::new(y.map(f))),
        }
    }
    pub fn text(&self) -> String {
        match self {
            L(a) => a.to_string(),
            A(x, y) => format!("({}&{})", x.text(), y.text()),
            O(x, y) => format!("({}|{})", x.text(), y.text()),
        }
    }
    pub fn size(&self) -> usize {
        match self {
            L(_) => 1,
            A(x, y) | O(x, y) => x.size() + y.size(),
        }
    }
    /// one delegation rewrite: an OR replaced by a branch or by an AND
    pub fn rewrites(&self) -> Vec<F> {
        let mut v = vec![];
        match self {
            L(_) => {}
            A(x, y) => {
                v.extend(x.rewrites().into_iter().map(|x| A(Box::new(x), y.clone())));
                v.extend(y.rewrites().into_iter().map(|y| A(x.clone(), Box::new(y))));
            }
            O(x, y) => {
                v.push((**x).clone());
                v.push((**y).clone());
                v.push(A(x.clone(), y.clone()));
                v.extend(x.rewrites().into_iter().map(|x| O(Box::new(x), y.clone())));
                v.extend(y.rewrites().into_iter().map(|y| O(x.clone(), Box::new(y))));
            }
        }
        v
    }
    /// closure under rewriting, self included
    pub fn closure(&self) -> Vec<F> {
        let mut seen = std::collections::BTreeSet::from([self.clone()]);
        let mut todo = vec![self.clone()];
        while let Some(f) = todo.pop() {
            for g in f.rewrites() {
                if seen.insert(g.clone()) {
                    todo.push(g);
                }
            }
        }
        seen.into_iter().collect()
    }
}

/// all trees whose leaves, left to right, are exactly `ls`
pub fn trees(ls: &[u32]) -> Vec<F> {
    if ls.len() == 1 {
        return vec![L(ls[0])];
    }
    let mut v = vec![];
    for k in 1..ls.len() {
        let a = trees(&ls[..k]);
        let b = trees(&ls[k..]);
        for x in &a {
            for y in &b {
                v.push(A(Box::new(x.clone()), Box::new(y.clone())));
                v.push(O(Box::new(x.clone()), Box::new(y.clone())));
            }
        }
    }
    v
}

pub fn permutations(v: &[u32]) -> Vec<Vec<u32>> {
    if v.len() <= 1 {
        return vec![v.to_vec()];
    }
    let mut r = vec![];
    for i in 0..v.len() {
        let mut w = v.to_vec();
        let x = w.remove(i);
        for mut p in permutations(&w) {
            p.insert(0, x);
            r.push(p);
        }
    }
    r
}

/// all trees over all ordered selections of `k` distinct attributes of `attrs`
pub fn trees_over(attrs: &[u32], k: usize) -> Vec<F> {
    let mut r = vec![];
    for s in subsets(attrs) {
        if s.len() == k {
            for p in permutations(&s) {
                r.extend(trees(&p));
            }
        }
    }
    r
}

pub fn subsets(v: &[u32]) -> Vec<Vec<u32>> {
    (0..1u32 << v.len())
        .map(|m| {
            v.iter()
                .enumerate()
                .filter(|(i, _)| m >> i & 1 == 1)
                .map(|(_, a)| *a)
                .collect()
        })
        .collect()
}

/// a few characteristic orders of a list; all of them when it is short
pub fn orders(v: &[u32], all_up_to: usize) -> Vec<Vec<u32>> {
    if v.len() <= all_up_to {
        return permutations(v);
    }
    let mut r = vec![v.to_vec()];
    let mut w = v.to_vec();
    w.reverse();
    r.push(w);
    let mut w = v.to_vec();
    w.rotate_left(v.len() / 2);
    r.push(w);
    r.sort();
    r.dedup();
    r
}
