//! Policies, access policies and their reference semantics.
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::abe_policy::{AccessPolicy, Attribute, Policy, PolicyAxis};

use crate::abe::*;

pub type At = (usize, usize); // axis index, attribute index

#[derive(Clone, Debug)]
pub struct Spec {
    pub axes: Vec<(String, Vec<String>, bool)>,
    pub max: u32,
}
impl Spec {
    pub fn new(axes: &[(&str, &[&str], bool)], max: u32) -> Self {
        Spec {
            axes: axes
                .iter()
                .map(|(n, a, h)| (n.to_string(), a.iter().map(|s| s.to_string()).collect(), *h))
                .collect(),
            max,
        }
    }
    pub fn policy(&self) -> Result<Policy, String> {
        let mut p = Policy::new(self.max);
        for i in 0..self.axes.len() {
            p.add_axis(&self.axis(i)).map_err(s("add_axis"))?;
        }
        Ok(p)
    }
    pub fn axis(&self, i: usize) -> PolicyAxis {
        let (n, a, h) = &self.axes[i];
        PolicyAxis::new(n, &a.iter().map(String::as_str).collect::<Vec<_>>(), *h)
    }
    pub fn attr(&self, a: At) -> Attribute {
        Attribute::new(&self.axes[a.0].0, &self.axes[a.0].1[a.1])
    }
    pub fn attrs(&self, v: &[At]) -> Vec<Attribute> {
        v.iter().map(|a| self.attr(*a)).collect()
    }
    pub fn all(&self) -> Vec<At> {
        let mut v = vec![];
        for (i, a) in self.axes.iter().enumerate() {
            for j in 0..a.1.len() {
                v.push((i, j));
            }
        }
        v
    }
    /// attributes a leaf stands for
    pub fn expand(&self, a: At) -> Vec<At> {
        if self.axes[a.0].2 {
            (0..=a.1).map(|j| (a.0, j)).collect()
        } else {
            vec![a]
        }
    }
    pub fn n(&self) -> usize {
        self.axes.iter().map(|a| a.1.len()).sum()
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Ap {
    L(At),
    A(Box<Ap>, Box<Ap>),
    O(Box<Ap>, Box<Ap>),
    All,
}
impl Ap {
    pub fn and(a: Ap, b: Ap) -> Ap {
        Ap::A(Box::new(a), Box::new(b))
    }
    pub fn or(a: Ap, b: Ap) -> Ap {
        Ap::O(Box::new(a), Box::new(b))
    }
    pub fn real(&self, sp: &Spec) -> AccessPolicy {
        match self {
            Ap::L(a) => AccessPolicy::Attr(sp.attr(*a)),
            Ap::A(x, y) => AccessPolicy::And(Box::new(x.real(sp)), Box::new(y.real(sp))),
            Ap::O(x, y) => AccessPolicy::Or(Box::new(x.real(sp)), Box::new(y.real(sp))),
            Ap::All => AccessPolicy::All,
        }
    }
    pub fn text(&self, sp: &Spec) -> String {
        match self {
            Ap::L(a) => sp.attr(*a).to_string(),
            Ap::A(x, y) => format!("({} && {})", x.text(sp), y.text(sp)),
            Ap::O(x, y) => format!("({} || {})", x.text(sp), y.text(sp)),
            Ap::All => "*".into(),
        }
    }
    /// `leaf(a)`: does the ciphertext satisfy the leaf itself (without hierarchy)
    pub fn eval(&self, sp: &Spec, has: &dyn Fn(At) -> bool) -> bool {
        match self {
            Ap::L(a) => sp.expand(*a).into_iter().any(has),
            Ap::A(x, y) => x.eval(sp, has) && y.eval(sp, has),
            Ap::O(x, y) => x.eval(sp, has) || y.eval(sp, has),
            Ap::All => sp.all().into_iter().any(has),
        }
    }
    pub fn leaves(&self) -> Vec<At> {
        match self {
            Ap::L(a) => vec![*a],
            Ap::A(x, y) | Ap::O(x, y) => {
                let mut v = x.leaves();
                v.extend(y.leaves());
                v
            }
            Ap::All => vec![],
        }
    }
    /// does the expansion use one attribute twice
    pub fn repeats(&self, sp: &Spec) -> bool {
        let mut v: Vec<At> = self.leaves().into_iter().flat_map(|a| sp.expand(a)).collect();
        let n = v.len();
        v.sort();
        v.dedup();
        v.len() != n
    }
}
/// all access policies with exactly k leaves over the given leaf menu
pub fn aps(menu: &[Ap], k: usize) -> Vec<Ap> {
    if k == 1 {
        return menu.to_vec();
    }
    let mut v = vec![];
    for i in 1..k {
        let a = aps(menu, i);
        let b = aps(menu, k - i);
        for x in &a {
            for y in &b {
                v.push(Ap::and(x.clone(), y.clone()));
                v.push(Ap::or(x.clone(), y.clone()));
            }
        }
    }
    v
}
pub fn at_subsets(v: &[At]) -> Vec<Vec<At>> {
    (0..1u32 << v.len())
        .map(|m| v.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, a)| *a).collect())
        .collect()
}

pub fn e_master<A: Sch>(p: &Policy) -> Result<(Mk<A>, Pk<A>, Dk<A>), String> {
    Engine::<A>::new().generate_master_key(p).map_err(s("Engine::generate_master_key"))
}
pub fn e_key<A: Sch>(p: &Policy, mk: &Mk<A>, ap: &AccessPolicy) -> Result<Uk<A>, String> {
    Engine::<A>::new().generate_user_key(p, mk, ap).map_err(s("generate_user_key"))
}
pub fn e_enc<A: Sch>(p: &Policy, pk: &Pk<A>, at: &[Attribute], m: &Pt<A>) -> Result<Ct<A>, String> {
    Engine::<A>::new().encrypt(p, pk, at, m).map_err(s("Engine::encrypt"))
}
pub fn e_dec<A: Sch>(ct: &Ct<A>, k: &Uk<A>) -> Result<Dec, String> {
    Ok(match Engine::<A>::new().decrypt(ct, k) {
        Ok(Some(m)) => Dec::Msg(bytes(&m)?),
        Ok(None) => Dec::Refused("no solution".into()),
        Err(e) => Dec::Refused(e.to_string()),
    })
}
pub fn e_pt<A: Sch>() -> Result<Pt<A>, String> {
    Engine::<A>::new().random_message().map_err(s("random_message"))
}
