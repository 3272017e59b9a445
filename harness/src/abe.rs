//! Thin helpers over the public scheme trait.
use cosmian_abe_gpsw::core::{
    gpsw::{AbeScheme, AsBytes, Gpsw},
    msp::{MonotoneSpanProgram, Node},
};

use crate::toy::*;
pub use cosmian_abe_gpsw::core::bilinear_map::bls12_381::Bls12_381;

pub type Bls = Gpsw<Bls12_381>;
pub type G3x = Gpsw<T3>;
pub type G5 = Gpsw<T5>;
pub type G251 = Gpsw<T251>;
pub type G61 = Gpsw<T61>;

pub trait Sch: AbeScheme + Sync + Send + 'static {}
impl<A: AbeScheme + Sync + Send + 'static> Sch for A {}

pub type Mk<A> = <A as AbeScheme>::MasterPrivateKey;
pub type Pk<A> = <A as AbeScheme>::MasterPublicKey;
pub type Dk<A> = <A as AbeScheme>::MasterPublicDelegationKey;
pub type Uk<A> = <A as AbeScheme>::UserDecryptionKey;
pub type Ct<A> = <A as AbeScheme>::CipherText;
pub type Pt<A> = <A as AbeScheme>::PlainText;

pub fn s<E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> String {
    move |e| format!("{what} failed: {e}")
}

pub fn master<A: Sch>(n: usize) -> Result<(Mk<A>, Pk<A>, Dk<A>), String> {
    A::generate_master_key(&A::default(), n).map_err(s("generate_master_key"))
}
pub fn msp(n: &Node) -> Result<MonotoneSpanProgram<i32>, String> {
    n.to_msp().map_err(s("to_msp"))
}
pub fn keygen<A: Sch>(n: &Node, mk: &Mk<A>) -> Result<Uk<A>, String> {
    A::key_generation(&A::default(), &msp(n)?, mk).map_err(s("key_generation"))
}
pub fn rand_pt<A: Sch>() -> Result<Pt<A>, String> {
    A::generate_random_plaintext(&A::default()).map_err(s("generate_random_plaintext"))
}
pub fn enc<A: Sch>(m: &Pt<A>, attrs: &[u32], pk: &Pk<A>) -> Result<Ct<A>, String> {
    A::encrypt(&A::default(), m, attrs, pk).map_err(s("encrypt"))
}
pub fn bytes<T: AsBytes>(t: &T) -> Result<Vec<u8>, String> {
    t.try_into_bytes().map_err(s("try_into_bytes"))
}
pub fn parse<T: AsBytes>(b: &[u8]) -> Result<T, String> {
    T::try_from_bytes(b).map_err(s("try_from_bytes"))
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Dec {
    Msg(Vec<u8>),
    Refused(String),
}
/// decrypt; `Ok(None)` and `Err` are both refusals
pub fn dec<A: Sch>(ct: &Ct<A>, k: &Uk<A>) -> Result<Dec, String> {
    Ok(match A::decrypt(&A::default(), ct, k) {
        Ok(Some(m)) => Dec::Msg(bytes(&m)?),
        Ok(None) => Dec::Refused("no solution".into()),
        Err(e) => Dec::Refused(e.to_string()),
    })
}
/// Judge one decryption against the expected outcome
pub fn judge(d: &Dec, expect: bool, m: &[u8]) -> Result<(), String> {
    match (d, expect) {
        (Dec::Msg(x), true) if x == m => Ok(()),
        (Dec::Msg(x), true) => Err(format!("recovered {} instead of {}", hx(x), hx(m))),
        (Dec::Refused(e), true) => Err(format!("authorised decryption refused: {e}")),
        (Dec::Refused(_), false) => Ok(()),
        (Dec::Msg(x), false) if x == m => Err("unauthorised key recovered the message".into()),
        (Dec::Msg(x), false) => Err(format!("unauthorised key obtained a message ({})", hx(x))),
    }
}
pub fn hx(b: &[u8]) -> String {
    let h = hex::encode(b);
    if h.len() > 40 {
        format!("{}..({} bytes)", &h[..40], b.len())
    } else {
        h
    }
}

// ---- published layouts, written independently of the library ----
pub fn be(n: usize) -> Vec<u8> {
    (n as u32).to_be_bytes().to_vec()
}
pub fn list<T: AsRef<[u8]>>(items: &[T]) -> Vec<u8> {
    if items.is_empty() {
        return vec![];
    }
    let mut v = be(items.len());
    for i in items {
        v.extend(i.as_ref());
    }
    v
}
pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}
/// toy element encoding
pub fn te(v: u64, w: usize) -> Vec<u8> {
    v.to_be_bytes()[8 - w..].to_vec()
}
pub fn tv(b: &[u8]) -> u64 {
    b.iter().fold(0, |a, x| a << 8 | *x as u64)
}
pub fn toy_list(v: &[u64], w: usize) -> Vec<u8> {
    list(&v.iter().map(|x| te(*x, w)).collect::<Vec<_>>())
}
/// master private key bytes: list of t_i, then y
pub fn toy_mk(t: &[u64], y: u64, w: usize) -> Vec<u8> {
    cat(&[&toy_list(t, w), &te(y, w)])
}
pub fn toy_dk(t: &[u64], q: u64, w: usize) -> Vec<u8> {
    toy_list(&t.iter().map(|x| invm(*x, q)).collect::<Vec<_>>(), w)
}
/// user key bytes: list of d_i, then rows | cols | attributes | entries
pub fn toy_uk(d: &[u64], attrs: &[u32], m: &[Vec<u64>], w: usize) -> Vec<u8> {
    let cols = m.first().map_or(0, Vec::len);
    let mut v = toy_list(d, w);
    v.extend(be(m.len()));
    v.extend(be(cols));
    for a in attrs {
        v.extend(a.to_be_bytes());
    }
    for r in m {
        for c in r {
            v.extend(te(*c, w));
        }
    }
    v
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ToyUk {
    pub d: Vec<u64>,
    pub attrs: Vec<u32>,
    pub m: Vec<Vec<u64>>,
}
/// reference reader of the published user key layout
pub fn read_toy_uk(b: &[u8], w: usize) -> ToyUk {
    let mut p = 0;
    let u32r = |p: &mut usize| {
        let v = u32::from_be_bytes(b[*p..*p + 4].try_into().unwrap());
        *p += 4;
        v
    };
    let n = u32r(&mut p) as usize;
    let mut d = vec![];
    for _ in 0..n {
        d.push(tv(&b[p..p + w]));
        p += w;
    }
    let r = u32r(&mut p) as usize;
    let c = u32r(&mut p) as usize;
    let mut attrs = vec![];
    for _ in 0..r {
        attrs.push(u32r(&mut p));
    }
    let mut m = vec![];
    for _ in 0..r {
        let mut row = vec![];
        for _ in 0..c {
            row.push(tv(&b[p..p + w]));
            p += w;
        }
        m.push(row);
    }
    assert_eq!(p, b.len());
    ToyUk { d, attrs, m }
}
#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct ToyCt {
    pub gamma: Vec<u32>,
    pub e: Vec<u64>,
    pub ep: u64,
}
pub fn read_toy_ct(b: &[u8], w: usize) -> ToyCt {
    let n = u32::from_be_bytes(b[0..4].try_into().unwrap()) as usize;
    let mut p = 4;
    let mut gamma = vec![];
    for _ in 0..n {
        gamma.push(u32::from_be_bytes(b[p..p + 4].try_into().unwrap()));
        p += 4;
    }
    let n2 = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize;
    p += 4;
    let mut e = vec![];
    for _ in 0..n2 {
        e.push(tv(&b[p..p + w]));
        p += w;
    }
    let ep = tv(&b[p..p + w]);
    assert_eq!(p + w, b.len());
    ToyCt { gamma, e, ep }
}
pub fn toy_ct(c: &ToyCt, w: usize) -> Vec<u8> {
    let mut v = list(&c.gamma.iter().map(|g| g.to_be_bytes()).collect::<Vec<_>>());
    v.extend(toy_list(&c.e, w));
    v.extend(te(c.ep, w));
    v
}
