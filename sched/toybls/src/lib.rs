//! The part of the pairing crate's interface that the library uses, over the exponents modulo
//! 2^61 - 1: every group element is its discrete logarithm. Only the cost of an operation changes
//! for the code above it; used where schedules, not cryptography, are explored.
use core::iter::Sum;
use core::ops::*;
use rand::RngCore;
const P: u64 = (1 << 61) - 1;
fn mul(a: u64, b: u64) -> u64 {
    ((u128::from(a) * u128::from(b)) % u128::from(P)) as u64
}
fn pow(mut a: u64, mut e: u64) -> u64 {
    let mut r = 1;
    while e > 0 {
        if e & 1 == 1 {
            r = mul(r, a);
        }
        a = mul(a, a);
        e >>= 1;
    }
    r
}
pub struct CtOption<T>(Option<T>);
impl<T> CtOption<T> {
    pub fn is_some(&self) -> bool {
        self.0.is_some()
    }
    pub fn is_none(&self) -> bool {
        self.0.is_none()
    }
    pub fn unwrap(self) -> T {
        self.0.unwrap()
    }
    pub fn map<U>(self, f: impl FnOnce(T) -> U) -> CtOption<U> {
        CtOption(self.0.map(f))
    }
}
impl<T> From<CtOption<T>> for Option<T> {
    fn from(c: CtOption<T>) -> Self {
        c.0
    }
}
pub trait Field: Sized {
    fn random(rng: impl RngCore) -> Self;
    fn zero() -> Self;
    fn one() -> Self;
    fn is_zero(&self) -> bool;
    fn square(&self) -> Self;
    fn double(&self) -> Self;
    fn invert(&self) -> CtOption<Self>;
}
pub trait Group: Sized {
    fn random(rng: impl RngCore) -> Self;
    fn generator() -> Self;
    fn identity() -> Self;
    fn is_identity(&self) -> bool;
    fn double(&self) -> Self;
}
macro_rules! element { ($($t:ident)*) => {$(
    #[derive(Clone, Copy, Debug, Default, PartialEq, Eq)]
    pub struct $t(u64);
    impl Neg for $t { type Output = $t; fn neg(self) -> $t { $t((P - self.0) % P) } }
    impl<'a> Neg for &'a $t { type Output = $t; fn neg(self) -> $t { -*self } }
    impl Sum for $t { fn sum<I: Iterator<Item = $t>>(i: I) -> $t { $t(i.fold(0, |a, b| (a + b.0) % P)) } }
    impl<'a> Sum<&'a $t> for $t { fn sum<I: Iterator<Item = &'a $t>>(i: I) -> $t { $t(i.fold(0, |a, b| (a + b.0) % P)) } }
)*} }
element! { Scalar G1Affine G1Projective G2Affine G2Projective Gt }
macro_rules! op { ($($tr:ident $f:ident $l:ident $r:ident $o:ident |$a:ident, $b:ident| $e:expr;)*) => {$(
    impl $tr<$r> for $l { type Output = $o; fn $f(self, r: $r) -> $o { let ($a, $b) = (self.0, r.0); $o($e) } }
    impl<'a> $tr<&'a $r> for $l { type Output = $o; fn $f(self, r: &'a $r) -> $o { let ($a, $b) = (self.0, r.0); $o($e) } }
    impl<'a> $tr<$r> for &'a $l { type Output = $o; fn $f(self, r: $r) -> $o { let ($a, $b) = (self.0, r.0); $o($e) } }
    impl<'a, 'b> $tr<&'b $r> for &'a $l { type Output = $o; fn $f(self, r: &'b $r) -> $o { let ($a, $b) = (self.0, r.0); $o($e) } }
)*} }
macro_rules! asg { ($($tr:ident $f:ident $l:ident $r:ident $op:tt;)*) => {$(
    impl $tr<$r> for $l { fn $f(&mut self, r: $r) { *self = *self $op r } }
    impl<'a> $tr<&'a $r> for $l { fn $f(&mut self, r: &'a $r) { *self = *self $op *r } }
)*} }
op! {
    Add add Scalar Scalar Scalar |a, b| (a + b) % P;
    Sub sub Scalar Scalar Scalar |a, b| (a + P - b) % P;
    Mul mul Scalar Scalar Scalar |a, b| mul(a, b);
    Add add Gt Gt Gt |a, b| (a + b) % P;
    Sub sub Gt Gt Gt |a, b| (a + P - b) % P;
    Mul mul Gt Scalar Gt |a, b| mul(a, b);
}
asg! {
    AddAssign add_assign Scalar Scalar +;
    SubAssign sub_assign Scalar Scalar -;
    MulAssign mul_assign Scalar Scalar *;
    AddAssign add_assign Gt Gt +;
    SubAssign sub_assign Gt Gt -;
    MulAssign mul_assign Gt Scalar *;
}
macro_rules! curve { ($($a:ident $p:ident $n:literal;)*) => {$(
    op! {
        Add add $p $p $p |a, b| (a + b) % P;
        Add add $p $a $p |a, b| (a + b) % P;
        Add add $a $p $p |a, b| (a + b) % P;
        Sub sub $p $p $p |a, b| (a + P - b) % P;
        Sub sub $p $a $p |a, b| (a + P - b) % P;
        Mul mul $p Scalar $p |a, b| mul(a, b);
        Mul mul $a Scalar $p |a, b| mul(a, b);
    }
    asg! {
        AddAssign add_assign $p $p +;
        AddAssign add_assign $p $a +;
        SubAssign sub_assign $p $p -;
        MulAssign mul_assign $p Scalar *;
    }
    impl From<$p> for $a { fn from(p: $p) -> $a { $a(p.0) } }
    impl<'a> From<&'a $p> for $a { fn from(p: &'a $p) -> $a { $a(p.0) } }
    impl From<$a> for $p { fn from(p: $a) -> $p { $p(p.0) } }
    impl<'a> From<&'a $a> for $p { fn from(p: &'a $a) -> $p { $p(p.0) } }
    impl $a {
        pub fn generator() -> $a { $a(1) }
        pub fn identity() -> $a { $a(0) }
        pub fn to_compressed(&self) -> [u8; $n] { bytes(self.0) }
        pub fn from_compressed(b: &[u8; $n]) -> CtOption<$a> { CtOption(parse(b).map($a)) }
    }
    impl $p {
        pub fn generator() -> $p { $p(1) }
        pub fn identity() -> $p { $p(0) }
    }
)*} }
curve! {
    G1Affine G1Projective 48;
    G2Affine G2Projective 96;
}
fn bytes<const N: usize>(x: u64) -> [u8; N] {
    let mut b = [0; N];
    b[..8].copy_from_slice(&x.to_le_bytes());
    b
}
fn parse<const N: usize>(b: &[u8; N]) -> Option<u64> {
    let x = u64::from_le_bytes(b[..8].try_into().unwrap());
    (x < P && b[8..].iter().all(|c| *c == 0)).then_some(x)
}
impl Scalar {
    pub const fn zero() -> Scalar {
        Scalar(0)
    }
    pub const fn one() -> Scalar {
        Scalar(1)
    }
    pub fn to_bytes(&self) -> [u8; 32] {
        bytes(self.0)
    }
    pub fn from_bytes(b: &[u8; 32]) -> CtOption<Scalar> {
        CtOption(parse(b).map(Scalar))
    }
    pub fn invert(&self) -> CtOption<Scalar> {
        CtOption((self.0 != 0).then(|| Scalar(pow(self.0, P - 2))))
    }
}
impl From<u64> for Scalar {
    fn from(x: u64) -> Scalar {
        Scalar(x % P)
    }
}
impl Field for Scalar {
    fn random(mut rng: impl RngCore) -> Scalar {
        Scalar(rng.next_u64() % P)
    }
    fn zero() -> Scalar {
        Scalar(0)
    }
    fn one() -> Scalar {
        Scalar(1)
    }
    fn is_zero(&self) -> bool {
        self.0 == 0
    }
    fn square(&self) -> Scalar {
        *self * *self
    }
    fn double(&self) -> Scalar {
        *self + *self
    }
    fn invert(&self) -> CtOption<Scalar> {
        Scalar::invert(self)
    }
}
macro_rules! group { ($($t:ident)*) => {$(impl Group for $t {
    fn random(mut rng: impl RngCore) -> $t { $t(rng.next_u64() % P) }
    fn generator() -> $t { $t(1) }
    fn identity() -> $t { $t(0) }
    fn is_identity(&self) -> bool { self.0 == 0 }
    fn double(&self) -> $t { *self + *self }
})*} }
group! { Gt G1Projective G2Projective }
impl Gt {
    pub fn to_compressed(&self) -> [u8; 288] {
        bytes(self.0)
    }
    pub fn from_compressed(b: &[u8; 288]) -> CtOption<Gt> {
        CtOption(parse(b).map(Gt))
    }
}
#[derive(Clone, Debug)]
pub struct G2Prepared(u64);
impl From<G2Affine> for G2Prepared {
    fn from(p: G2Affine) -> G2Prepared {
        G2Prepared(p.0)
    }
}
pub struct MillerLoopResult(u64);
impl MillerLoopResult {
    pub fn final_exponentiation(&self) -> Gt {
        Gt(self.0)
    }
}
pub fn multi_miller_loop(t: &[(&G1Affine, &G2Prepared)]) -> MillerLoopResult {
    MillerLoopResult(t.iter().fold(0, |s, (a, b)| (s + mul(a.0, b.0)) % P))
}
pub fn pairing(a: &G1Affine, b: &G2Affine) -> Gt {
    Gt(mul(a.0, b.0))
}
