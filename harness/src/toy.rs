//! Toy bilinear group: every group is Z_q written by its exponents. Implements the library's public
//! `BilinearMap` trait, so that `Gpsw<Toy>` and `Engine<Gpsw<Toy>>` are the real code.
//! All randomness drawn through the map's own primitive is a branching point (`Choice::Enumerate`) or a
//! fixed generic sequence (`Choice::Generic`); the generator handed in by the library is still read, and
//! its output recorded, so that freshness can be judged.
use std::cell::RefCell;
use std::ops::{Add, Div, Mul, Neg, Sub};

use cosmian_abe_gpsw::core::bilinear_map::BilinearMap;
use cosmian_abe_gpsw::core::gpsw::AsBytes;
use cosmian_abe_gpsw::error::FormatErr;
use rand::{CryptoRng, RngCore};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Generic,
    Enumerate,
}

pub struct Stream {
    pub mode: Mode,
    pub state: u64,
    pub nonzero: bool,
    pub prefix: Vec<(u64, u64)>, // (choice, width)
    pub pos: usize,
    pub log: Vec<(u64, u64)>,
    pub rng: Vec<[u64; 2]>,
    pub record_rng: bool,
    pub strict_div: bool,
}

thread_local! {
    pub static STREAM: RefCell<Stream> = const { RefCell::new(Stream {
        mode: Mode::Generic, state: 1, nonzero: true, prefix: Vec::new(), pos: 0, log: Vec::new(),
        rng: Vec::new(), record_rng: false, strict_div: true,
    }) };
}

pub fn splitmix(s: &mut u64) -> u64 {
    *s = s.wrapping_add(0x9E37_79B9_7F4A_7C15);
    let mut z = *s;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

/// generic (deterministic, never zero) randomness from now on, on this thread
pub fn generic(seed: u64) {
    STREAM.with(|s| {
        let mut s = s.borrow_mut();
        s.mode = Mode::Generic;
        s.nonzero = true;
        s.state = seed.wrapping_mul(0x1234_5678_9abc_def1).wrapping_add(77);
        s.log.clear();
        s.strict_div = true;
    });
}

pub fn record_rng(on: bool) {
    STREAM.with(|s| {
        let mut s = s.borrow_mut();
        s.record_rng = on;
        s.rng.clear();
    });
}
pub fn take_rng() -> Vec<[u64; 2]> {
    STREAM.with(|s| std::mem::take(&mut s.borrow_mut().rng))
}

/// Execute `f` once for every resolution of every random draw it makes (stateless search with
/// prefix replay). `f` returns false to stop. Returns the number of executions.
/// `max` bounds the executions (hard error if exceeded: the bound would not be exhaustive).
pub fn explore(nonzero: bool, max: u64, mut f: impl FnMut() -> Result<(), String>) -> Result<u64, String> {
    let mut prefix: Vec<(u64, u64)> = vec![];
    let mut n = 0;
    loop {
        STREAM.with(|s| {
            let mut s = s.borrow_mut();
            s.mode = Mode::Enumerate;
            s.nonzero = nonzero;
            s.prefix = prefix.clone();
            s.pos = 0;
            s.log.clear();
        });
        f()?;
        n += 1;
        if n > max {
            return Err(format!("exploration exceeds {max} executions: more randomness drawn than modelled"));
        }
        let mut log = STREAM.with(|s| {
            let s = s.borrow();
            assert!(s.log.len() >= s.prefix.len(), "nondeterministic replay");
            s.log.clone()
        });
        loop {
            match log.pop() {
                None => {
                    generic(1);
                    return Ok(n);
                }
                Some((c, w)) if c + 1 < w => {
                    log.push((c + 1, w));
                    break;
                }
                _ => {}
            }
        }
        prefix = log;
    }
}

/// run with these draws (zero beyond them); also returns how many were made
pub fn scripted<T>(q: u64, draws: &[u64], f: &dyn Fn() -> Result<T, String>) -> Result<(T, usize), String> {
    STREAM.with(|s| {
        let mut s = s.borrow_mut();
        s.mode = Mode::Enumerate;
        s.nonzero = false;
        s.prefix = draws.iter().map(|d| (*d, q)).collect();
        s.pos = 0;
        s.log.clear();
    });
    let r = f();
    let n = STREAM.with(|s| s.borrow().pos);
    generic(1);
    Ok((r?, n))
}

fn draw<R: RngCore>(rng: &mut R, q: u64) -> u64 {
    let r = [rng.next_u64(), rng.next_u64()];
    STREAM.with(|s| {
        let mut s = s.borrow_mut();
        if s.record_rng {
            s.rng.push(r);
        }
        match s.mode {
            Mode::Generic => loop {
                let v = splitmix(&mut s.state) % q;
                if v != 0 {
                    return v;
                }
            },
            Mode::Enumerate => {
                let width = if s.nonzero { q - 1 } else { q };
                let c = if s.pos < s.prefix.len() {
                    let (c, w) = s.prefix[s.pos];
                    assert_eq!(w, width, "replay diverged");
                    c
                } else {
                    0
                };
                s.pos += 1;
                s.log.push((c, width));
                if s.nonzero {
                    c + 1
                } else {
                    c
                }
            }
        }
    })
}

pub fn mulm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 * b as u128) % q as u128) as u64
}
pub fn addm(a: u64, b: u64, q: u64) -> u64 {
    ((a as u128 + b as u128) % q as u128) as u64
}
pub fn subm(a: u64, b: u64, q: u64) -> u64 {
    addm(a, q - b % q, q)
}
pub fn powm(mut a: u64, mut e: u64, q: u64) -> u64 {
    let mut r = 1 % q;
    while e > 0 {
        if e & 1 == 1 {
            r = mulm(r, a, q);
        }
        a = mulm(a, a, q);
        e >>= 1;
    }
    r
}
pub fn invm(a: u64, q: u64) -> u64 {
    powm(a, q - 2, q)
}
pub fn fromi(i: i64, q: u64) -> u64 {
    i.rem_euclid(q as i64) as u64
}

macro_rules! elem {
    ($n:ident) => {
        #[derive(Clone, Copy, PartialEq, Eq, Debug)]
        pub struct $n<const Q: u64, const W: usize>(pub u64);
        impl<const Q: u64, const W: usize> AsBytes for $n<Q, W> {
            fn try_into_bytes(&self) -> Result<Vec<u8>, FormatErr> {
                Ok(self.0.to_be_bytes()[8 - W..].to_vec())
            }
            fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
                if bytes.len() < W {
                    return Err(FormatErr::InvalidSize("toy".into()));
                }
                let mut b = [0u8; 8];
                b[8 - W..].copy_from_slice(&bytes[..W]);
                let v = u64::from_be_bytes(b);
                if v >= Q {
                    return Err(FormatErr::Deserialization("toy".into()));
                }
                Ok(Self(v))
            }
            fn len_bytes(&self) -> usize {
                W
            }
        }
    };
}
elem!(Sc);
elem!(E1);
elem!(E2);
elem!(E3);
elem!(Et);

impl<const Q: u64, const W: usize> From<i32> for Sc<Q, W> {
    fn from(i: i32) -> Self {
        Self(fromi(i as i64, Q))
    }
}
impl<'a, const Q: u64, const W: usize> Add<&'a Self> for Sc<Q, W> {
    type Output = Self;
    fn add(self, r: &Self) -> Self {
        Self(addm(self.0, r.0, Q))
    }
}
impl<'a, const Q: u64, const W: usize> Sub<&'a Self> for Sc<Q, W> {
    type Output = Self;
    fn sub(self, r: &Self) -> Self {
        Self(subm(self.0, r.0, Q))
    }
}
impl<'a, const Q: u64, const W: usize> Mul<&'a Self> for Sc<Q, W> {
    type Output = Self;
    fn mul(self, r: &Self) -> Self {
        Self(mulm(self.0, r.0, Q))
    }
}
impl<'a, const Q: u64, const W: usize> Div<&'a Self> for Sc<Q, W> {
    type Output = Self;
    fn div(self, r: &Self) -> Self {
        if r.0 == 0 && STREAM.with(|s| s.borrow().strict_div) {
            panic!("toy: division by zero");
        }
        Self(mulm(self.0, invm(r.0, Q), Q))
    }
}
impl<const Q: u64, const W: usize> Neg for Sc<Q, W> {
    type Output = Self;
    fn neg(self) -> Self {
        Self(subm(0, self.0, Q))
    }
}

#[derive(Default, Clone, Copy, PartialEq, Eq, Debug)]
pub struct Toy<const Q: u64, const W: usize>;

impl<const Q: u64, const W: usize> BilinearMap for Toy<Q, W> {
    type Scalar = Sc<Q, W>;
    type G1 = E1<Q, W>;
    type G2 = E2<Q, W>;
    type G3 = E3<Q, W>;
    type Gt = Et<Q, W>;
    const ZERO: Sc<Q, W> = Sc(0);
    const ONE: Sc<Q, W> = Sc(1);
    fn description() -> String {
        format!("toy {Q}")
    }
    fn gen_rand_scalar_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<Sc<Q, W>, FormatErr> {
        Ok(Sc(draw(rng, Q)))
    }
    fn gen_rand_gt_inner<R: CryptoRng + RngCore>(&self, rng: &mut R) -> Result<Et<Q, W>, FormatErr> {
        Ok(Et(draw(rng, Q)))
    }
    fn msg_to_scalar(&self, msg: &[u8]) -> Result<Sc<Q, W>, FormatErr> {
        let mut v = 0u128;
        for b in msg.iter().rev() {
            v = v * 256 + *b as u128;
            if v >= Q as u128 {
                return Err(FormatErr::ConversionFailed);
            }
        }
        Ok(Sc(v as u64))
    }
    fn g1_gen_exp(&self, x: &Sc<Q, W>) -> (E1<Q, W>, E3<Q, W>) {
        (E1(x.0), E3(x.0))
    }
    fn g3_gen_exp(&self, x: &Sc<Q, W>) -> E3<Q, W> {
        E3(x.0)
    }
    fn g3_mul(&self, a: &E3<Q, W>, b: &E3<Q, W>) -> (E1<Q, W>, E3<Q, W>) {
        let v = addm(a.0, b.0, Q);
        (E1(v), E3(v))
    }
    fn g3_exp(&self, a: &E3<Q, W>, x: &Sc<Q, W>) -> E3<Q, W> {
        E3(mulm(a.0, x.0, Q))
    }
    fn g2_gen_exp(&self, x: &Sc<Q, W>) -> E2<Q, W> {
        E2(x.0)
    }
    fn g2_exp(&self, a: &E2<Q, W>, x: &Sc<Q, W>) -> E2<Q, W> {
        E2(mulm(a.0, x.0, Q))
    }
    fn gt_gen_exp(&self, x: &Sc<Q, W>) -> Et<Q, W> {
        Et(x.0)
    }
    fn gt_exp(&self, a: &Et<Q, W>, x: &Sc<Q, W>) -> Et<Q, W> {
        Et(mulm(a.0, x.0, Q))
    }
    fn gt_mul(&self, a: &Et<Q, W>, b: &Et<Q, W>) -> Et<Q, W> {
        Et(addm(a.0, b.0, Q))
    }
    fn gt_div(&self, a: &Et<Q, W>, b: &Et<Q, W>) -> Et<Q, W> {
        Et(subm(a.0, b.0, Q))
    }
    fn prod_gt_exp(&self, d: &[&E1<Q, W>], e: &[&E2<Q, W>], a: &[&Sc<Q, W>]) -> Et<Q, W> {
        let mut r = 0;
        for i in 0..d.len().min(e.len()).min(a.len()) {
            r = addm(r, mulm(mulm(d[i].0, e[i].0, Q), a[i].0, Q), Q);
        }
        Et(r)
    }
    fn g3_to_g1(v: &E3<Q, W>) -> E1<Q, W> {
        E1(v.0)
    }
}

pub const P61: u64 = (1 << 61) - 1;
pub type T3 = Toy<3, 1>;
pub type T5 = Toy<5, 1>;
pub type T251 = Toy<251, 1>;
pub type T61 = Toy<P61, 8>;
