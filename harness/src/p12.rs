//! P12: the pairing layer is a true bilinear map with canonical encodings
use crate::{abe::*, sup::*};
use cosmian_abe_gpsw::core::{
    bilinear_map::{bls12_381::Scalar, BilinearMap},
    gpsw::AsBytes,
};
use cosmian_bls12_381::{G1Affine, G2Affine, G2Prepared, Gt};

const B: Bls12_381 = Bls12_381;

// ---- reference arithmetic modulo the group order, on little-endian 64-bit limbs ----
pub type U = [u64; 4];
/// order of the groups (published constant)
pub const Q: U = [0xffffffff00000001, 0x53bda402fffe5bfe, 0x3339d80809a1d805, 0x73eda753299d7d48];
fn ge(a: &U, b: &U) -> bool {
    a.iter().rev().cmp(b.iter().rev()) != std::cmp::Ordering::Less
}
fn add_raw(a: &U, b: &U) -> (U, bool) {
    let mut r = [0; 4];
    let mut c = 0u128;
    for i in 0..4 {
        c += a[i] as u128 + b[i] as u128;
        r[i] = c as u64;
        c >>= 64;
    }
    (r, c != 0)
}
fn sub_raw(a: &U, b: &U) -> U {
    let mut r = [0; 4];
    let mut c = 0i128;
    for i in 0..4 {
        c += a[i] as i128 - b[i] as i128;
        r[i] = c as u64;
        c >>= 64;
    }
    r
}
fn addq(a: &U, b: &U) -> U {
    let (r, o) = add_raw(a, b);
    assert!(!o);
    if ge(&r, &Q) { sub_raw(&r, &Q) } else { r }
}
fn negq(a: &U) -> U {
    if *a == [0; 4] { *a } else { sub_raw(&Q, a) }
}
fn mulq(a: &U, b: &U) -> U {
    let mut r = [0; 4];
    for i in (0..256).rev() {
        r = addq(&r, &r);
        if b[i / 64] >> (i % 64) & 1 == 1 {
            r = addq(&r, a);
        }
    }
    r
}
fn invq(a: &U) -> U {
    let e = sub_raw(&Q, &u(2));
    let mut r = u(1);
    for i in (0..256).rev() {
        r = mulq(&r, &r);
        if e[i / 64] >> (i % 64) & 1 == 1 {
            r = mulq(&r, a);
        }
    }
    r
}
fn u(x: u64) -> U {
    [x, 0, 0, 0]
}
fn raw(a: &U) -> [u8; 32] {
    let mut v = [0; 32];
    for i in 0..4 {
        v[i * 8..i * 8 + 8].copy_from_slice(&a[i].to_le_bytes());
    }
    v
}
fn sc(a: &U) -> Result<Scalar, String> {
    parse(&raw(a))
}
fn same(what: &str, got: &Scalar, want: &U) -> Result<(), String> {
    let g = bytes(got)?;
    if g != raw(want) {
        return Err(format!("{what}: {} instead of {}", hx(&g), hx(&raw(want))));
    }
    if *got != sc(want)? {
        return Err(format!("{what}: equal bytes but unequal scalars"));
    }
    Ok(())
}
fn exps(full: bool) -> Vec<(String, U)> {
    let p2 = |k: usize| {
        let mut v = [0; 4];
        v[k / 64] = 1 << (k % 64);
        v
    };
    let half = {
        // (q+1)/2
        invq(&u(2))
    };
    let mut v = vec![
        ("0", u(0)), ("1", u(1)), ("-1", negq(&u(1))), ("2", u(2)), ("-2", negq(&u(2))),
        ("3", u(3)), ("(q+1)/2", half), ("(q-1)/2", addq(&half, &negq(&u(1)))),
        ("2^31-1", u((1 << 31) - 1)), ("-2^31", negq(&u(1 << 31))), ("2^64", p2(64)),
    ];
    if full {
        v.extend([
            ("2^32", u(1 << 32)), ("2^64-1", u(u64::MAX)), ("2^128", p2(128)), ("2^128-1", [u64::MAX, u64::MAX, 0, 0]),
            ("2^192", p2(192)), ("2^254", p2(254)), ("q-2^64", negq(&p2(64))), ("-2^128", negq(&p2(128))),
            ("7^-1", invq(&u(7))), ("-(2^32)", negq(&u(1 << 32))), ("generic", [0x0123456789abcdef, 0xfedcba9876543210, 0x0f1e2d3c4b5a6978, 0x1122334455667788]),
        ]);
    }
    v.into_iter().map(|(a, b)| (a.to_string(), b)).collect()
}

fn scalars(ctx: &Ctx) {
    let es = exps(true);
    ctx.par(&es, |(na, a)| {
        ctx.case(format!("scalar {na}"), || {
            let x = sc(a)?;
            same("round trip", &x, a)?;
            same("neg", &-x.clone(), &negq(a))?;
            for (nb, b) in exps(true) {
                let y = sc(&b)?;
                let w = |o: &str| format!("{na} {o} {nb}");
                same(&w("+"), &(x.clone() + &y), &addq(a, &b))?;
                same(&w("-"), &(x.clone() - &y), &addq(a, &negq(&b)))?;
                same(&w("*"), &(x.clone() * &y), &mulq(a, &b))?;
                if b != u(0) {
                    same(&w("/"), &(x.clone() / &y), &mulq(a, &invq(&b)))?;
                }
                if (x == y) != (*a == b) {
                    return Err(format!("{na} == {nb} is {}", x == y));
                }
                ctx.state(1);
                ctx.op(5);
                ctx.trace(1);
            }
            Ok(())
        })
    });
    ctx.case("scalar constants", || {
        same("ZERO", &Bls12_381::ZERO, &u(0))?;
        same("ONE", &Bls12_381::ONE, &u(1))
    });
    ctx.case("scalar from i32", || {
        let mut v: Vec<i32> = (-300..=300).collect();
        for k in 0..32 {
            for d in -2i64..=2 {
                for sg in [-1i64, 1] {
                    let x = sg * (1i64 << k) + d;
                    if let Ok(x) = i32::try_from(x) {
                        v.push(x);
                    }
                }
            }
        }
        v.extend([i32::MIN, i32::MIN + 1, i32::MAX]);
        for i in v {
            let w = if i < 0 { negq(&u(i.unsigned_abs() as u64)) } else { u(i as u64) };
            same(&format!("from({i})"), &Scalar::from(i), &w)?;
            ctx.state(1);
            ctx.op(1);
        }
        Ok(())
    });
}

/// the two source groups, the delegation group and the target group seen as one interface
struct Grp {
    name: &'static str,
    gen: fn(&Scalar) -> Result<Vec<u8>, String>,
    exp: fn(&[u8], &Scalar) -> Result<Vec<u8>, String>,
    mul: Option<fn(&[u8], &[u8]) -> Result<Vec<u8>, String>>,
    div: Option<fn(&[u8], &[u8]) -> Result<Vec<u8>, String>>,
    again: fn(&[u8]) -> Result<Vec<u8>, String>,
    len: usize,
}
fn rt<T: AsBytes + PartialEq>(b: &[u8]) -> Result<Vec<u8>, String> {
    let t: T = parse(b)?;
    let v = bytes(&t)?;
    if t.len_bytes() != v.len() {
        return Err(format!("announced length {} but {} bytes", t.len_bytes(), v.len()));
    }
    let t2: T = parse(&v)?;
    if t != t2 {
        return Err("an element read back from its encoding differs".into());
    }
    Ok(v)
}
fn grps() -> Vec<Grp> {
    vec![
        Grp {
            name: "G2",
            gen: |x| bytes(&B.g2_gen_exp(x)),
            exp: |a, x| bytes(&B.g2_exp(&parse::<G1Affine>(a)?, x)),
            mul: None,
            div: None,
            again: rt::<G1Affine>,
            len: 48,
        },
        Grp {
            name: "G3",
            gen: |x| {
                let a = bytes(&B.g3_gen_exp(x))?;
                let b = bytes(&B.g1_gen_exp(x).1)?;
                if a != b {
                    return Err("g1_gen_exp and g3_gen_exp disagree".into());
                }
                Ok(a)
            },
            exp: |a, x| bytes(&B.g3_exp(&parse::<G2Affine>(a)?, x)),
            mul: Some(|a, b| bytes(&B.g3_mul(&parse::<G2Affine>(a)?, &parse::<G2Affine>(b)?).1)),
            div: None,
            again: rt::<G2Affine>,
            len: 96,
        },
        Grp {
            name: "Gt",
            gen: |x| bytes(&B.gt_gen_exp(x)),
            exp: |a, x| bytes(&B.gt_exp(&parse::<Gt>(a)?, x)),
            mul: Some(|a, b| bytes(&B.gt_mul(&parse::<Gt>(a)?, &parse::<Gt>(b)?))),
            div: Some(|a, b| bytes(&B.gt_div(&parse::<Gt>(a)?, &parse::<Gt>(b)?))),
            again: rt::<Gt>,
            len: 288,
        },
    ]
}
fn eqb(what: String, a: &[u8], b: &[u8]) -> Result<(), String> {
    if a == b { Ok(()) } else { Err(format!("{what}: {} instead of {}", hx(a), hx(b))) }
}

fn groups(ctx: &Ctx) {
    let es = exps(true);
    for g in grps() {
        ctx.par(&es, |(na, a)| {
            ctx.case(format!("group {} {na}", g.name), || {
                let x = (g.gen)(&sc(a)?)?;
                if x.len() != g.len {
                    return Err(format!("encoding of {} bytes", x.len()));
                }
                eqb(format!("{} round trip of g^{na}", g.name), &(g.again)(&x)?, &x)?;
                let one = (g.gen)(&sc(&u(0))?)?;
                if (x == one) != (*a == u(0)) {
                    return Err(format!("g^{na} is the identity: {}", x == one));
                }
                // order: x^(q-1) is the inverse
                let inv = (g.exp)(&x, &sc(&negq(&u(1)))?)?;
                eqb(format!("{} g^{na} to -1", g.name), &inv, &(g.gen)(&sc(&negq(a))?)?)?;
                for (nb, b) in exps(true) {
                    let y = (g.gen)(&sc(&b)?)?;
                    if (x == y) != (*a == b) {
                        return Err(format!("g^{na} = g^{nb}: {}", x == y));
                    }
                    eqb(format!("{} (g^{na})^{nb}", g.name), &(g.exp)(&x, &sc(&b)?)?, &(g.gen)(&sc(&mulq(a, &b))?)?)?;
                    if let Some(m) = g.mul {
                        eqb(format!("{} g^{na} * g^{nb}", g.name), &m(&x, &y)?, &(g.gen)(&sc(&addq(a, &b))?)?)?;
                    }
                    if let Some(d) = g.div {
                        eqb(format!("{} g^{na} / g^{nb}", g.name), &d(&x, &y)?, &(g.gen)(&sc(&addq(a, &negq(&b)))?)?)?;
                    }
                    ctx.state(1);
                    ctx.op(4);
                    ctx.trace(1);
                }
                Ok(())
            })
        });
    }
    ctx.case("vectors", || {
        let sv = es.iter().map(|(_, a)| sc(a)).collect::<Result<Vec<_>, _>>()?;
        for n in 0..=sv.len() {
            let g3 = B.g3_gen_exp_vector(&sv[..n]);
            let g2 = B.g2_gen_exp_vector(&sv[..n]);
            if g3.len() != n || g2.len() != n {
                return Err("length".into());
            }
            for i in 0..n {
                if g3[i] != B.g3_gen_exp(&sv[i]) || g2[i] != B.g2_gen_exp(&sv[i]) {
                    return Err(format!("vector element {i} of {n}"));
                }
            }
        }
        Ok(())
    });
}

/// expected pairing product: g_t^(sum d*e*a)
fn pairing(l: &[(&U, &U, &U)]) -> Result<(), String> {
    let mut sum = u(0);
    let mut d: Vec<G2Prepared> = vec![];
    let mut e = vec![];
    let mut a = vec![];
    for (i, (x, y, z)) in l.iter().enumerate() {
        sum = addq(&sum, &mulq(&mulq(x, y), z));
        // the three ways a G1 element arises
        d.push(match i % 3 {
            0 => B.g1_gen_exp(&sc(x)?).0,
            1 => Bls12_381::g3_to_g1(&B.g3_gen_exp(&sc(x)?)),
            _ => B.g3_mul(&B.g3_gen_exp(&sc(&addq(x, &u(5)))?), &B.g3_gen_exp(&sc(&negq(&u(5)))?)).0,
        });
        e.push(B.g2_gen_exp(&sc(y)?));
        a.push(sc(z)?);
    }
    let got = B.prod_gt_exp(&d.iter().collect::<Vec<_>>(), &e.iter().collect::<Vec<_>>(), &a.iter().collect::<Vec<_>>());
    let want = B.gt_gen_exp(&sc(&sum)?);
    if got != want {
        return Err("the multi-pairing differs from the sum of products".into());
    }
    eqb("encoding of the pairing".into(), &bytes(&got)?, &bytes(&want)?)
}

fn pairings(ctx: &Ctx) {
    let es = exps(!ctx.quick());
    // lists of one: every triple
    let pairs: Vec<(usize, usize)> = (0..es.len()).flat_map(|i| (0..es.len()).map(move |j| (i, j))).collect();
    ctx.par(&pairs, |(i, j)| {
        ctx.case(format!("pair ({}, {}, *)", es[*i].0, es[*j].0), || {
            for (n, k) in &es {
                pairing(&[(&es[*i].1, &es[*j].1, k)]).map_err(|e| format!("exponent {n}: {e}"))?;
                ctx.state(1);
                ctx.op(1);
                ctx.trace(1);
            }
            Ok(())
        })
    });
    // longer lists over characteristic triples (identities, cancelling pairs, zero exponents)
    let m1 = negq(&u(1));
    let tr: Vec<(U, U, U)> = vec![
        (u(1), u(1), u(1)),
        (u(1), u(1), m1),
        (u(0), u(3), u(2)),
        (u(3), u(0), u(2)),
        (u(2), u(5), u(0)),
        ([9, 8, 7, 6], [5, 4, 3, 2], [1, 2, 3, 4]),
        (m1, u(7), u(1 << 40)),
    ];
    let max = ctx.pick(3, 4);
    let run = |lists: &Vec<Vec<usize>>| {
        ctx.par(lists, |l| {
            let name = if l.len() < 8 { format!("{l:?}") } else { format!("of {}: {}", l.len(), l.iter().map(|i| i.to_string()).collect::<String>()) };
            ctx.case(format!("multi-pairing {name}"), || {
                let t: Vec<_> = l.iter().map(|i| (&tr[*i].0, &tr[*i].1, &tr[*i].2)).collect();
                pairing(&t)?;
                ctx.state(1);
                ctx.op(1);
                ctx.trace(1);
                Ok(())
            })
        });
    };
    for len in 0..=max + 3 {
        // beyond `max`: constant lists and lists with one different element
        let lists: Vec<Vec<usize>> = if len <= max {
            (0..tr.len().pow(len as u32))
                .map(|mut i| {
                    (0..len)
                        .map(|_| {
                            let r = i % tr.len();
                            i /= tr.len();
                            r
                        })
                        .collect()
                })
                .collect()
        } else {
            let mut v = vec![];
            for c in 0..tr.len() {
                v.push(vec![c; len]);
                for p in 0..len {
                    let mut w = vec![5; len];
                    w[p] = c;
                    v.push(w);
                }
            }
            v
        };
        run(&lists);
    }
    // long lists: one kind of element, one different element first, in the middle, last, and all kinds in turn
    for len in [8, 9, 15, 16, 17, 31, 32, 33, 64, 65, 128, 129, 256, 257] {
        let mut v: Vec<Vec<usize>> = vec![(0..len).map(|i| i % tr.len()).collect(), (0..len).map(|i| i * i % tr.len()).collect()];
        for c in 0..tr.len() {
            if len < 40 || !ctx.quick() {
                v.push(vec![c; len]);
            }
            for p in [0, len / 2, len - 1] {
                if len < 40 || c == 0 || !ctx.quick() {
                    let mut w = vec![5; len];
                    w[p] = c;
                    v.push(w);
                }
            }
        }
        run(&v);
    }
}
/// an accepted encoding must be the canonical encoding of an element of the group of order q
fn accepted_is_element<T: AsBytes + PartialEq>(g: &Grp, b: &[u8]) -> Result<bool, String> {
    let Ok(t) = T::try_from_bytes(b) else { return Ok(false) };
    let v = bytes(&t)?;
    if v != b[..g.len] {
        return Err(format!("{} accepts {} whose element encodes as {}", g.name, hx(b), hx(&v)));
    }
    let x = (g.exp)(&v, &sc(&negq(&u(1)))?)?;
    let back = (g.exp)(&x, &sc(&negq(&u(1)))?)?;
    if back != v {
        return Err(format!("{} accepts {} which is not of the group order", g.name, hx(b)));
    }
    // x * x^-1 = identity needs the product; G2 has none: compare x^q = x^(q-1+1) through halves
    let h = invq(&u(2));
    let a = (g.exp)(&v, &sc(&h)?)?;
    if (g.exp)(&a, &sc(&u(2))?)? != v {
        return Err(format!("{} accepts {} which is not of the group order", g.name, hx(b)));
    }
    Ok(true)
}

fn encodings(ctx: &Ctx) {
    fn one<T: AsBytes + PartialEq + Sync>(ctx: &Ctx, gi: usize) {
        let g = &grps()[gi];
        let base: Vec<(String, Vec<u8>)> = exps(false)
            .into_iter()
            .filter(|(n, _)| ["0", "1", "-1", "(q+1)/2"].contains(&n.as_str()))
            .map(|(n, a)| (n, (g.gen)(&sc(&a).unwrap()).unwrap()))
            .collect();
        let mut jobs: Vec<(String, Vec<u8>)> = vec![];
        for (n, b) in &base {
            for i in 0..b.len() {
                // quick: every bit of the ends, one bit of each other byte
                for k in 0..8 {
                    if ctx.quick() && i >= 2 && i % 48 != 0 && i + 1 < b.len() && k != i % 8 {
                        continue;
                    }
                    let mut c = b.clone();
                    c[i] ^= 1 << k;
                    jobs.push((format!("{n} flip {i}.{k}"), c));
                }
            }
            // flags
            for f in 0..8u8 {
                let mut c = b.clone();
                c[0] = (c[0] & 0x1f) | f << 5;
                jobs.push((format!("{n} flags {f}"), c));
            }
        }
        // small and extreme coordinates with every flag
        for f in 0..8u8 {
            for last in 0..=ctx.pick(15u8, 255) {
                let mut c = vec![0; g.len];
                *c.last_mut().unwrap() = last;
                c[0] |= f << 5;
                jobs.push((format!("small {last} flags {f}"), c.clone()));
                // the same value plus the field prime, in each 48-byte limb
                for l in 0..g.len / 48 {
                    let mut d = c.clone();
                    let fl = d[0] & 0xe0;
                    d[0] &= 0x1f;
                    add_p(&mut d[l * 48..l * 48 + 48]);
                    d[0] |= fl;
                    if last < 4 {
                        jobs.push((format!("small {last} limb {l} plus p flags {f}"), d));
                    }
                }
            }
            let mut c = vec![0xff; g.len];
            c[0] = 0x1f | f << 5;
            jobs.push((format!("ones flags {f}"), c));
        }
        // every limb of the samples plus p, when it fits
        for (n, b) in &base {
            for l in 0..g.len / 48 {
                let mut d = b.clone();
                let fl = d[0] & 0xe0;
                d[0] &= 0x1f;
                add_p(&mut d[l * 48..l * 48 + 48]);
                if l == 0 {
                    if d[0] & 0xe0 != 0 {
                        continue;
                    }
                    d[0] |= fl;
                }
                jobs.push((format!("{n} limb {l} plus p"), d));
            }
        }
        ctx.par(&jobs, |(n, b)| {
            ctx.case(format!("encoding {} {n}", g.name), || {
                let ok = accepted_is_element::<T>(g, b)?;
                ctx.outcome(if ok { "encoding accepted" } else { "encoding refused" }, 1);
                ctx.state(1);
                ctx.op(1);
                ctx.trace(1);
                Ok(())
            })
        });
        ctx.case(format!("lengths {}", g.name), || {
            for (n, b) in &base {
                for l in 0..g.len {
                    if T::try_from_bytes(&b[..l]).is_ok() {
                        return Err(format!("{l} bytes of g^{n} are accepted"));
                    }
                    ctx.state(1);
                    ctx.op(1);
                }
                for tail in [vec![0], vec![0xff; 3], b.clone()] {
                    let t: T = parse(&cat(&[b, &tail]))?;
                    if bytes(&t)? != *b {
                        return Err(format!("bytes after g^{n} change the element"));
                    }
                }
            }
            Ok(())
        });
    }
    one::<G1Affine>(ctx, 0);
    one::<G2Affine>(ctx, 1);
    one::<Gt>(ctx, 2);
    // scalars
    ctx.case("scalar encodings", || {
        for (n, a) in exps(true) {
            let b = raw(&a);
            for l in 0..32 {
                if Scalar::try_from_bytes(&b[..l]).is_ok() {
                    return Err(format!("{l} bytes of {n} are accepted"));
                }
            }
            let t: Scalar = parse(&cat(&[&b, &[1, 2, 3]]))?;
            same("bytes after a scalar", &t, &a)?;
            if t.len_bytes() != 32 {
                return Err("announced length".into());
            }
            // a + q when it fits
            let (c, o) = add_raw(&a, &Q);
            if !o && Scalar::try_from_bytes(&raw(&c)).is_ok() {
                return Err(format!("{n} + q is accepted"));
            }
            for i in 0..256 {
                let mut c = a;
                c[i / 64] ^= 1 << (i % 64);
                let r = Scalar::try_from_bytes(&raw(&c));
                match (ge(&c, &Q), r) {
                    (true, Ok(_)) => return Err(format!("{n} with bit {i} flipped exceeds the order and is accepted")),
                    (false, Err(e)) => return Err(format!("{n} with bit {i} flipped is refused: {e}")),
                    (false, Ok(x)) => same("flipped", &x, &c)?,
                    _ => {}
                }
                ctx.state(1);
                ctx.op(1);
            }
        }
        for d in 0..300u64 {
            let hi = add_raw(&Q, &u(d)).0;
            if Scalar::try_from_bytes(&raw(&hi)).is_ok() {
                return Err(format!("q + {d} is accepted"));
            }
            same("below the order", &sc(&sub_raw(&Q, &u(d + 1)))?, &sub_raw(&Q, &u(d + 1)))?;
            ctx.state(2);
        }
        Ok(())
    });
}
/// add the base field prime to a 48-byte big-endian number, modulo 2^384
fn add_p(b: &mut [u8]) {
    let p = hex::decode("1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab").unwrap();
    let mut c = 0u16;
    for i in (0..48).rev() {
        c += b[i] as u16 + p[i] as u16;
        b[i] = c as u8;
        c >>= 8;
    }
}

fn messages(ctx: &Ctx) {
    // every message of 0..2 bytes; longer ones: every byte value at every place over two backgrounds
    let lens: Vec<usize> = (0..=40).collect();
    ctx.par(&lens, |n| {
        ctx.case(format!("messages of {n} bytes"), || {
            let mut ms: std::collections::BTreeSet<Vec<u8>> = Default::default();
            if *n <= 2 {
                for i in 0..256u32.pow(*n as u32) {
                    ms.insert(i.to_le_bytes()[..*n].to_vec());
                }
            } else {
                for bg in [0u8, 1, 0x73, 0xff] {
                    ms.insert(vec![bg; *n]);
                    for p in 0..*n {
                        for v in 0..=255u8 {
                            let mut m = vec![bg; *n];
                            m[p] = v;
                            ms.insert(m);
                        }
                    }
                    // permutations of a few bytes
                    for p in 0..*n {
                        for q in 0..*n {
                            let mut m = vec![bg; *n];
                            m[p] = 2;
                            m[q] = 3;
                            ms.insert(m);
                        }
                    }
                }
            }
            if *n == 32 {
                for d in 0..50u64 {
                    ms.insert(raw(&sub_raw(&Q, &u(d + 1))).to_vec());
                    ms.insert(raw(&add_raw(&Q, &u(d)).0).to_vec());
                    ms.insert(raw(&u(d)).to_vec());
                }
            }
            let mut seen = std::collections::BTreeMap::new();
            for m in &ms {
                let r = B.msg_to_scalar(m);
                ctx.state(1);
                ctx.op(1);
                match r {
                    Err(_) => {
                        if *n < 32 {
                            return Err(format!("message {} is refused", hx(m)));
                        }
                        ctx.outcome("message refused", 1);
                    }
                    Ok(x) => {
                        if let Some(o) = seen.insert(bytes(&x)?, m) {
                            return Err(format!("messages {} and {} have the same encoding", hex::encode(o), hex::encode(m)));
                        }
                        ctx.outcome("message encoded", 1);
                    }
                }
            }
            Ok(())
        })
    });
    ctx.case("messages in the target group", || {
        let mut seen = std::collections::BTreeMap::new();
        for n in 0..=33usize {
            seen.clear();
            for bg in [0u8, 1, 0x42, 0xff] {
                let m = vec![bg; n];
                match (B.msg_to_scalar(&m), B.msg_to_gt(&m)) {
                    (Ok(x), Ok(g)) => {
                        if g != B.gt_gen_exp(&x) {
                            return Err(format!("msg_to_gt({})", hx(&m)));
                        }
                        if n > 0 {
                            if let Some(o) = seen.insert(bytes(&g)?, m.clone()) {
                                return Err(format!("{} and {}", hx(&o), hx(&m)));
                            }
                        }
                    }
                    (Err(_), Err(_)) => {}
                    _ => return Err(format!("msg_to_scalar and msg_to_gt disagree on {}", hx(&m))),
                }
                // the scheme encodes as its group does
                let g = <Bls as cosmian_abe_gpsw::core::gpsw::AbeScheme>::msg_encode(&Bls::default(), &m);
                if g.ok() != B.msg_to_gt(&m).ok() {
                    return Err(format!("the scheme encodes {} otherwise", hx(&m)));
                }
                ctx.state(1);
                ctx.op(2);
            }
        }
        Ok(())
    });
    // randomly drawn elements lie in the groups
    ctx.case("drawn elements", || {
        for _ in 0..ctx.pick(8, 100) {
            let g = B.gen_random_msg_in_gt().map_err(s("gen_random_msg_in_gt"))?;
            accepted_is_element::<Gt>(&grps()[2], &bytes(&g)?)?;
            if rt::<Gt>(&bytes(&g)?)? != bytes(&g)? {
                return Err("a drawn message does not survive its encoding".into());
            }
            let x = B.gen_random_scalar().map_err(s("gen_random_scalar"))?;
            rt::<Scalar>(&bytes(&x)?)?;
            for v in B.gen_random_scalar_vector(3).map_err(s("vector"))? {
                rt::<Scalar>(&bytes(&v)?)?;
            }
            ctx.state(1);
            ctx.op(3);
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    scalars(ctx);
    messages(ctx);
    groups(ctx);
    pairings(ctx);
    encodings(ctx);
}
