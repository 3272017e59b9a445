//! P10: malformed and mismatched objects
use std::fmt::Display;

use crate::{abe::*, form::*, p09::vectors, sup::*, toy};
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes};
use cosmian_abe_gpsw::core::msp::MonotoneSpanProgram;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{decrypt_hybrid_header, ClearTextHeader, EncryptedHeader};
use cosmian_crypto_base::symmetric_crypto::aes_256_gcm_pure::Aes256GcmCrypto;

type Msp = MonotoneSpanProgram<i32>;

struct World<A: Sch> {
    mk: Mk<A>,
    pk: Pk<A>,
    dk: Dk<A>,
    keys: Vec<Uk<A>>,
    cts: Vec<Ct<A>>,
    msps: Vec<Msp>,
    per_byte: usize, // memory allowed per input byte
}
impl<A: Sch> World<A> {
    fn new(n: usize, per_byte: usize) -> Result<Self, String> {
        let (mk, pk, dk) = master::<A>(n)?;
        let l = |a| Box::new(F::L(a));
        let fs = [F::L(0), F::A(l(0), l(1)), F::O(l(1), l(0)), F::O(l(2), Box::new(F::A(l(0), l(1)))), F::A(l(1), Box::new(F::O(l(2), l(0))))];
        let keys = fs.iter().map(|f| keygen::<A>(&f.node(), &mk)).collect::<Result<Vec<_>, _>>()?;
        let mut cts = vec![];
        for g in [&[0u32][..], &[1, 0], &[0, 1, 2], &[2], &[0, 0, 1], &[]] {
            cts.push(enc::<A>(&rand_pt::<A>()?, g, &pk)?);
        }
        let mut msps = fs.iter().map(|f| msp(&f.node())).collect::<Result<Vec<_>, _>>()?;
        msps.push(msp(&F::A(l(0), l(u32::MAX)).node())?);
        Ok(World { mk, pk, dk, keys, cts, msps, per_byte })
    }
}

/// parse, judging memory; None = refused
fn take<T: AsBytes>(b: &[u8], per_byte: usize) -> Result<Option<T>, String> {
    let (r, peak) = mem_peak(|| guarded(|| T::try_from_bytes(b)));
    if peak > per_byte * b.len() + (64 << 10) {
        return Err(format!("parsing {} bytes reserved {peak} bytes of memory", b.len()));
    }
    match r {
        Err(p) => Err(format!("parsing panicked: {p}")),
        Ok(Err(_)) => Ok(None),
        Ok(Ok(t)) => Ok(Some(t)),
    }
}
fn safe<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    guarded(f).map_err(|p| format!("{what} panicked: {p}"))
}
fn again<T: AsBytes>(t: &T) -> Result<(), String> {
    safe("serialising an accepted object", || {
        let _ = t.len_bytes();
        t.try_into_bytes()
    })
    .map(|_| ())
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Mk,
    Pk,
    Dk,
    Uk,
    Ct,
    Pt,
    Msp,
    List,
}
const KINDS: [Kind; 8] = [Kind::Mk, Kind::Pk, Kind::Dk, Kind::Uk, Kind::Ct, Kind::Pt, Kind::Msp, Kind::List];

/// offer the bytes as an object of a kind; when accepted use it with everything
fn offer<A: Sch>(w: &World<A>, k: Kind, b: &[u8]) -> Result<bool, String>
where
    Mk<A>: Display, Pk<A>: Display, Dk<A>: Display, Uk<A>: Display,
{
    let a = A::default();
    let m = w.per_byte;
    let r = (|| {
        Ok(match k {
            Kind::Mk => match take::<Mk<A>>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    let _ = safe("printing", || x.to_string())?;
                    for p in &w.msps {
                        let _ = safe("key_generation", || a.key_generation(p, &x).map(|k| again(&k)))?;
                    }
                    true
                }
            },
            Kind::Pk => match take::<Pk<A>>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    let pt = rand_pt::<A>()?;
                    for g in [&[0u32][..], &[1, 0], &[2, u32::MAX], &[]] {
                        if let Ok(c) = safe("encrypt", || a.encrypt(&pt, g, &x))? {
                            again(&c)?;
                            let _ = safe("decrypt", || a.decrypt(&c, &w.keys[1]))?;
                        }
                    }
                    true
                }
            },
            Kind::Dk => match take::<Dk<A>>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    for key in &w.keys {
                        for p in &w.msps {
                            let _ = safe("key_delegation", || a.key_delegation(&Some(p.clone()), key, &x).map(|_| ()))?;
                        }
                        let _ = safe("key_delegation", || a.key_delegation(&None, key, &x).map(|_| ()))?;
                    }
                    true
                }
            },
            Kind::Uk => match take::<Uk<A>>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    let _ = safe("printing", || x.to_string())?;
                    for c in &w.cts {
                        let _ = safe("decrypt", || a.decrypt(c, &x).map(|_| ()))?;
                    }
                    for p in &w.msps {
                        if let Ok(d) = safe("key_delegation", || a.key_delegation(&Some(p.clone()), &x, &w.dk))? {
                            let _ = safe("decrypt", || a.decrypt(&w.cts[2], &d).map(|_| ()))?;
                        }
                    }
                    let _ = safe("key_delegation", || a.key_delegation(&None, &x, &w.dk).map(|_| ()))?;
                    true
                }
            },
            Kind::Ct => match take::<Ct<A>>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    for key in &w.keys {
                        let _ = safe("decrypt", || a.decrypt(&x, key).map(|_| ()))?;
                    }
                    true
                }
            },
            Kind::Pt => match take::<Pt<A>>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    let _ = safe("encrypt", || a.encrypt(&x, &[0, 1], &w.pk).map(|_| ()))?;
                    true
                }
            },
            Kind::Msp => match take::<Msp>(b, m)? {
                None => false,
                Some(x) => {
                    again(&x)?;
                    if let Ok(k) = safe("key_generation", || a.key_generation(&x, &w.mk))? {
                        again(&k)?;
                        for c in &w.cts {
                            let _ = safe("decrypt", || a.decrypt(c, &k).map(|_| ()))?;
                        }
                        let _ = safe("key_delegation", || a.key_delegation(&None, &k, &w.dk).map(|_| ()))?;
                    }
                    for key in &w.keys {
                        if let Ok(k) = safe("key_delegation", || a.key_delegation(&Some(x.clone()), key, &w.dk))? {
                            let _ = safe("decrypt", || a.decrypt(&w.cts[2], &k).map(|_| ()))?;
                        }
                    }
                    true
                }
            },
            Kind::List => {
                let u = take::<Vec<u32>>(b, m)?;
                let i = take::<Vec<i32>>(b, m)?;
                let _ = take::<u32>(b, m)?;
                let _ = take::<i32>(b, m)?;
                if let Some(u) = &u {
                    again(u)?;
                }
                if let Some(i) = &i {
                    again(i)?;
                }
                u.is_some()
            }
        })
    })();
    r.map_err(|e: String| format!("{k:?} bytes {}: {e}", if b.len() > 600 { hx(b) } else { hex::encode(b) }))
}

struct Tally<'a>(&'a Ctx, u64, u64);
impl Tally<'_> {
    fn hit(&mut self, ok: bool) {
        self.0.state(1);
        self.0.op(1);
        self.0.trace(1);
        if ok {
            self.1 += 1
        } else {
            self.2 += 1
        }
        if (self.1 + self.2) % 1000 == 0 {
            self.0.beat();
        }
    }
}
impl Drop for Tally<'_> {
    fn drop(&mut self) {
        self.0.outcome("accepted", self.1);
        self.0.outcome("refused", self.2);
    }
}

/// all strings of at most n bytes over the alphabet, with a given prefix
fn strings(alpha: &[u8], n: usize, prefix: &[u8], f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
    let mut v = prefix.to_vec();
    fn go(alpha: &[u8], n: usize, v: &mut Vec<u8>, f: &mut dyn FnMut(&[u8]) -> Result<(), String>) -> Result<(), String> {
        f(v)?;
        if v.len() < n {
            for a in alpha {
                v.push(*a);
                go(alpha, n, v, f)?;
                v.pop();
            }
        }
        Ok(())
    }
    go(alpha, n, &mut v, f)
}

const EDGE: [u32; 14] = [
    0, 1, 2, 3, 4, 255, 256, 0xffff, 0x0100_0000, 0x3fff_ffff, 0x4000_0000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff,
];

/// every combination of edge values in the size fields, over bodies of every length
fn sized(k: Kind, w: usize, body: usize, fill: u8) -> Vec<Vec<u8>> {
    let el = te(fill as u64, w);
    let rep = |n: usize| -> Vec<u8> { el.iter().copied().cycle().take(n).collect() };
    let mut out = vec![];
    match k {
        Kind::Mk | Kind::Pk | Kind::Dk | Kind::List | Kind::Pt => {
            for c in EDGE {
                out.push(cat(&[&be(c as usize), &rep(body)]));
            }
        }
        Kind::Ct => {
            for n in 1..=2usize {
                for c in EDGE {
                    for d in EDGE {
                        let g: Vec<u8> = (0..n as u32).flat_map(u32::to_be_bytes).collect();
                        out.push(cat(&[&be(c as usize), &g, &be(d as usize), &rep(body)]));
                    }
                }
            }
        }
        Kind::Uk => {
            for n in 1..=2usize {
                for c in [n as u32, 0, 3, u32::MAX] {
                    for r in EDGE {
                        for x in EDGE {
                            out.push(cat(&[&be(c as usize), &rep(n * w), &be(r as usize), &be(x as usize), &[0, 0, 0, 1, 0, 0, 0, 0][..4 * n], &rep(body)]));
                        }
                    }
                }
            }
        }
        Kind::Msp => {
            for n in 1..=2usize {
                for r in EDGE {
                    for x in EDGE {
                        out.push(cat(&[&be(r as usize), &be(x as usize), &[0, 0, 0, 1, 0, 0, 0, 0][..4 * n], &rep(body)]));
                    }
                }
            }
        }
    }
    out
}

fn samples<A: Sch>(w: &World<A>, k: Kind) -> Result<Vec<Vec<u8>>, String> {
    Ok(match k {
        Kind::Mk => vec![bytes(&w.mk)?],
        Kind::Pk => vec![bytes(&w.pk)?],
        Kind::Dk => vec![bytes(&w.dk)?],
        Kind::Uk => w.keys.iter().map(bytes).collect::<Result<_, _>>()?,
        Kind::Ct => w.cts.iter().map(bytes).collect::<Result<_, _>>()?,
        Kind::Pt => vec![bytes(&rand_pt::<A>()?)?],
        Kind::Msp => w.msps.iter().map(bytes).collect::<Result<_, _>>()?,
        Kind::List => vec![list(&[[0u8, 0, 0, 1], [0xff; 4], [0; 4]])],
    })
}

/// truncations, single byte substitutions, removed and inserted bytes, swapped words
fn mutants(b: &[u8], vals: &[u8], double: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = (0..=b.len()).map(|n| b[..n].to_vec()).collect();
    for i in 0..b.len() {
        for x in vals.iter().copied().chain([b[i] ^ 1, b[i] ^ 0x80, b[i].wrapping_add(1), !b[i]]) {
            if x != b[i] {
                let mut m = b.to_vec();
                m[i] = x;
                v.push(m);
            }
        }
        let mut m = b.to_vec();
        m.remove(i);
        v.push(m);
        let mut m = b.to_vec();
        m.insert(i, 0);
        v.push(m);
        if double {
            for j in i + 1..b.len() {
                for (x, y) in [(0u8, 0u8), (0xff, 0xff), (1, 2), (0, 2), (2, 0)] {
                    let mut m = b.to_vec();
                    m[i] = x;
                    m[j] = y;
                    v.push(m);
                }
            }
        }
    }
    for i in 0..b.len() / 4 {
        for e in EDGE {
            let mut m = b.to_vec();
            m[4 * i..4 * i + 4].copy_from_slice(&e.to_be_bytes());
            v.push(m);
        }
    }
    v
}

fn suite<A: Sch>(ctx: &Ctx, name: &str, w: usize, n_strings: usize, double: bool, per_byte: usize)
where
    Mk<A>: Display, Pk<A>: Display, Dk<A>: Display, Uk<A>: Display,
{
    let alpha = [0u8, 1, 2, 0xff];
    let mut items: Vec<(Kind, Vec<u8>)> = vec![];
    for k in KINDS {
        for a in alpha {
            for b in alpha {
                items.push((k, vec![a, b]));
            }
        }
    }
    ctx.par(&items, |(k, p)| {
        ctx.case(format!("{name} {k:?} all strings of {n_strings} bytes from {p:?}"), || {
            toy::generic(1);
            let wo = World::<A>::new(4, per_byte)?;
            let mut t = Tally(ctx, 0, 0);
            for short in [&p[..0], &p[..1]] {
                t.hit(offer(&wo, *k, short)?);
            }
            strings(&alpha, n_strings, p, &mut |b| {
                t.hit(offer(&wo, *k, b)?);
                Ok(())
            })
        });
    });
    let mut items: Vec<(Kind, usize)> = vec![];
    for k in KINDS {
        for body in 0..(if w == 1 { 40 } else { 8 * w + 30 }) {
            items.push((k, body));
        }
    }
    ctx.par(&items, |(k, body)| {
        ctx.case(format!("{name} {k:?} size fields, {body} more bytes"), || {
            toy::generic(1);
            let wo = World::<A>::new(4, per_byte)?;
            let mut t = Tally(ctx, 0, 0);
            for fill in [0u8, 1, 2] {
                for b in sized(*k, w, *body, fill) {
                    t.hit(offer(&wo, *k, &b)?);
                }
            }
            Ok(())
        });
    });
    mutate::<A>(ctx, name, double, per_byte, &[0, 1, 2, 0x7f, 0x80, 0xff]);
}
fn mutate<A: Sch>(ctx: &Ctx, name: &str, double: bool, per_byte: usize, vals: &[u8])
where
    Mk<A>: Display, Pk<A>: Display, Dk<A>: Display, Uk<A>: Display,
{
    toy::generic(1);
    let mut items: Vec<(Kind, usize, usize)> = vec![];
    for k in KINDS {
        for i in 0..6 {
            for part in 0..8 {
                items.push((k, i, part));
            }
        }
    }
    ctx.par(&items, |(k, i, part)| {
        ctx.case(format!("{name} {k:?} mutations of sample {i} part {part}"), || {
            toy::generic(1);
            let wo = World::<A>::new(4, per_byte)?;
            let ss = samples(&wo, *k)?;
            let mut t = Tally(ctx, 0, 0);
            if let Some(b) = ss.get(*i) {
                for (j, m) in mutants(b, vals, double).into_iter().enumerate() {
                    if j % 8 == *part {
                        t.hit(offer(&wo, *k, &m)?);
                    }
                }
                // offered as another kind
                if *part == 0 {
                    for k2 in KINDS {
                        t.hit(offer(&wo, k2, b)?);
                    }
                }
            }
            Ok(())
        });
    });
}

/// keys with every small matrix over F_3: decryption and delegation
fn matrices(ctx: &Ctx, rows: usize, cols: usize, part: usize, parts: usize) -> Result<(), String> {
    toy::generic(1);
    let wo = World::<G3x>::new(4, 1000)?;
    let mut cts = vec![];
    for g in subsets(&[0, 1, 2, 3]) {
        cts.push(enc::<G3x>(&rand_pt::<G3x>()?, &g, &wo.pk)?);
    }
    cts.push(enc::<G3x>(&rand_pt::<G3x>()?, &[2, 1, 0, 1], &wo.pk)?);
    let a = G3x::default();
    let total = 3u64.pow((rows * cols) as u32);
    let mut n = 0;
    for i in (part as u64..total).step_by(parts) {
        let v: Vec<u64> = (0..rows * cols).map(|j| i / 3u64.pow(j as u32) % 3).collect();
        let m: Vec<Vec<u64>> = v.chunks(cols).map(<[u64]>::to_vec).collect();
        let d = [1u64, 2, 0, 1];
        let b = toy_uk(&d[..rows], &[0, 1, 2, 3][..rows], &m, 1);
        let fail = |e: String| format!("matrix {m:?}: {e}");
        let k: Uk<G3x> = parse(&b)?;
        for c in &cts {
            safe("decrypt", || AbeScheme::decrypt(&a, c, &k).map(|_| ())).map_err(fail)?.ok();
        }
        for p in &wo.msps {
            if let Ok(d) = safe("key_delegation", || AbeScheme::key_delegation(&a, &Some(p.clone()), &k, &wo.dk)).map_err(fail)? {
                safe("decrypt", || AbeScheme::decrypt(&a, &cts[7], &d).map(|_| ())).map_err(fail)?.ok();
            }
        }
        safe("key_delegation", || AbeScheme::key_delegation(&a, &None, &k, &wo.dk).map(|_| ())).map_err(fail)?.ok();
        // the same matrix as a formula matrix
        let mut mb = be(rows);
        mb.extend(be(cols));
        for r in 0..rows as u32 {
            mb.extend(r.to_be_bytes());
        }
        for x in &v {
            mb.extend((if *x == 2 { -1i32 } else { *x as i32 }).to_be_bytes());
        }
        if let Some(p) = take::<Msp>(&mb, 1000).map_err(fail)? {
            for key in wo.keys.iter().chain(std::iter::once(&k)) {
                safe("key_delegation", || AbeScheme::key_delegation(&a, &Some(p.clone()), key, &wo.dk).map(|_| ())).map_err(fail)?.ok();
            }
            if let Ok(k) = safe("key_generation", || AbeScheme::key_generation(&a, &p, &wo.mk)).map_err(fail)? {
                safe("decrypt", || AbeScheme::decrypt(&a, &cts[7], &k).map(|_| ())).map_err(fail)?.ok();
            }
        }
        n += 1;
        if n % 500 == 0 {
            ctx.beat();
        }
    }
    ctx.state(n);
    ctx.op(n * (cts.len() as u64 + 14));
    ctx.trace(n);
    ctx.outcome("matrices", n);
    Ok(())
}

/// objects of different sizes and origins used together
fn mixed<A: Sch>(ctx: &Ctx, max: usize, fs: &[F]) -> Result<(), String> {
    let ms = (0..=max).map(|n| master::<A>(n)).collect::<Result<Vec<_>, _>>()?;
    let a = A::default();
    let mut keys = vec![];
    let mut cts = vec![];
    for (i, (mk, pk, _)) in ms.iter().enumerate() {
        for f in fs {
            let p = msp(&f.node())?;
            match safe("key_generation", || a.key_generation(&p, mk))? {
                Ok(k) => keys.push((i, f.clone(), k)),
                Err(_) => ctx.outcome("refused", 1),
            }
            let m = rand_pt::<A>()?;
            match safe("encrypt", || a.encrypt(&m, &f.leaves(), pk))? {
                Ok(c) => cts.push((i, f.leaves(), c, bytes(&m)?)),
                Err(_) => ctx.outcome("refused", 1),
            }
            ctx.op(2);
        }
    }
    for (i, f, k) in &keys {
        for (j, at, c, m) in &cts {
            let r = safe(&format!("decrypting attributes {at:?} of master {j} with {} of master {i}", f.text()), || a.decrypt(c, k))?;
            let got = match r {
                Ok(Some(x)) => Some(bytes(&x)?),
                _ => None,
            };
            if i == j && f.sat(at) != (got.as_ref() == Some(m)) {
                return Err("wrong decryption".into());
            }
            ctx.op(1);
            ctx.trace(1);
        }
        for (j, (_, _, dk)) in ms.iter().enumerate() {
            for g in fs {
                let p = msp(&g.node())?;
                let what = format!("delegating {} of master {i} to {} with the delegation key of {j} slots", f.text(), g.text());
                match safe(&what, || a.key_delegation(&Some(p), k, dk))? {
                    Ok(d) => {
                        again(&d)?;
                        if let Some(c) = cts.iter().find(|c| c.0 == *i) {
                            safe(&what, || a.decrypt(&c.2, &d).map(|_| ()))?.ok();
                        }
                        ctx.outcome("accepted", 1);
                    }
                    Err(_) => ctx.outcome("refused", 1),
                }
                ctx.op(1);
                ctx.state(1);
            }
            let what = format!("randomising {} of master {i} with the delegation key of {j} slots", f.text());
            safe(&what, || a.key_delegation(&None, k, dk).map(|_| ()))?.ok();
        }
        ctx.beat();
    }
    Ok(())
}

/// invalid and special encodings of group elements inside otherwise valid BLS12-381 objects
fn bls_elements(ctx: &Ctx, part: usize) -> Result<(), String> {
    let wo = World::<Bls>::new(4, 1000)?;
    let special = |n: usize| -> Vec<Vec<u8>> {
        let mut v = vec![];
        for first in [0x00u8, 0x20, 0x40, 0x60, 0x80, 0xa0, 0xc0, 0xe0, 0x9a, 0xba, 0x1f, 0xff] {
            for rest in [0u8, 1, 0xff] {
                let mut e = vec![rest; n];
                e[0] = first;
                v.push(e.clone());
                e[n - 1] = 3;
                v.push(e);
            }
        }
        v.push(vec![0; n]);
        let mut one = vec![0; n];
        one[n - 1] = 1;
        v.push(one);
        let mut one = vec![0; n];
        one[0] = 1;
        v.push(one);
        // the field order of scalars, and one less
        if n == 32 {
            let r = hex::decode("73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001").unwrap();
            let mut le = r.clone();
            le.reverse();
            let mut m = le.clone();
            m[0] = 0;
            v.extend([r, le, m]);
        }
        v
    };
    let mut t = Tally(ctx, 0, 0);
    let mut j = 0;
    let mut sub = |k: Kind, b: &[u8], at: usize, n: usize| -> Result<(), String> {
        for e in special(n) {
            j += 1;
            if j % 8 != part {
                continue;
            }
            let mut m = b.to_vec();
            m[at..at + n].copy_from_slice(&e);
            t.hit(offer(&wo, k, &m)?);
            ctx.beat();
        }
        Ok(())
    };
    let mk = bytes(&wo.mk)?;
    for i in 0..5 {
        sub(Kind::Mk, &mk, 4 + 32 * i, 32)?;
    }
    let pk = bytes(&wo.pk)?;
    for i in [0, 1, 3] {
        sub(Kind::Pk, &pk, 4 + 48 * i, 48)?;
    }
    sub(Kind::Pk, &pk, 4 + 48 * 4, 288)?;
    let dk = bytes(&wo.dk)?;
    for i in [0, 1] {
        sub(Kind::Dk, &dk, 4 + 96 * i, 96)?;
    }
    let uk = bytes(&wo.keys[1])?; // 2 rows, 2 columns
    sub(Kind::Uk, &uk, 4, 96)?;
    sub(Kind::Uk, &uk, 100, 96)?;
    for i in 0..4 {
        sub(Kind::Uk, &uk, 4 + 192 + 8 + 8 + 32 * i, 32)?;
    }
    let ct = bytes(&wo.cts[1])?;
    sub(Kind::Ct, &ct, 12 + 4, 48)?;
    sub(Kind::Ct, &ct, 12 + 4 + 48, 48)?;
    sub(Kind::Ct, &ct, 12 + 4 + 96, 288)?;
    sub(Kind::Pt, &bytes(&rand_pt::<Bls>()?)?, 0, 288)
}

fn headers<A: Sch>(ctx: &Ctx, per_byte: usize, bytes_: &[u8], keys: &[Uk<A>]) -> Result<bool, String> {
    let mut ok = false;
    for k in keys {
        let (r, peak) = mem_peak(|| guarded(|| decrypt_hybrid_header::<A, Aes256GcmCrypto>(k, bytes_).map(|_| ())));
        if peak > per_byte * bytes_.len() + (64 << 10) {
            return Err(format!("header {}: reserved {peak} bytes", hex::encode(bytes_)));
        }
        match r {
            Err(p) => return Err(format!("header {}: panicked: {p}", hex::encode(bytes_))),
            Ok(r) => ok |= r.is_ok(),
        }
    }
    let f = |p: String| format!("structured header {}: panicked: {p}", hex::encode(bytes_));
    let (r, p1) = mem_peak(|| guarded(|| EncryptedHeader::<Aes256GcmCrypto>::try_from_bytes(bytes_).map(|_| ())));
    r.map_err(f)?.ok();
    let (r, p2) = mem_peak(|| guarded(|| ClearTextHeader::<Aes256GcmCrypto>::try_from_bytes(bytes_).map(|_| ())));
    r.map_err(f)?.ok();
    if p1.max(p2) > 100 * bytes_.len() + (64 << 10) {
        return Err(format!("structured header {}: reserved {} bytes", hex::encode(bytes_), p1.max(p2)));
    }
    ctx.op(2 + keys.len() as u64);
    Ok(ok)
}

pub fn run(ctx: &Ctx) {
    suite::<G3x>(ctx, "F_3", 1, ctx.pick(9, 11), !ctx.quick(), 300);
    suite::<G61>(ctx, "F_(2^61-1)", 8, ctx.pick(7, 8), false, 100);
    let mut shapes = vec![(1, 1), (1, 2), (2, 1), (1, 3), (2, 2), (3, 1), (2, 3), (3, 2), (3, 3), (4, 1), (4, 2), (2, 4), (1, 4)];
    if !ctx.quick() {
        shapes.extend([(3, 4), (4, 3)]);
    }
    let parts: Vec<((usize, usize), usize)> = shapes.iter().flat_map(|s| (0..8).map(move |p| (*s, p))).collect();
    ctx.par(&parts, |((r, c), p)| {
        ctx.case(format!("F_3 matrices of {r} rows and {c} columns part {p}"), || matrices(ctx, *r, *c, *p, 8));
    });
    // formula matrices with extreme integers and attributes
    let ints = [0i32, 1, -1, i32::MIN, i32::MAX, 2];
    ctx.case("formula matrices with extreme integers", || {
        toy::generic(1);
        let wo = World::<G61>::new(4, 300)?;
        let wb = World::<Bls>::new(4, 1000)?;
        let mut t = Tally(ctx, 0, 0);
        for at in [[0u32, 1], [1, 0], [0, 0], [0, u32::MAX], [0, 4], [3, i32::MAX as u32]] {
            for (r, c) in [(1usize, 1usize), (1, 2), (2, 1), (2, 2)] {
                for v in vectors(r * c, &[0, 1, 2, 3, 4, 5]) {
                    let mut b = be(r);
                    b.extend(be(c));
                    for a in &at[..r] {
                        b.extend(a.to_be_bytes());
                    }
                    for x in &v {
                        b.extend(ints[*x as usize].to_be_bytes());
                    }
                    t.hit(offer(&wo, Kind::Msp, &b)?);
                    if r * c < 4 {
                        t.hit(offer(&wb, Kind::Msp, &b)?);
                    }
                }
            }
        }
        Ok(())
    });
    let mut fs = vec![];
    for k in 1..=2 {
        fs.extend(trees_over(&[0, 1, 3], k));
    }
    fs.extend(trees(&[0, 1, 2]));
    fs.push(F::L(u32::MAX));
    fs.push(F::A(Box::new(F::L(1 << 31)), Box::new(F::L(0))));
    ctx.case("objects of different masters and sizes", || {
        toy::generic(ctx.seed);
        mixed::<G61>(ctx, ctx.pick(5, 6), &fs)?;
        mixed::<G251>(ctx, 4, &fs)
    });
    let few: Vec<F> = fs.iter().filter(|f| f.size() == 1).cloned().chain(trees(&[0, 1])).collect();
    for n in 0..ctx.pick(1, 3) {
        ctx.case(format!("BLS12-381 objects of different masters and sizes {n}"), || mixed::<Bls>(ctx, 2 + n, &few));
    }
    // big inputs are read in proportion to their size
    ctx.case("large inputs", || {
        toy::generic(1);
        let wo = World::<G61>::new(4, 300)?;
        let n = 1usize << 20;
        let mut t = Tally(ctx, 0, 0);
        for k in [Kind::Mk, Kind::Pk, Kind::Dk, Kind::List, Kind::Ct] {
            for c in [n / 8, n / 4, n / 4 - 1, n / 8 - 2, n, 1] {
                t.hit(offer(&wo, k, &cat(&[&be(c), &vec![1; n]]))?);
            }
        }
        for (r, c) in [(n / 8, 1), (1, n / 8), (500, 200), (n, 1), (1, n)] {
            for k in [Kind::Uk, Kind::Msp] {
                let mut b = if k == Kind::Uk { toy_list(&vec![1; r.min(1 << 17)], 8) } else { vec![] };
                b.extend(be(r));
                b.extend(be(c));
                for i in 0..r as u32 {
                    b.extend(i.to_be_bytes());
                }
                b.extend(vec![0; n]);
                let ok = match k {
                    Kind::Uk => take::<Uk<G61>>(&b, 300)?.is_some(),
                    _ => take::<Msp>(&b, 300)?.is_some(),
                };
                t.hit(ok);
                ctx.beat();
            }
        }
        Ok(())
    });
    // headers
    let alpha = [0u8, 1, 4, 0xff];
    let pre: Vec<Vec<u8>> = vectors(2, &[0, 1, 4, 255]).into_iter().map(|v| v.iter().map(|x| *x as u8).collect()).collect();
    let hn = ctx.pick(8, 10);
    ctx.par(&pre, |p| {
        ctx.case(format!("headers of at most {hn} bytes from {p:?}"), || {
            toy::generic(1);
            let wo = World::<G3x>::new(4, 300)?;
            let mut t = Tally(ctx, 0, 0);
            t.hit(headers::<G3x>(ctx, 300, &p[..1], &wo.keys[..1])?);
            t.hit(headers::<G3x>(ctx, 300, &[], &wo.keys[..1])?);
            strings(&alpha, hn, p, &mut |b| {
                t.hit(headers::<G3x>(ctx, 300, b, &wo.keys[..1])?);
                Ok(())
            })
        });
    });
    ctx.par(&EDGE, |a| {
        ctx.case(format!("headers with length {a}"), || {
            toy::generic(1);
            let wo = World::<G3x>::new(4, 300)?;
            let mut t = Tally(ctx, 0, 0);
            // a decryptable key in front, a second length anywhere behind
            for ct in &wo.cts {
                let c = bytes(ct)?;
                for l in [*a, c.len() as u32, c.len() as u32 - 1, c.len() as u32 + 1] {
                    for e in EDGE {
                        for n in [0usize, 1, 11, 12, 13] {
                            for m in [0usize, 1, 15, 16, 17, 40] {
                                let b = cat(&[&be(l as usize), &c, &vec![7; n], &be(e as usize), &vec![1; m]]);
                                t.hit(headers::<G3x>(ctx, 300, &b, &wo.keys[..2])?);
                            }
                        }
                    }
                }
            }
            // symmetric keys of every size
            for n in [0usize, 1, 31, 32, 33, 36, 64, 65] {
                for e in EDGE {
                    for m in [0usize, 1, 4, 9] {
                        t.hit(headers::<G3x>(ctx, 300, &cat(&[&be(*a as usize), &vec![1; n], &be(e as usize), &vec![2; m]]), &[])?);
                    }
                }
            }
            Ok(())
        });
    });
    // the product
    mutate::<Bls>(ctx, "BLS12-381", false, 1000, ctx.pick(&[][..], &[0, 1, 0x7f, 0x80, 0xff][..]));
    let parts: Vec<usize> = (0..8).collect();
    ctx.par(&parts, |p| ctx.case(format!("BLS12-381 special elements part {p}"), || bls_elements(ctx, *p)));
    ctx.sample(|| "Uk: count 2^31-1, one element, rows 1, columns 2^30".into());
}
