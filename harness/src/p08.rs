//! P08: freshness, entropy and exact use of randomness
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Mutex;

use crate::{abe::*, ffi, form::*, ipc, pol::*, sup::*, toy, via, via::*};
use cosmian_abe_gpsw::core::bilinear_map::BilinearMap;
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{encrypt_hybrid_block, encrypt_hybrid_header};
use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto, Metadata};
use cosmian_crypto_base::KeyTrait;
use rand::{CryptoRng, RngCore};

type Hist<T> = BTreeMap<T, u64>;
fn uniform<T: Ord + std::fmt::Debug>(h: &Hist<T>, support: usize, what: &str) -> Result<(), String> {
    let n = h.values().next().copied().unwrap_or(0);
    if h.len() != support {
        return Err(format!("{what}: {} outcomes instead of {support}, e.g. {:?}", h.len(), h.keys().next()));
    }
    match h.iter().find(|(_, c)| **c != n) {
        None => Ok(()),
        Some((k, c)) => Err(format!("{what}: not uniform: {k:?} has weight {c}, another {n}")),
    }
}

/// all draws: master keys
fn master_dist<A: Sch>(ctx: &Ctx, q: u64, n: usize) -> Result<(), String> {
    let mut h: Hist<Vec<u64>> = Hist::new();
    let k = toy::explore(true, 1 << 22, || {
        let (mk, pk, dk) = master::<A>(n)?;
        let (mk, pk, dk) = (bytes(&mk)?, bytes(&pk)?, bytes(&dk)?);
        let off = if n == 0 { 0 } else { 4 };
        let t: Vec<u64> = mk[off..off + n].iter().map(|x| *x as u64).collect();
        let y = mk[off + n] as u64;
        if mk != toy_mk(&t, y, 1) || mk.len() != off + n + 1 {
            return Err(format!("unexpected master key {mk:?}"));
        }
        if pk != toy_mk(&t, y, 1) {
            return Err(format!("t={t:?} y={y}: the public key is {pk:?}"));
        }
        if dk != toy_dk(&t, q, 1) {
            return Err(format!("t={t:?} y={y}: the delegation key is {dk:?}"));
        }
        let mut v = t;
        v.push(y);
        *h.entry(v).or_insert(0) += 1;
        Ok(())
    })?;
    ctx.op(k);
    ctx.trace(k);
    ctx.state(h.len() as u64);
    uniform(&h, (q as usize - 1).pow(n as u32 + 1), &format!("master keys of size {n} over F_{q}"))
}

/// all draws: ciphertexts
fn enc_dist<A: Sch>(ctx: &Ctx, q: u64, t: &[u64], y: u64, gamma: &[u32]) -> Result<(), String> {
    let pk: Pk<A> = parse(&toy_mk(t, y, 1))?;
    for m in 0..q {
        let pt: Pt<A> = parse(&te(m, 1))?;
        let mut h: Hist<ToyCt> = Hist::new();
        let k = toy::explore(true, 1 << 20, || {
            let ct = enc::<A>(&pt, gamma, &pk)?;
            let b = bytes(&ct)?;
            let c = if gamma.is_empty() {
                ToyCt { gamma: vec![], e: vec![], ep: b[b.len() - 1] as u64 }
            } else {
                read_toy_ct(&b, 1)
            };
            *h.entry(c).or_insert(0) += 1;
            Ok(())
        })?;
        ctx.op(k);
        ctx.trace(k);
        let mut want: Hist<ToyCt> = Hist::new();
        for s in 1..q {
            let c = ToyCt {
                gamma: gamma.to_vec(),
                e: gamma.iter().map(|g| toy::mulm(t[*g as usize], s, q)).collect(),
                ep: toy::addm(m, toy::mulm(y, s, q), q),
            };
            *want.entry(c).or_insert(0) += 1;
        }
        ctx.state(want.len() as u64);
        // same relative weights
        let (tw, th): (u64, u64) = (want.values().sum(), h.values().sum());
        for k in want.keys().chain(h.keys()) {
            let (a, b) = (want.get(k).copied().unwrap_or(0), h.get(k).copied().unwrap_or(0));
            if a * th != b * tw {
                return Err(format!("t={t:?} y={y} m={m} attributes {gamma:?}: ciphertext {k:?} has weight {b}/{th} instead of {a}/{tw}"));
            }
        }
    }
    Ok(())
}

/// all draws: user keys are uniform over the shares of y
fn key_dist<A: Sch>(ctx: &Ctx, q: u64, f: &F, t: &[u64], y: u64) -> Result<(), String> {
    let mk: Mk<A> = parse(&toy_mk(t, y, 1))?;
    let mut h: Hist<Vec<u64>> = Hist::new();
    let mut shape: Option<(Vec<u32>, Vec<Vec<u64>>)> = None;
    let k = toy::explore(false, 1 << 20, || {
        let u = read_toy_uk(&bytes(&keygen::<A>(&f.node(), &mk)?)?, 1);
        let sh = (u.attrs.clone(), u.m.clone());
        if shape.get_or_insert(sh.clone()) != &sh {
            return Err("the span program of a key depends on randomness".into());
        }
        *h.entry(u.d).or_insert(0) += 1;
        Ok(())
    })?;
    ctx.op(k);
    ctx.trace(k);
    let (attrs, m) = shape.unwrap();
    let cols = m[0].len();
    let mut want: BTreeSet<Vec<u64>> = BTreeSet::new();
    for i in 0..q.pow(cols as u32 - 1) {
        let mut u: Vec<u64> = (0..cols as u32 - 1).map(|j| i / q.pow(j) % q).collect();
        u.push(toy::subm(y, u.iter().fold(0, |a, b| toy::addm(a, *b, q)), q));
        want.insert(
            (0..m.len())
                .map(|r| {
                    let l = (0..cols).fold(0, |a, c| toy::addm(a, toy::mulm(m[r][c], u[c], q), q));
                    toy::mulm(l, toy::invm(t[attrs[r] as usize], q), q)
                })
                .collect(),
        );
    }
    ctx.state(want.len() as u64);
    if let Some(d) = h.keys().find(|d| !want.contains(*d)) {
        return Err(format!("y={y}: key parts {d:?} are not shares of the master secret"));
    }
    uniform(&h, want.len(), &format!("y={y}: key parts"))
}

/// large keys: their parts range over all shares of y
fn key_space(ctx: &Ctx, f: &F) -> Result<(), String> {
    use crate::lin::{affine, same, Affine, Q};
    let n = f.leaves().into_iter().max().unwrap() as u64 + 1;
    let t: Vec<u64> = (0..n).map(|i| i * i * 31 + 5 * i + 2).collect();
    let y = 987654321;
    let mk: Mk<G61> = parse(&toy_mk(&t, y, 8))?;
    let node = f.node();
    let key = || Ok(read_toy_uk(&bytes(&keygen::<G61>(&node, &mk)?)?, 8));
    let (k, _) = toy::scripted(Q, &[], &key)?;
    let Some(got) = affine(&|| Ok(key()?.d))? else {
        ctx.outcome("not affine", 1);
        return Ok(());
    };
    let cols = k.m[0].len();
    let share = |u: &[u64]| -> Vec<u64> {
        k.m.iter()
            .zip(&k.attrs)
            .map(|(row, a)| {
                let l = row.iter().zip(u).fold(0, |a, (m, u)| toy::addm(a, toy::mulm(*m, *u, Q), Q));
                toy::mulm(l, toy::invm(t[*a as usize], Q), Q)
            })
            .collect()
    };
    let mut base = vec![0; cols];
    base[cols - 1] = y;
    let dirs = (1..cols)
        .map(|j| {
            let mut u = vec![0; cols];
            u[j - 1] = 1;
            u[cols - 1] = Q - 1;
            share(&u)
        })
        .collect();
    ctx.op(got.runs);
    ctx.trace(got.runs);
    ctx.state(1);
    if !same(&got, &Affine { base: share(&base), dirs, runs: 0 }) {
        return Err("the key parts do not range over all the shares of the master secret".into());
    }
    ctx.outcome("large keys", 1);
    Ok(())
}
/// ciphertexts of many attributes: one uniform exponent for all
fn enc_space(ctx: &Ctx, n: usize) -> Result<(), String> {
    use crate::lin::{affine, Span};
    let t: Vec<u64> = (0..n as u64 + 2).map(|i| i * i * 31 + 5 * i + 2).collect();
    let y = 987654321;
    let pk: Pk<G61> = parse(&cat(&[&toy_list(&t, 8), &te(y, 8)]))?;
    let m: Pt<G61> = parse(&te(55, 8))?;
    let gamma: Vec<u32> = (0..n as u32).map(|i| (i * 7 + 3) % n as u32).collect();
    let gamma: Vec<u32> = if n % 7 == 0 { (0..n as u32).rev().collect() } else { gamma };
    let f = || {
        let c = read_toy_ct(&bytes(&enc::<G61>(&m, &gamma, &pk)?)?, 8);
        Ok([c.e, vec![c.ep]].concat())
    };
    let Some(got) = affine(&f)? else {
        ctx.outcome("not affine", 1);
        return Ok(());
    };
    ctx.op(got.runs);
    ctx.state(1);
    let want: Vec<u64> = gamma.iter().map(|a| t[*a as usize]).chain([y]).collect();
    let base: Vec<u64> = gamma.iter().map(|_| 0).chain([55]).collect();
    let sp = Span::of(&got.dirs);
    if sp.dim() != 1 || !sp.has(&want) || !sp.has(&crate::lin::diff(&got.base, &base)) {
        return Err(format!("a ciphertext is not made with one exponent for all of its parts ({} dimensions)", sp.dim()));
    }
    ctx.outcome("ciphertexts of many attributes", 1);
    Ok(())
}

struct Scripted {
    base: Vec<u8>,
    pos: usize,
    flip: Option<usize>,
}
impl Scripted {
    fn new(n: usize, flip: Option<usize>) -> Self {
        let mut s = n as u64 + 5;
        Scripted { base: (0..n).flat_map(|_| toy::splitmix(&mut s).to_be_bytes()).collect(), pos: 0, flip }
    }
}
impl RngCore for Scripted {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            let mut v = self.base[self.pos % self.base.len()];
            if let Some(f) = self.flip {
                if f / 8 == self.pos {
                    v ^= 1 << (f % 8);
                }
            }
            *x = v;
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Scripted {}

/// every bit of the entropy read influences the element
fn bits(ctx: &Ctx, what: &str, at_least: usize, f: impl Fn(&mut Scripted) -> Result<Vec<u8>, String> + Sync) {
    let base = std::sync::OnceLock::new();
    ctx.case(format!("{what}: entropy read"), || {
        let mut r = Scripted::new(2048, None);
        let b = f(&mut r)?;
        ctx.note(format!("{what} reads {} bytes of entropy", r.pos));
        if r.pos < at_least {
            return Err(format!("only {} bytes of entropy are read", r.pos));
        }
        let mut r2 = Scripted::new(2048, None);
        if f(&mut r2)? != b {
            return Err("not a function of the generator".into());
        }
        base.set((b, r.pos)).map_err(|_| "?")?;
        Ok(())
    });
    let Some((b, n)) = base.get().cloned() else { return };
    let dead = Mutex::new(vec![]);
    let outs = Mutex::new(BTreeMap::new());
    let items: Vec<usize> = (0..n).collect();
    ctx.par(&items, |i| {
        for k in 0..8 {
            let mut r = Scripted::new(2048, Some(i * 8 + k));
            match guarded(|| f(&mut r)) {
                Ok(Ok(x)) => {
                    ctx.op(1);
                    ctx.state(1);
                    ctx.trace(1);
                    if x == b {
                        dead.lock().unwrap().push(i * 8 + k);
                    } else {
                        outs.lock().unwrap().entry(x).or_insert_with(Vec::new).push(i * 8 + k);
                    }
                }
                e => {
                    ctx.case(format!("{what}: bit {} flipped", i * 8 + k), || Err(format!("{:?}", e.map(|r| r.map(|x| hx(&x))))));
                }
            }
        }
    });
    ctx.case(format!("{what}: every bit counts"), || {
        let dead = dead.into_inner().unwrap();
        // a generator may mask a few bits, never bytes
        if dead.len() * 20 > n * 8 || n * 8 - dead.len() < at_least * 8 - 6 {
            return Err(format!("{} of {} bits have no influence on the element, e.g. bit {}", dead.len(), n * 8, dead[0]));
        }
        let outs = outs.into_inner().unwrap();
        if let Some((o, v)) = outs.iter().find(|(_, v)| v.len() > 1) {
            return Err(format!("bits {v:?} lead to one element {}", hx(o)));
        }
        Ok(())
    });
}

fn distinct<T: Ord>(what: &str, v: impl IntoIterator<Item = T>, show: impl Fn(&T) -> String) -> Result<usize, String> {
    let mut s = BTreeSet::new();
    for x in v {
        let t = show(&x);
        if !s.insert(x) {
            return Err(format!("{what}: {t} repeats"));
        }
    }
    Ok(s.len())
}
/// each bit takes both values
fn lively(what: &str, v: &[Vec<u8>]) -> Result<(), String> {
    let n = v[0].len();
    for i in 0..n * 8 {
        let ones = v.iter().filter(|x| x[i / 8] >> (i % 8) & 1 == 1).count();
        if ones == 0 || ones == v.len() {
            return Err(format!("{what}: bit {i} is constant over {} values", v.len()));
        }
    }
    Ok(())
}

/// secrets made by this process, one list per kind (also printed by `mc secrets`)
pub fn secrets(n: usize) -> Result<Vec<(String, Vec<Vec<u8>>)>, String> {
    let mut sc = vec![];
    let mut gt = vec![];
    for _ in 0..n {
        let (mk, _, dk) = master::<Bls>(3)?;
        let b = bytes(&mk)?;
        for i in 0..3 {
            sc.push(b[4 + 32 * i..36 + 32 * i].to_vec());
        }
        sc.push(b[100..132].to_vec());
        let f = F::A(Box::new(F::L(0)), Box::new(F::L(1)));
        let k = keygen::<Bls>(&f.node(), &mk)?;
        let kb = bytes(&k)?;
        let d = <Bls as cosmian_abe_gpsw::core::gpsw::AbeScheme>::key_delegation(&Bls::default(), &None, &k, &dk).map_err(s("delegation"))?;
        let db = bytes(&d)?;
        for x in [kb, db] {
            gt.push(x[4..100].to_vec());
            gt.push(x[100..196].to_vec());
        }
        gt.push(bytes(&rand_pt::<Bls>()?)?);
    }
    let spec = Spec::new(&[("A", &["a", "b"], false)], 4);
    let pol = spec.policy()?;
    let (_, pk, _) = e_master::<Bls>(&pol)?;
    let mut nonces = vec![];
    let mut keys = vec![];
    let mut ei = vec![];
    for _ in 0..n {
        let h = encrypt_hybrid_header::<Bls, Aes256GcmCrypto>(
            &pol,
            &pk,
            &spec.attrs(&[(0, 0)]),
            Some(Metadata { uid: vec![1], additional_data: None }),
        )
        .map_err(s("encrypt_hybrid_header"))?;
        let l = u32::from_be_bytes(h.encrypted_header_bytes[..4].try_into().unwrap()) as usize;
        ei.push(h.encrypted_header_bytes[4..4 + l][12..60].to_vec());
        nonces.push(h.encrypted_header_bytes[4 + l..16 + l].to_vec());
        for i in 0..2 {
            let b = encrypt_hybrid_block::<Bls, Aes256GcmCrypto, 64>(&h.symmetric_key, b"u", i, b"data").map_err(s("encrypt_hybrid_block"))?;
            nonces.push(b[..12].to_vec());
        }
        keys.push(h.symmetric_key.to_bytes().to_vec());
    }
    Ok(vec![
        ("scalar".into(), sc),
        ("group element".into(), gt),
        ("ciphertext component".into(), ei),
        ("nonce".into(), nonces),
        ("symmetric key".into(), keys),
    ])
}

/// the parts of a header that are drawn, under the names of their kinds
fn header_parts(out: &mut Vec<(&'static str, Vec<u8>)>, key: &[u8], h: &[u8]) -> Result<(), String> {
    let l = u32::from_be_bytes(h.get(..4).ok_or("short header")?.try_into().unwrap()) as usize;
    if h.len() < l + 16 || l < 72 {
        return Err(format!("a header of {} bytes with a key part of {l}", h.len()));
    }
    out.push(("ciphertext component", h[16..64].to_vec()));
    out.push(("nonce", h[4 + l..16 + l].to_vec()));
    out.push(("symmetric key", key.to_vec()));
    Ok(())
}

/// the same calls again and again through each interface, on several threads for C
fn through(ctx: &Ctx) {
    let sp = Spec::new(&[("A", &["a", "b"], false), ("B", &["a"], false)], 5);
    let ap = Ap::and(Ap::L((0, 0)), Ap::L((1, 0)));
    let mut made = None;
    ctx.case("keys for the interfaces", || {
        let pol = must(Rust.policy(&sp), "policy")?;
        let (mk, pk, dk) = must(Rust.master(&pol), "master keys")?;
        let uk = must(Rust.user_key(&pol, &mk, &ap.real(&sp), ""), "user key")?;
        made = Some((pol, mk, pk, dk.unwrap(), uk));
        Ok(())
    });
    let Some((pol, mk, pk, dk, uk)) = made else { return };
    let (pol, mk, pk, dk, uk) = (&pol, &mk, &pk, &dk, &uk);
    let attrs = sp.attrs(&[(0, 0), (1, 0)]);
    let jattrs = serde_json::to_vec(&attrs).unwrap();
    let (n, few) = (ctx.pick(24, 300), ctx.pick(5, 60));
    let (sym, uid) = ([5u8; 32].to_vec(), b"resource".to_vec());
    let pool: Mutex<BTreeMap<&'static str, Vec<Vec<u8>>>> = Mutex::default();
    let user_parts = |out: &mut Vec<(&'static str, Vec<u8>)>, k: &[u8]| {
        if k.len() < 196 {
            return Err(format!("a user key of {} bytes", k.len()));
        }
        out.push(("user key part", k[4..100].to_vec()));
        out.push(("user key part", k[100..196].to_vec()));
        Ok(())
    };
    let (sp, ap) = (&sp, &ap);
    type Job<'a> = (String, Box<dyn Fn() -> Result<Vec<(&'static str, Vec<u8>)>, String> + Sync + 'a>);
    let mut jobs: Vec<Job> = vec![];
    for v in [Rust, C, Py, Js] {
        jobs.push((format!("{v:?} keys"), Box::new(move || {
            let mut o = vec![];
            for _ in 0..few {
                let (m, _, _) = must(v.master(pol), "master keys")?;
                if m.len() < 4 + 32 {
                    return Err(format!("a private key of {} bytes", m.len()));
                }
                o.extend(m[4..].chunks_exact(32).map(|c| ("master exponent", c.to_vec())));
                user_parts(&mut o, &must(v.user_key(pol, mk, &ap.real(sp), &ap.text(sp)), "user key")?)?;
                if v == Py {
                    user_parts(&mut o, &must(v.delegate(dk, uk, &ap.text(sp), pol), "delegation")?)?;
                }
            }
            Ok(o)
        })));
    }
    let (attrs, jattrs, sym, uid) = (&attrs, &jattrs, &sym, &uid);
    // C functions on several threads at once
    for v in [Rust, C, C, C, CCache, Py, Js, JsCache] {
        jobs.push((format!("{v:?} headers"), Box::new(move || {
            let mut o = vec![];
            for _ in 0..n {
                let (k, h) = must(v.seal(pol, pk, attrs, uid, &[]), "header")?;
                header_parts(&mut o, &k, &h)?;
            }
            Ok(o)
        })));
    }
    for v in [Rust, C, C, C, Py, Js] {
        jobs.push((format!("{v:?} blocks"), Box::new(move || {
            let mut o = vec![];
            for _ in 0..n {
                let b = must(v.block(true, sym, uid, 1, b"data"), "block")?;
                if b.len() < 12 {
                    return Err(format!("a block of {} bytes", b.len()));
                }
                o.push(("nonce", b[..12].to_vec()));
            }
            Ok(o)
        })));
    }
    // caches that stay
    jobs.push(("C cache that stays".into(), Box::new(move || {
        let h = {
            let r = ffi::call(ffi::EncNew, &[ffi::Val::Handle(true), ffi::Val::st(pol.clone()), ffi::Val::of(pk)])?;
            if r.code != 0 {
                return Err("the cache is refused".into());
            }
            r.handle
        };
        let parts: Mutex<Vec<(&'static str, Vec<u8>)>> = Mutex::default();
        let errs: Mutex<Vec<String>> = Mutex::default();
        std::thread::scope(|sc| {
            for _ in 0..4 {
                sc.spawn(|| {
                    for _ in 0..n {
                        let one = || {
                            let room = || ffi::Val::Out(true, Some(5000));
                            let r = ffi::call(ffi::EncUse, &[room(), room(), ffi::Val::Int(h), ffi::Val::st(jattrs.clone()), ffi::Val::of(uid), ffi::Val::of(&[])])?;
                            if r.code != 0 {
                                return Err("a header is refused".to_string());
                            }
                            let mut o = vec![];
                            header_parts(&mut o, &r.outs[0].data, &r.outs[1].data)?;
                            parts.lock().unwrap().extend(o);
                            Ok(())
                        };
                        if let Err(e) = one() {
                            errs.lock().unwrap().push(e);
                            return;
                        }
                    }
                });
            }
        });
        ffi::call(ffi::EncDel, &[ffi::Val::Int(h)])?;
        errs.into_inner().unwrap().pop().map_or(Ok(()), Err)?;
        Ok(parts.into_inner().unwrap())
    })));
    jobs.push(("wasm cache that stays".into(), Box::new(move || {
        let h = must(via::js("create_encryption_cache", &[ipc::b(pol), ipc::b(pk)]), "cache")?;
        let t = attrs.iter().map(ToString::to_string).collect::<Vec<_>>().join(", ");
        let mut o = vec![];
        for _ in 0..n {
            let r = ipc::out_b(&must(via::js("encrypt_hybrid_header_using_cache", &[h.clone(), ipc::t(&t), ipc::b(uid)]), "header")?)?;
            let l = u32::from_be_bytes(r.get(..4).ok_or("short result")?.try_into().unwrap()) as usize;
            header_parts(&mut o, r.get(4..4 + l).ok_or("short result")?, &r[4 + l..])?;
        }
        must(via::js("destroy_encryption_cache", &[h]), "destroying the cache")?;
        Ok(o)
    })));
    jobs.push(("Python whole files".into(), Box::new(move || {
        let mut o = vec![];
        let m = meta_json(uid, None);
        for _ in 0..n {
            let v = ipc::out_b(&must(via::py("encrypt", &[ipc::b(&m), ipc::b(pol), ipc::b(jattrs), ipc::b(pk), ipc::b(b"data")]), "encrypt")?)?;
            let l = u32::from_be_bytes(v.get(..4).ok_or("short result")?.try_into().unwrap()) as usize;
            if v.len() < l + 16 {
                return Err("short result".into());
            }
            let h = &v[4..4 + l];
            let k = must(Rust.open(uk, h), "opening the header")?.0;
            header_parts(&mut o, &k, h)?;
            o.push(("nonce", v[4 + l..16 + l].to_vec()));
        }
        Ok(o)
    })));
    ctx.par(&jobs, |(name, go)| {
        ctx.case(format!("repeated calls: {name}"), || {
            let mut kinds: BTreeMap<&'static str, Vec<Vec<u8>>> = BTreeMap::new();
            for (k, v) in go()? {
                kinds.entry(k).or_default().push(v);
            }
            ctx.state(1);
            for (k, v) in kinds {
                ctx.op(v.len() as u64);
                ctx.trace(distinct(k, v.iter(), |x| hx(x))? as u64);
                pool.lock().unwrap().entry(k).or_default().extend(v);
            }
            Ok(())
        });
    });
    ctx.case("repeated calls: all interfaces together", || {
        for (k, v) in pool.lock().unwrap().iter() {
            ctx.outcome(k, v.len() as u64);
            distinct(k, v.iter(), |x| hx(x))?;
        }
        Ok(())
    });
}

pub fn run(ctx: &Ctx) {
    through(ctx);
    // distributions
    for n in 0..=ctx.pick(5, 6) {
        ctx.case(format!("F_5 master keys of size {n}"), || master_dist::<G5>(ctx, 5, n));
        ctx.case(format!("F_3 master keys of size {}", n * 2), || master_dist::<G3x>(ctx, 3, n * 2));
    }
    let mut items: Vec<(Vec<u64>, u64, Vec<u32>)> = vec![];
    for t in [[1u64, 2, 3, 4], [2, 2, 1, 3]] {
        for y in 0..5 {
            for g in subsets(&[0, 1, 2, 3]) {
                for o in permutations(&g) {
                    items.push((t.to_vec(), y, o));
                }
            }
            items.push((t.to_vec(), y, vec![1, 1]));
            items.push((t.to_vec(), y, vec![3, 0, 3]));
        }
    }
    ctx.par(&items, |(t, y, g)| {
        ctx.case(format!("F_5 ciphertexts t={t:?} y={y} attributes {g:?}"), || enc_dist::<G5>(ctx, 5, t, *y, g));
    });
    let mut fs = vec![];
    for k in 1..=ctx.pick(6, 7) {
        fs.extend(trees(&(1..=k as u32).collect::<Vec<_>>()));
    }
    ctx.par(&fs, |f| {
        ctx.case(format!("F_3 keys for {}", f.text()), || {
            for y in 0..3 {
                key_dist::<G3x>(ctx, 3, f, &[1, 2, 1, 2, 2, 1, 2, 1][..f.size() + 1], y)?;
            }
            Ok(())
        });
    });
    ctx.case("F_251 plaintexts and symmetric keys", || {
        let spec = Spec::new(&[("A", &["a"], false)], 2);
        let pol = spec.policy()?;
        let pk: Pk<G251> = parse(&toy_mk(&[1, 2, 3, 4], 5, 1))?;
        let mut h: Hist<Vec<u8>> = Hist::new();
        toy::explore(true, 1 << 20, || {
            *h.entry(bytes(&rand_pt::<G251>()?)?).or_insert(0) += 1;
            Ok(())
        })?;
        uniform(&h, 250, "random plaintexts")?;
        let mut h: Hist<Vec<u8>> = Hist::new();
        let n = toy::explore(true, 1 << 20, || {
            let (k, _) = Engine::<G251>::new()
                .generate_symmetric_key(&pol, &pk, &spec.attrs(&[(0, 0)]), 32)
                .map_err(s("generate_symmetric_key"))?;
            *h.entry(k).or_insert(0) += 1;
            Ok(())
        })?;
        ctx.state(250);
        ctx.op(n);
        ctx.trace(n);
        uniform(&h, 250, "symmetric keys")
    });
    // large keys and ciphertexts: the spaces of the values that the draws give
    let fs: Vec<F> = if ctx.quick() { vec![8u32, 17, 34, 66] } else { vec![8, 12, 17, 24, 34, 50, 66, 130, 260] }.into_iter().flat_map(crate::lin::larges).collect();
    ctx.par(&fs, |f| {
        ctx.case(format!("large keys for {}", f.text()), || key_space(ctx, f));
    });
    let gs: Vec<usize> = if ctx.quick() { vec![5, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129, 255, 256, 257, 300] } else { (1..=600).collect() };
    ctx.par(&gs, |n| {
        ctx.case(format!("ciphertexts of {n} attributes"), || enc_space(ctx, *n));
    });
    // large vectors: every exponent is a draw of its own
    let sizes: Vec<usize> = (1..=ctx.pick(300, 1200)).collect();
    ctx.par(&sizes, |n| {
        ctx.case(format!("master keys of size {n}: one draw per exponent"), || {
            toy::generic(ctx.seed + *n as u64);
            toy::record_rng(true);
            let (mk, _, _) = master::<G61>(*n)?;
            let b = bytes(&mk)?;
            let v: Vec<u64> = b[4..].chunks(8).map(tv).collect();
            if v.len() != n + 1 {
                return Err(format!("{} exponents", v.len()));
            }
            distinct("exponents", v.iter().copied(), |x| x.to_string())?;
            let r = toy::take_rng();
            toy::record_rng(false);
            if r.len() < v.len() {
                return Err(format!("{} draws for {} exponents", r.len(), v.len()));
            }
            distinct("generator outputs", r, |x| format!("{x:?}"))?;
            ctx.op(1);
            ctx.state(1);
            ctx.trace(*n as u64);
            Ok(())
        });
    });
    // generator outputs across calls, kinds of calls, and threads
    let all: Mutex<Vec<[u64; 2]>> = Mutex::default();
    let th: Vec<usize> = (0..ctx.pick(64, 512)).collect();
    ctx.case("generator outputs across threads", || {
        let errs = Mutex::new(vec![]);
        std::thread::scope(|sc| {
            for _ in &th {
                sc.spawn(|| {
                    let r = guarded(|| -> Result<(), String> {
                        toy::generic(3);
                        toy::record_rng(true);
                        for _ in 0..20 {
                            let (mk, pk, dk) = master::<G61>(3)?;
                            let f = F::A(Box::new(F::L(0)), Box::new(F::A(Box::new(F::L(1)), Box::new(F::L(2)))));
                            let k = keygen::<G61>(&f.node(), &mk)?;
                            let g = G61::default();
                            use cosmian_abe_gpsw::core::gpsw::AbeScheme;
                            AbeScheme::key_delegation(&g, &None, &k, &dk).map_err(s("delegate"))?;
                            AbeScheme::key_delegation(&g, &Some(msp(&f.node())?), &k, &dk).map_err(s("delegate"))?;
                            let m = rand_pt::<G61>()?;
                            enc::<G61>(&m, &[0, 2], &pk)?;
                            enc::<G61>(&m, &[0, 2], &pk)?;
                        }
                        all.lock().unwrap().extend(toy::take_rng());
                        Ok(())
                    });
                    if let Err(e) | Ok(Err(e)) = r {
                        errs.lock().unwrap().push(e);
                    }
                });
            }
        });
        if let Some(e) = errs.into_inner().unwrap().pop() {
            return Err(e);
        }
        let v = all.lock().unwrap().clone();
        ctx.op(v.len() as u64);
        ctx.trace(v.len() as u64);
        // 4 master + 2 key + 2 + 2 delegation + 1 plaintext + 2 ciphertexts
        if v.len() < th.len() * 20 * 13 {
            return Err(format!("only {} draws", v.len()));
        }
        let flat: Vec<u64> = v.iter().flatten().copied().collect();
        distinct("generator outputs", flat, |x| format!("{x:#x}")).map(|_| ())
    });
    // the product
    let bls = Bls12_381;
    bits(ctx, "BLS12-381 scalar", 32, |r| bytes(&bls.gen_rand_scalar_inner(r).map_err(s("scalar"))?));
    bits(ctx, "BLS12-381 target element", 32, |r| bytes(&bls.gen_rand_gt_inner(r).map_err(s("gt"))?));
    for n in [1usize, 2, 64, 100, ctx.pick(257, 2000)] {
        ctx.case(format!("BLS12-381 master keys of size {n} have distinct independent exponents"), || {
            let g = bls.gen_random_scalar_vector(n).map_err(s("vector"))?;
            let mut v: Vec<Vec<u8>> = g.iter().map(bytes).collect::<Result<_, _>>()?;
            if v.len() != n {
                return Err(format!("{} scalars", v.len()));
            }
            // no short arithmetic relation between neighbours
            let mut diffs = vec![];
            let mut quots = vec![];
            for w in g.windows(2) {
                diffs.push(bytes(&(w[1].clone() - &w[0]))?);
                quots.push(bytes(&(w[1].clone() / &w[0]))?);
            }
            distinct("differences of neighbours", diffs, |x| hx(x))?;
            distinct("ratios of neighbours", quots, |x| hx(x))?;
            v.extend(bls.gen_random_scalar_vector(n).map_err(s("vector"))?.iter().map(bytes).collect::<Result<Vec<_>, _>>()?);
            v.push(bytes(&bls.gen_random_scalar().map_err(s("scalar"))?)?);
            v.push(bytes(&bls.gen_random_scalar().map_err(s("scalar"))?)?);
            ctx.trace(distinct("scalars", v, |x| hx(x))? as u64);
            ctx.state(1);
            ctx.op(4);
            Ok(())
        });
    }
    // secrets across threads and processes
    ctx.case("secrets, nonces and keys across threads and processes", || {
        let pool: Mutex<BTreeMap<String, Vec<Vec<u8>>>> = Mutex::default();
        let errs = Mutex::new(vec![]);
        let n = ctx.pick(25, 200);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| match guarded(|| secrets(n)) {
                    Ok(Ok(v)) => {
                        for (k, v) in v {
                            pool.lock().unwrap().entry(k).or_default().extend(v);
                        }
                    }
                    Ok(Err(e)) | Err(e) => errs.lock().unwrap().push(e),
                });
            }
        });
        if let Some(e) = errs.into_inner().unwrap().pop() {
            return Err(e);
        }
        let mut pool = pool.into_inner().unwrap();
        for _ in 0..ctx.pick(3, 20) {
            ctx.beat();
            let o = std::process::Command::new(std::env::current_exe().map_err(s("exe"))?)
                .args(["secrets", "3"])
                .output()
                .map_err(s("process"))?;
            let v: Vec<(String, Vec<Vec<u8>>)> =
                serde_json::from_slice(&o.stdout).map_err(|e| format!("process: {e}: {}", String::from_utf8_lossy(&o.stderr)))?;
            for (k, v) in v {
                pool.entry(k).or_default().extend(v);
            }
        }
        for (k, v) in &pool {
            ctx.outcome(k, v.len() as u64);
            ctx.state(v.len() as u64);
            ctx.trace(distinct(k, v.iter(), |x| hx(x))? as u64);
            if k == "nonce" || k == "symmetric key" {
                lively(k, v)?;
            }
        }
        Ok(())
    });
    // many nonces
    ctx.case("nonces of many headers and blocks", || {
        let spec = Spec::new(&[("A", &["a", "b"], false)], 4);
        let pol = spec.policy()?;
        let pool: Mutex<Vec<Vec<u8>>> = Mutex::default();
        let errs = Mutex::new(vec![]);
        let n = ctx.pick(2_000, 60_000);
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| {
                    let r = guarded(|| -> Result<(), String> {
                        toy::generic(1);
                        let (_, pk, _) = e_master::<G61>(&pol)?;
                        let mut v = vec![];
                        for i in 0..n {
                            let h = encrypt_hybrid_header::<G61, Aes256GcmCrypto>(
                                &pol,
                                &pk,
                                &spec.attrs(&[(0, 0)]),
                                Some(Metadata { uid: vec![1], additional_data: Some(vec![2]) }),
                            )
                            .map_err(s("header"))?;
                            let l = u32::from_be_bytes(h.encrypted_header_bytes[..4].try_into().unwrap()) as usize;
                            v.push(h.encrypted_header_bytes[4 + l..16 + l].to_vec());
                            for len in [1, 64] {
                                let b = encrypt_hybrid_block::<G61, Aes256GcmCrypto, 64>(&h.symmetric_key, b"u", i, &vec![7; len])
                                    .map_err(s("block"))?;
                                v.push(b[..12].to_vec());
                            }
                        }
                        pool.lock().unwrap().extend(v);
                        Ok(())
                    });
                    if let Err(e) | Ok(Err(e)) = r {
                        errs.lock().unwrap().push(e);
                    }
                });
            }
        });
        if let Some(e) = errs.into_inner().unwrap().pop() {
            return Err(e);
        }
        let v = pool.into_inner().unwrap();
        lively("nonces", &v)?;
        ctx.op(v.len() as u64);
        ctx.trace(distinct("nonces", v.iter(), |x| hx(x))? as u64);
        Ok(())
    });
    ctx.sample(|| "flip bit 17 of the 64 bytes read by gen_rand_scalar_inner".into());
}
