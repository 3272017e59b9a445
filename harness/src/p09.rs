//! P09: serialisation
use std::fmt::Display;

use crate::{abe::*, form::*, pol::*, sup::*, toy};
use cosmian_abe_gpsw::core::gpsw::{AbeScheme, AsBytes};
use cosmian_abe_gpsw::core::msp::{MonotoneSpanProgram, Node};
use cosmian_abe_gpsw::interfaces::abe_policy::{Attribute, Policy};
use cosmian_abe_gpsw::interfaces::hybrid_crypto::{decrypt_hybrid_block, decrypt_hybrid_header, encrypt_hybrid_block, encrypt_hybrid_header};
use cosmian_crypto_base::symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto, Metadata};
use cosmian_crypto_base::KeyTrait;

const TAILS: &[&[u8]] = &[&[0], &[0xff], &[0, 0, 0, 0], &[0, 0, 0, 2, 1], &[0xff; 9], &[1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12]];

/// an object and its expected bytes
fn rt<T: AsBytes + PartialEq>(ctx: &Ctx, what: &str, t: &T, b: &[u8]) -> Result<(), String> {
    let got = bytes(t)?;
    if got != b {
        return Err(format!("{what}: serialised as {} instead of {}", hx(&got), hx(b)));
    }
    rt_ct(ctx, what, t, b)?;
    let p: T = parse(b).map_err(|e| format!("{what}: {e}"))?;
    if p != *t || !(*t == p) {
        return Err(format!("{what}: parsed object differs ({})", hx(b)));
    }
    Ok(())
}
/// same for objects without equality: parsed and serialised again
fn rt_ct<T: AsBytes>(ctx: &Ctx, what: &str, t: &T, b: &[u8]) -> Result<(), String> {
    if t.len_bytes() != b.len() {
        return Err(format!("{what}: announces {} bytes, has {}", t.len_bytes(), b.len()));
    }
    ctx.state(1);
    for tail in std::iter::once(&&[][..]).chain(TAILS) {
        let mut v = b.to_vec();
        v.extend_from_slice(tail);
        let p: T = parse(&v).map_err(|e| format!("{what} {} followed by {tail:?}: {e}", hx(b)))?;
        let again = bytes(&p)?;
        if again != b {
            return Err(format!("{what} {} followed by {tail:?}: serialised again as {}", hx(b), hx(&again)));
        }
        if p.len_bytes() != b.len() {
            return Err(format!("{what} {}: parsed object announces {} bytes", hx(b), p.len_bytes()));
        }
        ctx.op(2);
        ctx.trace(1);
    }
    ctx.outcome(what, 1);
    Ok(())
}
fn shown<T: Display>(what: &str, t: &T, b: &[u8]) -> Result<(), String> {
    let s = t.to_string();
    if s != hex::encode(b) {
        return Err(format!("{what}: prints as {s} instead of {}", hex::encode(b)));
    }
    Ok(())
}

/// all vectors of a length over a few values
pub fn vectors(n: usize, vals: &[u64]) -> Vec<Vec<u64>> {
    let mut v = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p: Vec<u64>| vals.iter().map(move |x| { let mut p = p.clone(); p.push(*x); p })).collect();
    }
    v
}

/// every key of given shape over F_q by its published bytes
fn toy_keys<A: Sch>(ctx: &Ctx, q: u64, n: usize) -> Result<(), String>
where
    Mk<A>: Display, Pk<A>: Display, Dk<A>: Display,
{
    let vals: Vec<u64> = (0..q).collect();
    let mut prev: Option<(Mk<A>, Pk<A>, Dk<A>)> = None;
    for v in vectors(n + 1, &vals) {
        let (t, y) = (&v[..n], v[n]);
        let b = toy_mk(t, y, 1);
        let mk: Mk<A> = parse(&b)?;
        rt(ctx, "master private key", &mk, &b)?;
        shown("master private key", &mk, &b)?;
        let pk: Pk<A> = parse(&b)?;
        rt(ctx, "master public key", &pk, &b)?;
        shown("master public key", &pk, &b)?;
        let db = toy_list(t, 1);
        let dk: Dk<A> = parse(&db)?;
        rt(ctx, "delegation key", &dk, &db)?;
        shown("delegation key", &dk, &db)?;
        if let Some((m, p, _)) = &prev {
            if *m == mk || *p == pk {
                return Err(format!("two different keys are equal, e.g. {}", hx(&b)));
            }
        }
        prev = Some((mk, pk, dk));
    }
    Ok(())
}
/// what the scheme makes has the published bytes
fn made<A: Sch>(ctx: &Ctx, w: usize, n: usize, f: &F) -> Result<(), String>
where
    Mk<A>: Display, Pk<A>: Display, Dk<A>: Display, Uk<A>: Display,
{
    let (mk, pk, dk) = master::<A>(n)?;
    let (bm, bp, bd) = (bytes(&mk)?, bytes(&pk)?, bytes(&dk)?);
    rt(ctx, "master private key", &mk, &bm)?;
    rt(ctx, "master public key", &pk, &bp)?;
    rt(ctx, "delegation key", &dk, &bd)?;
    shown("master private key", &mk, &bm)?;
    shown("master public key", &pk, &bp)?;
    shown("delegation key", &dk, &bd)?;
    if bm.len() != 4 + w * (n + 1) || bm[..4] != be(n)[..] || bp.len() != bm.len() || bd.len() != 4 + w * n {
        return Err(format!("sizes {} {} {}", bm.len(), bp.len(), bd.len()));
    }
    let node = f.node();
    let m = msp(&node)?;
    let k = keygen::<A>(&node, &mk)?;
    let bk = bytes(&k)?;
    rt(ctx, "user key", &k, &bk)?;
    shown("user key", &k, &bk)?;
    let r = read_toy_uk(&bk, w);
    let q = if w == 1 { 251 } else { toy::P61 };
    if r.attrs != (0..m.rows()).map(|i| m.get_attr_from_row(i)).collect::<Vec<_>>()
        || r.m != m.matrix().iter().map(|x| x.iter().map(|y| toy::fromi(*y as i64, q)).collect::<Vec<_>>()).collect::<Vec<_>>()
        || r.d.len() != m.rows()
    {
        return Err(format!("user key bytes {} do not describe its span program", hx(&bk)));
    }
    // span program of integers
    let mut want = be(m.rows());
    want.extend(be(m.cols()));
    for a in &r.attrs {
        want.extend(a.to_be_bytes());
    }
    for x in m.matrix().iter().flatten() {
        want.extend(x.to_be_bytes());
    }
    rt(ctx, "span program", &m, &want)?;
    let back: MonotoneSpanProgram<i32> = parse(&want)?;
    // equal behaviour
    let k2: Uk<A> = parse(&bk)?;
    let (mk2, pk2, dk2): (Mk<A>, Pk<A>, Dk<A>) = (parse(&bm)?, parse(&bp)?, parse(&bd)?);
    let k3 = A::key_generation(&A::default(), &back, &mk2).map_err(s("key_generation"))?;
    let k4 = A::key_delegation(&A::default(), &Some(back), &k2, &dk2).map_err(s("key_delegation"))?;
    let mut ls = f.leaves();
    ls.sort();
    for sub in subsets(&ls) {
        if sub.is_empty() {
            continue;
        }
        let pt = rand_pt::<A>()?;
        let pb = bytes(&pt)?;
        if pb.len() != w || pt.len_bytes() != w {
            return Err("plaintext size".into());
        }
        let pt2: Pt<A> = parse(&pb)?;
        let ct = enc::<A>(&pt2, &sub, &pk2)?;
        let cb = bytes(&ct)?;
        let r = read_toy_ct(&cb, w);
        if r.gamma != sub || toy_ct(&r, w) != cb {
            return Err(format!("ciphertext bytes {} do not follow the layout", hx(&cb)));
        }
        rt_ct(ctx, "ciphertext", &ct, &cb)?;
        let ct2: Ct<A> = parse(&cb)?;
        for (c, k) in [(&ct, &k2), (&ct2, &k), (&ct2, &k3), (&ct2, &k4)] {
            judge(&dec::<A>(c, k)?, f.sat(&sub), &pb).map_err(|e| format!("{sub:?}: {e}"))?;
            ctx.trace(1);
        }
    }
    Ok(())
}

/// every user key and ciphertext over F_3 with small shapes, from its published bytes
fn toy_uks(ctx: &Ctx, rows: usize, cols: usize) -> Result<(), String> {
    // keys are equal exactly when their bytes are
    let mut few = vec![];
    for attrs in [[0u32, 1, 2], [0, 2, 1], [1, 0, 2], [3, 1, 2], [0, 1, 256]] {
        for v in vectors(rows * cols, &[0, 1]).into_iter().step_by((1 << (rows * cols)) / 4 + 1) {
            let m: Vec<Vec<u64>> = v.chunks(cols).map(<[u64]>::to_vec).collect();
            for d in [[0u64, 1, 2], [2, 1, 0]] {
                few.push(toy_uk(&d[..rows], &attrs[..rows], &m, 1));
            }
        }
    }
    let keys: Vec<Uk<G3x>> = few.iter().map(|b| parse(b)).collect::<Result<_, _>>()?;
    for (i, a) in keys.iter().enumerate() {
        for (j, b) in keys.iter().enumerate() {
            if (a == b) != (few[i] == few[j]) {
                return Err(format!("keys {} and {} compare as {}", hx(&few[i]), hx(&few[j]), a == b));
            }
            ctx.op(1);
        }
    }
    for attrs in [vec![0u32, 1, 2], vec![u32::MAX, 0, 7], vec![256, 65536, 3]] {
        for v in vectors(rows * cols, &[0, 1, 2]) {
            let m: Vec<Vec<u64>> = v.chunks(cols).map(<[u64]>::to_vec).collect();
            for d in [vec![0u64, 1, 2], vec![2, 2, 1]] {
                let b = toy_uk(&d[..rows], &attrs[..rows], &m, 1);
                let k: Uk<G3x> = parse(&b)?;
                rt(ctx, "user key", &k, &b)?;
            }
        }
        ctx.beat();
    }
    Ok(())
}
fn toy_cts(ctx: &Ctx, n: usize) -> Result<(), String> {
    for g in [[0u32, 1, 2, 3], [u32::MAX, 0, 0, 5], [16777216, 255, 256, 1 << 31]] {
        for v in vectors(n + 1, &[0, 1, 2]) {
            let c = ToyCt { gamma: g[..n].to_vec(), e: v[..n].to_vec(), ep: v[n] };
            let b = toy_ct(&c, 1);
            let t: Ct<G3x> = parse(&b)?;
            rt_ct(ctx, "ciphertext", &t, &b)?;
        }
    }
    Ok(())
}

fn bls(ctx: &Ctx, n: usize, f: &F) -> Result<(), String> {
    let (mk, pk, dk) = master::<Bls>(n)?;
    let (bm, bp, bd) = (bytes(&mk)?, bytes(&pk)?, bytes(&dk)?);
    if (bm.len(), bp.len(), bd.len()) != (4 + 32 * n + 32, 4 + 48 * n + 288, 4 + 96 * n) {
        return Err(format!("sizes {} {} {} for {n} slots", bm.len(), bp.len(), bd.len()));
    }
    rt(ctx, "master private key", &mk, &bm)?;
    rt(ctx, "master public key", &pk, &bp)?;
    rt(ctx, "delegation key", &dk, &bd)?;
    shown("master private key", &mk, &bm)?;
    shown("master public key", &pk, &bp)?;
    shown("delegation key", &dk, &bd)?;
    let k = keygen::<Bls>(&f.node(), &mk)?;
    let kb = bytes(&k)?;
    let m = msp(&f.node())?;
    if kb.len() != 4 + 96 * m.rows() + 8 + 4 * m.rows() + 32 * m.rows() * m.cols() {
        return Err(format!("user key of {} bytes", kb.len()));
    }
    rt(ctx, "user key", &k, &kb)?;
    shown("user key", &k, &kb)?;
    let ls = f.leaves();
    for sub in [ls.clone(), ls[..1].to_vec()] {
        let pt = rand_pt::<Bls>()?;
        let pb = bytes(&pt)?;
        rt_ct(ctx, "plaintext", &pt, &pb)?;
        let ct = enc::<Bls>(&parse::<Pt<Bls>>(&pb)?, &sub, &parse::<Pk<Bls>>(&bp)?)?;
        let cb = bytes(&ct)?;
        if cb.len() != Bls::ciphertext_len(sub.len()) || cb.len() != 8 + 52 * sub.len() + 288 {
            return Err(format!("ciphertext of {} bytes, announced {}", cb.len(), Bls::ciphertext_len(sub.len())));
        }
        rt_ct(ctx, "ciphertext", &ct, &cb)?;
        let k2: Uk<Bls> = parse(&kb)?;
        judge(&dec::<Bls>(&parse::<Ct<Bls>>(&cb)?, &k2)?, f.sat(&sub), &pb)?;
    }
    Ok(())
}

// ---- golden ----
#[derive(serde::Serialize, serde::Deserialize)]
struct Golden {
    policy: String,
    mk: String,
    pk: String,
    dk: String,
    keys: Vec<(String, String, Vec<bool>)>,
    cts: Vec<(Vec<u32>, String, String)>,
    header: String,
    header_key: String,
    uid: Vec<u8>,
    ad: Vec<u8>,
    block: String,
}
pub fn golden() -> Result<String, String> {
    let sp = Spec::new(&[("L", &["low", "mid", "top"], true), ("D", &["x", "y"], false)], 8);
    let mut pol = sp.policy()?;
    pol.rotate(&sp.attr((1, 0))).map_err(s("rotate"))?;
    let (mk, pk, dk) = e_master::<Bls>(&pol)?;
    let l = |a, b| Ap::L((a, b));
    let aps = [l(0, 1), Ap::and(l(0, 2), l(1, 0)), Ap::or(Ap::and(l(0, 0), l(1, 1)), l(1, 0)), Ap::All];
    let sets: Vec<Vec<At>> = vec![vec![(0, 1), (1, 0)], vec![(1, 1)], vec![(1, 1), (0, 0)], vec![(0, 2)]];
    let mut keys = vec![];
    for a in &aps {
        let k = e_key::<Bls>(&pol, &mk, &a.real(&sp))?;
        keys.push((a.text(&sp), hex::encode(bytes(&k)?), sets.iter().map(|s| a.eval(&sp, &|x| s.contains(&x))).collect()));
    }
    let mut cts = vec![];
    for st in &sets {
        let m = e_pt::<Bls>()?;
        let at = sp.attrs(st);
        let ct = e_enc::<Bls>(&pol, &pk, &at, &m)?;
        cts.push((pol.attributes_values(&at).map_err(s("values"))?, hex::encode(bytes(&ct)?), hex::encode(bytes(&m)?)));
    }
    let (uid, ad) = (vec![9u8, 8, 7], vec![1u8, 2]);
    let h = encrypt_hybrid_header::<Bls, Aes256GcmCrypto>(&pol, &pk, &sp.attrs(&sets[0]), Some(Metadata { uid: uid.clone(), additional_data: Some(ad.clone()) })).map_err(s("header"))?;
    let b = encrypt_hybrid_block::<Bls, Aes256GcmCrypto, 1024>(&h.symmetric_key, &uid, 5, b"golden data").map_err(s("block"))?;
    serde_json::to_string_pretty(&Golden {
        policy: pol.to_string(), mk: hex::encode(bytes(&mk)?), pk: hex::encode(bytes(&pk)?), dk: hex::encode(bytes(&dk)?), keys, cts,
        header: hex::encode(&h.encrypted_header_bytes), header_key: hex::encode(h.symmetric_key.to_bytes()), uid, ad, block: hex::encode(b),
    }).map_err(s("json"))
}
fn unhex(h: &str) -> Result<Vec<u8>, String> {
    hex::decode(h.trim()).map_err(|e| e.to_string())
}
fn check_golden(ctx: &Ctx) -> Result<(), String> {
    let g: Golden = serde_json::from_str(include_str!("../golden/objects.json")).map_err(s("golden"))?;
    let mk: Mk<Bls> = parse(&unhex(&g.mk)?)?;
    rt(ctx, "golden master private key", &mk, &unhex(&g.mk)?)?;
    let pk: Pk<Bls> = parse(&unhex(&g.pk)?)?;
    rt(ctx, "golden master public key", &pk, &unhex(&g.pk)?)?;
    let dk: Dk<Bls> = parse(&unhex(&g.dk)?)?;
    rt(ctx, "golden delegation key", &dk, &unhex(&g.dk)?)?;
    let pol: Policy = serde_json::from_str(&g.policy).map_err(s("golden policy"))?;
    let mut keys = vec![];
    for (t, h, opens) in &g.keys {
        let k: Uk<Bls> = parse(&unhex(h)?)?;
        rt(ctx, "golden user key", &k, &unhex(h)?)?;
        let d = AbeScheme::key_delegation(&Bls::default(), &None, &k, &dk).map_err(s("delegation"))?;
        keys.push((t, k, opens));
        keys.push((t, d, opens));
    }
    for (i, (gamma, c, m)) in g.cts.iter().enumerate() {
        let ct: Ct<Bls> = parse(&unhex(c)?)?;
        rt_ct(ctx, "golden ciphertext", &ct, &unhex(c)?)?;
        let pm: Pt<Bls> = parse(&unhex(m)?)?;
        let new = enc::<Bls>(&pm, gamma, &pk)?;
        for (t, k, opens) in &keys {
            judge(&dec::<Bls>(&ct, k)?, opens[i], &unhex(m)?).map_err(|e| format!("golden key {t} on golden ciphertext {gamma:?}: {e}"))?;
            judge(&dec::<Bls>(&new, k)?, opens[i], &unhex(m)?).map_err(|e| format!("golden key {t} on new ciphertext {gamma:?}: {e}"))?;
            ctx.trace(2);
        }
        // keys issued now by the golden master
        let f = Node::Leaf(gamma[0]);
        let k = keygen::<Bls>(&f, &mk)?;
        judge(&dec::<Bls>(&ct, &k)?, true, &unhex(m)?).map_err(|e| format!("new key on golden ciphertext: {e}"))?;
    }
    let vals = pol
        .attributes_values(&[Attribute::new("L", "mid"), Attribute::new("D", "x")])
        .map_err(s("golden policy values"))?;
    if vals != g.cts[0].0 {
        return Err(format!("golden policy now gives the values {vals:?} instead of {:?}", g.cts[0].0));
    }
    for (t, h, opens) in &g.keys {
        let k: Uk<Bls> = parse(&unhex(h)?)?;
        match (decrypt_hybrid_header::<Bls, Aes256GcmCrypto>(&k, &unhex(&g.header)?), opens[0]) {
            (Ok(c), true) => {
                if hex::encode(c.symmetric_key.to_bytes()) != g.header_key || c.meta_data.uid != g.uid || c.meta_data.additional_data.as_ref() != Some(&g.ad) {
                    return Err(format!("golden header with key {t}: wrong content"));
                }
                let d = decrypt_hybrid_block::<Bls, Aes256GcmCrypto, 1024>(&c.symmetric_key, &g.uid, 5, &unhex(&g.block)?).map_err(s("golden block"))?;
                if d != b"golden data" {
                    return Err("golden block: wrong content".into());
                }
            }
            (Err(e), true) => return Err(format!("golden header with key {t}: {e}")),
            (Ok(_), false) => return Err(format!("golden header opened with key {t}")),
            _ => {}
        }
    }
    Ok(())
}
fn check_repo_files(ctx: &Ctx) -> Result<(), String> {
    let kms: serde_json::Value = serde_json::from_str(include_str!("../golden/kms.json")).map_err(s("json"))?;
    let sets = [
        (
            include_str!("../golden/master_public_key.txt").to_string(),
            include_str!("../golden/policy.txt").to_string(),
            include_str!("../golden/user_decryption_key.txt").to_string(),
            vec![("Department", "FIN"), ("Security Level", "Low Secret")],
        ),
        (
            kms["pk"].as_str().unwrap().into(),
            kms["policy"].as_str().unwrap().into(),
            kms["uk"].as_str().unwrap().into(),
            vec![("Department", "FIN"), ("Security Level", "Top Secret")],
        ),
    ];
    for (pk, pol, uk, at) in sets {
        let (pb, ub) = (unhex(&pk)?, unhex(&uk)?);
        let p: Pk<Bls> = parse(&pb)?;
        // fixtures may carry trailing bytes: compare on the announced length
        let n = p.len_bytes();
        rt(ctx, "fixture master public key", &p, &pb[..n])?;
        let u: Uk<Bls> = parse(&ub)?;
        let n = u.len_bytes();
        rt(ctx, "fixture user key", &u, &ub[..n])?;
        let pol: Policy = serde_json::from_slice(&unhex(&pol)?).map_err(s("fixture policy"))?;
        let attrs: Vec<Attribute> = at.iter().map(|(a, b)| Attribute::new(a, b)).collect();
        let h = encrypt_hybrid_header::<Bls, Aes256GcmCrypto>(&pol, &p, &attrs, None).map_err(s("header"))?;
        let c = decrypt_hybrid_header::<Bls, Aes256GcmCrypto>(&u, &h.encrypted_header_bytes).map_err(|e| format!("fixture key on {at:?}: {e}"))?;
        if c.symmetric_key.to_bytes() != h.symmetric_key.to_bytes() {
            return Err("wrong key".into());
        }
        ctx.trace(1);
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    crate::cif::formats(ctx);
    for n in 1..=ctx.pick(4, 6) {
        ctx.case(format!("F_5 master and delegation keys of {n} slots"), || toy_keys::<G5>(ctx, 5, n));
    }
    let shapes: Vec<(usize, usize)> = (1..=3).flat_map(|r| (1..=3).map(move |c| (r, c))).filter(|(r, c)| r * c <= ctx.pick(6, 9)).collect();
    ctx.par(&shapes, |(r, c)| ctx.case(format!("F_3 user keys of {r} rows and {c} columns"), || toy_uks(ctx, *r, *c)));
    for n in 1..=4 {
        ctx.case(format!("F_3 ciphertexts of {n} attributes"), || toy_cts(ctx, n));
    }
    let mut fs = vec![];
    for k in 1..=ctx.pick(5, 6) {
        fs.extend(trees(&(0..k as u32).collect::<Vec<_>>()));
    }
    for p in permutations(&[0, 1, 2]) {
        fs.extend(trees(&p));
    }
    let sparse: Vec<F> = fs.iter().filter(|f| f.size() <= 3).map(|f| f.map(&|a| a * 7 + 2)).collect();
    fs.extend(sparse);
    ctx.par(&fs, |f| {
        ctx.case(format!("objects for {}", f.text()), || {
            toy::generic(ctx.seed);
            let n = f.leaves().into_iter().max().unwrap() as usize + 1;
            for extra in [0, 1, 3] {
                made::<G251>(ctx, 1, n + extra, f)?;
                made::<G61>(ctx, 8, n + extra, f)?;
            }
            Ok(())
        });
    });
    let ns: Vec<usize> = vec![1, 2, 3, 17, 100, 255, 256, 257, ctx.pick(300, 2000), 65535, 65536, 65537];
    fn wide(ls: &[u32], and: bool) -> F {
        if let [a] = ls {
            return F::L(*a);
        }
        let (a, b) = ls.split_at(ls.len() / 2);
        let (a, b) = (Box::new(wide(a, and)), Box::new(wide(b, and)));
        if and { F::A(a, b) } else { F::O(a, b) }
    }
    let mut ws: Vec<(usize, bool)> = [255, 256, 257, 65535, 65536, 65537].iter().map(|n| (*n, false)).collect();
    ws.extend([255, 256, 257].iter().map(|n| (*n, true)));
    ctx.par(&ws, |(n, and)| {
        ctx.case(format!("keys of {n} attributes, conjunction {and}"), || {
            toy::generic(ctx.seed);
            let ls: Vec<u32> = (0..*n as u32).collect();
            let (mk, pk, _) = master::<G61>(*n)?;
            let k = keygen::<G61>(&wide(&ls, *and).node(), &mk)?;
            let kb = bytes(&k)?;
            rt(ctx, "user key", &k, &kb)?;
            if kb.len() != 4 + 8 * n + 8 + 4 * n + 8 * n * if *and { *n } else { 1 } {
                return Err(format!("user key of {} bytes", kb.len()));
            }
            let m = rand_pt::<G61>()?;
            let at: Vec<u32> = if *and { ls } else { vec![*n as u32 - 1] };
            let ct = enc::<G61>(&m, &at, &pk)?;
            judge(&dec::<G61>(&ct, &parse::<Uk<G61>>(&kb)?)?, true, &bytes(&m)?)
        });
    });
    ctx.par(&ns, |n| {
        ctx.case(format!("large objects of {n} slots"), || {
            toy::generic(ctx.seed);
            let all: Vec<u32> = (0..*n as u32).collect();
            let mut f = F::L(0);
            for a in 1..(*n as u32).min(64) {
                f = if a % 3 == 0 { F::O(Box::new(f), Box::new(F::L(a))) } else { F::A(Box::new(F::L(a)), Box::new(f)) };
            }
            let (mk, pk, dk) = master::<G61>(*n)?;
            let (bm, bp, bd) = (bytes(&mk)?, bytes(&pk)?, bytes(&dk)?);
            rt(ctx, "master private key", &mk, &bm)?;
            rt(ctx, "master public key", &pk, &bp)?;
            rt(ctx, "delegation key", &dk, &bd)?;
            if bm != toy_mk(&bm[4..4 + 8 * n].chunks(8).map(tv).collect::<Vec<_>>(), tv(&bm[4 + 8 * n..]), 8) {
                return Err("layout".into());
            }
            let k = keygen::<G61>(&f.node(), &mk)?;
            let kb = bytes(&k)?;
            rt(ctx, "user key", &k, &kb)?;
            let r = read_toy_uk(&kb, 8);
            if toy_uk(&r.d, &r.attrs, &r.m, 8) != kb {
                return Err("user key layout".into());
            }
            let m = rand_pt::<G61>()?;
            let ct = enc::<G61>(&m, &all, &parse::<Pk<G61>>(&bp)?)?;
            let cb = bytes(&ct)?;
            rt_ct(ctx, "ciphertext", &ct, &cb)?;
            judge(&dec::<G61>(&parse::<Ct<G61>>(&cb)?, &parse::<Uk<G61>>(&kb)?)?, true, &bytes(&m)?)
        });
    });
    // integers and lists
    ctx.case("integers and lists of integers", || {
        let edge = [0u32, 1, 255, 256, 65535, 65536, 1 << 24, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX];
        for a in edge {
            rt(ctx, "u32", &a, &a.to_be_bytes())?;
            rt(ctx, "i32", &(a as i32), &(a as i32).to_be_bytes())?;
            for b in edge {
                rt(ctx, "list", &vec![a, b], &list(&[a.to_be_bytes(), b.to_be_bytes()]))?;
                rt(ctx, "list", &vec![a as i32, b as i32, -1], &list(&[a.to_be_bytes(), b.to_be_bytes(), [255; 4]]))?;
            }
            rt(ctx, "list", &vec![a], &list(&[a.to_be_bytes()]))?;
        }
        for n in (1..300usize).chain([65535, 65536, 65537, 1 << 24, (1 << 24) + 1]) {
            let v: Vec<u32> = (0..n as u32).map(|i| i.wrapping_mul(0x9E3779B9)).collect();
            rt(ctx, "list", &v, &list(&v.iter().map(|x| x.to_be_bytes()).collect::<Vec<_>>()))?;
        }
        if bytes(&Vec::<u32>::new())? != [0u8; 0] || parse::<Vec<u32>>(&[])? != Vec::<u32>::new() || Vec::<u32>::new().len_bytes() != 0 {
            return Err("empty list".into());
        }
        Ok(())
    });
    let mut bf = vec![];
    for k in 1..=ctx.pick(3, 4) {
        bf.extend(trees(&(0..k as u32).collect::<Vec<_>>()));
    }
    ctx.par(&bf, |f| ctx.case(format!("BLS12-381 objects for {}", f.text()), || bls(ctx, f.size() + 1, f)));
    ctx.case("golden objects", || check_golden(ctx));
    ctx.case("fixtures of the repository", || check_repo_files(ctx));
    ctx.sample(|| "00000002 t0 t1 y followed by ff: same key".into());
}
