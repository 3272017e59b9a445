//! P13, P14, P15: hybrid headers and blocks
use crate::{abe::*, pol::*, sup::*, toy};
use cosmian_abe_gpsw::core::Engine;
use cosmian_abe_gpsw::interfaces::{
    abe_policy::{Attribute, Policy},
    hybrid_crypto::*,
};
use cosmian_crypto_base::{
    symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, nonce::NonceTrait, Metadata, SymmetricCrypto},
    typenum::{U12, U16, U32, U33, U5, U64},
    ArrayLength, CryptoCoreError, GenericArray, KeyTrait,
};
use cosmian_crypto_core::symmetric_crypto::{key::Key as SymK, SymKey};

/// the symmetric schemes: the one the crate is used with, and others of the same interface whose sizes all differ
pub trait Sy: SymmetricCrypto + 'static {
    const NAME: &'static str;
    const KEY: usize;
}
impl Sy for Aes {
    const NAME: &'static str = "";
    const KEY: usize = 32;
}
/// AES-GCM in disguise: keys of `KL`, nonces of `NL` and tags of `ML` (>= 16) bytes
pub struct Alt<KL, const NL: usize, const ML: usize>(std::marker::PhantomData<KL>);
fn derive<N: ArrayLength<u8>>(b: &[u8], info: &[u8]) -> GenericArray<u8, N> {
    let mut v = (b.len() as u32).to_be_bytes().to_vec();
    v.extend(b);
    v.resize(v.len().max(32), 0);
    cosmian_crypto_base::kdf::hkdf_256::<N>(&v, info).ok().unwrap()
}
fn inner(k: &[u8], n: &[u8]) -> (K, <Aes as SymmetricCrypto>::Nonce) {
    let k = <K as KeyTrait>::try_from_bytes(&derive::<U32>(k, b"key")).ok().unwrap();
    (k, NonceTrait::try_from_bytes(&derive::<U12>(n, b"nonce")).ok().unwrap())
}
impl<KL: Eq + ArrayLength<u8> + Send + Sync + 'static, const NL: usize, const ML: usize> SymmetricCrypto for Alt<KL, NL, ML> {
    const MAC_LENGTH: usize = ML;
    type Key = SymK<KL>;
    type Nonce = cosmian_crypto_base::symmetric_crypto::nonce::Nonce<NL>;
    fn description() -> String {
        format!("alt {} {NL} {ML}", KL::to_usize())
    }
    fn encrypt(key: &Self::Key, bytes: &[u8], nonce: &Self::Nonce, aad: Option<&[u8]>) -> Result<Vec<u8>, CryptoCoreError> {
        let (k, n) = inner(key.as_bytes(), nonce.as_slice());
        let mut v = Aes::encrypt(&k, bytes, &n, aad)?;
        let x = derive::<U64>(&v[v.len() - 16..], b"tag");
        v.extend(&x[..ML - 16]);
        Ok(v)
    }
    fn decrypt(key: &Self::Key, bytes: &[u8], nonce: &Self::Nonce, aad: Option<&[u8]>) -> Result<Vec<u8>, CryptoCoreError> {
        if bytes.len() < ML {
            return Err(CryptoCoreError::InvalidSize("no tag".into()));
        }
        let (k, n) = inner(key.as_bytes(), nonce.as_slice());
        let (b, t) = bytes.split_at(bytes.len() - (ML - 16));
        if t != &derive::<U64>(&b[b.len() - 16..], b"tag")[..ML - 16] {
            return Err(CryptoCoreError::InvalidSize("bad tag".into()));
        }
        Aes::decrypt(&k, b, &n, aad)
    }
}
pub type Alt1 = Alt<U16, 24, 20>;
pub type Alt2 = Alt<U64, 8, 48>;
pub type Alt3 = Alt<U33, 0, 16>;
pub type Alt4 = Alt<U5, 13, 33>;
impl Sy for Alt1 {
    const NAME: &'static str = "alt1 ";
    const KEY: usize = 16;
}
impl Sy for Alt2 {
    const NAME: &'static str = "alt2 ";
    const KEY: usize = 64;
}
impl Sy for Alt3 {
    const NAME: &'static str = "alt3 ";
    const KEY: usize = 33;
}
impl Sy for Alt4 {
    const NAME: &'static str = "alt4 ";
    const KEY: usize = 5;
}

pub fn key_of<Y: Sy>(h: &EncryptedHeader<Y>) -> Vec<u8> {
    h.symmetric_key.to_bytes().to_vec()
}
pub fn md(uid: &[u8], ad: Option<&[u8]>) -> Metadata {
    Metadata { uid: uid.to_vec(), additional_data: ad.map(<[u8]>::to_vec) }
}
/// no additional data and empty additional data are the same metadata
pub fn norm(m: &Metadata) -> (Vec<u8>, Vec<u8>) {
    (m.uid.clone(), m.additional_data.clone().unwrap_or_default())
}
fn seal<A: Sch, Y: Sy>(p: &Policy, pk: &Pk<A>, at: &[Attribute], m: Option<Metadata>) -> Result<EncryptedHeader<Y>, String> {
    encrypt_hybrid_header::<A, Y>(p, pk, at, m).map_err(s("encrypt_hybrid_header"))
}
fn open<A: Sch, Y: Sy>(k: &Uk<A>, h: &[u8]) -> Result<(Vec<u8>, Metadata), String> {
    decrypt_hybrid_header::<A, Y>(k, h).map(|c| (c.symmetric_key.to_bytes().to_vec(), c.meta_data)).map_err(|e| e.to_string())
}
fn pattern(n: usize, k: u8) -> Vec<u8> {
    (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(k)).collect()
}

// ---------------------------------------------------------------- P13

fn structured<Y: Sy>(h: EncryptedHeader<Y>, clear: Option<ClearTextHeader<Y>>) -> Result<(), String> {
    let (k, b) = (key_of(&h), h.encrypted_header_bytes.clone());
    let v = h.try_into_bytes().map_err(s("EncryptedHeader::try_into_bytes"))?;
    let h2 = EncryptedHeader::<Y>::try_from_bytes(&v).map_err(s("EncryptedHeader::try_from_bytes"))?;
    if key_of(&h2) != k || h2.encrypted_header_bytes != b {
        return Err("an encrypted header object differs after its byte form".into());
    }
    if h2.try_into_bytes().map_err(s("again"))? != v {
        return Err("an encrypted header object has two byte forms".into());
    }
    if let Some(c) = clear {
        let (k, m) = (c.symmetric_key.to_bytes().to_vec(), norm(&c.meta_data));
        let v = c.try_into_bytes().map_err(s("ClearTextHeader::try_into_bytes"))?;
        let c2 = ClearTextHeader::<Y>::try_from_bytes(&v).map_err(s("ClearTextHeader::try_from_bytes"))?;
        if c2.symmetric_key.to_bytes().to_vec() != k || norm(&c2.meta_data) != m {
            return Err("a clear header object differs after its byte form".into());
        }
    }
    Ok(())
}

fn access<A: Sch, Y: Sy>(ctx: &Ctx, sp: &Spec, k: usize, metas: &[Option<Metadata>], name: &str) {
    let mut menu: Vec<Ap> = sp.all().into_iter().map(Ap::L).collect();
    menu.push(Ap::All);
    let mut list = menu.clone();
    menu.pop();
    for n in 2..=k {
        list.extend(aps(&menu, n));
    }
    let list: Vec<Ap> = list.into_iter().filter(|a| !a.repeats(sp)).collect();
    ctx.par(&list, |ap| {
        ctx.case(format!("{}access {name} {}", Y::NAME, ap.text(sp)), || {
            toy::generic(5);
            let pol = sp.policy()?;
            let keys = e_master::<A>(&pol)?;
            let other = e_master::<A>(&pol)?;
            let uk = e_key::<A>(&pol, &keys.0, &ap.real(sp))?;
            let foreign = e_key::<A>(&pol, &other.0, &ap.real(sp))?;
            let (mut y, mut n) = (0, 0);
            for (i, at) in at_subsets(&sp.all()).into_iter().enumerate() {
                if at.is_empty() {
                    continue;
                }
                let want = ap.eval(sp, &|a| at.contains(&a));
                let mut ats = sp.attrs(&at);
                if i % 2 == 1 {
                    ats.reverse();
                }
                for m in metas {
                    let h = seal::<A, Y>(&pol, &keys.1, &ats, m.clone())?;
                    let b = h.encrypted_header_bytes.clone();
                    let d = open::<A, Y>(&uk, &b);
                    ctx.op(2);
                    ctx.state(1);
                    ctx.trace(1);
                    match (&d, want) {
                        (Ok((k, dm)), true) => {
                            if *k != key_of(&h) {
                                return Err(format!("{ats:?}: another symmetric key is recovered"));
                            }
                            let w = norm(&m.clone().unwrap_or_default());
                            if norm(dm) != w {
                                return Err(format!("{ats:?}: metadata {m:?} becomes {dm:?}"));
                            }
                            y += 1;
                        }
                        (Err(e), true) => return Err(format!("{ats:?}, metadata {m:?}: refused: {e}")),
                        (Ok(_), false) => return Err(format!("{ats:?}: an unauthorised user obtains a key")),
                        (Err(_), false) => n += 1,
                    }
                    if m.is_some() {
                        if let Ok((k, dm)) = open::<A, Y>(&foreign, &b) {
                            return Err(format!("{ats:?}: a key of another authority obtains key {} and {dm:?}", hx(&k)));
                        }
                        n += 1;
                    }
                    if i % 5 == 1 {
                        let c = decrypt_hybrid_header::<A, Y>(&uk, &b).ok();
                        structured(h, c)?;
                    }
                }
            }
            ctx.outcome("opened", y);
            ctx.outcome("refused", n);
            Ok(())
        })
    });
}

/// contents that a careless conversion alters; `all`: also every single byte
pub fn odd(all: bool) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = [
        &[0u8][..], &[9], &[10], &[32], &[34], &[92], &[0x7f], &[0x80], &[0xff], b"a\0", b"\0a", b"a\0b", b"a\0\0\0", b" a ", b"a\n", b"a\r\n",
        b"AbC", b"abc", b"ABC", "\u{e9}\u{1F600}".as_bytes(), "e\u{301}".as_bytes(), &[0xc3, 0x28], &[0xff, 0xfe], &[0xef, 0xbb, 0xbf, 65],
        b"{}", b"[]", b"null", b"\"\"", b"00ff", b"AAA=", &[0, 0, 0, 4], &[0; 4], &[0xff; 4], &[0, 0, 0, 1, 7], &[0; 8], &[0; 16], &[0xff; 16], &[0; 32],
    ]
    .iter()
    .map(|b| b.to_vec())
    .collect();
    if all {
        v.extend((0..=255u8).map(|b| vec![b]));
    }
    v.sort();
    v.dedup();
    v
}

/// symmetric keys of every length, asked of the engine: authorised users recover them, the others get an error
fn lengths(ctx: &Ctx) {
    let mut lens: Vec<usize> = (0..=ctx.pick(300, 1100)).collect();
    lens.extend([4096, 65535, 65536, 65537, 1 << 20]);
    ctx.par(&lens, |n| {
        ctx.case(format!("engine key of {n} bytes"), || length::<G61>(ctx, *n));
        if n % 16 == 0 && *n < 257 {
            ctx.case(format!("bls engine key of {n} bytes"), || length::<Bls>(ctx, *n));
        }
    });
}
fn length<A: Sch>(ctx: &Ctx, n: usize) -> Result<(), String> {
    toy::generic(9);
    let sp = Spec::new(&[("H", &["l", "m"], true), ("D", &["x", "y"], false)], 5);
    let pol = sp.policy()?;
    let keys = e_master::<A>(&pol)?;
    let en = Engine::<A>::new();
    let l = |a, b| Ap::L((a, b));
    let yes = e_key::<A>(&pol, &keys.0, &Ap::and(l(0, 1), l(1, 0)).real(&sp))?;
    let no = e_key::<A>(&pol, &keys.0, &Ap::and(l(0, 1), l(1, 1)).real(&sp))?;
    let ats = sp.attrs(&[(0, 0), (1, 0)]);
    let (k, c) = en.generate_symmetric_key(&pol, &keys.1, &ats, n).map_err(s("generate_symmetric_key"))?;
    if k.len() != n {
        return Err(format!("a key of {} bytes", k.len()));
    }
    if en.decrypt_symmetric_key(&yes, &c, n).map_err(s("decrypt_symmetric_key"))? != k {
        return Err("another key is recovered".into());
    }
    if en.decrypt_symmetric_key(&no, &c, n).is_ok() {
        return Err("an unauthorised user obtains a key".into());
    }
    let (k2, c2) = en.generate_symmetric_key(&pol, &keys.1, &ats, n).map_err(s("generate_symmetric_key"))?;
    if en.decrypt_symmetric_key(&yes, &c2, n).map_err(s("decrypt_symmetric_key"))? != k2 {
        return Err("another second key is recovered".into());
    }
    if n >= 16 && k == k2 {
        return Err("two keys are equal".into());
    }
    ctx.op(6);
    ctx.state(2);
    ctx.trace(1);
    Ok(())
}

fn metadata<Y: Sy>(ctx: &Ctx, metas: &[Option<Metadata>], few: bool) {
    // every metadata shape
    let mut lens: Vec<usize> = (0..=if few { 18 } else { ctx.pick(40, 130) }).collect();
    lens.extend([255, 256, 257, 4095, 4096, 65535, 65536]);
    ctx.par(&lens, |n| {
        ctx.case(format!("{}metadata uid of {n} bytes", Y::NAME), || {
            toy::generic(6);
            let sp = Spec::new(&[("D", &["x", "y"], false)], 2);
            let pol = sp.policy()?;
            let keys = e_master::<G61>(&pol)?;
            let uk = e_key::<G61>(&pol, &keys.0, &Ap::L((0, 1)).real(&sp))?;
            for l in &lens {
                if *n > 300 && *l > 300 {
                    continue;
                }
                let uids = [pattern(*n, 1), vec![0; *n], vec![0xff; *n]];
                for (i, u) in uids.iter().enumerate() {
                    if i > 0 && (*n > 8 || *l > 8) {
                        continue;
                    }
                    let ad = pattern(*l, 9);
                    let m = md(u, if *l == 0 && i == 0 { None } else { Some(&ad) });
                    let h = seal::<G61, Y>(&pol, &keys.1, &[sp.attr((0, 1))], Some(m.clone()))?;
                    let (k, dm) = open::<G61, Y>(&uk, &h.encrypted_header_bytes)?;
                    if k != key_of(&h) || norm(&dm) != norm(&m) {
                        return Err(format!("uid of {n} bytes and additional data of {l}: not recovered"));
                    }
                    let c = decrypt_hybrid_header::<G61, Y>(&uk, &h.encrypted_header_bytes).ok();
                    structured(h, c)?;
                    ctx.state(1);
                    ctx.op(2);
                    ctx.trace(1);
                }
            }
            Ok(())
        })
    });
    // every kind of content
    let odds = odd(!few);
    ctx.par(&odds, |c| {
        ctx.case(format!("{}metadata {}", Y::NAME, hx(c)), || {
            toy::generic(6);
            let sp = Spec::new(&[("D", &["x", "y"], false)], 2);
            let pol = sp.policy()?;
            let keys = e_master::<G61>(&pol)?;
            let uk = e_key::<G61>(&pol, &keys.0, &Ap::L((0, 1)).real(&sp))?;
            let small = [vec![], b"x".to_vec(), vec![0], c.clone()];
            for o in if c.len() == 1 { &small[..] } else { &odds[..] } {
                for m in [md(c, Some(o)), md(o, Some(c)), md(c, None)] {
                    let h = seal::<G61, Y>(&pol, &keys.1, &[sp.attr((0, 1))], Some(m.clone()))?;
                    let (k, dm) = open::<G61, Y>(&uk, &h.encrypted_header_bytes)?;
                    if k != key_of(&h) || norm(&dm) != norm(&m) {
                        return Err(format!("{m:?} comes back as {dm:?}"));
                    }
                    ctx.state(1);
                    ctx.op(2);
                }
            }
            Ok(())
        })
    });
    // rotation between encryption and decryption, and unknown attributes
    ctx.case(format!("{}unknown attributes", Y::NAME), || {
        toy::generic(7);
        let sp = Spec::new(&[("D", &["x", "y"], false)], 4);
        let pol = sp.policy()?;
        let keys = e_master::<G61>(&pol)?;
        for a in [Attribute::new("D", "z"), Attribute::new("E", "x"), Attribute::new("", ""), Attribute::new("d", "x")] {
            for other in [None, Some(sp.attr((0, 0)))] {
                for first in [true, false] {
                    let mut l: Vec<Attribute> = other.iter().cloned().collect();
                    l.insert(if first { 0 } else { l.len() }, a.clone());
                    for m in metas {
                        if encrypt_hybrid_header::<G61, Y>(&pol, &keys.1, &l, m.clone()).is_ok() {
                            return Err(format!("encryption for unknown attributes {l:?} succeeds"));
                        }
                        ctx.op(1);
                        ctx.state(1);
                    }
                }
            }
        }
        Ok(())
    });
}

pub fn p13(ctx: &Ctx) {
    crate::cif::headers(ctx);
    let metas = [
        None,
        Some(md(b"", None)),
        Some(md(b"u", None)),
        Some(md(b"", Some(b"a"))),
        Some(md(b"uid", Some(b""))),
        Some(md(&[0; 32], Some(&[0, 0, 0, 0, 1]))),
    ];
    let d = ctx.pick(0, 1);
    let sp1 = Spec::new(&[("H", &["a", "b", "c"], true), ("D", &["x", "y"], false)], 6);
    access::<G61, Aes>(ctx, &sp1, 2 + d, &metas, "1");
    let sp2 = Spec::new(&[("D", &["x", "y", "z"], false), ("H", &["l", "m"], true)], 9);
    access::<G61, Aes>(ctx, &sp2, 2 + d, &metas[..4], "2");
    let sp3 = Spec::new(&[("H", &["l", "m"], true), ("D", &["x"], false)], 3);
    access::<Bls, Aes>(ctx, &sp3, 1 + d, &[metas[0].clone(), metas[5].clone()], "bls");
    metadata::<Aes>(ctx, &metas, false);
    // other symmetric schemes
    access::<G61, Alt1>(ctx, &sp3, 1 + d, &metas, "1");
    access::<G61, Alt2>(ctx, &sp3, 1 + d, &metas, "2");
    access::<G61, Alt3>(ctx, &sp3, 1 + d, &metas, "3");
    access::<G61, Alt4>(ctx, &sp3, 1 + d, &metas, "4");
    metadata::<Alt1>(ctx, &metas, ctx.quick());
    metadata::<Alt2>(ctx, &metas, ctx.quick());
    metadata::<Alt3>(ctx, &metas, ctx.quick());
    metadata::<Alt4>(ctx, &metas, ctx.quick());
    lengths(ctx);
    // headers for many attributes: encapsulated keys on both sides of 2^8, 2^16 (and 2^17) bytes
    let mut many: Vec<(usize, bool)> = [2, 5, 20, 21, 255, 256, 257, 700, 3000, 5440, 5500].map(|n| (n, false)).to_vec();
    many.extend([1254, 1255].map(|n| (n, true)));
    if !ctx.quick() {
        many.extend((2..40).chain(5430..5475).map(|n| (n, false)));
        many.extend([1253, 1256, 2514, 2515, 2516].map(|n| (n, true)));
    }
    ctx.par(&many, |(n, bls)| {
        ctx.case(format!("{}header for {n} attributes", if *bls { "bls " } else { "" }), || if *bls { crowd::<Bls>(ctx, *n) } else { crowd::<G61>(ctx, *n) })
    });
}
fn crowd<A: Sch>(ctx: &Ctx, n: usize) -> Result<(), String> {
    toy::generic(10);
    let sp = Spec { axes: vec![("N".into(), (0..=n).map(|i| i.to_string()).collect(), false)], max: n as u32 + 1 };
    let pol = sp.policy()?;
    let keys = e_master::<A>(&pol)?;
    let at: Vec<At> = (0..n).map(|i| (0, i)).collect();
    let metas = [None, Some(md(b"id", Some(b"data"))), Some(md(&pattern(70000, 3), None))];
    for m in metas {
        let h = seal::<A, Aes>(&pol, &keys.1, &sp.attrs(&at), m.clone())?;
        for i in [0, 1, n / 2, n - 1, n] {
            let uk = e_key::<A>(&pol, &keys.0, &Ap::L((0, i)).real(&sp))?;
            match (open::<A, Aes>(&uk, &h.encrypted_header_bytes), i < n) {
                (Ok((k, dm)), true) if k == key_of(&h) && norm(&dm) == norm(&m.clone().unwrap_or_default()) => {}
                (Ok(_), true) => return Err(format!("attribute {i}: another key or other metadata")),
                (Err(e), true) => return Err(format!("attribute {i}: refused: {e}")),
                (Ok(_), false) => return Err("an unauthorised user obtains a key".into()),
                (Err(_), false) => {}
            }
            ctx.op(1);
        }
        structured(h, None)?;
        ctx.state(1);
        ctx.trace(1);
    }
    Ok(())
}

// ---------------------------------------------------------------- P14

struct Fixture<A: Sch> {
    key: Vec<u8>,
    meta: Metadata,
    header: Vec<u8>,
    uk: Uk<A>,
    /// header of the same policy, other key and metadata
    other: Vec<u8>,
    other_key: Vec<u8>,
    other_meta: Metadata,
}
fn fixture<A: Sch, Y: Sy>(ap: &Ap, at: &[At], meta: &Metadata, ometa: &Metadata) -> Result<Fixture<A>, String> {
    toy::generic(8);
    let sp = Spec::new(&[("H", &["l", "m"], true), ("D", &["x", "y"], false)], 5);
    let pol = sp.policy()?;
    let keys = e_master::<A>(&pol)?;
    let uk = e_key::<A>(&pol, &keys.0, &ap.real(&sp))?;
    let h = seal::<A, Y>(&pol, &keys.1, &sp.attrs(at), Some(meta.clone()))?;
    let o = seal::<A, Y>(&pol, &keys.1, &sp.attrs(at), Some(ometa.clone()))?;
    Ok(Fixture {
        key: key_of(&h),
        meta: meta.clone(),
        header: h.encrypted_header_bytes.clone(),
        uk,
        other_key: key_of(&o),
        other: o.encrypted_header_bytes,
        other_meta: ometa.clone(),
    })
}
/// `original_key`: the alteration is one the key must survive (or be refused)
fn verdict<A: Sch, Y: Sy>(f: &Fixture<A>, h: &[u8], what: &str, one_field: bool) -> Result<&'static str, String> {
    match guarded(|| open::<A, Y>(&f.uk, h)).map_err(|p| format!("{what}: crash: {p}"))? {
        Err(_) => Ok("refused"),
        Ok((k, m)) => {
            let m = norm(&m);
            if one_field && k != f.key {
                return Err(format!("{what}: yields another symmetric key"));
            }
            if k == f.key {
                if m == norm(&f.meta) {
                    return Ok("original key and metadata");
                }
                if m == norm(&Metadata::default()) {
                    return Ok("original key, no metadata");
                }
                return Err(format!("{what}: yields metadata {m:?}"));
            }
            if k == f.other_key && m == norm(&f.other_meta) {
                return Ok("the other header");
            }
            // with two or more fields altered a key without metadata is not excluded, other metadata is
            if m != norm(&Metadata::default()) {
                return Err(format!("{what}: yields metadata {m:?}"));
            }
            Ok("another key, no metadata")
        }
    }
}
/// lengths and places of the fields of a header
fn fields<Y: Sy>(h: &[u8]) -> Vec<(&'static str, std::ops::Range<usize>)> {
    let n = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
    let l = <Y::Nonce as NonceTrait>::LENGTH;
    vec![
        ("key length", 0..4),
        ("encapsulated key", 4..4 + n),
        ("nonce", 4 + n..4 + n + l),
        ("metadata length", 4 + n + l..8 + n + l),
        ("metadata", 8 + n + l..h.len()),
    ]
}

fn alterations<A: Sch, Y: Sy>(ctx: &Ctx, name: &str, f: &Fixture<A>, every: bool, splice: bool)
where
    Uk<A>: Sync,
{
    let h = &f.header;
    let flds = fields::<Y>(h);
    let tally = |ctx: &Ctx, r: Result<&'static str, String>| -> Result<(), String> {
        ctx.outcome(r?, 1);
        ctx.state(1);
        ctx.op(1);
        ctx.trace(1);
        Ok(())
    };
    // intact
    ctx.case(format!("{name} intact"), || {
        tally(ctx, verdict::<A, Y>(f, h, "intact header", true).and_then(|r| {
            if r == "original key and metadata" { Ok(r) } else { Err(format!("intact header: {r}")) }
        }))
    });
    let places: Vec<usize> = (0..=h.len()).collect();
    ctx.par(&places, |i| {
        let i = *i;
        ctx.case(format!("{name} truncate {i}"), || {
            if i == h.len() {
                return Ok(());
            }
            tally(ctx, verdict::<A, Y>(f, &h[..i], &format!("truncated to {i} bytes"), true))
        });
        ctx.case(format!("{name} byte {i}"), || {
            if i == h.len() {
                return Ok(());
            }
            for v in 0..=255u8 {
                if v == h[i] || !(every || [h[i] ^ 1, h[i] ^ 0x80, h[i] ^ 0x20, 0, 0xff, h[i].wrapping_add(1)].contains(&v)) {
                    continue;
                }
                let mut b = h.clone();
                b[i] = v;
                tally(ctx, verdict::<A, Y>(f, &b, &format!("byte {i} set to {v}"), true))?;
            }
            Ok(())
        });
        // bytes removed or inserted change several fields at once: no crash, no foreign metadata
        ctx.case(format!("{name} shift {i}"), || {
            if i < h.len() {
                let mut b = h.clone();
                b.remove(i);
                tally(ctx, verdict::<A, Y>(f, &b, &format!("byte {i} removed"), false))?;
            }
            for v in [0, 0xff] {
                let mut b = h.clone();
                b.insert(i, v);
                tally(ctx, verdict::<A, Y>(f, &b, &format!("byte {v} inserted at {i}"), i == h.len()))?;
            }
            Ok(())
        });
    });
    // field lengths
    let edges: Vec<u32> = {
        let n = h.len() as u32;
        let mut v: Vec<u32> = (0..=n + 8).collect();
        for k in [7, 8, 15, 16, 23, 24, 30, 31] {
            for d in [-1i64, 0, 1] {
                v.push(((1i64 << k) + d) as u32);
            }
        }
        v.extend([u32::MAX, u32::MAX - 3, u32::MAX - 4, u32::MAX - 15, u32::MAX - n, u32::MAX - n + 1]);
        v
    };
    for (fi, at) in [(0usize, flds[0].1.start), (3, flds[3].1.start)] {
        ctx.par(&edges, |e| {
            ctx.case(format!("{name} {} = {e}", flds[fi].0), || {
                let mut b = h.clone();
                b[at..at + 4].copy_from_slice(&e.to_be_bytes());
                tally(ctx, verdict::<A, Y>(f, &b, &format!("{} set to {e}", flds[fi].0), true))
            })
        });
    }
    // whole fields replaced: by zeros, ones, reversed, and by the other header's
    ctx.case(format!("{name} fields"), || {
        let of = fields::<Y>(&f.other);
        for (i, (n, r)) in flds.iter().enumerate() {
            for k in 0..4 {
                let mut b = h.clone();
                match k {
                    0 => b[r.clone()].fill(0),
                    1 => b[r.clone()].fill(0xff),
                    2 => b[r.clone()].reverse(),
                    _ => b = cat(&[&h[..r.start], &f.other[of[i].1.clone()], &h[r.end..]]),
                }
                if b == *h {
                    continue;
                }
                tally(ctx, verdict::<A, Y>(f, &b, &format!("{n} replaced ({k})"), true))?;
            }
        }
        Ok(())
    });
    // metadata made by somebody without the key, under the length announced or under another
    ctx.case(format!("{name} forged metadata"), || {
        let (lr, mr) = (flds[3].1.clone(), flds[4].1.clone());
        let plain = |m: &Metadata| m.try_to_bytes().map_err(s("metadata"));
        let mut forged: Vec<Vec<u8>> = vec![plain(&f.meta)?, plain(&f.other_meta)?, plain(&md(b"", None))?, plain(&md(b"forged", Some(b"data")))?, vec![], vec![0; 16]];
        // sealed with keys anybody knows, and with the bytes of the header itself
        for key in [vec![0; Y::KEY], vec![0xff; Y::KEY], f.other_key.clone(), h[4..4 + Y::KEY].to_vec()] {
            let k = <Y::Key as KeyTrait>::try_from_bytes(&key).map_err(s("key"))?;
            let n = <Y as SymmetricCrypto>::Nonce::try_from_bytes(&h[flds[2].1.clone()]).map_err(s("nonce"))?;
            forged.push(Y::encrypt(&k, &plain(&f.other_meta)?, &n, None).map_err(s("sealing"))?);
        }
        let len = mr.len();
        for b in forged.clone() {
            // as long as the field announced
            for fill in [0, b'!'] {
                let mut x = b.clone();
                x.resize(len, fill);
                let mut y = vec![fill; len.saturating_sub(b.len())];
                y.extend(&b[..b.len().min(len)]);
                for z in [x, y] {
                    tally(ctx, verdict::<A, Y>(f, &cat(&[&h[..mr.start], &z]), "metadata forged under their length", true))?;
                }
            }
            tally(ctx, verdict::<A, Y>(f, &cat(&[&h[..lr.start], &be(b.len()), &b]), "metadata forged", false))?;
            tally(ctx, verdict::<A, Y>(f, &cat(&[&h[..lr.start], &be(b.len()), &b, &h[mr.clone()]]), "metadata forged before the original", false))?;
        }
        // a tag cut short, over altered data
        for t in 0..=Y::MAC_LENGTH.min(len) {
            for i in 0..len - t {
                let mut b = h[mr.start..mr.end - t].to_vec();
                b[i] ^= 1;
                tally(ctx, verdict::<A, Y>(f, &cat(&[&h[..lr.start], &be(b.len()), &b]), "tag cut and metadata altered", false))?;
            }
        }
        Ok(())
    });
    // extensions
    ctx.case(format!("{name} extend"), || {
        for t in [vec![0], vec![0xff; 40], h.clone(), f.other.clone(), vec![0; 1000], h[flds[2].1.start..].to_vec()] {
            tally(ctx, verdict::<A, Y>(f, &cat(&[h, &t]), &format!("{} bytes appended", t.len()), true))?;
        }
        Ok(())
    });
    if splice {
        ctx.par(&places, |i| {
            ctx.case(format!("{name} splice {i}"), || {
                for j in 0..=f.other.len() {
                    let b = cat(&[&h[..*i], &f.other[j..]]);
                    if b == *h || b == f.other {
                        continue;
                    }
                    tally(ctx, verdict::<A, Y>(f, &b, &format!("{i} bytes then the other header from {j}"), false))?;
                    let b = cat(&[&f.other[..j], &h[*i..]]);
                    if b != *h && b != f.other {
                        tally(ctx, verdict::<A, Y>(f, &b, &format!("{j} bytes of the other header then this one from {i}"), false))?;
                    }
                }
                Ok(())
            })
        });
    }
}

fn headers<Y: Sy>(ctx: &Ctx, few: bool) {
    let l = |a, b| Ap::L((a, b));
    let ap1 = Ap::and(l(0, 1), l(1, 0));
    let ap2 = Ap::or(Ap::and(l(0, 0), l(1, 0)), l(1, 1));
    let at1: Vec<At> = vec![(0, 0), (1, 0)];
    let at2: Vec<At> = vec![(0, 0), (0, 1), (1, 1)];
    let metas = [
        md(b"i", None),
        md(b"identifier", Some(b"data")),
        md(b"", Some(b"x")),
        md(&[0; 20], Some(&[0; 9])),
    ];
    let om = md(b"other!", Some(b"DATA"));
    for (n, m) in metas.iter().enumerate().skip(few as usize).take(if few { 1 } else { 9 }) {
        for (k, (ap, at)) in [(&ap1, &at1), (&ap2, &at2), (&ap1, &at2[..2].to_vec())].into_iter().enumerate().take(if few { 2 } else { 3 }) {
            // the third pairing is refused by the policy: use the wildcard instead
            let ap = if k == 2 { &Ap::All } else { ap };
            let mut f = None;
            ctx.case(format!("{}toy {n}.{k} fixture", Y::NAME), || {
                f = Some(fixture::<G61, Y>(ap, at, m, &om)?);
                Ok(())
            });
            if ctx.only.is_some() && f.is_none() {
                f = fixture::<G61, Y>(ap, at, m, &om).ok();
            }
            if let Some(f) = f {
                alterations::<G61, Y>(ctx, &format!("{}toy {n}.{k}", Y::NAME), &f, true, !ctx.quick() || (n == 1 && k < 2));
            }
        }
    }
    // structured headers: truncations and length edges never crash, and give back what they carry
    ctx.case(format!("{}structured headers", Y::NAME), || {
        let f = fixture::<G61, Y>(&ap1, &at1, &metas[1], &om)?;
        let full = cat(&[&be(Y::KEY), &f.key, &f.header]);
        for i in 0..=full.len() {
            match guarded(|| EncryptedHeader::<Y>::try_from_bytes(&full[..i])).map_err(|p| format!("truncated to {i}: {p}"))? {
                Ok(h) => {
                    if i < 4 + Y::KEY || key_of(&h) != f.key || h.encrypted_header_bytes != full[4 + Y::KEY..i] {
                        return Err(format!("an encrypted header object of {i} bytes is misread"));
                    }
                }
                Err(_) if i == full.len() => return Err("a structured header is refused".into()),
                Err(_) => {}
            }
            let _ = guarded(|| ClearTextHeader::<Y>::try_from_bytes(&full[..i])).map_err(|p| format!("truncated to {i}: {p}"))?;
            ctx.state(2);
            ctx.op(2);
        }
        for e in (0..100u32).chain([255, 256, 65535, 65536, 1 << 31, u32::MAX - 4, u32::MAX - 3, u32::MAX]) {
            let mut b = full.clone();
            b[..4].copy_from_slice(&e.to_be_bytes());
            let r = guarded(|| EncryptedHeader::<Y>::try_from_bytes(&b)).map_err(|p| format!("key length {e}: {p}"))?;
            if r.is_ok() != (e as usize == Y::KEY) {
                return Err(format!("structured header with a key of {e} bytes: accepted {}", r.is_ok()));
            }
            let r = guarded(|| ClearTextHeader::<Y>::try_from_bytes(&b)).map_err(|p| format!("key length {e}: {p}"))?;
            if r.is_ok() && e as usize != Y::KEY {
                return Err(format!("clear header with a key of {e} bytes is accepted"));
            }
            ctx.state(2);
            ctx.op(2);
        }
        Ok(())
    });
}

pub fn p14(ctx: &Ctx) {
    crate::cif::altered(ctx);
    headers::<Aes>(ctx, false);
    headers::<Alt1>(ctx, ctx.quick());
    headers::<Alt2>(ctx, ctx.quick());
    headers::<Alt3>(ctx, ctx.quick());
    headers::<Alt4>(ctx, ctx.quick());
    let l = |a, b| Ap::L((a, b));
    let ap1 = Ap::and(l(0, 1), l(1, 0));
    let ap2 = Ap::or(Ap::and(l(0, 0), l(1, 0)), l(1, 1));
    let at1: Vec<At> = vec![(0, 0), (1, 0)];
    let at2: Vec<At> = vec![(0, 0), (0, 1), (1, 1)];
    let metas = [
        md(b"i", None),
        md(b"identifier", Some(b"data")),
        md(b"", Some(b"x")),
        md(&[0; 20], Some(&[0; 9])),
    ];
    let om = md(b"other!", Some(b"DATA"));
    // the real group
    let n = ctx.pick(1, 3);
    for (k, m) in metas.iter().take(n).enumerate() {
        let mut f = None;
        let (ap, at) = [(&ap1, &at1), (&Ap::All, &at1), (&ap2, &at2)][k];
        ctx.case(format!("bls {k} fixture"), || {
            f = Some(fixture::<Bls, Aes>(ap, at, m, &om)?);
            Ok(())
        });
        if ctx.only.is_some() && f.is_none() {
            f = fixture::<Bls, Aes>(ap, at, m, &om).ok();
        }
        if let Some(f) = f {
            alterations::<Bls, Aes>(ctx, &format!("bls {k}"), &f, false, false);
        }
    }
}

// ---------------------------------------------------------------- P15

type K = <Aes as SymmetricCrypto>::Key;
fn k<Y: Sy>(n: u8) -> Y::Key {
    <Y::Key as KeyTrait>::try_from_bytes(&pattern(Y::KEY, n)).ok().unwrap()
}
fn bseal<Y: Sy, const M: usize>(key: &Y::Key, uid: &[u8], n: usize, d: &[u8]) -> Result<Vec<u8>, String> {
    encrypt_hybrid_block::<Bls, Y, M>(key, uid, n, d).map_err(|e| e.to_string())
}
fn bopen<Y: Sy, const M: usize>(key: &Y::Key, uid: &[u8], n: usize, d: &[u8]) -> Result<Vec<u8>, String> {
    guarded(|| decrypt_hybrid_block::<Bls, Y, M>(key, uid, n, d).map_err(|e| e.to_string()))
        .unwrap_or_else(|p| Err(format!("PANIC {p}")))
}
fn refused(r: Result<Vec<u8>, String>, what: impl Fn() -> String) -> Result<(), String> {
    match r {
        Ok(d) => Err(format!("{}: accepted, gives {}", what(), hx(&d))),
        Err(e) if e.starts_with("PANIC") => Err(format!("{}: {e}", what())),
        Err(_) => Ok(()),
    }
}
fn uids() -> Vec<Vec<u8>> {
    vec![
        vec![], vec![0], vec![0, 0], vec![1], b"a".to_vec(), b"ab".to_vec(), b"ba".to_vec(), vec![0; 8], vec![0; 9],
        vec![1, 0, 0, 0, 0, 0, 0, 0], vec![0xff; 8], vec![0; 16], pattern(16, 1), pattern(32, 1), {
            let mut v = pattern(32, 1);
            v[31] ^= 1;
            v
        },
        b"a\0".to_vec(), b"\0a".to_vec(), b"a\0b".to_vec(), b"A".to_vec(), b" a".to_vec(), b"a ".to_vec(), b"a\n".to_vec(), vec![0x80], vec![0xff],
        pattern(33, 1), pattern(64, 1), pattern(300, 1), {
            let mut v = pattern(300, 1);
            v[299] ^= 0x80;
            v
        },
    ]
}
fn numbers() -> Vec<usize> {
    let mut v = vec![0, 1, 2, 255, 256, 257, 65535, 65536];
    for k in [24, 31, 32, 40, 48, 56, 63] {
        v.extend([1usize << k, (1 << k) - 1, (1 << k) + 1]);
    }
    v.extend([usize::MAX, usize::MAX - 1]);
    v
}

fn sizes<Y: Sy, const M: usize>(ctx: &Ctx) {
    let over = symmetric_encryption_overhead::<Y, M>();
    let lens: Vec<usize> = if M <= 300 { (0..=M + 3).collect() } else { vec![0, 1, 2, 15, 16, 17, M - 17, M - 16, M - 1, M, M + 1, M + 2, 2 * M] };
    ctx.par(&lens, |l| {
        ctx.case(format!("{}sizes max={M} len={l}", Y::NAME), || {
            for (i, d) in [pattern(*l, 3), vec![0; *l], vec![0xff; *l]].iter().enumerate() {
                let r = guarded(|| bseal::<Y, M>(&k::<Y>(1), b"uid", 7, d)).map_err(|p| format!("crash: {p}"))?;
                ctx.state(1);
                ctx.op(2);
                ctx.trace(1);
                if *l == 0 || *l > M {
                    refused(r, || format!("encrypting {l} bytes"))?;
                    continue;
                }
                let b = r.map_err(|e| format!("encrypting {l} bytes is refused: {e}"))?;
                if b.len() != l + over {
                    return Err(format!("{l} bytes give a block of {} with an overhead of {over}", b.len()));
                }
                let o = bopen::<Y, M>(&k::<Y>(1), b"uid", 7, &b).map_err(|e| format!("decrypting {l} bytes is refused: {e}"))?;
                if o != *d {
                    return Err(format!("{l} bytes (pattern {i}) decrypt to {}", hx(&o)));
                }
                // truncations and extensions of every size
                if M <= 300 {
                    for t in 0..b.len() {
                        refused(bopen::<Y, M>(&k::<Y>(1), b"uid", 7, &b[..t]), || format!("block of {} truncated to {t}", b.len()))?;
                    }
                    for t in 1..=over + 2 {
                        refused(bopen::<Y, M>(&k::<Y>(1), b"uid", 7, &cat(&[&b, &vec![0; t]])), || format!("block of {} extended by {t}", b.len()))?;
                    }
                    ctx.state((b.len() + over + 2) as u64);
                }
                // the clear text appears nowhere
                if *l >= 8 && b.windows(*l).any(|w| w == &d[..]) {
                    return Err("the block contains its clear text".into());
                }
            }
            Ok(())
        })
    });
    // oversized and tiny encrypted input
    ctx.case(format!("{}encrypted sizes max={M}", Y::NAME), || {
        for l in (0..=over + 1).chain([M + over - 1, M + over, M + over + 1, M + over + 2, 2 * (M + over)]) {
            for v in [0, 0xff] {
                refused(bopen::<Y, M>(&k::<Y>(1), b"uid", 7, &vec![v; l]), || format!("{l} constant bytes"))?;
                ctx.state(1);
                ctx.op(1);
            }
        }
        Ok(())
    });
}

fn blocks<Y: Sy>(ctx: &Ctx, few: bool) {
    // every pair of (identifier, number)
    let mut ids: Vec<(Vec<u8>, usize)> = vec![];
    for u in uids() {
        for n in numbers() {
            ids.push((u.clone(), n));
        }
    }
    // a boundary between identifier and number that moves
    for n in [0usize, 1, 0x0100, 0x6100_0000_0000_0000] {
        for u in [b"a".to_vec(), b"aa".to_vec()] {
            for x in [0, 8] {
                let mut v = u.clone();
                v.extend(vec![0; x]);
                ids.push((v, n));
            }
        }
    }
    ids.sort();
    ids.dedup();
    ctx.par(&ids, |(u, n)| {
        ctx.case(format!("{}identity uid={} number={n}", Y::NAME, hx(u)), || {
            let d = pattern(20, 5);
            let b = bseal::<Y, 64>(&k::<Y>(1), u, *n, &d)?;
            for (u2, n2) in &ids {
                let r = bopen::<Y, 64>(&k::<Y>(1), u2, *n2, &b);
                ctx.state(1);
                ctx.op(1);
                ctx.trace(1);
                if u == u2 && n == n2 {
                    if r? != d {
                        return Err("data differ".into());
                    }
                } else {
                    refused(r, || format!("opened with uid {} number {n2}", hx(u2)))?;
                }
            }
            Ok(())
        })
    });
    // every single-bit flip of blocks, identifiers, numbers and keys; every byte value at every place
    let lens: Vec<usize> = if few { vec![1, 16, 40] } else { ctx.pick(vec![1, 2, 15, 16, 17, 40], (1..=64).collect()) };
    ctx.par(&lens, |l| {
        ctx.case(format!("{}alterations len={l}", Y::NAME), || {
            let d = pattern(*l, 5);
            let u = pattern(9, 2);
            let b = bseal::<Y, 64>(&k::<Y>(1), &u, 258, &d)?;
            for i in 0..b.len() {
                for v in 0..=255u8 {
                    if v == b[i] {
                        continue;
                    }
                    let mut c = b.clone();
                    c[i] = v;
                    refused(bopen::<Y, 64>(&k::<Y>(1), &u, 258, &c), || format!("byte {i} set to {v}"))?;
                }
                let mut c = b.clone();
                c.remove(i);
                refused(bopen::<Y, 64>(&k::<Y>(1), &u, 258, &c), || format!("byte {i} removed"))?;
                c.push(b[i]);
                if c != b {
                    refused(bopen::<Y, 64>(&k::<Y>(1), &u, 258, &c), || format!("byte {i} moved to the end"))?;
                }
                for j in 0..i {
                    if b[i] != b[j] {
                        let mut c = b.clone();
                        c.swap(i, j);
                        refused(bopen::<Y, 64>(&k::<Y>(1), &u, 258, &c), || format!("bytes {i} and {j} swapped"))?;
                    }
                }
                ctx.state(257 + i as u64);
                ctx.op(257 + i as u64);
            }
            for i in 0..72 {
                let mut c = u.clone();
                c[i / 8] ^= 1 << (i % 8);
                refused(bopen::<Y, 64>(&k::<Y>(1), &c, 258, &b), || format!("uid bit {i} flipped"))?;
            }
            for i in 0..64 {
                refused(bopen::<Y, 64>(&k::<Y>(1), &u, 258 ^ 1 << i, &b), || format!("number bit {i} flipped"))?;
            }
            for i in 0..8 * Y::KEY {
                let mut c = pattern(Y::KEY, 1);
                c[i / 8] ^= 1 << (i % 8);
                let key = <Y::Key as KeyTrait>::try_from_bytes(&c).map_err(|e| e.to_string())?;
                refused(bopen::<Y, 64>(&key, &u, 258, &b), || format!("key bit {i} flipped"))?;
            }
            // splices of two blocks of one key
            let b2 = bseal::<Y, 64>(&k::<Y>(1), &u, 258, &pattern(*l, 77))?;
            for i in 1..b.len() {
                let c = cat(&[&b[..i], &b2[i..]]);
                if c == b || c == b2 {
                    continue; // the blocks agree there by chance
                }
                refused(bopen::<Y, 64>(&k::<Y>(1), &u, 258, &c), || format!("spliced at {i}"))?;
            }
            ctx.trace(1);
            Ok(())
        })
    });
}

pub fn p15(ctx: &Ctx) {
    crate::cif::blocks(ctx);
    sizes::<Aes, 1>(ctx);
    sizes::<Aes, 2>(ctx);
    sizes::<Aes, 16>(ctx);
    sizes::<Aes, 33>(ctx);
    if !ctx.quick() {
        sizes::<Aes, 300>(ctx);
        sizes::<Aes, 1048576>(ctx);
    }
    sizes::<Aes, 4096>(ctx);
    blocks::<Aes>(ctx, false);
    other::<Alt1>(ctx);
    other::<Alt2>(ctx);
    other::<Alt3>(ctx);
    other::<Alt4>(ctx);
}
fn other<Y: Sy>(ctx: &Ctx) {
    sizes::<Y, 1>(ctx);
    sizes::<Y, 33>(ctx);
    sizes::<Y, 4096>(ctx);
    blocks::<Y>(ctx, ctx.quick());
}
