//! Calls of the C interface on guarded memory, and the reference outcome of each function.
use crate::{abe::*, hyb::*, pol::*};
use cosmian_abe_gpsw::interfaces::{
    abe_policy::{AccessPolicy, Policy},
    ffi::{error::*, generate_gpsw_keys::*, hybrid_gpsw_aes::*},
    hybrid_crypto::*,
};
use cosmian_crypto_base::{
    symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, SymmetricCrypto},
    KeyTrait,
};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet},
    os::raw::{c_char, c_int},
};

/// an argument of a C function
#[derive(Clone, Debug)]
pub enum Val {
    /// pointer (or null) and length
    In(Option<Vec<u8>>, i32),
    /// zero-terminated string (or null)
    Str(Option<Vec<u8>>),
    /// output buffer: (pointer given, capacity or null length pointer)
    Out(bool, Option<i32>),
    Int(i32),
    /// pointer to a handle to write, or null
    Handle(bool),
}
impl Val {
    pub fn of(b: &[u8]) -> Val {
        Val::In(Some(b.to_vec()), b.len() as i32)
    }
    pub fn st(b: impl AsRef<[u8]>) -> Val {
        Val::Str(Some(b.as_ref().to_vec()))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Fun {
    Master,
    UserKey,
    Rotate,
    EncNew,
    EncDel,
    EncUse,
    Enc,
    DecNew,
    DecDel,
    DecUse,
    Dec,
    Size,
    Overhead,
    BlockEnc,
    BlockDec,
    SetErr,
    GetErr,
}
pub use Fun::*;

const PAGE: usize = 4096;
const ROOM: usize = 16 * PAGE;
const CANARY: usize = 512;
fn fill(i: usize) -> u8 {
    (i.wrapping_mul(151) >> 3) as u8 ^ 0xa5
}

/// memory whose end is followed by an inaccessible page
struct Region {
    base: *mut u8, // start of the accessible part
    size: usize,
}
impl Region {
    fn new(n: usize) -> Region {
        let size = (n + CANARY).div_ceil(PAGE) * PAGE;
        unsafe {
            let p = libc::mmap(
                std::ptr::null_mut(),
                size + 2 * PAGE,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS,
                -1,
                0,
            );
            assert!(p != libc::MAP_FAILED, "mmap");
            let p = p.cast::<u8>();
            assert_eq!(libc::mprotect(p.cast(), PAGE, libc::PROT_NONE), 0);
            assert_eq!(libc::mprotect(p.add(PAGE + size).cast(), PAGE, libc::PROT_NONE), 0);
            Region { base: p.add(PAGE), size }
        }
    }
    fn at(&self, n: usize) -> *mut u8 {
        unsafe { self.base.add(self.size - n) }
    }
}
impl Drop for Region {
    fn drop(&mut self) {
        unsafe {
            libc::munmap(self.base.sub(PAGE).cast(), self.size + 2 * PAGE);
        }
    }
}
thread_local! {
    static POOL: RefCell<Vec<Region>> = const { RefCell::new(vec![]) };
}
/// a placed buffer of n bytes, ending at the guard page, preceded by canary bytes
struct Buf {
    r: Option<Region>,
    n: usize,
}
impl Buf {
    fn new(n: usize) -> Buf {
        let r = if n + CANARY <= ROOM {
            POOL.with(|p| p.borrow_mut().pop()).unwrap_or_else(|| Region::new(ROOM - CANARY))
        } else {
            Region::new(n)
        };
        let b = Buf { r: Some(r), n };
        unsafe {
            let p = b.ptr().sub(CANARY);
            for i in 0..CANARY + n {
                *p.add(i) = fill(i);
            }
        }
        b
    }
    fn with(v: &[u8]) -> Buf {
        let b = Buf::new(v.len());
        unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), b.ptr(), v.len()) };
        b
    }
    fn ptr(&self) -> *mut u8 {
        self.r.as_ref().unwrap().at(self.n)
    }
    fn get(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.ptr(), self.n) }
    }
    fn canary(&self) -> bool {
        unsafe { (0..CANARY).all(|i| *self.ptr().sub(CANARY).add(i) == fill(i)) }
    }
    /// first position from `from` on that no longer holds the fill pattern
    fn dirty(&self, from: usize) -> Option<usize> {
        self.get().iter().enumerate().skip(from).find(|(i, b)| **b != fill(CANARY + *i)).map(|x| x.0)
    }
}
impl Drop for Buf {
    fn drop(&mut self) {
        let r = self.r.take().unwrap();
        if r.size == Region::size_of_pool() {
            let _ = POOL.try_with(|p| p.borrow_mut().push(r));
        }
    }
}
impl Region {
    fn size_of_pool() -> usize {
        ROOM
    }
}

#[derive(Clone, Debug, Default)]
pub struct Outp {
    /// value of the length argument after the call
    pub len: Option<i32>,
    pub cap: i32,
    /// the first `len` bytes, when within the capacity
    pub data: Vec<u8>,
    /// first byte written at or after position `len`
    pub beyond: Option<usize>,
}
#[derive(Clone, Debug, Default)]
pub struct Res {
    pub code: i32,
    pub outs: Vec<Outp>,
    pub handle: i32,
}

/// Call with every buffer guarded; Err = memory misuse
pub fn call(f: Fun, vals: &[Val]) -> Result<Res, String> {
    enum Slot {
        In(Buf, Vec<u8>),
        Out(Option<Buf>, Option<usize>, i32),
        Hand(usize),
    }
    // lengths and handles live in one array with sentinels between
    let mut ints: Vec<c_int> = vec![0x5a5a5a5a; 4 * vals.len() + 4];
    let ip = ints.as_mut_ptr();
    let mut a: Vec<usize> = vec![];
    let mut slots = vec![];
    for (k, v) in vals.iter().enumerate() {
        let i = 4 * k + 2;
        match v {
            Val::In(None, l) => a.extend([0, *l as usize]),
            Val::In(Some(b), l) => {
                assert!(*l <= b.len() as i32);
                let buf = Buf::with(b);
                a.extend([buf.ptr() as usize, *l as usize]);
                slots.push(Slot::In(buf, b.clone()));
            }
            Val::Str(None) => a.push(0),
            Val::Str(Some(b)) => {
                let mut b = b.clone();
                assert!(!b.contains(&0));
                b.push(0);
                let buf = Buf::with(&b);
                a.push(buf.ptr() as usize);
                slots.push(Slot::In(buf, b));
            }
            Val::Out(p, c) => {
                let buf = p.then(|| Buf::new(c.unwrap_or(16).max(0) as usize));
                a.push(buf.as_ref().map_or(0, |b| b.ptr() as usize));
                let li = c.map(|c| {
                    unsafe { *ip.add(i) = c };
                    i
                });
                a.push(if li.is_some() { unsafe { ip.add(i) as usize } } else { 0 });
                slots.push(Slot::Out(buf, li, c.unwrap_or(0)));
            }
            Val::Int(n) => a.push(*n as usize),
            Val::Handle(false) => a.push(0),
            Val::Handle(true) => {
                a.push(unsafe { ip.add(i) as usize });
                slots.push(Slot::Hand(i));
            }
        }
    }
    let p = |i: usize| a[i] as *const c_char;
    let m = |i: usize| a[i] as *mut c_char;
    let l = |i: usize| a[i] as *mut c_int;
    let n = |i: usize| a[i] as c_int;
    let code = unsafe {
        match f {
            Master => h_generate_master_keys(m(0), l(1), p(2)),
            UserKey => h_generate_user_private_key(m(0), l(1), p(2), n(3), p(4), p(5)),
            Rotate => h_rotate_attributes(m(0), l(1), p(2), p(3)),
            EncNew => h_aes_create_encryption_cache(l(0), p(1), p(2), n(3)),
            EncDel => h_aes_destroy_encryption_cache(n(0)),
            EncUse => h_aes_encrypt_header_using_cache(m(0), l(1), m(2), l(3), n(4), p(5), p(6), n(7), p(8), n(9)),
            Enc => h_aes_encrypt_header(m(0), l(1), m(2), l(3), p(4), p(5), n(6), p(7), p(8), n(9), p(10), n(11)),
            DecNew => h_aes_create_decryption_cache(l(0), p(1), n(2)),
            DecDel => h_aes_destroy_decryption_cache(n(0)),
            DecUse => h_aes_decrypt_header_using_cache(m(0), l(1), m(2), l(3), m(4), l(5), p(6), n(7), n(8)),
            Dec => h_aes_decrypt_header(m(0), l(1), m(2), l(3), m(4), l(5), p(6), n(7), p(8), n(9)),
            Size => h_get_encrypted_header_size(p(0), n(1)),
            Overhead => h_aes_symmetric_encryption_overhead(),
            BlockEnc => h_aes_encrypt_block(m(0), l(1), p(2), n(3), p(4), n(5), n(6), p(7), n(8)),
            BlockDec => h_aes_decrypt_block(m(0), l(1), p(2), n(3), p(4), n(5), n(6), p(7), n(8)),
            SetErr => set_error(p(0)),
            GetErr => get_last_error(m(0), l(1)),
        }
    };
    let mut res = Res { code, ..Res::default() };
    let int = |i: usize| unsafe { std::ptr::read_volatile(ip.add(i)) };
    let mut own = BTreeSet::new();
    for s in slots {
        match s {
            Slot::In(b, v) => {
                if b.get() != v || !b.canary() {
                    return Err(format!("{f:?}: an input was modified"));
                }
            }
            Slot::Hand(i) => {
                own.insert(i);
                res.handle = int(i);
            }
            Slot::Out(buf, li, cap) => {
                let mut o = Outp { cap, ..Outp::default() };
                if let Some(i) = li {
                    own.insert(i);
                    o.len = Some(int(i));
                }
                if let Some(b) = &buf {
                    if !b.canary() {
                        return Err(format!("{f:?}: bytes before an output buffer were written"));
                    }
                    let want = o.len.unwrap_or(0);
                    if code == 0 && want >= 0 && want as usize <= b.n {
                        o.data = b.get()[..want as usize].to_vec();
                    }
                    o.beyond = b.dirty(if code == 0 && want >= 0 { want as usize } else { 0 });
                }
                res.outs.push(o);
            }
        }
    }
    for i in 0..4 * vals.len() + 4 {
        if !own.contains(&i) && int(i) != 0x5a5a5a5a {
            return Err(format!("{f:?}: memory next to a length argument was written"));
        }
    }
    Ok(res)
}

/// read and clear the last error of this thread
pub fn last_error() -> Result<Vec<u8>, String> {
    let r = call(GetErr, &[Val::Out(true, Some(3000))])?;
    if r.code != 0 {
        return Err(format!("get_last_error returns {}", r.code));
    }
    Ok(r.outs[0].data.clone())
}

pub const SK: usize = 32;

/// A master key pair, a policy and derived objects; everything the functions need.
pub struct World {
    pub spec: Spec,
    pub policy: Policy,
    pub pol: String,
    pub mk: Vec<u8>,
    pub pk: Vec<u8>,
    pub access: String,
    pub uk: Vec<u8>,
    /// same master, a key that cannot open the header
    pub uk_other: Vec<u8>,
    pub attrs: String,
    pub uid: Vec<u8>,
    pub ad: Vec<u8>,
    pub header: Vec<u8>,
    pub key: Vec<u8>,
    pub data: Vec<u8>,
    pub block: Vec<u8>,
    pub number: i32,
}
pub fn access_json(sp: &Spec, ap: &Ap) -> String {
    serde_json::to_string(&ap.real(sp)).unwrap()
}
pub fn attrs_json(sp: &Spec, at: &[At]) -> String {
    serde_json::to_string(&sp.attrs(at)).unwrap()
}
impl World {
    pub fn new(spec: Spec, ap: &Ap, other: &Ap, at: &[At], uid: &[u8], ad: &[u8], data: &[u8]) -> Result<World, String> {
        let policy = spec.policy()?;
        let (mk, pk, _) = e_master::<Bls>(&policy)?;
        let uk = e_key::<Bls>(&policy, &mk, &ap.real(&spec))?;
        let ot = e_key::<Bls>(&policy, &mk, &other.real(&spec))?;
        let meta = md(uid, (!ad.is_empty()).then_some(ad));
        let h = encrypt_hybrid_header::<Bls, Aes>(&policy, &pk, &spec.attrs(at), Some(meta)).map_err(s("encrypt_hybrid_header"))?;
        let number = 7;
        let block = encrypt_hybrid_block::<Bls, Aes, MAX_CLEAR_TEXT_SIZE>(&h.symmetric_key, uid, number as usize, data).map_err(s("encrypt_hybrid_block"))?;
        Ok(World {
            pol: policy.to_string(),
            mk: bytes(&mk)?,
            pk: bytes(&pk)?,
            access: access_json(&spec, ap),
            uk: bytes(&uk)?,
            uk_other: bytes(&ot)?,
            attrs: attrs_json(&spec, at),
            uid: uid.to_vec(),
            ad: ad.to_vec(),
            header: h.encrypted_header_bytes.clone(),
            key: key_of(&h),
            data: data.to_vec(),
            block,
            number,
            policy,
            spec,
        })
    }
    pub fn standard() -> Result<World, String> {
        let sp = Spec::new(&[("L", &["x", "y"], true), ("D", &["r", "h"], false)], 6);
        let ap = Ap::and(Ap::L((0, 1)), Ap::L((1, 0)));
        World::new(sp, &ap, &Ap::L((1, 1)), &[(0, 0), (1, 0)], b"uid\x00\xff", b"add\x00", b"some data")
    }
    /// correct arguments of each function, with capacity for every output
    pub fn good(&self, f: Fun, enc: i32, dec: i32) -> Vec<Val> {
        let out = |n: i32| Val::Out(true, Some(n));
        let (pol, attrs) = (Val::st(&self.pol), Val::st(&self.attrs));
        let (uid, ad) = (Val::of(&self.uid), Val::of(&self.ad));
        match f {
            Master => vec![out(8192), pol],
            UserKey => vec![out(8192), Val::of(&self.mk), Val::st(&self.access), pol],
            Rotate => vec![out(2000), Val::st(format!("[\"{}\"]", self.spec.attr((0, 0)))), pol],
            EncNew => vec![Val::Handle(true), pol, Val::of(&self.pk)],
            EncDel => vec![Val::Int(enc)],
            EncUse => vec![out(SK as i32), out(2000), Val::Int(enc), attrs, uid, ad],
            Enc => vec![out(SK as i32), out(2000), pol, Val::of(&self.pk), attrs, uid, ad],
            DecNew => vec![Val::Handle(true), Val::of(&self.uk)],
            DecDel => vec![Val::Int(dec)],
            DecUse => vec![out(SK as i32), out(64), out(64), Val::of(&self.header), Val::Int(dec)],
            Dec => vec![out(SK as i32), out(64), out(64), Val::of(&self.header), Val::of(&self.uk)],
            Size => vec![Val::of(&self.header)],
            Overhead => vec![],
            BlockEnc => vec![out(600), Val::of(&self.key), uid, Val::Int(self.number), Val::of(&self.data)],
            BlockDec => vec![out(600), Val::of(&self.key), uid, Val::Int(self.number), Val::of(&self.block)],
            SetErr => vec![Val::st("an error")],
            GetErr => vec![out(100)],
        }
    }
    pub fn uk_of(&self, b: &[u8]) -> Result<Uk<Bls>, String> {
        parse(b)
    }
    /// symmetric key and header opened by the core
    pub fn opens(&self, key: &[u8], header: &[u8], uid: &[u8], ad: &[u8], deep: bool) -> Result<(), String> {
        let c = decrypt_hybrid_header::<Bls, Aes>(&self.uk_of(&self.uk)?, header).map_err(|e| format!("the header produced is not decryptable: {e}"))?;
        if c.symmetric_key.to_bytes().to_vec() != key {
            return Err("the header encapsulates another key than the one returned".into());
        }
        if norm(&c.meta_data) != (uid.to_vec(), ad.to_vec()) {
            return Err(format!("the header carries {:?}", c.meta_data));
        }
        if deep && decrypt_hybrid_header::<Bls, Aes>(&self.uk_of(&self.uk_other)?, header).is_ok() {
            return Err("the header produced opens with a key that should not open it".into());
        }
        Ok(())
    }
    /// judge a successful call whose arguments are all correct (identical to `good` up to capacities and optional parts)
    pub fn verify(&self, f: Fun, vals: &[Val], r: &Res, deep: bool, key_of_handle: &mut dyn FnMut(i32)) -> Result<(), String> {
        if f == Size {
            let n = u32::from_be_bytes(self.header[..4].try_into().unwrap());
            return if r.code == n as i32 { Ok(()) } else { Err(format!("header size {} instead of {n}", r.code)) };
        }
        if f == Overhead {
            return if r.code == 28 { Ok(()) } else { Err(format!("overhead {}", r.code)) };
        }
        for (i, o) in r.outs.iter().enumerate() {
            if let (Some(l), true) = (o.len, f != GetErr) {
                if l > o.cap.max(0) {
                    return Err(format!("output {i}: success with length {l} beyond the capacity {}", o.cap));
                }
                if let Some(b) = o.beyond {
                    return Err(format!("output {i}: byte {b} written beyond the reported length {l}"));
                }
            }
        }
        let opt = |v: &Val| match v {
            Val::In(Some(b), l) if *l > 0 => b[..*l as usize].to_vec(),
            _ => vec![],
        };
        let d = |i: usize| r.outs[i].data.clone();
        match f {
            Master => {
                let b = d(0);
                if b.len() < 4 {
                    return Err("master keys too short".into());
                }
                let n = u32::from_be_bytes(b[..4].try_into().unwrap()) as usize;
                let rest = &b[4..];
                if n > rest.len() {
                    return Err("private key length beyond the output".into());
                }
                let mk: Mk<Bls> = parse(&rest[..n])?;
                let pk: Pk<Bls> = parse(&rest[n..])?;
                if bytes(&mk)? != rest[..n] || bytes(&pk)? != rest[n..] {
                    return Err("the master keys have trailing bytes".into());
                }
                if !deep {
                    return Ok(());
                }
                let w = self.with_master(mk, pk)?;
                w.opens(&w.key, &w.header, &w.uid, &w.ad, true)
            }
            UserKey => {
                let uk: Uk<Bls> = parse(&d(0))?;
                if bytes(&uk)? != d(0) {
                    return Err("the user key has trailing bytes".into());
                }
                let c = decrypt_hybrid_header::<Bls, Aes>(&uk, &self.header).map_err(|e| format!("the user key does not open: {e}"))?;
                if c.symmetric_key.to_bytes().to_vec() != self.key {
                    return Err("the user key opens another key".into());
                }
                if !deep {
                    return Ok(());
                }
                let pk: Pk<Bls> = parse(&self.pk)?;
                for at in at_subsets(&self.spec.all()) {
                    if at.is_empty() {
                        continue;
                    }
                    let ap: AccessPolicy = serde_json::from_str(&self.access).unwrap();
                    let want = eval_access(&self.spec, &ap, &|a| at.contains(&a));
                    let h = encrypt_hybrid_header::<Bls, Aes>(&self.policy, &pk, &self.spec.attrs(&at), None).map_err(s("encrypt"))?;
                    match decrypt_hybrid_header::<Bls, Aes>(&uk, &h.encrypted_header_bytes) {
                        Ok(c) if want && c.symmetric_key.to_bytes().to_vec() == key_of(&h) => {}
                        Err(_) if !want => {}
                        x => return Err(format!("the user key on {at:?}: expected {want}, got {:?}", x.is_ok())),
                    }
                }
                Ok(())
            }
            Rotate => {
                let Val::Str(Some(a)) = &vals[1] else { unreachable!() };
                let Val::Str(Some(p)) = &vals[2] else { unreachable!() };
                rotated(p, a, &d(0))
            }
            EncNew | DecNew => {
                key_of_handle(r.handle);
                Ok(())
            }
            EncUse | Enc => {
                let (i, j) = if f == Enc { (5, 6) } else { (4, 5) };
                self.opens(&d(0), &d(1), &opt(&vals[i]), &opt(&vals[j]), deep)
            }
            DecUse | Dec => {
                if d(0) != self.key {
                    return Err("another symmetric key is returned".into());
                }
                for (i, want) in [(1, &self.uid), (2, &self.ad)] {
                    if let Val::Out(true, Some(c)) = &vals[i] {
                        if *c > 0 && d(i) != *want {
                            return Err(format!("metadata {i}: {:?} instead of {want:?}", d(i)));
                        }
                    }
                }
                Ok(())
            }
            BlockEnc => {
                let n = int(&vals[3]) as usize;
                let k = <Aes as SymmetricCrypto>::Key::try_from_bytes(&self.key).map_err(s("key"))?;
                let c = decrypt_hybrid_block::<Bls, Aes, MAX_CLEAR_TEXT_SIZE>(&k, &opt(&vals[2]), n, &d(0)).map_err(|e| format!("the block is not decryptable: {e}"))?;
                if c != opt(&vals[4]) || d(0).len() != c.len() + 28 {
                    return Err("the block holds other data".into());
                }
                Ok(())
            }
            BlockDec => {
                if d(0) != self.data {
                    return Err("other data is returned".into());
                }
                Ok(())
            }
            EncDel | DecDel | SetErr | GetErr | Size | Overhead => Ok(()),
        }
    }
    /// the same world under another master key pair
    fn with_master(&self, mk: Mk<Bls>, pk: Pk<Bls>) -> Result<World, String> {
        let ap: AccessPolicy = serde_json::from_str(&self.access).unwrap();
        let uk = e_key::<Bls>(&self.policy, &mk, &ap)?;
        let ot = e_key::<Bls>(&self.policy, &mk, &Ap::L((1, 1)).real(&self.spec))?;
        let at: Vec<cosmian_abe_gpsw::interfaces::abe_policy::Attribute> = serde_json::from_str(&self.attrs).unwrap();
        let h = encrypt_hybrid_header::<Bls, Aes>(&self.policy, &pk, &at, Some(md(&self.uid, Some(&self.ad)))).map_err(s("encrypt_hybrid_header"))?;
        // every value the policy allows is covered
        let last = Ap::L((1, 1)).real(&self.spec);
        let mut p = self.policy.clone();
        while p.last_attribute_value < p.max_attribute_creations {
            p.rotate(&self.spec.attr((1, 1))).map_err(s("rotate"))?;
        }
        let k2 = e_key::<Bls>(&p, &mk, &last)?;
        let h2 = encrypt_hybrid_header::<Bls, Aes>(&p, &pk, &[self.spec.attr((1, 1))], None).map_err(s("encrypt"))?;
        let c2 = decrypt_hybrid_header::<Bls, Aes>(&k2, &h2.encrypted_header_bytes).map_err(s("decrypt after rotation"))?;
        if c2.symmetric_key.to_bytes().to_vec() != key_of(&h2) {
            return Err("after rotations another key is recovered".into());
        }
        Ok(World {
            spec: self.spec.clone(),
            policy: self.policy.clone(),
            pol: self.pol.clone(),
            mk: bytes(&mk)?,
            pk: bytes(&pk)?,
            access: self.access.clone(),
            uk: bytes(&uk)?,
            uk_other: bytes(&ot)?,
            attrs: self.attrs.clone(),
            uid: self.uid.clone(),
            ad: self.ad.clone(),
            key: key_of(&h),
            header: h.encrypted_header_bytes,
            data: self.data.clone(),
            block: self.block.clone(),
            number: self.number,
        })
    }
}
fn int(v: &Val) -> i32 {
    match v {
        Val::Int(i) => *i,
        _ => panic!("not an integer"),
    }
}
pub fn eval_access(sp: &Spec, ap: &AccessPolicy, has: &dyn Fn(At) -> bool) -> bool {
    match ap {
        AccessPolicy::Attr(a) => {
            let at = sp.all().into_iter().find(|x| sp.attr(*x) == *a).expect("attribute");
            sp.expand(at).into_iter().any(has)
        }
        AccessPolicy::And(a, b) => eval_access(sp, a, has) && eval_access(sp, b, has),
        AccessPolicy::Or(a, b) => eval_access(sp, a, has) || eval_access(sp, b, has),
        AccessPolicy::All => sp.all().into_iter().any(has),
    }
}
type Model = (u64, u64, BTreeMap<String, (Vec<String>, bool)>, BTreeMap<String, Vec<u64>>);
/// a policy read as plain JSON, values sorted
pub fn model(p: &[u8]) -> Result<Model, String> {
    let v: serde_json::Value = serde_json::from_slice(p).map_err(s("policy JSON"))?;
    let num = |k: &str| v[k].as_u64().ok_or(format!("no {k}"));
    let mut axes = BTreeMap::new();
    for (k, a) in v["axes"].as_object().ok_or("no axes")? {
        let names = a[0].as_array().ok_or("axis")?.iter().map(|x| x.as_str().unwrap_or("?").to_string()).collect();
        axes.insert(k.clone(), (names, a[1].as_bool().ok_or("axis")?));
    }
    let mut m = BTreeMap::new();
    for (k, a) in v["attribute_to_int"].as_object().ok_or("no attributes")? {
        let mut l: Vec<u64> = a.as_array().ok_or("values")?.iter().map(|x| x.as_u64().unwrap_or(u64::MAX)).collect();
        l.sort();
        m.insert(k.clone(), l);
    }
    Ok((num("last_attribute_value")?, num("max_attribute_creations")?, axes, m))
}
/// the policy `old` with the attributes (JSON list) rotated in order must be `new`
pub fn rotated(old: &[u8], attrs: &[u8], new: &[u8]) -> Result<(), String> {
    let mut m = model(old)?;
    let at: Vec<String> = serde_json::from_slice(attrs).map_err(s("attributes"))?;
    for a in at {
        m.0 += 1;
        m.3.get_mut(a.trim()).ok_or("unknown attribute accepted")?.push(m.0);
    }
    let n = model(new)?;
    if n != m {
        return Err(format!("rotation gives {n:?} instead of {m:?}"));
    }
    if m.0 > m.1 {
        return Err(format!("rotation beyond the maximum: {m:?}"));
    }
    Ok(())
}
