//! One façade over the Rust, C, Python and WebAssembly interfaces.
use crate::{abe::*, ffi, hyb::*, ipc, ipc::Lang, pol::*};
use cosmian_abe_gpsw::interfaces::{
    abe_policy::{AccessPolicy, Attribute, Policy},
    hybrid_crypto::*,
};
use cosmian_crypto_base::{
    symmetric_crypto::{aes_256_gcm_pure::Aes256GcmCrypto as Aes, SymmetricCrypto},
    KeyTrait,
};
use ffi::Val;
use serde_json::{json, Value};

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord, Hash)]
pub enum Via {
    Rust,
    C,
    CCache,
    Py,
    Js,
    JsCache,
}
pub use Via::*;
/// outer error: a crash or a malformed result; inner error: the call was refused
pub type R<T> = Result<Result<T, String>, String>;
type Wrapped = Vec<u8>;

/// use an inner value, pass a refusal on
macro_rules! get {
    ($e:expr) => {
        match $e? {
            Ok(v) => v,
            Err(e) => return Ok(Err(e)),
        }
    };
}

/// a refusal of a call that has to succeed
pub fn must<T>(r: R<T>, what: impl std::fmt::Display) -> Result<T, String> {
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => Err(format!("{what} is refused: {e}")),
        Err(e) => Err(format!("{what}: {e}")),
    }
}

pub fn py(f: &str, a: &[Value]) -> R<Value> {
    Ok(ipc::call(Lang::Py, f, a)?.map_err(|(k, m)| format!("{k} {m}")))
}
pub fn js(f: &str, a: &[Value]) -> R<Value> {
    Ok(ipc::call(Lang::Js, &format!("webassembly_{f}"), a)?.map_err(|(_, m)| m))
}
fn c(f: ffi::Fun, a: &[Val]) -> R<ffi::Res> {
    let r = ffi::call(f, a)?;
    if r.code == 0 {
        return Ok(Ok(r));
    }
    let e = ffi::last_error()?;
    if e.is_empty() {
        return Err(format!("{f:?} fails without a message"));
    }
    Ok(Err(String::from_utf8_lossy(&e).into_owned()))
}
/// u32 length | first | rest
fn split_len(v: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    if v.len() < 4 {
        return Err("a length-prefixed result of less than 4 bytes".into());
    }
    let n = u32::from_be_bytes(v[..4].try_into().unwrap()) as usize;
    if n > v.len() - 4 {
        return Err("a length prefix beyond the result".into());
    }
    Ok((v[4..4 + n].to_vec(), v[4 + n..].to_vec()))
}
/// identifier and additional data
pub fn read_meta(v: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    if v.is_empty() {
        return Ok((vec![], vec![]));
    }
    split_len(v).map_err(|e| format!("metadata: {e}"))
}
pub fn meta_json(uid: &[u8], ad: Option<&[u8]>) -> Vec<u8> {
    serde_json::to_vec(&json!({"uid": uid, "additional_data": ad})).unwrap()
}
pub fn axes_json(sp: &Spec) -> Value {
    sp.axes.iter().map(|(n, a, h)| json!({"name": n, "attributes": a, "hierarchical": h})).collect()
}
thread_local! {
    /// capacity of the output buffers given to C functions
    static ROOM: std::cell::Cell<i32> = const { std::cell::Cell::new(20000) };
}
pub fn with_room<T>(n: i32, go: impl FnOnce() -> T) -> T {
    let old = ROOM.replace(n);
    let r = go();
    ROOM.set(old);
    r
}
fn out() -> Val {
    Val::Out(true, Some(ROOM.get()))
}
pub type Opened = (Vec<u8>, (Vec<u8>, Vec<u8>));

/// how JSON arguments are written
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Form {
    Plain,
    /// characters beyond ASCII, quotes and slashes as escape sequences
    Escaped,
    Pretty,
}
thread_local! {
    static FORM: std::cell::Cell<Form> = const { std::cell::Cell::new(Form::Plain) };
}
pub fn with_form<T>(f: Form, go: impl FnOnce() -> T) -> T {
    struct Back(Form);
    impl Drop for Back {
        fn drop(&mut self) {
            FORM.with(|x| x.set(self.0));
        }
    }
    let _back = Back(FORM.with(|x| x.replace(f)));
    go()
}
/// a JSON argument in the present form
fn jf(v: impl AsRef<[u8]>) -> Vec<u8> {
    let v = v.as_ref();
    match (FORM.with(std::cell::Cell::get), std::str::from_utf8(v)) {
        (Form::Escaped, Ok(t)) => {
            let mut o = String::new();
            for ch in t.chars() {
                match ch {
                    '/' => o.push_str("\\/"),
                    c if c.is_ascii() => o.push(c),
                    c => {
                        for u in c.encode_utf16(&mut [0; 2]) {
                            o.push_str(&format!("\\u{u:04x}"));
                        }
                    }
                }
            }
            o.into_bytes()
        }
        (Form::Pretty, Ok(t)) => match serde_json::from_str::<Value>(t) {
            Ok(v) => format!("\n {}\t\n", serde_json::to_string_pretty(&v).unwrap()).into_bytes(),
            Err(_) => v.to_vec(),
        },
        _ => v.to_vec(),
    }
}

impl Via {
    pub fn policy(self, sp: &Spec) -> R<Vec<u8>> {
        match self {
            Py => {
                let v = get!(py("generate_policy", &[ipc::b(&jf(axes_json(sp).to_string())), ipc::i(sp.max)]));
                Ok(Ok(ipc::out_b(&v)?))
            }
            _ => Ok(sp.policy().map(|p| p.to_string().into_bytes())),
        }
    }
    pub fn rotate(self, policy: &[u8], attrs: &[Attribute]) -> R<Vec<u8>> {
        let a = serde_json::to_vec(attrs).unwrap();
        match self {
            Rust => {
                let mut p: Policy = get!(Ok::<_, String>(read_policy(policy)));
                for a in attrs {
                    if let Err(e) = p.rotate(a) {
                        return Ok(Err(e.to_string()));
                    }
                }
                Ok(Ok(p.to_string().into_bytes()))
            }
            C | CCache => Ok(Ok(get!(c(ffi::Rotate, &[out(), Val::st(jf(&a)), Val::st(jf(policy))])).outs[0].data.clone())),
            Py => Ok(Ok(ipc::out_b(&get!(py("rotate_attributes", &[ipc::b(&jf(&a)), ipc::b(&jf(policy))])))?)),
            Js | JsCache => Ok(Ok(ipc::out_s(&get!(js("rotate_attributes", &[ipc::b(&jf(&a)), ipc::b(&jf(policy))])))?.into_bytes())),
        }
    }
    /// private key, public key, delegation key where there is one
    pub fn master(self, policy: &[u8]) -> R<(Vec<u8>, Vec<u8>, Option<Vec<u8>>)> {
        match self {
            Rust => {
                let p: Policy = get!(Ok::<_, String>(read_policy(policy)));
                let (m, p, d) = match e_master::<Bls>(&p) {
                    Ok(k) => k,
                    Err(e) => return Ok(Err(e)),
                };
                Ok(Ok((bytes(&m)?, bytes(&p)?, Some(bytes(&d)?))))
            }
            C | CCache => {
                let (m, p) = split_len(&get!(c(ffi::Master, &[out(), Val::st(jf(policy))])).outs[0].data)?;
                Ok(Ok((m, p, None)))
            }
            Py => {
                let v = get!(py("generate_master_keys", &[ipc::b(&jf(policy))]));
                Ok(Ok((ipc::out_b(&v[0])?, ipc::out_b(&v[1])?, Some(ipc::out_b(&v[2])?))))
            }
            Js | JsCache => {
                let (m, p) = split_len(&ipc::out_b(&get!(js("generate_master_keys", &[ipc::b(&jf(policy))])))?)?;
                Ok(Ok((m, p, None)))
            }
        }
    }
    pub fn user_key(self, policy: &[u8], mk: &[u8], ap: &AccessPolicy, text: &str) -> R<Wrapped> {
        match self {
            Rust => {
                let p: Policy = get!(Ok::<_, String>(read_policy(policy)));
                let m: Mk<Bls> = match parse(mk) {
                    Ok(k) => k,
                    Err(e) => return Ok(Err(e)),
                };
                Ok(match e_key::<Bls>(&p, &m, ap) {
                    Ok(k) => Ok(bytes(&k)?),
                    Err(e) => Err(e),
                })
            }
            C | CCache => {
                let a = serde_json::to_string(ap).unwrap();
                Ok(Ok(get!(c(ffi::UserKey, &[out(), Val::of(mk), Val::st(jf(&a)), Val::st(jf(policy))])).outs[0].data.clone()))
            }
            Py | Js | JsCache => self.user_key_text(policy, mk, text),
        }
    }
    pub fn user_key_text(self, policy: &[u8], mk: &[u8], text: &str) -> R<Wrapped> {
        let a = [ipc::b(mk), ipc::t(text), ipc::b(&jf(policy))];
        let v = if self == Py { get!(py("generate_user_private_key", &a)) } else { get!(js("generate_user_private_key", &a)) };
        Ok(Ok(ipc::out_b(&v)?))
    }
    pub fn delegate(self, dk: &[u8], uk: &[u8], text: &str, policy: &[u8]) -> R<Wrapped> {
        assert_eq!(self, Py);
        Ok(Ok(ipc::out_b(&get!(py("generate_delegated_key", &[ipc::b(dk), ipc::b(uk), ipc::t(text), ipc::b(&jf(policy))])))?))
    }
    pub fn has_ad(self) -> bool {
        !matches!(self, Js | JsCache)
    }
    /// symmetric key and header
    pub fn seal(self, policy: &[u8], pk: &[u8], attrs: &[Attribute], uid: &[u8], ad: &[u8]) -> R<(Vec<u8>, Vec<u8>)> {
        let a = serde_json::to_vec(attrs).unwrap();
        match self {
            Rust => {
                let p: Policy = get!(Ok::<_, String>(read_policy(policy)));
                let k: Pk<Bls> = match parse(pk) {
                    Ok(k) => k,
                    Err(e) => return Ok(Err(e)),
                };
                Ok(encrypt_hybrid_header::<Bls, Aes>(&p, &k, attrs, Some(md(uid, (!ad.is_empty()).then_some(ad))))
                    .map(|h| (key_of(&h), h.encrypted_header_bytes))
                    .map_err(|e| e.to_string()))
            }
            C => {
                let r = get!(c(ffi::Enc, &[out(), out(), Val::st(jf(policy)), Val::of(pk), Val::st(jf(&a)), Val::of(uid), Val::of(ad)]));
                Ok(Ok((r.outs[0].data.clone(), r.outs[1].data.clone())))
            }
            CCache => {
                let h = get!(c(ffi::EncNew, &[Val::Handle(true), Val::st(jf(policy)), Val::of(pk)])).handle;
                let r = c(ffi::EncUse, &[out(), out(), Val::Int(h), Val::st(jf(&a)), Val::of(uid), Val::of(ad)]);
                must(c(ffi::EncDel, &[Val::Int(h)]), "destroying an encryption cache")?;
                let r = get!(r);
                Ok(Ok((r.outs[0].data.clone(), r.outs[1].data.clone())))
            }
            Py => {
                let m = meta_json(uid, (!ad.is_empty()).then_some(ad));
                let v = get!(py("encrypt_hybrid_header", &[ipc::b(&jf(&m)), ipc::b(&jf(policy)), ipc::b(&jf(&a)), ipc::b(pk)]));
                Ok(Ok(ipc::out_2b(&v)?))
            }
            Js | JsCache => {
                assert!(ad.is_empty());
                let t = attrs.iter().map(ToString::to_string).collect::<Vec<_>>().join(", ");
                let r = if self == Js {
                    js("encrypt_hybrid_header", &[ipc::b(&jf(policy)), ipc::b(pk), ipc::t(&t), ipc::b(uid)])
                } else {
                    let h = get!(js("create_encryption_cache", &[ipc::b(&jf(policy)), ipc::b(pk)]));
                    let r = js("encrypt_hybrid_header_using_cache", &[h.clone(), ipc::t(&t), ipc::b(uid)]);
                    must(js("destroy_encryption_cache", &[h]), "destroying an encryption cache")?;
                    r
                };
                Ok(Ok(split_len(&ipc::out_b(&get!(r))?)?))
            }
        }
    }
    /// symmetric key, identifier and additional data
    pub fn open(self, uk: &[u8], header: &[u8]) -> R<Opened> {
        match self {
            Rust => {
                let k: Uk<Bls> = match parse(uk) {
                    Ok(k) => k,
                    Err(e) => return Ok(Err(e)),
                };
                Ok(decrypt_hybrid_header::<Bls, Aes>(&k, header)
                    .map(|c| (c.symmetric_key.to_bytes().to_vec(), norm(&c.meta_data)))
                    .map_err(|e| e.to_string()))
            }
            C | CCache => {
                let r = if self == C {
                    get!(c(ffi::Dec, &[out(), out(), out(), Val::of(header), Val::of(uk)]))
                } else {
                    let h = get!(c(ffi::DecNew, &[Val::Handle(true), Val::of(uk)])).handle;
                    let r = c(ffi::DecUse, &[out(), out(), out(), Val::of(header), Val::Int(h)]);
                    must(c(ffi::DecDel, &[Val::Int(h)]), "destroying a decryption cache")?;
                    get!(r)
                };
                let d = |i: usize| r.outs[i].data.clone();
                Ok(Ok((d(0), (d(1), d(2)))))
            }
            Py => {
                let v = get!(py("decrypt_hybrid_header", &[ipc::b(uk), ipc::b(header)]));
                let (k, m) = ipc::out_2b(&v)?;
                Ok(Ok((k, read_meta(&m)?)))
            }
            Js | JsCache => {
                let r = if self == Js {
                    js("decrypt_hybrid_header", &[ipc::b(uk), ipc::b(header)])
                } else {
                    let h = get!(js("create_decryption_cache", &[ipc::b(uk)]));
                    let r = js("decrypt_hybrid_header_using_cache", &[h.clone(), ipc::b(header)]);
                    must(js("destroy_decryption_cache", &[h]), "destroying a decryption cache")?;
                    r
                };
                let (k, m) = split_len(&ipc::out_b(&get!(r))?)?;
                Ok(Ok((k, read_meta(&m)?)))
            }
        }
    }
    pub fn block(self, enc: bool, key: &[u8], uid: &[u8], number: u64, data: &[u8]) -> R<Vec<u8>> {
        match self {
            Rust => {
                let k = <Aes as SymmetricCrypto>::Key::try_from_bytes(key).map_err(s("key"))?;
                let f = if enc { encrypt_hybrid_block::<Bls, Aes, { 1 << 30 }> } else { decrypt_hybrid_block::<Bls, Aes, { 1 << 30 }> };
                Ok(f(&k, uid, number as usize, data).map_err(|e| e.to_string()))
            }
            C | CCache => {
                let f = if enc { ffi::BlockEnc } else { ffi::BlockDec };
                let o = Val::Out(true, Some(data.len() as i32 + 100));
                Ok(Ok(get!(c(f, &[o, Val::of(key), Val::of(uid), Val::Int(number as i32), Val::of(data)])).outs[0].data.clone()))
            }
            Py => {
                let f = if enc { "encrypt_hybrid_block" } else { "decrypt_hybrid_block" };
                Ok(Ok(ipc::out_b(&get!(py(f, &[ipc::b(key), ipc::b(uid), ipc::i(number), ipc::b(data)])))?))
            }
            Js | JsCache => {
                let f = if enc { "encrypt_hybrid_block" } else { "decrypt_hybrid_block" };
                let u = if uid.is_empty() { ipc::none() } else { ipc::b(uid) };
                let n = if number == 0 { ipc::none() } else { ipc::i(number) };
                Ok(Ok(ipc::out_b(&get!(js(f, &[ipc::b(key), u, n, ipc::b(data)])))?))
            }
        }
    }
}

/// the span program part of a serialised user key
pub fn msp_part(uk: &[u8]) -> Option<&[u8]> {
    let n = u32::from_be_bytes(uk.get(..4)?.try_into().ok()?) as usize;
    uk.get(4 + 96 * n..)
}
/// a header opened, or refused, as expected
pub fn judge_open(r: R<Opened>, want: bool, key: &[u8], uid: &[u8], ad: &[u8]) -> Result<(), String> {
    match (r?, want) {
        (Ok((k, m)), true) => {
            if k != key {
                return Err("another symmetric key is returned".into());
            }
            if m != (uid.to_vec(), ad.to_vec()) {
                return Err(format!("metadata {m:?} instead of {:?}", (uid, ad)));
            }
            Ok(())
        }
        (Err(e), true) => Err(format!("an authorised key is refused: {e}")),
        (Ok((k, _)), false) => Err(format!("an unauthorised key obtains {} key", if k == key { "the" } else { "a" })),
        (Err(_), false) => Ok(()),
    }
}
/// whichever way its strings are escaped
pub fn read_policy(v: &[u8]) -> Result<Policy, String> {
    use serde::Deserialize;
    let v: Value = serde_json::from_slice(v).map_err(|e| e.to_string())?;
    Policy::deserialize(&v).map_err(|e| e.to_string())
}
