//! P16: bad arguments of the C interface
use crate::{abe::*, ffi::*, pol::*, sup::*};
use std::sync::OnceLock;

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Tag {
    /// the call must work as far as this argument goes
    Good,
    /// accepted or refused
    Either,
    /// the call must fail
    Bad,
}
use Tag::*;
#[derive(Clone)]
struct Item(String, Val, Tag, bool); // the last: a content, not a null pointer or a length
fn it(n: impl Into<String>, v: Val, t: Tag) -> Item {
    Item(n.into(), v, t, false)
}

struct Env {
    w: World,
    /// another master of the same policy, and of a smaller and a larger one
    other: World,
    small: World,
    enc: i32,
    dec: i32,
    enc_gone: i32,
    dec_gone: i32,
}
pub const FUNS: [Fun; 14] = [Master, UserKey, Rotate, EncNew, EncDel, EncUse, Enc, DecNew, DecDel, DecUse, Dec, Size, BlockEnc, BlockDec];

fn env() -> Result<Env, String> {
    let w = World::standard()?;
    let other = World::standard()?;
    let sp = Spec::new(&[("L", &["x", "y"], true), ("D", &["r", "h"], false)], 4);
    let small = World::new(sp, &Ap::L((0, 1)), &Ap::L((1, 1)), &[(0, 0)], b"v", b"", b"d")?;
    let make = |f: Fun| -> Result<i32, String> {
        let r = call(f, &w.good(f, 0, 0))?;
        if r.code != 0 {
            return Err(format!("{f:?} with correct arguments: {}", String::from_utf8_lossy(&last_error()?)));
        }
        Ok(r.handle)
    };
    // unused handles first, so that any defect of handle assignment shows
    let (enc_gone, dec_gone) = (make(EncNew)?, make(DecNew)?);
    for (f, h) in [(EncDel, enc_gone), (DecDel, dec_gone)] {
        call(f, &[Val::Int(h)])?;
    }
    let (enc, dec) = (make(EncNew)?, make(DecNew)?);
    Ok(Env { enc, dec, enc_gone, dec_gone, w, other, small })
}
static ENV: OnceLock<Result<Env, String>> = OnceLock::new();
fn get() -> Result<&'static Env, String> {
    ENV.get_or_init(env).as_ref().map_err(Clone::clone)
}

/// one call with correct arguments
fn correct(e: &Env, f: Fun, deep: bool) -> Result<(), String> {
    let mut a = e.w.good(f, e.enc, e.dec);
    let mut made = None;
    if f == EncDel || f == DecDel {
        let g = if f == EncDel { EncNew } else { DecNew };
        let r = call(g, &e.w.good(g, 0, 0))?;
        if r.code != 0 {
            return Err(format!("{g:?} with correct arguments fails: {}", String::from_utf8_lossy(&last_error()?)));
        }
        a = vec![Val::Int(r.handle)];
    }
    let r = call(f, &a)?;
    if r.code != 0 && f != Size && f != Overhead {
        return Err(format!("{f:?} with correct arguments fails: {}", String::from_utf8_lossy(&last_error()?)));
    }
    e.w.verify(f, &a, &r, deep, &mut |h| made = Some(h)).map_err(|m| format!("{f:?} with correct arguments: {m}"))?;
    if let Some(h) = made {
        let (u, d) = if f == EncNew { (EncUse, EncDel) } else { (DecUse, DecDel) };
        let a = e.w.good(u, h, h);
        let r = call(u, &a)?;
        if r.code != 0 {
            return Err(format!("{u:?} on a new cache fails: {}", String::from_utf8_lossy(&last_error()?)));
        }
        e.w.verify(u, &a, &r, deep, &mut |_| ())?;
        if call(d, &[Val::Int(h)])?.code != 0 {
            return Err(format!("{d:?} fails"));
        }
    }
    Ok(())
}

/// call with these items; returns whether it succeeded
fn judge(e: &Env, f: Fun, items: &[&Item]) -> Result<bool, String> {
    let tag = items.iter().map(|i| i.2).max().unwrap_or(Good);
    let vals: Vec<Val> = items.iter().map(|i| i.1.clone()).collect();
    let what = || format!("{f:?}({})", items.iter().map(|i| i.0.as_str()).collect::<Vec<_>>().join(", "));
    last_error()?;
    let r = call(f, &vals).map_err(|m| format!("{}: {m}", what()))?;
    let err = last_error()?;
    if f == Size {
        // the size itself is returned: only argument errors give a status, together with a message
        let failed = !err.is_empty();
        if tag == Bad && (!failed || r.code == 0) {
            return Err(format!("{}: no error (returns {})", what(), r.code));
        }
        if tag == Good && failed {
            return Err(format!("{}: refused", what()));
        }
        return Ok(!failed);
    }
    if r.code != 0 {
        if err.is_empty() {
            return Err(format!("{}: fails without an error message", what()));
        }
        if tag == Good {
            return Err(format!("{}: refused: {}", what(), String::from_utf8_lossy(&err)));
        }
        if !last_error()?.is_empty() {
            return Err(format!("{}: the error is reported twice", what()));
        }
        return Ok(false);
    }
    if tag == Bad {
        return Err(format!("{}: succeeds", what()));
    }
    for (i, o) in r.outs.iter().enumerate() {
        if let Some(l) = o.len {
            if l > o.cap.max(0) || (l < 0 && o.cap >= 0) {
                return Err(format!("{}: output {i} reports {l} bytes in {}", what(), o.cap));
            }
        }
    }
    if tag == Good {
        e.w.verify(f, &vals, &r, false, &mut |_| ()).map_err(|m| format!("{}: {m}", what()))?;
    }
    if f == EncNew || f == DecNew {
        // the cache made is usable without a crash and is destroyed
        let (u, d) = if f == EncNew { (EncUse, EncDel) } else { (DecUse, DecDel) };
        let u = call(u, &e.w.good(u, r.handle, r.handle))?;
        if u.code != 0 && last_error()?.is_empty() {
            return Err(format!("{}: use of the cache fails without a message", what()));
        }
        if u.code != 0 && tag == Good {
            return Err(format!("{}: the cache is not usable", what()));
        }
        call(d, &[Val::Int(r.handle)])?;
    }
    Ok(true)
}

// ---------------------------------------------------------------- menus

fn out_shapes(good: &Val, required: bool) -> Vec<Item> {
    let Val::Out(_, Some(c)) = good else { unreachable!() };
    let (z, n) = if required { (Bad, Bad) } else { (Good, Either) };
    vec![
        it("ok", good.clone(), Good),
        it("null/len", Val::Out(false, Some(*c)), if required { Bad } else { Good }),
        it("null/null", Val::Out(false, None), if required { Bad } else { Good }),
        it("ptr/null", Val::Out(true, None), Bad),
        it("cap 0", Val::Out(true, Some(0)), z),
        it("cap -1", Val::Out(true, Some(-1)), n),
        it("cap min", Val::Out(true, Some(i32::MIN)), n),
    ]
}
fn in_shapes(good: &Val, required: bool, small: bool) -> Vec<Item> {
    let Val::In(Some(b), l) = good else { unreachable!() };
    let b = Some(b.clone());
    let (z, n) = if required { (Bad, Bad) } else { (Good, Either) };
    let mut v = vec![
        it("ok", good.clone(), Good),
        it("null", Val::In(None, *l), z),
        it("len 0", Val::In(b.clone(), 0), z),
        it("len -1", Val::In(b.clone(), -1), n),
    ];
    if !small {
        v.extend([
            it("null 0", Val::In(None, 0), z),
            it("null -1", Val::In(None, -1), n),
            it("len min", Val::In(b.clone(), i32::MIN), n),
            it("len -2^16", Val::In(b, -65536), n),
        ]);
    }
    v
}
fn str_shapes(good: &Val) -> Vec<Item> {
    vec![it("ok", good.clone(), Good), it("null", Val::Str(None), Bad)]
}
/// kinds of arguments
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    OutReq,
    OutOpt,
    InReq(C),
    InOpt,
    Str(C),
    Number,
    Handle(bool),
    HandleOut,
}
/// kinds of content
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum C {
    Policy,
    Access,
    Attrs,
    RotAttrs,
    Mk,
    Pk,
    Uk,
    Header,
    SymKey,
    Data,
    Block,
    AnyHeader,
}
fn kinds(f: Fun) -> Vec<K> {
    use C::*;
    use K::*;
    match f {
        Master => vec![OutReq, Str(Policy)],
        UserKey => vec![OutReq, InReq(Mk), Str(Access), Str(Policy)],
        Rotate => vec![OutReq, Str(RotAttrs), Str(Policy)],
        EncNew => vec![HandleOut, Str(Policy), InReq(Pk)],
        EncDel => vec![Handle(true)],
        EncUse => vec![OutReq, OutReq, Handle(true), Str(Attrs), InOpt, InOpt],
        Enc => vec![OutReq, OutReq, Str(Policy), InReq(Pk), Str(Attrs), InOpt, InOpt],
        DecNew => vec![HandleOut, InReq(Uk)],
        DecDel => vec![Handle(false)],
        DecUse => vec![OutReq, OutOpt, OutOpt, InReq(Header), Handle(false)],
        Dec => vec![OutReq, OutOpt, OutOpt, InReq(Header), InReq(Uk)],
        Size => vec![InReq(AnyHeader)],
        BlockEnc => vec![OutReq, InReq(SymKey), InOpt, Number, InReq(Data)],
        BlockDec => vec![OutReq, InReq(SymKey), InOpt, Number, InReq(Block)],
        Overhead | SetErr | GetErr => vec![],
    }
}
fn shapes(e: &Env, f: Fun, k: K, good: &Val, small: bool) -> Vec<Item> {
    match k {
        K::OutReq => out_shapes(good, true),
        K::OutOpt => out_shapes(good, false),
        K::InReq(_) => in_shapes(good, true, small),
        K::InOpt => {
            // for decryption of blocks the identifier matters
            let mut v = in_shapes(good, false, small);
            if f == BlockDec {
                v.iter_mut().skip(1).for_each(|i| i.2 = Bad);
            }
            v
        }
        K::Str(_) => str_shapes(good),
        K::Number => vec![it("ok", good.clone(), Good)],
        K::HandleOut => vec![it("ok", good.clone(), Good), it("null", Val::Handle(false), Bad)],
        K::Handle(enc) => {
            let gone = if enc { e.enc_gone } else { e.dec_gone };
            let t = if f == EncDel || f == DecDel { Either } else { Bad };
            let mut v = vec![it("gone", Val::Int(gone), t), it("never", Val::Int(1 << 30), t)];
            if f != EncDel && f != DecDel {
                v.insert(0, it("ok", good.clone(), Good));
            }
            if !small {
                v.extend([it("-1", Val::Int(-1), t), it("min", Val::Int(i32::MIN), t), it("max", Val::Int(i32::MAX), t)]);
            }
            v
        }
    }
}
fn json_texts(good: &[u8], step: usize) -> Vec<Item> {
    let mut v = vec![];
    for t in [&b""[..], b" ", b"{", b"}", b"[", b"[]", b"{}", b"null", b"true", b"0", b"-1", b"\"\"", b"\"a\"", b"[null]", b"[[]]", b"{\"a\":1}", b"\xff", b"\xc3\x28", b"\xef\xbb\xbf", b"1e999", b"\"\\ud800\"", b"//"] {
        v.push(it(format!("text {:?}", String::from_utf8_lossy(t)), Val::st(t), Either));
    }
    for n in [100, 126, 127, 128, 129, 300, 20000] {
        v.push(it(format!("[ x {n}"), Val::st("[".repeat(n)), Bad));
        v.push(it(format!("{{ x {n}"), Val::st("{\"axes\":".repeat(n)), Bad));
        let t = "[".repeat(n) + &"]".repeat(n);
        v.push(it(format!("[] x {n}"), Val::st(t), Bad));
    }
    for i in (0..good.len()).step_by(step) {
        v.push(it(format!("cut {i}"), Val::st(&good[..i]), Bad));
        for b in [b'"', b'{', b'}', b'[', b']', b',', b':', b'0', b'9', b'-', b'x', 0xff, 0xc3, b'\\', 1] {
            if good[i] != b {
                let mut t = good.to_vec();
                t[i] = b;
                v.push(it(format!("byte {i} {b}"), Val::st(t), Either));
            }
        }
        let mut t = good.to_vec();
        t.remove(i);
        v.push(it(format!("del {i}"), Val::st(t), Either));
    }
    v
}
fn byte_texts(good: &[u8], step: usize, cut: Tag) -> Vec<Item> {
    let mut v = vec![];
    for i in (1..good.len()).step_by(step) {
        v.push(it(format!("cut {i}"), Val::of(&good[..i]), cut));
        // a length that stops inside the memory supplied
        v.push(it(format!("short {i}"), Val::In(Some(good.to_vec()), i as i32), cut));
    }
    for i in (0..good.len()).step_by(step) {
        for x in [1u8, 0x80, 0xff] {
            let mut t = good.to_vec();
            t[i] ^= x;
            v.push(it(format!("byte {i} ^{x}"), Val::of(&t), Either));
        }
        for b in [0u8, 255] {
            if good[i] != b {
                let mut t = good.to_vec();
                t[i] = b;
                v.push(it(format!("byte {i} {b}"), Val::of(&t), Either));
            }
        }
    }
    for x in [&[0u8][..], &[0; 40], &[255; 3]] {
        v.push(it(format!("extra {}", hx(x)), Val::of(&cat(&[good, x])), Either));
    }
    for n in [1usize, 3, 4, 5, 8, 31, 32, 33, 100, 1000] {
        for b in [0u8, 1, 0x7f, 0xff] {
            v.push(it(format!("fill {n}x{b}"), Val::of(&vec![b; n]), Either));
        }
    }
    for (i, x) in [(0usize, u32::MAX), (0, 1 << 31), (0, 1 << 28), (0, 0), (0, 1), (0, 0x00ff_ffff)] {
        let mut t = good.to_vec();
        if t.len() >= i + 4 {
            t[i..i + 4].copy_from_slice(&x.to_be_bytes());
            v.push(it(format!("word {i} {x:x}"), Val::of(&t), Either));
        }
    }
    v
}
fn policies(e: &Env, f: Fun) -> Vec<Item> {
    let mut v = vec![];
    let base: serde_json::Value = serde_json::from_str(&e.w.pol).unwrap();
    let mut add = |n: &str, t: Tag, g: &dyn Fn(&mut serde_json::Value)| {
        let mut p = base.clone();
        g(&mut p);
        v.push(it(n, Val::st(p.to_string()), t));
    };
    let j = |s: &str| serde_json::from_str::<serde_json::Value>(s).unwrap();
    let uses = |f: Fun| matches!(f, UserKey | Enc);
    add("last > max", if f == Rotate { Bad } else { Either }, &|p| p["last_attribute_value"] = j("9"));
    add("last max u32", if f == Rotate { Bad } else { Either }, &|p| p["last_attribute_value"] = j("4294967295"));
    add("last = max", if f == Rotate { Bad } else { Either }, &|p| p["last_attribute_value"] = j("6"));
    add("last 2^32", Bad, &|p| p["last_attribute_value"] = j("4294967296"));
    add("last -1", Bad, &|p| p["last_attribute_value"] = j("-1"));
    add("last text", Bad, &|p| p["last_attribute_value"] = j("\"1\""));
    add("last real", Bad, &|p| p["last_attribute_value"] = j("1.5"));
    add("max 0", Either, &|p| p["max_attribute_creations"] = j("0"));
    add("max 1", Either, &|p| p["max_attribute_creations"] = j("1"));
    if f != Master {
        add("max u32", Either, &|p| p["max_attribute_creations"] = j("4294967295"));
    }
    add("no axes", Either, &|p| p["axes"] = j("{}"));
    add("axes list", Bad, &|p| p["axes"] = j("[]"));
    add("axes null", Bad, &|p| p["axes"] = j("null"));
    add("axis short", Bad, &|p| p["axes"]["L"] = j("[[\"x\"]]"));
    add("axis empty", Either, &|p| p["axes"]["L"] = j("[[],true]"));
    add("axis repeats", Either, &|p| p["axes"]["L"] = j("[[\"x\",\"x\",\"y\",\"y\"],true]"));
    add("axis reversed", Either, &|p| p["axes"]["L"] = j("[[\"y\",\"x\"],true]"));
    add("axis other names", Either, &|p| p["axes"]["L"] = j("[[\"p\",\"q\"],true]"));
    add("axis flag", Bad, &|p| p["axes"]["L"][1] = j("1"));
    add("no attributes", if uses(f) || f == Rotate { Bad } else { Either }, &|p| p["attribute_to_int"] = j("{}"));
    add("attribute no separator", Bad, &|p| p["attribute_to_int"]["Lx"] = j("[1]"));
    add("attribute separators", Bad, &|p| p["attribute_to_int"]["L::x::y"] = j("[1]"));
    add("attribute empty name", Bad, &|p| p["attribute_to_int"]["::"] = j("[1]"));
    add("attribute escaped", Either, &|p| p["attribute_to_int"]["L::\"\\q"] = j("[1]"));
    add("attribute non-ascii", Either, &|p| p["attribute_to_int"]["é::ü"] = j("[1]"));
    for a in ["L::x", "L::y", "D::r"] {
        let used = |vals: &str| match vals {
            "[]" if f == Enc && a != "L::y" => Bad,
            _ => Either,
        };
        for vals in ["[]", "[0]", "[4294967295]", "[7]", "[8]", "[6]", "[1,1]", "[2,2]", "[3,3,3]", "[0,1,2,3,4]", "[1,2,4294967295]"] {
            add(&format!("{a} = {vals}"), used(vals), &|p| p["attribute_to_int"][a] = j(vals));
        }
        add(&format!("{a} = [-1]"), Bad, &|p| p["attribute_to_int"][a] = j("[-1]"));
        add(&format!("{a} = [2^32]"), Bad, &|p| p["attribute_to_int"][a] = j("[4294967296]"));
        add(&format!("{a} = 1"), Bad, &|p| p["attribute_to_int"][a] = j("1"));
    }
    for k in ["last_attribute_value", "max_attribute_creations", "axes", "attribute_to_int"] {
        add(&format!("no {k}"), Bad, &|p| {
            p.as_object_mut().unwrap().remove(k);
        });
    }
    add("extra field", Either, &|p| p["extra"] = j("[1,{}]"));
    v.push(it("twice", Val::st(format!("{0}{0}", e.w.pol)), Bad));
    v.push(it("spaces", Val::st(format!(" \n{} ", e.w.pol)), Good));
    v.push(it("trailing", Val::st(format!("{} x", e.w.pol)), Bad));
    v.push(it("other policy", Val::st(&e.small.pol), Either));
    v
}
fn contents(e: &Env, f: Fun, c: C, step: usize) -> Vec<Item> {
    let mut v = vec![];
    let w = &e.w;
    match c {
        C::Policy => {
            v.extend(policies(e, f));
            v.extend(json_texts(w.pol.as_bytes(), step));
        }
        C::Access => {
            let a = |s: &str| format!("{{\"Attr\":\"{s}\"}}");
            let bin = |o: &str, l: &str, r: &str| format!("{{\"{o}\":[{l},{r}]}}");
            let x = a("L::x");
            for (n, t, g) in [
                ("wildcard inside and", bin("And", "\"All\"", &x), Bad),
                ("wildcard inside or", bin("Or", &x, "\"All\""), Bad),
                ("unknown axis", a("Q::x"), Bad),
                ("unknown name", a("L::q"), Bad),
                ("name of another axis", a("L::r"), Bad),
                ("no separator", a("Lx"), Bad),
                ("two separators", a("L::x::y"), Bad),
                ("empty name", a("L::"), Bad),
                ("case", a("l::x"), Bad),
                ("escaped", a("L::\\u0078"), Either),
                ("non-ascii", a("L::é"), Bad),
                ("spaces", a(" L::x "), Either),
                ("repeated", bin("And", &x, &x), Bad),
                ("repeated by hierarchy", bin("Or", &a("L::y"), &x), Bad),
                ("one operand", format!("{{\"And\":[{x}]}}"), Bad),
                ("three operands", format!("{{\"And\":[{x},{x},{x}]}}"), Bad),
                ("no operand", "{\"Or\":[]}".into(), Bad),
                ("two keys", format!("{{\"Attr\":\"L::x\",\"Or\":[{x},{x}]}}"), Bad),
                ("unknown node", "{\"Not\":[]}".into(), Bad),
                ("attr number", "{\"Attr\":1}".into(), Bad),
                ("attr list", "{\"Attr\":[\"L::x\"]}".into(), Bad),
                ("all object", "{\"All\":null}".into(), Either),
                ("all list", "{\"All\":[]}".into(), Either),
                ("bare attr", "\"L::x\"".into(), Bad),
                ("lower case", "\"all\"".into(), Bad),
            ]
            .into_iter()
            .map(|(n, g, t)| (n, t, g))
            {
                v.push(it(n, Val::st(g), t));
            }
            for n in [1, 2, 60, 62, 63, 64, 127, 128, 1000] {
                let mut t = x.clone();
                for i in 0..n {
                    t = bin(if i % 2 == 0 { "And" } else { "Or" }, &t, &a("D::r"));
                }
                v.push(it(format!("deep {n}"), Val::st(t), if n >= 2 { Bad } else { Either }));
            }
            v.extend(json_texts(w.access.as_bytes(), step));
        }
        C::Attrs | C::RotAttrs => {
            let unknown = Bad;
            for (t, g) in [
                ("[\"Q::x\"]", unknown),
                ("[\"L::q\"]", unknown),
                ("[\"L::x\",\"L::q\"]", unknown),
                ("[\"L::q\",\"L::x\"]", unknown),
                ("[\"D::x\"]", unknown),
                ("[\"l::x\"]", unknown),
                ("[\"Lx\"]", Bad),
                ("[\"L::\"]", Bad),
                ("[\"::x\"]", Bad),
                ("[\"::\"]", Bad),
                ("[\"\"]", Bad),
                ("[\"L::x::y\"]", Bad),
                ("[\"L:x\"]", Bad),
                ("[\"L::\\u0078\"]", Either),
                ("[\"é::ü\"]", unknown),
                ("[\"L::x\",1]", Bad),
                ("[{}]", Bad),
                ("[[\"L::x\"]]", Bad),
                ("\"L::x\"", Bad),
                ("{\"L\":\"x\"}", Bad),
                ("[\"L::x\",]", Bad),
                ("[\"L::x\"] ]", Bad),
                ("[\"L::x\" \"D::r\"]", Bad),
                ("[\"L::x\",\"L::x\"]", Either),
            ] {
                v.push(it(t, Val::st(t), g));
            }
            if c == C::RotAttrs {
                for (t, g) in [
                    ("[]", Either),
                    ("[\"L::x\"]", Good),
                    ("[\"D::h\",\"L::y\"]", Good),
                    ("[\"L::x\",\"L::x\"]", Good),
                    ("[\" L::x \"]", Either),
                    ("[\"L::x\",\"L::x\",\"L::x\"]", Bad),
                    ("[\"L::x\",\"D::r\",\"D::h\"]", Bad),
                ] {
                    v.push(it(t, Val::st(t), g));
                }
            } else {
                v.push(it("[]", Val::st("[]"), Either));
                v.push(it("order", Val::st("[\"D::r\",\"L::x\"]"), Good));
                v.push(it("higher", Val::st("[\"D::r\",\"L::y\"]"), Good));
                v.push(it("more", Val::st("[\"D::r\",\"L::y\",\"L::x\"]"), Good));
            }
            let g = if c == C::Attrs { w.attrs.clone() } else { "[\"L::x\",\"D::r\"]".to_string() };
            v.extend(json_texts(g.as_bytes(), step.min(2)));
        }
        C::Mk => {
            v.push(it("other master", Val::of(&e.other.mk), Either));
            v.push(it("smaller master", Val::of(&e.small.mk), Either));
            v.push(it("public key", Val::of(&w.pk), Either));
            v.push(it("user key", Val::of(&w.uk), Either));
            v.extend(byte_texts(&w.mk, step, Bad));
        }
        C::Pk => {
            v.push(it("other master", Val::of(&e.other.pk), Either));
            v.push(it("smaller master", Val::of(&e.small.pk), Either));
            v.push(it("private key", Val::of(&w.mk), Either));
            v.push(it("user key", Val::of(&w.uk), Either));
            v.extend(byte_texts(&w.pk, step, Bad));
        }
        C::Uk => {
            // an authorised key of another master is refused since there is metadata
            let t = if f == Dec { Bad } else { Either };
            v.push(it("other master", Val::of(&e.other.uk), t));
            v.push(it("unauthorised", Val::of(&w.uk_other), t));
            v.push(it("smaller master", Val::of(&e.small.uk), t));
            v.push(it("private key", Val::of(&w.mk), Either));
            v.push(it("public key", Val::of(&w.pk), Either));
            v.push(it("header", Val::of(&w.header), Either));
            v.extend(byte_texts(&w.uk, step, Bad));
        }
        C::Header => {
            v.push(it("other master", Val::of(&e.other.header), Bad));
            v.push(it("smaller master", Val::of(&e.small.header), Bad));
            v.push(it("user key", Val::of(&w.uk), Either));
            v.push(it("block", Val::of(&w.block), Either));
            v.push(it("twice", Val::of(&cat(&[&w.header, &w.header])), Either));
            v.extend(byte_texts(&w.header, step, Either));
        }
        C::AnyHeader => {
            v.extend(byte_texts(&w.header, step * 7, Either));
            for n in 1..4 {
                v.push(it(format!("{n} bytes"), Val::of(&w.header[..n]), Bad));
                v.push(it(format!("{n} bytes stated"), Val::In(Some(w.header.clone()), n as i32), Bad));
            }
            v.push(it("4 bytes", Val::of(&w.header[..4]), Good));
        }
        C::SymKey => {
            let t = if f == BlockDec { Bad } else { Either };
            for n in (1..=64).filter(|n| *n != 32) {
                v.push(it(format!("{n} bytes"), Val::of(&vec![7; n]), if n < 32 { Bad } else { t }));
            }
            v.push(it("zeros", Val::of(&[0; 32]), t));
            v.push(it("other", Val::of(&e.other.key), t));
        }
        C::Data => {
            v.push(it("1 byte", Val::of(&[0]), Good));
            v.push(it("500 bytes", Val::of(&[0xaa; 500]), Good));
        }
        C::Block => {
            let mut b = byte_texts(&w.block, 1, Bad);
            for i in &mut b {
                if let Val::In(Some(x), n) = &i.1 {
                    i.2 = if x[..*n as usize] == w.block[..] { Good } else { Bad };
                }
            }
            v.extend(b);
            v.push(it("other", Val::of(&e.other.block), Bad));
        }
    }
    // JSON texts that happen to be acceptable are judged by the reader of the check
    v.into_iter().filter(|i| !matches!(&i.1, Val::Str(Some(b)) if b.contains(&0))).map(|i| Item(i.0, i.1, i.2, true)).collect()
}
fn numbers(f: Fun) -> Vec<Item> {
    [i32::MIN, -1, 0, 1, 7, 255, 65536, i32::MAX]
        .iter()
        .map(|n| Item(format!("number {n}"), Val::Int(*n), if f == BlockDec && *n != 7 { Bad } else if *n < 0 { Either } else { Good }, true))
        .collect()
}
fn faults(e: &Env, f: Fun, k: K, good: &Val, step: usize) -> Vec<Item> {
    match k {
        K::InReq(c) | K::Str(c) => contents(e, f, c, step),
        K::Number => numbers(f),
        K::InOpt => {
            let long = vec![3u8; 700];
            let t = if f == BlockDec { Bad } else { Good };
            vec![Item("1 byte".into(), Val::of(&[1]), t, true), Item("700 bytes".into(), Val::of(&long), t, true)]
        }
        _ => shapes(e, f, k, good, false).split_off(1),
    }
}

pub fn p16(ctx: &Ctx) {
    let e = match get() {
        Ok(e) => e,
        Err(m) => return ctx.case("setup", || Err(m)),
    };
    let full = !ctx.quick();
    let t0 = std::time::Instant::now();
    for f in FUNS {
        ctx.case(format!("correct {f:?}"), || correct(e, f, true));
        if std::env::var("MC_TIME").is_ok() {
            let t = std::time::Instant::now();
            for _ in 0..20 {
                correct(e, f, false).unwrap();
            }
            eprintln!("{f:?} {:?}", t.elapsed() / 20);
        }
    }
    // a block opens under the number it was made with and under no other, whatever the sign
    let ns: Vec<i32> = (0..31).flat_map(|b| [1 << b, -(1 << b), (1 << b) - 1]).chain([3, -3, i32::MIN, i32::MIN + 1, i32::MAX - 1, i32::MAX]).collect();
    let ns: Vec<i32> = { let mut v = ns; v.sort(); v.dedup(); v };
    ctx.par(&ns, |n| {
        ctx.case(format!("block number {n}"), || {
            let mut a = e.w.good(BlockEnc, 0, 0);
            a[3] = Val::Int(*n);
            let r = call(BlockEnc, &a)?;
            if r.code != 0 {
                return match (last_error()?.is_empty(), *n < 0) {
                    (false, true) => Ok(()),
                    (true, _) => Err("fails without a message".into()),
                    _ => Err("refused".into()),
                };
            }
            let b = r.outs[0].data.clone();
            for m in &ns {
                let mut a = e.w.good(BlockDec, 0, 0);
                a[3] = Val::Int(*m);
                a[4] = Val::of(&b);
                ctx.op(1);
                let r = call(BlockDec, &a)?;
                if (r.code == 0) != (m == n) {
                    return Err(format!("opened as block {m}: status {}", r.code));
                }
                if r.code != 0 && last_error()?.is_empty() {
                    return Err(format!("refused as block {m} without a message"));
                }
                if r.code == 0 && r.outs[0].data != e.w.data {
                    return Err("other data".into());
                }
            }
            Ok(())
        })
    });
    // every combination of null pointers and lengths
    let mut jobs = vec![];
    for f in FUNS {
        let good = e.w.good(f, e.enc, e.dec);
        let menu: Vec<Vec<Item>> = kinds(f)
            .iter()
            .zip(&good)
            .map(|(k, g)| {
                let mut m = shapes(e, f, *k, g, !full && good.len() > 4);
                if !full && good.len() > 4 && matches!(k, K::OutReq | K::OutOpt) {
                    m.pop();
                }
                m
            })
            .collect();
        let total: usize = menu.iter().map(Vec::len).product();
        for lo in (0..total).step_by(97) {
            jobs.push((f, menu.clone(), lo, (lo + 97).min(total)));
        }
    }
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("section {} {:?}", jobs.len(), t0.elapsed());
    }
    ctx.par(&jobs, |(f, menu, lo, hi)| {
        ctx.case(format!("shapes {f:?} {lo}"), || {
            let (mut ok, mut no) = (0, 0);
            for i in *lo..*hi {
                let mut x = i;
                let pick: Vec<&Item> = menu
                    .iter()
                    .map(|m| {
                        let p = &m[x % m.len()];
                        x /= m.len();
                        p
                    })
                    .collect();
                if judge(e, *f, &pick)? {
                    ok += 1
                } else {
                    no += 1
                }
            }
            correct(e, *f, false).map_err(|m| format!("after combinations {lo}..{hi}: {m}"))?;
            ctx.state((hi - lo) as u64);
            ctx.trace((hi - lo) as u64);
            ctx.op((hi - lo) as u64 + 1);
            ctx.outcome("accepted", ok);
            ctx.outcome("refused", no);
            Ok(())
        })
    });
    // every single content fault, followed by a correct call
    let mut jobs = vec![];
    for f in FUNS {
        let good = e.w.good(f, e.enc, e.dec);
        for (i, k) in kinds(f).into_iter().enumerate() {
            let step = match (k, f) {
                (_, _) if full => 1,
                (K::InReq(C::Pk | C::Mk | C::Uk | C::Header), _) => 5,
                (K::Str(C::Policy), _) => 3,
                _ => 1,
            };
            for x in faults(e, f, k, &good[i], step) {
                jobs.push((f, i, x));
            }
        }
    }
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("section {} {:?}", jobs.len(), t0.elapsed());
    }
    ctx.par(&jobs, |(f, i, x)| {
        ctx.case(format!("fault {f:?} {i} {}", x.0), || {
            let good: Vec<Item> = e.w.good(*f, e.enc, e.dec).into_iter().map(|v| it("ok", v, Good)).collect();
            let pick: Vec<&Item> = good.iter().enumerate().map(|(j, g)| if j == *i { x } else { g }).collect();
            let r = judge(e, *f, &pick)?;
            // the longer correct calls follow one fault in eight in the quick tier
            let h = x.0.bytes().fold(*i as u32, |h, b| h.wrapping_mul(31).wrapping_add(b as u32)) >> 3;
            if ctx.quick() && h % 8 != 0 {
                correct(e, BlockEnc, false)?;
            } else {
                correct(e, *f, false).map_err(|m| format!("after the fault: {m}"))?;
            }
            ctx.state(1);
            ctx.trace(1);
            ctx.op(2);
            ctx.outcome(if r { "accepted" } else { "refused" }, 1);
            Ok(())
        })
    });
    // pairs of faults in two arguments
    let mut jobs = vec![];
    for f in FUNS {
        let good = e.w.good(f, e.enc, e.dec);
        let k = kinds(f);
        let menu: Vec<Vec<Item>> = k
            .iter()
            .zip(&good)
            .map(|(k, g)| {
                let mut m = shapes(e, f, *k, g, true).split_off(1);
                let c = faults(e, f, *k, g, 1 << 20);
                let n = c.len();
                m.extend(c.into_iter().enumerate().filter(|(i, _)| full || i % (n / 12 + 1) == 0).map(|x| x.1));
                m
            })
            .collect();
        for i in 0..k.len() {
            for j in i + 1..k.len() {
                for x in &menu[i] {
                    jobs.push((f, i, j, x.clone(), menu[j].clone()));
                }
            }
        }
    }
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("section {} {:?}", jobs.len(), t0.elapsed());
    }
    ctx.par(&jobs, |(f, i, j, x, ys)| {
        ctx.case(format!("pair {f:?} {i} {} {j}", x.0), || {
            let good: Vec<Item> = e.w.good(*f, e.enc, e.dec).into_iter().map(|v| it("ok", v, Good)).collect();
            let (mut ok, mut no) = (0, 0);
            for y in ys {
                let mut pick: Vec<&Item> = good.iter().collect();
                pick[*i] = x;
                pick[*j] = y;
                // two contents that are right or wrong alone may agree or disagree together
                let hard = |i: &Item| i.2 == Bad && !i.3;
                let tag = match (x.2.max(y.2), x.2.min(y.2)) {
                    (Bad, _) if hard(x) || hard(y) => Bad,
                    (Bad, _) if x.3 && y.3 => Either,
                    (t, _) => t,
                };
                let xs = Item(x.0.clone(), x.1.clone(), tag, x.3);
                let ys = Item(y.0.clone(), y.1.clone(), tag, y.3);
                pick[*i] = &xs;
                pick[*j] = &ys;
                if judge(e, *f, &pick)? {
                    ok += 1
                } else {
                    no += 1
                }
            }
            correct(e, BlockDec, false)?;
            ctx.state(ys.len() as u64);
            ctx.trace(ys.len() as u64);
            ctx.op(ys.len() as u64 + 1);
            ctx.outcome("accepted", ok);
            ctx.outcome("refused", no);
            Ok(())
        })
    });
    // a failed call of any function, then a correct call of any function
    let mut jobs = vec![];
    for f in FUNS {
        let good = e.w.good(f, e.enc, e.dec);
        for (i, k) in kinds(f).into_iter().enumerate() {
            let mut m: Vec<Item> = shapes(e, f, k, &good[i], true);
            let c = faults(e, f, k, &good[i], 1 << 20);
            let n = c.len();
            let want = ctx.pick(3, 12);
            m.extend(c.into_iter().filter(|c| c.2 == Bad).enumerate().filter(|(j, _)| j % (n / want + 1) == 0).map(|x| x.1));
            for x in m.into_iter().filter(|x| x.2 == Bad) {
                jobs.push((f, i, x));
            }
        }
    }
    if std::env::var("MC_TIME").is_ok() {
        eprintln!("section {} {:?}", jobs.len(), t0.elapsed());
    }
    ctx.par(&jobs, |(f, i, x)| {
        ctx.case(format!("after {f:?} {i} {}", x.0), || {
            let good: Vec<Item> = e.w.good(*f, e.enc, e.dec).into_iter().map(|v| it("ok", v, Good)).collect();
            let pick: Vec<&Item> = good.iter().enumerate().map(|(j, g)| if j == *i { x } else { g }).collect();
            for g in FUNS {
                judge(e, *f, &pick)?;
                correct(e, g, false).map_err(|m| format!("after {f:?} failed: {m}"))?;
                ctx.op(2);
                ctx.state(1);
                ctx.trace(1);
            }
            ctx.outcome("histories of a failed and a correct call", FUNS.len() as u64);
            Ok(())
        })
    });
}
