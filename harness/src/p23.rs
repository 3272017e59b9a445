//! P23: what one interface makes, every other one opens
use crate::{abe::*, ipc, pol::*, sup::*, via::*};
use cosmian_abe_gpsw::interfaces::abe_policy::Policy;
use serde_json::Value;
use std::collections::HashMap;

const MAKERS: [Via; 4] = [Rust, C, Py, Js];
const HEADS: [Via; 6] = [Rust, C, CCache, Py, Js, JsCache];

fn pat(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 29 + k) as u8).collect()
}
struct Wd {
    name: &'static str,
    sp: Spec,
    /// attributes rotated between two generations
    turn: Vec<At>,
    keys: Vec<Ap>,
    sets: Vec<Vec<At>>,
}
fn worlds() -> Vec<Wd> {
    let l = |i, j| Ap::L((i, j));
    vec![
        Wd {
            name: "plain",
            sp: Spec::new(&[("L", &["low", "mid", "top"], true), ("D", &["fin", "hr"], false)], 9),
            turn: vec![(1, 0), (0, 2)],
            keys: vec![Ap::and(l(0, 1), l(1, 0)), Ap::or(Ap::and(l(0, 2), l(1, 1)), l(1, 0))],
            sets: vec![vec![(0, 0), (1, 0)], vec![(0, 2), (1, 1)], vec![(1, 0)]],
        },
        Wd {
            name: "names",
            sp: Spec::new(&[("Dép/t \"1\"", &["R&D\\x", "é|\u{1f512}", "%e9;"], false), ("L q", &["1 a", "0"], true)], 9),
            turn: vec![(0, 1)],
            keys: vec![Ap::or(l(0, 1), Ap::and(l(0, 0), l(1, 1))), l(1, 0)],
            sets: vec![vec![(0, 1)], vec![(1, 0), (0, 0)], vec![(0, 2), (1, 1)]],
        },
    ]
}

/// choices of a flow: base policy, rotation, master keys, user key, sealer, opener, access policy,
/// attribute set, key after the rotation, header after the rotation
const SIZES: [usize; 10] = [2, 4, 4, 4, 6, 6, 2, 3, 2, 2];
type Flow = [u8; 10];

/// flows such that every combination of values of any `t` choices occurs
fn cover(t: usize) -> Vec<Flow> {
    let mut subsets: Vec<(Vec<usize>, usize)> = vec![];
    let mut total = 0;
    for m in 0u32..1 << 10 {
        if m.count_ones() as usize == t {
            let v: Vec<usize> = (0..10).filter(|i| m >> i & 1 == 1).collect();
            let n: usize = v.iter().map(|i| SIZES[*i]).product();
            subsets.push((v, total));
            total += n;
        }
    }
    let mut seen = vec![false; total];
    let mut left = total;
    let all: usize = SIZES.iter().product();
    let mut out = vec![];
    for part in [100, 80, 60, 40, 25, 12, 6, 3, 0] {
        // every flow, in an order that mixes the choices
        for k in 0..all {
            let mut x = (k * 48_271 + 11) % all;
            let f: Flow = std::array::from_fn(|i| {
                let d = x % SIZES[i];
                x /= SIZES[i];
                d as u8
            });
            let places = || subsets.iter().map(|(v, o)| o + v.iter().fold(0, |a, i| a * SIZES[*i] + f[*i] as usize));
            let new = places().filter(|p| !seen[*p]).count();
            if new == 0 || new * 100 < subsets.len() * part {
                continue;
            }
            for p in places() {
                left -= !seen[p] as usize;
                seen[p] = true;
            }
            out.push(f);
            if left == 0 {
                return out;
            }
        }
    }
    unreachable!("every combination is part of some flow")
}

/// one policy of two generations, one set of master keys, and what was made with them so far
struct Bundle<'a> {
    w: &'a Wd,
    pol: [Vec<u8>; 2],
    mk: Vec<u8>,
    pk: Vec<u8>,
    uk: HashMap<(u8, u8, u8), Vec<u8>>,
    msp: HashMap<(u8, u8), Vec<u8>>,
    heads: HashMap<(u8, u8, u8), (Vec<u8>, Vec<u8>)>,
}
impl<'a> Bundle<'a> {
    fn new(w: &'a Wd, base: Via, rot: Via, master: Via) -> Result<Self, String> {
        let old = must(base.policy(&w.sp), "policy")?;
        let new = must(rot.rotate(&old, &w.sp.attrs(&w.turn)), format!("rotation by {rot:?}"))?;
        crate::ffi::rotated(&old, &serde_json::to_vec(&w.sp.attrs(&w.turn)).unwrap(), &new)?;
        let (mk, pk, _) = must(master.master(&new), format!("master keys by {master:?}"))?;
        Ok(Bundle { w, pol: [old, new], mk, pk, uk: HashMap::new(), msp: HashMap::new(), heads: HashMap::new() })
    }
    fn flow(&mut self, ctx: &Ctx, f: &Flow) -> Result<(), String> {
        let w = self.w;
        let [_, _, _, m, v, o, a, t, kg, hg] = *f;
        let (maker, sealer, opener) = (MAKERS[m as usize], HEADS[v as usize], HEADS[o as usize]);
        let ap = &w.keys[a as usize];
        if !self.uk.contains_key(&(m, a, kg)) {
            ctx.op(1);
            let k = must(maker.user_key(&self.pol[kg as usize], &self.mk, &ap.real(&w.sp), &ap.text(&w.sp)), format!("user key by {maker:?}"))?;
            let p = msp_part(&k).ok_or("the layout of a user key")?.to_vec();
            if *self.msp.entry((a, kg)).or_insert_with(|| p.clone()) != p {
                return Err(format!("the key by {maker:?} has another span program than others"));
            }
            self.uk.insert((m, a, kg), k);
        }
        let at = &w.sets[t as usize];
        let ad: &[u8] = if sealer.has_ad() { b"ad" } else { b"" };
        if !self.heads.contains_key(&(v, t, hg)) {
            ctx.op(1);
            let h = must(sealer.seal(&self.pol[hg as usize], &self.pk, &w.sp.attrs(at), b"uid", ad), format!("header by {sealer:?}"))?;
            self.heads.insert((v, t, hg), h);
        }
        let want = ap.eval(&w.sp, &|a| at.contains(&a) && (kg == 1 || hg == 0 || !w.turn.contains(&a)));
        let (key, h) = &self.heads[&(v, t, hg)];
        ctx.op(1);
        ctx.trace(1);
        ctx.outcome(if want { "opened" } else { "refused" }, 1);
        judge_open(opener.open(&self.uk[&(m, a, kg)], h), want, key, b"uid", ad).map_err(|e| {
            format!("key {a} by {maker:?} (rotated: {kg}), header for {at:?} by {sealer:?} (rotated: {hg}), opened by {opener:?}: {e}")
        })
    }
}
fn flows(ctx: &Ctx, w: &Wd) {
    let mut by: std::collections::BTreeMap<[u8; 3], Vec<Flow>> = Default::default();
    for f in cover(ctx.pick(3, 5)) {
        by.entry([f[0], f[1], f[2]]).or_default().push(f);
    }
    let mut jobs: Vec<([u8; 3], Vec<Flow>)> = vec![];
    for (k, mut l) in by {
        // by key and header, so that objects are made once
        l.sort();
        let n = l.len().div_ceil(ctx.pick(1, 4));
        jobs.extend(l.chunks(n).map(|c| (k, c.to_vec())));
    }
    ctx.par(&jobs, |(k, l)| {
        let (base, rot, master) = ([Rust, Py][k[0] as usize], MAKERS[k[1] as usize], MAKERS[k[2] as usize]);
        ctx.case(format!("flows {} {base:?} {rot:?} {master:?} {:?}", w.name, l[0]), || {
            let mut b = Bundle::new(w, base, rot, master)?;
            for f in l {
                ctx.state(1);
                b.flow(ctx, f)?;
            }
            Ok(())
        });
    });
}

struct One {
    sp: Spec,
    pol: Vec<u8>,
    mk: Vec<u8>,
    pk: Vec<u8>,
    dk: Vec<u8>,
    uk: Vec<u8>,
}
fn one() -> Result<One, String> {
    let sp = Spec::new(&[("D", &["a", "b", "c"], false)], 3);
    let pol = must(Rust.policy(&sp), "policy")?;
    let (mk, pk, dk) = must(Rust.master(&pol), "master keys")?;
    let uk = must(Rust.user_key(&pol, &mk, &Ap::L((0, 0)).real(&sp), ""), "user key")?;
    Ok(One { sp, pol, mk, pk, dk: dk.unwrap(), uk })
}

fn metadata(ctx: &Ctx, o: &One) {
    let mut jobs = vec![];
    for v in HEADS {
        for u in [0usize, 1, 5, 300] {
            for a in [0usize, 1, 4, 300] {
                if v.has_ad() || (a == 0 && u > 0) {
                    jobs.push((v, u, a));
                }
            }
        }
    }
    let mut jobs: Vec<(Via, String, Vec<u8>, Vec<u8>)> = jobs.into_iter().map(|(v, u, a)| (v, format!("{u} {a}"), pat(u, 1), pat(a, 2))).collect();
    for (n, c) in crate::hyb::odd(!ctx.quick()).into_iter().enumerate() {
        for (i, v) in HEADS.into_iter().enumerate() {
            // quick: each content through half of the interfaces that seal
            if ctx.quick() && (i + n) % 2 == 0 {
                continue;
            }
            jobs.push((v, format!("uid {}", hx(&c)), c.clone(), if v.has_ad() { b"ad".to_vec() } else { vec![] }));
            if v.has_ad() {
                jobs.push((v, format!("data {}", hx(&c)), b"id".to_vec(), c.clone()));
            }
        }
    }
    ctx.par(&jobs, |(v, n, uid, ad)| {
        ctx.case(format!("metadata {v:?} {n}"), || {
            ctx.state(1);
            let (key, h) = must(v.seal(&o.pol, &o.pk, &o.sp.attrs(&[(0, 0)]), uid, ad), "header")?;
            let size = u32::from_be_bytes(h[..4].try_into().unwrap());
            for x in HEADS {
                ctx.trace(1);
                judge_open(x.open(&o.uk, &h), true, &key, uid, ad).map_err(|e| format!("opened by {x:?}: {e}"))?;
            }
            for r in [py("get_encrypted_header_size", &[ipc::b(&h)]), js("get_encrypted_header_size", &[ipc::b(&h)])] {
                if ipc::out_i(&must(r, "header size")?)? != size as i128 {
                    return Err("another header size".into());
                }
            }
            Ok(())
        });
    });
}

/// headers whose encapsulated key takes more than 2^16 bytes
fn large(ctx: &Ctx) {
    let n = 1256;
    let sp = Spec { axes: vec![("N".into(), (0..=n).map(|i| format!("n{i}")).collect(), false)], max: n as u32 + 1 };
    let mut made = None;
    ctx.case("large policy", || {
        let pol = must(Rust.policy(&sp), "policy")?;
        let (mk, pk, _) = must(Rust.master(&pol), "master keys")?;
        let key = |i| must(Rust.user_key(&pol, &mk, &Ap::L((0, i)).real(&sp), ""), "user key");
        made = Some((key(0)?, key(1253)?, key(n)?, pol.clone(), pk));
        Ok(())
    });
    let Some((first, last, no, pol, pk)) = made else { return };
    let mut jobs = vec![];
    for v in HEADS {
        for k in ctx.pick(vec![1256], vec![20, 300, 1254, 1255, 1256]) {
            jobs.push((v, k));
        }
    }
    ctx.par(&jobs, |(v, k)| {
        ctx.case(format!("large header {v:?} {k} attributes"), || with_room(200_000, || {
            ctx.state(1);
            let at: Vec<At> = (0..*k).map(|i| (0, i)).collect();
            let (uid, ad) = (pat(40, 1), if v.has_ad() { pat(ctx.pick(300, 70000), 2) } else { vec![] });
            let (key, h) = must(v.seal(&pol, &pk, &sp.attrs(&at), &uid, &ad), "header")?;
            for x in HEADS {
                for (uk, want) in [(&first, true), (&last, *k > 1253), (&no, false)] {
                    // quick: the other keys where one interface opens its own header
                    if ctx.quick() && (*v != x || x == Js) && !(want && *k > 1253 && std::ptr::eq(uk, &last)) {
                        continue;
                    }
                    ctx.trace(1);
                    judge_open(x.open(uk, &h), want, &key, &uid, &ad).map_err(|e| format!("opened by {x:?}: {e}"))?;
                }
            }
            Ok(())
        }));
    });
}

fn delegation(ctx: &Ctx, o: &One) {
    let l = |j| Ap::L((0, j));
    let parent = Ap::or(l(0), Ap::or(l(1), l(2)));
    let kids = [l(0), Ap::and(l(0), l(1)), Ap::or(l(1), l(2)), Ap::and(l(0), Ap::or(l(1), l(2)))];
    let mut jobs = vec![];
    for m in MAKERS {
        for d in [Rust, Py] {
            for c in 0..kids.len() {
                jobs.push((m, d, c));
            }
        }
    }
    let sets = at_subsets(&o.sp.all());
    ctx.par(&jobs, |(m, d, c)| {
        ctx.case(format!("delegation {m:?} {d:?} {c}"), || {
            ctx.state(1);
            let uk = must(m.user_key(&o.pol, &o.mk, &parent.real(&o.sp), &parent.text(&o.sp)), "user key")?;
            let kid = &kids[*c];
            let policy: Policy = serde_json::from_slice(&o.pol).map_err(s("policy"))?;
            let child = if *d == Py {
                must(Py.delegate(&o.dk, &uk, &kid.text(&o.sp), &o.pol), "delegation")?
            } else {
                let dk: Dk<Bls> = parse(&o.dk)?;
                bytes(&cosmian_abe_gpsw::core::Engine::<Bls>::new().delegate_user_key(&policy, &dk, &parse(&uk)?, &kid.real(&o.sp)).map_err(s("delegation"))?)?
            };
            for (n, at) in sets.iter().enumerate() {
                if at.is_empty() {
                    continue;
                }
                let v = HEADS[(n + *c) % 6];
                let (key, h) = must(v.seal(&o.pol, &o.pk, &o.sp.attrs(at), b"u", b""), "header")?;
                let want = kid.eval(&o.sp, &|a| at.contains(&a));
                for (i, x) in HEADS.into_iter().enumerate() {
                    // quick: each opener for each way to make the key, not for each set
                    if ctx.quick() && (i + n + c) % 3 != 0 {
                        continue;
                    }
                    ctx.trace(1);
                    judge_open(x.open(&child, &h), want, &key, b"u", b"").map_err(|e| format!("header for {at:?} by {v:?}, opened by {x:?}: {e}"))?;
                }
            }
            Ok(())
        });
    });
}

/// can this interface express the block number
fn fits(v: Via, n: u64) -> bool {
    match v {
        C | CCache => n < 1 << 31,
        Js | JsCache => n < 1 << 32,
        _ => true,
    }
}
fn blocks(ctx: &Ctx) {
    let key = pat(32, 9);
    let uids: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], b"a\0".to_vec(), b"a\0b".to_vec(), b"a ".to_vec(), vec![0xff, 0xfe], pat(8, 3), pat(9, 3), pat(16, 4), pat(300, 5)];
    let numbers: Vec<u64> = vec![0, 1, 2, 255, 256, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, u64::MAX];
    let lens: Vec<usize> = if ctx.quick() { vec![1, 15, 16, 17, 255, 4096] } else { (1..70).chain([255, 4096, 100_000]).collect() };
    let mut jobs = vec![];
    for e in MAKERS {
        for u in &uids {
            for n in &numbers {
                if fits(e, *n) {
                    jobs.push((e, u, *n));
                }
            }
        }
    }
    ctx.par(&jobs, |(e, u, n)| {
        ctx.case(format!("block {e:?} {} {n}", hx(&u[..u.len().min(10)])), || {
            ctx.state(1);
            for len in &lens {
                let d = pat(*len, 7);
                let b = must(e.block(true, &key, u, *n, &d), "block")?;
                for x in MAKERS {
                    if !fits(x, *n) {
                        continue;
                    }
                    ctx.trace(1);
                    ctx.op(1);
                    if must(x.block(false, &key, u, *n, &b), format!("opening by {x:?}"))? != d {
                        return Err(format!("{x:?} finds other data"));
                    }
                }
            }
            // and nothing else opens it
            let b = must(e.block(true, &key, u, *n, &pat(20, 1)), "block")?;
            let mut alt: Vec<(Vec<u8>, u64)> = uids.iter().filter(|v| v != u).map(|v| (v.clone(), *n)).collect();
            alt.extend(numbers.iter().filter(|m| *m != n).map(|m| (u.to_vec(), *m)));
            for (v, m) in alt {
                for x in MAKERS {
                    ctx.op(1);
                    if fits(x, m) && x.block(false, &key, &v, m, &b)?.is_ok() {
                        return Err(format!("{x:?} opens it as block {m} of {v:?}"));
                    }
                }
            }
            Ok(())
        });
    });
}

/// Python's one-call format against the parts
fn whole(ctx: &Ctx, o: &One) {
    let mut jobs = vec![];
    for v in HEADS {
        for b in MAKERS {
            jobs.push((v, b));
        }
    }
    let attrs = serde_json::to_vec(&o.sp.attrs(&[(0, 0), (0, 1)])).unwrap();
    ctx.par(&jobs, |(v, b)| {
        ctx.case(format!("whole {v:?} {b:?}"), || {
            for (u, n) in [(1usize, 1usize), (16, 33), (300, 5000)] {
                ctx.state(1);
                ctx.trace(2);
                let (uid, d) = (pat(u, 1), pat(n, 2));
                // put together
                let (key, h) = must(v.seal(&o.pol, &o.pk, &o.sp.attrs(&[(0, 0)]), &uid, b""), "header")?;
                let blk = must(b.block(true, &key, &uid, 0, &d), "block")?;
                let t = [&(h.len() as u32).to_be_bytes()[..], &h, &blk].concat();
                if ipc::out_b(&must(py("decrypt", &[ipc::b(&o.uk), ipc::b(&t)]), "decrypt")?)? != d {
                    return Err("decrypt finds other data".into());
                }
                // taken apart
                let m = meta_json(&uid, Some(b"x"));
                let t = ipc::out_b(&must(py("encrypt", &[ipc::b(&m), ipc::b(&o.pol), ipc::b(&attrs), ipc::b(&o.pk), ipc::b(&d)]), "encrypt")?)?;
                let size = u32::from_be_bytes(t[..4].try_into().unwrap()) as usize;
                let (key, _) = must(v.open(&o.uk, &t[4..4 + size]), "the header")?;
                judge_open(v.open(&o.uk, &t[4..4 + size]), true, &key, &uid, b"x")?;
                if must(b.block(false, &key, &uid, 0, &t[4 + size..]), "the block")? != d {
                    return Err("the block holds other data".into());
                }
            }
            Ok(())
        });
    });
}

/// every argument in every JSON form, and in every interface
fn forms(ctx: &Ctx, w: &Wd) {
    let mut jobs = vec![];
    for f in [Form::Escaped, Form::Pretty] {
        for v in HEADS {
            jobs.push((f, v));
        }
    }
    ctx.par(&jobs, |(f, v)| {
        ctx.case(format!("JSON {} {f:?} {v:?}", w.name), || {
            ctx.state(1);
            let plain = must(Rust.policy(&w.sp), "policy")?;
            let attrs = w.sp.attrs(&w.turn);
            let want = must(Rust.rotate(&plain, &attrs), "rotation")?;
            let (pol, mk, pk, uks) = with_form(*f, || -> Result<_, String> {
                let p = must(v.policy(&w.sp), "policy")?;
                let pol = must(v.rotate(&p, &attrs), "rotation")?;
                let (mk, pk, _) = must(v.master(&pol), "master keys")?;
                let mut uks = vec![];
                for ap in &w.keys {
                    uks.push(must(v.user_key(&pol, &mk, &ap.real(&w.sp), &ap.text(&w.sp)), "user key")?);
                }
                Ok((pol, mk, pk, uks))
            })?;
            if crate::ffi::model(&pol)? != crate::ffi::model(&want)? {
                return Err("another policy".into());
            }
            let _ = mk;
            for at in &w.sets {
                let (key, h) = with_form(*f, || must(v.seal(&pol, &pk, &w.sp.attrs(at), b"u", b""), "header"))?;
                for (ap, uk) in w.keys.iter().zip(&uks) {
                    ctx.trace(1);
                    judge_open(Rust.open(uk, &h), ap.eval(&w.sp, &|a| at.contains(&a)), &key, b"u", b"")?;
                }
            }
            Ok(())
        });
    });
}

/// altered objects: all interfaces refuse, or all return the same
fn faults(ctx: &Ctx, o: &One) {
    let prep = || -> Result<_, String> {
        let (key, h) = must(Rust.seal(&o.pol, &o.pk, &o.sp.attrs(&[(0, 0)]), b"uid", b"ad"), "header")?;
        let b = must(Rust.block(true, &key, b"u", 3, b"some data"), "block")?;
        Ok((key, h, b))
    };
    let (key, h, blk) = match prep() {
        Ok(x) => x,
        Err(m) => return ctx.case("faults setup", || Err(m)),
    };
    let alter = |g: &[u8], step: usize| -> Vec<(String, Vec<u8>)> {
        let mut l = vec![];
        for i in 0..g.len() {
            if i % step != 0 && i > 9 && i + 9 < g.len() {
                continue;
            }
            l.push((format!("cut {i}"), g[..i].to_vec()));
            for x in [g[i] ^ 0x80, g[i].wrapping_add(1), 0xff] {
                let mut f = g.to_vec();
                f[i] = x;
                l.push((format!("byte {i} {x}"), f));
            }
        }
        l.push(("extended".into(), [g, &[0]].concat()));
        l.push(("twice".into(), [g, g].concat()));
        l
    };
    let chunk = 24;
    let parts = |name: &'static str, l: Vec<(String, Vec<u8>)>, f: &(dyn Fn(Via, &[u8]) -> R<(Vec<u8>, (Vec<u8>, Vec<u8>))> + Sync), by: &[Via]| {
        let idx: Vec<usize> = (0..l.len().div_ceil(chunk)).collect();
        ctx.par(&idx, |i| {
            ctx.case(format!("altered {name} {i}"), || {
                for (what, x) in &l[i * chunk..l.len().min((i + 1) * chunk)] {
                    ctx.state(1);
                    let mut first: Option<(Via, Result<_, String>)> = None;
                    for v in by {
                        ctx.op(1);
                        let r = f(*v, x).map_err(|e| format!("{what}: {e}"))?;
                        match &first {
                            None => {
                                ctx.outcome(if r.is_ok() { "accepted by all" } else { "refused by all" }, 1);
                                first = Some((*v, r));
                            }
                            Some((w, q)) => {
                                if r.is_ok() != q.is_ok() || (r.is_ok() && r.as_ref().ok() != q.as_ref().ok()) {
                                    return Err(format!("{what}: {w:?} {q:?}, {v:?} {r:?}"));
                                }
                            }
                        }
                    }
                    ctx.trace(1);
                }
                Ok(())
            });
        });
    };
    let step = |n: usize, quick: usize| if ctx.quick() { 1 + n / quick } else { 1 + n / 400 };
    parts("header", alter(&h, step(h.len(), 16)), &|v, x| v.open(&o.uk, x), &HEADS);
    parts("user key", alter(&o.uk, step(o.uk.len(), 10)), &|v, x| v.open(x, &h), &HEADS);
    parts("block", alter(&blk, 1), &|v, x| Ok(v.block(false, &key, b"u", 3, x)?.map(|d| (d, (vec![], vec![])))), &MAKERS);
    let keys = |r: R<(Vec<u8>, Vec<u8>)>| r.map(|r| r.map(|_| (vec![], (vec![], vec![]))));
    parts("public key", alter(&o.pk, step(o.pk.len(), 8)), &|v, x| keys(v.seal(&o.pol, x, &o.sp.attrs(&[(0, 0)]), b"u", b"")), &HEADS);
    let ap = Ap::L((0, 1));
    parts(
        "master key",
        alter(&o.mk, step(o.mk.len(), 20)),
        &|v, x| Ok(v.user_key(&o.pol, x, &ap.real(&o.sp), &ap.text(&o.sp))?.map(|k| (msp_part(&k).unwrap_or(&[]).to_vec(), (vec![], vec![])))),
        &MAKERS,
    );
    // policies
    let p: Value = serde_json::from_slice(&o.pol).unwrap();
    let mut l = alter(&o.pol, step(o.pol.len(), 12));
    l.retain(|x| !x.0.starts_with("byte") && !x.1.contains(&0)); // could ask for a huge number of slots
    for f in ["last_attribute_value", "max_attribute_creations", "axes", "attribute_to_int"] {
        let mut q = p.clone();
        q.as_object_mut().unwrap().remove(f);
        l.push((format!("without {f}"), q.to_string().into_bytes()));
        for x in [Value::Null, Value::from(0), Value::from(2), Value::from(-1), Value::from(1.5), serde_json::json!({}), serde_json::json!([])] {
            let mut q = p.clone();
            q[f] = x.clone();
            l.push((format!("{f} {x}"), q.to_string().into_bytes()));
        }
    }
    parts("policy", l.clone(), &|v, x| keys(v.seal(x, &o.pk, &o.sp.attrs(&[(0, 1)]), b"u", b"")), &HEADS);
    parts("policy of master keys", l.clone(), &|v, x| Ok(v.master(x)?.map(|k| ((k.0.len() as u32).to_be_bytes().to_vec(), (vec![], vec![])))), &MAKERS);
    // for Rust callers, rotation is the other crate's
    parts("policy rotated", l, &|v, x| Ok(v.rotate(x, &o.sp.attrs(&[(0, 1)]))?.map(|p| (format!("{:?}", crate::ffi::model(&p)).into_bytes(), (vec![], vec![])))), &MAKERS[1..]);
}

pub fn p23(ctx: &Ctx) {
    let time = |what: &str, f: &mut dyn FnMut()| {
        let t = std::time::Instant::now();
        f();
        ctx.note(format!("{what}: {:.1} s", t.elapsed().as_secs_f64()));
    };
    let o = match guarded(one) {
        Ok(Ok(o)) => o,
        Ok(Err(m)) | Err(m) => return ctx.case("setup", || Err(m)),
    };
    time("blocks", &mut || blocks(ctx));
    time("metadata", &mut || metadata(ctx, &o));
    time("large", &mut || large(ctx));
    time("delegation", &mut || delegation(ctx, &o));
    time("whole", &mut || whole(ctx, &o));
    time("faults", &mut || faults(ctx, &o));
    for w in worlds() {
        time(&format!("forms {}", w.name), &mut || forms(ctx, &w));
        time(&format!("flows {}", w.name), &mut || flows(ctx, &w));
    }
}
