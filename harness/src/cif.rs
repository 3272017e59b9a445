//! The properties of the core, seen through the functions of the C interface (direct and cached).
use crate::{abe::*, pol::*, sup::*, via::*};
use cosmian_abe_gpsw::interfaces::abe_policy::Attribute;

const SEAL: [Via; 2] = [C, CCache];
type Versions = Vec<Vec<u32>>;

struct World {
    sp: Spec,
    /// policy and versions of the attributes, by generation
    pol: Vec<(Vec<u8>, Versions)>,
    mk: Vec<u8>,
    pk: Vec<u8>,
}
impl World {
    /// rotations go through the C interface
    fn new(sp: Spec, turns: &[Vec<At>]) -> Result<World, String> {
        let p = must(C.policy(&sp), "policy")?;
        let mut v: Versions = sp.axes.iter().map(|a| vec![0; a.1.len()]).collect();
        let mut pol = vec![(p, v.clone())];
        for t in turns {
            let last = &pol.last().unwrap().0;
            let n = must(C.rotate(last, &sp.attrs(t)), format!("rotation of {t:?}"))?;
            crate::ffi::rotated(last, &serde_json::to_vec(&sp.attrs(t)).unwrap(), &n)?;
            for a in t {
                v[a.0][a.1] += 1;
            }
            pol.push((n, v.clone()));
        }
        let (mk, pk, _) = must(C.master(&pol[0].0), "master keys")?;
        Ok(World { sp, pol, mk, pk })
    }
    fn key(&self, g: usize, ap: &Ap) -> Result<Vec<u8>, String> {
        must(C.user_key(&self.pol[g].0, &self.mk, &ap.real(&self.sp), ""), format!("user key of generation {g} for {}", ap.text(&self.sp)))
    }
    fn seal(&self, v: Via, g: usize, at: &[At]) -> Result<(Vec<u8>, Vec<u8>), String> {
        must(v.seal(&self.pol[g].0, &self.pk, &self.sp.attrs(at), b"uid", b"ad"), format!("header of generation {g} by {v:?} for {at:?}"))
    }
    fn opens(&self, ap: &Ap, kg: usize, at: &[At], hg: usize) -> bool {
        ap.eval(&self.sp, &|a| at.contains(&a) && self.pol[hg].1[a.0][a.1] <= self.pol[kg].1[a.0][a.1])
    }
}

/// every key of every generation on every header of every generation
fn grid(ctx: &Ctx, name: &str, sp: &Spec, turns: &[Vec<At>], keys: &[Ap], sets: &[Vec<At>]) {
    let mut made = None;
    ctx.case(format!("C {name}: setup"), || {
        let w = World::new(sp.clone(), turns)?;
        made = Some(w);
        Ok(())
    });
    let Some(w) = made else { return };
    let gens = w.pol.len();
    let mut jobs = vec![];
    for g in 0..gens {
        for (i, at) in sets.iter().enumerate() {
            for v in SEAL {
                jobs.push((g, i, at, v));
            }
        }
    }
    let heads: std::sync::Mutex<Vec<_>> = Default::default();
    ctx.par(&jobs, |(g, i, at, v)| {
        ctx.case(format!("C {name}: header {g} {v:?} {at:?}"), || {
            ctx.op(1);
            let h = w.seal(*v, *g, at)?;
            heads.lock().unwrap().push((*g, *i, *v, h));
            Ok(())
        });
    });
    let mut heads = heads.into_inner().unwrap();
    heads.sort_by_key(|h| (h.0, h.1, h.2));
    let mut jobs = vec![];
    for g in 0..gens {
        for (n, ap) in keys.iter().enumerate() {
            jobs.push((g, n, ap));
        }
    }
    ctx.par(&jobs, |(g, n, ap)| {
        ctx.case(format!("C {name}: key {g} {}", ap.text(sp)), || {
            let uk = w.key(*g, ap)?;
            for (i, (hg, s, v, (key, h))) in heads.iter().enumerate() {
                let want = w.opens(ap, *g, &sets[*s], *hg);
                ctx.state(1);
                ctx.trace(1);
                ctx.op(1);
                ctx.outcome(if want { "C: opened" } else { "C: refused" }, 1);
                // each kind of opener meets each kind of sealer
                let o = SEAL[(i / 2 + n) % 2];
                judge_open(o.open(&uk, h), want, key, b"uid", b"ad")
                    .map_err(|e| format!("header of generation {hg} by {v:?} for {:?}, opened by {o:?}: {e}", sets[*s]))?;
            }
            Ok(())
        });
    });
}

fn some_aps(menu: &[Ap], sp: &Spec, k: usize) -> Vec<Ap> {
    (1..=k).flat_map(|n| aps(menu, n)).filter(|a| !a.repeats(sp)).collect()
}

/// P02
pub fn axes(ctx: &Ctx) {
    let specs = [
        ("mixed", Spec::new(&[("L", &["a", "b", "c"], true), ("D", &["x", "y"], false)], 5)),
        ("confusable", Spec::new(&[("A", &["b", "B"], true), ("a", &["b", "bb"], false)], 4)),
    ];
    for (name, sp) in specs {
        let menu: Vec<Ap> = sp.all().into_iter().map(Ap::L).collect();
        let mut keys = some_aps(&menu, &sp, ctx.pick(2, 3));
        keys.push(Ap::All);
        let sets: Vec<_> = at_subsets(&sp.all()).into_iter().filter(|s| !s.is_empty()).collect();
        grid(ctx, name, &sp, &[], &keys, &sets);
        // refused: unknown names, the wildcard inside
        ctx.case(format!("C {name}: refusals"), || {
            let w = World::new(sp.clone(), &[])?;
            let known = serde_json::to_value(Ap::L((0, 0)).real(&sp)).unwrap();
            let names: Vec<Attribute> = [("L", "d"), ("Z", "a"), ("l", "a"), ("D", "a"), ("", ""), ("A", "bb"), ("a", "B"), ("L ", "a"), ("A", "")]
                .iter()
                .map(|(a, n)| Attribute::new(a, n))
                .filter(|a| !sp.attrs(&sp.all()).contains(a))
                .collect();
            let mut bad: Vec<serde_json::Value> = vec![];
            for a in &names {
                let x = serde_json::to_value(cosmian_abe_gpsw::interfaces::abe_policy::AccessPolicy::Attr(a.clone())).unwrap();
                bad.push(x.clone());
                for f in ["And", "Or"] {
                    bad.push(serde_json::json!({ f: [x, known] }));
                    bad.push(serde_json::json!({ f: [known, x] }));
                }
            }
            for f in ["And", "Or"] {
                bad.push(serde_json::json!({ f: ["All", known] }));
                bad.push(serde_json::json!({ f: [known, "All"] }));
                bad.push(serde_json::json!({ f: ["All", "All"] }));
            }
            for b in &bad {
                ctx.state(1);
                ctx.op(1);
                // what the C function reads is JSON: names that JSON cannot carry to it are refused there
                let Ok(ap) = serde_json::from_value(b.clone()) else { continue };
                if C.user_key(&w.pol[0].0, &w.mk, &ap, "")?.is_ok() {
                    return Err(format!("a key is issued for {b}"));
                }
            }
            for a in &names {
                for l in [vec![a.clone()], vec![sp.attr((0, 0)), a.clone()], vec![a.clone(), sp.attr((1, 1))]] {
                    for v in SEAL {
                        ctx.state(1);
                        ctx.op(1);
                        if v.seal(&w.pol[0].0, &w.pk, &l, b"u", b"")?.is_ok() {
                            return Err(format!("{v:?} encrypts for {l:?}"));
                        }
                    }
                }
            }
            Ok(())
        });
    }
}

/// P03
pub fn rotations(ctx: &Ctx) {
    let sp = Spec::new(&[("L", &["a", "b", "c"], true), ("D", &["x", "y"], false)], 40);
    let l = |i, j| Ap::L((i, j));
    let mut keys: Vec<Ap> = sp.all().into_iter().map(Ap::L).collect();
    keys.extend([
        Ap::and(l(0, 1), l(1, 0)),
        Ap::or(l(1, 0), l(1, 1)),
        Ap::and(l(0, 2), Ap::or(l(1, 0), l(1, 1))),
        Ap::or(l(0, 0), Ap::and(l(1, 0), l(1, 1))),
        Ap::All,
    ]);
    let sets: Vec<Vec<At>> = vec![
        vec![(0, 0)], vec![(0, 1)], vec![(0, 2)], vec![(1, 0)], vec![(1, 1)],
        vec![(0, 1), (1, 0)], vec![(0, 2), (1, 1)], vec![(1, 0), (1, 1)], vec![(0, 0), (0, 1), (1, 0)],
    ];
    let mut histories: Vec<(&str, Vec<Vec<At>>)> = vec![
        ("one at a time", vec![vec![(1, 0)], vec![(0, 1)], vec![(1, 0)]]),
        ("lists", vec![vec![(1, 0), (0, 1)], vec![(0, 0), (0, 0)], vec![(1, 1), (1, 0), (1, 1), (0, 2)]]),
    ];
    if !ctx.quick() {
        histories.push(("many", (0..12).map(|i| vec![sp.all()[i * 7 % 5]]).collect()));
        histories.push(("all at once", vec![sp.all(), sp.all(), sp.all().into_iter().rev().collect()]));
    }
    for (name, t) in histories {
        grid(ctx, name, &sp, &t, &keys, &sets);
    }
}

/// P04: rotate through C until the maximum, use each value, and one more is refused
pub fn slots(ctx: &Ctx) {
    let mut jobs = vec![];
    for max in 1..=ctx.pick(5u32, 8) {
        for n in 1..=max as usize {
            for h in [false, true] {
                jobs.push((max, n, h));
            }
        }
    }
    for max in ctx.pick(vec![64, 257], vec![64, 128, 255, 256, 257, 1000]) {
        jobs.push((max, 2, false));
        jobs.push((max, max as usize, false));
    }
    ctx.par(&jobs, |(max, n, h)| {
        ctx.case(format!("C slots {n} of {max} {h}"), || with_room(1 << 20, || {
            let sp = Spec { axes: vec![("A".into(), (0..*n).map(|i| format!("v{i}")).collect(), *h)], max: *max };
            let left = *max as usize - n;
            let last = (0, n - 1);
            let w = World::new(sp.clone(), &if left > 0 { vec![vec![last; left]] } else { vec![] })?;
            ctx.state(1);
            let g = w.pol.len() - 1;
            let mut uses = vec![(g, last, true)];
            if left > 0 {
                uses.push((0, last, false));
            }
            let (key, hd) = w.seal(SEAL[n % 2], g, &[last])?;
            for (kg, a, want) in uses {
                ctx.trace(1);
                ctx.op(1);
                judge_open(SEAL[left % 2].open(&w.key(kg, &Ap::L(a))?, &hd), want, &key, b"uid", b"ad")?;
            }
            // each remaining attribute
            for i in [0, n / 2] {
                let (key, hd) = w.seal(C, g, &[(0, i)])?;
                judge_open(C.open(&w.key(g, &Ap::L((0, i)))?, &hd), true, &key, b"uid", b"ad")?;
            }
            if C.rotate(&w.pol[g].0, &w.sp.attrs(&[(0, 0)]))?.is_ok() {
                return Err("a rotation beyond the maximum is accepted".into());
            }
            // master keys made afterwards serve all values as well
            let (mk, pk, _) = must(C.master(&w.pol[g].0), "master keys")?;
            let w = World { mk, pk, ..w };
            let (key, hd) = w.seal(CCache, g, &[last])?;
            judge_open(CCache.open(&w.key(g, &Ap::L(last))?, &hd), true, &key, b"uid", b"ad")?;
            // values beyond master keys for fewer: refused
            if *n > 1 || left > 0 {
                let small = Spec { axes: vec![("A".into(), vec!["v0".into()], *h)], max: 1 };
                let (mk, pk, _) = must(C.master(&must(C.policy(&small), "policy")?), "master keys")?;
                let top = sp.attr(last);
                if C.user_key(&w.pol[g].0, &mk, &Ap::L(last).real(&sp), "")?.is_ok() {
                    return Err("a key beyond the master key is issued".into());
                }
                for v in SEAL {
                    if v.seal(&w.pol[g].0, &pk, std::slice::from_ref(&top), b"u", b"")?.is_ok() {
                        return Err("a header beyond the public key is made".into());
                    }
                }
            }
            Ok(())
        }));
    });
}

fn pat(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 29 + k) as u8).collect()
}

/// P13
pub fn headers(ctx: &Ctx) {
    let sp = Spec::new(&[("L", &["a", "b", "c"], true), ("D", &["x", "y"], false)], 5);
    let mut made = None;
    ctx.case("C headers: setup", || {
        let w = World::new(sp.clone(), &[])?;
        let ap = Ap::and(Ap::L((0, 1)), Ap::L((1, 0)));
        let good = w.key(0, &ap)?;
        let other = World::new(sp.clone(), &[])?.key(0, &ap)?;
        let no = w.key(0, &Ap::and(Ap::L((0, 1)), Ap::L((1, 1))))?;
        made = Some((w, good, other, no));
        Ok(())
    });
    let Some((w, good, other, no)) = made else { return };
    let mut jobs: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    let lens = ctx.pick(vec![0, 1, 2, 4, 15, 16, 17, 255, 256, 300], (0..40).chain([255, 256, 257, 300, 4096, 65535, 65536, 70000]).collect());
    for u in &lens {
        for a in &lens {
            jobs.push((pat(*u, 1), pat(*a, 2)));
        }
    }
    for u in ctx.pick(vec![65535, 65536, 70000], vec![100_000, 1 << 20]) {
        jobs.push((pat(u, 1), pat(3, 2)));
        jobs.push((pat(3, 1), pat(u, 2)));
    }
    for c in crate::hyb::odd(!ctx.quick()) {
        jobs.push((c.clone(), b"ad".to_vec()));
        jobs.push((b"id".to_vec(), c));
    }
    let set = [(0, 0), (1, 0)];
    let idx: Vec<usize> = (0..jobs.len()).collect();
    ctx.par(&idx, |i| {
        let (uid, ad) = &jobs[*i];
        ctx.case(format!("C header {} {} bytes, {} {}", uid.len(), ad.len(), hx(&uid[..uid.len().min(12)]), hx(&ad[..ad.len().min(12)])), || with_room((1 << 21) + 20000, || {
            ctx.state(1);
            let v = SEAL[i % 2];
            let (key, h) = must(v.seal(&w.pol[0].0, &w.pk, &w.sp.attrs(&set), uid, ad), "header")?;
            for o in SEAL {
                ctx.trace(1);
                ctx.op(3);
                judge_open(o.open(&good, &h), true, &key, uid, ad).map_err(|e| format!("by {v:?}, opened by {o:?}: {e}"))?;
                judge_open(o.open(&no, &h), false, &key, uid, ad)?;
                match o.open(&other, &h)? {
                    Ok((k, _)) if k == key => return Err("the key of another master key finds the symmetric key".into()),
                    // without metadata nothing tells that the key is wrong
                    Ok(_) if !uid.is_empty() || !ad.is_empty() => return Err("the key of another master key obtains a key".into()),
                    _ => {}
                }
            }
            Ok(())
        }));
    });
}

/// P14
pub fn altered(ctx: &Ctx) {
    let sp = Spec::new(&[("D", &["x", "y"], false)], 2);
    let mut made = None;
    ctx.case("C altered headers: setup", || {
        let w = World::new(sp.clone(), &[])?;
        let uk = w.key(0, &Ap::L((0, 0)))?;
        let (key, h) = w.seal(C, 0, &[(0, 0)])?;
        let (_, h2) = w.seal(CCache, 0, &[(0, 0)])?;
        made = Some((uk, key, h, h2));
        Ok(())
    });
    let Some((uk, key, h, h2)) = made else { return };
    let l = u32::from_be_bytes(h[..4].try_into().unwrap()) as usize;
    let mut alt: Vec<(String, Vec<u8>)> = vec![];
    for i in 0..h.len() {
        alt.push((format!("cut {i}"), h[..i].to_vec()));
        if i >= 20 && i < l && i % ctx.pick(9, 2) != 0 {
            continue;
        }
        for x in [h[i] ^ 1, h[i] ^ 0x80, h[i].wrapping_add(1), 0, 0xff] {
            if x != h[i] {
                let mut f = h.clone();
                f[i] = x;
                alt.push((format!("byte {i} {x}"), f));
            }
        }
    }
    for n in [1, 2, 4, 16, 40] {
        for x in [0u8, 0xff] {
            alt.push((format!("extended by {n} {x}"), [&h[..], &vec![x; n]].concat()));
        }
    }
    // one field of another header
    let f = [0..4, 4..4 + l, 4 + l..16 + l, 16 + l..20 + l, 20 + l..h.len()];
    for r in f.iter().filter(|_| h.len() == h2.len()) {
        let mut x = h.clone();
        x[r.clone()].copy_from_slice(&h2[r.clone()]);
        if x != h {
            alt.push((format!("field {r:?} of another header"), x));
        }
    }
    for r in [0..4, 16 + l..20 + l] {
        for n in [0u32, 1, 11, 12, 15, 16, 27, 28, l as u32 - 1, l as u32 + 1, l as u32 + 12, h.len() as u32 - 4, h.len() as u32, 0x7fff_ffff, 0x8000_0000, u32::MAX] {
            let mut x = h.clone();
            x[r.clone()].copy_from_slice(&n.to_be_bytes());
            if x != h {
                alt.push((format!("length at {} {n}", r.start), x));
            }
        }
    }
    let chunks: Vec<&[(String, Vec<u8>)]> = alt.chunks(16).collect();
    let idx: Vec<usize> = (0..chunks.len()).collect();
    ctx.par(&idx, |i| {
        ctx.case(format!("C altered headers {i}"), || {
            for (what, x) in chunks[*i] {
                ctx.state(1);
                for v in SEAL {
                    ctx.op(1);
                    match v.open(&uk, x)? {
                        Err(_) => ctx.outcome("C: refused", 1),
                        Ok((k, _)) if k != key => return Err(format!("{v:?} {what}: another symmetric key")),
                        Ok((_, (u, a))) if u.is_empty() && a.is_empty() => ctx.outcome("C: key only", 1),
                        Ok((_, (u, a))) if u == b"uid" && a == b"ad" => ctx.outcome("C: original", 1),
                        Ok((_, m)) => return Err(format!("{v:?} {what}: metadata {m:?}")),
                    }
                }
                ctx.trace(1);
            }
            Ok(())
        });
    });
}

/// P15
pub fn blocks(ctx: &Ctx) {
    let key = pat(32, 9);
    let uids: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], b"a".to_vec(), b"a\0".to_vec(), b"a\0b".to_vec(), b"a ".to_vec(), vec![0xff, 0xfe], pat(8, 3), pat(9, 3), pat(16, 4), pat(300, 5)];
    let numbers: Vec<u64> = vec![0, 1, 2, 127, 128, 255, 256, 65535, 65536, (1 << 24) + 1, (1 << 31) - 1];
    let lens: Vec<usize> = (1..ctx.pick(34, 300)).chain([63, 64, 65, 255, 256, 257, 4095, 4096, 65536]).chain(ctx.pick(vec![], vec![1 << 20, (1 << 24) + 3])).collect();
    let mut jobs = vec![];
    for u in &uids {
        for n in &numbers {
            jobs.push((u, *n));
        }
    }
    let ids = jobs.clone();
    ctx.par(&jobs, |(u, n)| {
        ctx.case(format!("C block {} {n}", hx(&u[..u.len().min(10)])), || {
            for len in &lens {
                ctx.state(1);
                ctx.op(2);
                let d = pat(*len, 7);
                let b = must(C.block(true, &key, u, *n, &d), "block")?;
                if b.len() != d.len() + 28 {
                    return Err(format!("a block of {} bytes for {len}", b.len()));
                }
                if must(C.block(false, &key, u, *n, &b), "opening")? != d {
                    return Err(format!("{len} bytes: other data"));
                }
            }
            for len in [1usize, 16, 20] {
                let b = must(C.block(true, &key, u, *n, &pat(len, 1)), "block")?;
                let refused = |what: String, k: &[u8], u: &[u8], n: u64, b: &[u8]| -> Result<(), String> {
                    ctx.op(1);
                    ctx.trace(1);
                    match C.block(false, k, u, n, b)? {
                        Ok(_) => Err(format!("{what}: opened")),
                        Err(_) => Ok(()),
                    }
                };
                for (v, m) in &ids {
                    if (v, m) != (u, n) {
                        refused(format!("as block {m} of {v:?}"), &key, v, *m, &b)?;
                    }
                }
                for i in 0..256 {
                    let mut k = key.clone();
                    k[i / 8] ^= 1 << (i % 8);
                    refused(format!("key bit {i}"), &k, u, *n, &b)?;
                }
                for i in 0..b.len() * 8 {
                    let mut x = b.clone();
                    x[i / 8] ^= 1 << (i % 8);
                    refused(format!("bit {i}"), &key, u, *n, &x)?;
                }
                for i in 0..b.len() {
                    refused(format!("cut {i}"), &key, u, *n, &b[..i])?;
                    refused(format!("from {}", i + 1), &key, u, *n, &b[i + 1..])?;
                }
                for i in 1..20 {
                    refused(format!("extended by {i}"), &key, u, *n, &[&b[..], &vec![0; i]].concat())?;
                }
            }
            if C.block(true, &key, u, *n, &[])?.is_ok() {
                return Err("an empty block is made".into());
            }
            Ok(())
        });
    });
}

/// P09: what the C functions return is in the published format
pub fn formats(ctx: &Ctx) {
    for n in ctx.pick(vec![1usize, 2, 3, 8], vec![1, 2, 3, 4, 8, 33, 64, 100]) {
        ctx.case(format!("C objects of {n} values"), || with_room(1 << 17, || {
            let sp = Spec { axes: vec![("A".into(), (0..n).map(|i| format!("v{i}")).collect(), true)], max: n as u32 + 1 };
            let w = World::new(sp.clone(), &[vec![(0, n - 1)]])?;
            ctx.state(1);
            fn same<T: cosmian_abe_gpsw::core::gpsw::AsBytes>(what: &str, b: &[u8], len: usize) -> Result<(), String> {
                let o: T = parse(b)?;
                if bytes(&o)? != b || o.len_bytes() != b.len() || b.len() != len {
                    return Err(format!("{what}: {} bytes instead of {len}, or others when written again", b.len()));
                }
                Ok(())
            }
            ctx.trace(4);
            let slots = |b: &[u8]| b.get(..4).map(|x| u32::from_be_bytes(x.try_into().unwrap()) as usize).ok_or("a short key");
            let (t, u) = (slots(&w.mk)?, slots(&w.pk)?);
            if t != u || t < n + 1 {
                return Err(format!("master keys of {t} and {u} slots for {} values", n + 1));
            }
            same::<Mk<Bls>>("private key", &w.mk, 4 + 32 * t + 32)?;
            same::<Pk<Bls>>("public key", &w.pk, 4 + 48 * t + 288)?;
            for g in [0, 1] {
                let uk = w.key(g, &Ap::L((0, n - 1)))?;
                let rows = n + g;
                let m = msp_part(&uk).ok_or("the layout of a user key")?;
                let cols = u32::from_be_bytes(m.get(4..8).ok_or("a short span program")?.try_into().unwrap()) as usize;
                same::<Uk<Bls>>("user key", &uk, 4 + 96 * rows + 8 + 4 * rows + 32 * rows * cols)?;
                for v in SEAL {
                    let (key, h) = w.seal(v, g, &[(0, n - 1)])?;
                    let l = u32::from_be_bytes(h.get(..4).ok_or("a short header")?.try_into().unwrap()) as usize;
                    // each attribute is encrypted under its latest value
                    same::<Ct<Bls>>("encapsulation", h.get(4..4 + l).ok_or("a short header")?, 8 + 52 + 288)?;
                    judge_open(Rust.open(&uk, &h), true, &key, b"uid", b"ad")?;
                }
            }
            Ok(())
        }));
    }
}
