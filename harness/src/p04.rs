//! P04: every attribute creation a policy allows is usable; beyond it, refused
use crate::{abe::*, pol::*, sup::*, toy};
use cosmian_abe_gpsw::core::{msp::Node, Engine};
use cosmian_abe_gpsw::interfaces::abe_policy::{AccessPolicy, Policy};

/// compositions of n into k parts >= 1
fn splits(n: usize, k: usize) -> Vec<Vec<usize>> {
    if k == 1 {
        return vec![vec![n]];
    }
    (1..=n.saturating_sub(k - 1))
        .flat_map(|a| {
            splits(n - a, k - 1).into_iter().map(move |mut v| {
                v.insert(0, a);
                v
            })
        })
        .collect()
}

fn spec_of(sizes: &[usize], hier: bool, max: u32) -> Spec {
    Spec {
        axes: sizes
            .iter()
            .enumerate()
            .map(|(i, n)| (format!("X{i}"), (0..*n).map(|j| format!("v{j}")).collect(), hier && i == 0))
            .collect(),
        max,
    }
}

fn check<A: Sch>(ctx: &Ctx, sizes: &[usize], rot: &[At], max: u32, hier: bool, late_axes: bool) -> Result<(), String> {
    let sp = spec_of(sizes, hier, max);
    let (mut pol, keys);
    if late_axes {
        // master keys generated before anything is created
        pol = Policy::new(max);
        keys = e_master::<A>(&pol)?;
        for i in 0..sp.axes.len() {
            pol.add_axis(&sp.axis(i)).map_err(s("add_axis"))?;
        }
    } else {
        pol = sp.policy()?;
        keys = e_master::<A>(&pol)?;
    }
    let (mk, pk, dk) = &keys;
    let mut old: Vec<(At, Ct<A>, Vec<u8>)> = vec![];
    let enc_one = |pol: &Policy, a: At| -> Result<(At, Ct<A>, Vec<u8>), String> {
        let m = e_pt::<A>()?;
        let ct = e_enc::<A>(pol, pk, &[sp.attr(a)], &m)?;
        Ok((a, ct, bytes(&m)?))
    };
    for a in sp.all() {
        old.push(enc_one(&pol, a)?);
    }
    for a in rot {
        pol.rotate(&sp.attr(*a)).map_err(s("rotate"))?;
        old.push(enc_one(&pol, *a)?);
    }
    ctx.state(1);
    let eng = Engine::<A>::new();
    // one key per attribute opens every generation of it
    let all_key = e_key::<A>(&pol, mk, &AccessPolicy::All)?;
    let mut conj: Option<AccessPolicy> = None;
    for a in sp.all() {
        let leaf = AccessPolicy::Attr(sp.attr(a));
        let k = e_key::<A>(&pol, mk, &leaf)?;
        let d = eng.delegate_user_key(&pol, dk, &all_key, &leaf).map_err(s("delegation from the wildcard key"))?;
        let r = eng.delegate_user_key(&pol, dk, &k, &AccessPolicy::All).map_err(s("re-randomisation"))?;
        for (b, ct, m) in &old {
            let e = sp.expand(a).contains(b);
            for (w, key) in [("issued", &k), ("delegated", &d), ("randomised", &r)] {
                judge(&e_dec::<A>(ct, key)?, e, m).map_err(|x| format!("{w} key for {:?} on {:?}: {x}", sp.attr(a), sp.attr(*b)))?;
                ctx.op(1);
            }
        }
        ctx.op(3);
        if !(hier && a.0 == 0) {
            conj = Some(match conj {
                None => leaf,
                Some(c) => c & leaf,
            });
        }
    }
    for (b, ct, m) in &old {
        judge(&e_dec::<A>(ct, &all_key)?, true, m).map_err(|x| format!("wildcard key on {:?}: {x}", sp.attr(*b)))?;
    }
    // all attributes at once
    let m = e_pt::<A>()?;
    let ct = e_enc::<A>(&pol, pk, &sp.attrs(&sp.all()), &m).map_err(|e| format!("all attributes at once: {e}"))?;
    let key = e_key::<A>(&pol, mk, &conj.unwrap_or(AccessPolicy::All))?;
    judge(&e_dec::<A>(&ct, &key)?, true, &bytes(&m)?).map_err(|e| format!("all attributes at once: {e}"))?;
    ctx.trace(1);
    ctx.outcome(if pol.last_attribute_value == max { "capacity exhausted" } else { "capacity left" }, 1);
    Ok(())
}

/// a policy with many creations, all of them used by rotations of three attributes
fn many<A: Sch>(ctx: &Ctx, max: u32, late: bool) -> Result<(), String> {
    let sp = spec_of(&[2, 1], true, max);
    let mut pol = if late { Policy::new(max) } else { sp.policy()? };
    let (mk, pk, dk) = e_master::<A>(&pol)?;
    if late {
        for i in 0..sp.axes.len() {
            pol.add_axis(&sp.axis(i)).map_err(s("add_axis"))?;
        }
    }
    let all = sp.all();
    let first = e_pt::<A>()?;
    let c0 = e_enc::<A>(&pol, &pk, &sp.attrs(&all[..1]), &first)?;
    let mut i = 0;
    while pol.last_attribute_value < max {
        // the last values go to each attribute, the others mostly to the last
        let a = if max - pol.last_attribute_value <= 6 { all[i % all.len()] } else { all[all.len() - 1] };
        pol.rotate(&sp.attr(a)).map_err(|e| format!("rotation to {}: {e}", pol.last_attribute_value + 1))?;
        i += 1;
    }
    if pol.rotate(&sp.attr(all[0])).is_ok() {
        return Err("more creations than the maximum".into());
    }
    ctx.state(1);
    let eng = Engine::<A>::new();
    let whole = if max <= 300 { Some(e_key::<A>(&pol, &mk, &AccessPolicy::All)?) } else { None };
    for a in &all {
        let m = e_pt::<A>()?;
        let ct = e_enc::<A>(&pol, &pk, &sp.attrs(&[*a]), &m).map_err(|e| format!("encryption for {:?}: {e}", sp.attr(*a)))?;
        for b in &all {
            if max > 300 && *b == all[all.len() - 1] {
                continue; // a key for all the generations of that one is large
            }
            let leaf = AccessPolicy::Attr(sp.attr(*b));
            let k = e_key::<A>(&pol, &mk, &leaf)?;
            let e = sp.expand(*b).contains(a);
            judge(&e_dec::<A>(&ct, &k)?, e, &bytes(&m)?).map_err(|x| format!("key for {:?} on {:?}: {x}", sp.attr(*b), sp.attr(*a)))?;
            let e0 = sp.expand(*b).contains(&all[0]);
            judge(&e_dec::<A>(&c0, &k)?, e0, &bytes(&first)?).map_err(|x| format!("key for {:?} on the first ciphertext: {x}", sp.attr(*b)))?;
            let d = eng.delegate_user_key(&pol, &dk, &k, &leaf).map_err(s("delegation"))?;
            judge(&e_dec::<A>(&ct, &d)?, e, &bytes(&m)?).map_err(|x| format!("delegated key for {:?} on {:?}: {x}", sp.attr(*b), sp.attr(*a)))?;
            ctx.op(6);
            ctx.trace(1);
        }
        if let Some(w) = &whole {
            judge(&e_dec::<A>(&ct, w)?, true, &bytes(&m)?).map_err(|x| format!("wildcard key on {:?}: {x}", sp.attr(*a)))?;
        }
    }
    // values themselves, on the scheme below
    let m = rand_pt::<A>()?;
    for v in [1, max / 2, max.saturating_sub(1), max] {
        let ct = enc::<A>(&m, &[v], &pk).map_err(|e| format!("value {v}: {e}"))?;
        let k = keygen::<A>(&Node::Leaf(v), &mk).map_err(|e| format!("value {v}: {e}"))?;
        judge(&dec::<A>(&ct, &k)?, true, &bytes(&m)?).map_err(|e| format!("value {v}: {e}"))?;
    }
    ctx.outcome("many creations exhausted", 1);
    Ok(())
}

/// attribute values beyond the slots of the master keys: refused by every operation
fn beyond<A: Sch>(ctx: &Ctx, n: usize) -> Result<(), String> {
    let (mk, pk, dk) = master::<A>(n)?;
    let slots = if n == 0 { 0 } else { u32::from_be_bytes(bytes(&pk)?[..4].try_into().unwrap()) };
    if (slots as usize) < n {
        return Err(format!("{n} slots requested, {slots} made"));
    }
    let (mk2, _, _) = master::<A>(n + 80)?;
    for v in [slots, slots + 1, slots + 2, slots + 64, i32::MAX as u32, i32::MAX as u32 + 1, u32::MAX] {
        ctx.state(1);
        let mut nodes = vec![Node::Leaf(v)];
        if slots > 1 {
            nodes.push(Node::Leaf(1) & Node::Leaf(v));
            nodes.push(Node::Leaf(v) | Node::Leaf(0));
        }
        for nd in &nodes {
            ctx.op(1);
            if keygen::<A>(nd, &mk).is_ok() {
                return Err(format!("key issued for {nd} with {slots} slots"));
            }
        }
        let mut lists = vec![vec![v]];
        if slots > 2 {
            lists.push(vec![v, 0]);
            lists.push(vec![0, v]);
        }
        for g in lists {
            ctx.op(1);
            let m = rand_pt::<A>()?;
            if enc::<A>(&m, &g, &pk).is_ok() {
                return Err(format!("encryption to {g:?} accepted with {slots} slots"));
            }
        }
        // delegation with a parent key from bigger master keys
        if (v as usize) < n + 80 {
            let parent = keygen::<A>(&(Node::Leaf(v) | Node::Leaf(n as u32 + 79)), &mk2);
            if let Ok(parent) = parent {
                for target in [Some(msp(&Node::Leaf(v))?), None] {
                    ctx.op(1);
                    if A::key_delegation(&A::default(), &target, &parent, &dk).is_ok() {
                        return Err(format!("delegation to {v} accepted with {slots} slots"));
                    }
                }
            }
        }
        ctx.outcome("refused beyond coverage", 1);
    }
    ctx.trace(1);
    Ok(())
}

/// a policy that outgrew the master keys
fn outgrown<A: Sch>(ctx: &Ctx, max: u32, more: u32) -> Result<(), String> {
    let sp = spec_of(&[1], false, max);
    let small = sp.policy()?;
    let (mk, pk, dk) = e_master::<A>(&small)?;
    let slots = u32::from_be_bytes(bytes(&pk)?[..4].try_into().unwrap());
    let k0 = e_key::<A>(&small, &mk, &AccessPolicy::All)?;
    let mut big = small.clone();
    big.max_attribute_creations = max + more;
    let at = sp.attr((0, 0));
    while big.last_attribute_value < big.max_attribute_creations {
        big.rotate(&at).map_err(s("rotate"))?;
        let v = big.last_attribute_value;
        let covered = v < slots;
        ctx.state(1);
        ctx.op(3);
        let m = e_pt::<A>()?;
        let e = e_enc::<A>(&big, &pk, &[at.clone()], &m);
        let k = e_key::<A>(&big, &mk, &AccessPolicy::Attr(at.clone()));
        let d = Engine::<A>::new().delegate_user_key(&big, &dk, &k0, &AccessPolicy::Attr(at.clone()));
        if v <= max && (e.is_err() || k.is_err()) {
            return Err(format!("value {v} of {max} unusable: {:?} {:?}", e.err(), k.err()));
        }
        if !covered && (e.is_ok() || k.is_ok()) {
            return Err(format!("value {v} accepted with {slots} slots"));
        }
        if d.is_ok() {
            return Err("delegation to a rotated attribute accepted".into());
        }
        ctx.trace(1);
        ctx.outcome(if covered { "covered" } else { "refused beyond coverage" }, 1);
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    crate::cif::slots(ctx);
    let mut jobs = vec![];
    for max in 1..=ctx.pick(6usize, 9) {
        for created in 1..=max {
            for axes in 1..=created.min(3) {
                for sizes in splits(created, axes) {
                    for r in 0..=(max - created).min(4) {
                        for hier in [false, true] {
                            jobs.push((sizes.clone(), r, max as u32, hier));
                        }
                    }
                    // exhaust
                    jobs.push((sizes.clone(), max - created, max as u32, false));
                }
            }
        }
    }
    jobs.sort();
    jobs.dedup();
    ctx.par(&jobs, |(sizes, r, max, hier)| {
        let sp = spec_of(sizes, *hier, *max);
        let all = sp.all();
        // rotations: all on the first, all on the last, round robin
        let mut rots: Vec<Vec<At>> = vec![
            vec![all[0]; *r],
            vec![*all.last().unwrap(); *r],
            (0..*r).map(|i| all[i % all.len()]).collect(),
        ];
        rots.sort();
        rots.dedup();
        for rot in rots {
            for late in [false, true] {
                ctx.case(format!("max {max} axes {sizes:?} hier {hier} rotations {rot:?} late {late}"), || {
                    toy::generic(ctx.seed);
                    check::<G61>(ctx, sizes, &rot, *max, *hier, late)
                });
            }
        }
    });
    // many creations: values around the sizes of smaller integer types
    let maxs: Vec<u32> = if ctx.quick() {
        vec![31, 32, 33, 63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 1023, 4096, 32767, 32768, 65534, 65535, 65536, 65537]
    } else {
        (10..=300).chain([511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 131_072, 1 << 20]).collect()
    };
    ctx.par(&maxs, |max| {
        for late in [false, true] {
            ctx.case(format!("many creations {max} late {late}"), || {
                toy::generic(ctx.seed);
                many::<G61>(ctx, *max, late)
            });
        }
    });
    let ns: Vec<usize> = (0..=ctx.pick(8, 20)).collect();
    ctx.par(&ns, |n| {
        ctx.case(format!("beyond {n} slots"), || {
            toy::generic(ctx.seed);
            beyond::<G61>(ctx, *n)
        });
        for more in 1..=3 {
            ctx.case(format!("outgrown {n}+{more}"), || {
                toy::generic(ctx.seed);
                outgrown::<G61>(ctx, *n as u32 + 1, more)
            });
        }
    });
    let bl: Vec<(Vec<usize>, usize, u32, bool)> =
        jobs.iter().filter(|j| j.2 as usize <= ctx.pick(3, 5) && (!ctx.quick() || j.1 + j.0.iter().sum::<usize>() == j.2 as usize)).cloned().collect();
    ctx.par(&bl, |(sizes, r, max, hier)| {
        let sp = spec_of(sizes, *hier, *max);
        let all = sp.all();
        let rot: Vec<At> = (0..*r).map(|i| all[i % all.len()]).collect();
        ctx.case(format!("BLS12-381 max {max} axes {sizes:?} hier {hier} rotations {rot:?}"), || {
            check::<Bls>(ctx, sizes, &rot, *max, *hier, false)
        });
    });
    for n in [1usize, 3] {
        ctx.case(format!("BLS12-381 beyond {n} slots"), || beyond::<Bls>(ctx, n));
    }
    ctx.sample(|| "max 3, axes [2], one rotation of the last attribute: value 3 issued, delegated, encrypted, decrypted".into());
}
