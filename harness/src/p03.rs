//! P03: rotation histories. Breadth-first search over histories of the real objects, each state
//! re-reached by replaying its history; deduplicated by the abstract state (attribute versions, what
//! each key and ciphertext was made from), which determines every future observation in the model.
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};

use crate::{abe::*, pol::*, sup::*, toy};
use cosmian_abe_gpsw::interfaces::abe_policy::{Attribute, Policy};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Op {
    Rotate(At),
    Issue(usize),
    Encrypt(usize),
    Reload,
    AddAxis,
}

struct Menu {
    spec: Spec, // last axis is added later by AddAxis
    keys: Vec<Ap>,
    cts: Vec<Vec<At>>,
    rot: Vec<At>,
    max_keys: usize,
    max_cts: usize,
    depth: usize,
}

#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
struct Model {
    cur: BTreeMap<At, u32>,
    keys: BTreeSet<(usize, BTreeMap<At, u32>)>,
    cts: BTreeSet<(usize, BTreeMap<At, u32>)>,
    reloaded: bool,
    created: u32,
}

struct Real<A: Sch> {
    pol: Policy,
    mk: Mk<A>,
    pk: Pk<A>,
    keys: Vec<(Uk<A>, usize, BTreeMap<At, u32>)>,
    cts: Vec<(Ct<A>, Vec<u8>, usize, BTreeMap<At, u32>)>,
}

fn opens(m: &Menu, k: &(usize, BTreeMap<At, u32>), c: &BTreeMap<At, u32>) -> bool {
    m.keys[k.0].eval(&m.spec, &|a| match (c.get(&a), k.1.get(&a)) {
        (Some(v), Some(w)) => v <= w,
        _ => false,
    })
}

fn exec<A: Sch>(ctx: &Ctx, menu: &Menu, hist: &[Op]) -> Result<Option<Model>, String> {
    let sp = &menu.spec;
    let later = sp.axes.len() - 1;
    let mut pol = Policy::new(sp.max);
    for i in 0..later {
        pol.add_axis(&sp.axis(i)).map_err(s("add_axis"))?;
    }
    let (mk, pk, _) = e_master::<A>(&pol)?;
    let mut r = Real::<A> { pol, mk, pk, keys: vec![], cts: vec![] };
    let mut cur: BTreeMap<At, u32> = sp.all().into_iter().filter(|a| a.0 < later).map(|a| (a, 0)).collect();
    let mut created = cur.len() as u32;
    let mut reloaded = false;
    for (step, op) in hist.iter().enumerate() {
        let last = step + 1 == hist.len();
        match *op {
            Op::Rotate(a) => {
                let can = created < sp.max;
                let before = r.pol.to_string().len();
                match r.pol.rotate(&sp.attr(a)) {
                    Ok(()) if can => {
                        created += 1;
                        *cur.get_mut(&a).unwrap() += 1;
                    }
                    Err(e) if can => return Err(format!("{hist:?}: rotation refused: {e}")),
                    Ok(()) => return Err(format!("{hist:?}: rotation beyond capacity accepted")),
                    Err(_) => {
                        if before != r.pol.to_string().len() {
                            return Err(format!("{hist:?}: refused rotation changed the policy"));
                        }
                        return Ok(None);
                    }
                }
            }
            Op::AddAxis => {
                if cur.contains_key(&(later, 0)) || created + sp.axes[later].1.len() as u32 > sp.max {
                    return Ok(None);
                }
                r.pol.add_axis(&sp.axis(later)).map_err(s("add_axis"))?;
                for j in 0..sp.axes[later].1.len() {
                    cur.insert((later, j), 0);
                    created += 1;
                }
            }
            Op::Issue(k) => {
                if r.keys.len() >= menu.max_keys || menu.keys[k].leaves().iter().any(|a| !cur.contains_key(a)) {
                    return Ok(None);
                }
                let key = e_key::<A>(&r.pol, &r.mk, &menu.keys[k].real(sp))?;
                r.keys.push((key, k, cur.clone()));
            }
            Op::Encrypt(c) => {
                if r.cts.len() >= menu.max_cts || menu.cts[c].iter().any(|a| !cur.contains_key(a)) {
                    return Ok(None);
                }
                let m = e_pt::<A>()?;
                let ct = e_enc::<A>(&r.pol, &r.pk, &sp.attrs(&menu.cts[c]), &m)?;
                let v = menu.cts[c].iter().map(|a| (*a, cur[a])).collect();
                r.cts.push((ct, bytes(&m)?, c, v));
            }
            Op::Reload => {
                if reloaded && hist[..step].last() == Some(&Op::Reload) {
                    return Ok(None);
                }
                reloaded = true;
                let txt = r.pol.to_string();
                r.pol = serde_json::from_str(&txt).map_err(s("policy reload"))?;
                r.mk = parse(&bytes(&r.mk)?)?;
                r.pk = parse(&bytes(&r.pk)?)?;
                for k in &mut r.keys {
                    k.0 = parse(&bytes(&k.0)?)?;
                }
                for c in &mut r.cts {
                    c.0 = parse(&bytes(&c.0)?)?;
                }
            }
        }
        if last {
            ctx.op(1);
        }
    }
    // invariant: every key against every ciphertext
    let (mut y, mut n) = (0, 0);
    for (key, k, kv) in &r.keys {
        for (ct, m, _, cv) in &r.cts {
            let e = opens(menu, &(*k, kv.clone()), cv);
            judge(&e_dec::<A>(ct, key)?, e, m).map_err(|x| {
                format!("history {hist:?}: key {} issued at {kv:?} on ciphertext {cv:?}: {x}", menu.keys[*k].text(sp))
            })?;
            if e {
                y += 1
            } else {
                n += 1
            }
        }
    }
    ctx.outcome("opened", y);
    ctx.outcome("refused", n);
    ctx.trace(1);
    Ok(Some(Model {
        cur,
        keys: r.keys.iter().map(|k| (k.1, k.2.clone())).collect(),
        cts: r.cts.iter().map(|c| (c.2, c.3.clone())).collect(),
        reloaded,
        created,
    }))
}

fn bfs<A: Sch>(ctx: &Ctx, menu: &Menu) -> Result<(), String> {
    let mut ops = vec![];
    for i in 0..menu.cts.len() {
        ops.push(Op::Encrypt(i));
    }
    for i in 0..menu.keys.len() {
        ops.push(Op::Issue(i));
    }
    for a in &menu.rot {
        ops.push(Op::Rotate(*a));
    }
    ops.push(Op::AddAxis);
    ops.push(Op::Reload);
    let mut seen = HashSet::new();
    let mut q: VecDeque<Vec<Op>> = VecDeque::from([vec![]]);
    seen.insert(exec::<A>(ctx, menu, &[])?.unwrap());
    ctx.state(1);
    while let Some(h) = q.pop_front() {
        ctx.beat();
        for op in &ops {
            let mut h2 = h.clone();
            h2.push(*op);
            if let Some(m) = exec::<A>(ctx, menu, &h2)? {
                if seen.insert(m) {
                    ctx.state(1);
                    if h2.len() < menu.depth {
                        q.push_back(h2);
                    }
                }
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    crate::cif::rotations(ctx);
    let spec = Spec::new(&[("H", &["h1", "h2"], true), ("D", &["a", "b"], false), ("N", &["n"], false)], 8);
    let (h1, h2, a, b, n) = ((0, 0), (0, 1), (1, 0), (1, 1), (2, 0));
    let l = Ap::L;
    let keys: Vec<Ap> = vec![
        l(a),
        l(h2),
        l(h1),
        Ap::and(l(a), l(h2)),
        Ap::or(l(a), l(b)),
        Ap::or(Ap::and(l(a), l(h1)), l(b)),
        Ap::and(Ap::or(l(a), l(b)), l(h2)),
        Ap::All,
        l(n),
    ];
    let cts: Vec<Vec<At>> = vec![vec![a], vec![h1], vec![a, h1], vec![h2, b], vec![b, h2, a], vec![n]];
    // every pair (key kind, ciphertext kind) with all rotations, deep
    let mut menus = vec![];
    for k in 0..keys.len() {
        for c in 0..cts.len() {
            let mut v: Vec<At> = keys[k].leaves();
            v.extend(cts[c].iter());
            if matches!(keys[k], Ap::All) {
                v = cts[c].clone();
                v.push(b);
            }
            if v.contains(&h2) {
                v.push(h1);
            }
            v.sort();
            v.dedup();
            v.retain(|x| x.0 != 2);
            if v.is_empty() {
                v.push(a);
            }
            menus.push(Menu {
                spec: spec.clone(),
                keys: vec![keys[k].clone()],
                cts: vec![cts[c].clone()],
                rot: v,
                max_keys: 2,
                max_cts: 2,
                depth: ctx.pick(6, 8),
            });
        }
    }
    ctx.par(&menus, |m| {
        ctx.case(format!("histories of key {} and ciphertext {:?}", m.keys[0].text(&spec), m.cts[0]), || {
            toy::generic(ctx.seed);
            bfs::<G61>(ctx, m)
        });
    });
    // mixed menus
    let mixed = |ks: &[usize], cs: &[usize], rot: &[At], depth| Menu {
        spec: spec.clone(),
        keys: ks.iter().map(|k| keys[*k].clone()).collect(),
        cts: cs.iter().map(|c| cts[*c].clone()).collect(),
        rot: rot.to_vec(),
        max_keys: 3,
        max_cts: 3,
        depth,
    };
    let d = ctx.pick(5, 6);
    let ms = vec![
        mixed(&[0, 3, 7], &[0, 2], &[a, h1], d),
        mixed(&[1, 5], &[1, 3, 4], &[h1, h2], d),
        mixed(&[6, 4], &[4, 3], &[a, b], d),
        mixed(&[7, 8], &[5, 0], &[a], d + 1),
    ];
    ctx.par(&ms, |m| {
        ctx.case(format!("mixed histories {:?} {:?}", m.keys.iter().map(|k| k.text(&spec)).collect::<Vec<_>>(), m.cts), || {
            toy::generic(ctx.seed);
            bfs::<G61>(ctx, m)
        });
    });
    // long histories: one attribute, or several in turn, rotated many times, with keys and ciphertexts of every generation
    let mut longs: Vec<(Vec<At>, Vec<usize>, Vec<usize>, usize, usize)> = vec![];
    for (k, c) in [(0usize, 0usize), (7, 0), (4, 0), (1, 1)] {
        let x = cts[c][0];
        longs.push((vec![x], vec![k], vec![c], ctx.pick(140, 520), 0));
        longs.push((vec![x], vec![k], vec![c], ctx.pick(40, 140), 1));
    }
    for turn in [vec![a, h1], vec![a, b, h2], vec![h1, h2], vec![b, a, a, h1, h2, h2, h2]] {
        longs.push((turn.clone(), vec![1, 3, 5, 7], vec![1, 2, 4], ctx.pick(14, 40), 3));
        longs.push((turn, vec![0, 2, 4, 6], vec![0, 3, 4], ctx.pick(14, 40), 0));
    }
    ctx.par(&longs, |(turn, ks, cs, n, reload)| {
        ctx.case(format!("long history rotating {turn:?} {n} times, keys {ks:?} ciphertexts {cs:?} reload {reload}"), || {
            toy::generic(ctx.seed);
            let m = Menu { spec: Spec { max: *n as u32 + 6, ..spec.clone() }, keys: keys.clone(), cts: cts.clone(), rot: vec![], max_keys: 10000, max_cts: 10000, depth: 0 };
            let mut h = vec![];
            for g in 0..=*n {
                if g > 0 {
                    h.push(Op::Rotate(turn[g % turn.len()]));
                }
                // in generations of all residues: keys and ciphertexts, either first
                let (i, e) = (ks.iter().map(|k| Op::Issue(*k)), cs.iter().map(|c| Op::Encrypt(*c)));
                if g % 2 == 0 {
                    h.extend(i.chain(e));
                } else {
                    h.extend(e.chain(i));
                }
                if *reload > 0 && g % 5 == *reload {
                    h.push(Op::Reload);
                }
            }
            match exec::<G61>(ctx, &m, &h).map_err(|e| e.rsplit("]: ").next().unwrap_or("").to_string())? {
                Some(s) => ctx.state(s.keys.len() as u64 * s.cts.len() as u64),
                None => return Err("the history does not run".into()),
            }
            Ok(())
        });
    });
    // attributes the policy does not know cannot be rotated
    ctx.case("rotation of unknown attributes", || {
        let mut p = spec.policy()?;
        for at in [Attribute::new("H", "zz"), Attribute::new("Q", "h1"), Attribute::new("h1", "H")] {
            let before = p.last_attribute_value;
            if p.rotate(&at).is_ok() || p.last_attribute_value != before {
                return Err(format!("rotated {at:?}"));
            }
        }
        Ok(())
    });
    // the product, shallower
    let bl: Vec<Menu> = [(3usize, 2usize), (1, 1), (7, 0), (5, 4), (4, 0), (6, 4)]
        .iter()
        .map(|(k, c)| Menu {
            spec: Spec { max: 7, ..spec.clone() },
            keys: vec![keys[*k].clone()],
            cts: vec![cts[*c].clone()],
            rot: vec![a, h1],
            max_keys: 1,
            max_cts: 1,
            depth: ctx.pick(4, 6),
        })
        .collect();
    ctx.par(&bl, |m| {
        ctx.case(format!("BLS12-381 histories of {} and {:?}", m.keys[0].text(&spec), m.cts[0]), || bfs::<Bls>(ctx, m));
    });
    ctx.sample(|| format!("{:?}", [Op::Issue(0), Op::Rotate(a), Op::Encrypt(0), Op::Reload]));
}
