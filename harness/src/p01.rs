//! P01: a key opens a ciphertext exactly when its formula accepts the attributes
use crate::{abe::*, form::*, sup::*, toy};
use cosmian_abe_gpsw::core::gpsw::AsBytes;

/// All subsets (and orders, and extra attributes) for one formula
fn formula<A: Sch>(ctx: &Ctx, f: &F, n_master: usize, all_orders: usize, extras: &[Vec<u32>]) -> Result<(), String> {
    let (mk, pk, _) = master::<A>(n_master)?;
    let key = keygen::<A>(&f.node(), &mk)?;
    let mut ls = f.leaves();
    ls.sort();
    let (mut yes, mut no) = (0, 0);
    for sub in subsets(&ls) {
        ctx.state(1);
        for ex in extras {
            let mut all = sub.clone();
            all.extend(ex.iter().filter(|e| !ls.contains(e)));
            for ord in orders(&all, all_orders) {
                let m = rand_pt::<A>()?;
                let mb = bytes(&m)?;
                let ct = enc::<A>(&m, &ord, &pk)?;
                let d = dec::<A>(&ct, &key)?;
                let expect = f.sat(&sub);
                judge(&d, expect, &mb).map_err(|e| format!("attributes {ord:?}: {e}"))?;
                if expect {
                    yes += 1
                } else {
                    no += 1
                }
                ctx.op(3);
                ctx.trace(1);
            }
        }
        // an attribute given twice is the same attribute
        for i in 0..sub.len() {
            let (mut last, mut first) = (sub.clone(), sub.clone());
            last.push(sub[i]);
            first.insert(0, sub[i]);
            for ord in [first, last] {
                let m = rand_pt::<A>()?;
                let Ok(ct) = enc::<A>(&m, &ord, &pk) else {
                    ctx.outcome("repeated attribute refused", 1);
                    continue;
                };
                judge(&dec::<A>(&ct, &key)?, f.sat(&sub), &bytes(&m)?).map_err(|e| format!("attributes {ord:?}: {e}"))?;
                ctx.op(3);
                ctx.trace(1);
                ctx.outcome("repeated attribute", 1);
            }
        }
        ctx.beat();
    }
    ctx.outcome("opened", yes);
    ctx.outcome("refused", no);
    Ok(())
}

fn chain(n: u32, gate: &dyn Fn(u32) -> bool, left: bool) -> F {
    let mut f = F::L(1);
    for i in 2..=n {
        let (a, b) = if left {
            (f, F::L(i))
        } else {
            (F::L(i), f)
        };
        f = if gate(i) {
            F::A(Box::new(a), Box::new(b))
        } else {
            F::O(Box::new(a), Box::new(b))
        };
    }
    f
}

/// big formula: judge full set, empty set, every single attribute, every one-missing set, and prefixes
fn big<A: Sch>(ctx: &Ctx, f: &F) -> Result<(), String> {
    let mut ls = f.leaves();
    ls.sort();
    let (mk, pk, _) = master::<A>(ls.len() + 4)?;
    let key = keygen::<A>(&f.node(), &mk)?;
    let mut sets: Vec<Vec<u32>> = vec![ls.clone(), vec![]];
    let step = if ls.len() > 100 { ls.len() / 20 } else { 1 };
    for i in (0..ls.len()).step_by(step).chain(ls.len() - 1..ls.len()) {
        sets.push(vec![ls[i]]);
        let mut w = ls.clone();
        w.remove(i);
        sets.push(w);
        sets.push(ls[..i].to_vec());
        sets.push(ls[i..].iter().rev().copied().collect());
        sets.push(ls.iter().copied().filter(|x| (*x as usize) % (i + 2) == 0).collect());
    }
    sets.sort();
    sets.dedup();
    for st in sets {
        ctx.state(1);
        let m = rand_pt::<A>()?;
        let ct = enc::<A>(&m, &st, &pk)?;
        let e = f.sat(&st);
        judge(&dec::<A>(&ct, &key)?, e, &bytes(&m)?).map_err(|x| format!("attributes {st:?}: {x}"))?;
        ctx.op(3);
        ctx.trace(1);
        ctx.outcome(if e { "opened" } else { "refused" }, 1);
    }
    Ok(())
}

/// every resolution of the randomness over F_q: keys, ciphertext, message
fn all_random(ctx: &Ctx, f: &F) -> Result<(), String> {
    const Q: u64 = 3;
    let mut ls = f.leaves();
    ls.sort();
    let n = ls.len();
    for t in 0..2u64.pow(n as u32) {
        let mut tv_ = vec![1u64];
        for i in 0..n {
            tv_.push(1 + (t >> i & 1));
        }
        for y in 0..Q {
            let mk: Mk<G3x> = parse(&toy_mk(&tv_, y, 1))?;
            // public key: t_i in G2, y in Gt: same exponents
            let pk: Pk<G3x> = parse(&toy_mk(&tv_, y, 1))?;
            for sub in subsets(&ls) {
                ctx.state(1);
                let expect = f.sat(&sub);
                let runs = toy::explore(false, 1 << 20, || {
                    let key = keygen::<G3x>(&f.node(), &mk)?;
                    let m = rand_pt::<G3x>()?;
                    let ct = enc::<G3x>(&m, &sub, &pk)?;
                    ctx.op(4);
                    judge(&dec::<G3x>(&ct, &key)?, expect, &m.try_into_bytes().unwrap())
                        .map_err(|e| format!("attributes {sub:?}, t={tv_:?}, y={y}: {e}"))
                })?;
                ctx.trace(runs);
                ctx.outcome(if expect { "opened" } else { "refused" }, runs);
                ctx.beat();
            }
        }
    }
    Ok(())
}

pub fn run(ctx: &Ctx) {
    // (a) every formula up to nmax leaves, every subset
    let nmax = ctx.pick(6, 8);
    for n in 1..=nmax {
        let ls: Vec<u32> = (1..=n).collect();
        let fs = trees(&ls);
        let scramble = [9u32, 2, 14, 0, 7, 5, 11, 3, 12];
        ctx.par(&fs, |f| {
            ctx.case(format!("formula {}", f.text()), || {
                toy::generic(ctx.seed);
                let ao = if n <= 4 { 4 } else { 1 };
                let ex: Vec<Vec<u32>> = if n <= 4 { vec![vec![], vec![0], vec![13, 15]] } else { vec![vec![], vec![13, 15]] };
                formula::<G61>(ctx, f, 16, ao, &ex)
            });
            if n <= 6 {
                let g = f.map(&|a| scramble[a as usize - 1]);
                ctx.case(format!("scrambled formula {}", g.text()), || {
                    toy::generic(ctx.seed + 1);
                    formula::<G61>(ctx, &g, 16, if n <= 3 { 5 } else { 1 }, &[vec![], vec![8, 1]])
                });
            }
        });
    }
    // every assignment of attribute numbers to leaves for n <= 4
    let fs: Vec<F> = (1..=4usize).flat_map(|k| trees_over(&(0..k as u32).collect::<Vec<_>>(), k)).collect();
    ctx.par(&fs, |f| {
        ctx.case(format!("permuted formula {}", f.text()), || {
            toy::generic(ctx.seed + 2);
            formula::<G61>(ctx, f, 5, 3, &[vec![]])
        });
    });
    // (b) chains, wide and balanced formulas
    let mut bigs: Vec<F> = vec![];
    for n in if ctx.quick() { vec![9u32, 17, 32, 64, 66, 130] } else { vec![9u32, 17, 32, 33, 64, 65, 66, 127, 129, 130, 257, 300] } {
        for left in [false, true] {
            bigs.push(chain(n, &|_| true, left));
            bigs.push(chain(n, &|_| false, left));
            bigs.push(chain(n, &|i| i % 2 == 0, left));
            bigs.push(chain(n, &|i| i % 3 == 0, left));
            bigs.push(chain(n, &|i| i % 3 != 0, left));
        }
    }
    for d in 3..=6u32 {
        for pat in 0..1 << d {
            let mut next = 0;
            fn bal(d: u32, pat: u32, next: &mut u32) -> F {
                if d == 0 {
                    *next += 1;
                    return F::L(*next);
                }
                let a = Box::new(bal(d - 1, pat, next));
                let b = Box::new(bal(d - 1, pat, next));
                if pat >> (d - 1) & 1 == 1 {
                    F::A(a, b)
                } else {
                    F::O(a, b)
                }
            }
            bigs.push(bal(d, pat, &mut next));
        }
    }
    bigs.sort_by_key(|f| std::cmp::Reverse(f.size()));
    ctx.par(&bigs, |f| {
        ctx.case(format!("big formula {}", f.text()), || {
            toy::generic(ctx.seed + 3);
            big::<G61>(ctx, f)
        });
    });
    // (c) all randomness over F_3
    let fs: Vec<F> = (1..=ctx.pick(3, 4)).flat_map(|n| trees(&(1..=n).collect::<Vec<u32>>())).collect();
    ctx.par(&fs, |f| {
        ctx.case(format!("all randomness, formula {}", f.text()), || all_random(ctx, f));
    });
    // (d) the product: BLS12-381
    let fs: Vec<F> = (1..=ctx.pick(3, 5)).flat_map(|n| trees(&(1..=n).collect::<Vec<u32>>())).collect();
    ctx.par(&fs, |f| {
        ctx.case(format!("BLS12-381 formula {}", f.text()), || formula::<Bls>(ctx, f, 8, 2, &[vec![], vec![6]]));
    });
    let few: Vec<&F> = bigs.iter().collect();
    ctx.par(&few, |f| {
        ctx.case(format!("BLS12-381 big formula {}", f.text()), || {
            // full and one-missing sets only
            let mut ls = f.leaves();
            ls.sort();
            let (mk, pk, _) = master::<Bls>(ls.len() + 2)?;
            let key = keygen::<Bls>(&f.node(), &mk)?;
            for i in 0..=ls.len() {
                if ls.len() > ctx.pick(9, 17) && ![0, ls.len() / 2, ls.len() - 1, ls.len()].contains(&i) {
                    continue;
                }
                let mut st = ls.clone();
                if i < ls.len() {
                    st.remove(i);
                }
                let m = rand_pt::<Bls>()?;
                let ct = enc::<Bls>(&m, &st, &pk)?;
                judge(&dec::<Bls>(&ct, &key)?, f.sat(&st), &bytes(&m)?).map_err(|x| format!("attributes {st:?}: {x}"))?;
                ctx.state(1);
                ctx.op(3);
                ctx.trace(1);
                ctx.beat();
            }
            Ok(())
        });
    });
    ctx.sample(|| format!("formula {} on every subset, orders and extras", F::A(Box::new(F::O(Box::new(F::L(1)), Box::new(F::L(2)))), Box::new(F::L(3))).text()));
}
