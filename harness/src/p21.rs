//! P21, P22: the Python module and the WebAssembly module
use crate::{abe::*, ipc, ipc::Lang, pol::*, sup::*, via::*};
use cosmian_abe_gpsw::interfaces::abe_policy::{AccessPolicy, Attribute, Policy};
use serde_json::{json, Value};
use std::{
    collections::{BTreeMap, BTreeSet, HashMap},
    sync::Mutex,
};

fn lang(v: Via) -> Lang {
    if v == Py {
        Lang::Py
    } else {
        Lang::Js
    }
}

/// a policy, its master keys and one header per attribute set, made through one interface
struct Wd {
    name: &'static str,
    sp: Spec,
    pol: Vec<u8>,
    policy: Policy,
    mk: Vec<u8>,
    pk: Vec<u8>,
    dk: Option<Vec<u8>>,
    uid: Vec<u8>,
    ad: Vec<u8>,
    heads: Vec<(Vec<At>, Vec<u8>, Vec<u8>)>,
}
fn world(v: Via, name: &'static str, sp: &Spec) -> Result<Wd, String> {
    let pol = must(v.policy(sp), "policy")?;
    let policy = sp.policy()?;
    if crate::ffi::model(&pol)? != crate::ffi::model(policy.to_string().as_bytes())? {
        return Err(format!("the policy made is {}", String::from_utf8_lossy(&pol)));
    }
    let (mk, pk, dk) = must(v.master(&pol), "master keys")?;
    let uid = b"u\x00id".to_vec();
    let ad = if v.has_ad() { b"more".to_vec() } else { vec![] };
    let mut heads = vec![];
    for (i, at) in at_subsets(&sp.all()).into_iter().enumerate() {
        if at.is_empty() {
            continue;
        }
        let mut a = sp.attrs(&at);
        if i % 2 == 1 {
            a.reverse();
        }
        // half of them through a cache where there is one
        let w = if v == Js && i % 3 == 0 { JsCache } else { v };
        let (k, h) = must(w.seal(&pol, &pk, &a, &uid, &ad), format!("header for {at:?}"))?;
        heads.push((at, k, h));
    }
    Ok(Wd { name, sp: sp.clone(), pol, policy, mk, pk, dk, uid, ad, heads })
}
impl Wd {
    /// the key opens exactly the headers `f` accepts
    fn exact(&self, ctx: &Ctx, v: Via, uk: &[u8], f: &dyn Fn(&[At]) -> bool) -> Result<(), String> {
        for (i, (at, k, h)) in self.heads.iter().enumerate() {
            let want = f(at);
            let w = if v == Js && i % 4 == 1 { JsCache } else { v };
            judge_open(w.open(uk, h), want, k, &self.uid, &self.ad).map_err(|e| format!("header for {at:?}: {e}"))?;
            ctx.trace(1);
            ctx.outcome(if want { "opened" } else { "refused" }, 1);
        }
        Ok(())
    }
    fn key(&self, v: Via, text: &str) -> R<Vec<u8>> {
        v.user_key_text(&self.pol, &self.mk, text)
    }
}

fn specs() -> Vec<(&'static str, Spec)> {
    vec![
        ("flat", Spec::new(&[("D", &["a", "b", "c", "d"], false)], 5)),
        ("tiers", Spec::new(&[("L", &["z", "y", "x"], true), ("D", &["a"], false)], 4)),
        ("names", Spec::new(&[("Dép t", &["R&D", "é|è", "%e9;"], false), ("L q", &["1 a", "0"], true)], 9)),
        ("quotes", Spec::new(&[("Q\"", &["a\"b", "c\\d", "\u{1f512}"], false)], 3)),
    ]
}

// ---------------------------------------------------------------- access

fn access(ctx: &Ctx, v: Via, w: &Wd, k: usize) {
    let menu: Vec<Ap> = w.sp.all().into_iter().map(Ap::L).collect();
    let mut list = vec![];
    for n in 1..=k {
        list.extend(aps(&menu, n));
    }
    ctx.par(&list, |ap| {
        let t = ap.text(&w.sp);
        ctx.case(format!("access {} {t}", w.name), || {
            ctx.state(1);
            ctx.op(1);
            let r = w.key(v, &t);
            if ap.repeats(&w.sp) {
                return match r? {
                    Ok(_) => Err("an access policy that uses an attribute twice is accepted".into()),
                    Err(_) => Ok(()),
                };
            }
            let uk = must(r, "user key")?;
            w.exact(ctx, v, &uk, &|at| ap.eval(&w.sp, &|a| at.contains(&a)))
        });
    });
}

// ---------------------------------------------------------------- texts

/// the reading of a text: operators group to the right, spaces around separators do not count
fn read(text: &str) -> Option<AccessPolicy> {
    #[derive(PartialEq, Debug, Clone)]
    enum T {
        Sep(&'static str),
        Name(String),
    }
    let mut toks = vec![];
    let mut name = String::new();
    let mut rest = text;
    let flush = |name: &mut String, toks: &mut Vec<T>| {
        let n = name.trim();
        if !n.is_empty() {
            toks.push(T::Name(n.to_string()));
        }
        name.clear();
    };
    'scan: while let Some(ch) = rest.chars().next() {
        for sep in ["(", ")", "||", "&&", "::"] {
            if let Some(r) = rest.strip_prefix(sep) {
                flush(&mut name, &mut toks);
                toks.push(T::Sep(sep));
                rest = r;
                continue 'scan;
            }
        }
        name.push(ch);
        rest = &rest[ch.len_utf8()..];
    }
    flush(&mut name, &mut toks);
    fn expr(t: &[T], p: &mut usize) -> Option<AccessPolicy> {
        let left = match t.get(*p)? {
            T::Sep("(") => {
                *p += 1;
                let e = expr(t, p)?;
                if t.get(*p)? != &T::Sep(")") {
                    return None;
                }
                *p += 1;
                e
            }
            T::Name(a) => {
                if t.get(*p + 1)? != &T::Sep("::") {
                    return None;
                }
                let T::Name(n) = t.get(*p + 2)? else { return None };
                *p += 3;
                AccessPolicy::new(a, n)
            }
            _ => return None,
        };
        match t.get(*p) {
            Some(T::Sep("&&")) => {
                *p += 1;
                Some(left & expr(t, p)?)
            }
            Some(T::Sep("||")) => {
                *p += 1;
                Some(left | expr(t, p)?)
            }
            _ => Some(left),
        }
    }
    let mut p = 0;
    let e = expr(&toks, &mut p)?;
    (p == toks.len()).then_some(e)
}
fn all_known(sp: &Spec, ap: &AccessPolicy) -> bool {
    match ap {
        AccessPolicy::Attr(a) => sp.all().into_iter().any(|x| sp.attr(x) == *a),
        AccessPolicy::And(a, b) | AccessPolicy::Or(a, b) => all_known(sp, a) && all_known(sp, b),
        AccessPolicy::All => false,
    }
}
struct Texts<'a> {
    w: &'a Wd,
    mk: Mk<Bls>,
    /// span program of each access policy read
    want: Mutex<HashMap<String, Option<Vec<u8>>>>,
}
impl<'a> Texts<'a> {
    fn new(w: &'a Wd) -> Result<Self, String> {
        Ok(Texts { w, mk: parse(&w.mk)?, want: Mutex::default() })
    }
    fn expect(&self, text: &str) -> Result<Option<(AccessPolicy, Vec<u8>)>, String> {
        let Some(ap) = read(text) else { return Ok(None) };
        if !all_known(&self.w.sp, &ap) {
            return Ok(None);
        }
        let id = format!("{ap:?}");
        if let Some(v) = self.want.lock().unwrap().get(&id) {
            return Ok(v.clone().map(|m| (ap, m)));
        }
        let m = match e_key::<Bls>(&self.w.policy, &self.mk, &ap) {
            Ok(k) => Some(msp_part(&bytes(&k)?).ok_or("key layout")?.to_vec()),
            Err(_) => None,
        };
        self.want.lock().unwrap().insert(id, m.clone());
        Ok(m.map(|m| (ap, m)))
    }
    fn check(&self, ctx: &Ctx, v: Via, text: &str) -> Result<(), String> {
        ctx.state(1);
        ctx.op(1);
        let r = self.w.key(v, text)?;
        match (r, self.expect(text)?) {
            (Err(_), None) => {
                ctx.outcome("text refused", 1);
                Ok(())
            }
            (Err(e), Some(_)) => Err(format!("{text:?} is refused: {e}")),
            (Ok(_), None) => Err(format!("{text:?} is accepted")),
            (Ok(k), Some((ap, m))) => {
                ctx.outcome("text accepted", 1);
                ctx.trace(1);
                if msp_part(&k) == Some(&m[..]) {
                    return Ok(());
                }
                self.w
                    .exact(ctx, v, &k, &|at| crate::ffi::eval_access(&self.w.sp, &ap, &|a| at.contains(&a)))
                    .map_err(|e| format!("{text:?} read as {ap:?}: {e}"))
            }
        }
    }
}
fn sequences(tokens: &[String], n: usize) -> Vec<Vec<usize>> {
    let mut all: Vec<Vec<usize>> = vec![vec![]];
    let mut last = all.clone();
    for _ in 0..n {
        let mut next = vec![];
        for p in &last {
            for t in 0..tokens.len() {
                let mut q = p.clone();
                q.push(t);
                next.push(q);
            }
        }
        all.extend(next.iter().cloned());
        last = next;
    }
    all
}
/// every way to write `ap` with the given spaces, with and without redundant parentheses
fn spellings(ap: &Ap, sp: &Spec) -> Vec<Vec<String>> {
    // tokens of the minimal and of the full form
    fn toks(a: &Ap, sp: &Spec, full: bool, out: &mut Vec<String>) {
        match a {
            Ap::L(l) => {
                let a = sp.attr(*l);
                if full {
                    out.push("(".into());
                }
                out.extend([a.axis, "::".into(), a.name]);
                if full {
                    out.push(")".into());
                }
            }
            Ap::A(x, y) | Ap::O(x, y) => {
                let op = if matches!(a, Ap::A(..)) { "&&" } else { "||" };
                let wrap = full || !matches!(**x, Ap::L(_));
                if wrap {
                    out.push("(".into());
                }
                toks(x, sp, full, out);
                if wrap {
                    out.push(")".into());
                }
                out.push(op.into());
                if full {
                    out.push("(".into());
                }
                toks(y, sp, full, out);
                if full {
                    out.push(")".into());
                }
            }
            Ap::All => unreachable!(),
        }
    }
    [false, true]
        .into_iter()
        .map(|f| {
            let mut v = vec![];
            toks(ap, sp, f, &mut v);
            v
        })
        .collect()
}

fn texts(ctx: &Ctx, v: Via, w: &Wd, tokens_to: usize, pieces_to: usize) {
    let t = match Texts::new(w) {
        Ok(t) => t,
        Err(m) => return ctx.case(format!("texts {}", w.name), || Err(m)),
    };
    let name = |i: usize, j: usize| w.sp.attr((i, j)).to_string();
    // token sequences
    let tokens: Vec<String> = vec![name(0, 0), name(1, 0), "(".into(), ")".into(), "&&".into(), "||".into()];
    let seqs = sequences(&tokens, tokens_to);
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(500).collect();
    let run = |what: &str, texts: &dyn Fn() -> Vec<String>| {
        ctx.case(format!("texts {} {what}", w.name), || {
            for (i, x) in texts().into_iter().enumerate() {
                t.check(ctx, v, &x)?;
                if i % 64 == 0 {
                    ctx.beat();
                }
            }
            Ok(())
        });
    };
    let idx: Vec<usize> = (0..chunks.len()).collect();
    ctx.par(&idx, |i| {
        run(&format!("tokens {i}"), &|| {
            chunks[*i].iter().map(|s| s.iter().map(|k| tokens[*k].as_str()).collect::<String>()).collect()
        });
    });
    // shorter sequences over pieces of names and separators
    let a = w.sp.attr((0, 1));
    let pieces: Vec<String> = [&a.to_string(), &a.axis, "::", &a.name, " ", "|", "&", "(", ")", "&&", "||", "%", ":", "é", "\u{a0}", "*"]
        .iter()
        .map(ToString::to_string)
        .collect();
    let seqs = sequences(&pieces, pieces_to);
    let chunks: Vec<&[Vec<usize>]> = seqs.chunks(500).collect();
    let idx: Vec<usize> = (0..chunks.len()).collect();
    ctx.par(&idx, |i| {
        run(&format!("pieces {i}"), &|| {
            chunks[*i].iter().map(|s| s.iter().map(|k| pieces[*k].as_str()).collect::<String>()).collect()
        });
    });
    // spaces and redundant parentheses
    let l = |i, j| Ap::L((i, j));
    let mut forms = vec![];
    for k in 1..=3 {
        // distinct leaves in order
        forms.extend(aps(&[l(0, 0)], k).into_iter().map(|a| {
            fn number(a: &Ap, n: &mut usize) -> Ap {
                match a {
                    Ap::L(_) => {
                        *n += 1;
                        Ap::L([(0, 0), (1, 0), (0, 1)][*n - 1])
                    }
                    Ap::A(x, y) => {
                        let x = number(x, n);
                        Ap::and(x, number(y, n))
                    }
                    Ap::O(x, y) => {
                        let x = number(x, n);
                        Ap::or(x, number(y, n))
                    }
                    Ap::All => Ap::All,
                }
            }
            number(&a, &mut 0)
        }));
    }
    let few = ctx.quick() && v != Py;
    ctx.par(&forms, |ap| {
        run(&format!("spaces {}", ap.text(&w.sp)), &|| {
            let mut v = vec![];
            for tk in spellings(ap, &w.sp) {
                for sp in ["", " ", "\u{a0}", "\t", "\n", "\r\n", "  ", "\u{3000}", "\u{2003} "][..if few { 3 } else { 9 }].iter().copied() {
                    v.push(tk.join(sp));
                    v.push(format!("{sp}{}{sp}", tk.join(sp)));
                    for g in 0..=tk.len() {
                        v.push(format!("{}{sp}{}", tk[..g].concat(), tk[g..].concat()));
                    }
                }
                // a token left out, doubled, or exchanged with the next one
                for g in 0..tk.len() {
                    let mut x = tk.clone();
                    x.remove(g);
                    v.push(x.join(" "));
                    v.push(x.concat());
                    let mut x = tk.clone();
                    x.insert(g, tk[g].clone());
                    v.push(x.join(" "));
                    v.push(x.concat());
                    let mut x = tk.clone();
                    if g + 1 < x.len() {
                        x.swap(g, g + 1);
                        v.push(x.concat());
                    }
                }
            }
            v
        });
    });
    // single character faults of a text
    let base = format!("({} || {})&&{}", name(0, 0), name(1, 0), name(0, 1));
    let cs: Vec<char> = base.chars().collect();
    let at: Vec<usize> = (0..=cs.len()).collect();
    ctx.par(&at, |i| {
        run(&format!("faults {i}"), &|| {
            let mut v = vec![];
            for c in ['(', ')', '|', '&', ':', ' ', 'a', 'é', '%', ';', '\\', '"', '\0', '\u{1}', '\u{7f}', '\u{a0}', '\u{feff}', '\u{1f512}'] {
                let mut x = cs.clone();
                x.insert(*i, c);
                v.push(x.iter().collect());
                if *i < cs.len() {
                    x = cs.clone();
                    x[*i] = c;
                    v.push(x.iter().collect());
                }
            }
            if *i < cs.len() {
                let mut x = cs.clone();
                x.remove(*i);
                v.push(x.iter().collect());
                v.push(cs[..*i].iter().collect());
                v.push(cs[*i..].iter().collect());
            }
            v
        });
    });
}

// ---------------------------------------------------------------- rotation

struct Node {
    hist: Vec<usize>,
    count: BTreeMap<At, usize>,
    keys: Vec<Vec<u8>>,
    heads: Vec<(Vec<u8>, Vec<u8>)>,
}
fn rotations(ctx: &Ctx, v: Via) {
    let sp = Spec::new(&[("L", &["x", "y"], true), ("D", &["r", "h"], false)], 10);
    let moves: Vec<Vec<At>> = vec![vec![(0, 0)], vec![(1, 0)], vec![(0, 1), (1, 0)], vec![(1, 0), (1, 0)]];
    let l = |i, j| Ap::L((i, j));
    let mut menu = vec![l(0, 1), l(1, 0), Ap::and(l(0, 0), l(1, 0)), Ap::or(l(1, 0), l(1, 1))];
    let mut sets: Vec<Vec<At>> = vec![vec![(0, 0)], vec![(1, 0)], vec![(0, 1), (1, 1)], vec![(1, 0), (0, 0)]];
    if ctx.quick() && v != Py {
        menu.swap_remove(0);
        sets.swap_remove(0);
    }
    if !ctx.quick() {
        menu.push(Ap::or(Ap::and(l(0, 1), l(1, 1)), l(1, 0)));
        sets.push(vec![(0, 0), (0, 1), (1, 0), (1, 1)]);
        sets.push(vec![(1, 1)]);
    }
    let depth = ctx.pick(2, 3);
    let setup = || -> Result<_, String> {
        let pol = must(v.policy(&sp), "policy")?;
        let (mk, pk, _) = must(v.master(&pol), "master keys")?;
        Ok((pol, mk, pk))
    };
    let (pol, mk, pk) = match setup() {
        Ok(x) => x,
        Err(m) => return ctx.case("rotation setup", || Err(m)),
    };
    let node = |hist: Vec<usize>, pol: Vec<u8>, count: BTreeMap<At, usize>| -> Result<Node, String> {
        let mut keys = vec![];
        for ap in &menu {
            keys.push(must(v.user_key(&pol, &mk, &ap.real(&sp), &ap.text(&sp)), format!("key for {}", ap.text(&sp)))?);
        }
        let mut heads = vec![];
        for at in &sets {
            heads.push(must(v.seal(&pol, &pk, &sp.attrs(at), b"id", b""), format!("header for {at:?}"))?);
        }
        Ok(Node { hist, count, keys, heads })
    };
    let pair = |k: &Node, h: &Node| -> Result<(), String> {
        for (i, ap) in menu.iter().enumerate() {
            for (j, at) in sets.iter().enumerate() {
                let n = |c: &BTreeMap<At, usize>, a: At| c.get(&a).copied().unwrap_or(0);
                let want = ap.eval(&sp, &|a| at.contains(&a) && n(&h.count, a) <= n(&k.count, a));
                let (key, head) = &h.heads[j];
                judge_open(v.open(&k.keys[i], head), want, key, b"id", b"")
                    .map_err(|e| format!("key for {} after {:?}, header for {at:?} after {:?}: {e}", ap.text(&sp), k.hist, h.hist))?;
                ctx.trace(1);
                ctx.outcome(if want { "opened" } else { "refused" }, 1);
            }
        }
        Ok(())
    };
    // every path; objects of each are made once
    let mut paths: Vec<Vec<usize>> = vec![vec![]];
    let mut last = paths.clone();
    for _ in 0..depth {
        last = last.iter().flat_map(|p| (0..moves.len()).map(move |m| [p.clone(), vec![m]].concat())).collect();
        paths.extend(last.clone());
    }
    let nodes: Mutex<HashMap<Vec<usize>, std::sync::Arc<Node>>> = Mutex::default();
    ctx.par(&paths, |p| {
        ctx.case(format!("rotation {p:?}"), || {
            let mut pol = pol.clone();
            let mut count = BTreeMap::new();
            for m in p {
                let ats = &moves[*m];
                let new = must(v.rotate(&pol, &sp.attrs(ats)), "rotation")?;
                crate::ffi::rotated(&pol, serde_json::to_string(&sp.attrs(ats)).unwrap().as_bytes(), &new)?;
                ctx.op(1);
                for a in ats {
                    *count.entry(*a).or_insert(0) += 1;
                }
                pol = new;
            }
            ctx.state(1);
            let n = node(p.clone(), pol, count)?;
            pair(&n, &n)?;
            nodes.lock().unwrap().insert(p.clone(), n.into());
            Ok(())
        });
    });
    let mut pairs: Vec<(usize, usize)> = vec![];
    for i in 0..paths.len() {
        for j in 0..paths.len() {
            if i != j && paths[j].starts_with(&paths[i]) {
                pairs.push((i, j));
            }
        }
    }
    ctx.par(&pairs, |(i, j)| {
        let at = |k: usize| nodes.lock().unwrap().get(&paths[k]).cloned();
        let (Some(a), Some(b)) = (at(*i), at(*j)) else { return };
        ctx.case(format!("rotation pair {:?} {:?}", a.hist, b.hist), || {
            pair(&a, &b)?;
            pair(&b, &a)
        });
    });
    // the last creation, and one more
    ctx.case("rotation to the maximum", || {
        let mut p = pol.clone();
        let a = sp.attr((1, 1));
        for _ in 0..6 {
            p = must(v.rotate(&p, &[a.clone()]), "rotation")?;
        }
        for x in [vec![a.clone()], vec![a.clone(), a.clone()]] {
            if v.rotate(&p, &x)?.is_ok() {
                return Err("a rotation beyond the maximum is accepted".into());
            }
        }
        let k = must(v.user_key(&p, &mk, &AccessPolicy::Attr(a.clone()), "D::h"), "key")?;
        let (key, h) = must(v.seal(&p, &pk, &[a.clone()], b"id", b""), "header")?;
        judge_open(v.open(&k, &h), true, &key, b"id", b"")?;
        for x in ["D::nope", "X::h", "d::h", "D::", "::h", ""] {
            let at = json!([x]);
            let r = if v == Py { py("rotate_attributes", &[ipc::b(at.to_string().as_bytes()), ipc::b(&pol)]) } else { js("rotate_attributes", &[ipc::b(at.to_string().as_bytes()), ipc::b(&pol)]) };
            if r?.is_ok() {
                return Err(format!("rotating {x:?} is accepted"));
            }
        }
        // one of two is unknown
        if v.rotate(&pol, &[a.clone(), Attribute::new("D", "nope")])?.is_ok() {
            return Err("rotating an unknown attribute is accepted".into());
        }
        let same = must(v.rotate(&pol, &[]), "rotating nothing")?;
        crate::ffi::rotated(&pol, b"[]", &same)
    });
}

// ---------------------------------------------------------------- delegation (Python)

fn closure(a: &Ap) -> Vec<Ap> {
    // every policy obtained by replacing OR nodes
    let mut v = match a {
        Ap::L(_) | Ap::All => vec![a.clone()],
        Ap::A(x, y) => {
            let mut v = vec![];
            for p in closure(x) {
                for q in closure(y) {
                    v.push(Ap::and(p.clone(), q));
                }
            }
            v
        }
        Ap::O(x, y) => {
            let (cx, cy) = (closure(x), closure(y));
            let mut v = vec![];
            for p in &cx {
                for q in &cy {
                    v.push(Ap::or(p.clone(), q.clone()));
                    v.push(Ap::and(p.clone(), q.clone()));
                }
            }
            v.extend(cx);
            v.extend(cy);
            v
        }
    };
    v.sort();
    v.dedup();
    v
}
fn delegation(ctx: &Ctx, w: &Wd, k: usize, kids: usize) {
    let dk = w.dk.as_ref().unwrap();
    let menu: Vec<Ap> = w.sp.all().into_iter().map(Ap::L).collect();
    let upto = |k: usize| {
        let mut list: Vec<Ap> = vec![];
        for n in 1..=k {
            list.extend(aps(&menu, n));
        }
        list.retain(|a| !a.repeats(&w.sp));
        list
    };
    let others = upto(kids);
    ctx.par(&upto(k), |ap| {
        let t = ap.text(&w.sp);
        ctx.case(format!("delegation {} {t}", w.name), || {
            let uk = must(w.key(Py, &t), "user key")?;
            let down = closure(ap);
            for c in &down {
                ctx.state(1);
                ctx.op(1);
                let ct = c.text(&w.sp);
                let d = must(Py.delegate(dk, &uk, &ct, &w.pol), format!("delegation to {ct}"))?;
                w.exact(ctx, Py, &d, &|at| c.eval(&w.sp, &|a| at.contains(&a))).map_err(|e| format!("delegated to {ct}: {e}"))?;
            }
            for c in &others {
                if down.contains(c) {
                    continue;
                }
                ctx.state(1);
                ctx.op(1);
                let ct = c.text(&w.sp);
                let Ok(d) = Py.delegate(dk, &uk, &ct, &w.pol)? else {
                    ctx.outcome("delegation refused", 1);
                    continue;
                };
                for (at, k, h) in &w.heads {
                    if ap.eval(&w.sp, &|a| at.contains(&a)) {
                        continue;
                    }
                    if let Ok((x, _)) = Py.open(&d, h)? {
                        if x == *k {
                            return Err(format!("delegated to {ct} opens {at:?}"));
                        }
                    }
                }
            }
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- data

fn pat(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| (i * 31 + k) as u8).collect()
}
fn data(ctx: &Ctx, v: Via, w: &Wd) {
    let at = &w.sp.attrs(&[(0, 0)]);
    let text = at[0].to_string();
    // metadata
    let mut metas = vec![];
    for u in [0, 1, 3, 4, 16, 255, 256, 300, 5000] {
        for a in [0, 1, 4, 33, 256] {
            if v.has_ad() || (a == 0 && u > 0) {
                metas.push((u, a));
            }
        }
    }
    let mut metas: Vec<(String, Vec<u8>, Vec<u8>)> = metas.into_iter().map(|(u, a)| (format!("{u} {a}"), pat(u, 3), pat(a, 9))).collect();
    for c in crate::hyb::odd(!ctx.quick()) {
        metas.push((format!("uid {}", hx(&c)), c.clone(), if v.has_ad() { b"ad".to_vec() } else { vec![] }));
        if v.has_ad() {
            metas.push((format!("data {}", hx(&c)), b"id".to_vec(), c.clone()));
            metas.push((format!("both {}", hx(&c)), c.clone(), c));
        }
    }
    ctx.par(&metas, |(n, uid, ad)| {
        ctx.case(format!("metadata {n}"), || {
            ctx.state(1);
            let uk = must(w.key(v, &text), "user key")?;
            for (se, op) in if v == Js { vec![(Js, Js), (JsCache, Js), (Js, JsCache), (JsCache, JsCache)] } else { vec![(v, v)] } {
                let (k, h) = must(se.seal(&w.pol, &w.pk, at, uid, ad), "header")?;
                judge_open(op.open(&uk, &h), true, &k, uid, ad)?;
                ctx.trace(1);
                // the size of the encapsulation is announced
                let n = u32::from_be_bytes(h[..4].try_into().unwrap());
                let r = if v == Py { py("get_encrypted_header_size", &[ipc::b(&h)]) } else { js("get_encrypted_header_size", &[ipc::b(&h)]) };
                if ipc::out_i(&must(r, "header size")?)? != n as i128 {
                    return Err("another header size is announced".into());
                }
            }
            Ok(())
        });
    });
    // blocks
    let numbers: Vec<u64> = if v == Py {
        vec![0, 1, 2, 255, 256, 65535, 65536, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 63, u64::MAX]
    } else {
        vec![0, 1, 2, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 32) - 1]
    };
    let uids: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![0, 0], b"a".to_vec(), b"a\0".to_vec(), b"a\0b".to_vec(), b"A".to_vec(), b"a ".to_vec(), vec![0xff, 0xfe], pat(8, 1), pat(9, 1), pat(300, 2)];
    let lens = [1usize, 2, 15, 16, 17, 31, 32, 33, 255, 256, 1000, 4096];
    let mut ids = vec![];
    for u in &uids {
        for n in &numbers {
            ids.push((u.clone(), *n));
        }
    }
    let key = pat(32, 77);
    let mut key2 = key.clone();
    key2[31] ^= 1;
    ctx.par(&ids, |(u, n)| {
        ctx.case(format!("block {} {n}", hx(&u[..u.len().min(10)])), || {
            ctx.state(1);
            let d = pat(21, 5);
            let e = must(v.block(true, &key, u, *n, &d), "block encryption")?;
            if e.len() != d.len() + 28 {
                return Err(format!("a block of {} bytes for {}", e.len(), d.len()));
            }
            for (u2, n2) in &ids {
                ctx.op(1);
                let r = v.block(false, &key, u2, *n2, &e)?;
                let same = (u2, n2) == (u, n);
                match r {
                    Ok(x) if same && x == d => {}
                    Ok(_) => return Err(format!("the block for {n} opens as block {n2} of {u2:?}, or with other data")),
                    Err(e) if same => return Err(format!("the block does not open: {e}")),
                    Err(_) => {}
                }
            }
            if v.block(false, &key2, u, *n, &e)?.is_ok() {
                return Err("the block opens with another key".into());
            }
            if must(v.block(true, &key, u, *n, &d), "block encryption")? == e {
                return Err("two encryptions are equal".into());
            }
            Ok(())
        });
    });
    let all: Vec<usize> = if ctx.quick() { lens.to_vec() } else { (1..300).chain(lens).collect() };
    ctx.par(&all, |n| {
        ctx.case(format!("block of {n}"), || {
            let d = pat(*n, 5);
            let e = must(v.block(true, &key, b"u", 3, &d), "block encryption")?;
            if must(v.block(false, &key, b"u", 3, &e), "block decryption")? != d {
                return Err("other data".into());
            }
            ctx.trace(1);
            // every truncation, every altered byte
            let step = 1 + e.len() / 200;
            for i in (0..e.len()).step_by(step) {
                ctx.op(2);
                let mut f = e.clone();
                f[i] ^= 1 << (i % 8);
                if v.block(false, &key, b"u", 3, &e[..i])?.is_ok() || v.block(false, &key, b"u", 3, &f)?.is_ok() {
                    return Err(format!("an altered block opens ({i})"));
                }
            }
            if v.block(false, &key, b"u", 3, &[&e[..], &[0]].concat())?.is_ok() {
                return Err("an extended block opens".into());
            }
            Ok(())
        });
    });
    ctx.case("empty data", || {
        if v.block(true, &key, b"u", 0, &[])?.is_ok() || v.block(false, &key, b"u", 0, &[])?.is_ok() {
            return Err("an empty block is accepted".into());
        }
        Ok(())
    });
}
/// encrypt and decrypt in one call
fn whole(ctx: &Ctx, w: &Wd) {
    let sets = at_subsets(&w.sp.all());
    ctx.par(&sets, |at| {
        if at.is_empty() {
            return;
        }
        ctx.case(format!("whole {at:?}"), || {
            let attrs = serde_json::to_vec(&w.sp.attrs(at)).unwrap();
            for (u, a, n) in [(0, None, 1), (3, Some(0), 17), (300, Some(5), 1000), (0, Some(4), 16)] {
                ctx.state(1);
                let m = meta_json(&pat(u, 1), a.map(|a| pat(a, 2)).as_deref());
                let d = pat(n, 8);
                let e = ipc::out_b(&must(py("encrypt", &[ipc::b(&m), ipc::b(&w.pol), ipc::b(&attrs), ipc::b(&w.pk), ipc::b(&d)]), "encrypt")?)?;
                let size = ipc::out_i(&must(py("get_encrypted_header_size", &[ipc::b(&e)]), "header size")?)? as usize;
                let open = |uk: &[u8], e: &[u8]| -> R<Vec<u8>> {
                    Ok(match py("decrypt", &[ipc::b(uk), ipc::b(e)])? {
                        Ok(v) => Ok(ipc::out_b(&v)?),
                        Err(e) => Err(e),
                    })
                };
                for l in w.sp.all() {
                    let uk = must(w.key(Py, &w.sp.attr(l).to_string()), "user key")?;
                    let want = w.sp.expand(l).iter().any(|a| at.contains(a));
                    ctx.trace(1);
                    match open(&uk, &e)? {
                        Ok(x) if want && x == d => {}
                        Ok(_) => return Err(format!("a key for {l:?} opens: expected {want}")),
                        Err(e) if want => return Err(format!("a key for {l:?} is refused: {e}")),
                        Err(_) => {}
                    }
                    if want {
                        let (k, h) = ipc::out_2b(&must(py("decrypt_hybrid_header", &[ipc::b(&uk), ipc::b(&e[4..4 + size])]), "the header alone")?)?;
                        let m = read_meta(&h)?;
                        if m != (pat(u, 1), pat(a.unwrap_or(0), 2)) {
                            return Err(format!("metadata {m:?}"));
                        }
                        if must(Py.block(false, &k, &m.0, 0, &e[4 + size..]), "the block alone")? != d {
                            return Err("the block holds other data".into());
                        }
                    }
                }
                // truncations, alterations and extensions
                let uk = must(w.key(Py, &w.sp.attr(at[0]).to_string()), "user key")?;
                if at.len() > 1 && !(ctx.quick() && at.len() == 2 && u == 0) {
                    continue;
                }
                let step = ctx.pick(1 + e.len() / 60, 1 + e.len() / 600);
                for i in (0..e.len()).step_by(step).chain(0..8).chain(4 + size..e.len().min(4 + size + 40)) {
                    ctx.op(2);
                    let mut f = e.clone();
                    f[i] ^= 1 << (i % 8);
                    if open(&uk, &e[..i])?.is_ok() {
                        return Err(format!("the first {i} bytes of {} decrypt", e.len()));
                    }
                    if let Ok(x) = open(&uk, &f)? {
                        // the metadata parts only matter through the identifier
                        if x != d || i < 4 || i >= 4 + size {
                            return Err(format!("decrypts with byte {i} altered"));
                        }
                    }
                }
                for ext in [&[0u8][..], &e[..]] {
                    if open(&uk, &[&e[..], ext].concat())?.is_ok() {
                        return Err("an extension decrypts".into());
                    }
                }
            }
            Ok(())
        });
    });
}
/// policies made from axes
fn policies(ctx: &Ctx) {
    let lists: Vec<Vec<&str>> = vec![vec![], vec!["a"], vec!["a", "b"], vec!["b", "a"], vec!["a", "a"], vec!["a", "b", "c"], vec![""], vec!["x::y"]];
    let names = ["D", "L", "", "é \"q\"", "D::E"];
    let mut axes: Vec<(String, Vec<String>, bool)> = vec![];
    for n in names {
        for l in &lists {
            for h in [false, true] {
                axes.push((n.into(), l.iter().map(ToString::to_string).collect(), h));
            }
        }
    }
    let mut all: Vec<Vec<(String, Vec<String>, bool)>> = vec![vec![]];
    all.extend(axes.iter().map(|a| vec![a.clone()]));
    for a in &axes {
        for b in &axes {
            all.push(vec![a.clone(), b.clone()]);
        }
    }
    let chunks: Vec<_> = all.chunks(200).collect();
    let idx: Vec<usize> = (0..chunks.len()).collect();
    ctx.par(&idx, |i| {
        ctx.case(format!("policies {i}"), || {
            for axes in chunks[*i] {
                let n: usize = axes.iter().map(|a| a.1.len()).sum();
                for max in [n.saturating_sub(1), n, n + 1, u32::MAX as usize] {
                    ctx.state(1);
                    ctx.op(1);
                    let sp = Spec { axes: axes.clone(), max: max as u32 };
                    match (Py.policy(&sp)?, sp.policy()) {
                        (Ok(p), Ok(q)) => {
                            if crate::ffi::model(&p)? != crate::ffi::model(q.to_string().as_bytes())? {
                                return Err(format!("{sp:?}: the policy made is {}", String::from_utf8_lossy(&p)));
                            }
                            ctx.outcome("policy made", 1);
                        }
                        (Err(_), Err(_)) => ctx.outcome("policy refused", 1),
                        (a, b) => return Err(format!("{sp:?}: Python {:?}, core {:?}", a.is_ok(), b.is_ok())),
                    }
                }
            }
            ctx.trace(1);
            Ok(())
        });
    });
}

// ---------------------------------------------------------------- bad arguments

/// what an argument is, for the choice of bad values
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum K {
    Policy,
    Axes,
    Attrs,
    AttrText,
    Meta,
    Mk,
    Pk,
    Dk,
    Uk,
    Expr,
    Header,
    Sym,
    Uid,
    Plain,
    Block,
    Whole,
    Num,
    Max,
    EncH,
    DecH,
}
struct Call {
    f: &'static str,
    args: Vec<(K, Value)>,
}
fn calls(v: Via, w: &Wd, uk: &[u8], ench: Value, dech: Value) -> Result<Vec<Call>, String> {
    let at = w.sp.attr((0, 0));
    let attrs = serde_json::to_vec(&[&at]).unwrap();
    let (_, key, head) = &w.heads[0];
    let blk = must(v.block(true, key, b"u", 5, b"some data"), "block")?;
    let pol = (K::Policy, ipc::b(&w.pol));
    let (mk, pk, uk) = ((K::Mk, ipc::b(&w.mk)), (K::Pk, ipc::b(&w.pk)), (K::Uk, ipc::b(uk)));
    let ex = (K::Expr, ipc::t(&at.to_string()));
    let (sym, uid, num, pl, bl) = ((K::Sym, ipc::b(key)), (K::Uid, ipc::b(b"u")), (K::Num, ipc::i(5)), (K::Plain, ipc::b(b"some data")), (K::Block, ipc::b(&blk)));
    let hd = (K::Header, ipc::b(head));
    let at = (K::Attrs, ipc::b(&attrs));
    let c = |f, args: &[&(K, Value)]| Call { f, args: args.iter().map(|a| (*a).clone()).collect() };
    if v == Py {
        let m = (K::Meta, ipc::b(&meta_json(b"u", Some(b"ad"))));
        let dk = (K::Dk, ipc::b(w.dk.as_ref().unwrap()));
        let axes = (K::Axes, ipc::b(axes_json(&w.sp).to_string().as_bytes()));
        let max = (K::Max, ipc::i(w.sp.max));
        let wh = ipc::out_b(&must(py("encrypt", &[m.1.clone(), pol.1.clone(), at.1.clone(), pk.1.clone(), pl.1.clone()]), "encrypt")?)?;
        let wh = (K::Whole, ipc::b(&wh));
        return Ok(vec![
            c("generate_policy", &[&axes, &max]),
            c("generate_master_keys", &[&pol]),
            c("generate_user_private_key", &[&mk, &ex, &pol]),
            c("generate_delegated_key", &[&dk, &uk, &ex, &pol]),
            c("rotate_attributes", &[&at, &pol]),
            c("get_encrypted_header_size", &[&hd]),
            c("encrypt_hybrid_header", &[&m, &pol, &at, &pk]),
            c("decrypt_hybrid_header", &[&uk, &hd]),
            c("encrypt_hybrid_block", &[&sym, &uid, &num, &pl]),
            c("decrypt_hybrid_block", &[&sym, &uid, &num, &bl]),
            c("encrypt", &[&m, &pol, &at, &pk, &pl]),
            c("decrypt", &[&uk, &wh]),
        ]);
    }
    let ax = (K::AttrText, ex.1.clone());
    let (eh, dh) = ((K::EncH, ench), (K::DecH, dech));
    Ok(vec![
        c("generate_master_keys", &[&pol]),
        c("generate_user_private_key", &[&mk, &ex, &pol]),
        c("rotate_attributes", &[&at, &pol]),
        c("get_encrypted_header_size", &[&hd]),
        c("encrypt_hybrid_header", &[&pol, &pk, &ax, &uid]),
        c("create_encryption_cache", &[&pol, &pk]),
        c("encrypt_hybrid_header_using_cache", &[&eh, &ax, &uid]),
        c("destroy_encryption_cache", &[&eh]),
        c("decrypt_hybrid_header", &[&uk, &hd]),
        c("create_decryption_cache", &[&uk]),
        c("decrypt_hybrid_header_using_cache", &[&dh, &hd]),
        c("destroy_decryption_cache", &[&dh]),
        c("encrypt_hybrid_block", &[&sym, &uid, &num, &pl]),
        c("decrypt_hybrid_block", &[&sym, &uid, &num, &bl]),
    ])
}

/// bad values of an argument, and whether each has to be refused
fn bad(ctx: &Ctx, v: Via, k: K, good: &Value, others: &[(K, Value)]) -> Vec<(String, Value, bool)> {
    let mut o: Vec<(String, Value, bool)> = vec![];
    match k {
        K::Expr | K::AttrText => {
            let mut t: Vec<String> = ["", " ", "::", "D", "D::", "::a", "D::nope", "X::a", "D::a::b", "D::a &&", "&& D::a", "(D::a", "D::a)", "((((", "))))", "(", "||", "&", "*", "D::a || D::a", "\u{0}", "é", "(é::ü)", "D\u{0}::a", "D::a,", ",", "D::a,,D::b", "D::a;D::b", "\u{feff}D::a"]
                .iter()
                .map(ToString::to_string)
                .collect();
            t.push("D::".to_string() + &"a".repeat(100_000));
            t.push("(".repeat(3000) + "D::a");
            t.push("D::a)".to_string() + &")".repeat(3000));
            if k == K::AttrText {
                t.push("D::zz, ".repeat(20_000));
            }
            // the malformed ones are judged by the enumeration of texts; here only their effect matters
            o.extend(t.into_iter().map(|x| (format!("{:.20}", x), ipc::t(&x), false)));
            o[0].2 = true;
            o[6].2 = true;
        }
        K::Num | K::Max => {
            let l: Vec<(&str, bool)> = if v == Py {
                vec![("-1", true), ("-9223372036854775809", true), ("18446744073709551616", true), ("340282366920938463463374607431768211456", true), ("0", false), ("4294967296", k == K::Max), ("18446744073709551615", k == K::Max), ("4294967295", false)]
            } else {
                vec![("-1", false), ("NaN", false), ("Infinity", false), ("1.5", false), ("4294967296", false), ("1e300", false)]
            };
            o.extend(l.into_iter().map(|(x, r)| (x.to_string(), ipc::i(x), r)));
        }
        K::EncH | K::DecH => {
            for x in ["-1", "99999", "2147483647", "-2147483648"] {
                o.push((x.into(), ipc::i(x), !format!("{k:?}").is_empty()));
            }
        }
        _ => {
            let g = ipc::out_b(good).unwrap();
            let json = matches!(k, K::Policy | K::Axes | K::Attrs | K::Meta);
            let strict = json || matches!(k, K::Mk | K::Pk | K::Dk | K::Uk | K::Sym | K::Block | K::Whole);
            let mut cuts: Vec<usize> = (0..12.min(g.len())).chain((0..20).map(|d| g.len().saturating_sub(d + 1))).collect();
            let n = ctx.pick(if v == Py { 40 } else { 12 }, 400);
            cuts.extend((0..g.len()).step_by(1 + g.len() / n));
            cuts.sort();
            cuts.dedup();
            for i in cuts {
                o.push((format!("cut {i}"), ipc::b(&g[..i]), strict && i < g.len()));
                if i < g.len() {
                    for x in if ctx.quick() { vec![g[i] ^ 0x80, 0xff] } else { vec![g[i] ^ 0x80, 0xff, 0, g[i].wrapping_add(1), g[i].wrapping_sub(1), g[i] ^ 1] } {
                        let mut f = g.clone();
                        f[i] = x;
                        o.push((format!("byte {i} {x}"), ipc::b(&f), false));
                    }
                }
            }
            o.push(("extended".into(), ipc::b(&[&g[..], &[0x41]].concat()), json));
            // lengths
            for at in [0usize, 4, 8] {
                for l in [0u32, 1, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x0010_0000] {
                    if g.len() >= at + 4 && !json {
                        let mut f = g.clone();
                        f[at..at + 4].copy_from_slice(&l.to_be_bytes());
                        o.push((format!("length {l} at {at}"), ipc::b(&f), false));
                    }
                }
            }
            o.push(("big".into(), ipc::b(&vec![0xff; 70_000]), json));
            if json {
                let mut t: Vec<String> = ["null", "[]", "{}", "0", "\"\"", "[1]", "[null]", "[[]]", "[{}]", "[\"\"]", "[\"::\"]", "[\"D::a\",1]", "true", "\u{feff}[]", "[\"D::a\"", "[\"D::\\ud800\"]", "[\"D::\\u0000\"]", "NaN"]
                    .iter()
                    .map(ToString::to_string)
                    .collect();
                t.push("[".repeat(100_000));
                t.push("{\"a\":".repeat(100_000));
                o.extend(t.into_iter().map(|x| (format!("{:.20}", x), ipc::b(x.as_bytes()), false)));
            }
            if k == K::Policy {
                let p: Value = serde_json::from_slice(&g).unwrap();
                let mut put = |name: &str, f: &dyn Fn(&mut Value), r: bool| {
                    let mut q = p.clone();
                    f(&mut q);
                    o.push((name.into(), ipc::b(q.to_string().as_bytes()), r));
                };
                put("no values", &|q| q["attribute_to_int"]["D::a"] = json!([]), false);
                put("value 0", &|q| q["attribute_to_int"]["D::a"] = json!([0]), false);
                put("value max", &|q| q["attribute_to_int"]["D::a"] = json!([u32::MAX]), false);
                put("value beyond", &|q| q["attribute_to_int"]["D::a"] = json!([q["max_attribute_creations"].as_u64().unwrap() + 2]), false);
                put("value negative", &|q| q["attribute_to_int"]["D::a"] = json!([-1]), true);
                put("value float", &|q| q["attribute_to_int"]["D::a"] = json!([1.5]), true);
                put("last beyond", &|q| q["last_attribute_value"] = json!(u32::MAX), false);
                put("max 0", &|q| q["max_attribute_creations"] = json!(0), false);
                put("no axes", &|q| q["axes"] = json!({}), false);
                put("axis without attributes", &|q| q["axes"]["D"] = json!([[], false]), false);
                put("hierarchy of unknown", &|q| q["axes"]["D"] = json!([["nope", "a"], true]), false);
                put("attribute twice", &|q| q["axes"]["D"] = json!([["a", "a"], true]), false);
                put("no attributes", &|q| q["attribute_to_int"] = json!({}), false);
                put("bad attribute", &|q| q["attribute_to_int"]["nosep"] = json!([1]), true);
                for f in ["last_attribute_value", "max_attribute_creations", "axes", "attribute_to_int"] {
                    put(&format!("without {f}"), &|q| drop(q.as_object_mut().unwrap().remove(f)), true);
                    put(&format!("{f} null"), &|q| q[f] = Value::Null, true);
                }
            }
            // any other object in its place
            let mut seen = BTreeSet::new();
            for (k2, x) in others {
                if *k2 != k && x.get("b").is_some() && seen.insert(format!("{k2:?}")) {
                    o.push((format!("a {k2:?}"), x.clone(), false));
                }
            }
        }
    }
    // wrong types, Python only: TypeScript declares the types of the other
    if v == Py {
        for x in [none(), json!({"f": 1.5}), json!({"o": 0}), json!({"l": [256]}), json!({"l": [-1]}), json!({"l": [1.5]}), json!({"l": ["a"]}), json!({"l": [[1]]})] {
            o.push((format!("{x}"), x, true));
        }
        match k {
            K::Expr => {
                for x in [ipc::b(b"D::a"), ipc::i(5), json!({"s": "\u{1}"})] {
                    o.push((format!("{x}"), x, true));
                }
                o.push(("surrogate".into(), json!({"f": "nan"}), true));
            }
            K::Num | K::Max => {
                for x in [ipc::t("1"), ipc::b(b"1")] {
                    o.push((format!("{x}"), x, true));
                }
            }
            _ => {
                for x in [ipc::t("text"), ipc::i(5)] {
                    o.push((format!("{x}"), x, true));
                }
                if let Some(h) = good.get("b") {
                    o.push(("bytearray".into(), json!({ "ba": h }), false));
                    o.push(("memoryview".into(), json!({ "mv": h }), false));
                }
            }
        }
    }
    o
}
fn none() -> Value {
    ipc::none()
}

fn faults(ctx: &Ctx, v: Via, w: &Wd) {
    let text = w.sp.attr((0, 0)).to_string();
    let prep = || -> Result<_, String> {
        let uk = must(w.key(v, &text), "user key")?;
        let l = calls(v, w, &uk, ipc::i(0), ipc::i(0))?;
        let all: Vec<(K, Value)> = l.iter().flat_map(|c| c.args.clone()).collect();
        let shape: Vec<(usize, usize)> = l.iter().enumerate().flat_map(|(i, c)| (0..c.args.len()).map(move |j| (i, j))).collect();
        Ok((uk, all, shape))
    };
    let (uk, all, shape) = match prep() {
        Ok(x) => x,
        Err(m) => return ctx.case("faults setup", || Err(m)),
    };
    let parts = if v == Py || !ctx.quick() { 8 } else { 2 };
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for (i, j) in shape {
        for part in 0..parts {
            jobs.push((i, j, part));
        }
    }
    let go = |f: &str, a: &[Value]| if v == Py { py(f, a) } else { js(f, a) };
    ctx.par(&jobs, |(i, j, part)| {
        let name = calls_name(v, *i);
        ctx.case(format!("bad {name} {j} {part}"), || {
            let mut c: Option<(Value, Value, Call)> = None;
            let (k, good) = {
                let l = calls(v, w, &uk, ipc::i(0), ipc::i(0))?;
                l[*i].args[*j].clone()
            };
            let list = bad(ctx, v, k, &good, &all);
            let mut broken = vec![];
            for (n, (what, x, refuse)) in list.into_iter().enumerate() {
                if n % parts != *part {
                    continue;
                }
                ctx.state(1);
                ctx.op(1);
                ctx.beat();
                if c.is_none() {
                    let (mut e, mut d) = (none(), none());
                    if v != Py {
                        e = must(js("create_encryption_cache", &[ipc::b(&w.pol), ipc::b(&w.pk)]), "encryption cache")?;
                        d = must(js("create_decryption_cache", &[ipc::b(&uk)]), "decryption cache")?;
                    }
                    let mut l = calls(v, w, &uk, e.clone(), d.clone())?;
                    c = Some((e, d, l.swap_remove(*i)));
                }
                let (e, d, call) = c.as_ref().unwrap();
                let mut a: Vec<Value> = call.args.iter().map(|x| x.1.clone()).collect();
                a[*j] = x;
                let destroys = call.f.starts_with("destroy");
                match go(call.f, &a) {
                    Ok(Ok(_)) if refuse && !destroys => broken.push(format!("{what}: accepted")),
                    Ok(Ok(_)) => ctx.outcome("accepted", 1),
                    Ok(Err(m)) if m.trim().is_empty() => broken.push(format!("{what}: refused without a message")),
                    Ok(Err(_)) => ctx.outcome("refused", 1),
                    Err(m) => {
                        broken.push(format!("{what}: {m}"));
                        c = None;
                        continue;
                    }
                }
                // still usable
                let (at, key, head) = &w.heads[0];
                let _ = at;
                let alive = || -> Result<(), String> {
                    if v == Py {
                        if ipc::out_i(&must(py("get_encrypted_header_size", &[ipc::b(head)]), "header size")?)? <= 0 {
                            return Err("header size".into());
                        }
                        if n % (2 * parts) == *part {
                            judge_open(Py.open(&uk, head), true, key, &w.uid, &w.ad)?;
                        }
                        return Ok(());
                    }
                    if ctx.quick() && n % (4 * parts) != *part && k != K::EncH && k != K::DecH {
                        must(js("get_encrypted_header_size", &[ipc::b(head)]), "header size")?;
                        return Ok(());
                    }
                    let r = ipc::out_b(&must(js("decrypt_hybrid_header_using_cache", &[d.clone(), ipc::b(head)]), "using the decryption cache")?)?;
                    if r.get(4..4 + key.len()) != Some(&key[..]) {
                        return Err("the decryption cache returns another key".into());
                    }
                    if n % (2 * parts) == *part || matches!(call.f, "create_encryption_cache" | "encrypt_hybrid_header_using_cache") {
                        must(js("encrypt_hybrid_header_using_cache", &[e.clone(), ipc::t(&text), ipc::b(b"u")]), "using the encryption cache")?;
                    }
                    Ok(())
                };
                if let Err(m) = alive() {
                    broken.push(format!("after {what}: {m}"));
                    ipc::reset(lang(v));
                    c = None;
                }
            }
            if let Some((e, d, _)) = c {
                if v != Py {
                    must(js("destroy_encryption_cache", &[e]), "destroy")?;
                    must(js("destroy_decryption_cache", &[d]), "destroy")?;
                    ctx.trace(1);
                }
            }
            if broken.is_empty() {
                Ok(())
            } else {
                Err(format!("{} bad values: {}", broken.len(), broken.iter().take(3).cloned().collect::<Vec<_>>().join("; ")))
            }
        });
    });
    if v == Py {
        ctx.case("number of arguments", || {
            for c in calls(v, w, &uk, none(), none())? {
                let a: Vec<Value> = c.args.iter().map(|x| x.1.clone()).collect();
                must(go(c.f, &a), c.f)?;
                for b in [&a[..a.len() - 1], &a[1..], &[], &[&a[..], &a[..1]].concat()[..]] {
                    ctx.op(1);
                    if go(c.f, b)?.is_ok() {
                        return Err(format!("{} accepts {} arguments", c.f, b.len()));
                    }
                }
            }
            Ok(())
        });
    }
}
fn calls_name(v: Via, i: usize) -> &'static str {
    if v == Py {
        ["generate_policy", "generate_master_keys", "generate_user_private_key", "generate_delegated_key", "rotate_attributes", "get_encrypted_header_size", "encrypt_hybrid_header", "decrypt_hybrid_header", "encrypt_hybrid_block", "decrypt_hybrid_block", "encrypt", "decrypt"][i]
    } else {
        ["generate_master_keys", "generate_user_private_key", "rotate_attributes", "get_encrypted_header_size", "encrypt_hybrid_header", "create_encryption_cache", "encrypt_hybrid_header_using_cache", "destroy_encryption_cache", "decrypt_hybrid_header", "create_decryption_cache", "decrypt_hybrid_header_using_cache", "destroy_decryption_cache", "encrypt_hybrid_block", "decrypt_hybrid_block"][i]
    }
}

/// texts of many levels, in a process of their own
fn deep(ctx: &Ctx, v: Via, w: &Wd) {
    let big = if v == Py { 20_000 } else { 10_000 };
    let mut l = vec![];
    for n in [300usize, 1000, big] {
        l.push(("flat", n, vec!["D::a"; n].join(" || ")));
        l.push(("nested", n, "(".repeat(n) + "D::a" + &")".repeat(n)));
        if n < big {
            l.push(("left", n, "(".repeat(n) + "D::a" + &" && D::b)".repeat(n)));
        }
    }
    l.reverse();
    ctx.par(&l, |(name, n, text)| {
        ctx.case(format!("deep {name} {n}"), || {
            ipc::reset(lang(v));
            let r = w.key(v, text);
            ipc::reset(lang(v));
            match r? {
                Ok(_) if *name == "nested" => Ok(()),
                Ok(_) => Err("an access policy that uses an attribute twice is accepted".into()),
                Err(e) if *name == "nested" => Err(format!("refused: {e}")),
                Err(_) => Ok(()),
            }
        });
    });
}

// ---------------------------------------------------------------- caches (WebAssembly)

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Op {
    NewEnc(usize),
    NewDec(usize),
    DelEnc(usize),
    DelDec(usize),
    /// a creation that fails
    BadEnc,
    BadDec,
    /// a use that fails
    BadUse,
}
fn caches(ctx: &Ctx, w: &Wd, w2: &Wd) {
    let prep = || -> Result<_, String> {
        Ok([
            (must(w.key(Js, &w.sp.attr((0, 0)).to_string()), "key")?, must(w.key(Js, &w.sp.attr((0, 1)).to_string()), "key")?),
            (must(w2.key(Js, &w2.sp.attr((0, 0)).to_string()), "key")?, must(w2.key(Js, &w2.sp.attr((0, 1)).to_string()), "key")?),
        ])
    };
    let keys = match prep() {
        Ok(k) => k,
        Err(m) => return ctx.case("caches setup", || Err(m)),
    };
    let ws = [w, w2];
    let depth = ctx.pick(3, 4);
    // handles are numbered by creation
    let mut hists: Vec<(Vec<Op>, usize, usize)> = vec![(vec![], 0, 0)];
    let mut all = vec![];
    for _ in 0..depth {
        let mut next = vec![];
        for (h, e, d) in &hists {
            let mut ops = vec![Op::NewEnc(0), Op::NewEnc(1), Op::NewDec(0), Op::NewDec(1), Op::BadEnc, Op::BadDec, Op::BadUse];
            ops.extend((0..=*e).map(Op::DelEnc));
            ops.extend((0..=*d).map(Op::DelDec));
            for o in ops {
                let n = [h.clone(), vec![o]].concat();
                next.push((n, e + matches!(o, Op::NewEnc(_)) as usize, d + matches!(o, Op::NewDec(_)) as usize));
            }
        }
        all.extend(next.iter().map(|x| x.0.clone()));
        hists = next;
    }
    all.retain(|h| h.len() == depth && h.iter().any(|o| matches!(o, Op::NewEnc(_) | Op::NewDec(_))));
    ctx.par(&all, |h| {
        ctx.case(format!("caches {h:?}"), || {
            ctx.state(1);
            // (handle, world, alive)
            let mut enc: Vec<(Value, usize, bool)> = vec![];
            let mut dec: Vec<(Value, usize, bool)> = vec![];
            let go = |f: &str, a: &[Value]| -> R<Value> {
                ctx.op(1);
                js(f, a)
            };
            for o in h {
                match o {
                    Op::NewEnc(i) => {
                        let x = must(go("create_encryption_cache", &[ipc::b(&ws[*i].pol), ipc::b(&ws[*i].pk)]), "create")?;
                        if enc.iter().any(|e| e.2 && e.0 == x) {
                            return Err("a handle is issued twice".into());
                        }
                        enc.push((x, *i, true));
                    }
                    Op::NewDec(i) => {
                        let x = must(go("create_decryption_cache", &[ipc::b(&keys[*i].0)]), "create")?;
                        if dec.iter().any(|e| e.2 && e.0 == x) {
                            return Err("a handle is issued twice".into());
                        }
                        dec.push((x, *i, true));
                    }
                    Op::DelEnc(i) | Op::DelDec(i) => {
                        let (l, f) = if matches!(o, Op::DelEnc(_)) { (&mut enc, "destroy_encryption_cache") } else { (&mut dec, "destroy_decryption_cache") };
                        // a handle that was never issued may be refused or ignored
                        let x = l.get(*i).map_or(ipc::i(1_000_000), |e| e.0.clone());
                        let r = go(f, &[x])?;
                        if let Some(e) = l.get_mut(*i) {
                            if e.2 && r.is_err() {
                                return Err("a living cache cannot be destroyed".into());
                            }
                            e.2 = false;
                        }
                    }
                    Op::BadEnc => {
                        if go("create_encryption_cache", &[ipc::b(&w.pol), ipc::b(&w.pk[..w.pk.len() - 1])])?.is_ok() {
                            return Err("a truncated public key is accepted".into());
                        }
                    }
                    Op::BadDec => {
                        if go("create_decryption_cache", &[ipc::b(&keys[0].0[..keys[0].0.len() - 1])])?.is_ok() {
                            return Err("a truncated user key is accepted".into());
                        }
                    }
                    Op::BadUse => {
                        for (x, ..) in &dec {
                            if go("decrypt_hybrid_header_using_cache", &[x.clone(), ipc::b(&w.heads[0].2[..20])])?.is_ok() {
                                return Err("a truncated header is accepted".into());
                            }
                        }
                        for (x, ..) in &enc {
                            if go("encrypt_hybrid_header_using_cache", &[x.clone(), ipc::t("D::nope"), ipc::b(b"u")])?.is_ok() {
                                return Err("an unknown attribute is accepted".into());
                            }
                        }
                    }
                }
            }
            // every handle, used at the end
            for (n, (x, i, alive)) in enc.iter().enumerate() {
                let r = go("encrypt_hybrid_header_using_cache", &[x.clone(), ipc::t(&ws[*i].sp.attr((0, 0)).to_string()), ipc::b(b"u")])?;
                match (r, alive) {
                    (Ok(v), true) => {
                        let v = ipc::out_b(&v)?;
                        let h = v.get(36..).ok_or("a short header")?;
                        let k = v[4..36].to_vec();
                        judge_open(Rust.open(&keys[*i].0, h), true, &k, b"u", b"").map_err(|e| format!("encryption cache {n}: {e}"))?;
                        judge_open(Rust.open(&keys[*i].1, h), false, &k, b"u", b"").map_err(|e| format!("encryption cache {n}: {e}"))?;
                    }
                    (Err(_), false) => {}
                    (Ok(_), false) => return Err(format!("destroyed encryption cache {n} still works")),
                    (Err(e), true) => return Err(format!("encryption cache {n}: {e}")),
                }
                ctx.trace(1);
            }
            for (n, (x, i, alive)) in dec.iter().enumerate() {
                for (at, k, h) in [&ws[*i].heads[0], &ws[*i].heads[1]] {
                    let want = at.contains(&(0, 0));
                    let r = go("decrypt_hybrid_header_using_cache", &[x.clone(), ipc::b(h)])?;
                    match (r, alive) {
                        (Ok(v), true) => {
                            if !want || ipc::out_b(&v)?.get(4..36) != Some(&k[..]) {
                                return Err(format!("decryption cache {n}: another outcome"));
                            }
                        }
                        (Err(e), true) if want => return Err(format!("decryption cache {n}: {e}")),
                        (Ok(_), false) => return Err(format!("destroyed decryption cache {n} still works")),
                        _ => {}
                    }
                }
                ctx.trace(1);
            }
            for x in [-1i64, 1_000_000, i32::MAX as i64, i32::MIN as i64] {
                if go("decrypt_hybrid_header_using_cache", &[ipc::i(x), ipc::b(&w.heads[0].2)])?.is_ok() || go("encrypt_hybrid_header_using_cache", &[ipc::i(x), ipc::t("D::a"), ipc::b(b"u")])?.is_ok() {
                    return Err(format!("handle {x} was never issued, and works"));
                }
            }
            for (f, l) in [("destroy_encryption_cache", &enc), ("destroy_decryption_cache", &dec)] {
                for (x, _, alive) in l {
                    if *alive {
                        must(go(f, &[x.clone()]), "destroy")?;
                    }
                }
            }
            Ok(())
        });
    });
}

/// texts of attribute lists, through the direct call and through a cache
fn attribute_texts(ctx: &Ctx, w: &Wd) {
    let tokens: Vec<String> = ["D::a", "D::b", ",", " ", "D::zz", "::", "D", "\u{e9}"].map(String::from).to_vec();
    let key = must(w.key(Js, &w.sp.attr((0, 0)).to_string()), "key");
    let uk = match key {
        Ok(k) => k,
        Err(m) => return ctx.case("attribute texts setup", || Err(m)),
    };
    let all = sequences(&tokens, ctx.pick(3, 5));
    let parts: Vec<&[Vec<usize>]> = all.chunks(20).collect();
    ctx.par(&parts, |part| {
        ctx.case(format!("attribute texts {:?}", part[0]), || {
            let h = must(js("create_encryption_cache", &[ipc::b(&w.pol), ipc::b(&w.pk)]), "cache")?;
            for s in part.iter() {
                let t: String = s.iter().map(|i| tokens[*i].as_str()).collect();
                // an oracle of its own for the list, the names are the policy's
                let names: Option<Vec<At>> = t
                    .trim()
                    .split(',')
                    .map(|a| Attribute::try_from(a).ok())
                    .map(|a| a.and_then(|a| w.sp.all().into_iter().find(|x| w.sp.attr(*x) == a)))
                    .collect();
                ctx.state(1);
                ctx.op(2);
                let u = ipc::b(b"u");
                for (what, r) in [
                    ("direct", js("encrypt_hybrid_header", &[ipc::b(&w.pol), ipc::b(&w.pk), ipc::t(&t), u.clone()])?),
                    ("cached", js("encrypt_hybrid_header_using_cache", &[h.clone(), ipc::t(&t), u.clone()])?),
                ] {
                    match (r, &names) {
                        (Ok(_), None) => return Err(format!("{what}: {t:?} is accepted")),
                        (Err(e), Some(n)) => {
                            // a list the core refuses as well
                            let a: Vec<Attribute> = n.iter().map(|x| w.sp.attr(*x)).collect();
                            if Rust.seal(&w.pol, &w.pk, &a, b"u", b"")?.is_ok() {
                                return Err(format!("{what}: {t:?} is refused: {e}"));
                            }
                        }
                        (Ok(v), Some(n)) => {
                            let v = ipc::out_b(&v)?;
                            judge_open(Rust.open(&uk, v.get(36..).ok_or("a short header")?), n.contains(&(0, 0)), &v[4..36], b"u", b"").map_err(|e| format!("{what} {t:?}: {e}"))?;
                            ctx.trace(1);
                        }
                        (Err(_), None) => {}
                    }
                }
            }
            must(js("destroy_encryption_cache", &[h]), "destroy")?;
            Ok(())
        });
    });
}
/// the announced size is read as it is written
fn sizes(ctx: &Ctx, v: Via) {
    ctx.case("header sizes", || {
        let mut vals: Vec<u32> = vec![0, 1, 2, 3, 4, 5, u32::MAX, u32::MAX - 1];
        for k in 0..32 {
            vals.extend([1u32 << k, (1u32 << k).wrapping_sub(1), (1u32 << k) + 1]);
        }
        for n in vals {
            for tail in [0usize, 1, 9] {
                let b = [&n.to_be_bytes()[..], &vec![7; tail]].concat();
                let r = if v == Py { py("get_encrypted_header_size", &[ipc::b(&b)]) } else { js("get_encrypted_header_size", &[ipc::b(&b)]) };
                let got = ipc::out_i(&must(r, format!("size of {n}"))?)?;
                if got != n as i128 {
                    return Err(format!("a header announcing {n} bytes is read as {got}"));
                }
                ctx.op(1);
                ctx.state(1);
            }
        }
        Ok(())
    });
}
/// many caches alive at once in one module
fn crowd(ctx: &Ctx, w: &Wd, w2: &Wd) {
    let n = ctx.pick(140, 1500);
    let ws = [w, w2];
    ctx.par(&[true, false], |e| {
        ctx.case(format!("crowd of {} caches", if *e { "encryption" } else { "decryption" }), || {
            let (new, del) = if *e { ("create_encryption_cache", "destroy_encryption_cache") } else { ("create_decryption_cache", "destroy_decryption_cache") };
            let keys = [must(w.key(Js, &w.sp.attr((0, 0)).to_string()), "key")?, must(w2.key(Js, &w2.sp.attr((0, 0)).to_string()), "key")?];
            let mut all: Vec<(Value, bool)> = vec![];
            let mut seen = BTreeSet::new();
            for i in 0..n {
                let x = if *e { js(new, &[ipc::b(&ws[i % 2].pol), ipc::b(&ws[i % 2].pk)]) } else { js(new, &[ipc::b(&keys[i % 2])]) };
                let x = must(x, format!("creation {i}"))?;
                if !seen.insert(x.to_string()) {
                    return Err(format!("handle {x} is issued twice"));
                }
                all.push((x, true));
                ctx.op(1);
                ctx.beat();
            }
            let check = |all: &[(Value, bool)], some: &dyn Fn(usize) -> bool| -> Result<(), String> {
                for (i, (x, alive)) in all.iter().enumerate() {
                    if !some(i) {
                        continue;
                    }
                    ctx.state(1);
                    ctx.trace(1);
                    ctx.beat();
                    let w = ws[i % 2];
                    let r = if *e {
                        match js("encrypt_hybrid_header_using_cache", &[x.clone(), ipc::t(&w.sp.attr((0, 0)).to_string()), ipc::b(b"u")])? {
                            Ok(v) => {
                                let v = ipc::out_b(&v)?;
                                judge_open(Rust.open(&keys[i % 2], v.get(36..).ok_or("a short header")?), true, &v[4..36], b"u", b"").map_err(|e| format!("cache {i} of {n}: {e}"))?;
                                Ok(())
                            }
                            Err(m) => Err(m),
                        }
                    } else {
                        let (_, k, h) = w.heads.iter().find(|h| h.0.contains(&(0, 0))).unwrap();
                        match js("decrypt_hybrid_header_using_cache", &[x.clone(), ipc::b(h)])? {
                            Ok(v) if ipc::out_b(&v)?.get(4..36) != Some(&k[..]) => return Err(format!("cache {i} of {n}: another key")),
                            Ok(_) => Ok(()),
                            Err(m) => Err(m),
                        }
                    };
                    match (r, alive) {
                        (Err(m), true) => return Err(format!("cache {i} of {n}, which is alive: {m}")),
                        (Ok(()), false) => return Err(format!("cache {i} of {n}, which is destroyed, works")),
                        _ => {}
                    }
                }
                Ok(())
            };
            let marks = |i: usize| i < 6 || i + 6 >= n || i % (n / 20) < 2;
            check(&all, &marks)?;
            for i in 0..n {
                if i % 3 == 1 {
                    must(js(del, &[all[i].0.clone()]), "destruction")?;
                    all[i].1 = false;
                    ctx.op(1);
                }
            }
            check(&all, &marks)?;
            for (x, alive) in &all {
                if *alive {
                    must(js(del, &[x.clone()]), "destruction")?;
                }
            }
            Ok(())
        });
    });
}

fn run(ctx: &Ctx, v: Via) {
    let specs = specs();
    let made: Mutex<Vec<Option<Wd>>> = Mutex::new((0..specs.len() + 2).map(|_| None).collect());
    let mut jobs: Vec<(usize, &'static str, Spec)> = specs.into_iter().enumerate().map(|(i, (n, s))| (i, n, s)).collect();
    let two = Spec::new(&[("D", &["a", "b"], false)], 3);
    jobs.push((jobs.len(), "two", two.clone()));
    jobs.push((jobs.len(), "two again", two));
    let failed = Mutex::new(vec![]);
    ctx.par(&jobs, |(i, n, sp)| match guarded(|| world(v, n, sp)) {
        Ok(Ok(w)) => made.lock().unwrap()[*i] = Some(w),
        Ok(Err(m)) | Err(m) => failed.lock().unwrap().push((*n, m)),
    });
    for (n, m) in failed.into_inner().unwrap() {
        ctx.case(format!("world {n}"), || Err(m));
    }
    let made = made.into_inner().unwrap();
    let Some(ws) = made.into_iter().collect::<Option<Vec<Wd>>>() else { return };
    let time = |ctx: &Ctx, what: &str, f: &mut dyn FnMut()| {
        let t = std::time::Instant::now();
        f();
        ctx.note(format!("{what}: {:.1} s", t.elapsed().as_secs_f64()));
    };
    std::thread::scope(|sc| {
        // takes long for few calls
        sc.spawn(|| time(ctx, "deep", &mut || deep(ctx, v, &ws[4])));
        if v == Js {
            sc.spawn(|| time(ctx, "crowd", &mut || crowd(ctx, &ws[4], &ws[5])));
        }
        parts(ctx, v, &ws, &time);
    });
}
fn parts(ctx: &Ctx, v: Via, ws: &[Wd], time: &dyn Fn(&Ctx, &str, &mut dyn FnMut())) {
    let js = v == Js;
    for w in ws {
        let k = match (w.name, ctx.quick()) {
            ("two", true) => 3,
            ("two", false) => 4,
            ("names", true) if js => 1,
            ("names" | "flat", false) => 3,
            _ => 2,
        };
        time(ctx, &format!("access {}", w.name), &mut || access(ctx, v, w, k));
    }
    let q = ctx.quick();
    if !q || !js {
        time(ctx, "texts tiers", &mut || texts(ctx, v, &ws[1], ctx.pick(6, 7), ctx.pick(2, 4)));
    }
    let (t, p) = if !q { (6, 4) } else if js { (4, 2) } else { (4, 3) };
    time(ctx, "texts names", &mut || texts(ctx, v, &ws[2], t, p));
    time(ctx, "rotations", &mut || rotations(ctx, v));
    time(ctx, "data", &mut || data(ctx, v, &ws[4]));
    sizes(ctx, v);
    time(ctx, "faults", &mut || faults(ctx, v, &ws[4]));
    if v == Py {
        time(ctx, "delegation", &mut || delegation(ctx, &ws[1], ctx.pick(2, 3), ctx.pick(1, 2)));
        time(ctx, "delegation flat", &mut || delegation(ctx, &ws[4], 2, 2));
        time(ctx, "whole", &mut || whole(ctx, &ws[1]));
        time(ctx, "policies", &mut || policies(ctx));
    } else {
        time(ctx, "caches", &mut || caches(ctx, &ws[4], &ws[5]));
        time(ctx, "attribute texts", &mut || attribute_texts(ctx, &ws[4]));
    }
}
pub fn p21(ctx: &Ctx) {
    run(ctx, Py);
}
pub fn p22(ctx: &Ctx) {
    run(ctx, Js);
}
