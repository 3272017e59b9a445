//! P11: formula text means what it says or is refused
use crate::{abe::*, form::*, sup::*, toy};
use cosmian_abe_gpsw::core::msp::{MonotoneSpanProgram, Node};
use std::collections::BTreeMap;

/// reference reader: E := T | T op E ; T := integer | ( E )
mod reference {
    use super::F;
    pub struct P<'a> {
        s: &'a [u8],
        i: usize,
    }
    impl P<'_> {
        fn ws(&mut self) {
            while self.i < self.s.len() && self.s[self.i] == b' ' {
                self.i += 1;
            }
        }
        fn t(&mut self) -> Option<F> {
            self.ws();
            if self.i >= self.s.len() {
                return None;
            }
            if self.s[self.i] == b'(' {
                self.i += 1;
                let f = self.e()?;
                self.ws();
                if self.i < self.s.len() && self.s[self.i] == b')' {
                    self.i += 1;
                    return Some(f);
                }
                return None;
            }
            let a = self.i;
            while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
                self.i += 1;
            }
            std::str::from_utf8(&self.s[a..self.i]).ok()?.parse::<u32>().ok().map(F::L)
        }
        fn e(&mut self) -> Option<F> {
            let a = self.t()?;
            self.ws();
            match self.s.get(self.i) {
                Some(b'&') => {
                    self.i += 1;
                    Some(F::A(Box::new(a), Box::new(self.e()?)))
                }
                Some(b'|') => {
                    self.i += 1;
                    Some(F::O(Box::new(a), Box::new(self.e()?)))
                }
                _ => Some(a),
            }
        }
    }
    pub fn read(s: &str) -> Option<F> {
        let mut p = P { s: s.as_bytes(), i: 0 };
        let f = p.e()?;
        p.ws();
        if p.i == s.len() { Some(f) } else { None }
    }
}

fn from_node(n: &Node) -> F {
    match n {
        Node::Leaf(a) => F::L(*a),
        Node::And(a, b) => F::A(Box::new(from_node(a)), Box::new(from_node(b))),
        Node::Or(a, b) => F::O(Box::new(from_node(a)), Box::new(from_node(b))),
    }
}
fn equivalent(a: &F, b: &F) -> bool {
    let mut v = a.leaves();
    v.extend(b.leaves());
    v.sort();
    v.dedup();
    subsets(&v).iter().all(|s| a.sat(s) == b.sat(s))
}
fn repeated(f: &F) -> bool {
    let mut v = f.leaves();
    let n = v.len();
    v.sort();
    v.dedup();
    n != v.len()
}
/// does the span of the rows of `m` held by `s` contain the vector of ones (rationals mod p)
fn spans(m: &MonotoneSpanProgram<i32>, s: &[u32]) -> bool {
    const P: i64 = 1_000_003;
    let rows: Vec<usize> = (0..m.rows()).filter(|i| s.contains(&m.get_attr_from_row(*i))).collect();
    let n = m.cols();
    // transpose augmented with ones
    let mut a: Vec<Vec<i64>> = (0..n)
        .map(|c| {
            let mut r: Vec<i64> = rows.iter().map(|i| (m.get_row(*i)[c] as i64).rem_euclid(P)).collect();
            r.push(1);
            r
        })
        .collect();
    let w = rows.len();
    let mut top = 0;
    for c in 0..w {
        let Some(p) = (top..n).find(|r| a[*r][c] != 0) else { continue };
        a.swap(p, top);
        let inv = toy::invm(a[top][c] as u64, P as u64) as i64;
        for x in a[top].iter_mut() {
            *x = *x * inv % P;
        }
        for r in 0..n {
            if r != top && a[r][c] != 0 {
                let f = a[r][c];
                for k in 0..=w {
                    a[r][k] = (a[r][k] - f * a[top][k]).rem_euclid(P);
                }
            }
        }
        top += 1;
    }
    (top..n).all(|r| a[r][w] == 0)
}

#[derive(Default)]
struct Tally(BTreeMap<&'static str, u64>);
impl Tally {
    fn add(&mut self, k: &'static str) {
        *self.0.entry(k).or_insert(0) += 1;
    }
    fn flush(self, ctx: &Ctx) {
        for (k, n) in self.0 {
            ctx.outcome(k, n);
        }
    }
}

/// judge one text; `strict_reading`: text that must not be refused when it reads as a formula
fn judge_text(t: &str, tally: &mut Tally) -> Result<(), String> {
    let want = reference::read(t);
    let got = Node::parse(t);
    let m = MonotoneSpanProgram::<i32>::parse(t);
    match (&want, &got) {
        (None, Ok(n)) => return Err(format!("{t:?} is not a formula but is read as {n}")),
        (None, Err(_)) => {
            tally.add("refused");
            return match m {
                Err(e) if e.to_string().is_empty() => Err(format!("{t:?} refused without a message")),
                Err(_) => Ok(()),
                Ok(_) => Err(format!("{t:?} is not a formula but gives a span program")),
            };
        }
        _ => {}
    }
    let want = want.unwrap();
    if repeated(&want) {
        tally.add("repeated");
        if m.is_ok() {
            return Err(format!("{t:?} uses an attribute twice but gives a span program"));
        }
        if let Ok(n) = &got {
            if !equivalent(&want, &from_node(n)) {
                return Err(format!("{t:?} is read as {n}"));
            }
        }
        return Ok(());
    }
    tally.add("formula");
    let n = got.map_err(|e| format!("formula {t:?} is refused: {e}"))?;
    if !equivalent(&want, &from_node(&n)) {
        return Err(format!("{t:?} is read as {n}"));
    }
    let m = m.map_err(|e| format!("formula {t:?} gives no span program: {e}"))?;
    let mut l = want.leaves();
    l.sort();
    let mut rows: Vec<u32> = (0..m.rows()).map(|i| m.get_attr_from_row(i)).collect();
    rows.sort();
    if rows != l {
        return Err(format!("{t:?}: the span program has attributes {rows:?}"));
    }
    for s in subsets(&l) {
        if spans(&m, &s) != want.sat(&s) {
            return Err(format!("{t:?}: the span program accepts {s:?}: {}", !want.sat(&s)));
        }
    }
    Ok(())
}

/// printed forms of a formula
fn prints(f: &F) -> Vec<String> {
    // bare: parentheses only where right grouping needs them
    fn bare(f: &F, outer: bool) -> String {
        match f {
            F::L(a) => a.to_string(),
            F::A(x, y) | F::O(x, y) => {
                let op = if matches!(f, F::A(..)) { "&" } else { "|" };
                let s = format!("{}{op}{}", bare(x, false), bare(y, true));
                if outer { s } else { format!("({s})") }
            }
        }
    }
    // full with `k` redundant pairs around every node, or around node number `at` only
    fn red(f: &F, k: usize, at: Option<usize>, i: &mut usize) -> String {
        let me = *i;
        *i += 1;
        let s = match f {
            F::L(a) => a.to_string(),
            F::A(x, y) => format!("({}&{})", red(x, k, at, i), red(y, k, at, i)),
            F::O(x, y) => format!("({}|{})", red(x, k, at, i), red(y, k, at, i)),
        };
        if at.map_or(true, |a| a == me) {
            format!("{}{s}{}", "(".repeat(k), ")".repeat(k))
        } else {
            s
        }
    }
    let nodes = 2 * f.size() - 1;
    let mut v = vec![bare(f, true), bare(f, false), red(f, 0, None, &mut 0), red(f, 1, None, &mut 0), red(f, 2, None, &mut 0)];
    for at in 0..nodes {
        v.push(red(f, 1, Some(at), &mut 0));
        v.push(red(f, 3, Some(at), &mut 0));
    }
    v
}
/// every way of spacing the tokens of a text with one space in one gap, plus everywhere
fn spacings(t: &str) -> Vec<String> {
    let mut tok: Vec<String> = vec![];
    for c in t.chars() {
        match tok.last_mut() {
            Some(l) if c.is_ascii_digit() && l.ends_with(|x: char| x.is_ascii_digit()) => l.push(c),
            _ => tok.push(c.to_string()),
        }
    }
    let mut v = vec![tok.join(" "), tok.join("   "), format!("  {t} ")];
    for i in 0..=tok.len() {
        v.push(format!("{} {}", tok[..i].concat(), tok[i..].concat()));
    }
    v
}

fn nth(alpha: &[char], len: usize, mut i: u64) -> String {
    let mut s = Vec::with_capacity(len);
    for _ in 0..len {
        s.push(alpha[(i % alpha.len() as u64) as usize]);
        i /= alpha.len() as u64;
    }
    s.iter().rev().collect()
}

fn all_texts(ctx: &Ctx, name: &str, alpha: &[char], max: usize) {
    for len in 0..=max {
        let total = (alpha.len() as u64).pow(len as u32);
        let chunk = 4000u64;
        let items: Vec<u64> = (0..total.div_ceil(chunk)).collect();
        ctx.par(&items, |c| {
            ctx.case(format!("text {name} len={len} chunk={c}"), || {
                let mut tally = Tally::default();
                for i in c * chunk..((c + 1) * chunk).min(total) {
                    let t = nth(alpha, len, i);
                    guarded(|| judge_text(&t, &mut tally)).map_err(|p| format!("{t:?} panicked: {p}"))??;
                    ctx.state(1);
                    ctx.op(2);
                    ctx.trace(1);
                }
                tally.flush(ctx);
                Ok(())
            })
        });
    }
}

/// sequences of tokens, longer than what the character enumeration reaches
fn all_tokens(ctx: &Ctx, toks: &[&str], max: usize) {
    let k = toks.len() as u64;
    for len in 1..=max {
        let total = k.pow(len as u32);
        let chunk = 4000u64;
        let items: Vec<u64> = (0..total.div_ceil(chunk)).collect();
        ctx.par(&items, |c| {
            ctx.case(format!("tokens len={len} chunk={c}"), || {
                let mut tally = Tally::default();
                for i in c * chunk..((c + 1) * chunk).min(total) {
                    let mut j = i;
                    let mut v = vec![];
                    for _ in 0..len {
                        v.push(toks[(j % k) as usize]);
                        j /= k;
                    }
                    // distinct leaves: number the place-holders
                    let mut n = 0;
                    let t: String = v
                        .iter()
                        .map(|x| if *x == "n" { n += 1; (n * 7).to_string() } else { x.to_string() })
                        .collect();
                    guarded(|| judge_text(&t, &mut tally)).map_err(|p| format!("{t:?} panicked: {p}"))??;
                    ctx.state(1);
                    ctx.op(2);
                    ctx.trace(1);
                }
                tally.flush(ctx);
                Ok(())
            })
        });
    }
}

pub fn deep(kind: &str, n: usize) -> i32 {
    let t = match kind {
        "flat" => (0..n).map(|i| i.to_string()).collect::<Vec<_>>().join("|"),
        "nested" => "(".repeat(n) + "1" + &")".repeat(n),
        _ => return 2,
    };
    // the stack of a main thread
    let h = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
        let r = Node::parse(&t);
        println!("{}", if r.is_ok() { "read" } else { "refused" });
    });
    h.unwrap().join().map_or(3, |_| 0)
}

pub fn run(ctx: &Ctx) {
    // 1. every text over the alphabet of formulas
    all_texts(ctx, "core", &['1', '2', '(', ')', '&', '|', ' '], ctx.pick(6, 8));
    all_texts(ctx, "digits", &['0', '1', '&', '|', ')', '(', 'a', '-'], ctx.pick(5, 6));
    // 2. every sequence of tokens with distinct leaves
    all_tokens(ctx, &["n", "(", ")", "&", "|"], ctx.pick(6, 9));
    // 3. every printed form of every formula, with every spacing, up to decryption
    let sizes = ctx.pick(5, 6);
    let mut fs: Vec<F> = vec![];
    for k in 1..=sizes {
        let l: Vec<u32> = [3, 0, 12, 1, 7, 10][..k].to_vec();
        fs.extend(trees(&l));
    }
    ctx.par(&fs, |f| {
        ctx.case(format!("prints {}", f.text()), || {
            let mut tally = Tally::default();
            let ps = prints(f);
            for p in &ps {
                judge_text(p, &mut tally)?;
                if equivalent(f, &reference::read(p).ok_or("reference")?) {
                    ctx.trace(1);
                } else {
                    return Err(format!("printer and reader of the check disagree on {p}"));
                }
                ctx.state(1);
                ctx.op(2);
            }
            // one bracket or operator missing or doubled in the first prints
            for p in ps.iter().take(if f.size() > ctx.pick(4, 5) { 0 } else { ctx.pick(2, 3) }) {
                for sp in spacings(p) {
                    judge_text(&sp, &mut tally)?;
                    ctx.state(1);
                }
                for i in 0..p.len() {
                    let mut a = p.clone();
                    a.remove(i);
                    judge_text(&a, &mut tally)?;
                    for c in ['(', ')', '&', '|', '4'] {
                        let mut a = p.clone();
                        a.insert(i, c);
                        judge_text(&a, &mut tally)?;
                        let mut a: Vec<char> = p.chars().collect();
                        a[i] = c;
                        judge_text(&a.iter().collect::<String>(), &mut tally)?;
                        ctx.state(2);
                    }
                    ctx.state(1);
                }
            }
            tally.flush(ctx);
            // decryption with a key made from the text
            if f.size() <= 4 {
                let (mk, pk, _) = master::<G61>(13)?;
                for p in [&ps[0], &ps[2]] {
                    let n = Node::parse(p).map_err(s("parse"))?;
                    let k = keygen::<G61>(&n, &mk)?;
                    for at in subsets(&f.leaves()) {
                        let m = rand_pt::<G61>()?;
                        if at.is_empty() {
                            continue;
                        }
                        let c = enc::<G61>(&m, &at, &pk)?;
                        judge(&dec::<G61>(&c, &k)?, f.sat(&at), &bytes(&m)?)
                            .map_err(|e| format!("{p} on {at:?}: {e}"))?;
                        ctx.op(2);
                    }
                }
            }
            Ok(())
        })
    });
    // 4. integers around the limits
    ctx.case("integers", || {
        let mut tally = Tally::default();
        let good = ["0", "00", "007", "9", "10", "99", "2147483647", "2147483648", "4294967295", "0004294967295"];
        let bad = ["4294967296", "4294967297", "42949672950", "18446744073709551615", "18446744073709551616",
            "99999999999999999999999999999999999999999", "340282366920938463463374607431768211457"];
        for g in good.iter().chain(&bad) {
            for t in [g.to_string(), format!("({g})"), format!("5&{g}"), format!("{g}|5"), format!("(5|({g}&6))"), format!(" {g} & 5 ")] {
                judge_text(&t, &mut tally)?;
                ctx.state(1);
                ctx.op(2);
            }
        }
        for g in good {
            if Node::parse(g).is_err() {
                return Err(format!("{g} is refused"));
            }
        }
        for b in bad {
            if Node::parse(b).is_ok() {
                return Err(format!("{b} is accepted"));
            }
        }
        tally.flush(ctx);
        Ok(())
    });
    // 5. every foreign character, at every place of a few formulas
    let mut chars: Vec<char> = (0..=0x24fu32).filter_map(char::from_u32).collect();
    chars.extend("٣３²½Ⅷ−﹢∧∨，（）＆｜\u{200b}\u{feff}\u{a0}\u{3000}\u{2028}𝟏😀\u{10ffff}".chars());
    ctx.par(&chars, |c| {
        ctx.case(format!("char U+{:04X}", *c as u32), || {
            let mut tally = Tally::default();
            for base in ["1", "12&3", "(1|2)&3", "1&(2|3)"] {
                for i in 0..=base.len() {
                    for del in [false, true] {
                        let mut t: String = base[..i].into();
                        t.push(*c);
                        t.push_str(&base[(i + del as usize).min(base.len())..]);
                        ctx.state(1);
                        ctx.op(2);
                        // other white space may be refused or read as a space
                        if c.is_whitespace() && *c != ' ' {
                            let Ok(n) = Node::parse(&t) else { continue };
                            let w = reference::read(&t.replace(*c, " "));
                            if !w.is_some_and(|w| equivalent(&w, &from_node(&n))) {
                                return Err(format!("{t:?} is read as {n}"));
                            }
                            continue;
                        }
                        guarded(|| judge_text(&t, &mut tally)).map_err(|p| format!("{t:?} panicked: {p}"))??;
                    }
                }
            }
            tally.flush(ctx);
            Ok(())
        })
    });
    // 6. long and deep formulas; each in its own process as a stack overflow cannot be caught
    let jobs: Vec<(&str, usize)> = ["flat", "nested"]
        .iter()
        .flat_map(|k| [300, 1000, 30000].iter().map(move |n| (*k, *n)))
        .collect();
    ctx.par(&jobs, |(k, n)| {
        ctx.case(format!("deep {k} {n}"), || {
            let o = std::process::Command::new(std::env::current_exe().unwrap())
                .args(["deep", k, &n.to_string()])
                .stderr(std::process::Stdio::null())
                .output()
                .map_err(|e| e.to_string())?;
            ctx.state(1);
            ctx.op(1);
            if !o.status.success() {
                return Err(format!("parsing a {k} formula of {n} levels crashes the process ({})", o.status));
            }
            let out = String::from_utf8_lossy(&o.stdout);
            ctx.outcome(if out.starts_with("read") { "deep read" } else { "deep refused" }, 1);
            Ok(())
        })
    });
}
