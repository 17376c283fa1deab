//! SMT encodings (integer arithmetic with mod-2^w semantics, and bit-vectors) and solver processes.
use crate::term::*;
use rustc_hash::{FxHashMap, FxHashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, Receiver};
use std::time::{Duration, Instant};

#[derive(Clone, Debug)]
pub enum Res {
    Sat(FxHashMap<u32, u128>), // var index -> value
    Unsat,
    Unknown,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Lia,
    Nia,
    Bv,
}

#[derive(Default, Clone, Debug)]
pub struct Stats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub swept: u64,
    pub model_hits: u64,
    pub solver_s: f64,
    pub by_engine: std::collections::BTreeMap<String, u64>,
}

pub fn vars_of(s: &Store, roots: &[T]) -> Vec<u32> {
    let mut seen = FxHashSet::default();
    let mut st: Vec<T> = roots.to_vec();
    let mut out = vec![];
    while let Some(t) = st.pop() {
        if !seen.insert(t) {
            continue;
        }
        let n = s.n(t);
        match n.k {
            K::Const => {}
            K::Var => out.push(n.v as u32),
            K::Not | K::Extract | K::ZExt | K::SExt => st.push(n.a),
            K::Ite => {
                st.push(n.a);
                st.push(n.b);
                st.push(n.c);
            }
            _ => {
                st.push(n.a);
                st.push(n.b);
            }
        }
    }
    out
}

fn topo(s: &Store, roots: &[T]) -> Vec<T> {
    let mut seen: FxHashSet<T> = Default::default();
    let mut out = vec![];
    let mut st: Vec<(T, bool)> = roots.iter().rev().map(|t| (*t, false)).collect();
    while let Some((t, done)) = st.pop() {
        if done {
            out.push(t);
            continue;
        }
        if !seen.insert(t) {
            continue;
        }
        st.push((t, true));
        let n = s.n(t);
        match n.k {
            K::Const | K::Var => {}
            K::Not | K::Extract | K::ZExt | K::SExt => st.push((n.a, false)),
            K::Ite => {
                st.push((n.c, false));
                st.push((n.b, false));
                st.push((n.a, false));
            }
            _ => {
                st.push((n.b, false));
                st.push((n.a, false));
            }
        }
    }
    out
}

pub fn split_and(s: &Store, lits: &[T]) -> Vec<T> {
    let mut out = vec![];
    let mut st: Vec<T> = lits.iter().rev().cloned().collect();
    let mut seen = FxHashSet::default();
    while let Some(t) = st.pop() {
        if t == TRUE || !seen.insert(t) {
            continue;
        }
        let n = s.n(t);
        if n.k == K::And && n.w == 1 {
            st.push(n.b);
            st.push(n.a);
            continue;
        }
        if n.k == K::Not {
            let m = s.n(n.a);
            if m.k == K::Or && m.w == 1 {
                // not(a or b): push negations if they exist as nodes; otherwise keep whole
                // (negated children may not be interned; keep whole literal)
            }
        }
        out.push(t);
    }
    out
}

struct Enc<'a> {
    s: &'a Store,
    iv: FxHashMap<T, (u128, u128)>,
    truth: FxHashMap<T, bool>,
    ex: FxHashMap<T, String>,
    defs: String,
    asserts: String,
    prods: Vec<Prod>,
    prodmap: FxHashMap<(String, String), usize>,
    divs: Vec<(String, String, String)>, // (numerator expr, denominator expr, q name)
    mode: Mode,
    nfresh: usize,
    abstracted: bool,
}
#[derive(Clone)]
struct Prod {
    name: String,
    x: String,
    y: String,
    xi: (u128, u128),
    yi: (u128, u128),
}

fn big(v: u128) -> String {
    v.to_string()
}
fn pow2(w: u8) -> String {
    if w == 128 {
        "340282366920938463463374607431768211456".to_string()
    } else {
        (1u128 << w).to_string()
    }
}

impl<'a> Enc<'a> {
    fn i(&self, t: T) -> (u128, u128) {
        *self.iv.get(&t).unwrap_or(&(self.s.lo[t as usize], self.s.hi[t as usize]))
    }
    fn tighten(&mut self, t: T, lo: u128, hi: u128) -> bool {
        let (l, h) = self.i(t);
        let nl = l.max(lo);
        let nh = h.min(hi);
        if nl > nh {
            return true; // contradictory; leave to solver
        }
        if (nl, nh) != (l, h) {
            self.iv.insert(t, (nl, nh));
            // propagate through zext/extract
            let n = self.s.n(t);
            if n.k == K::ZExt {
                self.tighten(n.a, nl, nh);
            }
            return true;
        }
        false
    }
    fn lit(&mut self, t: T, pos: bool) {
        let n = self.s.n(t);
        match (n.k, pos) {
            (K::Not, _) => self.lit(n.a, !pos),
            (K::And, true) if n.w == 1 => {
                self.lit(n.a, true);
                self.lit(n.b, true);
            }
            (K::Or, false) if n.w == 1 => {
                self.lit(n.a, false);
                self.lit(n.b, false);
            }
            _ => {
                self.truth.insert(t, pos);
                match (n.k, pos) {
                    (K::Ult, true) => {
                        let (la, _) = self.i(n.a);
                        let (_, hb) = self.i(n.b);
                        if hb > 0 {
                            self.tighten(n.a, 0, hb - 1);
                        }
                        if la < u128::MAX {
                            self.tighten(n.b, la + 1, u128::MAX);
                        }
                    }
                    (K::Ult, false) => {
                        let (_, ha) = self.i(n.a);
                        let (lb, _) = self.i(n.b);
                        self.tighten(n.a, lb, u128::MAX);
                        self.tighten(n.b, 0, ha);
                    }
                    (K::Eq, true) => {
                        let (la, ha) = self.i(n.a);
                        let (lb, hb) = self.i(n.b);
                        self.tighten(n.a, lb, hb);
                        self.tighten(n.b, la, ha);
                    }
                    (K::Eq, false) => {
                        if let Some(c) = self.s.cv(n.b) {
                            let (la, ha) = self.i(n.a);
                            if la == c && ha > c {
                                self.tighten(n.a, c + 1, u128::MAX);
                            } else if ha == c && la < c {
                                self.tighten(n.a, 0, c - 1);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    /// recompute interval of t from children (semantically valid facts only)
    fn recompute(&mut self, t: T) {
        let n = self.s.n(t);
        let m = mask(n.w);
        let r = match n.k {
            K::Add => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                let nowrap = self.nw_add(n.a, n.b, n.w);
                if nowrap {
                    Some((a.0.saturating_add(b.0), a.1.saturating_add(b.1).min(m)))
                } else {
                    None
                }
            }
            K::Sub => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                if a.0 >= b.1 {
                    Some((a.0 - b.1, a.1 - b.0))
                } else if self.nw_sub(n.a, n.b) {
                    Some((a.0.saturating_sub(b.1), a.1.saturating_sub(b.0)))
                } else {
                    None
                }
            }
            K::Mul => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                if self.nw_mul(n.a, n.b, n.w) {
                    Some((a.0.saturating_mul(b.0).min(m), a.1.saturating_mul(b.1).min(m)))
                } else {
                    None
                }
            }
            K::UDiv => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                if b.0 > 0 {
                    Some((a.0 / b.1, a.1 / b.0))
                } else {
                    None
                }
            }
            K::URem => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                if b.0 > 0 {
                    Some((0, a.1.min(b.1 - 1)))
                } else {
                    None
                }
            }
            K::ZExt => Some(self.i(n.a)),
            K::Ite => {
                let (x, y) = (self.i(n.b), self.i(n.c));
                match self.truth.get(&n.a) {
                    Some(true) => Some(x),
                    Some(false) => Some(y),
                    None => {
                        let mut r = (x.0.min(y.0), x.1.max(y.1));
                        let c = self.s.n(n.a);
                        if c.k == K::Ult {
                            if (c.a, c.b) == (n.b, n.c) {
                                r.1 = x.1.min(y.1);
                            } else if (c.a, c.b) == (n.c, n.b) {
                                r.0 = x.0.max(y.0);
                            }
                        }
                        Some(r)
                    }
                }
            }
            K::Extract => {
                let a = self.i(n.a);
                if a.1 >> n.b <= m {
                    Some((a.0 >> n.b, a.1 >> n.b))
                } else {
                    None
                }
            }
            K::Concat => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                let lw = self.s.w(n.b);
                Some(((a.0 << lw) | b.0, (a.1 << lw) | b.1))
            }
            K::USubSat => {
                let (a, b) = (self.i(n.a), self.i(n.b));
                Some((a.0.saturating_sub(b.1), a.1.saturating_sub(b.0)))
            }
            _ => None,
        };
        if let Some((l, h)) = r {
            if l <= h {
                self.tighten(t, l, h);
            }
        }
    }
    fn nw_add(&self, a: T, b: T, w: u8) -> bool {
        let (x, y) = (self.i(a), self.i(b));
        if x.1.checked_add(y.1).map_or(false, |s| s <= mask(w)) {
            return true;
        }
        self.known_false(K::UAddOv, a, b)
    }
    fn nw_mul(&self, a: T, b: T, w: u8) -> bool {
        let (x, y) = (self.i(a), self.i(b));
        if x.1.checked_mul(y.1).map_or(false, |s| s <= mask(w)) {
            return true;
        }
        self.known_false(K::UMulOv, a, b)
    }
    fn known_false(&self, k: K, a: T, b: T) -> bool {
        for (t, v) in &self.truth {
            if !*v {
                let n = self.s.n(*t);
                if n.k == k && ((n.a, n.b) == (a, b) || (n.a, n.b) == (b, a)) {
                    return true;
                }
            }
        }
        false
    }
    fn nw_sub(&self, a: T, b: T) -> bool {
        let (x, y) = (self.i(a), self.i(b));
        if x.0 >= y.1 {
            return true;
        }
        for (t, v) in &self.truth {
            let n = self.s.n(*t);
            if n.k == K::Ult {
                if !*v && (n.a, n.b) == (a, b) {
                    return true;
                }
                if *v && (n.a, n.b) == (b, a) {
                    return true;
                }
            }
        }
        false
    }
    fn fresh(&mut self, p: &str) -> String {
        self.nfresh += 1;
        format!("{}_{}", p, self.nfresh)
    }
    fn prod(&mut self, x: &str, y: &str, xi: (u128, u128), yi: (u128, u128)) -> String {
        let (x, y, xi, yi) = if x <= y { (x, y, xi, yi) } else { (y, x, yi, xi) };
        let key = (x.to_string(), y.to_string());
        if let Some(&i) = self.prodmap.get(&key) {
            return self.prods[i].name.clone();
        }
        let name = self.fresh("m");
        let _ = writeln!(self.defs, "(declare-const {} Int)", name);
        if self.mode == Mode::Nia {
            let _ = writeln!(self.asserts, "(assert (= {} (* {} {})))", name, x, y);
        } else {
            self.abstracted = true;
        }
        self.prodmap.insert(key, self.prods.len());
        self.prods.push(Prod {
            name: name.clone(),
            x: x.to_string(),
            y: y.to_string(),
            xi,
            yi,
        });
        name
    }
    fn e(&self, t: T) -> String {
        if let Some(c) = self.s.cv(t) {
            if self.s.w(t) == 1 {
                return if c == 1 { "true".into() } else { "false".into() };
            }
            return big(c);
        }
        let (l, h) = self.i(t);
        if l == h && self.s.w(t) > 1 && self.s.n(t).k != K::Var {
            // value fixed by the literals; the literal itself is still asserted on the defining expression
        }
        self.ex[&t].clone()
    }
    /// as integer (bools converted)
    fn ei(&self, t: T) -> String {
        if self.s.w(t) == 1 {
            format!("(ite {} 1 0)", self.e(t))
        } else {
            self.e(t)
        }
    }
    fn enc(&mut self, t: T) {
        let n = self.s.n(t);
        if n.k == K::Const {
            return;
        }
        let w = n.w;
        let expr: String = match n.k {
            K::Const => unreachable!(),
            K::Var => {
                let nm = format!("v{}", n.v);
                if w == 1 {
                    let _ = writeln!(self.defs, "(declare-const {} Bool)", nm);
                } else {
                    let _ = writeln!(self.defs, "(declare-const {} Int)", nm);
                    let _ = writeln!(self.asserts, "(assert (and (<= {} {}) (<= {} {})))", self.s.lo[t as usize], nm, nm, self.s.hi[t as usize]);
                }
                self.ex.insert(t, nm);
                return;
            }
            K::Add => {
                let (a, b) = (self.e(n.a), self.e(n.b));
                if self.nw_add(n.a, n.b, w) {
                    format!("(+ {} {})", a, b)
                } else {
                    format!("(ite (>= (+ {a} {b}) {p}) (- (+ {a} {b}) {p}) (+ {a} {b}))", a = a, b = b, p = pow2(w))
                }
            }
            K::Sub => {
                let (a, b) = (self.e(n.a), self.e(n.b));
                if self.nw_sub(n.a, n.b) {
                    format!("(- {} {})", a, b)
                } else {
                    format!("(ite (>= {a} {b}) (- {a} {b}) (+ (- {a} {b}) {p}))", a = a, b = b, p = pow2(w))
                }
            }
            K::Mul => {
                let (a, b) = (self.e(n.a), self.e(n.b));
                let lin = self.s.cv(n.b).is_some() || self.s.cv(n.a).is_some();
                let m = if lin {
                    format!("(* {} {})", a, b)
                } else {
                    let (xi, yi) = (self.i(n.a), self.i(n.b));
                    self.prod(&a, &b, xi, yi)
                };
                if self.nw_mul(n.a, n.b, w) {
                    m
                } else {
                    format!("(mod {} {})", m, pow2(w))
                }
            }
            K::UDiv | K::URem => {
                let (a, b) = (self.e(n.a), self.e(n.b));
                if let Some(c) = self.s.cv(n.b) {
                    if n.k == K::UDiv {
                        format!("(div {} {})", a, c)
                    } else {
                        format!("(mod {} {})", a, c)
                    }
                } else {
                    let (q, r) = self.divmod(&a, &b, self.i(n.a), self.i(n.b), w);
                    if n.k == K::UDiv {
                        q
                    } else {
                        r
                    }
                }
            }
            K::And | K::Or | K::Xor if w == 1 => {
                let (a, b) = (self.e(n.a), self.e(n.b));
                let o = match n.k {
                    K::And => "and",
                    K::Or => "or",
                    _ => "xor",
                };
                format!("({} {} {})", o, a, b)
            }
            K::And | K::Or | K::Xor | K::Shl | K::LShr | K::AShr | K::SDiv | K::SRem => {
                // not representable: abstract by a bounded fresh value
                self.abstracted = true;
                let f = self.fresh("abs");
                let _ = writeln!(self.defs, "(declare-const {} Int)", f);
                let (l, h) = self.i(t);
                let _ = writeln!(self.asserts, "(assert (and (<= {} {}) (<= {} {})))", l, f, f, h);
                if n.k == K::And {
                    let (a, b) = (self.e(n.a), self.e(n.b));
                    let _ = writeln!(self.asserts, "(assert (and (<= {f} {a}) (<= {f} {b})))");
                }
                f
            }
            K::Not => format!("(not {})", self.e(n.a)),
            K::Eq => format!("(= {} {})", self.e(n.a), self.e(n.b)),
            K::Ult => format!("(< {} {})", self.e(n.a), self.e(n.b)),
            K::Slt => {
                let iw = self.s.w(n.a);
                let h = pow2(iw - 1);
                let p = pow2(iw);
                let sg = |x: String| format!("(ite (>= {x} {h}) (- {x} {p}) {x})");
                format!("(< {} {})", sg(self.e(n.a)), sg(self.e(n.b)))
            }
            K::Ite => format!("(ite {} {} {})", self.e(n.a), self.e(n.b), self.e(n.c)),
            K::Extract => {
                let a = self.e(n.a);
                let sh = if n.b > 0 {
                    format!("(div {} {})", a, pow2(n.b as u8))
                } else {
                    a
                };
                let ai = self.i(n.a);
                let x = if ai.1 >> n.b <= mask(w) {
                    sh
                } else {
                    format!("(mod {} {})", sh, pow2(w))
                };
                if w == 1 {
                    format!("(= {} 1)", x)
                } else {
                    x
                }
            }
            K::Concat => {
                let lw = self.s.w(n.b);
                format!("(+ (* {} {}) {})", self.ei(n.a), pow2(lw), self.ei(n.b))
            }
            K::ZExt => self.ei(n.a),
            K::SExt => {
                let aw = self.s.w(n.a);
                let a = self.ei(n.a);
                // a >= 2^(aw-1) ? a + 2^w - 2^aw : a
                let add = if w == 128 {
                    u128::MAX - mask(aw)
                } else {
                    (1u128 << w) - (1u128 << aw)
                };
                format!("(ite (>= {a} {}) (+ {a} {}) {a})", pow2(aw - 1), add)
            }
            K::UAddOv => {
                let iw = self.s.w(n.a);
                format!("(>= (+ {} {}) {})", self.e(n.a), self.e(n.b), pow2(iw))
            }
            K::UMulOv => {
                let iw = self.s.w(n.a);
                let (a, b) = (self.e(n.a), self.e(n.b));
                let (xi, yi) = (self.i(n.a), self.i(n.b));
                let m = self.prod(&a, &b, xi, yi);
                format!("(>= {} {})", m, pow2(iw))
            }
            K::SAddOv | K::SSubOv | K::SMulOv => {
                let iw = self.s.w(n.a);
                let h = pow2(iw - 1);
                let p = pow2(iw);
                let sg = |x: String| format!("(ite (>= {x} {h}) (- {x} {p}) {x})");
                let o = match n.k {
                    K::SAddOv => "+",
                    K::SSubOv => "-",
                    _ => "*",
                };
                let r = format!("({} {} {})", o, sg(self.e(n.a)), sg(self.e(n.b)));
                format!("(or (>= {r} {h}) (< {r} (- {h})))")
            }
            K::USubSat => {
                let (a, b) = (self.e(n.a), self.e(n.b));
                format!("(ite (>= {a} {b}) (- {a} {b}) 0)")
            }
        };
        let simple = expr.len() < 24 && !expr.starts_with('(');
        if simple {
            self.ex.insert(t, expr);
        } else {
            let nm = format!("t{}", t);
            let sort = if w == 1 { "Bool" } else { "Int" };
            let _ = writeln!(self.defs, "(define-fun {} () {} {})", nm, sort, expr);
            self.ex.insert(t, nm);
        }
    }
    fn divmod(&mut self, a: &str, b: &str, ai: (u128, u128), bi: (u128, u128), w: u8) -> (String, String) {
        for (x, y, q) in &self.divs {
            if x == a && y == b {
                return (q.clone(), q.replacen("q_", "r_", 1));
            }
        }
        let q = self.fresh("q");
        let r = q.replacen("q_", "r_", 1);
        let _ = writeln!(self.defs, "(declare-const {} Int)\n(declare-const {} Int)", q, r);
        let qhi = if bi.0 > 0 { ai.1 / bi.0 } else { mask(w) };
        let p = self.prod(&q, b, (0, qhi), bi);
        // definitions depend on p (declared in defs already)
        let body = format!("(and (= {a} (+ {p} {r})) (<= 0 {r}) (< {r} {b}) (<= 0 {q}) (<= {q} {qhi}))");
        if bi.0 > 0 {
            let _ = writeln!(self.asserts, "(assert {})", body);
        } else {
            let _ = writeln!(self.asserts, "(assert (ite (= {b} 0) (and (= {q} {}) (= {r} {a})) {}))", mask(w), body);
        }
        self.divs.push((a.to_string(), b.to_string(), q.clone()));
        (q, r)
    }
    fn lemmas(&mut self) {
        let mut o = String::new();
        let ps = self.prods.clone();
        for p in &ps {
            let (m, x, y) = (&p.name, &p.x, &p.y);
            let _ = writeln!(o, "(assert (>= {m} 0))");
            let _ = writeln!(o, "(assert (=> (>= {y} 1) (>= {m} {x})))\n(assert (=> (>= {x} 1) (>= {m} {y})))");
            let _ = writeln!(o, "(assert (=> (= {x} 0) (= {m} 0)))\n(assert (=> (= {y} 0) (= {m} 0)))");
            let _ = writeln!(o, "(assert (=> (= {x} 1) (= {m} {y})))\n(assert (=> (= {y} 1) (= {m} {x})))");
            let _ = writeln!(o, "(assert (<= {m} (* {} {y})))\n(assert (<= {m} (* {} {x})))", p.xi.1, p.yi.1);
            let _ = writeln!(o, "(assert (>= {m} (* {} {y})))\n(assert (>= {m} (* {} {x})))", p.xi.0, p.yi.0);
        }
        let np = ps.len().min(24);
        for i in 0..np {
            for j in (i + 1)..np {
                let (a, b) = (&ps[i], &ps[j]);
                let mut shared = false;
                for (ax, ay) in [(&a.x, &a.y), (&a.y, &a.x)] {
                    for (bx, by) in [(&b.x, &b.y), (&b.y, &b.x)] {
                        if ay == by {
                            shared = true;
                            let (m, k) = (&a.name, &b.name);
                            let _ = writeln!(o, "(assert (=> (< {ax} {bx}) (<= (+ {m} {ay}) {k})))");
                            let _ = writeln!(o, "(assert (=> (< {bx} {ax}) (<= (+ {k} {ay}) {m})))");
                            let _ = writeln!(o, "(assert (=> (= {bx} {ax}) (= {k} {m})))");
                            // triples: ax + bx vs cx
                            for c in ps.iter().take(np) {
                                if c.name == a.name || c.name == b.name {
                                    continue;
                                }
                                for (cx, cy) in [(&c.x, &c.y), (&c.y, &c.x)] {
                                    if cy == ay {
                                        let _ = writeln!(o, "(assert (=> (<= (+ {ax} {bx}) {cx}) (<= (+ {m} {k}) {})))", c.name);
                                        let _ = writeln!(o, "(assert (=> (>= (+ {ax} {bx}) {cx}) (>= (+ {m} {k}) {})))", c.name);
                                    }
                                }
                            }
                        }
                    }
                }
                if !shared {
                    for (ax, ay) in [(&a.x, &a.y), (&a.y, &a.x)] {
                        for (bx, by) in [(&b.x, &b.y)] {
                            let (m, k) = (&a.name, &b.name);
                            let _ = writeln!(o, "(assert (=> (and (<= {ax} {bx}) (<= {ay} {by})) (<= {m} {k})))");
                            let _ = writeln!(o, "(assert (=> (and (<= {bx} {ax}) (<= {by} {ay})) (<= {k} {m})))");
                            let _ = writeln!(o, "(assert (=> (and (< {ax} {bx}) (<= {ay} {by})) (<= (+ {m} {by}) {k})))");
                            let _ = writeln!(o, "(assert (=> (and (< {bx} {ax}) (<= {by} {ay})) (<= (+ {k} {ay}) {m})))");
                            let _ = writeln!(o, "(assert (=> (and (<= {ax} {bx}) (< {ay} {by})) (<= (+ {m} {bx}) {k})))");
                            let _ = writeln!(o, "(assert (=> (and (<= {bx} {ax}) (< {by} {ay})) (<= (+ {k} {ax}) {m})))");
                        }
                    }
                }
            }
        }
        // division-specific
        let ds = self.divs.clone();
        let find_prod = |e: &str| ps.iter().find(|p| p.name == e).cloned();
        for (i, (a1, b1, q1)) in ds.iter().enumerate() {
            for (j, (a2, b2, q2)) in ds.iter().enumerate() {
                if i == j {
                    continue;
                }
                let _ = writeln!(o, "(assert (=> (and (<= {a1} {a2}) (>= {b1} {b2}) (> {b2} 0)) (<= {q1} {q2})))");
                if i < j && b1 == b2 {
                    if let (Some(p1), Some(p2)) = (find_prod(a1), find_prod(a2)) {
                        for (x1, y1) in [(&p1.x, &p1.y), (&p1.y, &p1.x)] {
                            for (x2, y2) in [(&p2.x, &p2.y), (&p2.y, &p2.x)] {
                                if x1 == x2 {
                                    let _ = writeln!(o, "(assert (=> (and (> {b1} 0) (<= (+ {y1} {y2}) {b1})) (<= (+ {q1} {q2}) {x1})))");
                                    for (k, (a3, b3, q3)) in ds.iter().enumerate() {
                                        if k > j && b3 == b1 {
                                            if let Some(p3) = find_prod(a3) {
                                                for (x3, y3) in [(&p3.x, &p3.y), (&p3.y, &p3.x)] {
                                                    if x3 == x1 {
                                                        let _ = writeln!(o, "(assert (=> (and (> {b1} 0) (<= (+ {y1} {y2} {y3}) {b1})) (<= (+ {q1} {q2} {q3}) {x1})))");
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
        self.asserts.push_str(&o);
    }
}

pub struct Script {
    pub text: String,
    pub vars: Vec<u32>,
    pub abstracted: bool,
    pub nonlinear: bool,
}

pub fn encode(s: &Store, lits: &[T], mode: Mode, bound: Option<u32>) -> Script {
    if mode == Mode::Bv {
        return encode_bv(s, lits, bound);
    }
    let lits = split_and(s, lits);
    let order = topo(s, &lits);
    let mut e = Enc {
        s,
        iv: Default::default(),
        truth: Default::default(),
        ex: Default::default(),
        defs: String::new(),
        asserts: String::new(),
        prods: vec![],
        prodmap: Default::default(),
        divs: vec![],
        mode,
        nfresh: 0,
        abstracted: false,
    };
    for _ in 0..3 {
        for l in &lits {
            e.lit(*l, true);
        }
        for t in &order {
            e.recompute(*t);
        }
    }
    for t in &order {
        e.enc(*t);
    }
    for l in &lits {
        let x = e.e(*l);
        let _ = writeln!(e.asserts, "(assert {})", x);
    }
    e.lemmas();
    let vars = vars_of(s, &lits);
    if let Some(b) = bound {
        for v in &vars {
            let t = s.var_terms[*v as usize];
            if s.w(t) > 1 && s.hi[t as usize] > mask(b as u8) && s.lo[t as usize] <= mask(b as u8) {
                let _ = writeln!(e.asserts, "(assert (<= v{} {}))", v, mask(b as u8));
            }
        }
    }
    let nonlinear = !e.prods.is_empty();
    let mut text = String::new();
    text.push_str(&e.defs_in_order());
    Script {
        text,
        vars,
        abstracted: e.abstracted,
        nonlinear,
    }
}

impl<'a> Enc<'a> {
    fn defs_in_order(&self) -> String {
        format!("{}{}", self.defs, self.asserts)
    }
}

fn encode_bv(s: &Store, lits: &[T], bound: Option<u32>) -> Script {
    let lits = split_and(s, lits);
    let order = topo(s, &lits);
    let mut ex: FxHashMap<T, String> = Default::default();
    let mut o = String::new();
    let cst = |v: u128, w: u8| format!("(_ bv{} {})", v, w);
    let e = |t: T, ex: &FxHashMap<T, String>| -> String {
        if let Some(c) = s.cv(t) {
            if s.w(t) == 1 {
                return if c == 1 { "true".into() } else { "false".into() };
            }
            return cst(c, s.w(t));
        }
        ex[&t].clone()
    };
    let eb = |t: T, ex: &FxHashMap<T, String>| -> String {
        if s.w(t) == 1 {
            format!("(ite {} #b1 #b0)", e(t, ex))
        } else {
            e(t, ex)
        }
    };
    for &t in &order {
        let n = s.n(t);
        let w = n.w;
        if n.k == K::Const {
            continue;
        }
        let x = match n.k {
            K::Const => unreachable!(),
            K::Var => {
                let nm = format!("v{}", n.v);
                if w == 1 {
                    let _ = writeln!(o, "(declare-const {} Bool)", nm);
                } else {
                    let _ = writeln!(o, "(declare-const {} (_ BitVec {}))", nm, w);
                    let mut hi = s.hi[t as usize];
                    let lo = s.lo[t as usize];
                    if let Some(b) = bound {
                        if w == 128 {
                            // a 64.64 fixed point number with few significant bits
                            let top = (mask(b as u8) << 64) | (3 << 62);
                            if lo <= top {
                                let _ = writeln!(o, "(assert (= ((_ extract 61 0) {}) {}))", nm, cst(0, 62));
                                hi = hi.min(top);
                            }
                        } else if lo <= mask(b as u8) {
                            hi = hi.min(mask(b as u8));
                        }
                    }
                    if hi < mask(w) {
                        let _ = writeln!(o, "(assert (bvule {} {}))", nm, cst(hi, w));
                    }
                    if lo > 0 {
                        let _ = writeln!(o, "(assert (bvule {} {}))", cst(lo, w), nm);
                    }
                }
                ex.insert(t, nm);
                continue;
            }
            K::Add | K::Sub | K::Mul | K::UDiv | K::URem | K::SDiv | K::SRem | K::Shl | K::LShr | K::AShr => {
                let op = match n.k {
                    K::Add => "bvadd",
                    K::Sub => "bvsub",
                    K::Mul => "bvmul",
                    K::UDiv => "bvudiv",
                    K::URem => "bvurem",
                    K::SDiv => "bvsdiv",
                    K::SRem => "bvsrem",
                    K::Shl => "bvshl",
                    K::LShr => "bvlshr",
                    _ => "bvashr",
                };
                format!("({} {} {})", op, e(n.a, &ex), e(n.b, &ex))
            }
            K::And | K::Or | K::Xor => {
                let op = match (n.k, w) {
                    (K::And, 1) => "and",
                    (K::Or, 1) => "or",
                    (K::Xor, 1) => "xor",
                    (K::And, _) => "bvand",
                    (K::Or, _) => "bvor",
                    _ => "bvxor",
                };
                format!("({} {} {})", op, e(n.a, &ex), e(n.b, &ex))
            }
            K::Not => format!("(not {})", e(n.a, &ex)),
            K::Eq => format!("(= {} {})", e(n.a, &ex), e(n.b, &ex)),
            K::Ult => format!("(bvult {} {})", e(n.a, &ex), e(n.b, &ex)),
            K::Slt => format!("(bvslt {} {})", e(n.a, &ex), e(n.b, &ex)),
            K::Ite => format!("(ite {} {} {})", e(n.a, &ex), e(n.b, &ex), e(n.c, &ex)),
            K::Extract => {
                let x = format!("((_ extract {} {}) {})", n.b + w as u32 - 1, n.b, e(n.a, &ex));
                if w == 1 {
                    format!("(= {} #b1)", x)
                } else {
                    x
                }
            }
            K::Concat => format!("(concat {} {})", eb(n.a, &ex), eb(n.b, &ex)),
            K::ZExt => format!("((_ zero_extend {}) {})", w - s.w(n.a), eb(n.a, &ex)),
            K::SExt => format!("((_ sign_extend {}) {})", w - s.w(n.a), eb(n.a, &ex)),
            K::UAddOv => format!("(bvult (bvadd {a} {b}) {a})", a = e(n.a, &ex), b = e(n.b, &ex)),
            K::UMulOv => {
                let iw = s.w(n.a);
                format!(
                    "(not (= ((_ extract {} {}) (bvmul ((_ zero_extend {iw}) {}) ((_ zero_extend {iw}) {}))) {}))",
                    2 * iw as u32 - 1,
                    iw,
                    e(n.a, &ex),
                    e(n.b, &ex),
                    cst(0, iw)
                )
            }
            K::SAddOv | K::SSubOv | K::SMulOv => {
                let iw = s.w(n.a) as u32;
                let op = match n.k {
                    K::SAddOv => "bvadd",
                    K::SSubOv => "bvsub",
                    _ => "bvmul",
                };
                let r = format!("({} ((_ sign_extend {iw}) {}) ((_ sign_extend {iw}) {}))", op, e(n.a, &ex), e(n.b, &ex));
                format!("(not (= {r} ((_ sign_extend {iw}) ((_ extract {} 0) {r}))))", iw - 1)
            }
            K::USubSat => {
                let (a, b) = (e(n.a, &ex), e(n.b, &ex));
                format!("(ite (bvult {a} {b}) {} (bvsub {a} {b}))", cst(0, w))
            }
        };
        let nm = format!("t{}", t);
        let sort = if w == 1 {
            "Bool".to_string()
        } else {
            format!("(_ BitVec {})", w)
        };
        let _ = writeln!(o, "(define-fun {} () {} {})", nm, sort, x);
        ex.insert(t, nm);
    }
    for l in &lits {
        let _ = writeln!(o, "(assert {})", e(*l, &ex));
    }
    Script {
        vars: vars_of(s, &lits),
        text: o,
        abstracted: false,
        nonlinear: false,
    }
}

// ---------------------------------------------------------------- processes

pub struct Proc {
    child: Child,
    inp: ChildStdin,
    rx: Receiver<String>,
}

impl Proc {
    pub fn spawn(cmd: &str, args: &[&str]) -> Proc {
        let mut child = Command::new(cmd)
            .args(args)
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .unwrap_or_else(|e| panic!("cannot start {}: {}", cmd, e));
        let inp = child.stdin.take().unwrap();
        let out = child.stdout.take().unwrap();
        let (tx, rx) = channel();
        std::thread::spawn(move || {
            for l in BufReader::new(out).lines() {
                match l {
                    Ok(l) => {
                        if tx.send(l).is_err() {
                            break;
                        }
                    }
                    Err(_) => break,
                }
            }
        });
        Proc { child, inp, rx }
    }
    pub fn kill(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
    fn send(&mut self, s: &str) {
        let _ = self.inp.write_all(s.as_bytes());
        let _ = self.inp.flush();
    }
}
impl Drop for Proc {
    fn drop(&mut self) {
        self.kill();
    }
}

fn parse_values(txt: &str) -> FxHashMap<u32, u128> {
    // tokens like ((v0 5) (v1 (- 3)) (v2 #x00ff) (v3 true) (v4 (_ bv5 64)))
    let mut m = FxHashMap::default();
    let mut toks: Vec<String> = vec![];
    let mut cur = String::new();
    for c in txt.chars() {
        match c {
            '(' | ')' | ' ' | '\n' => {
                if !cur.is_empty() {
                    toks.push(std::mem::take(&mut cur));
                }
                if c == '(' || c == ')' {
                    toks.push(c.to_string());
                }
            }
            c => cur.push(c),
        }
    }
    let mut i = 0;
    while i + 2 < toks.len() {
        if toks[i] == "(" && toks[i + 1].starts_with('v') && toks[i + 1][1..].parse::<u32>().is_ok() {
            let v: u32 = toks[i + 1][1..].parse().unwrap();
            let t = &toks[i + 2];
            let val = if t == "true" {
                Some(1)
            } else if t == "false" {
                Some(0)
            } else if let Some(h) = t.strip_prefix("#x") {
                u128::from_str_radix(h, 16).ok()
            } else if let Some(b) = t.strip_prefix("#b") {
                u128::from_str_radix(b, 2).ok()
            } else if t == "(" && toks.get(i + 3).map(|s| s == "_").unwrap_or(false) {
                toks[i + 4].strip_prefix("bv").and_then(|x| x.parse().ok())
            } else {
                t.parse().ok()
            };
            if let Some(x) = val {
                m.insert(v, x);
            }
            i += 3;
        } else {
            i += 1;
        }
    }
    m
}

fn getval(vars: &[u32]) -> String {
    let mut s = String::from("(get-value (");
    for v in vars {
        let _ = write!(s, "v{} ", v);
    }
    s.push_str("))\n");
    s
}

pub struct Solver {
    proc: Option<Proc>,
    pub stats: Stats,
    cache: FxHashMap<Vec<T>, Res>,
    pub dump: Option<String>,
}

impl Solver {
    pub fn new() -> Solver {
        Solver {
            proc: None,
            stats: Stats::default(),
            cache: Default::default(),
            dump: None,
        }
    }

    /// quick query on the persistent z3 process
    fn quick(&mut self, sc: &Script, ms: u64) -> Res {
        if self.proc.is_none() {
            self.proc = Some(Proc::spawn("z3-new", &["-in"]));
        }
        let t0 = Instant::now();
        let p = self.proc.as_mut().unwrap();
        let mut txt = String::with_capacity(sc.text.len() + 200);
        let _ = writeln!(txt, "(reset)\n(set-option :timeout {})", ms);
        txt.push_str(&sc.text);
        txt.push_str("(check-sat)\n(echo \"@@\")\n");
        p.send(&txt);
        let mut res = Res::Unknown;
        let mut ok = true;
        let deadline = Duration::from_millis(ms * 3 + 2000);
        loop {
            match p.rx.recv_timeout(deadline) {
                Ok(l) => {
                    if l.contains("@@") {
                        break;
                    }
                    if l.starts_with("(error") {
                        eprintln!("solver error: {}", l);
                        ok = false;
                    }
                    if l == "sat" {
                        res = Res::Sat(Default::default());
                    } else if l == "unsat" {
                        res = Res::Unsat;
                    }
                }
                Err(_) => {
                    self.proc = None;
                    self.stats.solver_s += t0.elapsed().as_secs_f64();
                    return Res::Unknown;
                }
            }
        }
        if !ok {
            res = Res::Unknown;
        }
        if let Res::Sat(_) = res {
            if !sc.vars.is_empty() {
                let q = format!("{}(echo \"@@\")\n", getval(&sc.vars));
                p.send(&q);
                let mut buf = String::new();
                loop {
                    match p.rx.recv_timeout(deadline) {
                        Ok(l) => {
                            if l.contains("@@") {
                                break;
                            }
                            buf.push_str(&l);
                            buf.push('\n');
                        }
                        Err(_) => {
                            self.proc = None;
                            break;
                        }
                    }
                }
                res = Res::Sat(parse_values(&buf));
            }
        }
        self.stats.solver_s += t0.elapsed().as_secs_f64();
        res
    }

    fn check_model(&self, s: &Store, lits: &[T], m: &FxHashMap<u32, u128>, _base: &[u128]) -> bool {
        model_ok(s, lits, m)
    }

    /// Look for a model by fixing divisors and one factor of each product, which
    /// leaves a linear problem.
    fn hunt(&mut self, s: &mut Store, lits: &[T], ms: u64, hint: Option<&[u128]>, lia: Option<&FxHashMap<u32, u128>>) -> Option<FxHashMap<u32, u128>> {
        let order = topo(s, lits);
        let mut fix: FxHashSet<u32> = Default::default();
        for t in &order {
            let n = s.n(*t);
            if matches!(n.k, K::UDiv | K::URem) && s.cv(n.b).is_none() {
                fix.extend(vars_of(s, &[n.b]));
            }
        }
        for t in &order {
            let n = s.n(*t);
            if matches!(n.k, K::Mul | K::UMulOv) && s.cv(n.a).is_none() && s.cv(n.b).is_none() {
                let va = vars_of(s, &[n.a]);
                let vb = vars_of(s, &[n.b]);
                if va.iter().all(|v| fix.contains(v)) || vb.iter().all(|v| fix.contains(v)) {
                    continue;
                }
                fix.extend(if va.len() <= vb.len() { va } else { vb });
            }
        }
        if fix.is_empty() {
            return None;
        }
        let mut tries: Vec<FxHashMap<u32, u128>> = vec![];
        if let Some(h) = hint {
            tries.push(fix.iter().map(|v| (*v, h.get(*v as usize).copied().unwrap_or(s.lo[s.var_terms[*v as usize] as usize]))).collect());
        }
        for k in [1u128, 3] {
            // wide variables are 64.64 fixed point numbers
            let mut m: FxHashMap<u32, u128> = Default::default();
            for v in &fix {
                let t = s.var_terms[*v as usize];
                if s.w(t) == 128 {
                    m.insert(*v, (k << 64).clamp(s.lo[t as usize], s.hi[t as usize]));
                } else if let Some(x) = hint.and_then(|h| h.get(*v as usize)) {
                    m.insert(*v, *x);
                }
            }
            if !m.is_empty() && !tries.contains(&m) {
                tries.push(m);
            }
        }
        if let Some(l) = lia {
            tries.push(fix.iter().map(|v| (*v, l.get(v).copied().unwrap_or(s.lo[s.var_terms[*v as usize] as usize]))).collect());
        }
        for m in tries {
            let mut memo = Default::default();
            let l2: Vec<T> = lits.iter().map(|l| s.subst(*l, &m, &mut memo)).collect();
            if l2.iter().any(|l| *l == FALSE) {
                continue;
            }
            let sc = encode(s, &l2, Mode::Lia, None);
            if let Res::Sat(mut r) = self.quick(&sc, ms) {
                for (k, v) in &m {
                    r.insert(*k, *v);
                }
                if self.check_model(s, lits, &r, &[]) {
                    return Some(r);
                }
            }
        }
        None
    }

    /// Sweeping: find pairs of subterms that agree on samples, prove them equal under
    /// the literals with the linear abstraction, and replace one by the other.
    fn sweep(&mut self, s: &mut Store, lits: &[T], hint: Option<&[u128]>, budget: Duration, pf: &mut Portfolio) -> Swept {
        let t0 = Instant::now();
        let mut cur: Vec<T> = lits.to_vec();
        let mut tried: FxHashSet<(T, T)> = Default::default();
        let mut changed = false;
        let nv = s.var_terms.len();
        let mut seed = 0x9e3779b97f4a7c15u64;
        let mut rnd = move || {
            seed ^= seed << 13;
            seed ^= seed >> 7;
            seed ^= seed << 17;
            seed
        };
        let mut samples: Vec<Vec<u128>> = vec![];
        let hint_ok = hint.map(|h| h.len() >= nv).unwrap_or(false);
        if hint_ok {
            samples.push(hint.unwrap().to_vec());
        }
        for k in 0..32 {
            let mut m = vec![0u128; nv];
            for v in 0..nv {
                let t = s.var_terms[v] as usize;
                let (lo, hi) = (s.lo[t], s.hi[t]);
                let span = hi - lo;
                let bits = 128 - span.leading_zeros();
                let r = ((rnd() as u128) << 64) | rnd() as u128;
                let b = if s.w(t as T) == 128 {
                    56 + (rnd() % 24) as u32
                } else if k % 2 == 0 {
                    (rnd() % (bits as u64 + 1)) as u32
                } else {
                    bits.min(8 + (rnd() % 30) as u32)
                };
                let x = if b >= 128 { r } else { r & ((1u128 << b) - 1) };
                m[v] = lo + if x > span { span - (x & span.min(1)) } else { x };
            }
            samples.push(m);
        }
        'again: loop {
            let order = topo(s, &cur);
            let mut sig: Vec<(T, Vec<u128>)> = vec![];
            let mut memos: Vec<FxHashMap<T, u128>> = samples.iter().map(|_| Default::default()).collect();
            for t in &order {
                let n = s.n(*t);
                if n.w < 2 || matches!(n.k, K::Const | K::Var | K::ZExt | K::Concat) {
                    continue;
                }
                if n.k == K::Extract && matches!(s.n(n.a).k, K::Var) {
                    continue;
                }
                let v: Vec<u128> = samples.iter().enumerate().map(|(i, m)| s.eval(*t, m, &mut memos[i])).collect();
                for (u, w) in &sig {
                    if s.w(*u) != n.w || tried.contains(&(*u, *t)) {
                        continue;
                    }
                    if hint_ok && w[0] != v[0] {
                        continue;
                    }
                    let agree = (0..v.len()).filter(|i| v[*i] == w[*i] && v[*i] > 1).count();
                    let same = (0..v.len()).filter(|i| v[*i] == w[*i]).count();
                    if agree < 4 || same * 2 < v.len() {
                        continue;
                    }
                    tried.insert((*u, *t));
                    if t0.elapsed() > budget {
                        break 'again;
                    }
                    if let Some((r, h)) = pf.poll(s, lits) {
                        return Swept::Solved(r, h);
                    }
                    let e = s.eq(*u, *t);
                    let ne = s.not(e);
                    let mut q = cur.clone();
                    q.push(ne);
                    let ok = ne == FALSE || {
                        let sc = encode(s, &q, Mode::Lia, None);
                        self.stats.queries += 1;
                        matches!(self.quick(&sc, 1000), Res::Unsat)
                    };
                    if ok {
                        let mut memo: FxHashMap<T, T> = Default::default();
                        memo.insert(*t, *u);
                        let none = Default::default();
                        cur = cur.iter().map(|l| s.subst(*l, &none, &mut memo)).collect();
                        changed = true;
                        self.stats.swept += 1;
                        if cur.contains(&FALSE) {
                            return Swept::Lits(vec![FALSE]);
                        }
                        continue 'again;
                    }
                }
                sig.push((*t, v));
            }
            break;
        }
        if changed {
            Swept::Lits(cur)
        } else {
            Swept::Nothing
        }
    }

    /// Is the conjunction satisfiable?  Short effort; Unknown allowed.
    pub fn feasible(&mut self, s: &mut Store, lits: &[T], ms: u64, hint: Option<&[u128]>) -> Res {
        let mut key = lits.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        self.stats.queries += 1;
        let ctx = contextual(s, lits);
        if ctx.contains(&FALSE) {
            self.stats.unsat += 1;
            self.cache.insert(key, Res::Unsat);
            return Res::Unsat;
        }
        let lits = &ctx[..];
        let sc = encode(s, lits, Mode::Lia, None);
        let mut r = self.quick(&sc, ms);
        let mut need_more = false;
        if let Res::Sat(m) = &r {
            if !self.check_model(s, lits, m, &[]) {
                need_more = true;
            }
        } else if let Res::Unknown = r {
            need_more = true;
        }
        if need_more {
            let lm = match &r {
                Res::Sat(m) => Some(m.clone()),
                _ => None,
            };
            r = match self.hunt(s, lits, ms, hint, lm.as_ref()) {
                Some(m) => Res::Sat(m),
                None => {
                    let sc2 = encode(s, lits, Mode::Nia, None);
                    let mut q = self.quick(&sc2, ms);
                    if let Res::Sat(m) = &q {
                        if !self.check_model(s, lits, m, &[]) {
                            q = Res::Unknown;
                        }
                    }
                    if let Res::Unknown = q {
                        let sc3 = encode(s, lits, Mode::Bv, Some(8));
                        if let Res::Sat(m) = self.quick(&sc3, ms) {
                            if self.check_model(s, lits, &m, &[]) {
                                q = Res::Sat(m);
                            }
                        }
                    }
                    q
                }
            };
        }
        match &r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        self.cache.insert(key, r.clone());
        r
    }

    /// Decide hard: portfolio. Returns (result, description of the deciding engine).
    pub fn decide(&mut self, s: &mut Store, lits: &[T], secs: u64, hint: Option<&[u128]>) -> (Res, String) {
        let mut key = lits.to_vec();
        key.sort();
        key.dedup();
        if let Some(r) = self.cache.get(&key) {
            if !matches!(r, Res::Unknown) {
                self.stats.cache_hits += 1;
                return (r.clone(), "cache".into());
            }
        }
        self.stats.queries += 1;
        let orig = lits;
        let ctx = contextual(s, lits);
        if ctx.contains(&FALSE) {
            self.stats.unsat += 1;
            self.cache.insert(key, Res::Unsat);
            return (Res::Unsat, "simplification under the path condition".into());
        }
        let lits = &ctx[..];
        let _ = orig;
        let lia = encode(s, lits, Mode::Lia, None);
        let r = self.quick(&lia, 2500);
        match &r {
            Res::Unsat => {
                self.stats.unsat += 1;
                *self.stats.by_engine.entry("z3-lia".into()).or_default() += 1;
                self.cache.insert(key, Res::Unsat);
                return (Res::Unsat, "z3 linear abstraction".into());
            }
            Res::Sat(m) => {
                if self.check_model(s, lits, m, &[]) {
                    self.stats.sat += 1;
                    self.cache.insert(key, r.clone());
                    return (r, "z3 lia".into());
                }
            }
            _ => {}
        }
        // the non-linear solvers work on the query while it is being swept
        let t0 = Instant::now();
        let nia = encode(s, lits, Mode::Nia, None);
        let mut pf = Portfolio::new(self.stats.queries, secs);
        pf.add("z3new-nia", &nia);
        pf.add("cvc5-nia", &nia);
        pf.add("z3-nia", &nia);
        let mut out: (Res, String) = (Res::Unknown, String::new());
        match self.sweep(s, lits, hint, Duration::from_secs(secs.min(20)), &mut pf) {
            Swept::Solved(r, h) => out = (r, h),
            Swept::Lits(sw) => {
                if sw.contains(&FALSE) {
                    out = (Res::Unsat, "z3 linear abstraction after sweeping equal terms".into());
                } else {
                    let sc = encode(s, &sw, Mode::Lia, None);
                    if matches!(self.quick(&sc, 2500), Res::Unsat) {
                        out = (Res::Unsat, "z3 linear abstraction after sweeping equal terms".into());
                    } else {
                        let n2 = encode(s, &sw, Mode::Nia, None);
                        pf.add("z3new-nia-swept", &n2);
                        pf.add("cvc5-nia-swept", &n2);
                    }
                }
            }
            Swept::Nothing => {}
        }
        if let Res::Unknown = out.0 {
            let lm = match &r {
                Res::Sat(m) => Some(m.clone()),
                _ => None,
            };
            if let Some(m) = self.hunt(s, lits, 400, hint, lm.as_ref()) {
                out = (Res::Sat(m), "z3 lia after fixing factors".into());
            }
        }
        if let Res::Unknown = out.0 {
            for b in [6u32, 16] {
                let bv = encode(s, lits, Mode::Bv, Some(b));
                pf.add(&format!("z3-bv{}", b), &bv);
            }
            let bvf = encode(s, lits, Mode::Bv, None);
            pf.add("z3-bv-full", &bvf);
            while t0.elapsed().as_secs() < secs + 1 {
                if let Some(o) = pf.poll(s, lits) {
                    out = o;
                    break;
                }
                if pf.finished() {
                    break;
                }
                std::thread::sleep(Duration::from_millis(4));
            }
        }
        pf.stop(self.dump.as_deref());
        self.stats.solver_s += t0.elapsed().as_secs_f64();
        match &out.0 {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        if !matches!(out.0, Res::Unknown) {
            *self.stats.by_engine.entry(out.1.clone()).or_default() += 1;
            self.cache.insert(key, out.0.clone());
        }
        out
    }
}

enum Swept {
    Solved(Res, String),
    Lits(Vec<T>),
    Nothing,
}
/// Solvers racing on one query.
struct Portfolio {
    jobs: Vec<(String, Proc, String, bool)>,
    files: Vec<String>,
    base: String,
    secs: u64,
}
impl Portfolio {
    fn new(id: u64, secs: u64) -> Portfolio {
        let dir = std::env::temp_dir();
        Portfolio { jobs: vec![], files: vec![], base: format!("{}/symx_{}_{}", dir.display(), std::process::id(), id), secs }
    }
    fn add(&mut self, label: &str, sc: &Script) {
        let f = format!("{}_{}.smt2", self.base, label);
        let cvc = label.starts_with("cvc5");
        let mut t = String::from("(set-option :produce-models true)\n");
        if cvc {
            t.push_str("(set-logic QF_NIA)\n");
        }
        t.push_str(&sc.text);
        t.push_str("(check-sat)\n");
        if !sc.vars.is_empty() {
            t.push_str(&getval(&sc.vars));
        }
        std::fs::write(&f, t).unwrap();
        let tl = if cvc { format!("--tlimit={}", self.secs * 1000) } else { format!("-T:{}", self.secs) };
        let cmd = if cvc {
            "cvc5"
        } else if label == "z3-nia" {
            "z3"
        } else {
            "z3-new"
        };
        self.jobs.push((label.to_string(), Proc::spawn(cmd, &[&tl, &f]), String::new(), false));
        self.files.push(f);
    }
    fn finished(&self) -> bool {
        self.jobs.iter().all(|j| j.3)
    }
    fn poll(&mut self, s: &Store, lits: &[T]) -> Option<(Res, String)> {
        for j in self.jobs.iter_mut() {
            while !j.3 {
                match j.1.rx.try_recv() {
                    Ok(l) => {
                        if l == "unsat" && j.2.is_empty() {
                            // every encoding without a bound on the values over-approximates
                            let bounded = j.0.starts_with("z3-bv") && j.0 != "z3-bv-full";
                            if !bounded {
                                return Some((Res::Unsat, j.0.clone()));
                            }
                            j.3 = true;
                        }
                        if l.starts_with("(error") && j.2.is_empty() {
                            eprintln!("solver {} error: {}", j.0, l);
                        }
                        j.2.push_str(&l);
                        j.2.push('\n');
                    }
                    Err(std::sync::mpsc::TryRecvError::Empty) => break,
                    Err(std::sync::mpsc::TryRecvError::Disconnected) => {
                        j.3 = true;
                        if j.2.starts_with("sat") {
                            let m = parse_values(&j.2);
                            if model_ok(s, lits, &m) {
                                return Some((Res::Sat(m), j.0.clone()));
                            }
                        }
                    }
                }
            }
        }
        None
    }
    fn stop(&mut self, dump: Option<&str>) {
        for j in self.jobs.iter_mut() {
            j.1.kill();
        }
        self.jobs.clear();
        for f in self.files.drain(..) {
            if let Some(d) = dump {
                let _ = std::fs::copy(&f, format!("{}/{}", d, f.rsplit('/').next().unwrap()));
            }
            let _ = std::fs::remove_file(f);
        }
    }
}
impl Drop for Portfolio {
    fn drop(&mut self) {
        self.stop(None);
    }
}

/// Does the assignment (other variables at their lower bound) satisfy the literals?
fn model_ok(s: &Store, lits: &[T], m: &FxHashMap<u32, u128>) -> bool {
    let mut model: Vec<u128> = s.var_terms.iter().map(|t| s.lo[*t as usize]).collect();
    for (k, v) in m {
        model[*k as usize] = *v;
    }
    let mut memo = Default::default();
    lits.iter().all(|l| s.eval(*l, &model, &mut memo) == 1)
}

/// Simplify every literal under the others (an equivalent set of literals).
pub fn contextual(s: &mut Store, lits: &[T]) -> Vec<T> {
    let mut cur: Vec<T> = lits.to_vec();
    for _ in 0..3 {
        cur = split_all(s, &cur);
        if cur.contains(&FALSE) {
            return vec![FALSE];
        }
        let facts: Vec<Vec<(T, T)>> = cur.iter().map(|l| facts_of(s, *l)).collect();
        let before = cur.clone();
        let mut facts = facts;
        for i in 0..cur.len() {
            let mut memo: FxHashMap<T, T> = Default::default();
            for (j, f) in facts.iter().enumerate() {
                if j != i {
                    for (a, b) in f {
                        memo.insert(*a, *b);
                    }
                }
            }
            let none = Default::default();
            let l = s.subst(cur[i], &none, &mut memo);
            if l != cur[i] {
                if l == FALSE {
                    return vec![FALSE];
                }
                cur[i] = l;
                facts[i] = facts_of(s, l);
            }
        }
        cur.retain(|l| *l != TRUE);
        if cur == before {
            break;
        }
    }
    cur
}
fn split_all(s: &mut Store, lits: &[T]) -> Vec<T> {
    let mut out = vec![];
    let mut st: Vec<T> = lits.iter().rev().cloned().collect();
    let mut seen = FxHashSet::default();
    while let Some(t) = st.pop() {
        if t == TRUE || !seen.insert(t) {
            continue;
        }
        let n = s.n(t);
        if n.k == K::And && n.w == 1 {
            st.push(n.b);
            st.push(n.a);
            continue;
        }
        if n.k == K::Not {
            let m = s.n(n.a);
            if m.k == K::Or && m.w == 1 {
                let (a, b) = (s.not(m.a), s.not(m.b));
                st.push(b);
                st.push(a);
                continue;
            }
        }
        out.push(t);
    }
    out
}
fn facts_of(s: &mut Store, l: T) -> Vec<(T, T)> {
    let mut out = vec![];
    let n = s.n(l);
    if n.k == K::Const {
        return out;
    }
    if n.k == K::Not {
        out.push((n.a, FALSE));
        let m = s.n(n.a);
        // !(2^64-1 < x): truncating x loses nothing
        if m.k == K::Ult && s.cv(m.a).map(|c| c <= u64::MAX as u128).unwrap_or(false) && s.w(m.b) == 128 {
            let e = s.extract(m.b, 0, 64);
            let z = s.zext(e, 128);
            if z != m.b && s.n(z).k == K::ZExt {
                out.push((z, m.b));
            }
        }
    } else {
        out.push((l, TRUE));
        if n.k == K::Ult {
            let r = s.ult(n.b, n.a);
            let e = s.eq(n.a, n.b);
            for x in [r, e] {
                if s.n(x).k != K::Const {
                    out.push((x, FALSE));
                }
            }
        }
        if n.k == K::Eq && s.w(n.a) > 1 {
            if s.cv(n.b).is_some() && s.cv(n.a).is_none() {
                out.push((n.a, n.b));
            } else if s.cv(n.a).is_some() && s.cv(n.b).is_none() {
                out.push((n.b, n.a));
            }
        }
    }
    out
}
