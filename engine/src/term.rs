//! Hash-consed bit-vector terms (width <= 128) with unsigned intervals.
use rustc_hash::FxHashMap;

pub type T = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Not, // width 1 only
    Eq,
    Ult,
    Slt,
    Ite,
    Extract, // b = lo
    Concat,  // a = hi, b = lo
    ZExt,
    SExt,
    UAddOv,
    UMulOv,
    SAddOv,
    SSubOv,
    SMulOv,
    USubSat,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub v: u128, // Const value, or Var index
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn sx(v: u128, w: u8) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub struct Store {
    pub nodes: Vec<Node>,
    pub lo: Vec<u128>,
    pub hi: Vec<u128>,
    map: FxHashMap<Node, T>,
    pub var_names: Vec<String>,
    pub var_terms: Vec<T>,
    pub named: FxHashMap<String, T>,
}

pub const FALSE: T = 0;
pub const TRUE: T = 1;

impl Store {
    pub fn new() -> Self {
        let mut s = Store {
            nodes: vec![],
            lo: vec![],
            hi: vec![],
            map: Default::default(),
            var_names: vec![],
            var_terms: vec![],
            named: Default::default(),
        };
        assert_eq!(s.c(0, 1), FALSE);
        assert_eq!(s.c(1, 1), TRUE);
        s
    }
    pub fn lookup(&self, n: &Node) -> Option<T> {
        self.map.get(n).copied()
    }
    pub fn w(&self, t: T) -> u8 {
        self.nodes[t as usize].w
    }
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    pub fn cv(&self, t: T) -> Option<u128> {
        let n = &self.nodes[t as usize];
        if n.k == K::Const {
            Some(n.v)
        } else {
            None
        }
    }
    fn l(&self, t: T) -> u128 {
        self.lo[t as usize]
    }
    fn h(&self, t: T) -> u128 {
        self.hi[t as usize]
    }
    fn intern(&mut self, n: Node, lo: u128, hi: u128) -> T {
        if let Some(&t) = self.map.get(&n) {
            return t;
        }
        debug_assert!(lo <= hi);
        if lo == hi && n.k != K::Const && n.k != K::Var {
            return self.c(lo, n.w);
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.lo.push(lo);
        self.hi.push(hi);
        self.map.insert(n, t);
        t
    }
    fn mk(&mut self, k: K, w: u8, a: T, b: T, c: T, lo: u128, hi: u128) -> T {
        self.intern(Node { k, w, a, b, c, v: 0 }, lo, hi)
    }
    pub fn c(&mut self, v: u128, w: u8) -> T {
        let v = v & mask(w);
        self.intern(
            Node {
                k: K::Const,
                w,
                a: 0,
                b: 0,
                c: 0,
                v,
            },
            v,
            v,
        )
    }
    pub fn var(&mut self, name: &str, w: u8, lo: u128, hi: u128) -> T {
        let idx = self.var_names.len();
        self.var_names.push(name.to_string());
        let t = self.intern(
            Node {
                k: K::Var,
                w,
                a: 0,
                b: 0,
                c: 0,
                v: idx as u128,
            },
            lo,
            hi.min(mask(w)),
        );
        self.var_terms.push(t);
        t
    }
    pub fn b(&self, v: bool) -> T {
        if v {
            TRUE
        } else {
            FALSE
        }
    }
    pub fn add(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        // const, if any, now in b
        if w == 1 {
            return self.xor(a, b);
        }
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) {
                return self.c(ca.wrapping_add(cb), w);
            }
            if cb == 0 {
                return a;
            }
            let na = self.n(a);
            if na.k == K::Add {
                if let Some(c1) = self.cv(na.b) {
                    // only merge when neither wraps, to keep intervals meaningful
                    let s = self.c(c1.wrapping_add(cb), w);
                    return self.add(na.a, s);
                }
            }
            if na.k == K::Sub {
                if let Some(c1) = self.cv(na.b) {
                    if c1 == cb {
                        return na.a;
                    }
                    if c1 > cb {
                        let s = self.c(c1 - cb, w);
                        return self.sub(na.a, s);
                    } else {
                        let s = self.c(cb - c1, w);
                        return self.add(na.a, s);
                    }
                }
            }
            // adding a huge constant = subtracting a small one
            if cb > mask(w) / 2 {
                let s = self.c(0u128.wrapping_sub(cb), w);
                return self.sub(a, s);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.k == K::Sub && na.b == b {
            return na.a;
        }
        if nb.k == K::Sub && nb.b == a {
            return nb.a;
        }
        let (lo, hi) = match self.h(a).checked_add(self.h(b)) {
            Some(h) if h <= mask(w) => (self.l(a) + self.l(b), h),
            _ => (0, mask(w)),
        };
        self.mk(K::Add, w, a, b, 0, lo, hi)
    }
    pub fn sub(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.c(0, w);
        }
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) {
                return self.c(ca.wrapping_sub(cb), w);
            }
            if cb == 0 {
                return a;
            }
            if cb > mask(w) / 2 + 1 {
                let s = self.c(0u128.wrapping_sub(cb), w);
                return self.add(a, s);
            }
            let na = self.n(a);
            if na.k == K::Add {
                if let Some(c1) = self.cv(na.b) {
                    if c1 >= cb {
                        let s = self.c(c1 - cb, w);
                        return self.add(na.a, s);
                    } else {
                        let s = self.c(cb - c1, w);
                        return self.sub(na.a, s);
                    }
                }
            }
            if na.k == K::Sub {
                if let Some(c1) = self.cv(na.b) {
                    let s = self.c(c1.wrapping_add(cb), w);
                    return self.sub(na.a, s);
                }
            }
        }
        let na = self.n(a);
        if na.k == K::Add {
            if na.a == b {
                return na.b;
            }
            if na.b == b {
                return na.a;
            }
        }
        let nb = self.n(b);
        if nb.k == K::Sub && nb.a == a {
            return nb.b;
        }
        let (lo, hi) = if self.l(a) >= self.h(b) {
            (self.l(a) - self.h(b), self.h(a) - self.l(b))
        } else {
            (0, mask(w))
        };
        self.mk(K::Sub, w, a, b, 0, lo, hi)
    }
    pub fn mul(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) {
                return self.c(ca.wrapping_mul(cb), w);
            }
            if cb == 0 {
                return b;
            }
            if cb == 1 {
                return a;
            }
        }
        let (lo, hi) = match self.h(a).checked_mul(self.h(b)) {
            Some(h) if h <= mask(w) => (self.l(a) * self.l(b), h),
            _ => (0, mask(w)),
        };
        self.mk(K::Mul, w, a, b, 0, lo, hi)
    }
    pub fn udiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(cb) = self.cv(b) {
            if cb == 0 {
                return self.c(mask(w), w);
            }
            if cb == 1 {
                return a;
            }
            if let Some(ca) = self.cv(a) {
                return self.c(ca / cb, w);
            }
            let na = self.n(a);
            // (x * c) / c without overflow
            if na.k == K::Mul {
                if let Some(cm) = self.cv(na.b) {
                    if cm % cb == 0 && self.h(na.a).checked_mul(cm).map_or(false, |h| h <= mask(w)) {
                        let k = self.c(cm / cb, w);
                        return self.mul(na.a, k);
                    }
                    if cb % cm == 0 && self.h(na.a).checked_mul(cm).map_or(false, |h| h <= mask(w)) {
                        let k = self.c(cb / cm, w);
                        return self.udiv(na.a, k);
                    }
                }
            }
            if na.k == K::UDiv {
                if let Some(c1) = self.cv(na.b) {
                    if let Some(p) = c1.checked_mul(cb) {
                        if p <= mask(w) {
                            let k = self.c(p, w);
                            return self.udiv(na.a, k);
                        }
                    }
                }
            }
            if self.h(a) < cb {
                return self.c(0, w);
            }
            // narrow the division when the operand is a zero extension
            if na.k == K::ZExt {
                let iw = self.w(na.a);
                if cb <= mask(iw) {
                    let k = self.c(cb, iw);
                    let q = self.udiv(na.a, k);
                    return self.zext(q, w);
                }
            }
        }
        let (lo, hi) = (
            if self.h(b) > 0 { self.l(a) / self.h(b) } else { 0 },
            if self.l(b) > 0 {
                self.h(a) / self.l(b)
            } else {
                mask(w)
            },
        );
        self.mk(K::UDiv, w, a, b, 0, lo, hi)
    }
    pub fn urem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(cb) = self.cv(b) {
            if cb == 0 {
                return a;
            }
            if cb == 1 {
                return self.c(0, w);
            }
            if let Some(ca) = self.cv(a) {
                return self.c(ca % cb, w);
            }
            if self.h(a) < cb {
                return a;
            }
            if cb.is_power_of_two() {
                let k = cb.trailing_zeros() as u8;
                let e = self.extract(a, 0, k);
                return self.zext(e, w);
            }
        }
        let hi = if self.l(b) > 0 {
            self.h(a).min(self.h(b) - 1)
        } else {
            self.h(a)
        };
        self.mk(K::URem, w, a, b, 0, 0, hi)
    }
    pub fn sdiv(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let half = mask(w) / 2;
        if self.h(a) <= half && self.h(b) <= half {
            return self.udiv(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.c(x.wrapping_div(y) as u128, w);
            }
        }
        self.mk(K::SDiv, w, a, b, 0, 0, mask(w))
    }
    pub fn srem(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let half = mask(w) / 2;
        if self.h(a) <= half && self.h(b) <= half {
            return self.urem(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let (x, y) = (sx(x, w), sx(y, w));
            if y != 0 {
                return self.c(x.wrapping_rem(y) as u128, w);
            }
        }
        self.mk(K::SRem, w, a, b, 0, 0, mask(w))
    }
    pub fn not(&mut self, a: T) -> T {
        let w = self.w(a);
        if w == 1 {
            if a == TRUE {
                return FALSE;
            }
            if a == FALSE {
                return TRUE;
            }
            let n = self.n(a);
            if n.k == K::Not {
                return n.a;
            }
            return self.mk(K::Not, 1, a, 0, 0, 0, 1);
        }
        let m = self.c(mask(w), w);
        self.sub_raw(m, a)
    }
    fn sub_raw(&mut self, a: T, b: T) -> T {
        self.sub(a, b)
    }
    pub fn and(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) {
                return self.c(ca & cb, w);
            }
            if cb == 0 {
                return b;
            }
            if cb == mask(w) {
                return a;
            }
            // contiguous mask -> extract
            let tz = cb.trailing_zeros();
            let m = cb >> tz;
            if (m & (m.wrapping_add(1))) == 0 {
                let len = (128 - m.leading_zeros()) as u8;
                let e = self.extract(a, tz as u8, len);
                let z = self.zext(e, w);
                if tz == 0 {
                    return z;
                }
                let p = self.c(1u128 << tz, w);
                return self.mul(z, p);
            }
        }
        if w == 1 {
            let nb = self.n(b);
            let na = self.n(a);
            if (nb.k == K::Not && nb.a == a) || (na.k == K::Not && na.a == b) {
                return FALSE;
            }
        }
        let hi = self.h(a).min(self.h(b));
        self.mk(K::And, w, a, b, 0, 0, hi)
    }
    /// number of low bits known zero
    fn low_zeros(&self, t: T) -> u32 {
        let n = self.n(t);
        match n.k {
            K::Const => {
                if n.v == 0 {
                    n.w as u32
                } else {
                    n.v.trailing_zeros()
                }
            }
            K::Mul => (self.low_zeros(n.a) + self.low_zeros(n.b)).min(n.w as u32),
            K::Concat => {
                let lz = self.low_zeros(n.b);
                if lz >= self.w(n.b) as u32 {
                    lz + self.low_zeros(n.a)
                } else {
                    lz
                }
            }
            K::ZExt => self.low_zeros(n.a),
            K::Add => self.low_zeros(n.a).min(self.low_zeros(n.b)),
            _ => 0,
        }
    }
    pub fn or(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return a;
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) {
                return self.c(ca | cb, w);
            }
            if cb == 0 {
                return a;
            }
            if cb == mask(w) {
                return b;
            }
        }
        if w == 1 {
            let nb = self.n(b);
            let na = self.n(a);
            if (nb.k == K::Not && nb.a == a) || (na.k == K::Not && na.a == b) {
                return TRUE;
            }
        } else {
            let (ha, hb) = (self.h(a), self.h(b));
            let za = self.low_zeros(a);
            let zb = self.low_zeros(b);
            if (za < 128 && hb < (1u128 << za)) || (zb < 128 && ha < (1u128 << zb)) {
                return self.add(a, b);
            }
        }
        let m = self.h(a) | self.h(b);
        let hi = if m == 0 {
            0
        } else {
            mask((128 - m.leading_zeros()) as u8)
        };
        let lo = self.l(a).max(self.l(b));
        self.mk(K::Or, w, a, b, 0, lo, hi)
    }
    pub fn xor(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(cb) = self.cv(b) {
            if let Some(ca) = self.cv(a) {
                return self.c(ca ^ cb, w);
            }
            if cb == 0 {
                return a;
            }
            if cb == mask(w) {
                return self.not(a);
            }
        }
        if w == 1 {
            // normalise negations out
            let (na, nb) = (self.n(a), self.n(b));
            if na.k == K::Not && nb.k == K::Not {
                return self.xor(na.a, nb.a);
            }
            if na.k == K::Not {
                let x = self.xor(na.a, b);
                return self.not(x);
            }
            if nb.k == K::Not {
                let x = self.xor(a, nb.a);
                return self.not(x);
            }
        }
        let m = self.h(a) | self.h(b);
        let hi = if m == 0 {
            0
        } else {
            mask((128 - m.leading_zeros()) as u8)
        };
        self.mk(K::Xor, w, a, b, 0, 0, hi)
    }
    pub fn shl(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(cb) = self.cv(b) {
            if cb >= w as u128 {
                return self.c(0, w);
            }
            let p = self.c(1u128 << cb, w);
            return self.mul(a, p);
        }
        if let Some(0) = self.cv(a) {
            return a;
        }
        self.mk(K::Shl, w, a, b, 0, 0, mask(w))
    }
    pub fn lshr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let Some(cb) = self.cv(b) {
            if cb >= w as u128 {
                return self.c(0, w);
            }
            let na = self.n(a);
            if na.k == K::Concat && self.w(na.b) as u128 == cb {
                return self.zext(na.a, w);
            }
            let p = self.c(1u128 << cb, w);
            return self.udiv(a, p);
        }
        let hi = self.h(a);
        self.mk(K::LShr, w, a, b, 0, 0, hi)
    }
    pub fn ashr(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if self.h(a) <= mask(w) / 2 {
            return self.lshr(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let y = y.min(w as u128 - 1) as u32;
            return self.c((sx(x, w) >> y) as u128, w);
        }
        self.mk(K::AShr, w, a, b, 0, 0, mask(w))
    }
    pub fn eq(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if a == b {
            return TRUE;
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if self.h(a) < self.l(b) || self.h(b) < self.l(a) {
            return FALSE;
        }
        if w == 1 {
            if b == TRUE {
                return a;
            }
            if b == FALSE {
                return self.not(a);
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if let Some(cb) = self.cv(b) {
            if self.cv(a).is_some() {
                return FALSE;
            }
            match na.k {
                K::ZExt => {
                    let iw = self.w(na.a);
                    if cb > mask(iw) {
                        return FALSE;
                    }
                    let k = self.c(cb, iw);
                    return self.eq(na.a, k);
                }
                K::Ite => {
                    if self.cv(na.b).is_some() || self.cv(na.c).is_some() {
                        let x = self.eq(na.b, b);
                        let y = self.eq(na.c, b);
                        return self.ite(na.a, x, y);
                    }
                }
                K::Add => {
                    if let Some(c1) = self.cv(na.b) {
                        let k = self.c(cb.wrapping_sub(c1), w);
                        return self.eq(na.a, k);
                    }
                }
                K::Sub => {
                    if let Some(c1) = self.cv(na.b) {
                        let k = self.c(cb.wrapping_add(c1), w);
                        return self.eq(na.a, k);
                    }
                    if let Some(c1) = self.cv(na.a) {
                        let k = self.c(c1.wrapping_sub(cb), w);
                        return self.eq(na.b, k);
                    }
                    if cb == 0 {
                        return self.eq(na.a, na.b);
                    }
                }
                K::Concat => {
                    let lw = self.w(na.b);
                    let hw = self.w(na.a);
                    let lc = self.c(cb, lw);
                    let hc = self.c(cb >> lw, hw);
                    let x = self.eq(na.b, lc);
                    let y = self.eq(na.a, hc);
                    return self.and(x, y);
                }
                _ => {}
            }
        } else {
            if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
                return self.eq(na.a, nb.a);
            }
            if na.k == K::Concat && nb.k == K::Concat && self.w(na.b) == self.w(nb.b) {
                let x = self.eq(na.b, nb.b);
                let y = self.eq(na.a, nb.a);
                return self.and(x, y);
            }
        }
        self.mk(K::Eq, 1, a, b, 0, 0, 1)
    }
    pub fn ult(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return FALSE;
        }
        if self.h(a) < self.l(b) {
            return TRUE;
        }
        if self.l(a) >= self.h(b) {
            return FALSE;
        }
        if w == 1 {
            let na = self.not(a);
            return self.and(na, b);
        }
        let na = self.n(a);
        let nb = self.n(b);
        if let Some(cb) = self.cv(b) {
            if cb == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if cb == mask(w) {
                let e = self.eq(a, b);
                return self.not(e);
            }
            if na.k == K::ZExt {
                let iw = self.w(na.a);
                // cb <= mask(iw) here since h(a) >= l(b)
                let k = self.c(cb, iw);
                return self.ult(na.a, k);
            }
        }
        if let Some(ca) = self.cv(a) {
            if ca == 0 {
                let e = self.eq(b, a);
                return self.not(e);
            }
            if nb.k == K::ZExt {
                let iw = self.w(nb.a);
                let k = self.c(ca, iw);
                return self.ult(k, nb.a);
            }
        }
        if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
            return self.ult(na.a, nb.a);
        }
        self.mk(K::Ult, 1, a, b, 0, 0, 1)
    }
    pub fn ule(&mut self, a: T, b: T) -> T {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if a == b {
            return FALSE;
        }
        let half = mask(w) / 2;
        let (pa, pb) = (self.h(a) <= half, self.h(b) <= half);
        let (qa, qb) = (self.l(a) > half, self.l(b) > half);
        if (pa && pb) || (qa && qb) {
            return self.ult(a, b);
        }
        if qa && pb {
            return TRUE;
        }
        if pa && qb {
            return FALSE;
        }
        if let Some(0) = self.cv(b) {
            // sign bit
            let h = self.c(half, w);
            return self.ult(h, a);
        }
        self.mk(K::Slt, 1, a, b, 0, 0, 1)
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if c == TRUE {
            return a;
        }
        if c == FALSE {
            return b;
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        let nc = self.n(c);
        if nc.k == K::Not {
            return self.ite(nc.a, b, a);
        }
        if w == 1 {
            if a == TRUE {
                return self.or(c, b);
            }
            if b == FALSE {
                return self.and(c, a);
            }
            if a == FALSE {
                let n = self.not(c);
                return self.and(n, b);
            }
            if b == TRUE {
                let n = self.not(c);
                return self.or(n, a);
            }
        }
        let na = self.n(a);
        let nb = self.n(b);
        if na.k == K::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        if nb.k == K::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        if na.k == K::ZExt && nb.k == K::ZExt && self.w(na.a) == self.w(nb.a) {
            let i = self.ite(c, na.a, nb.a);
            return self.zext(i, w);
        }
        if nc.k == K::Ult && a > b && ((nc.a, nc.b) == (a, b) || (nc.a, nc.b) == (b, a)) {
            // one form for min(a, b) and max(a, b)
            let c2 = self.ult(nc.b, nc.a);
            if self.n(c2).k == K::Ult {
                return self.ite(c2, b, a);
            }
        }
        let mut lo = self.l(a).min(self.l(b));
        let mut hi = self.h(a).max(self.h(b));
        if nc.k == K::Ult {
            // min / max shapes
            if (nc.a, nc.b) == (a, b) {
                hi = self.h(a).min(self.h(b));
            } else if (nc.a, nc.b) == (b, a) {
                lo = self.l(a).max(self.l(b));
            }
        }
        self.mk(K::Ite, w, c, a, b, lo, hi)
    }
    pub fn extract(&mut self, a: T, lo: u8, w: u8) -> T {
        let aw = self.w(a);
        debug_assert!(lo + w <= aw);
        if lo == 0 && w == aw {
            return a;
        }
        let n = self.n(a);
        match n.k {
            K::Const => return self.c(n.v >> lo, w),
            K::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let e = self.extract(n.a, lo, iw - lo);
                return self.zext(e, w);
            }
            K::Extract => return self.extract(n.a, n.b as u8 + lo, w),
            K::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            K::Ite => {
                if self.cv(n.b).is_some() || self.cv(n.c).is_some() {
                    let x = self.extract(n.b, lo, w);
                    let y = self.extract(n.c, lo, w);
                    return self.ite(n.a, x, y);
                }
            }
            K::UDiv => {
                if let Some(cb) = self.cv(n.b) {
                    if cb.is_power_of_two() {
                        let k = cb.trailing_zeros() as u8;
                        if lo + k + w <= aw {
                            return self.extract(n.a, lo + k, w);
                        }
                    }
                }
            }
            K::Mul => {
                if let Some(cb) = self.cv(n.b) {
                    if cb.is_power_of_two() {
                        let k = cb.trailing_zeros() as u8;
                        if lo >= k {
                            return self.extract(n.a, lo - k, w);
                        }
                        if lo + w <= k {
                            return self.c(0, w);
                        }
                    }
                }
            }
            _ => {}
        }
        if (lo as u32) < 128 && self.h(a) >> lo == 0 {
            return self.c(0, w);
        }
        let (l, h) = if self.h(a) >> lo <= mask(w) {
            (self.l(a) >> lo, self.h(a) >> lo)
        } else {
            (0, mask(w))
        };
        self.mk(K::Extract, w, a, lo as u32, 0, l, h)
    }
    pub fn concat(&mut self, h: T, l: T) -> T {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return self.c((a << lw) | b, w);
        }
        let (nh, nl) = (self.n(h), self.n(l));
        if nh.k == K::Extract && nl.k == K::Extract && nh.a == nl.a && nh.b == nl.b + lw as u32 {
            return self.extract(nl.a, nl.b as u8, w);
        }
        // zext(x) ++ l where combination continues upward: keep simple
        if nh.k == K::ZExt {
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        let lo = (self.l(h) << lw) | self.l(l);
        let hi = (self.h(h) << lw) | self.h(l);
        self.mk(K::Concat, w, h, l, 0, lo, hi)
    }
    pub fn zext(&mut self, a: T, w: u8) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        let n = self.n(a);
        match n.k {
            K::Const => return self.c(n.v, w),
            K::ZExt => return self.zext(n.a, w),
            K::Extract if n.b == 0 && self.h(n.a) <= mask(aw) => {
                let iw = self.w(n.a);
                if iw == w {
                    return n.a;
                } else if iw < w {
                    return self.zext(n.a, w);
                } else {
                    return self.extract(n.a, 0, w);
                }
            }
            _ => {}
        }
        let (l, h) = (self.l(a), self.h(a));
        self.mk(K::ZExt, w, a, 0, 0, l, h)
    }
    pub fn sext(&mut self, a: T, w: u8) -> T {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sx(v, aw) as u128, w);
        }
        if aw > 1 && self.h(a) <= mask(aw) / 2 {
            return self.zext(a, w);
        }
        if aw == 1 {
            let x = self.c(mask(w), w);
            let y = self.c(0, w);
            return self.ite(a, x, y);
        }
        self.mk(K::SExt, w, a, 0, 0, 0, mask(w))
    }
    pub fn uadd_ov(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.h(a).checked_add(self.h(b)) {
            Some(h) if h <= mask(w) => return FALSE,
            _ => {}
        }
        match self.l(a).checked_add(self.l(b)) {
            Some(l) if l <= mask(w) => {}
            _ => return TRUE,
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(cb) = self.cv(b) {
            // a > mask - cb
            let k = self.c(mask(w) - cb, w);
            return self.ult(k, a);
        }
        self.mk(K::UAddOv, 1, a, b, 0, 0, 1)
    }
    pub fn umul_ov(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        match self.h(a).checked_mul(self.h(b)) {
            Some(h) if h <= mask(w) => return FALSE,
            _ => {}
        }
        match self.l(a).checked_mul(self.l(b)) {
            Some(l) if l <= mask(w) => {}
            _ => return TRUE,
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) {
            (b, a)
        } else {
            (a, b)
        };
        if let Some(cb) = self.cv(b) {
            let k = self.c(mask(w) / cb, w);
            return self.ult(k, a);
        }
        self.mk(K::UMulOv, 1, a, b, 0, 0, 1)
    }
    pub fn sadd_ov(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let half = mask(w) / 2;
        if self.h(a) <= half / 2 && self.h(b) <= half / 2 {
            return FALSE;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = sx(x, w).checked_add(sx(y, w));
            return self.b(r.map_or(true, |r| sx(r as u128 & mask(w), w) != r));
        }
        self.mk(K::SAddOv, 1, a, b, 0, 0, 1)
    }
    pub fn ssub_ov(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let half = mask(w) / 2;
        if self.h(a) <= half && self.h(b) <= half {
            return FALSE;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = sx(x, w).checked_sub(sx(y, w));
            return self.b(r.map_or(true, |r| sx(r as u128 & mask(w), w) != r));
        }
        self.mk(K::SSubOv, 1, a, b, 0, 0, 1)
    }
    pub fn smul_ov(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        let half = mask(w) / 2;
        if self.h(a) <= half && self.h(b) <= half {
            if let Some(p) = self.h(a).checked_mul(self.h(b)) {
                if p <= half {
                    return FALSE;
                }
            }
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            let r = sx(x, w).checked_mul(sx(y, w));
            return self.b(r.map_or(true, |r| sx(r as u128 & mask(w), w) != r));
        }
        self.mk(K::SMulOv, 1, a, b, 0, 0, 1)
    }
    pub fn usub_sat(&mut self, a: T, b: T) -> T {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x.saturating_sub(y), w);
        }
        if a == b || self.h(a) <= self.l(b) {
            return self.c(0, w);
        }
        if self.l(a) >= self.h(b) {
            return self.sub(a, b);
        }
        let hi = self.h(a) - self.l(b);
        let lo = self.l(a).saturating_sub(self.h(b));
        self.mk(K::USubSat, w, a, b, 0, lo, hi)
    }

    /// Rebuild `t` with variables replaced by constants (`memo` may hold further replacements).
    pub fn subst(&mut self, t: T, map: &FxHashMap<u32, u128>, memo: &mut FxHashMap<T, T>) -> T {
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let kids: &[u32] = match n.k {
                K::Const | K::Var => &[],
                K::Not | K::Extract | K::ZExt | K::SExt => &[n.a][..],
                K::Ite => &[n.a, n.b, n.c][..],
                _ => &[n.a, n.b][..],
            };
            let mut ready = true;
            for k in kids {
                if !memo.contains_key(k) {
                    stack.push(*k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let g = |y: T| memo[&y];
            let r = match n.k {
                K::Const => x,
                K::Var => match map.get(&(n.v as u32)) {
                    Some(v) => self.c(*v & mask(n.w), n.w),
                    None => x,
                },
                K::Not => {
                    let a = g(n.a);
                    self.not(a)
                }
                K::Extract => {
                    let a = g(n.a);
                    self.extract(a, n.b as u8, n.w)
                }
                K::ZExt => {
                    let a = g(n.a);
                    self.zext(a, n.w)
                }
                K::SExt => {
                    let a = g(n.a);
                    self.sext(a, n.w)
                }
                K::Ite => {
                    let (a, b, c) = (g(n.a), g(n.b), g(n.c));
                    self.ite(a, b, c)
                }
                _ => {
                    let (a, b) = (g(n.a), g(n.b));
                    match n.k {
                        K::Add => self.add(a, b),
                        K::Sub => self.sub(a, b),
                        K::Mul => self.mul(a, b),
                        K::UDiv => self.udiv(a, b),
                        K::URem => self.urem(a, b),
                        K::SDiv => self.sdiv(a, b),
                        K::SRem => self.srem(a, b),
                        K::And => self.and(a, b),
                        K::Or => self.or(a, b),
                        K::Xor => self.xor(a, b),
                        K::Shl => self.shl(a, b),
                        K::LShr => self.lshr(a, b),
                        K::AShr => self.ashr(a, b),
                        K::Eq => self.eq(a, b),
                        K::Ult => self.ult(a, b),
                        K::Slt => self.slt(a, b),
                        K::Concat => self.concat(a, b),
                        K::UAddOv => self.uadd_ov(a, b),
                        K::UMulOv => self.umul_ov(a, b),
                        K::SAddOv => self.sadd_ov(a, b),
                        K::SSubOv => self.ssub_ov(a, b),
                        K::SMulOv => self.smul_ov(a, b),
                        K::USubSat => self.usub_sat(a, b),
                        _ => unreachable!(),
                    }
                }
            };
            memo.insert(x, r);
            stack.pop();
        }
        memo[&t]
    }

    /// Evaluate under a model (var index -> value).
    pub fn eval(&self, t: T, model: &[u128], memo: &mut FxHashMap<T, u128>) -> u128 {
        // iterative to avoid deep recursion
        let mut stack = vec![t];
        while let Some(&x) = stack.last() {
            if memo.contains_key(&x) {
                stack.pop();
                continue;
            }
            let n = self.nodes[x as usize];
            let mut ready = true;
            let mut need = |y: T, st: &mut Vec<T>| {
                if !memo.contains_key(&y) {
                    st.push(y);
                    ready = false;
                }
            };
            match n.k {
                K::Const | K::Var => {}
                K::Not | K::Extract | K::ZExt | K::SExt => need(n.a, &mut stack),
                K::Ite => {
                    need(n.a, &mut stack);
                    need(n.b, &mut stack);
                    need(n.c, &mut stack);
                }
                _ => {
                    need(n.a, &mut stack);
                    need(n.b, &mut stack);
                }
            }
            if !ready {
                continue;
            }
            let w = n.w;
            let m = mask(w);
            let g = |y: T| memo[&y];
            let v = match n.k {
                K::Const => n.v,
                K::Var => model.get(n.v as usize).copied().unwrap_or(self.lo[x as usize]),
                K::Add => g(n.a).wrapping_add(g(n.b)) & m,
                K::Sub => g(n.a).wrapping_sub(g(n.b)) & m,
                K::Mul => g(n.a).wrapping_mul(g(n.b)) & m,
                K::UDiv => {
                    let b = g(n.b);
                    if b == 0 {
                        m
                    } else {
                        g(n.a) / b
                    }
                }
                K::URem => {
                    let b = g(n.b);
                    if b == 0 {
                        g(n.a)
                    } else {
                        g(n.a) % b
                    }
                }
                K::SDiv => {
                    let (a, b) = (sx(g(n.a), w), sx(g(n.b), w));
                    if b == 0 {
                        0
                    } else {
                        a.wrapping_div(b) as u128 & m
                    }
                }
                K::SRem => {
                    let (a, b) = (sx(g(n.a), w), sx(g(n.b), w));
                    if b == 0 {
                        0
                    } else {
                        a.wrapping_rem(b) as u128 & m
                    }
                }
                K::And => g(n.a) & g(n.b),
                K::Or => g(n.a) | g(n.b),
                K::Xor => g(n.a) ^ g(n.b),
                K::Shl => {
                    let b = g(n.b);
                    if b >= w as u128 {
                        0
                    } else {
                        (g(n.a) << b) & m
                    }
                }
                K::LShr => {
                    let b = g(n.b);
                    if b >= w as u128 {
                        0
                    } else {
                        g(n.a) >> b
                    }
                }
                K::AShr => {
                    let b = g(n.b).min(w as u128 - 1);
                    (sx(g(n.a), w) >> b) as u128 & m
                }
                K::Not => 1 - g(n.a),
                K::Eq => (g(n.a) == g(n.b)) as u128,
                K::Ult => (g(n.a) < g(n.b)) as u128,
                K::Slt => {
                    let iw = self.w(n.a);
                    (sx(g(n.a), iw) < sx(g(n.b), iw)) as u128
                }
                K::Ite => {
                    if g(n.a) != 0 {
                        g(n.b)
                    } else {
                        g(n.c)
                    }
                }
                K::Extract => (g(n.a) >> n.b) & m,
                K::Concat => (g(n.a) << self.w(n.b)) | g(n.b),
                K::ZExt => g(n.a),
                K::SExt => sx(g(n.a), self.w(n.a)) as u128 & m,
                K::UAddOv => {
                    let iw = self.w(n.a);
                    g(n.a).checked_add(g(n.b)).map_or(true, |r| r > mask(iw)) as u128
                }
                K::UMulOv => {
                    let iw = self.w(n.a);
                    g(n.a).checked_mul(g(n.b)).map_or(true, |r| r > mask(iw)) as u128
                }
                K::SAddOv | K::SSubOv | K::SMulOv => {
                    let iw = self.w(n.a);
                    let (a, b) = (sx(g(n.a), iw), sx(g(n.b), iw));
                    let r = match n.k {
                        K::SAddOv => a.checked_add(b),
                        K::SSubOv => a.checked_sub(b),
                        _ => a.checked_mul(b),
                    };
                    r.map_or(true, |r| sx(r as u128 & mask(iw), iw) != r) as u128
                }
                K::USubSat => g(n.a).saturating_sub(g(n.b)),
            };
            memo.insert(x, v);
            stack.pop();
        }
        memo[&t]
    }
}

impl Store {
    /// Readable form of a term (developer output).
    pub fn show(&self, t: T) -> String {
        let n = self.n(t);
        match n.k {
            K::Const => format!("{}", n.v),
            K::Var => self.var_names[n.v as usize].clone(),
            K::Not => format!("!{}", self.show(n.a)),
            K::Extract => format!("{}[{}+{}]", self.show(n.a), n.b, n.w),
            K::ZExt => format!("z{}({})", n.w, self.show(n.a)),
            K::Ite => format!("(if {} then {} else {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            k => format!("({} {:?} {})", self.show(n.a), k, self.show(n.b)),
        }
    }
}
