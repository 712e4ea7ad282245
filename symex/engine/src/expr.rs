//! Hash-consed bit-vector terms, with local simplification.
use crate::ir::Bin;
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const(u128),
    Var(u32),
    Bin(Bin2, E, E),
    /// comparison, width 1
    Eq(E, E),
    Ult(E, E),
    Ule(E, E),
    Slt(E, E),
    Sle(E, E),
    Not(E),
    Ite(E, E, E),
    ZExt(E),
    SExt(E),
    /// low bit, width from node
    Extract(E, u8),
    /// hi, lo
    Concat(E, E),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Bin2 {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}

pub fn b2(b: Bin) -> Bin2 {
    match b {
        Bin::Add => Bin2::Add,
        Bin::Sub => Bin2::Sub,
        Bin::Mul => Bin2::Mul,
        Bin::UDiv => Bin2::UDiv,
        Bin::SDiv => Bin2::SDiv,
        Bin::URem => Bin2::URem,
        Bin::SRem => Bin2::SRem,
        Bin::And => Bin2::And,
        Bin::Or => Bin2::Or,
        Bin::Xor => Bin2::Xor,
        Bin::Shl => Bin2::Shl,
        Bin::LShr => Bin2::LShr,
        Bin::AShr => Bin2::AShr,
    }
}

#[derive(Clone, Copy)]
pub struct Node {
    pub k: K,
    pub w: u8,
    pub sup: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: HashMap<(K, u8), E, std::hash::BuildHasherDefault<Fx>>,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95)
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64)
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
    fn write_isize(&mut self, i: isize) {
        self.write_u64(i as u64)
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sx(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn cbin(op: Bin2, w: u32, a: u128, b: u128) -> u128 {
    let r = match op {
        Bin2::Add => a.wrapping_add(b),
        Bin2::Sub => a.wrapping_sub(b),
        Bin2::Mul => a.wrapping_mul(b),
        Bin2::UDiv => if b == 0 { mask(w) } else { a / b },
        Bin2::URem => if b == 0 { a } else { a % b },
        Bin2::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { if x < 0 { 1 } else { mask(w) } } else { x.wrapping_div(y) as u128 }
        }
        Bin2::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Bin2::And => a & b,
        Bin2::Or => a | b,
        Bin2::Xor => a ^ b,
        Bin2::Shl => if b >= w as u128 { 0 } else { a << b },
        Bin2::LShr => if b >= w as u128 { 0 } else { a >> b },
        Bin2::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            (sx(a, w) >> s) as u128
        }
    };
    r & mask(w)
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: HashMap::default() };
        // node 0 is reserved
        a.nodes.push(Node { k: K::Const(0), w: 0, sup: 0 });
        a
    }
    fn put(&mut self, k: K, w: u32) -> E {
        if let Some(e) = self.map.get(&(k, w as u8)) {
            return *e;
        }
        let s = |x: E| self.nodes[x as usize].sup;
        let sup = match k {
            K::Const(_) => 0,
            K::Var(v) => 1u128 << (v % 128),
            K::Bin(_, a, b) | K::Eq(a, b) | K::Ult(a, b) | K::Ule(a, b) | K::Slt(a, b) | K::Sle(a, b) | K::Concat(a, b) => {
                s(a) | s(b)
            }
            K::Not(a) | K::ZExt(a) | K::SExt(a) | K::Extract(a, _) => s(a),
            K::Ite(c, a, b) => s(c) | s(a) | s(b),
        };
        let e = self.nodes.len() as u32;
        self.nodes.push(Node { k, w: w as u8, sup });
        self.map.insert((k, w as u8), e);
        e
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.nodes[e as usize].w as u32
    }
    #[inline]
    pub fn k(&self, e: E) -> K {
        self.nodes[e as usize].k
    }
    #[inline]
    pub fn sup(&self, e: E) -> u128 {
        self.nodes[e as usize].sup
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        if let K::Const(c) = self.k(e) { Some(c) } else { None }
    }
    pub fn konst(&mut self, v: u128, w: u32) -> E {
        self.put(K::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, id: u32, w: u32) -> E {
        self.put(K::Var(id), w)
    }
    pub fn bin(&mut self, op: Bin2, a: E, b: E) -> E {
        let w = self.w(a);
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = cbin(op, w, x, y);
            return self.konst(r, w);
        }
        // canonical: constant on the right for commutative ops
        let (a, b, ca, cb) = match op {
            Bin2::Add | Bin2::Mul | Bin2::And | Bin2::Or | Bin2::Xor if ca.is_some() => (b, a, cb, ca),
            _ => (a, b, ca, cb),
        };
        match (op, cb) {
            (Bin2::Add | Bin2::Sub | Bin2::Or | Bin2::Xor | Bin2::Shl | Bin2::LShr | Bin2::AShr, Some(0)) => return a,
            (Bin2::Mul | Bin2::And, Some(0)) => return b,
            (Bin2::Mul | Bin2::UDiv | Bin2::SDiv, Some(1)) => return a,
            (Bin2::And, Some(m)) if m == mask(w) => return a,
            (Bin2::Or, Some(m)) if m == mask(w) => return b,
            (Bin2::Sub, Some(c)) => {
                let c2 = self.konst(0u128.wrapping_sub(c), w);
                return self.bin(Bin2::Add, a, c2);
            }
            (Bin2::Add, Some(c)) => {
                if let K::Bin(Bin2::Add, x, y) = self.k(a) {
                    if let Some(d) = self.cv(y) {
                        let c2 = self.konst(c.wrapping_add(d), w);
                        return self.bin(Bin2::Add, x, c2);
                    }
                }
            }
            (Bin2::Xor, Some(1)) if w == 1 => return self.not(a),
            (Bin2::Mul, Some(c)) if c.is_power_of_two() => {
                let s = self.konst(c.trailing_zeros() as u128, w);
                return self.bin(Bin2::Shl, a, s);
            }
            (Bin2::UDiv, Some(c)) if c.is_power_of_two() => {
                let s = self.konst(c.trailing_zeros() as u128, w);
                return self.bin(Bin2::LShr, a, s);
            }
            (Bin2::URem, Some(c)) if c.is_power_of_two() => {
                let s = self.konst(c - 1, w);
                return self.bin(Bin2::And, a, s);
            }
            (Bin2::And, Some(m)) => {
                // mask of low bits -> zext(extract)
                if (m + 1).is_power_of_two() {
                    let n = (m + 1).trailing_zeros();
                    let x = self.extract(a, 0, n);
                    return self.zext(x, w);
                }
                if let K::ZExt(x) = self.k(a) {
                    let wx = self.w(x);
                    if m & mask(wx) == 0 {
                        return self.konst(0, w);
                    }
                    if m & mask(wx) == mask(wx) {
                        return a;
                    }
                    let mc = self.konst(m & mask(wx), wx);
                    let y = self.bin(Bin2::And, x, mc);
                    return self.zext(y, w);
                }
                if let K::Bin(Bin2::And, x, y) = self.k(a) {
                    if let Some(d) = self.cv(y) {
                        let c2 = self.konst(m & d, w);
                        return self.bin(Bin2::And, x, c2);
                    }
                }
            }
            (Bin2::LShr, Some(c)) => {
                if c >= w as u128 {
                    return self.konst(0, w);
                }
                let x = self.extract(a, c as u32, w - c as u32);
                return self.zext(x, w);
            }
            (Bin2::Shl, Some(c)) => {
                if c >= w as u128 {
                    return self.konst(0, w);
                }
                let x = self.extract(a, 0, w - c as u32);
                let z = self.konst(0, c as u32);
                return self.concat(x, z);
            }
            _ => {}
        }
        if op == Bin2::Or {
            // or of disjoint concat/zext pieces: (concat hi 0) | zext lo  -> concat
            if let Some(r) = self.or_disjoint(a, b) {
                return r;
            }
            if let Some(r) = self.or_disjoint(b, a) {
                return r;
            }
        }
        if a == b {
            match op {
                Bin2::Sub | Bin2::Xor => return self.konst(0, w),
                Bin2::And | Bin2::Or => return a,
                _ => {}
            }
        }
        if w == 1 {
            if op == Bin2::And || op == Bin2::Or {
                if let K::Not(x) = self.k(a) {
                    if x == b {
                        return self.konst((op == Bin2::Or) as u128, 1);
                    }
                }
                if let K::Not(x) = self.k(b) {
                    if x == a {
                        return self.konst((op == Bin2::Or) as u128, 1);
                    }
                }
            }
        }
        self.put(K::Bin(op, a, b), w)
    }
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        // a = concat(h, 0:n), b < 2^n
        if let K::Concat(h, l) = self.k(a) {
            if self.cv(l) == Some(0) {
                let n = self.w(l);
                if let K::ZExt(x) = self.k(b) {
                    let wx = self.w(x);
                    if wx <= n {
                        let lo = self.zext(x, n);
                        return Some(self.concat(h, lo));
                    }
                }
                if let Some(c) = self.cv(b) {
                    if c <= mask(n) {
                        let lo = self.konst(c, n);
                        return Some(self.concat(h, lo));
                    }
                }
                if let K::Concat(h2, l2) = self.k(b) {
                    if self.cv(h2) == Some(0) && self.w(l2) <= n {
                        let lo = self.zext(l2, n);
                        return Some(self.concat(h, lo));
                    }
                }
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        match self.k(a) {
            K::Const(c) => self.konst(c ^ 1, 1),
            K::Not(x) => x,
            K::Ult(x, y) => self.put(K::Ule(y, x), 1),
            K::Ule(x, y) => self.put(K::Ult(y, x), 1),
            K::Slt(x, y) => self.put(K::Sle(y, x), 1),
            K::Sle(x, y) => self.put(K::Slt(y, x), 1),
            _ => self.put(K::Not(a), 1),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(1, 1);
        }
        let (ca, cb) = (self.cv(a), self.cv(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.konst((x == y) as u128, 1);
        }
        let (a, b, cb) = if ca.is_some() { (b, a, ca) } else { (a, b, cb) };
        let w = self.w(a);
        if let Some(c) = cb {
            match self.k(a) {
                K::ZExt(x) => {
                    let wx = self.w(x);
                    if c > mask(wx) {
                        return self.konst(0, 1);
                    }
                    let cc = self.konst(c, wx);
                    return self.eq(x, cc);
                }
                K::SExt(x) => {
                    let wx = self.w(x);
                    let t = c & mask(wx);
                    if (sx(t, wx) as u128) & mask(w) != c {
                        return self.konst(0, 1);
                    }
                    let cc = self.konst(t, wx);
                    return self.eq(x, cc);
                }
                K::Concat(h, l) => {
                    let wl = self.w(l);
                    let ch = self.konst(c >> wl, w - wl);
                    let cl = self.konst(c & mask(wl), wl);
                    let e1 = self.eq(h, ch);
                    let e2 = self.eq(l, cl);
                    return self.bin(Bin2::And, e1, e2);
                }
                K::Bin(Bin2::Add, x, y) => {
                    if let Some(d) = self.cv(y) {
                        let cc = self.konst(c.wrapping_sub(d), w);
                        return self.eq(x, cc);
                    }
                }
                K::Bin(Bin2::Xor, x, y) => {
                    if let Some(d) = self.cv(y) {
                        let cc = self.konst(c ^ d, w);
                        return self.eq(x, cc);
                    }
                }
                K::Ite(g, x, y) => {
                    let (cx, cy) = (self.cv(x), self.cv(y));
                    if cx.is_some() || cy.is_some() {
                        let ex = self.eq(x, b);
                        let ey = self.eq(y, b);
                        return self.ite(g, ex, ey);
                    }
                }
                _ => {}
            }
            if w == 1 {
                return if c == 1 { a } else { self.not(a) };
            }
        }
        let (a, b) = if cb.is_none() && a > b { (b, a) } else { (a, b) };
        self.put(K::Eq(a, b), 1)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst((x < y) as u128, 1),
            (_, Some(0)) => return self.konst(0, 1),
            (Some(x), _) if x == mask(w) => return self.konst(0, 1),
            (_, Some(1)) => {
                let z = self.konst(0, w);
                return self.eq(a, z);
            }
            (_, Some(c)) => {
                if let K::ZExt(x) = self.k(a) {
                    let wx = self.w(x);
                    if c > mask(wx) {
                        return self.konst(1, 1);
                    }
                    let cc = self.konst(c, wx);
                    return self.ult(x, cc);
                }
            }
            (Some(c), _) => {
                if let K::ZExt(x) = self.k(b) {
                    let wx = self.w(x);
                    if c >= mask(wx) {
                        return self.konst(0, 1);
                    }
                    let cc = self.konst(c, wx);
                    return self.ult(cc, x);
                }
            }
            _ => {
                if let (K::ZExt(x), K::ZExt(y)) = (self.k(a), self.k(b)) {
                    if self.w(x) == self.w(y) {
                        return self.ult(x, y);
                    }
                }
            }
        }
        self.put(K::Ult(a, b), 1)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        let x = self.ult(b, a);
        self.not(x)
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.konst(0, 1);
        }
        let w = self.w(a);
        match (self.cv(a), self.cv(b)) {
            (Some(x), Some(y)) => return self.konst((sx(x, w) < sx(y, w)) as u128, 1),
            (_, Some(c)) => {
                if let K::ZExt(x) = self.k(a) {
                    if self.w(x) < w {
                        if sx(c, w) <= 0 {
                            return self.konst(0, 1);
                        }
                        return self.ult(a, b);
                    }
                }
            }
            (Some(c), _) => {
                if let K::ZExt(x) = self.k(b) {
                    if self.w(x) < w {
                        if sx(c, w) < 0 {
                            return self.konst(1, 1);
                        }
                        return self.ult(a, b);
                    }
                }
            }
            _ => {}
        }
        self.put(K::Slt(a, b), 1)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let x = self.slt(b, a);
        self.not(x)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(x) = self.cv(c) {
            return if x == 1 { a } else { b };
        }
        if let K::Not(x) = self.k(c) {
            return self.ite(x, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Bin2::Or, c, b),
                (Some(0), _) => {
                    let n = self.not(c);
                    return self.bin(Bin2::And, n, b);
                }
                (_, Some(0)) => return self.bin(Bin2::And, c, a),
                (_, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Bin2::Or, n, a);
                }
                _ => {}
            }
        }
        self.put(K::Ite(c, a, b), w)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        assert!(wa < w, "zext {wa} -> {w}");
        match self.k(a) {
            K::Const(c) => self.konst(c, w),
            K::ZExt(x) => self.zext(x, w),
            _ => self.put(K::ZExt(a), w),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        match self.k(a) {
            K::Const(c) => self.konst(sx(c, wa) as u128, w),
            K::ZExt(x) => self.zext(x, w),
            _ => self.put(K::SExt(a), w),
        }
    }
    /// bits lo .. lo+n
    pub fn extract(&mut self, a: E, lo: u32, n: u32) -> E {
        let w = self.w(a);
        if lo == 0 && n == w {
            return a;
        }
        assert!(lo + n <= w);
        match self.k(a) {
            K::Const(c) => self.konst(c >> lo, n),
            K::ZExt(x) => {
                let wx = self.w(x);
                if lo >= wx {
                    self.konst(0, n)
                } else if lo + n <= wx {
                    self.extract(x, lo, n)
                } else {
                    let y = self.extract(x, lo, wx - lo);
                    self.zext(y, n)
                }
            }
            K::SExt(x) if lo + n <= self.w(x) => self.extract(x, lo, n),
            K::Concat(h, l) => {
                let wl = self.w(l);
                if lo >= wl {
                    self.extract(h, lo - wl, n)
                } else if lo + n <= wl {
                    self.extract(l, lo, n)
                } else {
                    let y = self.extract(l, lo, wl - lo);
                    let z = self.extract(h, 0, lo + n - wl);
                    self.concat(z, y)
                }
            }
            K::Extract(x, l2) => self.extract(x, lo + l2 as u32, n),
            K::Bin(op @ (Bin2::And | Bin2::Or | Bin2::Xor), x, y) => {
                let x2 = self.extract(x, lo, n);
                let y2 = self.extract(y, lo, n);
                self.bin(op, x2, y2)
            }
            K::Bin(op @ (Bin2::Add | Bin2::Sub | Bin2::Mul), x, y) if lo == 0 => {
                let x2 = self.extract(x, lo, n);
                let y2 = self.extract(y, lo, n);
                self.bin(op, x2, y2)
            }
            K::Ite(c, x, y) if self.cv(x).is_some() || self.cv(y).is_some() => {
                let x2 = self.extract(x, lo, n);
                let y2 = self.extract(y, lo, n);
                self.ite(c, x2, y2)
            }
            _ => self.put(K::Extract(a, lo as u8), n),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (wh, wl) = (self.w(h), self.w(l));
        if wl == 0 {
            return h;
        }
        if wh == 0 {
            return l;
        }
        let w = wh + wl;
        if let (Some(a), Some(b)) = (self.cv(h), self.cv(l)) {
            return self.konst(a << wl | b, w);
        }
        if self.cv(h) == Some(0) {
            return self.zext(l, w);
        }
        match (self.k(h), self.k(l)) {
            (K::Extract(x, lo), K::Extract(y, lo2)) if x == y && lo as u32 == lo2 as u32 + wl => {
                return self.extract(x, lo2 as u32, w);
            }
            (K::Extract(x, lo), _) if x == l && lo as u32 == wl => {
                return self.extract(x, 0, w);
            }
            _ => {}
        }
        // zext(x) ++ l  =>  zext(concat(x,l))
        if let K::ZExt(x) = self.k(h) {
            let c = self.concat(x, l);
            return self.zext(c, w);
        }
        // h ++ (concat h2 l2) where h,h2 adjoining extracts
        if let K::Concat(h2, l2) = self.k(l) {
            if let (K::Extract(x, lo), K::Extract(y, lo2)) = (self.k(h), self.k(h2)) {
                let wh2 = self.w(h2);
                if x == y && lo as u32 == lo2 as u32 + wh2 {
                    let hh = self.extract(x, lo2 as u32, wh + wh2);
                    return self.concat(hh, l2);
                }
            }
        }
        // SExt / Ite splits are left alone
        self.put(K::Concat(h, l), w)
    }

    /// Evaluate under an assignment of the variables (missing = 0).
    /// The term with variable `vars[i]` replaced by variable `i`.
    pub fn rename(&mut self, e: E, vars: &[u32], memo: &mut HashMap<E, E>) -> E {
        if self.sup(e) == 0 {
            return e;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let w = self.w(e);
        let mut f = |s: &mut Self, x| s.rename(x, vars, memo);
        let r = match self.k(e) {
            K::Const(_) => e,
            K::Var(i) => {
                let j = vars.iter().position(|v| *v == i).unwrap();
                self.var(j as u32, w)
            }
            K::Bin(op, a, b) => {
                let (a, b) = (f(self, a), f(self, b));
                self.bin(op, a, b)
            }
            K::Eq(a, b) => {
                let (a, b) = (f(self, a), f(self, b));
                self.eq(a, b)
            }
            K::Ult(a, b) => {
                let (a, b) = (f(self, a), f(self, b));
                self.ult(a, b)
            }
            K::Ule(a, b) => {
                let (a, b) = (f(self, a), f(self, b));
                self.ule(a, b)
            }
            K::Slt(a, b) => {
                let (a, b) = (f(self, a), f(self, b));
                self.slt(a, b)
            }
            K::Sle(a, b) => {
                let (a, b) = (f(self, a), f(self, b));
                self.sle(a, b)
            }
            K::Not(a) => {
                let a = f(self, a);
                self.not(a)
            }
            K::Ite(c, a, b) => {
                let (c, a, b) = (f(self, c), f(self, a), f(self, b));
                self.ite(c, a, b)
            }
            K::ZExt(a) => {
                let a = f(self, a);
                self.zext(a, w)
            }
            K::SExt(a) => {
                let a = f(self, a);
                self.sext(a, w)
            }
            K::Extract(a, lo) => {
                let a = f(self, a);
                self.extract(a, lo as u32, w)
            }
            K::Concat(h, l) => {
                let (h, l) = (f(self, h), f(self, l));
                self.concat(h, l)
            }
        };
        memo.insert(e, r);
        r
    }

    pub fn eval(&self, e: E, m: &[u64]) -> u128 {
        let mut memo: HashMap<E, u128, std::hash::BuildHasherDefault<Fx>> = HashMap::default();
        self.eval_in(e, m, &mut memo, 0)
    }
    fn eval_in(&self, e: E, m: &[u64], memo: &mut HashMap<E, u128, std::hash::BuildHasherDefault<Fx>>, d: u32) -> u128 {
        let n = self.nodes[e as usize];
        match n.k {
            K::Const(c) => return c,
            K::Var(v) => return m.get(v as usize).copied().unwrap_or(0) as u128,
            _ => {}
        }
        if d > 6 {
            if let Some(r) = memo.get(&e) {
                return *r;
            }
        }
        let w = n.w as u32;
        macro_rules! ev {
            ($x:expr) => {
                self.eval_in($x, m, memo, d + 1)
            };
        }
        let r = match n.k {
            K::Bin(op, a, b) => {
                let x = ev!(a);
                let y = ev!(b);
                cbin(op, w, x, y)
            }
            K::Eq(a, b) => (ev!(a) == ev!(b)) as u128,
            K::Ult(a, b) => (ev!(a) < ev!(b)) as u128,
            K::Ule(a, b) => (ev!(a) <= ev!(b)) as u128,
            K::Slt(a, b) => {
                let wa = self.w(a);
                (sx(ev!(a), wa) < sx(ev!(b), wa)) as u128
            }
            K::Sle(a, b) => {
                let wa = self.w(a);
                (sx(ev!(a), wa) <= sx(ev!(b), wa)) as u128
            }
            K::Not(a) => ev!(a) ^ 1,
            K::Ite(c, a, b) => {
                if ev!(c) == 1 { ev!(a) } else { ev!(b) }
            }
            K::ZExt(a) => ev!(a),
            K::SExt(a) => {
                let wa = self.w(a);
                (sx(ev!(a), wa) as u128) & mask(w)
            }
            K::Extract(a, lo) => (ev!(a) >> lo) & mask(w),
            K::Concat(h, l) => {
                let wl = self.w(l);
                ev!(h) << wl | ev!(l)
            }
            K::Const(_) | K::Var(_) => unreachable!(),
        };
        if d >= 6 {
            memo.insert(e, r);
        }
        r
    }
}
