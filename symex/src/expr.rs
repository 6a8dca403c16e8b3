//! Hash-consed bit-vector expressions, with a light simplifier, an evaluator
//! and unsigned-interval bounds.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};
use std::rc::Rc;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        self.0
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum B {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum C {
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u16, u128),
    Var(u32),
    Bin(B, E, E),
    Cmp(C, E, E),
    Not(E),
    ZExt(E, u16),
    SExt(E, u16),
    Extract(E, u16, u16), // e, lo, width
    Concat(E, E),         // hi, lo
    Ite(E, E, E),
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sx(v: u128, w: u16) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub struct Arena {
    pub n: Vec<N>,
    pub w: Vec<u16>,
    lo: Vec<u128>,
    hi: Vec<u128>,
    vars: Vec<Option<Rc<Vec<u64>>>>,
    map: FxMap<N, E>,
    memo: Vec<u128>,
    stamp: Vec<u32>,
    cur: u32,
    cur_model: Option<Rc<Vec<u8>>>,
    unary: FxMap<E, Option<(u32, u128, u128)>>,
}

impl Arena {
    pub fn new() -> Arena {
        Arena {
            n: vec![],
            w: vec![],
            lo: vec![],
            hi: vec![],
            vars: vec![],
            map: Default::default(),
            memo: vec![],
            stamp: vec![],
            cur: 0,
            cur_model: None,
            unary: Default::default(),
        }
    }
    fn intern(&mut self, n: N) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let w = match n {
            N::Const(w, _) => w,
            N::Var(_) => 8,
            N::Bin(_, a, _) => self.w[a as usize],
            N::Cmp(..) => 1,
            N::Not(a) => self.w[a as usize],
            N::ZExt(_, w) | N::SExt(_, w) => w,
            N::Extract(_, _, w) => w,
            N::Concat(a, b) => self.w[a as usize] + self.w[b as usize],
            N::Ite(_, a, _) => self.w[a as usize],
        };
        assert!(w <= 128, "expression wider than 128 bits");
        let m = mask(w);
        let (lo, hi) = match n {
            N::Const(_, v) => (v, v),
            N::ZExt(a, _) => (self.lo[a as usize], self.hi[a as usize]),
            N::Concat(a, b) => {
                let s = self.w[b as usize];
                (
                    (self.lo[a as usize] << s) | self.lo[b as usize],
                    (self.hi[a as usize] << s) | self.hi[b as usize],
                )
            }
            N::Ite(_, a, b) => (
                self.lo[a as usize].min(self.lo[b as usize]),
                self.hi[a as usize].max(self.hi[b as usize]),
            ),
            N::Bin(B::And, a, b) => (0, self.hi[a as usize].min(self.hi[b as usize])),
            N::Bin(B::Or, a, b) => {
                let h = self.hi[a as usize] | self.hi[b as usize];
                let bits = 128 - h.leading_zeros();
                (
                    self.lo[a as usize].max(self.lo[b as usize]),
                    mask(bits as u16),
                )
            }
            N::Bin(B::Add, a, b) => {
                let h = self.hi[a as usize].checked_add(self.hi[b as usize]);
                match h {
                    Some(h) if h <= m => (self.lo[a as usize] + self.lo[b as usize], h),
                    _ => (0, m),
                }
            }
            N::Bin(B::URem, _, b) => {
                let h = self.hi[b as usize];
                (0, if h > 0 && self.lo[b as usize] > 0 { h - 1 } else { m })
            }
            N::Bin(B::UDiv, a, b) if self.lo[b as usize] > 0 => (0, self.hi[a as usize]),
            _ => (0, m),
        };
        let id = self.n.len() as E;
        self.n.push(n);
        self.w.push(w);
        self.lo.push(lo);
        self.hi.push(hi);
        self.vars.push(None);
        self.memo.push(0);
        self.stamp.push(0);
        self.map.insert(n, id);
        id
    }
    #[inline]
    pub fn width(&self, e: E) -> u16 {
        self.w[e as usize]
    }
    #[inline]
    pub fn k(&self, e: E) -> Option<u128> {
        if let N::Const(_, v) = self.n[e as usize] {
            Some(v)
        } else {
            None
        }
    }
    pub fn c(&mut self, w: u16, v: u128) -> E {
        self.intern(N::Const(w, v & mask(w)))
    }
    pub fn var(&mut self, i: u32) -> E {
        self.intern(N::Var(i))
    }
    pub fn range(&self, e: E) -> (u128, u128) {
        (self.lo[e as usize], self.hi[e as usize])
    }

    pub fn binop(op: B, w: u16, x: u128, y: u128) -> u128 {
        let m = mask(w);
        (match op {
            B::Add => x.wrapping_add(y),
            B::Sub => x.wrapping_sub(y),
            B::Mul => x.wrapping_mul(y),
            B::UDiv => {
                if y == 0 {
                    m
                } else {
                    x / y
                }
            }
            B::URem => {
                if y == 0 {
                    x
                } else {
                    x % y
                }
            }
            B::SDiv => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    if a < 0 {
                        1
                    } else {
                        m
                    }
                } else {
                    a.wrapping_div(b) as u128
                }
            }
            B::SRem => {
                let (a, b) = (sx(x, w), sx(y, w));
                if b == 0 {
                    x
                } else {
                    a.wrapping_rem(b) as u128
                }
            }
            B::And => x & y,
            B::Or => x | y,
            B::Xor => x ^ y,
            B::Shl => {
                if y >= w as u128 {
                    0
                } else {
                    x << y
                }
            }
            B::LShr => {
                if y >= w as u128 {
                    0
                } else {
                    x >> y
                }
            }
            B::AShr => {
                let s = if y >= w as u128 { w as u32 - 1 } else { y as u32 };
                (sx(x, w) >> s) as u128
            }
        }) & m
    }
    pub fn cmpop(op: C, w: u16, x: u128, y: u128) -> bool {
        match op {
            C::Eq => x == y,
            C::Ult => x < y,
            C::Ule => x <= y,
            C::Slt => sx(x, w) < sx(y, w),
            C::Sle => sx(x, w) <= sx(y, w),
        }
    }

    pub fn bin(&mut self, op: B, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let m = mask(w);
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(w, Self::binop(op, w, x, y));
        }
        let comm = matches!(op, B::Add | B::Mul | B::And | B::Or | B::Xor);
        if comm && (ka.is_some() || (kb.is_none() && a > b)) {
            return self.bin2(op, b, a, w, m);
        }
        self.bin2(op, a, b, w, m)
    }
    fn bin2(&mut self, op: B, a: E, b: E, w: u16, m: u128) -> E {
        let kb = self.k(b);
        match op {
            B::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let (Some(y), N::Bin(B::Add, p, q)) = (kb, self.n[a as usize]) {
                    if let Some(z) = self.k(q) {
                        let c = self.c(w, y.wrapping_add(z));
                        return self.bin(B::Add, p, c);
                    }
                }
                if w == 1 {
                    return self.bin(B::Xor, a, b);
                }
            }
            B::Sub => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(y) = kb {
                    let c = self.c(w, y.wrapping_neg());
                    return self.bin(B::Add, a, c);
                }
            }
            B::Mul => {
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.c(w, y.trailing_zeros() as u128);
                        return self.bin(B::Shl, a, s);
                    }
                }
            }
            B::And => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return b;
                    }
                    if y == m {
                        return a;
                    }
                    if let N::Bin(B::And, p, q) = self.n[a as usize] {
                        if let Some(z) = self.k(q) {
                            let c = self.c(w, y & z);
                            return self.bin(B::And, p, c);
                        }
                    }
                    // low mask
                    if (y & (y + 1)) == 0 {
                        let n = y.trailing_ones() as u16;
                        let x = self.extract(a, 0, n);
                        return self.zext(x, w);
                    }
                    // contiguous mask shifted
                    let tz = y.trailing_zeros() as u16;
                    let yy = y >> tz;
                    if (yy & (yy + 1)) == 0 {
                        let n = yy.trailing_ones() as u16;
                        let x = self.extract(a, tz, n);
                        let z = self.c(tz, 0);
                        let x = self.concat(x, z);
                        return self.zext(x, w);
                    }
                }
                if w == 1 {
                    if self.n[a as usize] == N::Not(b) || self.n[b as usize] == N::Not(a) {
                        return self.c(1, 0);
                    }
                }
            }
            B::Or => {
                if a == b {
                    return a;
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return b;
                    }
                }
                if w == 1 {
                    if self.n[a as usize] == N::Not(b) || self.n[b as usize] == N::Not(a) {
                        return self.c(1, 1);
                    }
                } else {
                    if let Some(r) = self.or_disjoint(a, b) {
                        return r;
                    }
                    if let Some(r) = self.or_disjoint(b, a) {
                        return r;
                    }
                }
            }
            B::Xor => {
                if a == b {
                    return self.c(w, 0);
                }
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y == m {
                        return self.not(a);
                    }
                    if let N::Bin(B::Xor, p, q) = self.n[a as usize] {
                        if let Some(z) = self.k(q) {
                            let c = self.c(w, y ^ z);
                            return self.bin(B::Xor, p, c);
                        }
                    }
                }
            }
            B::Shl => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(w, 0);
                    }
                    let x = self.extract(a, 0, w - y as u16);
                    let z = self.c(y as u16, 0);
                    return self.concat(x, z);
                }
                if self.k(a) == Some(0) {
                    return a;
                }
            }
            B::LShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.c(w, 0);
                    }
                    let x = self.extract(a, y as u16, w - y as u16);
                    return self.zext(x, w);
                }
                if self.k(a) == Some(0) {
                    return a;
                }
            }
            B::AShr => {
                if let Some(y) = kb {
                    if y == 0 {
                        return a;
                    }
                    let y = if y >= w as u128 { w - 1 } else { y as u16 };
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            B::UDiv => {
                if let Some(y) = kb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let s = self.c(w, y.trailing_zeros() as u128);
                        return self.bin(B::LShr, a, s);
                    }
                }
            }
            B::URem => {
                if let Some(y) = kb {
                    if y.is_power_of_two() {
                        let s = self.c(w, y - 1);
                        return self.bin(B::And, a, s);
                    }
                }
            }
            _ => {}
        }
        self.intern(N::Bin(op, a, b))
    }
    /// hi-part with zero low bits OR'd with a value that fits in those bits.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.width(a);
        // a = [zext] concat(h, 0_k), b < 2^k
        let (inner, _) = match self.n[a as usize] {
            N::ZExt(x, _) => (x, true),
            _ => (a, false),
        };
        if let N::Concat(h, l) = self.n[inner as usize] {
            if self.k(l) == Some(0) {
                let lw = self.width(l);
                if self.hi[b as usize] <= mask(lw) {
                    let bl = self.extract(b, 0, lw);
                    let r = self.concat(h, bl);
                    return Some(self.zext(r, w));
                }
            }
        }
        None
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.width(a);
        match self.n[a as usize] {
            N::Const(_, v) => self.c(w, !v),
            N::Not(x) => x,
            N::Cmp(C::Ult, x, y) => self.cmp(C::Ule, y, x),
            N::Cmp(C::Ule, x, y) => self.cmp(C::Ult, y, x),
            N::Cmp(C::Slt, x, y) => self.cmp(C::Sle, y, x),
            N::Cmp(C::Sle, x, y) => self.cmp(C::Slt, y, x),
            _ => self.intern(N::Not(a)),
        }
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        match self.n[a as usize] {
            N::Const(_, v) => self.c(w, v),
            N::ZExt(x, _) => self.zext(x, w),
            N::Concat(h, l) if self.k(h) == Some(0) => self.zext(l, w),
            _ => self.intern(N::ZExt(a, w)),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.width(a);
        if aw == w {
            return a;
        }
        match self.n[a as usize] {
            N::Const(_, v) => self.c(w, sx(v, aw) as u128),
            N::ZExt(x, _) => self.zext(x, w),
            N::SExt(x, _) => self.sext(x, w),
            _ => self.intern(N::SExt(a, w)),
        }
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let aw = self.width(a);
        debug_assert!(lo + w <= aw && w > 0);
        if w == aw {
            return a;
        }
        match self.n[a as usize] {
            N::Const(_, v) => self.c(w, v >> lo),
            N::Extract(x, l2, _) => self.extract(x, l2 + lo, w),
            N::Concat(h, l) => {
                let lw = self.width(l);
                if lo >= lw {
                    self.extract(h, lo - lw, w)
                } else if lo + w <= lw {
                    self.extract(l, lo, w)
                } else {
                    let x = self.extract(l, lo, lw - lo);
                    let y = self.extract(h, 0, lo + w - lw);
                    self.concat(y, x)
                }
            }
            N::ZExt(x, _) => {
                let xw = self.width(x);
                if lo >= xw {
                    self.c(w, 0)
                } else if lo + w <= xw {
                    self.extract(x, lo, w)
                } else {
                    let y = self.extract(x, lo, xw - lo);
                    self.zext(y, w)
                }
            }
            N::SExt(x, _) if lo + w <= self.width(x) => self.extract(x, lo, w),
            N::Bin(op @ (B::And | B::Or | B::Xor), x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            N::Bin(op @ (B::Add | B::Sub | B::Mul), x, y) if lo == 0 => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.bin(op, p, q)
            }
            N::Not(x) => {
                let p = self.extract(x, lo, w);
                self.not(p)
            }
            N::Ite(c, x, y) => {
                let p = self.extract(x, lo, w);
                let q = self.extract(y, lo, w);
                self.ite(c, p, q)
            }
            _ => self.intern(N::Extract(a, lo, w)),
        }
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.width(h), self.width(l));
        let w = hw + lw;
        match (self.n[h as usize], self.n[l as usize]) {
            (N::Const(_, x), N::Const(_, y)) => return self.c(w, (x << lw) | y),
            (N::Extract(x, lx, _), N::Extract(y, ly, wy)) if x == y && lx == ly + wy => {
                return self.extract(x, ly, w)
            }
            (N::Extract(x, lx, _), _) if lx == lw && self.width(x) >= w => {
                // concat(extract(x, lw..), l) where l == extract(x,0,lw) folded differently
                let e = self.extract(x, 0, lw);
                if e == l {
                    return self.extract(x, 0, w);
                }
            }
            (N::Const(_, 0), _) => return self.zext(l, w),
            (N::Ite(c, p, q), N::Ite(c2, r, s)) if c == c2 => {
                let x = self.concat(p, r);
                let y = self.concat(q, s);
                return self.ite(c, x, y);
            }
            (N::Ite(c, p, q), N::Const(..)) if self.k(p).is_some() && self.k(q).is_some() => {
                let x = self.concat(p, l);
                let y = self.concat(q, l);
                return self.ite(c, x, y);
            }
            (N::Const(..), N::Ite(c, p, q)) if self.k(p).is_some() && self.k(q).is_some() => {
                let x = self.concat(h, p);
                let y = self.concat(h, q);
                return self.ite(c, x, y);
            }
            (_, N::Concat(lh, ll)) => {
                // try merging h with lh
                if let (N::Extract(x, lx, _), N::Extract(y, ly, wy)) =
                    (self.n[h as usize], self.n[lh as usize])
                {
                    if x == y && lx == ly + wy {
                        let m = self.concat(h, lh);
                        return self.concat(m, ll);
                    }
                }
                if let (Some(_), Some(_)) = (self.k(h), self.k(lh)) {
                    let m = self.concat(h, lh);
                    return self.concat(m, ll);
                }
            }
            (N::ZExt(..), _) => {
                // concat(zext(x), l) = zext(concat(x,l))
                if let N::ZExt(x, _) = self.n[h as usize] {
                    let c = self.concat(x, l);
                    return self.zext(c, w);
                }
            }
            _ => {}
        }
        // byte-wise reassembly of op results such as extract(add..) folded by
        // the extract rules would be lost here, which is only a precision
        // (not soundness) matter.
        self.intern(N::Concat(h, l))
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(v) = self.k(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let N::Not(x) = self.n[c as usize] {
            return self.ite(x, b, a);
        }
        if self.width(a) == 1 {
            match (self.k(a), self.k(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(B::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(B::And, n, b);
                }
                (None, Some(0)) => return self.bin(B::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(B::Or, n, a);
                }
                _ => {}
            }
        }
        if let N::Ite(c2, x, _) = self.n[a as usize] {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let N::Ite(c2, _, y) = self.n[b as usize] {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.intern(N::Ite(c, a, b))
    }
    pub fn cmp(&mut self, op: C, a: E, b: E) -> E {
        let w = self.width(a);
        debug_assert_eq!(w, self.width(b));
        let (ka, kb) = (self.k(a), self.k(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            return self.c(1, Self::cmpop(op, w, x, y) as u128);
        }
        if a == b {
            let v = matches!(op, C::Eq | C::Ule | C::Sle);
            return self.c(1, v as u128);
        }
        let (la, ha) = self.range(a);
        let (lb, hb) = self.range(b);
        match op {
            C::Eq => {
                if ka.is_some() {
                    return self.cmp(C::Eq, b, a);
                }
                if ha < lb || hb < la {
                    return self.c(1, 0);
                }
                if w == 1 {
                    return match kb {
                        Some(1) => a,
                        Some(_) => self.not(a),
                        None => {
                            let x = self.bin(B::Xor, a, b);
                            self.not(x)
                        }
                    };
                }
                if let Some(y) = kb {
                    match self.n[a as usize] {
                        N::ZExt(x, _) => {
                            let xw = self.width(x);
                            if y > mask(xw) {
                                return self.c(1, 0);
                            }
                            let c = self.c(xw, y);
                            return self.cmp(C::Eq, x, c);
                        }
                        N::Concat(h, l) => {
                            let lw = self.width(l);
                            let hw = self.width(h);
                            let ch = self.c(hw, y >> lw);
                            let cl = self.c(lw, y);
                            let p = self.cmp(C::Eq, h, ch);
                            let q = self.cmp(C::Eq, l, cl);
                            return self.bin(B::And, p, q);
                        }
                        N::Ite(c, p, q) if self.k(p).is_some() || self.k(q).is_some() => {
                            let x = self.cmp(C::Eq, p, b);
                            let y = self.cmp(C::Eq, q, b);
                            return self.ite(c, x, y);
                        }
                        N::Bin(B::Add, p, q) => {
                            if let Some(z) = self.k(q) {
                                let c = self.c(w, y.wrapping_sub(z));
                                return self.cmp(C::Eq, p, c);
                            }
                        }
                        N::Bin(B::Xor, p, q) => {
                            if let Some(z) = self.k(q) {
                                let c = self.c(w, y ^ z);
                                return self.cmp(C::Eq, p, c);
                            }
                        }
                        N::Not(p) => {
                            let c = self.c(w, !y);
                            return self.cmp(C::Eq, p, c);
                        }
                        _ => {}
                    }
                } else {
                    match (self.n[a as usize], self.n[b as usize]) {
                        (N::ZExt(x, _), N::ZExt(y, _)) => {
                            let m = self.width(x).max(self.width(y));
                            if m < w {
                                let x = self.zext(x, m);
                                let y = self.zext(y, m);
                                return self.cmp(C::Eq, x, y);
                            }
                        }
                        (N::Concat(p, q), N::Concat(r, s)) if self.width(q) == self.width(s) => {
                            let x = self.cmp(C::Eq, p, r);
                            let y = self.cmp(C::Eq, q, s);
                            return self.bin(B::And, x, y);
                        }
                        _ => {}
                    }
                    if a > b {
                        return self.intern(N::Cmp(op, b, a));
                    }
                }
            }
            C::Ult => {
                if ha < lb {
                    return self.c(1, 1);
                }
                if la >= hb {
                    return self.c(1, 0);
                }
                if w == 1 {
                    let n = self.not(a);
                    return self.bin(B::And, n, b);
                }
                if kb == Some(1) {
                    let z = self.c(w, 0);
                    return self.cmp(C::Eq, a, z);
                }
                if ka == Some(0) {
                    let z = self.c(w, 0);
                    let e = self.cmp(C::Eq, b, z);
                    return self.not(e);
                }
            }
            C::Ule => {
                if ha <= lb {
                    return self.c(1, 1);
                }
                if la > hb {
                    return self.c(1, 0);
                }
                if let Some(y) = kb {
                    if y < mask(w) {
                        let c = self.c(w, y + 1);
                        return self.cmp(C::Ult, a, c);
                    }
                }
                if let Some(x) = ka {
                    if x > 0 {
                        let c = self.c(w, x - 1);
                        return self.cmp(C::Ult, c, b);
                    }
                }
            }
            C::Slt | C::Sle => {
                let sb = 1u128 << (w - 1);
                if w > 1 && ha < sb && hb < sb {
                    return self.cmp(if op == C::Slt { C::Ult } else { C::Ule }, a, b);
                }
                // x < 0  <=> msb
                if op == C::Slt && kb == Some(0) && w > 1 {
                    return self.extract(a, w - 1, 1);
                }
                if op == C::Slt && ka == Some(mask(w)) && w > 1 {
                    let m = self.extract(b, w - 1, 1);
                    return self.not(m);
                }
                if op == C::Sle && ka == Some(0) && w > 1 {
                    let m = self.extract(b, w - 1, 1);
                    return self.not(m);
                }
            }
        }
        if let (C::Ult | C::Ule, Some(y), N::ZExt(x, _)) = (op, kb, self.n[a as usize]) {
            let xw = self.width(x);
            if y <= mask(xw) {
                let c = self.c(xw, y);
                return self.cmp(op, x, c);
            }
        }
        if let (C::Ult | C::Ule, Some(x), N::ZExt(y, _)) = (op, ka, self.n[b as usize]) {
            let yw = self.width(y);
            if x <= mask(yw) {
                let c = self.c(yw, x);
                return self.cmp(op, c, y);
            }
        }
        if let (C::Ult | C::Ule, N::ZExt(x, _), N::ZExt(y, _)) =
            (op, self.n[a as usize], self.n[b as usize])
        {
            let m = self.width(x).max(self.width(y));
            if m < w {
                let x = self.zext(x, m);
                let y = self.zext(y, m);
                return self.cmp(op, x, y);
            }
        }
        self.intern(N::Cmp(op, a, b))
    }

    /// Bitmap of the variables `e` depends on.
    pub fn support(&mut self, e: E) -> Rc<Vec<u64>> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        let un = |a: &Rc<Vec<u64>>, b: &Rc<Vec<u64>>| -> Rc<Vec<u64>> {
            if Rc::ptr_eq(a, b) {
                return a.clone();
            }
            let (l, s) = if a.len() >= b.len() { (a, b) } else { (b, a) };
            let mut r = (**l).clone();
            for (i, x) in s.iter().enumerate() {
                r[i] |= x
            }
            Rc::new(r)
        };
        let r = match self.n[e as usize] {
            N::Const(..) => Rc::new(vec![]),
            N::Var(i) => {
                let mut v = vec![0u64; i as usize / 64 + 1];
                v[i as usize / 64] |= 1 << (i % 64);
                Rc::new(v)
            }
            N::Not(a) | N::ZExt(a, _) | N::SExt(a, _) | N::Extract(a, _, _) => self.support(a),
            N::Bin(_, a, b) | N::Cmp(_, a, b) | N::Concat(a, b) => {
                let x = self.support(a);
                let y = self.support(b);
                un(&x, &y)
            }
            N::Ite(c, a, b) => {
                let x = self.support(a);
                let y = self.support(b);
                let z = self.support(c);
                let t = un(&x, &y);
                un(&t, &z)
            }
        };
        self.vars[e as usize] = Some(r.clone());
        r
    }

    pub fn eval(&mut self, e: E, model: &Rc<Vec<u8>>) -> u128 {
        if let N::Const(_, v) = self.n[e as usize] {
            return v;
        }
        let same = match &self.cur_model {
            Some(m) => Rc::ptr_eq(m, model),
            None => false,
        };
        if !same {
            self.cur += 1;
            self.cur_model = Some(model.clone());
        }
        self.ev(e)
    }
    fn ev(&mut self, e: E) -> u128 {
        let i = e as usize;
        if self.stamp[i] == self.cur {
            return self.memo[i];
        }
        let w = self.w[i];
        let v = match self.n[i] {
            N::Const(_, v) => v,
            N::Var(k) => {
                let m = self.cur_model.as_ref().unwrap();
                m.get(k as usize).copied().unwrap_or(0) as u128
            }
            N::Bin(op, a, b) => {
                let x = self.ev(a);
                let y = self.ev(b);
                Self::binop(op, w, x, y)
            }
            N::Cmp(op, a, b) => {
                let x = self.ev(a);
                let y = self.ev(b);
                Self::cmpop(op, self.w[a as usize], x, y) as u128
            }
            N::Not(a) => !self.ev(a) & mask(w),
            N::ZExt(a, _) => self.ev(a),
            N::SExt(a, _) => sx(self.ev(a), self.w[a as usize]) as u128 & mask(w),
            N::Extract(a, lo, _) => (self.ev(a) >> lo) & mask(w),
            N::Concat(a, b) => (self.ev(a) << self.w[b as usize]) | self.ev(b),
            N::Ite(c, a, b) => {
                if self.ev(c) != 0 {
                    self.ev(a)
                } else {
                    self.ev(b)
                }
            }
        };
        self.stamp[i] = self.cur;
        self.memo[i] = v;
        v
    }
}

/// Ranges implied by the constraints of a path: a sound, incomplete filter in
/// front of the solver.
pub struct Facts {
    r: FxMap<E, (u128, u128)>,
    memo: FxMap<E, (u128, u128)>,
    bad: bool,
    budget: u32,
}
impl Arena {
    /// Least and greatest value of the only variable of `e` for which `e` holds.
    fn unary(&mut self, e: E) -> Option<(u32, u128, u128)> {
        if let Some(r) = self.unary.get(&e) {
            return *r;
        }
        let s = self.support(e);
        let n: u32 = s.iter().map(|x| x.count_ones()).sum();
        let mut r = None;
        if n == 1 {
            let i = s.iter().position(|x| *x != 0).unwrap();
            let v = i as u32 * 64 + s[i].trailing_zeros();
            let (mut lo, mut hi) = (256u128, 0u128);
            for x in 0..256u128 {
                let mut m = vec![0u8; v as usize + 1];
                m[v as usize] = x as u8;
                if self.eval(e, &Rc::new(m)) != 0 {
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
            }
            if lo <= hi {
                r = Some((v, lo, hi));
            }
        }
        self.unary.insert(e, r);
        r
    }
    fn clamp(&self, f: &mut Facts, e: E, lo: u128, hi: u128) {
        let (l, h) = f.r.get(&e).copied().unwrap_or((self.lo[e as usize], self.hi[e as usize]));
        let (l, h) = (l.max(lo), h.min(hi));
        if l > h {
            f.bad = true;
            return;
        }
        f.r.insert(e, (l, h));
        match self.n[e as usize] {
            N::ZExt(a, _) => self.clamp(f, a, l, h),
            N::Bin(B::Add, a, b) => {
                // a + c in [l, h] without wrap
                if let Some(c) = self.k(b) {
                    if self.hi[a as usize].checked_add(c).map_or(false, |x| x <= mask(self.w[e as usize])) && h >= c {
                        self.clamp(f, a, l.saturating_sub(c), h - c);
                    }
                }
            }
            _ => {}
        }
    }
    fn learn(&mut self, f: &mut Facts, e: E, pos: bool) {
        match self.n[e as usize] {
            N::Not(a) => self.learn(f, a, !pos),
            N::Bin(B::And, a, b) if pos => {
                self.learn(f, a, true);
                self.learn(f, b, true);
            }
            N::Bin(B::Or, a, b) if !pos => {
                self.learn(f, a, false);
                self.learn(f, b, false);
            }
            N::Cmp(op, a, b) => {
                let (la, ha) = self.prange(f, a, 0);
                let (lb, hb) = self.prange(f, b, 0);
                let (op, a, b, la, ha, lb, hb) = match (op, pos) {
                    (C::Eq, true) => {
                        self.clamp(f, a, lb, hb);
                        self.clamp(f, b, la, ha);
                        return;
                    }
                    (C::Eq, false) => {
                        if lb == hb {
                            if la == lb {
                                self.clamp(f, a, la.saturating_add(1), u128::MAX);
                            } else if ha == lb {
                                self.clamp(f, a, 0, ha - 1);
                            }
                        } else if la == ha {
                            if lb == la {
                                self.clamp(f, b, lb.saturating_add(1), u128::MAX);
                            } else if hb == la {
                                self.clamp(f, b, 0, hb - 1);
                            }
                        }
                        return;
                    }
                    (o, true) => (o, a, b, la, ha, lb, hb),
                    (C::Ult, false) => (C::Ule, b, a, lb, hb, la, ha),
                    (C::Ule, false) => (C::Ult, b, a, lb, hb, la, ha),
                    _ => return,
                };
                match op {
                    C::Ult => {
                        if hb == 0 {
                            f.bad = true;
                            return;
                        }
                        self.clamp(f, a, 0, hb - 1);
                        self.clamp(f, b, la.saturating_add(1), u128::MAX);
                    }
                    C::Ule => {
                        self.clamp(f, a, 0, hb);
                        self.clamp(f, b, la, u128::MAX);
                    }
                    _ => {}
                }
                let _ = (ha, lb);
            }
            _ => {}
        }
    }
    fn prange(&mut self, f: &mut Facts, e: E, depth: u32) -> (u128, u128) {
        if let Some(r) = f.memo.get(&e) {
            return *r;
        }
        let i = e as usize;
        let st = (self.lo[i], self.hi[i]);
        if st.0 == st.1 || f.budget == 0 || depth > 200 {
            return st;
        }
        f.budget -= 1;
        let w = self.w[i];
        let m = mask(w);
        let d = depth + 1;
        let r = match self.n[i] {
            N::ZExt(a, _) => self.prange(f, a, d),
            N::Not(a) => {
                let (l, h) = self.prange(f, a, d);
                (m - h, m - l)
            }
            N::Concat(a, b) => {
                let s = self.w[b as usize];
                let (la, ha) = self.prange(f, a, d);
                let (lb, hb) = self.prange(f, b, d);
                ((la << s) | lb, (ha << s) | hb)
            }
            N::Ite(c, a, b) => {
                let q = self.prange(f, c, d);
                let x = if q.1 == 0 { None } else { Some(self.prange(f, a, d)) };
                let y = if q.0 == 1 { None } else { Some(self.prange(f, b, d)) };
                match (x, y) {
                    (Some(x), Some(y)) => (x.0.min(y.0), x.1.max(y.1)),
                    (Some(x), None) => x,
                    (None, Some(y)) => y,
                    _ => st,
                }
            }
            N::Extract(a, 0, _) => {
                let (l, h) = self.prange(f, a, d);
                if h <= m {
                    (l, h)
                } else {
                    st
                }
            }
            N::Extract(a, s, _) => {
                let (l, h) = self.prange(f, a, d);
                if h >> s <= m {
                    (l >> s, h >> s)
                } else {
                    st
                }
            }
            N::Bin(op, a, b) => {
                let (la, ha) = self.prange(f, a, d);
                let (lb, hb) = self.prange(f, b, d);
                match op {
                    B::Add => match ha.checked_add(hb) {
                        Some(h) if h <= m => (la + lb, h),
                        _ => match la.checked_add(lb) {
                            // always wraps, exactly once
                            Some(l) if w < 128 && l > m && ha.checked_add(hb).map_or(false, |h| h <= 2 * m + 1) => {
                                (l - m - 1, ha + hb - m - 1)
                            }
                            _ => (0, m),
                        },
                    },
                    B::Sub if la >= hb => (la - hb, ha - lb),
                    B::Mul => match ha.checked_mul(hb) {
                        Some(h) if h <= m => (la * lb, h),
                        _ => (0, m),
                    },
                    B::And => (if w == 1 { la & lb } else { 0 }, ha.min(hb)),
                    B::Or => {
                        let h = ha | hb;
                        (la.max(lb), mask((128 - h.leading_zeros()) as u16))
                    }
                    B::Xor if la == ha && lb == hb => (la ^ lb, la ^ lb),
                    B::LShr if lb == hb && lb < 128 => (la >> lb, ha >> lb),
                    B::Shl if lb == hb && lb < 64 && ha < (1 << 64) && (ha << lb) <= m => (la << lb, ha << lb),
                    B::UDiv if lb > 0 => (la / hb, ha / lb),
                    B::URem if lb > 0 => {
                        if ha < lb {
                            (la, ha)
                        } else {
                            (0, hb - 1)
                        }
                    }
                    _ => (0, m),
                }
            }
            N::Cmp(op, a, b) => {
                let (la, ha) = self.prange(f, a, d);
                let (lb, hb) = self.prange(f, b, d);
                let half = mask(self.w[a as usize]) >> 1;
                let op = match op {
                    C::Slt if ha <= half && hb <= half => C::Ult,
                    C::Sle if ha <= half && hb <= half => C::Ule,
                    o => o,
                };
                match op {
                    C::Eq if la > hb || lb > ha => (0, 0),
                    C::Eq if la == ha && lb == hb && la == lb => (1, 1),
                    C::Ult if ha < lb => (1, 1),
                    C::Ult if la >= hb => (0, 0),
                    C::Ule if ha <= lb => (1, 1),
                    C::Ule if la > hb => (0, 0),
                    _ => (0, 1),
                }
            }
            _ => st,
        };
        let k = f.r.get(&e).copied().unwrap_or((0, m));
        let r = (r.0.max(st.0).max(k.0), r.1.min(st.1).min(k.1));
        if r.0 > r.1 {
            f.bad = true;
            return st;
        }
        f.memo.insert(e, r);
        r
    }
    /// True only if `cond` cannot hold together with `cons` (which can hold).
    pub fn implied_false(&mut self, cons: &[E], cond: E) -> bool {
        let mut f = Facts { r: Default::default(), memo: Default::default(), bad: false, budget: 4000 };
        for &c in cons {
            if let Some((v, lo, hi)) = self.unary(c) {
                let e = self.var(v);
                self.clamp(&mut f, e, lo, hi);
            }
        }
        for _ in 0..2 {
            for &c in cons {
                self.learn(&mut f, c, true);
            }
            f.memo.clear();
        }
        self.learn(&mut f, cond, true);
        f.memo.clear();
        if f.bad {
            return true;
        }
        self.prange(&mut f, cond, 0) == (0, 0) || f.bad
    }
}
