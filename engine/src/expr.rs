//! Hash-consed bit-vector expressions (per worker thread).
use crate::ir::mask;
use rustc_hash::FxHashMap;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct E(pub u32);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op { Const, Var, Not, Add, Sub, Mul, UDiv, URem, SDiv, SRem, And, Or, Xor, Shl, LShr, AShr, Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat }

#[derive(Clone, Copy)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u64,
    pub vars: u128,
    pub min: u64,
    pub max: u64,
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxHashMap<(Op, u8, u32, u32, u32, u64), E>,
    stamp: Vec<u32>,
    val: Vec<u64>,
    cur: u32,
}

const Z: E = E(0);

fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) }
}

pub fn fold(op: Op, w: u32, wa: u32, a: u64, b: u64) -> u64 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { m } else { x.wrapping_div(y) as u64 & m } }
        Op::SRem => { let (x, y) = (sx(a, w), sx(b, w)); if y == 0 { a } else { x.wrapping_rem(y) as u64 & m } }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u64 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u64 { 0 } else { a >> b },
        Op::AShr => (sx(a, w) >> b.min(w as u64 - 1)) as u64 & m,
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u64,
        Op::Sle => (sx(a, wa) <= sx(b, wa)) as u64,
        _ => unreachable!(),
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { n: vec![], map: FxHashMap::default(), stamp: vec![], val: vec![], cur: 0 };
        a.mk(Op::Const, 1, Z, Z, Z, 0);
        a.mk(Op::Const, 1, Z, Z, Z, 1);
        a
    }
    #[inline]
    pub fn w(&self, e: E) -> u32 {
        self.n[e.0 as usize].w as u32
    }
    #[inline]
    pub fn nd(&self, e: E) -> &Node {
        &self.n[e.0 as usize]
    }
    #[inline]
    pub fn vars(&self, e: E) -> u128 {
        self.n[e.0 as usize].vars
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u64> {
        let n = &self.n[e.0 as usize];
        if n.op == Op::Const { Some(n.k) } else { None }
    }
    fn mk(&mut self, op: Op, w: u32, a: E, b: E, c: E, k: u64) -> E {
        let key = (op, w as u8, a.0, b.0, c.0, k);
        if let Some(e) = self.map.get(&key) {
            return *e;
        }
        let m = mask(w);
        let (mut vars, mut min, mut max) = (0u128, 0u64, m);
        match op {
            Op::Const => { min = k; max = k; }
            Op::Var => vars = 1u128 << k,
            _ => {
                let na = self.n[a.0 as usize];
                vars |= na.vars;
                let two = !matches!(op, Op::Not | Op::ZExt | Op::SExt | Op::Extract);
                let nb = if two { self.n[b.0 as usize] } else { na };
                if two { vars |= nb.vars }
                match op {
                    Op::Ite => {
                        let nc = self.n[c.0 as usize];
                        vars |= nc.vars;
                        min = nb.min.min(nc.min);
                        max = nb.max.max(nc.max);
                    }
                    Op::ZExt => { min = na.min; max = na.max; }
                    Op::Extract => { if k == 0 && na.max <= m { min = na.min; max = na.max } else if k > 0 { let h = na.max >> k; if h <= m { max = h; min = if na.w as u64 == k + w as u64 { na.min >> k } else { 0 } } } }
                    Op::And => max = na.max.min(nb.max),
                    Op::Or | Op::Xor => { let t = na.max | nb.max; max = if t == 0 { 0 } else { mask(64 - t.leading_zeros()) }; if op == Op::Or { min = na.min.max(nb.min) } }
                    Op::Add => if let Some(s) = na.max.checked_add(nb.max) { if s <= m { max = s; min = na.min + nb.min } },
                    Op::Mul => if let Some(s) = na.max.checked_mul(nb.max) { if s <= m { max = s; min = na.min * nb.min } },
                    Op::LShr => if nb.op == Op::Const && nb.k < 64 { max = na.max >> nb.k; min = na.min >> nb.k },
                    Op::Shl => if nb.op == Op::Const && nb.k < w as u64 { if na.max.leading_zeros() as u64 >= nb.k && (na.max << nb.k) <= m { max = na.max << nb.k; min = na.min << nb.k } },
                    Op::UDiv => if nb.op == Op::Const && nb.k > 0 { max = na.max / nb.k; min = na.min / nb.k },
                    Op::URem => if nb.op == Op::Const && nb.k > 0 { max = (nb.k - 1).min(na.max) },
                    Op::Concat => { max = (na.max << nb.w) | nb.max; min = (na.min << nb.w) | nb.min }
                    _ => {}
                }
            }
        }
        let e = E(self.n.len() as u32);
        self.n.push(Node { op, w: w as u8, a, b, c, k, vars, min, max });
        self.map.insert(key, e);
        e
    }
    pub fn konst(&mut self, v: u64, w: u32) -> E {
        self.mk(Op::Const, w, Z, Z, Z, v & mask(w))
    }
    pub fn var(&mut self, id: u32) -> E {
        self.mk(Op::Var, 8, Z, Z, Z, id as u64)
    }
    pub fn not(&mut self, a: E) -> E {
        let n = *self.nd(a);
        match n.op {
            Op::Const => self.konst(1 ^ n.k, 1),
            Op::Not => n.a,
            Op::Ult => self.bin(Op::Ule, n.b, n.a),
            Op::Ule => self.bin(Op::Ult, n.b, n.a),
            Op::Slt => self.bin(Op::Sle, n.b, n.a),
            Op::Sle => self.bin(Op::Slt, n.b, n.a),
            _ => self.mk(Op::Not, 1, a, Z, Z, 0),
        }
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (na, nb) = (*self.nd(a), *self.nd(b));
        let wa = na.w as u32;
        debug_assert_eq!(na.w, nb.w, "{:?}", op);
        let cmp = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle);
        let w = if cmp { 1 } else { wa };
        if na.op == Op::Const && nb.op == Op::Const {
            let v = fold(op, w, wa, na.k, nb.k);
            return self.konst(v, w);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        if comm && na.op == Op::Const {
            return self.bin(op, b, a);
        }
        let m = mask(wa);
        let kb = if nb.op == Op::Const { Some(nb.k) } else { None };
        match op {
            Op::Add => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k.wrapping_add(k2), wa);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                }
                // (x + c) + y -> (x + y) + c
                if kb.is_none() {
                    if na.op == Op::Add && self.as_const(na.b).is_some() {
                        let s = self.bin(Op::Add, na.a, b);
                        return self.bin(Op::Add, s, na.b);
                    }
                    if nb.op == Op::Add && self.as_const(nb.b).is_some() {
                        let s = self.bin(Op::Add, a, nb.a);
                        return self.bin(Op::Add, s, nb.b);
                    }
                }
            }
            Op::Sub => {
                if a == b { return self.konst(0, wa); }
                if let Some(k) = kb {
                    let c = self.konst(k.wrapping_neg(), wa);
                    return self.bin(Op::Add, a, c);
                }
                if nb.op == Op::Add && nb.a == a && self.as_const(nb.b).is_some() {
                    let k = self.as_const(nb.b).unwrap();
                    return self.konst(k.wrapping_neg(), wa);
                }
                if na.op == Op::Add && na.a == b && self.as_const(na.b).is_some() {
                    return na.b;
                }
            }
            Op::Mul => {
                if kb == Some(0) { return b; }
                if kb == Some(1) { return a; }
            }
            Op::And => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return b; }
                    if k == m { return a; }
                    // low mask covering the value
                    if k & k.wrapping_add(1) == 0 && na.max <= k { return a; }
                    if na.op == Op::And {
                        if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k & k2, wa);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        let c = self.konst(k & mask(iw), iw);
                        let x = self.bin(Op::And, na.a, c);
                        return self.zext(x, wa);
                    }
                }
                if wa == 1 {
                    if self.n[a.0 as usize].op == Op::Not && na.a == b { return self.konst(0, 1); }
                    if nb.op == Op::Not && nb.a == a { return self.konst(0, 1); }
                    if na.op == Op::And && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return b; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return a; }
                }
            }
            Op::Or => {
                if a == b { return a; }
                if let Some(k) = kb {
                    if k == 0 { return a; }
                    if k == m { return b; }
                }
                if wa == 1 {
                    if na.op == Op::Not && na.a == b { return self.konst(1, 1); }
                    if nb.op == Op::Not && nb.a == a { return self.konst(1, 1); }
                    if na.op == Op::Or && (na.a == b || na.b == b) { return a; }
                    if nb.op == Op::Or && (nb.a == a || nb.b == a) { return b; }
                    if na.op == Op::And && (na.a == b || na.b == b) { return b; }
                    if nb.op == Op::And && (nb.a == a || nb.b == a) { return a; }
                } 
            }
            Op::Xor => {
                if a == b { return self.konst(0, wa); }
                if kb == Some(0) { return a; }
                if wa == 1 && kb == Some(1) { return self.not(a); }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) { return a; }
                if let Some(k) = kb {
                    if k >= wa as u64 && op != Op::AShr { return self.konst(0, wa); }
                    if op == Op::LShr && na.max >> k == 0 { return self.konst(0, wa); }
                    if op == Op::LShr && na.op == Op::ZExt && k < self.w(na.a) as u64 {
                        let iw = self.w(na.a);
                        let c = self.konst(k, iw);
                        let x = self.bin(Op::LShr, na.a, c);
                        return self.zext(x, wa);
                    }
                }
            }
            Op::UDiv => if kb == Some(1) { return a; },
            Op::Eq => {
                if a == b { return self.konst(1, 1); }
                if wa == 1 {
                    if kb == Some(1) { return a; }
                    if kb == Some(0) { return self.not(a); }
                }
                if let Some(k) = kb {
                    if k < na.min || k > na.max { return self.konst(0, 1); }
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let c = self.konst(k, iw);
                            return self.bin(Op::Eq, na.a, c);
                        }
                        Op::Add => if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k.wrapping_sub(k2), wa);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Xor => if let Some(k2) = self.as_const(na.b) {
                            let c = self.konst(k ^ k2, wa);
                            return self.bin(Op::Eq, na.a, c);
                        },
                        Op::Sub => if k == 0 { return self.bin(Op::Eq, na.a, na.b); },
                        Op::Ite => {
                            let (x, y) = (self.as_const(na.b), self.as_const(na.c));
                            if x.is_some() || y.is_some() {
                                let l = self.bin(Op::Eq, na.b, b);
                                let r = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, l, r);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = self.konst(0, wa);
                            let l = self.bin(Op::Eq, na.a, z);
                            let r = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, l, r);
                        }
                        Op::Concat => {
                            let (wh, wl) = (self.w(na.a), self.w(na.b));
                            let ch = self.konst(k >> wl, wh);
                            let cl = self.konst(k & mask(wl), wl);
                            let l = self.bin(Op::Eq, na.b, cl);
                            let h = self.bin(Op::Eq, na.a, ch);
                            return self.bin(Op::And, h, l);
                        }
                        Op::Shl => if let Some(s) = self.as_const(na.b) {
                            // no bits lost -> invert
                            if self.nd(na.a).max.leading_zeros() as u64 >= s + (64 - wa as u64) {
                                if k & mask(s as u32) != 0 { return self.konst(0, 1); }
                                let c = self.konst(k >> s, wa);
                                return self.bin(Op::Eq, na.a, c);
                            }
                        },
                        _ => {}
                    }
                }
            }
            Op::Ult | Op::Ule => {
                if a == b { return self.konst((op == Op::Ule) as u64, 1); }
                if op == Op::Ult {
                    if na.max < nb.min { return self.konst(1, 1); }
                    if na.min >= nb.max { return self.konst(0, 1); }
                } else {
                    if na.max <= nb.min { return self.konst(1, 1); }
                    if na.min > nb.max { return self.konst(0, 1); }
                }
                if na.op == Op::ZExt && kb.is_some() {
                    let iw = self.w(na.a);
                    let c = self.konst(kb.unwrap(), iw); // fits: bounds handled above
                    return self.bin(op, na.a, c);
                }
                if nb.op == Op::ZExt && na.op == Op::Const {
                    let iw = self.w(nb.a);
                    let c = self.konst(na.k, iw);
                    return self.bin(op, c, nb.a);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(op, na.a, nb.a);
                }
                if na.op == Op::Ite && kb.is_some() && (self.as_const(na.b).is_some() || self.as_const(na.c).is_some()) {
                    let l = self.bin(op, na.b, b);
                    let r = self.bin(op, na.c, b);
                    return self.ite(na.a, l, r);
                }
                if nb.op == Op::Ite && na.op == Op::Const && (self.as_const(nb.b).is_some() || self.as_const(nb.c).is_some()) {
                    let l = self.bin(op, a, nb.b);
                    let r = self.bin(op, a, nb.c);
                    return self.ite(nb.a, l, r);
                }
                // x <u 1  -> x == 0 ; 0 <u x -> x != 0
                if op == Op::Ult && kb == Some(1) {
                    let z = self.konst(0, wa);
                    return self.bin(Op::Eq, a, z);
                }
                if op == Op::Ult && na.op == Op::Const && na.k == 0 {
                    let e = self.bin(Op::Eq, b, a);
                    return self.not(e);
                }
                // normalise: x <= c  ->  x < c+1 ; c <= x -> not (x < c); c < x -> not (x < c+1)
                if op == Op::Ule {
                    if let Some(k) = kb {
                        if k < m { let c = self.konst(k + 1, wa); return self.bin(Op::Ult, a, c); }
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b { return self.konst((op == Op::Sle) as u64, 1); }
                // both non-negative -> unsigned
                let half = 1u64 << (wa - 1);
                if na.max < half && nb.max < half {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if na.max < half && nb.op == Op::Const && nb.k >= half { return self.konst(0, 1); }
                if nb.max < half && na.op == Op::Const && na.k >= half { return self.konst(1, 1); }
            }
            _ => {}
        }
        self.mk(op, w, a, b, Z, 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = *self.nd(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        if self.w(a) == 1 {
            let (ka, kb) = (self.as_const(a), self.as_const(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => { let n = self.not(c); return self.bin(Op::And, n, b); }
                (None, Some(1)) => { let n = self.not(c); return self.bin(Op::Or, n, a); }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        let w = self.w(a);
        // ite(c, ite(c,x,_), y)
        let na = *self.nd(a);
        if na.op == Op::Ite && na.a == c { return self.ite(c, na.b, b); }
        let nb = *self.nd(b);
        if nb.op == Op::Ite && nb.a == c { return self.ite(c, a, nb.c); }
        self.mk(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let n = *self.nd(a);
        if n.w as u32 == w { return a; }
        match n.op {
            Op::Const => self.konst(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            Op::Ite if self.as_const(n.b).is_some() && self.as_const(n.c).is_some() => {
                let x = self.zext(n.b, w);
                let y = self.zext(n.c, w);
                self.ite(n.a, x, y)
            }
            _ => self.mk(Op::ZExt, w, a, Z, Z, 0),
        }
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let n = *self.nd(a);
        if n.w as u32 == w { return a; }
        if n.op == Op::Const {
            return self.konst(sx(n.k, n.w as u32) as u64, w);
        }
        if n.w > 1 && n.max < 1u64 << (n.w - 1) { return self.zext(a, w); }
        if n.w == 1 {
            let t = self.konst(!0, w);
            let f = self.konst(0, w);
            return self.ite(a, t, f);
        }
        self.mk(Op::SExt, w, a, Z, Z, 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let n = *self.nd(a);
        let aw = n.w as u32;
        if lo == 0 && w == aw { return a; }
        if lo >= 64 || (n.max >> lo) == 0 { return self.konst(0, w); }
        match n.op {
            Op::Const => return self.konst(n.k >> lo, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw { return self.konst(0, w); }
                if lo + w <= iw { return self.extract(n.a, lo, w); }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => { let iw = self.w(n.a); if lo + w <= iw { return self.extract(n.a, lo, w); } }
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let wl = self.w(n.b);
                if lo >= wl { return self.extract(n.a, lo - wl, w); }
                if lo + w <= wl { return self.extract(n.b, lo, w); }
                let h = self.extract(n.a, 0, lo + w - wl);
                let l = self.extract(n.b, lo, wl - lo);
                return self.concat(h, l);
            }
            Op::LShr => if let Some(k) = self.as_const(n.b) {
                if lo as u64 + k + w as u64 <= aw as u64 { return self.extract(n.a, lo + k as u32, w); }
            },
            Op::Shl => if let Some(k) = self.as_const(n.b) {
                if lo as u64 >= k { return self.extract(n.a, lo - k as u32, w); }
                if (lo + w) as u64 <= k { return self.konst(0, w); }
            },
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite if self.as_const(n.b).is_some() || self.as_const(n.c).is_some() => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && (w == 8 || w == 16 || w == 32) => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.mk(Op::Extract, w, a, Z, Z, lo as u64)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (nh, nl) = (*self.nd(h), *self.nd(l));
        let w = nh.w as u32 + nl.w as u32;
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.konst((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 { return self.zext(l, w); }
        // adjacent extracts
        let (hs, hlo) = if nh.op == Op::Extract { (nh.a, nh.k as u32) } else { (h, 0) };
        let (ls, llo) = if nl.op == Op::Extract { (nl.a, nl.k as u32) } else { (l, 0) };
        if hs == ls && llo + nl.w as u32 == hlo {
            return self.extract(hs, llo, w);
        }
        // low part is a zext whose source continues? concat(extract(x,8..),x[0..8]) handled; concat(h, concat(..))
        if nl.op == Op::Concat {
            // right assoc: try to merge h with nl.a
            let nla = *self.nd(nl.a);
            let (s2, lo2) = if nla.op == Op::Extract { (nla.a, nla.k as u32) } else { (nl.a, 0) };
            if hs == s2 && lo2 + nla.w as u32 == hlo {
                let m = self.extract(hs, lo2, nh.w as u32 + nla.w as u32);
                return self.concat(m, nl.b);
            }
        }
        self.mk(Op::Concat, w, h, l, Z, 0)
    }

    pub fn eval(&mut self, e: E, model: &[u8]) -> u64 {
        self.cur = self.cur.wrapping_add(1);
        if self.cur == 0 {
            self.stamp.iter_mut().for_each(|s| *s = 0);
            self.cur = 1;
        }
        if self.stamp.len() < self.n.len() {
            self.stamp.resize(self.n.len() + 1024, 0);
            self.val.resize(self.n.len() + 1024, 0);
        }
        self.ev(e, model)
    }
    fn ev(&mut self, e: E, m: &[u8]) -> u64 {
        let i = e.0 as usize;
        let n = self.n[i];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return m.get(n.k as usize).copied().unwrap_or(0) as u64,
            _ => {}
        }
        if self.stamp[i] == self.cur {
            return self.val[i];
        }
        let w = n.w as u32;
        let v = match n.op {
            Op::Not => 1 ^ self.ev(n.a, m),
            Op::ZExt => self.ev(n.a, m),
            Op::SExt => { let aw = self.w(n.a); sx(self.ev(n.a, m), aw) as u64 & mask(w) }
            Op::Extract => (self.ev(n.a, m) >> n.k) & mask(w),
            Op::Concat => { let l = self.w(n.b); (self.ev(n.a, m) << l) | self.ev(n.b, m) }
            Op::Ite => if self.ev(n.a, m) != 0 { self.ev(n.b, m) } else { self.ev(n.c, m) },
            op => { let a = self.ev(n.a, m); let b = self.ev(n.b, m); let wa = self.w(n.a); fold(op, w, wa, a, b) }
        };
        self.stamp[i] = self.cur;
        self.val[i] = v;
        v
    }

    /// canonical hash of a list of formulas, variables renamed in order of first occurrence
    pub fn canon(&mut self, es: &[E], order: &mut Vec<u8>, memo: &mut FxHashMap<u32, u128>) -> u128 {
        memo.clear();
        order.clear();
        let mut h: u128 = 0x9E3779B97F4A7C15F39CC0605CEDC835;
        for e in es {
            let x = self.ch(*e, order, memo);
            h = mix(h ^ x);
        }
        h
    }
    fn ch(&self, e: E, order: &mut Vec<u8>, memo: &mut FxHashMap<u32, u128>) -> u128 {
        if let Some(h) = memo.get(&e.0) {
            return *h;
        }
        let n = &self.n[e.0 as usize];
        let mut h: u128 = ((n.op as u128) << 8 | n.w as u128).wrapping_mul(0xD6E8FEB86659FD93_A5A5A5A5_12345677);
        match n.op {
            Op::Const => h = mix(h ^ n.k as u128),
            Op::Var => {
                let p = match order.iter().position(|v| *v as u64 == n.k) {
                    Some(p) => p,
                    None => { order.push(n.k as u8); order.len() - 1 }
                };
                h = mix(h ^ (p as u128 + 0x1000));
            }
            _ => {
                h = mix(h ^ n.k as u128);
                h = mix(h.rotate_left(17) ^ self.ch(n.a, order, memo));
                if !matches!(n.op, Op::Not | Op::ZExt | Op::SExt | Op::Extract) {
                    h = mix(h.rotate_left(29) ^ self.ch(n.b, order, memo));
                }
                if n.op == Op::Ite {
                    h = mix(h.rotate_left(43) ^ self.ch(n.c, order, memo));
                }
            }
        }
        memo.insert(e.0, h);
        h
    }
}

fn mix(mut x: u128) -> u128 {
    x ^= x >> 67;
    x = x.wrapping_mul(0x2360ED051FC65DA44385DF649FCCF645);
    x ^= x >> 59;
    x = x.wrapping_mul(0x9FB21C651E98DF25_E7037ED1A0B428DB);
    x ^ (x >> 64)
}
