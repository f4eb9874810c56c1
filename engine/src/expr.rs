//! Hash-consed bit-vector expressions (width 1..=128) with construction-time simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    #[inline]
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 29)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat, // a = high, b = low
    Extract, // k = low bit
    ZExt,
    SExt,
    FAdd,
    FSub,
    FMul,
    FDiv,
    UIToFP,
    SIToFP,
    FPToUISat,
    FPToSISat,
    FPTrunc,
    FPExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: E,
    pub b: E,
    pub c: E,
    pub k: u128,
}

pub const MASKW: usize = 16;
pub type Mask = [u64; MASKW];
pub fn mask_or(a: &Mask, b: &Mask) -> Mask {
    let mut r = *a;
    for i in 0..MASKW {
        r[i] |= b[i]
    }
    r
}
pub fn mask_hit(a: &Mask, b: &Mask) -> bool {
    (0..MASKW).any(|i| a[i] & b[i] != 0)
}
pub fn mask_sub(a: &Mask, b: &Mask) -> bool {
    // a subset of b
    (0..MASKW).all(|i| a[i] & !b[i] == 0)
}
pub fn mask_bits(a: &Mask) -> Vec<usize> {
    let mut v = vec![];
    for i in 0..MASKW {
        let mut x = a[i];
        while x != 0 {
            let t = x.trailing_zeros() as usize;
            v.push(i * 64 + t);
            x &= x - 1;
        }
    }
    v
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub mask: Vec<u32>,
    pub masks: Vec<Mask>,
    mask_ix: FxMap<Mask, u32>,
    ix: FxMap<Node, E>,
    memo: Vec<(u32, u128)>,
    stamp: u32,
    vars: Vec<Option<E>>,
}

#[inline]
pub fn m(w: u16) -> u128 {
    if w >= 128 {
        !0
    } else {
        (1u128 << w) - 1
    }
}
#[inline]
pub fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena {
            nodes: vec![],
            mask: vec![],
            masks: vec![[0; MASKW]],
            mask_ix: FxMap::default(),
            ix: FxMap::default(),
            memo: vec![],
            stamp: 0,
            vars: vec![],
        };
        a.mask_ix.insert([0; MASKW], 0);
        a
    }
    fn imask(&mut self, mk: Mask) -> u32 {
        if let Some(&x) = self.mask_ix.get(&mk) {
            return x;
        }
        let id = self.masks.len() as u32;
        self.masks.push(mk);
        self.mask_ix.insert(mk, id);
        id
    }
    /// The node of variable `i`, if it has only one.
    pub fn var_at(&self, i: usize) -> Option<E> {
        self.vars.get(i).copied().flatten().filter(|&e| e != E::MAX)
    }
    pub fn emask(&self, e: E) -> &Mask {
        &self.masks[self.mask[e as usize] as usize]
    }
    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.ix.get(&n) {
            return e;
        }
        let id = self.nodes.len() as E;
        let mk = match n.op {
            Op::Const => 0,
            Op::Var => {
                let i = n.k as usize;
                assert!(i < MASKW * 64, "too many symbolic variables");
                if self.vars.len() <= i {
                    self.vars.resize(i + 1, None);
                }
                // a variable seen at two widths counts as none
                self.vars[i] = if self.vars[i].is_none() { Some(id) } else { Some(E::MAX) };
                let mut mk = [0; MASKW];
                mk[i / 64] |= 1 << (i % 64);
                self.imask(mk)
            }
            _ => {
                let ar = arity(n.op);
                let mut mk = self.mask[n.a as usize];
                if ar > 1 {
                    let mb = self.mask[n.b as usize];
                    if mb != mk {
                        let x = mask_or(&self.masks[mk as usize], &self.masks[mb as usize]);
                        mk = self.imask(x);
                    }
                }
                if ar > 2 {
                    let mb = self.mask[n.c as usize];
                    if mb != mk {
                        let x = mask_or(&self.masks[mk as usize], &self.masks[mb as usize]);
                        mk = self.imask(x);
                    }
                }
                mk
            }
        };
        self.nodes.push(n);
        self.mask.push(mk);
        self.memo.push((0, 0));
        self.ix.insert(n, id);
        id
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn as_const(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn c(&mut self, k: u128, w: u16) -> E {
        self.mk(Node { op: Op::Const, w, a: 0, b: 0, c: 0, k: k & m(w) })
    }
    pub fn var(&mut self, idx: u32, w: u16) -> E {
        self.mk(Node { op: Op::Var, w, a: 0, b: 0, c: 0, k: idx as u128 })
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        let o = self.c(m(w), w);
        self.bin(Op::Xor, a, o)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), _) => return self.bin(Op::Or, c, b),
                (Some(0), _) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (_, Some(0)) => return self.bin(Op::And, c, a),
                (_, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        }
        // not(c) condition: swap
        let cn = self.n(c);
        if cn.op == Op::Xor && self.as_const(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        let bn = self.n(b);
        if bn.op == Op::Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        if bn.op == Op::Ite && bn.b == a {
            let o = self.bin(Op::Or, c, bn.a);
            return self.ite(o, a, bn.c);
        }
        let an = self.n(a);
        if an.op == Op::Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        if an.op == Op::Ite && an.c == b {
            let o = self.bin(Op::And, c, an.a);
            return self.ite(o, an.b, b);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: a, c: b, k: 0 })
    }
    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        if lo == 0 && w == n.w {
            return a;
        }
        match n.op {
            Op::Const => return self.c(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, n.k as u16 + lo, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.c(0, w);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Shl => {
                if let Some(s) = self.as_const(n.b) {
                    let s = s as u16;
                    if lo >= s && s < n.w {
                        return self.extract(n.a, lo - s, w);
                    }
                    if lo + w <= s {
                        return self.c(0, w);
                    }
                }
            }
            Op::LShr => {
                if let Some(s) = self.as_const(n.b) {
                    if (s as u32) + (lo as u32) + (w as u32) <= n.w as u32 {
                        return self.extract(n.a, lo + s as u16, w);
                    }
                }
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u128 })
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hn, ln) = (self.n(h), self.n(l));
        let w = hn.w + ln.w;
        assert!(w <= 128);
        if hn.op == Op::Const && ln.op == Op::Const {
            return self.c((hn.k << ln.w) | ln.k, w);
        }
        if hn.op == Op::Const && hn.k == 0 {
            return self.zext(l, w);
        }
        if hn.op == Op::Extract && ln.op == Op::Extract && hn.a == ln.a && hn.k == ln.k + ln.w as u128 {
            return self.extract(hn.a, ln.k as u16, w);
        }
        // h ++ (h2 ++ l2) where h,h2 are adjacent extracts
        if ln.op == Op::Concat {
            let h2 = self.n(ln.a);
            if hn.op == Op::Extract && h2.op == Op::Extract && hn.a == h2.a && hn.k == h2.k + h2.w as u128 {
                let x = self.extract(hn.a, h2.k as u16, hn.w + h2.w);
                return self.concat(x, ln.b);
            }
        }
        self.mk(Node { op: Op::Concat, w, a: h, b: l, c: 0, k: 0 })
    }
    pub fn zext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(n.k, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::ZExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let n = self.n(a);
        if n.w == w {
            return a;
        }
        match n.op {
            Op::Const => self.c(sx(n.k, n.w) as u128, w),
            Op::SExt => self.sext(n.a, w),
            Op::ZExt => self.zext(n.a, w),
            _ => self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 }),
        }
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }
    pub fn fun1(&mut self, op: Op, a: E, w: u16) -> E {
        if let Some(k) = self.as_const(a) {
            let r = eval_op(op, w, self.w(a), k, 0, 0, 0);
            return self.c(r, w);
        }
        self.mk(Node { op, w, a, b: 0, c: 0, k: 0 })
    }
    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let (an, bn) = (self.n(a), self.n(b));
        let w = an.w;
        debug_assert_eq!(an.w, bn.w, "{:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        let (ac, bc) = (an.op == Op::Const, bn.op == Op::Const);
        if ac && bc {
            let r = eval_op(op, rw, w, an.k, bn.k, 0, 0);
            return self.c(r, rw);
        }
        // commutative: constant to the right
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ac || (!bc && a > b)) {
            return self.bin(op, b, a);
        }
        let ones = m(w);
        match op {
            Op::Add => {
                if bc && bn.k == 0 {
                    return a;
                }
                if bc && an.op == Op::Add {
                    if let Some(k) = self.as_const(an.b) {
                        let c = self.c(k.wrapping_add(bn.k), w);
                        return self.bin(Op::Add, an.a, c);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.c(0, w);
                }
                if bc {
                    let c = self.c(bn.k.wrapping_neg(), w);
                    return self.bin(Op::Add, a, c);
                }
            }
            Op::Mul => {
                if bc && bn.k == 0 {
                    return b;
                }
                if bc && bn.k == 1 {
                    return a;
                }
                if bc && bn.k.is_power_of_two() {
                    let c = self.c(bn.k.trailing_zeros() as u128, w);
                    return self.bin(Op::Shl, a, c);
                }
            }
            Op::UDiv => {
                if bc && bn.k == 1 {
                    return a;
                }
                if bc && bn.k.is_power_of_two() {
                    let c = self.c(bn.k.trailing_zeros() as u128, w);
                    return self.bin(Op::LShr, a, c);
                }
            }
            Op::URem => {
                if bc && bn.k.is_power_of_two() {
                    let c = self.c(bn.k - 1, w);
                    return self.bin(Op::And, a, c);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if bc && bn.k == 0 {
                    return b;
                }
                if bc && bn.k == ones {
                    return a;
                }
                if bc && an.op == Op::And {
                    if let Some(k) = self.as_const(an.b) {
                        let c = self.c(k & bn.k, w);
                        return self.bin(Op::And, an.a, c);
                    }
                }
                if bc && an.op == Op::ZExt {
                    let iw = self.w(an.a);
                    let x = self.c(bn.k, iw);
                    let y = self.bin(Op::And, an.a, x);
                    return self.zext(y, w);
                }
                if bc && (bn.k + 1).is_power_of_two() {
                    let lw = (bn.k + 1).trailing_zeros() as u16;
                    let x = self.extract(a, 0, lw);
                    return self.zext(x, w);
                }
                if w == 1 {
                    // x & !x
                    if self.is_not_of(a, b) {
                        return self.c(0, 1);
                    }
                    // x & (x & y)
                    if bn.op == Op::And && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == Op::And && (an.a == b || an.b == b) {
                        return a;
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if bc && bn.k == 0 {
                    return a;
                }
                if bc && bn.k == ones {
                    return b;
                }
                if w == 1 {
                    if self.is_not_of(a, b) {
                        return self.c(1, 1);
                    }
                    if bn.op == Op::Or && (bn.a == a || bn.b == a) {
                        return b;
                    }
                    if an.op == Op::Or && (an.a == b || an.b == b) {
                        return a;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.c(0, w);
                }
                if bc && bn.k == 0 {
                    return a;
                }
                if bc && an.op == Op::Xor {
                    if let Some(k) = self.as_const(an.b) {
                        let c = self.c(k ^ bn.k, w);
                        return self.bin(Op::Xor, an.a, c);
                    }
                }
                if w == 1 && bc {
                    match an.op {
                        Op::Ult => return self.bin(Op::Ule, an.b, an.a),
                        Op::Ule => return self.bin(Op::Ult, an.b, an.a),
                        Op::Slt => return self.bin(Op::Sle, an.b, an.a),
                        Op::Sle => return self.bin(Op::Slt, an.b, an.a),
                        _ => {}
                    }
                }
                if bc && an.op == Op::ZExt && bn.k <= m(self.w(an.a)) {
                    let iw = self.w(an.a);
                    let x = self.c(bn.k, iw);
                    let y = self.bin(Op::Xor, an.a, x);
                    return self.zext(y, w);
                }
            }
            Op::Shl => {
                if bc {
                    if bn.k == 0 {
                        return a;
                    }
                    if bn.k >= w as u128 {
                        return self.c(0, w);
                    }
                    let s = bn.k as u16;
                    let x = self.extract(a, 0, w - s);
                    let z = self.c(0, s);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if bc {
                    if bn.k == 0 {
                        return a;
                    }
                    if bn.k >= w as u128 {
                        return self.c(0, w);
                    }
                    let s = bn.k as u16;
                    let x = self.extract(a, s, w - s);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if bc {
                    if bn.k == 0 {
                        return a;
                    }
                    let s = (bn.k.min(w as u128 - 1)) as u16;
                    let x = self.extract(a, s, w - s);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.c(1, 1);
                }
                if w == 1 && bc {
                    return if bn.k == 1 { a } else { self.not(a) };
                }
                if bc {
                    match an.op {
                        Op::ZExt => {
                            let iw = self.w(an.a);
                            if bn.k > m(iw) {
                                return self.c(0, 1);
                            }
                            let x = self.c(bn.k, iw);
                            return self.eq(an.a, x);
                        }
                        Op::SExt => {
                            let iw = self.w(an.a);
                            let t = bn.k & m(iw);
                            if (sx(t, iw) as u128) & ones != bn.k {
                                return self.c(0, 1);
                            }
                            let x = self.c(t, iw);
                            return self.eq(an.a, x);
                        }
                        Op::Concat => {
                            let lw = self.w(an.b);
                            let l = self.c(bn.k, lw);
                            let h = self.c(bn.k >> lw, w - lw);
                            let x = self.eq(an.b, l);
                            let y = self.eq(an.a, h);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Ite => {
                            let (p, q) = (self.n(an.b), self.n(an.c));
                            if p.op == Op::Const || q.op == Op::Const || p.op == Op::Ite || q.op == Op::Ite {
                                if p.op == Op::Const || q.op == Op::Const {
                                    let x = self.eq(an.b, b);
                                    let y = self.eq(an.c, b);
                                    return self.ite(an.a, x, y);
                                }
                            }
                        }
                        Op::Add => {
                            if let Some(k) = self.as_const(an.b) {
                                let x = self.c(bn.k.wrapping_sub(k), w);
                                return self.eq(an.a, x);
                            }
                        }
                        Op::Xor => {
                            if let Some(k) = self.as_const(an.b) {
                                let x = self.c(bn.k ^ k, w);
                                return self.eq(an.a, x);
                            }
                        }
                        _ => {}
                    }
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.eq(an.a, bn.a);
                }
            }
            Op::Ult => {
                if a == b {
                    return self.c(0, 1);
                }
                if bc && bn.k == 0 {
                    return self.c(0, 1);
                }
                if bc && bn.k == 1 {
                    let z = self.c(0, w);
                    return self.eq(a, z);
                }
                if bc && an.op == Op::ZExt {
                    let iw = self.w(an.a);
                    if bn.k > m(iw) {
                        return self.c(1, 1);
                    }
                    let x = self.c(bn.k, iw);
                    return self.bin(Op::Ult, an.a, x);
                }
                if ac && bn.op == Op::ZExt {
                    let iw = self.w(bn.a);
                    if an.k >= m(iw) {
                        return self.c(0, 1);
                    }
                    let x = self.c(an.k, iw);
                    return self.bin(Op::Ult, x, bn.a);
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(Op::Ult, an.a, bn.a);
                }
                if ac && an.k == ones {
                    return self.c(0, 1);
                }
                if bc && an.op == Op::Ite && (self.as_const(an.b).is_some() || self.as_const(an.c).is_some()) {
                    let x = self.bin(op, an.b, b);
                    let y = self.bin(op, an.c, b);
                    return self.ite(an.a, x, y);
                }
            }
            Op::Ule => {
                if a == b {
                    return self.c(1, 1);
                }
                if ac && an.k == 0 {
                    return self.c(1, 1);
                }
                if bc && bn.k == ones {
                    return self.c(1, 1);
                }
                if bc {
                    let k1 = self.c(bn.k + 1, w);
                    return self.bin(Op::Ult, a, k1);
                }
                if ac {
                    let k1 = self.c(an.k - 1, w);
                    return self.bin(Op::Ult, k1, b);
                }
                if an.op == Op::ZExt && bn.op == Op::ZExt && self.w(an.a) == self.w(bn.a) {
                    return self.bin(Op::Ule, an.a, bn.a);
                }
            }
            Op::Slt => {
                if a == b {
                    return self.c(0, 1);
                }
                if bc && an.op == Op::ZExt && sx(bn.k, w) >= 0 {
                    return self.bin(Op::Ult, a, b);
                }
                if bc && an.op == Op::ZExt && sx(bn.k, w) < 0 {
                    return self.c(0, 1);
                }
                if ac && bn.op == Op::ZExt && sx(an.k, w) >= 0 {
                    return self.bin(Op::Ult, a, b);
                }
                if ac && bn.op == Op::ZExt && sx(an.k, w) < 0 {
                    return self.c(1, 1);
                }
                if bc && an.op == Op::Ite && (self.as_const(an.b).is_some() || self.as_const(an.c).is_some()) {
                    let x = self.bin(op, an.b, b);
                    let y = self.bin(op, an.c, b);
                    return self.ite(an.a, x, y);
                }
            }
            Op::Sle => {
                if a == b {
                    return self.c(1, 1);
                }
                if bc && an.op == Op::ZExt && sx(bn.k, w) >= 0 {
                    return self.bin(Op::Ule, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, k: 0 })
    }
    fn is_not_of(&self, a: E, b: E) -> bool {
        let (an, bn) = (self.n(a), self.n(b));
        (an.op == Op::Xor && an.a == b && self.as_const(an.b) == Some(1))
            || (bn.op == Op::Xor && bn.a == a && self.as_const(bn.b) == Some(1))
            || match (an.op, bn.op) {
                (Op::Ult, Op::Ule) | (Op::Ule, Op::Ult) | (Op::Slt, Op::Sle) | (Op::Sle, Op::Slt) => an.a == bn.b && an.b == bn.a,
                _ => false,
            }
    }

    /// Evaluate under an assignment of variables.
    pub fn new_eval(&mut self) {
        self.stamp += 1;
    }
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.stamp += 1;
        self.ev(e, model)
    }
    pub fn ev(&mut self, e: E, model: &[u64]) -> u128 {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return (model.get(n.k as usize).copied().unwrap_or(0) as u128) & m(n.w),
            _ => {}
        }
        let (s, v) = self.memo[e as usize];
        if s == self.stamp {
            return v;
        }
        let r = if n.op == Op::Ite {
            if self.ev(n.a, model) != 0 {
                self.ev(n.b, model)
            } else {
                self.ev(n.c, model)
            }
        } else {
            let ar = arity(n.op);
            let a = self.ev(n.a, model);
            let b = if ar > 1 { self.ev(n.b, model) } else { 0 };
            let bw = if n.op == Op::Concat { self.w(n.b) } else { 0 };
            eval_op(n.op, n.w, self.w(n.a), a, b, n.k, bw)
        };
        self.memo[e as usize] = (self.stamp, r);
        r
    }
}

pub fn arity(op: Op) -> usize {
    match op {
        Op::Const | Op::Var => 0,
        Op::Extract | Op::ZExt | Op::SExt | Op::UIToFP | Op::SIToFP | Op::FPToUISat | Op::FPToSISat | Op::FPTrunc | Op::FPExt => 1,
        Op::Ite => 3,
        _ => 2,
    }
}

/// `aw` is the width of operand a (operand width for comparisons), `bw` only for Concat.
pub fn eval_op(op: Op, w: u16, aw: u16, a: u128, b: u128, k: u128, bw: u16) -> u128 {
    let mm = m(w);
    let f = |x: u128| f64::from_bits(x as u64);
    let f32_ = |x: u128| f32::from_bits(x as u32);
    let fbin = |g: fn(f64, f64) -> f64, h: fn(f32, f32) -> f32| -> u128 {
        if w == 64 {
            g(f(a), f(b)).to_bits() as u128
        } else {
            h(f32_(a), f32_(b)).to_bits() as u128
        }
    };
    (match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => if b == 0 { mm } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sx(a, aw), sx(b, aw));
            if y == 0 { if x < 0 { 1 } else { mm } } else { x.wrapping_div(y) as u128 }
        }
        Op::SRem => {
            let (x, y) = (sx(a, aw), sx(b, aw));
            if y == 0 { a } else { x.wrapping_rem(y) as u128 }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => if b >= w as u128 { 0 } else { a << b },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = b.min(w as u128 - 1) as u32;
            (sx(a, aw) >> s) as u128
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sx(a, aw) < sx(b, aw)) as u128,
        Op::Sle => (sx(a, aw) <= sx(b, aw)) as u128,
        Op::Concat => (a << bw) | b,
        Op::Extract => a >> k,
        Op::ZExt => a,
        Op::SExt => sx(a, aw) as u128,
        Op::FAdd => fbin(|x, y| x + y, |x, y| x + y),
        Op::FSub => fbin(|x, y| x - y, |x, y| x - y),
        Op::FMul => fbin(|x, y| x * y, |x, y| x * y),
        Op::FDiv => fbin(|x, y| x / y, |x, y| x / y),
        Op::UIToFP => if w == 64 { (a as f64).to_bits() as u128 } else { (a as f32).to_bits() as u128 },
        Op::SIToFP => {
            let s = sx(a, aw);
            if w == 64 { (s as f64).to_bits() as u128 } else { (s as f32).to_bits() as u128 }
        }
        Op::FPToUISat => {
            let x = if aw == 64 { f(a) } else { f32_(a) as f64 };
            let r = x as u128;
            r.min(mm)
        }
        Op::FPToSISat => {
            let x = if aw == 64 { f(a) } else { f32_(a) as f64 };
            let r = x as i128;
            let hi = (mm >> 1) as i128;
            r.clamp(-hi - 1, hi) as u128
        }
        Op::FPTrunc => ((f(a) as f32).to_bits()) as u128,
        Op::FPExt => ((f32_(a) as f64).to_bits()) as u128,
        Op::Const | Op::Var | Op::Ite => unreachable!(),
    }) & mm
}
