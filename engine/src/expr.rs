//! Hash-consed bit-vector expressions over symbolic input bytes.
//!
//! Every node whose support is a single byte carries its full 256-entry value
//! table; such nodes are canonicalised by table, so semantically equal
//! single-byte expressions share one id.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default, Clone)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = 0u64;
            for (i, x) in c.iter().enumerate() {
                v |= (*x as u64) << (8 * i);
            }
            self.write_u64(v);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxB = BuildHasherDefault<Fx>;
pub type FxMap<K, V> = HashMap<K, V, FxB>;

pub type Id = u32; // 0 = none

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Var,
    Const,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    ZExt,
    SExt,
    Extract, // k = low bit
    Concat,  // a high, b low
    Lut,     // k = table index, a = index expr
}

#[derive(Clone)]
pub enum Tab {
    None,
    Bit([u64; 4]),
    B8(Box<[u8; 256]>),
    B32(Box<[u32; 256]>),
    B64(Box<[u64; 256]>),
}
impl Tab {
    pub fn get(&self, i: usize) -> u64 {
        match self {
            Tab::None => unreachable!(),
            Tab::Bit(b) => (b[i >> 6] >> (i & 63)) & 1,
            Tab::B8(t) => t[i] as u64,
            Tab::B32(t) => t[i] as u64,
            Tab::B64(t) => t[i],
        }
    }
    fn from(w: u8, t: &[u64; 256]) -> Tab {
        if w == 1 {
            let mut b = [0u64; 4];
            for i in 0..256 {
                b[i >> 6] |= (t[i] & 1) << (i & 63);
            }
            Tab::Bit(b)
        } else if w <= 8 {
            let mut b = Box::new([0u8; 256]);
            for i in 0..256 {
                b[i] = t[i] as u8;
            }
            Tab::B8(b)
        } else if w <= 32 {
            let mut b = Box::new([0u32; 256]);
            for i in 0..256 {
                b[i] = t[i] as u32;
            }
            Tab::B32(b)
        } else {
            Tab::B64(Box::new(*t))
        }
    }
}

#[derive(Clone)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u64,
    pub sup: u64,
    pub tab: Tab,
}

/// a node outside any store; operands are indexes into a list (u32::MAX: none)
#[derive(Clone)]
pub struct XNode {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}
#[derive(Default)]
pub struct Export {
    pub nodes: Vec<XNode>,
    pub luts: Vec<Vec<u64>>,
    memo: FxMap<Id, u32>,
}

pub struct LutT {
    pub vals: Vec<u64>,
}

pub struct Store {
    pub n: Vec<Node>,
    cons: FxMap<(Op, u8, Id, Id, Id, u64), Id>,
    canon: FxMap<(u64, u8, u64), Vec<Id>>,
    pub luts: Vec<LutT>,
    lutmap: FxMap<Vec<u64>, u32>,
}

pub fn mask(w: u8) -> u64 {
    if w >= 64 {
        !0
    } else {
        (1u64 << w) - 1
    }
}
pub fn sx(v: u64, w: u8) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w as u32;
        ((v << s) as i64) >> s
    }
}

pub fn eval_op(op: Op, w: u8, wa: u8, wb: u8, a: u64, b: u64, c: u64, k: u64) -> u64 {
    let r = match op {
        Op::Var | Op::Const => k,
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        Op::UDiv => {
            if b == 0 {
                !0
            } else {
                a / b
            }
        }
        Op::SDiv => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                if x >= 0 {
                    !0
                } else {
                    1
                }
            } else {
                x.wrapping_div(y) as u64
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SRem => {
            let (x, y) = (sx(a, w), sx(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u64
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u64 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u64 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = b.min(w as u64 - 1).min(63);
            (sx(a, w) >> s) as u64
        }
        Op::Eq => (a == b) as u64,
        Op::Ult => (a < b) as u64,
        Op::Ule => (a <= b) as u64,
        Op::Slt => (sx(a, wa) < sx(b, wa)) as u64,
        Op::Sle => (sx(a, wa) <= sx(b, wa)) as u64,
        Op::Ite => {
            if a != 0 {
                b
            } else {
                c
            }
        }
        Op::ZExt => a,
        Op::SExt => sx(a, wa) as u64,
        Op::Extract => a >> k,
        Op::Concat => (a << wb) | b,
        Op::Lut => unreachable!(),
    };
    r & mask(w)
}

impl Default for Store {
    fn default() -> Self {
        Self::new()
    }
}

impl Store {
    pub fn new() -> Store {
        Store {
            n: vec![Node { op: Op::Const, w: 0, a: 0, b: 0, c: 0, k: 0, sup: 0, tab: Tab::None }],
            cons: Default::default(),
            canon: Default::default(),
            luts: vec![],
            lutmap: Default::default(),
        }
    }
    #[inline]
    pub fn w(&self, e: Id) -> u8 {
        self.n[e as usize].w
    }
    #[inline]
    pub fn node(&self, e: Id) -> &Node {
        &self.n[e as usize]
    }
    pub fn as_const(&self, e: Id) -> Option<u64> {
        let n = &self.n[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    pub fn konst(&mut self, w: u8, v: u64) -> Id {
        self.mk_raw(Op::Const, w, 0, 0, 0, v & mask(w))
    }
    pub fn var(&mut self, idx: u32) -> Id {
        assert!(idx < 64, "too many symbolic bytes");
        self.mk_raw(Op::Var, 8, 0, 0, 0, idx as u64)
    }
    pub fn single(&self, e: Id) -> Option<u32> {
        let s = self.n[e as usize].sup;
        if s != 0 && s & (s - 1) == 0 {
            Some(s.trailing_zeros())
        } else {
            None
        }
    }
    fn mk_raw(&mut self, op: Op, w: u8, a: Id, b: Id, c: Id, k: u64) -> Id {
        let key = (op, w, a, b, c, k);
        if let Some(&i) = self.cons.get(&key) {
            return i;
        }
        let sup = match op {
            Op::Var => 1u64 << k,
            Op::Const => 0,
            _ => self.n[a as usize].sup | self.n[b as usize].sup | self.n[c as usize].sup,
        };
        let mut tab = Tab::None;
        if sup != 0 && sup & (sup - 1) == 0 {
            // single byte: compute table
            let mut t = [0u64; 256];
            if op == Op::Var {
                for (i, x) in t.iter_mut().enumerate() {
                    *x = i as u64;
                }
            } else if op == Op::Lut {
                let na = &self.n[a as usize];
                let l = &self.luts[k as usize].vals;
                for (i, x) in t.iter_mut().enumerate() {
                    let ix = na.tab.get(i) as usize;
                    *x = if ix < l.len() { l[ix] } else { 0 };
                }
            } else {
                let g = |n: &Node, i: usize| -> u64 {
                    if n.sup == 0 {
                        n.k
                    } else {
                        n.tab.get(i)
                    }
                };
                let (na, nb, nc) = (&self.n[a as usize], &self.n[b as usize], &self.n[c as usize]);
                let (wa, wb) = (na.w, nb.w);
                for (i, x) in t.iter_mut().enumerate() {
                    *x = eval_op(op, w, wa, wb, g(na, i), g(nb, i), g(nc, i), k);
                }
            }
            if op != Op::Var {
                if t.iter().all(|x| *x == t[0]) {
                    let r = self.konst(w, t[0]);
                    self.cons.insert(key, r);
                    return r;
                }
            }
            // canonicalise
            let mut h = Fx::default();
            for x in t.iter() {
                h.write_u64(*x);
            }
            let ck = (sup, w, h.finish());
            let tb = Tab::from(w, &t);
            if let Some(v) = self.canon.get(&ck) {
                for &cand in v {
                    let cn = &self.n[cand as usize];
                    if (0..256).all(|i| cn.tab.get(i) == t[i]) {
                        let r = cand;
                        self.cons.insert(key, r);
                        return r;
                    }
                }
            }
            let id = self.n.len() as Id;
            self.canon.entry(ck).or_default().push(id);
            tab = tb;
        }
        let id = self.n.len() as Id;
        self.n.push(Node { op, w, a, b, c, k, sup, tab });
        self.cons.insert(key, id);
        id
    }

    pub fn not(&mut self, a: Id) -> Id {
        let w = self.w(a);
        let m = self.konst(w, mask(w));
        self.bin(Op::Xor, a, m)
    }
    pub fn and1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: Id, b: Id) -> Id {
        self.bin(Op::Or, a, b)
    }

    /// binary op / comparison
    pub fn bin(&mut self, op: Op, mut a: Id, mut b: Id) -> Id {
        let wa = self.w(a);
        debug_assert_eq!(wa, self.w(b));
        let w = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => wa,
        };
        let (ca, cb) = (self.as_const(a), self.as_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let r = eval_op(op, w, wa, wa, x, y, 0, 0);
            return self.konst(w, r);
        }
        // both within a single byte: table canonicalisation does everything
        let sup = self.n[a as usize].sup | self.n[b as usize].sup;
        if sup & (sup - 1) == 0 {
            if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && ca.is_some() {
                std::mem::swap(&mut a, &mut b);
            }
            return self.mk_raw(op, w, a, b, 0, 0);
        }
        let (mut ca, mut cb) = (ca, cb);
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) && (ca.is_some() || (cb.is_none() && a > b)) {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ca, &mut cb);
        }
        let m = mask(wa);
        match op {
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) {
                    return a;
                }
                if let Some(k) = cb {
                    // low-bit mask
                    if k & (k + 1) == 0 {
                        let lw = k.trailing_ones() as u8;
                        let x = self.extract(a, 0, lw);
                        return self.zext(x, wa);
                    }
                    let na = self.n[a as usize].clone();
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            let kk = self.konst(iw, k);
                            let x = self.bin(Op::And, na.a, kk);
                            return self.zext(x, wa);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let hw = self.w(na.a);
                            let kl = self.konst(lw, k);
                            let kh = self.konst(hw, k >> lw);
                            let l = self.bin(Op::And, na.b, kl);
                            let h = self.bin(Op::And, na.a, kh);
                            return self.concat(h, l);
                        }
                        _ => {}
                    }
                }
                if wa == 1 {
                    // a & !a
                    let nb = self.not_raw(b);
                    if nb == Some(a) {
                        return self.konst(1, 0);
                    }
                }
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) {
                    return b;
                }
                // disjoint zext / shl -> concat
                if let Some(r) = self.or_concat(a, b, wa) {
                    return r;
                }
                if let Some(r) = self.or_concat(b, a, wa) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(wa, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                let na = self.n[a as usize].clone();
                if let Some(k) = cb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(wa, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if na.op == Op::Concat {
                        let lw = self.w(na.b);
                        let hw = self.w(na.a);
                        let kl = self.konst(lw, k);
                        let kh = self.konst(hw, k >> lw);
                        let l = self.bin(Op::Xor, na.b, kl);
                        let h = self.bin(Op::Xor, na.a, kh);
                        return self.concat(h, l);
                    }
                    if na.op == Op::ZExt && wa > 1 && k >> self.w(na.a) == 0 {
                        let iw = self.w(na.a);
                        let kk = self.konst(iw, k);
                        let x = self.bin(Op::Xor, na.a, kk);
                        return self.zext(x, wa);
                    }
                    if wa == 1 && k == 1 {
                        // push negation through and/or so leaves stay single-byte
                        match na.op {
                            Op::And => {
                                let (x, y) = (self.not(na.a), self.not(na.b));
                                return self.bin(Op::Or, x, y);
                            }
                            Op::Or => {
                                let (x, y) = (self.not(na.a), self.not(na.b));
                                return self.bin(Op::And, x, y);
                            }
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let na = self.n[a as usize].clone();
                    if na.op == Op::Add {
                        if let Some(k2) = self.as_const(na.b) {
                            let kk = self.konst(wa, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(wa, 0);
                }
                if let Some(k) = cb {
                    let kk = self.konst(wa, 0u64.wrapping_sub(k));
                    return self.bin(Op::Add, a, kk);
                }
            }
            Op::Mul => {
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(1) {
                    return a;
                }
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.konst(wa, k.trailing_zeros() as u64);
                        return self.bin(Op::Shl, a, kk);
                    }
                }
            }
            Op::Shl => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= wa as u64 {
                        return self.konst(wa, 0);
                    }
                    let hi = self.extract(a, 0, wa - k as u8);
                    let z = self.konst(k as u8, 0);
                    return self.concat(hi, z);
                }
            }
            Op::LShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    if k >= wa as u64 {
                        return self.konst(wa, 0);
                    }
                    let x = self.extract(a, k as u8, wa - k as u8);
                    return self.zext(x, wa);
                }
            }
            Op::AShr => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(k) = cb {
                    let k = k.min(wa as u64 - 1);
                    let x = self.extract(a, k as u8, wa - k as u8);
                    return self.sext(x, wa);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if wa == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                }
                let na = self.n[a as usize].clone();
                let nb = self.n[b as usize].clone();
                if na.op == Op::Concat {
                    if nb.sup == 0 || nb.op == Op::Concat && self.w(nb.b) == self.w(na.b) {
                        let (lw, hw) = (self.w(na.b), self.w(na.a));
                        let (bh, bl) = if nb.sup == 0 {
                            (self.konst(hw, nb.k >> lw), self.konst(lw, nb.k))
                        } else {
                            (nb.a, nb.b)
                        };
                        let h = self.bin(Op::Eq, na.a, bh);
                        let l = self.bin(Op::Eq, na.b, bl);
                        return self.bin(Op::And, l, h);
                    }
                }
                if let Some(k) = cb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k >> iw != 0 {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Xor => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.konst(wa, k ^ k2);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Or if k == 0 => {
                            let z = b;
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        Op::Add => {
                            if let Some(k2) = self.as_const(na.b) {
                                let kk = self.konst(wa, k.wrapping_sub(k2));
                                return self.bin(Op::Eq, na.a, kk);
                            }
                        }
                        Op::Ite => {
                            let nice = |s: &Self, x: Id| s.as_const(x).is_some() || s.n[x as usize].op == Op::Ite;
                            if self.as_const(na.b).is_some() || self.as_const(na.c).is_some() || (nice(self, na.b) && nice(self, na.c)) {
                                let x = self.bin(Op::Eq, na.b, b);
                                let y = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, y);
                            }
                        }
                        _ => {}
                    }
                } else if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.bin(Op::Eq, na.a, nb.a);
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) || ca == Some(m) {
                    return self.konst(1, 0);
                }
                if let Some(k) = cb {
                    let na = self.n[a as usize].clone();
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k >> iw != 0 {
                            return self.konst(1, 1);
                        }
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, na.a, kk);
                    }
                    if k == 1 {
                        let z = self.konst(wa, 0);
                        return self.bin(Op::Eq, a, z);
                    }
                }
                if ca == Some(0) {
                    let z = a;
                    let e = self.bin(Op::Eq, b, z);
                    return self.not(e);
                }
                if let Some(k) = ca {
                    let nb = self.n[b as usize].clone();
                    if nb.op == Op::ZExt {
                        let iw = self.w(nb.a);
                        if k >> iw != 0 {
                            return self.konst(1, 0);
                        }
                        let kk = self.konst(iw, k);
                        return self.bin(Op::Ult, kk, nb.a);
                    }
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.konst(1, 1);
                }
                if let Some(k) = cb {
                    let kk = self.konst(wa, k + 1);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ca {
                    let kk = self.konst(wa, k - 1);
                    return self.bin(Op::Ult, kk, b);
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.konst(wa, k.trailing_zeros() as u64);
                        return self.bin(Op::LShr, a, kk);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let kk = self.konst(wa, k - 1);
                        return self.bin(Op::And, a, kk);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u64);
                }
                // zero-extended operands compare unsigned
                let nz = |s: &Self, x: Id| -> bool {
                    let n = &s.n[x as usize];
                    match n.op {
                        Op::ZExt => true,
                        Op::Const => n.k >> (wa - 1) == 0,
                        _ => false,
                    }
                };
                if nz(self, a) && nz(self, b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        self.mk_raw(op, w, a, b, 0, 0)
    }
    fn not_raw(&mut self, a: Id) -> Option<Id> {
        let m = self.konst(1, 1);
        let key = (Op::Xor, 1u8, a, m, 0, 0u64);
        self.cons.get(&key).copied()
    }
    fn or_concat(&mut self, hi: Id, lo: Id, w: u8) -> Option<Id> {
        // hi = concat(h, 0..k), lo = zext(x) with width(x) <= k
        let nh = self.n[hi as usize].clone();
        let nl = self.n[lo as usize].clone();
        if nh.op == Op::Concat && self.as_const(nh.b) == Some(0) {
            let k = self.w(nh.b);
            let fits = match nl.op {
                Op::ZExt => self.w(nl.a) <= k,
                Op::Const => nl.k >> k == 0,
                _ => false,
            };
            if fits {
                let l = self.extract(lo, 0, k);
                return Some(self.concat(nh.a, l));
            }
        }
        if nh.op == Op::ZExt {
            // zext(concat(h,0)) | zext(x)
            let inner = self.n[nh.a as usize].clone();
            if inner.op == Op::Concat && self.as_const(inner.b) == Some(0) && nl.op == Op::ZExt {
                let k = self.w(inner.b);
                if self.w(nl.a) <= k {
                    let l = self.extract(lo, 0, k);
                    let c = self.concat(inner.a, l);
                    return Some(self.zext(c, w));
                }
            }
        }
        None
    }
    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.as_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        if w == 1 {
            let (ka, kb) = (self.as_const(a), self.as_const(b));
            match (ka, kb) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, a);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                _ => {}
            }
        }
        self.mk_raw(Op::Ite, w, c, a, b, 0)
    }
    pub fn zext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(w, k);
        }
        let na = self.n[a as usize].clone();
        if na.op == Op::ZExt {
            return self.zext(na.a, w);
        }
        self.mk_raw(Op::ZExt, w, a, 0, 0, 0)
    }
    pub fn sext(&mut self, a: Id, w: u8) -> Id {
        let wa = self.w(a);
        if wa == w {
            return a;
        }
        if let Some(k) = self.as_const(a) {
            return self.konst(w, sx(k, wa) as u64);
        }
        let na = self.n[a as usize].clone();
        if na.op == Op::ZExt {
            return self.zext(na.a, w);
        }
        self.mk_raw(Op::SExt, w, a, 0, 0, 0)
    }
    pub fn extract(&mut self, a: Id, lo: u8, w: u8) -> Id {
        let n = self.n[a as usize].clone();
        if lo == 0 && n.w == w {
            return a;
        }
        debug_assert!(lo + w <= n.w);
        if n.op == Op::Const {
            return self.konst(w, n.k >> lo);
        }
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u8, w),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                let x = self.extract(n.a, lo, iw - lo);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo == 0 {
                    return self.sext(n.a, w);
                }
            }
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, lo + w - lw);
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            _ => {}
        }
        self.mk_raw(Op::Extract, w, a, 0, 0, lo as u64)
    }
    /// a = high part, b = low part
    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
        let w = na.w + nb.w;
        if na.op == Op::Const && nb.op == Op::Const {
            return self.konst(w, (na.k << nb.w) | nb.k);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
            return self.extract(na.a, nb.k as u8, w);
        }
        if na.op == Op::Extract && na.a == b && na.k == nb.w as u64 {
            // high bits of something whose low part is b itself: not possible by width
        }
        // high extract of X joined with low part equal extract(X,0,wb)
        if na.op == Op::Extract && na.k == nb.w as u64 {
            let x = na.a;
            let lo = self.extract(x, 0, nb.w);
            if lo == b {
                return self.extract(x, 0, w);
            }
        }
        if na.op == Op::Concat {
            // right-associate when the low halves join
            let inner = self.concat_try(na.b, b);
            if let Some(j) = inner {
                return self.concat(na.a, j);
            }
        }
        if na.op == Op::ZExt {
            let iw = self.w(na.a);
            if iw < na.w {
                let j = self.concat(na.a, b);
                return self.zext(j, w);
            }
        }
        if nb.op == Op::Concat && na.op != Op::Const {
            if let Some(j) = self.concat_try(a, nb.a) {
                return self.concat(j, nb.b);
            }
        }
        self.mk_raw(Op::Concat, w, a, b, 0, 0)
    }
    fn concat_try(&mut self, a: Id, b: Id) -> Option<Id> {
        let (na, nb) = (self.n[a as usize].clone(), self.n[b as usize].clone());
        if na.op == Op::Const && nb.op == Op::Const && na.w + nb.w <= 64 {
            return Some(self.konst(na.w + nb.w, (na.k << nb.w) | nb.k));
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u64 {
            return Some(self.extract(na.a, nb.k as u8, na.w + nb.w));
        }
        None
    }
    pub fn lut(&mut self, idx: Id, vals: Vec<u64>, w: u8) -> Id {
        let t = if let Some(&t) = self.lutmap.get(&vals) {
            t
        } else {
            let t = self.luts.len() as u32;
            self.luts.push(LutT { vals: vals.clone() });
            self.lutmap.insert(vals, t);
            t
        };
        self.mk_raw(Op::Lut, w, idx, 0, 0, t as u64)
    }

    /// evaluate under a full assignment
    pub fn export(&self, e: Id, x: &mut Export) -> u32 {
        if let Some(i) = x.memo.get(&e) {
            return *i;
        }
        let n = self.n[e as usize].clone();
        let sub = |s: &Self, i: Id, x: &mut Export| if i == 0 { u32::MAX } else { s.export(i, x) };
        let (a, b, c) = (sub(self, n.a, x), sub(self, n.b, x), sub(self, n.c, x));
        let mut k = n.k;
        if n.op == Op::Lut {
            x.luts.push(self.luts[n.k as usize].vals.clone());
            k = x.luts.len() as u64 - 1;
        }
        x.nodes.push(XNode { op: n.op, w: n.w, a, b, c, k });
        let i = x.nodes.len() as u32 - 1;
        x.memo.insert(e, i);
        i
    }
    pub fn import(&mut self, nodes: &[XNode], luts: &[Vec<u64>]) -> Vec<Id> {
        let mut ids: Vec<Id> = vec![];
        for n in nodes {
            let g = |i: u32| if i == u32::MAX { 0 } else { ids[i as usize] };
            let (a, b, c) = (g(n.a), g(n.b), g(n.c));
            let id = match n.op {
                Op::Var => self.var(n.k as u32),
                Op::Const => self.konst(n.w, n.k),
                Op::Ite => self.ite(a, b, c),
                Op::ZExt => self.zext(a, n.w),
                Op::SExt => self.sext(a, n.w),
                Op::Extract => self.extract(a, n.k as u8, n.w),
                Op::Concat => self.concat(a, b),
                Op::Lut => self.lut(a, luts[n.k as usize].clone(), n.w),
                op => self.bin(op, a, b),
            };
            debug_assert_eq!(self.w(id), n.w);
            ids.push(id);
        }
        ids
    }
    pub fn eval(&self, e: Id, asg: &[u8], memo: &mut FxMap<Id, u64>) -> u64 {
        let n = &self.n[e as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return asg[n.k as usize] as u64,
            _ => {}
        }
        if let Some(v) = self.single(e) {
            return n.tab.get(asg[v as usize] as usize);
        }
        if let Some(&r) = memo.get(&e) {
            return r;
        }
        let a = self.eval(n.a, asg, memo);
        let r = if n.op == Op::Lut {
            let l = &self.luts[n.k as usize].vals;
            if (a as usize) < l.len() {
                l[a as usize]
            } else {
                0
            }
        } else {
            let b = if n.b != 0 { self.eval(n.b, asg, memo) } else { 0 };
            let c = if n.c != 0 { self.eval(n.c, asg, memo) } else { 0 };
            eval_op(n.op, n.w, self.w(n.a), self.w(n.b), a, b, c, n.k)
        };
        memo.insert(e, r);
        r
    }
}
