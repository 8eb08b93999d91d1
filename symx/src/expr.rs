//! Hash-consed bit-vector expressions over the symbolic inputs of one path.

use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type Id = u32;

/// A machine value: concrete (at most 64 bits, zero-extended) or symbolic.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Val {
    C(u64),
    E(Id),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    ZExt,
    SExt,
    /// a, k = low bit
    Extract,
    /// a = high, b = low
    Concat,
    Ite,
    /// a = an 8-bit expression, k = number of the table
    Tab,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
    /// k = predicate
    FCmp,
    UiToFp,
    SiToFp,
    FpToUi,
    FpToSi,
    FpCast,
    /// rounding to an integral value; k: 0 trunc, 1 floor, 2 ceil, 3 to even, 4 away from zero
    FRnd,
    Ctlz,
    Cttz,
    Ctpop,
}

#[derive(Clone, Copy, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: Id,
    pub b: Id,
    pub c: Id,
    pub k: u128,
    /// 0: no variable, v + 1: only variable v, u32::MAX: several or a wide variable
    pub var: u32,
    pub h: u128,
}

pub const MULTI: u32 = u32::MAX;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for &b in bytes {
            self.write_u64(b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn mask64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub struct Arena {
    pub n: Vec<Node>,
    map: FxMap<(u8, u8, Id, Id, Id, u128), Id>,
    /// value tables for single-variable nodes
    tabs: Vec<Option<Box<[u64; 256]>>>,
    pub tables: Vec<(Box<[u64; 256]>, u128)>,
    tabmap: FxMap<u128, usize>,
    pub var_ids: Vec<Id>,
    ev: Vec<u128>,
    ev_epoch: Vec<u32>,
    epoch: u32,
}

fn mix(a: u128, b: u128) -> u128 {
    let x = (a ^ b.rotate_left(41)).wrapping_mul(0x9E3779B97F4A7C15F39CC0605CEDC835);
    x ^ (x >> 59)
}

fn ffold(op: Op, w: u32, a: u128, b: u128, k: u128) -> Option<u128> {
    Some(if w == 64 || op == Op::FCmp && k & 0x100 == 0 {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        match op {
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            Op::FRem => (x % y).to_bits() as u128,
            Op::FCmp => fcmp(k as u32 & 15, x.partial_cmp(&y)) as u128,
            _ => return None,
        }
    } else {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        match op {
            Op::FAdd => (x + y).to_bits() as u128,
            Op::FSub => (x - y).to_bits() as u128,
            Op::FMul => (x * y).to_bits() as u128,
            Op::FDiv => (x / y).to_bits() as u128,
            Op::FRem => (x % y).to_bits() as u128,
            Op::FCmp => fcmp(k as u32 & 15, x.partial_cmp(&y)) as u128,
            _ => return None,
        }
    })
}

/// Predicates numbered as in LLVM: bit 0 eq, bit 1 gt, bit 2 lt, bit 3 unordered.
pub fn fcmp(p: u32, o: Option<std::cmp::Ordering>) -> bool {
    use std::cmp::Ordering::*;
    match o {
        Some(Equal) => p & 1 != 0,
        Some(Greater) => p & 2 != 0,
        Some(Less) => p & 4 != 0,
        None => p & 8 != 0,
    }
}

pub fn fold2(op: Op, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask(w);
    Some(match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x >= 0 {
                    m
                } else {
                    1
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => return None,
    })
}

/// `w` is the result width, `fw` the operand width.
pub fn fold1(op: Op, w: u32, fw: u32, a: u128, k: u128) -> Option<u128> {
    Some(match op {
        Op::ZExt => a,
        Op::SExt => (sext(a, fw) as u128) & mask(w),
        Op::Extract => (a >> k) & mask(w),
        Op::UiToFp => {
            if w == 64 {
                (a as f64).to_bits() as u128
            } else {
                (a as f32).to_bits() as u128
            }
        }
        Op::SiToFp => {
            let s = sext(a, fw);
            if w == 64 {
                (s as f64).to_bits() as u128
            } else {
                (s as f32).to_bits() as u128
            }
        }
        Op::FpToUi => {
            let x = if fw == 64 {
                f64::from_bits(a as u64)
            } else {
                f32::from_bits(a as u32) as f64
            };
            (x as u128).min(mask(w))
        }
        Op::FpToSi => {
            let x = if fw == 64 {
                f64::from_bits(a as u64)
            } else {
                f32::from_bits(a as u32) as f64
            };
            let hi = (mask(w) >> 1) as i128;
            ((x as i128).clamp(-hi - 1, hi) as u128) & mask(w)
        }
        Op::FpCast => {
            if fw == 64 && w == 32 {
                (f64::from_bits(a as u64) as f32).to_bits() as u128
            } else if fw == 32 && w == 64 {
                (f32::from_bits(a as u32) as f64).to_bits() as u128
            } else {
                a
            }
        }
        Op::FRnd => {
            let r = |x: f64| match k {
                0 => x.trunc(),
                1 => x.floor(),
                2 => x.ceil(),
                3 => x.round_ties_even(),
                _ => x.round(),
            };
            if w == 64 {
                r(f64::from_bits(a as u64)).to_bits() as u128
            } else {
                (r(f32::from_bits(a as u32) as f64) as f32).to_bits() as u128
            }
        }
        Op::Ctlz => {
            if a == 0 {
                w as u128
            } else {
                (a.leading_zeros() - (128 - w)) as u128
            }
        }
        Op::Cttz => {
            if a == 0 {
                w as u128
            } else {
                a.trailing_zeros() as u128
            }
        }
        Op::Ctpop => a.count_ones() as u128,
        _ => return None,
    })
}

impl Arena {
    pub fn new() -> Arena {
        let mut a = Arena {
            n: Vec::new(),
            map: FxMap::default(),
            tabs: Vec::new(),
            tables: Vec::new(),
            tabmap: FxMap::default(),
            var_ids: Vec::new(),
            ev: Vec::new(),
            ev_epoch: Vec::new(),
            epoch: 0,
        };
        a.reset();
        a
    }

    pub fn reset(&mut self) {
        self.n.clear();
        self.map.clear();
        self.tabs.clear();
        self.tables.clear();
        self.tabmap.clear();
        self.var_ids.clear();
        self.ev.clear();
        self.ev_epoch.clear();
        self.epoch = 0;
        // id 0 is never a valid expression
        self.n.push(Node { op: Op::Const, w: 1, a: 0, b: 0, c: 0, k: 0, var: 0, h: 0 });
        self.tabs.push(None);
    }

    fn intern(&mut self, op: Op, w: u32, a: Id, b: Id, c: Id, k: u128) -> Id {
        let key = (op as u8, w as u8, a, b, c, k);
        if let Some(&i) = self.map.get(&key) {
            return i;
        }
        let var = if op == Op::Var {
            if w == 8 {
                k as u32 + 1
            } else {
                MULTI
            }
        } else {
            let mut v = 0;
            for x in [a, b, c] {
                if x != 0 {
                    let xv = self.n[x as usize].var;
                    if xv != 0 {
                        v = if v == 0 || v == xv { xv } else { MULTI };
                    }
                }
            }
            v
        };
        let mut h = mix(op as u128 + 1, w as u128);
        let kk = if op == Op::Tab { self.tables[k as usize].1 } else { k };
        h = mix(h, kk);
        for x in [a, b, c] {
            if x != 0 {
                h = mix(h, self.n[x as usize].h);
            }
        }
        let id = self.n.len() as Id;
        self.n.push(Node { op, w: w as u8, a, b, c, k, var, h });
        self.tabs.push(None);
        self.map.insert(key, id);
        id
    }

    pub fn konst(&mut self, w: u32, k: u128) -> Id {
        self.intern(Op::Const, w, 0, 0, 0, k & mask(w))
    }

    pub fn new_var(&mut self, w: u32) -> Id {
        let k = self.var_ids.len() as u128;
        let id = self.intern(Op::Var, w, 0, 0, 0, k);
        self.var_ids.push(id);
        id
    }

    pub fn is_const(&self, i: Id) -> Option<u128> {
        let n = &self.n[i as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }

    pub fn w(&self, i: Id) -> u32 {
        self.n[i as usize].w as u32
    }

    /// Turn a value into an expression of width `w`.
    pub fn id(&mut self, v: Val, w: u32) -> Id {
        match v {
            Val::C(c) => self.konst(w, c as u128),
            Val::E(e) => e,
        }
    }

    /// Turn an expression into a value.
    pub fn val(&self, i: Id) -> Val {
        let n = &self.n[i as usize];
        if n.op == Op::Const && n.w <= 64 {
            Val::C(n.k as u64)
        } else {
            Val::E(i)
        }
    }

    pub fn not1(&mut self, a: Id) -> Id {
        let one = self.konst(1, 1);
        self.bin(Op::Xor, a, one)
    }

    fn is_cmp(op: Op) -> bool {
        matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
    }

    pub fn bin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let rw = if Self::is_cmp(op) { 1 } else { w };
        let (ka, kb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ka, kb) {
            if let Some(r) = fold2(op, w, x, y) {
                return self.konst(rw, r);
            }
        }
        let (mut a, mut b) = (a, b);
        let (mut ka, mut kb) = (ka, kb);
        // Commutative operators: constant on the right, else ordered.
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
            && (ka.is_some() || (kb.is_none() && a > b))
        {
            std::mem::swap(&mut a, &mut b);
            std::mem::swap(&mut ka, &mut kb);
        }
        let m = mask(w);
        let na = self.n[a as usize];
        // Bitwise operators act on the parts of a concatenation.
        if matches!(op, Op::And | Op::Or | Op::Xor) && w > 1 && a != b {
            let nb = self.n[b as usize];
            if na.op == Op::Concat && (kb.is_some() || nb.op == Op::Concat && self.w(nb.b) == self.w(na.b)) {
                let lw = self.w(na.b);
                let bh = self.extract(b, lw, w - lw);
                let bl = self.extract(b, 0, lw);
                let h = self.bin(op, na.a, bh);
                let l = self.bin(op, na.b, bl);
                return self.concat(h, l);
            }
        }
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k.wrapping_add(k2));
                            return self.bin(Op::Add, na.a, kk);
                        }
                    }
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    let kk = self.konst(w, k.wrapping_neg());
                    return self.bin(Op::Add, a, kk);
                }
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                let nb = self.n[b as usize];
                // (x + k1) - (y + k2) with x == y
                if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                    return self.bin(Op::Sub, na.b, nb.b);
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
            }
            Op::URem => {
                if kb == Some(1) {
                    return self.konst(w, 0);
                }
            }
            Op::Shl | Op::LShr | Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if op == Op::LShr && k < w as u128 {
                        let hi = self.extract(a, k as u32, w - k as u32);
                        return self.zext(hi, w);
                    }
                    if op == Op::Shl && k < w as u128 {
                        let lo = self.extract(a, 0, w - k as u32);
                        let z = self.konst(k as u32, 0);
                        return self.concat(lo, z);
                    }
                }
            }
            Op::And => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(m) || a == b {
                    return a;
                }
                if let Some(k) = kb {
                    // low mask
                    let t = k.trailing_ones();
                    if w > 1 && k == mask(t) && t < w {
                        let lo = self.extract(a, 0, t);
                        return self.zext(lo, w);
                    }
                    if na.op == Op::ZExt {
                        let iw = self.w(na.a);
                        if k & mask(iw) == mask(iw) {
                            return a;
                        }
                        let kk = self.konst(iw, k & mask(iw));
                        let x = self.bin(Op::And, na.a, kk);
                        return self.zext(x, w);
                    }
                }
                if w == 1 && self.is_not(a) == Some(b) || w == 1 && self.is_not(b) == Some(a) {
                    return self.konst(1, 0);
                }
            }
            Op::Or => {
                if kb == Some(0) || a == b {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 && self.is_not(a) == Some(b) || w == 1 && self.is_not(b) == Some(a) {
                    return self.konst(1, 1);
                }
                // disjoint bits: concat(x, 0) | zext(y)
                if let Some(r) = self.or_disjoint(a, b).or_else(|| self.or_disjoint(b, a)) {
                    return r;
                }
            }
            Op::Xor => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(k) = kb {
                    if na.op == Op::Xor {
                        if let Some(k2) = self.is_const(na.b) {
                            let kk = self.konst(w, k ^ k2);
                            return self.bin(Op::Xor, na.a, kk);
                        }
                    }
                    if w == 1 && k == 1 && na.op == Op::Ite {
                        let x = self.not1(na.b);
                        let y = self.not1(na.c);
                        return self.ite(na.a, x, y);
                    }
                    // Canonical comparisons: not(a < b) = b <= a
                    if w == 1 && k == 1 {
                        match na.op {
                            Op::Ult => return self.bin(Op::Ule, na.b, na.a),
                            Op::Ule => return self.bin(Op::Ult, na.b, na.a),
                            Op::Slt => return self.bin(Op::Sle, na.b, na.a),
                            Op::Sle => return self.bin(Op::Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if w == 1 {
                    if kb == Some(1) {
                        return a;
                    }
                    if kb == Some(0) {
                        return self.not1(a);
                    }
                }
                if let Some(k) = kb {
                    match na.op {
                        Op::ZExt => {
                            let iw = self.w(na.a);
                            if k > mask(iw) {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            if (sext(k & mask(iw), iw) as u128) & m != k {
                                return self.konst(1, 0);
                            }
                            let kk = self.konst(iw, k);
                            return self.bin(Op::Eq, na.a, kk);
                        }
                        Op::Concat => {
                            let lw = self.w(na.b);
                            let kh = self.konst(w - lw, k >> lw);
                            let kl = self.konst(lw, k);
                            let eh = self.bin(Op::Eq, na.a, kh);
                            let el = self.bin(Op::Eq, na.b, kl);
                            return self.bin(Op::And, el, eh);
                        }
                        Op::Ite => {
                            let (x, y) = (self.is_const(na.b), self.is_const(na.c));
                            if x.is_some() || y.is_some() {
                                let e1 = self.bin(Op::Eq, na.b, b);
                                let e2 = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, e1, e2);
                            }
                        }
                        Op::Add | Op::Xor => {
                            if let Some(k2) = self.is_const(na.b) {
                                let r = if na.op == Op::Add { k.wrapping_sub(k2) } else { k ^ k2 };
                                let kk = self.konst(w, r);
                                return self.bin(Op::Eq, na.a, kk);
                            }
                            if na.op == Op::Xor && k == 0 {
                                return self.bin(Op::Eq, na.a, na.b);
                            }
                        }
                        Op::Sub if k == 0 => {
                            return self.bin(Op::Eq, na.a, na.b);
                        }
                        Op::Or if k == 0 => {
                            let z = b;
                            let x = self.bin(Op::Eq, na.a, z);
                            let y = self.bin(Op::Eq, na.b, z);
                            return self.bin(Op::And, x, y);
                        }
                        _ => {}
                    }
                } else {
                    let nb = self.n[b as usize];
                    if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                    if na.op == Op::Add && nb.op == Op::Add && na.b == nb.b {
                        return self.bin(Op::Eq, na.a, nb.a);
                    }
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) || ka == Some(m) {
                    return self.konst(1, 0);
                }
                if let (Some(k), Op::ZExt) = (kb, na.op) {
                    let iw = self.w(na.a);
                    if k > mask(iw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(iw, k);
                    return self.bin(Op::Ult, na.a, kk);
                }
                let nb = self.n[b as usize];
                if let (Some(k), Op::ZExt) = (ka, nb.op) {
                    let iw = self.w(nb.a);
                    if k >= mask(iw) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(iw, k);
                    return self.bin(Op::Ult, kk, nb.a);
                }
            }
            Op::Ule => {
                if a == b || ka == Some(0) || kb == Some(m) {
                    return self.konst(1, 1);
                }
                if let (Some(k), Op::ZExt) = (kb, na.op) {
                    let iw = self.w(na.a);
                    if k >= mask(iw) {
                        return self.konst(1, 1);
                    }
                    let kk = self.konst(iw, k);
                    return self.bin(Op::Ule, na.a, kk);
                }
                let nb = self.n[b as usize];
                if let (Some(k), Op::ZExt) = (ka, nb.op) {
                    let iw = self.w(nb.a);
                    if k > mask(iw) {
                        return self.konst(1, 0);
                    }
                    let kk = self.konst(iw, k);
                    return self.bin(Op::Ule, kk, nb.a);
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst(1, (op == Op::Sle) as u128);
                }
                // Both operands known non-negative: compare unsigned.
                let sa = self.nonneg(a);
                let sb = self.nonneg(b);
                if sa && sb {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        self.intern(op, rw, a, b, 0, 0)
    }

    fn nonneg(&self, a: Id) -> bool {
        let n = &self.n[a as usize];
        match n.op {
            Op::Const => n.k >> (n.w - 1) & 1 == 0,
            Op::ZExt => true,
            Op::Concat => self.nonneg(n.a),
            _ => false,
        }
    }

    fn is_not(&self, a: Id) -> Option<Id> {
        let n = &self.n[a as usize];
        if n.op == Op::Xor && n.w == 1 && self.is_const(n.b) == Some(1) {
            Some(n.a)
        } else {
            None
        }
    }

    fn or_disjoint(&mut self, a: Id, b: Id) -> Option<Id> {
        let na = self.n[a as usize];
        let nb = self.n[b as usize];
        if na.op == Op::Concat && self.is_const(na.b) == Some(0) {
            let lw = self.w(na.b);
            if nb.op == Op::ZExt && self.w(nb.a) <= lw {
                let lo = self.zext(nb.a, lw);
                return Some(self.concat(na.a, lo));
            }
            if nb.op == Op::Const && nb.k <= mask(lw) {
                let lo = self.konst(lw, nb.k);
                return Some(self.concat(na.a, lo));
            }
        }
        // zext(concat(x, 0)) | zext(y)
        if na.op == Op::ZExt && nb.op == Op::ZExt {
            let ia = self.n[na.a as usize];
            if ia.op == Op::Concat && self.is_const(ia.b) == Some(0) && self.w(nb.a) <= self.w(ia.b) {
                let lw = self.w(ia.b);
                let lo = self.zext(nb.a, lw);
                let c = self.concat(ia.a, lo);
                let w = na.w as u32;
                return Some(self.zext(c, w));
            }
        }
        None
    }

    pub fn zext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, n.k),
            Op::ZExt => self.zext(n.a, w),
            _ => self.intern(Op::ZExt, w, a, 0, 0, 0),
        }
    }

    pub fn sext(&mut self, a: Id, w: u32) -> Id {
        let n = self.n[a as usize];
        if n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => self.konst(w, sext(n.k, n.w as u32) as u128),
            Op::ZExt => self.zext(n.a, w),
            Op::SExt => self.sext(n.a, w),
            _ => self.intern(Op::SExt, w, a, 0, 0, 0),
        }
    }

    /// Truncation: pushed into arithmetic operators.
    pub fn extract(&mut self, a: Id, lo: u32, w: u32) -> Id {
        self.extract_(a, lo, w, true)
    }

    /// A part of a stored value, kept in a form that `concat` puts together again.
    pub fn extract_raw(&mut self, a: Id, lo: u32, w: u32) -> Id {
        self.extract_(a, lo, w, false)
    }

    fn extract_(&mut self, a: Id, lo: u32, w: u32, push: bool) -> Id {
        let n = self.n[a as usize];
        if lo == 0 && n.w as u32 == w {
            return a;
        }
        match n.op {
            Op::Const => return self.konst(w, n.k >> lo),
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo >= iw {
                    return self.konst(w, 0);
                }
                if lo + w <= iw {
                    return self.extract_(n.a, lo, w, push);
                }
                let x = self.extract_(n.a, lo, iw - lo, push);
                return self.zext(x, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract_(n.a, lo, w, push);
                }
                if lo < iw {
                    let x = self.extract_(n.a, lo, iw - lo, push);
                    return self.sext(x, w);
                }
            }
            Op::Extract => return self.extract_(n.a, lo + n.k as u32, w, push),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo >= lw {
                    return self.extract_(n.a, lo - lw, w, push);
                }
                if lo + w <= lw {
                    return self.extract_(n.b, lo, w, push);
                }
                let l = self.extract_(n.b, lo, lw - lo, push);
                let h = self.extract_(n.a, 0, w - (lw - lo), push);
                return self.concat(h, l);
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let x = self.extract_(n.b, lo, w, push);
                    let y = self.extract_(n.c, lo, w, push);
                    return self.ite(n.a, x, y);
                }
            }
            Op::And | Op::Or | Op::Xor if push => {
                if self.is_const(n.b).is_some() {
                    let x = self.extract_(n.a, lo, w, push);
                    let y = self.extract_(n.b, lo, w, push);
                    return self.bin(n.op, x, y);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 && push => {
                let x = self.extract_(n.a, 0, w, push);
                let y = self.extract_(n.b, 0, w, push);
                return self.bin(n.op, x, y);
            }
            _ => {}
        }
        self.intern(Op::Extract, w, a, 0, 0, lo as u128)
    }

    pub fn concat(&mut self, a: Id, b: Id) -> Id {
        let (na, nb) = (self.n[a as usize], self.n[b as usize]);
        let w = na.w as u32 + nb.w as u32;
        if let (Op::Const, Op::Const) = (na.op, nb.op) {
            return self.konst(w, na.k << nb.w | nb.k);
        }
        if na.op == Op::Const && na.k == 0 {
            return self.zext(b, w);
        }
        if na.op == Op::ZExt {
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        if na.op == Op::Extract && nb.op == Op::Extract && na.a == nb.a && na.k == nb.k + nb.w as u128 {
            return self.extract_raw(na.a, nb.k as u32, w);
        }
        // x[hi] ++ low part being the value itself truncated is covered by extract; also
        // (c ++ b1) ++ b2 with constants
        if na.op == Op::Concat {
            let inner = self.n[na.b as usize];
            if inner.op == Op::Const && nb.op == Op::Const
                || inner.op == Op::Extract && nb.op == Op::Extract && inner.a == nb.a && inner.k == nb.k + nb.w as u128
            {
                let lo = self.concat(na.b, b);
                return self.concat(na.a, lo);
            }
        }
        self.intern(Op::Concat, w, a, b, 0, 0)
    }

    pub fn ite(&mut self, c: Id, a: Id, b: Id) -> Id {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        if let Some(nc) = self.is_not(c) {
            return self.ite(nc, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not1(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let nc = self.not1(c);
                    return self.bin(Op::And, nc, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let nc = self.not1(c);
                    return self.bin(Op::Or, nc, a);
                }
                _ => {}
            }
        } else if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if x == 1 && y == 0 {
                return self.zext(c, w);
            }
            if x == 0 && y == 1 {
                let nc = self.not1(c);
                return self.zext(nc, w);
            }
        }
        self.intern(Op::Ite, w, c, a, b, 0)
    }

    pub fn un(&mut self, op: Op, w: u32, a: Id) -> Id {
        if let Some(k) = self.is_const(a) {
            if let Some(r) = fold1(op, w, self.w(a), k, 0) {
                return self.konst(w, r);
            }
        }
        self.intern(op, w, a, 0, 0, 0)
    }

    pub fn fbin(&mut self, op: Op, a: Id, b: Id) -> Id {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if let Some(r) = ffold(op, w, x, y, 0) {
                return self.konst(w, r);
            }
        }
        self.intern(op, w, a, b, 0, 0)
    }

    pub fn fround(&mut self, k: u32, a: Id) -> Id {
        let w = self.w(a);
        if let Some(x) = self.is_const(a) {
            let r = fold1(Op::FRnd, w, w, x, k as u128).unwrap();
            return self.konst(w, r);
        }
        self.intern(Op::FRnd, w, a, 0, 0, k as u128)
    }

    pub fn fcmp(&mut self, p: u32, a: Id, b: Id) -> Id {
        let w = self.w(a);
        let k = p as u128 | if w == 32 { 0x100 } else { 0 };
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) {
            if let Some(r) = ffold(Op::FCmp, w, x, y, k) {
                return self.konst(1, r);
            }
        }
        self.intern(Op::FCmp, 1, a, b, 0, k)
    }

    /// A function of an 8-bit expression given by its values.
    pub fn tab(&mut self, var: Id, t: Box<[u64; 256]>, w: u32) -> Id {
        let mut h: u128 = w as u128;
        for &x in t.iter() {
            h = mix(h, x as u128 + 1);
        }
        let idx = match self.tabmap.get(&h) {
            Some(&i) => i,
            None => {
                let i = self.tables.len();
                self.tables.push((t, h));
                self.tabmap.insert(h, i);
                i
            }
        };
        self.intern(Op::Tab, w, var, 0, 0, idx as u128)
    }

    /// All values of a node (of at most 64 bits) that depends on one 8-bit variable.
    pub fn table(&mut self, i: Id) -> &[u64; 256] {
        if self.tabs[i as usize].is_none() {
            let n = self.n[i as usize];
            let mut r = Box::new([0u64; 256]);
            match n.op {
                Op::Const => {
                    for x in r.iter_mut() {
                        *x = n.k as u64;
                    }
                }
                Op::Var => {
                    for (j, x) in r.iter_mut().enumerate() {
                        *x = j as u64;
                    }
                }
                Op::Tab if self.n[n.a as usize].op == Op::Var => *r = *self.tables[n.k as usize].0,
                _ => {
                    let wide = n.w > 64
                        || [n.a, n.b, n.c].iter().any(|&x| x != 0 && self.n[x as usize].w > 64);
                    if wide {
                        for j in 0..256u64 {
                            let v = (n.var - 1) as usize;
                            r[j as usize] = self.eval_with(i, &|k| if k == v { j } else { 0 }) as u64;
                        }
                    } else {
                        let z = [0u64; 256];
                        let ta = if n.a != 0 { *self.table(n.a) } else { z };
                        let tb = if n.b != 0 { *self.table(n.b) } else { z };
                        let tc = if n.c != 0 { *self.table(n.c) } else { z };
                        for j in 0..256 {
                            r[j] = self.apply(&n, ta[j] as u128, tb[j] as u128, tc[j] as u128) as u64;
                        }
                    }
                }
            }
            self.tabs[i as usize] = Some(r);
        }
        self.tabs[i as usize].as_ref().unwrap()
    }

    fn apply(&self, n: &Node, a: u128, b: u128, c: u128) -> u128 {
        match n.op {
            Op::Ite => {
                if a != 0 {
                    b
                } else {
                    c
                }
            }
            Op::Concat => a << self.n[n.b as usize].w | b,
            Op::Tab => self.tables[n.k as usize].0[a as usize] as u128,
            Op::FAdd | Op::FSub | Op::FMul | Op::FDiv | Op::FRem => ffold(n.op, n.w as u32, a, b, 0).unwrap(),
            Op::FCmp => ffold(n.op, if n.k & 0x100 != 0 { 32 } else { 64 }, a, b, n.k).unwrap(),
            _ => {
                let fw = self.n[n.a as usize].w as u32;
                if n.b != 0 {
                    fold2(n.op, fw, a, b).unwrap()
                } else {
                    fold1(n.op, n.w as u32, fw, a, n.k).unwrap()
                }
            }
        }
    }

    pub fn eval(&mut self, i: Id, model: &[u64]) -> u128 {
        self.eval_with(i, &|k| model.get(k).copied().unwrap_or(0))
    }

    pub fn eval_with(&mut self, i: Id, model: &dyn Fn(usize) -> u64) -> u128 {
        self.epoch += 1;
        if self.ev.len() < self.n.len() {
            self.ev.resize(self.n.len(), 0);
            self.ev_epoch.resize(self.n.len(), 0);
        }
        self.eval_rec(i, model)
    }

    fn eval_rec(&mut self, i: Id, model: &dyn Fn(usize) -> u64) -> u128 {
        let n = self.n[i as usize];
        match n.op {
            Op::Const => return n.k,
            Op::Var => return model(n.k as usize) as u128 & mask(n.w as u32),
            _ => {}
        }
        if self.ev_epoch[i as usize] == self.epoch {
            return self.ev[i as usize];
        }
        let a = if n.a != 0 { self.eval_rec(n.a, model) } else { 0 };
        let r = if n.op == Op::Ite {
            if a != 0 {
                self.eval_rec(n.b, model)
            } else {
                self.eval_rec(n.c, model)
            }
        } else {
            let b = if n.b != 0 { self.eval_rec(n.b, model) } else { 0 };
            self.apply(&n, a, b, 0)
        };
        self.ev[i as usize] = r;
        self.ev_epoch[i as usize] = self.epoch;
        r
    }

    /// The variables an expression depends on.
    pub fn vars_of(&self, i: Id) -> Vec<u32> {
        let mut seen: FxMap<Id, ()> = FxMap::default();
        let mut out = vec![];
        let mut st = vec![i];
        while let Some(x) = st.pop() {
            let n = &self.n[x as usize];
            if n.op == Op::Const {
                continue;
            }
            if n.op == Op::Var {
                if !out.contains(&(n.k as u32)) {
                    out.push(n.k as u32);
                }
                continue;
            }
            if n.var != MULTI && n.var != 0 {
                if !out.contains(&(n.var - 1)) {
                    out.push(n.var - 1);
                }
                continue;
            }
            if seen.insert(x, ()).is_some() {
                continue;
            }
            for y in [n.a, n.b, n.c] {
                if y != 0 {
                    st.push(y);
                }
            }
        }
        out
    }
}

impl Arena {
    /// A readable form, cut off at a depth.
    pub fn show(&self, i: Id, depth: u32) -> String {
        let n = &self.n[i as usize];
        match n.op {
            Op::Const => return format!("{}", n.k),
            Op::Var => return format!("v{}:{}", n.k, n.w),
            _ => {}
        }
        if depth == 0 {
            return "..".into();
        }
        let mut s = format!("({:?}{}", n.op, n.w);
        if n.op == Op::Extract {
            s.push_str(&format!("@{}", n.k));
        }
        for x in [n.a, n.b, n.c] {
            if x != 0 {
                s.push(' ');
                s.push_str(&self.show(x, depth - 1));
            }
        }
        s.push(')');
        s
    }
}
