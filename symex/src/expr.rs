//! Hash-consed bit-vector expression DAG with a local simplifier.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type E = u32;

#[derive(Default, Clone)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = (self.0.rotate_left(5) ^ v).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u8(&mut self, v: u8) {
        self.write_u64(v as u64)
    }
    fn write_u32(&mut self, v: u32) {
        self.write_u64(v as u64)
    }
    fn write_u128(&mut self, v: u128) {
        self.write_u64(v as u64);
        self.write_u64((v >> 64) as u64)
    }
    fn write_usize(&mut self, v: usize) {
        self.write_u64(v as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<FxHasher>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Const(u128),
    Var(u32),
    Bin(Op, E, E),
    Ite(E, E, E),
    Extract(E, u8),
    Concat(E, E),
    Zext(E),
    Sext(E),
}

pub type VarSet = [u64; 4];

pub struct Ctx {
    pub nodes: Vec<Node>,
    pub width: Vec<u8>,
    pub vars: Vec<VarSet>,
    /// longest chain of xors below a node, and whether a linear-equality result is known
    xd: Vec<u16>,
    lin: FxMap<(E, E), E>,
    map: FxMap<(Node, u8), E>,
}

pub fn mask(w: u8) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u8) -> i128 {
    let s = 128 - w as u32;
    ((v << s) as i128) >> s
}

pub fn eval_bin(op: Op, a: u128, b: u128, w: u8) -> u128 {
    let m = mask(w);
    let r = match op {
        Op::Add => a.wrapping_add(b),
        Op::Sub => a.wrapping_sub(b),
        Op::Mul => a.wrapping_mul(b),
        // SMT-LIB semantics for division by zero
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                x.wrapping_div(y) as u128
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                x.wrapping_rem(y) as u128
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            (sext(a, w) >> s) as u128
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, w) < sext(b, w)) as u128,
        Op::Sle => (sext(a, w) <= sext(b, w)) as u128,
    };
    match op {
        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => r,
        _ => r & m,
    }
}

impl Ctx {
    pub fn new() -> Self {
        let mut c = Ctx { nodes: vec![], width: vec![], vars: vec![], xd: vec![], lin: FxMap::default(), map: FxMap::default() };
        // reserve id 0 so that ids are non-zero
        c.konst(0, 1);
        c
    }
    fn mk(&mut self, n: Node, w: u8) -> E {
        if let Some(e) = self.map.get(&(n, w)) {
            return *e;
        }
        let vs = match n {
            Node::Const(_) => [0; 4],
            Node::Var(v) => {
                let mut s = [0u64; 4];
                let b = (v % 256) as usize;
                s[b / 64] |= 1 << (b % 64);
                s
            }
            Node::Bin(_, a, b) | Node::Concat(a, b) => {
                vs_or(self.vars[a as usize], self.vars[b as usize])
            }
            Node::Ite(a, b, c) => vs_or(
                vs_or(self.vars[a as usize], self.vars[b as usize]),
                self.vars[c as usize],
            ),
            Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => self.vars[a as usize],
        };
        let x = |e: E| self.xd[e as usize];
        let xd = match n {
            Node::Const(_) | Node::Var(_) => 0,
            Node::Bin(Op::Xor, a, b) => x(a).max(x(b)).saturating_add((w >= 8) as u16),
            Node::Bin(_, a, b) | Node::Concat(a, b) => x(a).max(x(b)),
            Node::Ite(_, a, b) => x(a).max(x(b)),
            Node::Extract(a, _) | Node::Zext(a) | Node::Sext(a) => x(a),
        };
        self.xd.push(xd);
        let id = self.nodes.len() as E;
        self.nodes.push(n);
        self.width.push(w);
        self.vars.push(vs);
        self.map.insert((n, w), id);
        id
    }
    pub fn konst(&mut self, v: u128, w: u8) -> E {
        self.mk(Node::Const(v & mask(w)), w)
    }
    pub fn var(&mut self, id: u32, w: u8) -> E {
        self.mk(Node::Var(id), w)
    }
    pub fn xd(&self, e: E) -> u16 {
        self.xd[e as usize]
    }
    pub fn w(&self, e: E) -> u8 {
        self.width[e as usize]
    }
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }
    pub fn as_const(&self, e: E) -> Option<u128> {
        match self.nodes[e as usize] {
            Node::Const(v) => Some(v),
            _ => None,
        }
    }
    /// Conservative mask of bits that may be nonzero.
    pub fn head(&self, e: E, d: u32) -> String {
        if d == 0 {
            return format!("#{}", self.xd(e));
        }
        match self.n(e) {
            Node::Const(k) => format!("{:x}", k),
            Node::Var(v) => format!("v{}", v),
            Node::Bin(o, a, b) => format!("({:?} {} {})", o, self.head(a, d - 1), self.head(b, d - 1)),
            Node::Ite(c, a, b) => format!("(ite {} {} {})", self.head(c, d - 1), self.head(a, d - 1), self.head(b, d - 1)),
            Node::Extract(a, l) => format!("{}[{}+{}]", self.head(a, d - 1), l, self.w(e)),
            Node::Zext(a) => format!("zx{}", self.head(a, d - 1)),
            Node::Sext(a) => format!("sx{}", self.head(a, d - 1)),
            Node::Concat(a, b) => format!("{}:{}", self.head(a, d - 1), self.head(b, d - 1)),
        }
    }
    pub fn maybe(&self, e: E, depth: u32) -> u128 {
        let w = self.w(e);
        if depth == 0 {
            return mask(w);
        }
        match self.n(e) {
            Node::Const(v) => v,
            Node::Zext(a) => self.maybe(a, depth - 1),
            Node::Concat(a, b) => {
                let lw = self.w(b);
                (self.maybe(a, depth - 1) << lw) | self.maybe(b, depth - 1)
            }
            Node::Extract(a, lo) => (self.maybe(a, depth - 1) >> lo) & mask(w),
            Node::Bin(Op::And, a, b) => self.maybe(a, depth - 1) & self.maybe(b, depth - 1),
            Node::Bin(Op::Or, a, b) | Node::Bin(Op::Xor, a, b) => {
                self.maybe(a, depth - 1) | self.maybe(b, depth - 1)
            }
            Node::Bin(Op::Shl, a, b) => match self.as_const(b) {
                Some(k) if k < w as u128 => (self.maybe(a, depth - 1) << k) & mask(w),
                _ => mask(w),
            },
            Node::Bin(Op::LShr, a, b) => match self.as_const(b) {
                Some(k) if k < w as u128 => self.maybe(a, depth - 1) >> k,
                _ => mask(w),
            },
            Node::Ite(_, a, b) => self.maybe(a, depth - 1) | self.maybe(b, depth - 1),
            _ => mask(w),
        }
    }
    pub fn not(&mut self, e: E) -> E {
        let w = self.w(e);
        let m = self.konst(mask(w), w);
        self.bin(Op::Xor, e, m)
    }
    pub fn extract(&mut self, e: E, lo: u8, w: u8) -> E {
        let ew = self.w(e);
        debug_assert!(lo as u32 + w as u32 <= ew as u32);
        if lo == 0 && w == ew {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => return self.konst(v >> lo, w),
            Node::Extract(a, l2) => return self.extract(a, lo + l2, w),
            Node::Concat(a, b) => {
                let bw = self.w(b);
                if lo >= bw {
                    return self.extract(a, lo - bw, w);
                }
                if lo + w <= bw {
                    return self.extract(b, lo, w);
                }
                let lp = self.extract(b, lo, bw - lo);
                let hp = self.extract(a, 0, w - (bw - lo));
                return self.concat(hp, lp);
            }
            Node::Zext(a) => {
                let aw = self.w(a);
                if lo >= aw {
                    return self.konst(0, w);
                }
                if lo + w <= aw {
                    return self.extract(a, lo, w);
                }
                let x = self.extract(a, lo, aw - lo);
                return self.zext(x, w);
            }
            Node::Sext(a) => {
                let aw = self.w(a);
                if lo + w <= aw {
                    return self.extract(a, lo, w);
                }
            }
            Node::Bin(op @ (Op::And | Op::Or | Op::Xor), a, b) => {
                let x = self.extract(a, lo, w);
                let y = self.extract(b, lo, w);
                return self.bin(op, x, y);
            }
            Node::Bin(op @ (Op::Add | Op::Sub | Op::Mul), a, b) if lo == 0 => {
                let x = self.extract(a, 0, w);
                let y = self.extract(b, 0, w);
                return self.bin(op, x, y);
            }
            Node::Bin(Op::Shl, a, b) => {
                if let Some(k) = self.as_const(b) {
                    let k = k as u8;
                    if lo >= k {
                        return self.extract(a, lo - k, w);
                    }
                    if lo + w <= k {
                        return self.konst(0, w);
                    }
                }
            }
            Node::Ite(c, a, b) => {
                if self.as_const(a).is_some() || self.as_const(b).is_some() {
                    let x = self.extract(a, lo, w);
                    let y = self.extract(b, lo, w);
                    return self.ite(c, x, y);
                }
            }
            _ => {}
        }
        self.mk(Node::Extract(e, lo), w)
    }
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (wh, wl) = (self.w(hi), self.w(lo));
        let w = wh + wl;
        match (self.n(hi), self.n(lo)) {
            (Node::Const(a), Node::Const(b)) => return self.konst((a << wl) | b, w),
            (Node::Const(0), _) => return self.zext(lo, w),
            (Node::Extract(a, la), Node::Extract(b, lb)) if a == b && la == lb + wl => {
                return self.extract(a, lb, w)
            }
            (Node::Extract(a, la), _) if a == lo && la == wl => {
                // hi part of the same value following the entire low value cannot occur
                // (widths differ), kept for clarity
            }
            (Node::Extract(a, la), Node::Concat(m, l)) => {
                // (x[..] : (x[..] : l)) -> merge
                if let Node::Extract(b, lb) = self.n(m) {
                    if a == b && la == lb + self.w(m) {
                        let wm = self.w(m);
                        let x = self.extract(a, lb, wh + wm);
                        return self.concat(x, l);
                    }
                }
            }
            (Node::Zext(a), _) => {
                let x = self.concat(a, lo);
                return self.zext(x, w);
            }
            _ => {}
        }
        self.mk(Node::Concat(hi, lo), w)
    }
    pub fn zext(&mut self, e: E, w: u8) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => self.konst(v, w),
            Node::Zext(a) => self.zext(a, w),
            Node::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let x = self.zext(a, w);
                let y = self.zext(b, w);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::Zext(e), w),
        }
    }
    pub fn sext(&mut self, e: E, w: u8) -> E {
        let ew = self.w(e);
        if ew == w {
            return e;
        }
        match self.n(e) {
            Node::Const(v) => self.konst(sext(v, ew) as u128, w),
            Node::Zext(a) => self.zext(a, w),
            Node::Ite(c, a, b) if self.as_const(a).is_some() && self.as_const(b).is_some() => {
                let x = self.sext(a, w);
                let y = self.sext(b, w);
                self.ite(c, x, y)
            }
            _ => self.mk(Node::Sext(e), w),
        }
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.as_const(c) {
            return if v == 1 { a } else { b };
        }
        let w = self.w(a);
        // negated condition
        if let Node::Bin(Op::Xor, x, k) = self.n(c) {
            if self.as_const(k) == Some(1) {
                return self.ite(x, b, a);
            }
        }
        if w == 1 {
            match (self.as_const(a), self.as_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(Op::And, n, b);
                }
                (None, Some(0)) => return self.bin(Op::And, c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Op::Or, n, a);
                }
                _ => {}
            }
        }
        if let Node::Ite(c2, x, _) = self.n(a) {
            if c2 == c {
                return self.ite(c, x, b);
            }
        }
        if let Node::Ite(c2, _, y) = self.n(b) {
            if c2 == c {
                return self.ite(c, a, y);
            }
        }
        self.mk(Node::Ite(c, a, b), w)
    }
    pub fn bin(&mut self, op: Op, mut a: E, mut b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch {:?}", op);
        let rw = match op {
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => 1,
            _ => w,
        };
        if let (Some(x), Some(y)) = (self.as_const(a), self.as_const(b)) {
            let v = eval_bin(op, x, y, w);
            return self.konst(v, rw);
        }
        // canonical order: constants on the right, else smaller id on the left
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq) {
            let swap = match (self.as_const(a).is_some(), self.as_const(b).is_some()) {
                (true, false) => true,
                (false, true) => false,
                _ => a > b,
            };
            if swap {
                std::mem::swap(&mut a, &mut b);
            }
        }
        let kb = self.as_const(b);
        let ka = self.as_const(a);
        let m = mask(w);
        match op {
            Op::Add => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if let Node::Bin(Op::Add, x, y) = self.n(a) {
                        if let Some(k2) = self.as_const(y) {
                            let s = self.konst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, x, s);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.n(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let p = self.bin(Op::Add, x, b);
                            let q = self.bin(Op::Add, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                }
                if self.maybe(a, 6) & self.maybe(b, 6) == 0 {
                    return self.bin(Op::Or, a, b);
                }
            }
            Op::Sub => {
                if kb == Some(0) {
                    return a;
                }
                if a == b {
                    return self.konst(0, w);
                }
                if let Some(k) = kb {
                    let nk = self.konst((!k).wrapping_add(1), w);
                    return self.bin(Op::Add, a, nk);
                }
                // (x + y) - x
                if let Node::Bin(Op::Add, x, y) = self.n(a) {
                    if x == b {
                        return y;
                    }
                    if y == b {
                        return x;
                    }
                }
            }
            Op::Mul => {
                if kb == Some(0) {
                    return b;
                }
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                    // bit times constant -> ite
                    if let Node::Zext(x) = self.n(a) {
                        if self.w(x) == 1 {
                            let z = self.konst(0, w);
                            return self.ite(x, b, z);
                        }
                    }
                }
            }
            Op::UDiv => {
                if kb == Some(1) {
                    return a;
                }
                if let Some(k) = kb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = kb {
                    if k != 0 && k.is_power_of_two() {
                        let s = self.konst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::SDiv | Op::SRem => {}
            Op::Shl => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u8;
                    // keep the low (w-k) bits, append k zero bits
                    let hi = self.extract(a, 0, w - k);
                    let lo = self.konst(0, k);
                    return self.concat(hi, lo);
                }
            }
            Op::LShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if k >= w as u128 {
                        return self.konst(0, w);
                    }
                    let k = k as u8;
                    let x = self.extract(a, k, w - k);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    let k = if k >= w as u128 { w - 1 } else { k as u8 };
                    let x = self.extract(a, k, w - k);
                    return self.sext(x, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = kb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if self.maybe(a, 6) & !k == 0 {
                        return a;
                    }
                    if let Node::Bin(Op::And, x, y) = self.n(a) {
                        if let Some(k2) = self.as_const(y) {
                            let s = self.konst(k & k2, w);
                            return self.bin(Op::And, x, s);
                        }
                    }
                    // contiguous mask -> zext(extract)
                    let tz = k.trailing_zeros() as u8;
                    let run = (k >> tz).trailing_ones() as u8;
                    if (k >> tz) == mask(run) {
                        let x = self.extract(a, tz, run);
                        let z = self.zext(x, w - tz);
                        if tz == 0 {
                            return z;
                        }
                        let lo = self.konst(0, tz);
                        return self.concat(z, lo);
                    }
                }
                if self.maybe(a, 6) & self.maybe(b, 6) == 0 {
                    return self.konst(0, w);
                }
                if w == 1 {
                    // x & !x
                    let nb = self.not_node(b);
                    if nb == Some(a) || self.not_node(a) == Some(b) {
                        return self.konst(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if kb == Some(0) {
                    return a;
                }
                if kb == Some(m) {
                    return b;
                }
                if w == 1 && (self.not_node(b) == Some(a) || self.not_node(a) == Some(b)) {
                    return self.konst(1, 1);
                }
                if let Some(r) = self.or_disjoint(a, b) {
                    return r;
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(0, w);
                }
                if kb == Some(0) {
                    return a;
                }
                if let Some(k) = kb {
                    if let Node::Bin(Op::Xor, x, y) = self.n(a) {
                        if let Some(k2) = self.as_const(y) {
                            let s = self.konst(k ^ k2, w);
                            return self.bin(Op::Xor, x, s);
                        }
                    }
                    if let Node::Ite(c, x, y) = self.n(a) {
                        if self.as_const(x).is_some() && self.as_const(y).is_some() {
                            let p = self.bin(Op::Xor, x, b);
                            let q = self.bin(Op::Xor, y, b);
                            return self.ite(c, p, q);
                        }
                    }
                    if w == 1 && k == 1 {
                        // negate comparisons
                        match self.n(a) {
                            Node::Bin(Op::Ult, x, y) => return self.bin(Op::Ule, y, x),
                            Node::Bin(Op::Ule, x, y) => return self.bin(Op::Ult, y, x),
                            Node::Bin(Op::Slt, x, y) => return self.bin(Op::Sle, y, x),
                            Node::Bin(Op::Sle, x, y) => return self.bin(Op::Slt, y, x),
                            _ => {}
                        }
                    }
                } else {
                    if self.maybe(a, 6) & self.maybe(b, 6) == 0 {
                        return self.bin(Op::Or, a, b);
                    }
                    // float constants outwards: (x ^ k) ^ y
                    if let Node::Bin(Op::Xor, x, y) = self.n(a) {
                        if self.as_const(y).is_some() {
                            let t = self.bin(Op::Xor, x, b);
                            return self.bin(Op::Xor, t, y);
                        }
                        if x == b {
                            return y;
                        }
                        if y == b {
                            return x;
                        }
                    }
                    if let Node::Bin(Op::Xor, x, y) = self.n(b) {
                        if self.as_const(y).is_some() {
                            let t = self.bin(Op::Xor, a, x);
                            return self.bin(Op::Xor, t, y);
                        }
                        if x == a {
                            return y;
                        }
                        if y == a {
                            return x;
                        }
                    }
                }
            }
            Op::Eq => {
                if a == b {
                    return self.konst(1, 1);
                }
                if let Some(k) = kb {
                    if w == 1 {
                        return if k == 1 { a } else { self.not(a) };
                    }
                    match self.n(a) {
                        Node::Zext(x) => {
                            let xw = self.w(x);
                            if k > mask(xw) {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(k, xw);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Node::Sext(x) => {
                            let xw = self.w(x);
                            let kk = k & mask(xw);
                            if (sext(kk, xw) as u128) & m != k {
                                return self.konst(0, 1);
                            }
                            let kk = self.konst(kk, xw);
                            return self.bin(Op::Eq, x, kk);
                        }
                        Node::Concat(h, l) => {
                            let lw = self.w(l);
                            let hw = self.w(h);
                            let kh = self.konst(k >> lw, hw);
                            let kl = self.konst(k, lw);
                            let p = self.bin(Op::Eq, h, kh);
                            let q = self.bin(Op::Eq, l, kl);
                            return self.bin(Op::And, p, q);
                        }
                        Node::Bin(Op::Add, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.konst(k.wrapping_sub(k2), w);
                                return self.bin(Op::Eq, x, kk);
                            }
                        }
                        Node::Bin(Op::Xor, x, y) => {
                            if let Some(k2) = self.as_const(y) {
                                let kk = self.konst(k ^ k2, w);
                                return self.bin(Op::Eq, x, kk);
                            }
                            if k == 0 {
                                return self.bin(Op::Eq, x, y);
                            }
                        }
                        Node::Bin(Op::Sub, x, y) if k == 0 => {
                            return self.bin(Op::Eq, x, y);
                        }
                        Node::Ite(c, x, y) => {
                            let (kx, ky) = (self.as_const(x), self.as_const(y));
                            if kx.is_some() || ky.is_some() {
                                let p = self.bin(Op::Eq, x, b);
                                let q = self.bin(Op::Eq, y, b);
                                return self.ite(c, p, q);
                            }
                        }
                        _ => {}
                    }
                    if k & !self.maybe(a, 6) != 0 {
                        return self.konst(0, 1);
                    }
                } else {
                    match (self.n(a), self.n(b)) {
                        (Node::Zext(x), Node::Zext(y)) if self.w(x) == self.w(y) => {
                            return self.bin(Op::Eq, x, y)
                        }
                        (Node::Concat(h1, l1), Node::Concat(h2, l2))
                            if self.w(l1) == self.w(l2) =>
                        {
                            let p = self.bin(Op::Eq, h1, h2);
                            let q = self.bin(Op::Eq, l1, l2);
                            return self.bin(Op::And, p, q);
                        }
                        _ => {}
                    }
                }
            }
            Op::Ult => {
                if a == b || kb == Some(0) {
                    return self.konst(0, 1);
                }
                if kb == Some(1) {
                    let z = self.konst(0, w);
                    return self.bin(Op::Eq, a, z);
                }
                if let Some(k) = ka {
                    if k == m {
                        return self.konst(0, 1);
                    }
                    if k == 0 {
                        let z = self.konst(0, w);
                        let q = self.bin(Op::Eq, b, z);
                        return self.not(q);
                    }
                }
                if let Some(k) = kb {
                    if self.maybe(a, 6) < k {
                        return self.konst(1, 1);
                    }
                    if let Node::Zext(x) = self.n(a) {
                        let xw = self.w(x);
                        let kk = self.konst(k, xw); // k <= mask here
                        return self.bin(Op::Ult, x, kk);
                    }
                }
                if let (Some(k), Node::Zext(x)) = (ka, self.n(b)) {
                    let xw = self.w(x);
                    if k >= mask(xw) {
                        return self.konst(0, 1);
                    }
                    let kk = self.konst(k, xw);
                    return self.bin(Op::Ult, kk, x);
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(Op::Ult, x, y);
                    }
                }
            }
            Op::Ule => {
                if a == b {
                    return self.konst(1, 1);
                }
                if kb == Some(m) || ka == Some(0) {
                    return self.konst(1, 1);
                }
                if kb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(k) = kb {
                    // a <= k  <=>  a < k+1
                    let kk = self.konst(k + 1, w);
                    return self.bin(Op::Ult, a, kk);
                }
                if let Some(k) = ka {
                    // k <= b  <=> k-1 < b
                    let kk = self.konst(k - 1, w);
                    return self.bin(Op::Ult, kk, b);
                }
                if let (Node::Zext(x), Node::Zext(y)) = (self.n(a), self.n(b)) {
                    if self.w(x) == self.w(y) {
                        return self.bin(Op::Ule, x, y);
                    }
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.konst((op == Op::Sle) as u128, 1);
                }
                // both known non-negative: use the unsigned comparison
                let top = 1u128 << (w - 1);
                if self.maybe(a, 6) & top == 0 && self.maybe(b, 6) & top == 0 {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
        }
        if op == Op::Eq && w >= 8 && w <= 64 && self.xd[a as usize].max(self.xd[b as usize]) >= 6 {
            if let Some(r) = self.lin.get(&(a, b)) {
                return *r;
            }
            let r = match crate::lin::equality(self, a, b) {
                crate::lin::Verdict::Const(v) => self.konst(v as u128, 1),
                crate::lin::Verdict::Rows(rows) => {
                    let mut all = self.konst(1, 1);
                    for (atoms, k) in rows {
                        // xor of the atoms and the constant must be 0
                        let mut x = self.konst(!k as u128, 1);
                        for (e, i) in atoms {
                            let t = self.extract(e, i, 1);
                            x = self.bin(Op::Xor, x, t);
                        }
                        all = self.bin(Op::And, all, x);
                    }
                    all
                }
                crate::lin::Verdict::Keep => self.mk(Node::Bin(op, a, b), rw),
            };
            // self-test of the rewriting on arbitrary values
            for seed in 1..3u64 {
                let mut x = seed.wrapping_mul(0x9e3779b97f4a7c15);
                let model: Vec<u64> = (0..256)
                    .map(|_| {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        if seed == 1 { 0 } else { x >> 16 }
                    })
                    .collect();
                let mut memo = FxMap::default();
                let want = self.eval(a, &model, &mut memo) == self.eval(b, &model, &mut memo);
                assert_eq!(self.eval(r, &model, &mut memo) == 1, want, "affine rewriting");
            }
            self.lin.insert((a, b), r);
            return r;
        }
        self.mk(Node::Bin(op, a, b), rw)
    }
    fn not_node(&self, e: E) -> Option<E> {
        if let Node::Bin(Op::Xor, x, k) = self.n(e) {
            if self.w(e) == 1 && self.as_const(k) == Some(1) {
                return Some(x);
            }
        }
        None
    }
    /// `a | b` where the possibly-set bits are disjoint and one side lives entirely below
    /// a split point: rewrite into a concatenation.
    fn or_disjoint(&mut self, a: E, b: E) -> Option<E> {
        let w = self.w(a);
        let (ma, mb) = (self.maybe(a, 6), self.maybe(b, 6));
        if ma & mb != 0 {
            return None;
        }
        let try_split = |ctx: &mut Ctx, hi: E, mh: u128, lo: E, ml: u128| -> Option<E> {
            if mh == 0 || ml == 0 {
                return None;
            }
            let split = mh.trailing_zeros() as u8;
            if split == 0 || split >= w || (ml >> split) != 0 {
                return None;
            }
            // Only when it really decomposes (avoid endless generic rewriting)
            let h = ctx.extract(hi, split, w - split);
            let l = ctx.extract(lo, 0, split);
            Some(ctx.concat(h, l))
        };
        if let Some(r) = try_split(self, a, ma, b, mb) {
            return Some(r);
        }
        if let Some(r) = try_split(self, b, mb, a, ma) {
            return Some(r);
        }
        // interleaved: split at a byte boundary if both are concatenations of pieces
        for (x, y) in [(a, b), (b, a)] {
            if let Node::Concat(h, l) = self.n(x) {
                let lw = self.w(l);
                let yh = self.extract(y, lw, w - lw);
                let yl = self.extract(y, 0, lw);
                let hh = self.bin(Op::Or, h, yh);
                let ll = self.bin(Op::Or, l, yl);
                return Some(self.concat(hh, ll));
            }
            if let Node::Zext(l) = self.n(x) {
                let lw = self.w(l);
                let yh = self.extract(y, lw, w - lw);
                let yl = self.extract(y, 0, lw);
                let ll = self.bin(Op::Or, l, yl);
                return Some(self.concat(yh, ll));
            }
        }
        None
    }

    pub fn eval(&self, e: E, model: &[u64], memo: &mut FxMap<E, u128>) -> u128 {
        match self.nodes[e as usize] {
            Node::Const(v) => return v,
            Node::Var(v) => {
                return (*model.get(v as usize).unwrap_or(&0) as u128) & mask(self.w(e))
            }
            _ => {}
        }
        if let Some(v) = memo.get(&e) {
            return *v;
        }
        let w = self.w(e);
        let r = match self.nodes[e as usize] {
            Node::Bin(op, a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                eval_bin(op, x, y, self.w(a))
            }
            Node::Ite(c, a, b) => {
                if self.eval(c, model, memo) == 1 {
                    self.eval(a, model, memo)
                } else {
                    self.eval(b, model, memo)
                }
            }
            Node::Extract(a, lo) => (self.eval(a, model, memo) >> lo) & mask(w),
            Node::Concat(a, b) => {
                let x = self.eval(a, model, memo);
                let y = self.eval(b, model, memo);
                (x << self.w(b)) | y
            }
            Node::Zext(a) => self.eval(a, model, memo),
            Node::Sext(a) => {
                let x = self.eval(a, model, memo);
                (sext(x, self.w(a)) as u128) & mask(w)
            }
            _ => unreachable!(),
        };
        memo.insert(e, r);
        r
    }
}

pub fn vs_or(a: VarSet, b: VarSet) -> VarSet {
    [a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] | b[3]]
}
pub fn vs_inter(a: &VarSet, b: &VarSet) -> bool {
    (a[0] & b[0]) | (a[1] & b[1]) | (a[2] & b[2]) | (a[3] & b[3]) != 0
}
