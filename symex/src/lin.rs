//! Equalities between GF(2)-affine expressions (CRCs, XOR chains), decided by elimination.
use crate::expr::*;

/// An affine function of bits: bit 0 is the constant, the others are numbered atoms.
#[derive(Clone, PartialEq)]
struct Row(Vec<u64>);
impl Row {
    fn zero() -> Row {
        Row(vec![])
    }
    fn one() -> Row {
        Row(vec![1])
    }
    fn atom(i: usize) -> Row {
        let i = i + 1;
        let mut v = vec![0u64; i / 64 + 1];
        v[i / 64] |= 1 << (i % 64);
        Row(v)
    }
    fn xor(&mut self, o: &Row) {
        if self.0.len() < o.0.len() {
            self.0.resize(o.0.len(), 0);
        }
        for (a, b) in self.0.iter_mut().zip(&o.0) {
            *a ^= *b;
        }
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
    }
    fn is_const(&self) -> Option<bool> {
        match self.0.len() {
            0 => Some(false),
            1 if self.0[0] == 1 => Some(true),
            _ => None,
        }
    }
    /// highest atom position (never the constant)
    fn lead(&self) -> Option<usize> {
        let l = self.0.len();
        if l == 0 {
            return None;
        }
        let b = (l - 1) * 64 + 63 - self.0[l - 1].leading_zeros() as usize;
        if b == 0 {
            None
        } else {
            Some(b)
        }
    }
    fn has(&self, b: usize) -> bool {
        self.0.get(b / 64).map_or(false, |w| w >> (b % 64) & 1 == 1)
    }
    fn atoms(&self) -> Vec<usize> {
        let mut v = vec![];
        for (i, w) in self.0.iter().enumerate() {
            let mut w = *w;
            while w != 0 {
                let b = i * 64 + w.trailing_zeros() as usize;
                if b != 0 {
                    v.push(b - 1);
                }
                w &= w - 1;
            }
        }
        v
    }
}

struct Lin<'a> {
    c: &'a Ctx,
    atoms: FxMap<(E, u8), usize>,
    list: Vec<(E, u8)>,
    memo: FxMap<E, Vec<Row>>,
    work: usize,
}
impl<'a> Lin<'a> {
    fn opaque(&mut self, e: E) -> Vec<Row> {
        (0..self.c.w(e))
            .map(|i| {
                let n = self.list.len();
                let id = *self.atoms.entry((e, i)).or_insert(n);
                if id == n {
                    self.list.push((e, i));
                }
                Row::atom(id)
            })
            .collect()
    }
    fn rows(&mut self, e: E) -> Vec<Row> {
        if let Some(r) = self.memo.get(&e) {
            return r.clone();
        }
        self.work += 1;
        let r = self.rows0(e);
        self.memo.insert(e, r.clone());
        r
    }
    /// The affine value of a one-bit condition.
    fn cond(&mut self, e: E) -> Row {
        if let Node::Bin(op, x, y) = self.c.n(e) {
            let w = self.c.w(x);
            match (op, self.c.as_const(x), self.c.as_const(y)) {
                (Op::Eq, _, Some(k)) => {
                    let m = self.c.maybe(x, 8);
                    if m.count_ones() == 1 && (k == 0 || k == m) {
                        let b = m.trailing_zeros() as usize;
                        let mut r = self.rows(x)[b].clone();
                        if k == 0 {
                            r.xor(&Row::one());
                        }
                        return r;
                    }
                }
                (Op::Slt, _, Some(0)) => return self.rows(x)[w as usize - 1].clone(),
                (Op::Slt, Some(k), _) if k == mask(w) => {
                    let mut r = self.rows(y)[w as usize - 1].clone();
                    r.xor(&Row::one());
                    return r;
                }
                (Op::Sle, Some(0), _) => {
                    let mut r = self.rows(y)[w as usize - 1].clone();
                    r.xor(&Row::one());
                    return r;
                }
                (Op::Ult, _, Some(k)) if k.is_power_of_two() && self.c.maybe(x, 8) < 2 * k => {
                    let mut r = self.rows(x)[k.trailing_zeros() as usize].clone();
                    r.xor(&Row::one());
                    return r;
                }
                (Op::Ult, Some(k), _) if (k + 1).is_power_of_two() && self.c.maybe(y, 8) < 2 * (k + 1) => {
                    return self.rows(y)[(k + 1).trailing_zeros() as usize].clone();
                }
                _ => {}
            }
        }
        self.rows(e)[0].clone()
    }
    fn rows0(&mut self, e: E) -> Vec<Row> {
        let w = self.c.w(e) as usize;
        let konst = |k: u128| -> Vec<Row> {
            (0..w).map(|i| if k >> i & 1 == 1 { Row::one() } else { Row::zero() }).collect()
        };
        match self.c.n(e) {
            Node::Const(k) => konst(k),
            Node::Var(_) => self.opaque(e),
            Node::Extract(a, lo) => self.rows(a)[lo as usize..lo as usize + w].to_vec(),
            Node::Concat(h, l) => {
                let mut v = self.rows(l);
                v.extend(self.rows(h));
                v
            }
            Node::Zext(a) => {
                let mut v = self.rows(a);
                v.resize(w, Row::zero());
                v
            }
            Node::Sext(a) => {
                let mut v = self.rows(a);
                let s = v.last().unwrap().clone();
                v.resize(w, s);
                v
            }
            Node::Ite(c, a, b) => {
                let (ra, rb) = (self.rows(a), self.rows(b));
                let mut diff = vec![];
                for i in 0..w {
                    let mut d = ra[i].clone();
                    d.xor(&rb[i]);
                    match d.is_const() {
                        Some(k) => diff.push(k),
                        None => return self.opaque(e),
                    }
                }
                let c = self.cond(c);
                let mut v = rb;
                for i in 0..w {
                    if diff[i] {
                        v[i].xor(&c);
                    }
                }
                v
            }
            Node::Bin(op, a, b) => match (op, self.c.as_const(b)) {
                (Op::Xor, _) => {
                    let mut v = self.rows(a);
                    let o = self.rows(b);
                    for i in 0..w {
                        v[i].xor(&o[i]);
                    }
                    v
                }
                (Op::And, Some(k)) => {
                    let mut v = self.rows(a);
                    for i in 0..w {
                        if k >> i & 1 == 0 {
                            v[i] = Row::zero();
                        }
                    }
                    v
                }
                (Op::Or, Some(k)) => {
                    let mut v = self.rows(a);
                    for i in 0..w {
                        if k >> i & 1 == 1 {
                            v[i] = Row::one();
                        }
                    }
                    v
                }
                (Op::Or, None) | (Op::Add, None) if self.c.maybe(a, 8) & self.c.maybe(b, 8) == 0 => {
                    let mut v = self.rows(a);
                    let o = self.rows(b);
                    for i in 0..w {
                        v[i].xor(&o[i]);
                    }
                    v
                }
                (Op::Shl, Some(k)) if k < w as u128 => {
                    let a = self.rows(a);
                    let mut v = vec![Row::zero(); k as usize];
                    v.extend_from_slice(&a[..w - k as usize]);
                    v
                }
                (Op::LShr, Some(k)) if k < w as u128 => {
                    let mut v = self.rows(a)[k as usize..].to_vec();
                    v.resize(w, Row::zero());
                    v
                }
                (Op::AShr, Some(k)) if k < w as u128 => {
                    let a = self.rows(a);
                    let s = a[w - 1].clone();
                    let mut v = a[k as usize..].to_vec();
                    v.resize(w, s);
                    v
                }
                (Op::Mul, Some(k)) if self.c.maybe(a, 8) <= 1 => {
                    let r = self.rows(a)[0].clone();
                    (0..w).map(|i| if k >> i & 1 == 1 { r.clone() } else { Row::zero() }).collect()
                }
                (Op::Sub, _) if self.c.as_const(a) == Some(0) && self.c.maybe(b, 8) <= 1 => {
                    let r = self.rows(b)[0].clone();
                    vec![r; w]
                }
                (Op::Eq, _) | (Op::Slt, _) | (Op::Sle, _) | (Op::Ult, _) => {
                    // conditions that are a single bit of something affine
                    let special = match (op, self.c.as_const(a), self.c.as_const(b)) {
                        (Op::Eq, _, Some(k)) => {
                            let m = self.c.maybe(a, 8);
                            m.count_ones() == 1 && (k == 0 || k == m)
                        }
                        (Op::Slt, _, Some(0)) | (Op::Sle, Some(0), _) => true,
                        (Op::Slt, Some(k), _) => k == mask(self.c.w(b)),
                        (Op::Ult, _, Some(k)) => k.is_power_of_two() && self.c.maybe(a, 8) < 2 * k,
                        (Op::Ult, Some(k), _) => {
                            (k + 1).is_power_of_two() && self.c.maybe(b, 8) < 2 * (k + 1)
                        }
                        _ => false,
                    };
                    if special {
                        vec![self.cond(e)]
                    } else {
                        self.opaque(e)
                    }
                }
                _ => self.opaque(e),
            },
        }
    }
}

/// Reduced row echelon form; `None` if inconsistent.
fn reduce(mut rows: Vec<Row>) -> Option<Vec<Row>> {
    let mut out: Vec<(usize, Row)> = vec![];
    while let Some(mut r) = rows.pop() {
        for (p, q) in &out {
            if r.has(*p) {
                r.xor(q);
            }
        }
        match r.lead() {
            None => {
                if r.is_const() == Some(true) {
                    return None;
                }
            }
            Some(p) => {
                for (_, q) in out.iter_mut() {
                    if q.has(p) {
                        q.xor(&r);
                    }
                }
                out.push((p, r));
            }
        }
    }
    Some(out.into_iter().map(|x| x.1).collect())
}

pub enum Verdict {
    Const(bool),
    Rows(Vec<(Vec<(E, u8)>, bool)>),
    Keep,
}
/// What `a == b` comes down to if both are affine.
pub fn equality(c: &Ctx, a: E, b: E) -> Verdict {
    let mut l = Lin { c, atoms: FxMap::default(), list: vec![], memo: FxMap::default(), work: 0 };
    let (mut x, y) = (l.rows(a), l.rows(b));
    for i in 0..x.len() {
        x[i].xor(&y[i]);
    }
    let n = x.len();
    match reduce(x) {
        None => Verdict::Const(false),
        Some(r) if r.is_empty() => Verdict::Const(true),
        Some(r) => {
            let total: usize = r.iter().map(|r| r.atoms().len()).sum();
            if total > n + 8 {
                return Verdict::Keep;
            }
            Verdict::Rows(
                r.iter()
                    .map(|r| (r.atoms().iter().map(|i| l.list[*i]).collect(), r.has(0)))
                    .collect(),
            )
        }
    }
}

/// Is the conjunction refuted by its affine part alone?
pub fn refute(c: &Ctx, conj: &[E]) -> bool {
    let (mut pos, mut neg) = (vec![], vec![]);
    let mut deep = false;
    let mut stack: Vec<E> = conj.to_vec();
    while let Some(e) = stack.pop() {
        match c.n(e) {
            Node::Bin(Op::And, a, b) => stack.extend([a, b]),
            Node::Bin(Op::Eq, a, b) => {
                deep |= c.xd(a).max(c.xd(b)) >= 6;
                pos.push((a, b));
            }
            Node::Bin(Op::Xor, x, k) if c.as_const(k) == Some(1) => {
                if let Node::Bin(Op::Eq, a, b) = c.n(x) {
                    deep |= c.xd(a).max(c.xd(b)) >= 6;
                    neg.push((a, b));
                }
            }
            _ => {}
        }
    }
    if !deep {
        return false;
    }
    let mut l = Lin { c, atoms: FxMap::default(), list: vec![], memo: FxMap::default(), work: 0 };
    let mut all = vec![];
    for (a, b) in pos {
        let (mut x, y) = (l.rows(a), l.rows(b));
        for i in 0..x.len() {
            x[i].xor(&y[i]);
        }
        all.extend(x);
    }
    let Some(red) = reduce(all) else { return true };
    let red: Vec<(usize, Row)> = red.into_iter().map(|r| (r.lead().unwrap(), r)).collect();
    for (a, b) in neg {
        let (x, y) = (l.rows(a), l.rows(b));
        let mut zero = true;
        for (mut r, y) in x.into_iter().zip(y) {
            r.xor(&y);
            for (p, q) in &red {
                if r.has(*p) {
                    r.xor(q);
                }
            }
            zero &= r.is_const() == Some(false);
        }
        if zero {
            return true;
        }
    }
    false
}

pub enum Found {
    Model(Vec<(u32, u64)>),
    /// every solution of the affine part was tried
    Unsat,
    Unknown,
}
/// `x` if the condition says that `x` is all zeros or all ones (as `x - 1 > 2^n - 3`).
fn extreme(c: &Ctx, e: E) -> Option<(E, u32)> {
    if let Node::Bin(Op::Ult, k, s) = c.n(e) {
        if let (Some(k), Node::Bin(Op::Add, x, m)) = (c.as_const(k), c.n(s)) {
            let mx = c.maybe(x, 8);
            if c.as_const(m) == Some(mask(c.w(s))) && mx & (mx + 1) == 0 && mx >= 3 && k == mx - 2 {
                return Some((x, mx.count_ones()));
            }
        }
    }
    None
}
/// Solve the affine part of a conjunction and look for a solution that satisfies the rest as
/// well (by evaluation).
pub fn search(c: &Ctx, conj: &[E], vars: &[(u32, u8)]) -> Found {
    let mut l = Lin { c, atoms: FxMap::default(), list: vec![], memo: FxMap::default(), work: 0 };
    let mut all = vec![];
    let mut ext: Vec<Vec<Row>> = vec![];
    let mut mid: Vec<Vec<Row>> = vec![];
    let mut deep = false;
    let mut stack: Vec<E> = conj.to_vec();
    while let Some(e) = stack.pop() {
        match c.n(e) {
            Node::Bin(Op::And, a, b) if c.w(e) == 1 => stack.extend([a, b]),
            Node::Bin(Op::Eq, a, b) => {
                deep |= c.xd(a).max(c.xd(b)) >= 6;
                let (mut x, y) = (l.rows(a), l.rows(b));
                for i in 0..x.len() {
                    x[i].xor(&y[i]);
                }
                all.extend(x);
            }
            Node::Bin(Op::Xor, x, k) if c.as_const(k) == Some(1) => {
                if let Node::Bin(Op::Eq, a, b) = c.n(x) {
                    deep |= c.xd(a).max(c.xd(b)) >= 6;
                }
            }
            Node::Bin(Op::Ult, a, b) => {
                deep |= c.xd(a).max(c.xd(b)) >= 6;
                if let Some((x, n)) = extreme(c, e) {
                    let mut r = l.rows(x);
                    r.truncate(n as usize);
                    ext.push(r);
                }
                // neither all zeros nor all ones
                if let (Node::Bin(Op::Add, x, m), Some(k)) = (c.n(a), c.as_const(b)) {
                    let mx = c.maybe(x, 8);
                    if c.as_const(m) == Some(mask(c.w(a))) && mx & (mx + 1) == 0 && mx >= 3 && k == mx - 1 {
                        let mut r = l.rows(x);
                        r.truncate(mx.count_ones() as usize);
                        mid.push(r);
                    }
                }
            }
            _ => {}
        }
    }
    if !deep {
        return Found::Unknown;
    }
    let mut opaque: Vec<usize> = vec![];
    for r in all.iter().chain(ext.iter().flatten()) {
        for a in r.atoms() {
            if !matches!(c.n(l.list[a].0), Node::Var(_)) && !opaque.contains(&a) {
                opaque.push(a);
            }
        }
    }
    if opaque.len() > 40 {
        return Found::Unknown;
    }
    let bits = opaque.len() + ext.len();
    let mut complete = bits <= 8;
    let combos = if complete { 1usize << bits } else { 48 };
    let nv = vars.iter().map(|v| v.0 as usize + 1).max().unwrap_or(0);
    let total: usize = vars.iter().map(|v| v.1 as usize).sum();
    let mut seed = 0x9e3779b97f4a7c15u64;
    let mut rnd = move || {
        seed ^= seed << 13;
        seed ^= seed >> 7;
        seed ^= seed << 17;
        seed
    };
    let mut evals = 0;
    for combo in 0..combos {
        let combo = if bits <= 8 { combo as u64 } else { rnd() };
        let mut rows = all.clone();
        for (i, x) in ext.iter().enumerate() {
            for r in x {
                let mut r = r.clone();
                if combo >> i & 1 == 1 {
                    r.xor(&Row::one());
                }
                rows.push(r);
            }
        }
        for (i, a) in opaque.iter().enumerate() {
            let one = combo >> (ext.len() + i) & 1 == 1;
            for r in rows.iter_mut().filter(|r| r.has(a + 1)) {
                r.xor(&Row::atom(*a));
                if one {
                    r.xor(&Row::one());
                }
            }
        }
        let Some(red) = reduce(rows) else { continue };
        let off = |r: &Row| {
            let mut r = r.clone();
            for q in &red {
                if r.has(q.lead().unwrap()) {
                    r.xor(q);
                }
            }
            r.is_const()
        };
        if mid.iter().any(|x| {
            let k: Vec<_> = x.iter().map(off).collect();
            k[0].is_some() && k.iter().all(|b| *b == k[0])
        }) {
            continue;
        }
        let free = total - red.len();
        let all_free = free <= 8 && evals < 1500;
        complete &= all_free;
        let tries = if all_free { 1usize << free } else { (96 / combos).max(4) };
        // the free bits, to count through them
        let mut fb: Vec<(usize, u8)> = vec![];
        if all_free {
            let piv: Vec<(E, u8)> = red.iter().map(|r| l.list[r.lead().unwrap() - 1]).collect();
            for (v, w) in vars {
                for b in 0..*w {
                    if !piv.iter().any(|(e, i)| *i == b && matches!(c.n(*e), Node::Var(x) if x == *v)) {
                        fb.push((*v as usize, b));
                    }
                }
            }
            if fb.len() != free {
                return Found::Unknown;
            }
        }
        for t in 0..tries {
            let mut m = vec![0u64; nv];
            if all_free {
                for (i, (v, b)) in fb.iter().enumerate() {
                    m[*v] |= ((t >> i & 1) as u64) << b;
                }
            } else {
                for (v, w) in vars {
                    let s = rnd();
                    m[*v as usize] = match t {
                        0 => 0,
                        _ if t % 3 == 0 => s >> 58,
                        _ => s,
                    } & mask(*w) as u64;
                }
            }
            for r in &red {
                // the pivot of every row occurs in no other row
                let p = r.lead().unwrap() - 1;
                let mut v = r.has(0);
                let mut pv = 0;
                for a in r.atoms() {
                    let (e, bit) = l.list[a];
                    if let Node::Var(x) = c.n(e) {
                        if a == p {
                            pv = x as usize;
                        } else {
                            v ^= m[x as usize] >> bit & 1 == 1;
                        }
                    }
                }
                let bit = l.list[p].1;
                m[pv] = m[pv] & !(1 << bit) | (v as u64) << bit;
            }
            evals += 1;
            let mut memo = FxMap::default();
            if conj.iter().all(|e| c.eval(*e, &m, &mut memo) == 1) {
                return Found::Model(vars.iter().map(|(v, _)| (*v, m[*v as usize])).collect());
            }
        }
    }
    if complete { Found::Unsat } else { Found::Unknown }
}
