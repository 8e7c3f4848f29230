//! The symbolic executor: depth-first over paths, forking at feasible branches.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use crate::sys;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub stack_base: usize,
    pub ret_dst: Option<u32>,
    pub ret_normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub struct SymVar {
    pub w: u8,
    pub label: Rc<str>,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub cur: Frame,
    pub mem: Mem,
    pub pc: Vec<E>,
    pub known: FxMap<E, u64>,
    pub model: Vec<u64>,
    pub vars: Vec<SymVar>,
    pub log: Vec<(Rc<str>, V)>,
    pub steps: u64,
    pub pauses: u32,
    pub errno: Option<u64>,
}

#[derive(Debug)]
pub enum Stop {
    Done,
    Pruned,
    Dropped,
    Viol(String, String),
    Err(String),
}
type R<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Normal,
    Decl,
    Alloc,
    AllocZ,
    Dealloc,
    Realloc,
    Panic,
    Abort,
    Nop,
    Malloc,
    Calloc,
    Free,
    Bcmp,
    Strlen,
    SymNew,
    SymAssume,
    SymAssert,
    SymPick,
    SymReach,
    SymLog,
    SymFix,
    SymTrue,
}

#[derive(Clone)]
pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub stack: Vec<String>,
    pub vars: Vec<(u8, u64, String)>,
    pub log: Vec<(String, u64)>,
}

#[derive(Clone)]
pub struct Sample {
    pub vars: Vec<(u8, u64, String)>,
    pub log: Vec<(String, u64)>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub pruned: u64,
    pub dropped: u64,
    pub forks: u64,
    pub steps: u64,
    pub blocks: u64,
    pub asserts_conc: u64,
    pub asserts_sym: u64,
    pub asserts_conc_by: BTreeMap<String, u64>,
    pub asserts_sym_by: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, u64>,
    pub errors: BTreeMap<String, u64>,
    pub funcs: BTreeSet<u32>,
    pub dbg: BTreeSet<u32>,
    pub max_vars: u64,
    pub max_pc: u64,
    pub max_steps: u64,
    pub uninit_reads: u64,
    pub concretised: u64,
    pub concr_sites: BTreeMap<String, u64>,
    pub fork_sites: BTreeMap<String, u64>,
}

pub struct Cfg {
    pub seed: u64,
    pub max_steps: u64,
    pub deadline: Instant,
    pub workers: u64,
    pub max_viol: usize,
    pub samples: usize,
    pub verbose: bool,
}

pub struct Engine {
    pub m: Module,
    pub ctx: Ctx,
    pub solver: Solver,
    base: Vec<Option<Rc<Obj>>>,
    kinds: Vec<Option<FK>>,
    work: Vec<State>,
    pub st: Stats,
    pub viols: Vec<Viol>,
    pub samples: Vec<Sample>,
    pub cfg: Cfg,
    pub shared: &'static [AtomicU64; sys::N],
    pub is_child: bool,
    children: Vec<i32>,
    pub on_child_exit: Option<Box<dyn Fn(&mut Engine)>>,
    pub timed_out: bool,
    sample_ctr: u64,
}

fn undef() -> V {
    V::C(0)
}

impl Engine {
    pub fn new(m: Module, solver: Solver, cfg: Cfg) -> Self {
        let ng = m.globals.len();
        let nf = m.funcs.len();
        Engine {
            m,
            ctx: Ctx::new(),
            solver,
            base: vec![None; ng],
            kinds: vec![None; nf],
            work: vec![],
            st: Stats::default(),
            viols: vec![],
            samples: vec![],
            cfg,
            shared: sys::shared(),
            is_child: false,
            children: vec![],
            on_child_exit: None,
            timed_out: false,
            sample_ctr: 0,
        }
    }

    fn kind(&mut self, id: u32) -> FK {
        if let Some(k) = self.kinds[id as usize] {
            return k;
        }
        let n = self.m.funcs[id as usize].name.clone();
        let k = match &*n {
            "sym_new" => FK::SymNew,
            "sym_assume" => FK::SymAssume,
            "sym_assert" => FK::SymAssert,
            "sym_pick" => FK::SymPick,
            "sym_reach" => FK::SymReach,
            "sym_log" => FK::SymLog,
            "sym_fix" => FK::SymFix,
            "sym_is_symbolic" => FK::SymTrue,
            "malloc" => FK::Malloc,
            "calloc" => FK::Calloc,
            "free" => FK::Free,
            "bcmp" | "memcmp" => FK::Bcmp,
            "strlen" => FK::Strlen,
            "abort" => FK::Abort,
            _ => {
                if n.ends_with("12___rust_alloc") {
                    FK::Alloc
                } else if n.ends_with("19___rust_alloc_zeroed") {
                    FK::AllocZ
                } else if n.ends_with("14___rust_dealloc") {
                    FK::Dealloc
                } else if n.ends_with("14___rust_realloc") {
                    FK::Realloc
                } else if n.contains("___rust_no_alloc_shim_is_unstable") {
                    FK::Nop
                } else if n.contains("4core9panicking")
                    || n.contains("17rust_begin_unwind")
                    || n.contains("3std9panicking")
                    || n.contains("10rust_panic")
                    || n.contains("handle_alloc_error")
                    || n.contains("17capacity_overflow")
                    || n.contains("4core6result13unwrap_failed")
                    || n.contains("4core6option13unwrap_failed")
                    || n.contains("4core6option13expect_failed")
                    || n.contains("4core5slice5index") && n.contains("_fail")
                    || n.contains("panic_already_borrowed")
                    || n.contains("panic_already_mutably_borrowed")
                {
                    FK::Panic
                } else if matches!(self.m.funcs[id as usize].body, FuncBody::Decl) {
                    FK::Decl
                } else {
                    FK::Normal
                }
            }
        };
        self.kinds[id as usize] = Some(k);
        k
    }

    // ---------------------------------------------------------------- values
    fn mkv(&self, st: &State, e: E) -> V {
        if let Some(c) = self.ctx.as_const(e) {
            if self.ctx.w(e) <= 64 {
                return V::C(c as u64);
            }
            return V::S(e);
        }
        if !st.known.is_empty() {
            if let Some(v) = st.known.get(&e) {
                return V::C(*v);
            }
        }
        V::S(e)
    }
    fn to_e(&mut self, v: &V, w: u32) -> R<E> {
        match v {
            V::C(c) => Ok(self.ctx.konst(*c as u128, w as u8)),
            V::S(e) => Ok(*e),
            V::Agg(x) => {
                // a constant of more than 64 bits
                if let ([V::C(lo), V::C(hi)], true) = (&x[..], w > 64) {
                    return Ok(self.ctx.konst(*lo as u128 | (*hi as u128) << 64, w as u8));
                }
                Err(Stop::Err("aggregate used as scalar".into()))
            }
        }
    }
    fn get(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::K(v) => v.clone(),
            Opd::R(r) => {
                let v = &st.cur.regs[*r as usize];
                if let V::S(e) = v {
                    if let Some(k) = st.known.get(e) {
                        return V::C(*k);
                    }
                }
                v.clone()
            }
        }
    }
    fn learn(&mut self, st: &mut State, e: E, val: bool) {
        // record facts that follow syntactically from `e == val`
        st.known.insert(e, val as u64);
        match self.ctx.n(e) {
            Node::Bin(Op::And, a, b) if val && self.ctx.w(e) == 1 => {
                self.learn(st, a, true);
                self.learn(st, b, true);
            }
            Node::Bin(Op::Or, a, b) if !val && self.ctx.w(e) == 1 => {
                self.learn(st, a, false);
                self.learn(st, b, false);
            }
            Node::Bin(Op::Xor, a, k) if self.ctx.w(e) == 1 => {
                if self.ctx.as_const(k) == Some(1) {
                    self.learn(st, a, !val);
                }
            }
            Node::Bin(Op::Eq, a, b) if val => {
                if let Some(k) = self.ctx.as_const(b) {
                    if self.ctx.w(a) <= 64 {
                        st.known.insert(a, k as u64);
                    }
                }
            }
            Node::Bin(Op::Eq, a, b) if !val => {
                // two-valued case: 1-bit equality is rewritten by the simplifier
                let _ = (a, b);
            }
            Node::Bin(Op::Ult, a, b) => {
                let n = self.ctx.bin(Op::Ule, b, a);
                st.known.insert(n, !val as u64);
            }
            Node::Bin(Op::Ule, a, b) => {
                let n = self.ctx.bin(Op::Ult, b, a);
                st.known.insert(n, !val as u64);
            }
            _ => {}
        }
    }
    fn slice_pc(&self, st: &State, e: E) -> Vec<E> {
        let mut vs = self.ctx.vars[e as usize];
        let mut used = vec![false; st.pc.len()];
        let mut out = vec![e];
        loop {
            let mut ch = false;
            for (i, c) in st.pc.iter().enumerate() {
                if !used[i] && vs_inter(&vs, &self.ctx.vars[*c as usize]) {
                    used[i] = true;
                    out.push(*c);
                    let n = vs_or(vs, self.ctx.vars[*c as usize]);
                    if n != vs {
                        vs = n;
                        ch = true;
                    }
                }
            }
            if !ch {
                return out;
            }
        }
    }
    fn feasible(&mut self, st: &State, e: E) -> Sat {
        if let Some(c) = self.ctx.as_const(e) {
            return if c == 1 { Sat::Sat(vec![]) } else { Sat::Unsat };
        }
        let q = self.slice_pc(st, e);
        self.solver.check(&self.ctx, &q)
    }
    fn assume(&mut self, st: &mut State, e: E) {
        if self.ctx.as_const(e).is_none() {
            st.pc.push(e);
            self.learn(st, e, true);
        }
    }
    fn upd_model(st: &mut State, m: &[(u32, u64)]) {
        for (v, x) in m {
            let v = *v as usize;
            if st.model.len() <= v {
                st.model.resize(v + 1, 0);
            }
            st.model[v] = *x;
        }
    }
    pub fn eval(&self, st: &State, e: E) -> u128 {
        let mut memo = FxMap::default();
        self.ctx.eval(e, &st.model, &mut memo)
    }
    /// Decide a 1-bit value, forking if both outcomes are feasible. The forked state stays
    /// before the current instruction and re-executes it.
    fn decide(&mut self, st: &mut State, v: &V) -> R<bool> {
        let e = match v {
            V::C(c) => return Ok(*c & 1 == 1),
            V::S(e) => *e,
            _ => return Err(Stop::Err("branch on aggregate".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k == 1);
        }
        let mv = self.eval(st, e) == 1;
        let ne = self.ctx.not(e);
        let (mine, other) = if mv { (e, ne) } else { (ne, e) };
        match self.feasible(st, other) {
            Sat::Unsat => {
                self.learn(st, e, mv);
                Ok(mv)
            }
            Sat::Sat(m) => {
                let mut o = st.clone();
                Self::upd_model(&mut o, &m);
                self.assume(&mut o, other);
                self.learn(&mut o, e, !mv);
                self.st.forks += 1;
                if self.cfg.verbose {
                    let site = self.site(st);
                    *self.st.fork_sites.entry(site).or_default() += 1;
                }
                self.work.push(o);
                self.assume(st, mine);
                self.learn(st, e, mv);
                Ok(mv)
            }
            Sat::Unknown => {
                *self.st.errors.entry("solver returned unknown".into()).or_default() += 1;
                self.assume(st, mine);
                self.learn(st, e, mv);
                Ok(mv)
            }
        }
    }
    fn site(&self, st: &State) -> String {
        format!("{}:b{}.{}", demangle(&st.cur.func.name), st.cur.block, st.cur.ip)
    }
    /// Make a value concrete, forking over all its feasible values.
    fn concretise(&mut self, st: &mut State, v: &V, _w: u32) -> R<u64> {
        let e = match v {
            V::C(c) => return Ok(*c),
            V::S(e) => *e,
            _ => return Err(Stop::Err("concretise aggregate".into())),
        };
        if let Some(k) = st.known.get(&e) {
            return Ok(*k);
        }
        self.st.concretised += 1;
        if self.cfg.verbose {
            let site = self.site(st);
            *self.st.concr_sites.entry(site).or_default() += 1;
        }
        let val = self.eval(st, e);
        let w = self.ctx.w(e);
        let k = self.ctx.konst(val, w);
        let eq = self.ctx.bin(Op::Eq, e, k);
        let eqv = match self.ctx.as_const(eq) {
            Some(c) => V::C(c as u64),
            None => V::S(eq),
        };
        if self.decide(st, &eqv)? {
            st.known.insert(e, val as u64);
            Ok(val as u64)
        } else {
            Err(Stop::Err("internal: model does not satisfy the path".into()))
        }
    }

    /// Load through a symbolic index into a small object: an if-then-else tree over the feasible
    /// offsets instead of one path per offset.
    fn table_load(&mut self, st: &mut State, e: E, t: &Ty) -> R<Option<V>> {
        if matches!(t, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) {
            return Ok(None);
        }
        let w = t.width();
        let n = ((w + 7) / 8) as u64;
        if w > 64 || st.known.contains_key(&e) {
            return Ok(None);
        }
        let a0 = self.eval(st, e) as u64;
        let base = a0 & !0xffffffu64;
        let o = match self.locate(st, a0, n) {
            Ok((o, _)) => o,
            Err(_) => return Ok(None),
        };
        let len = o.data.len() as u64;
        if let Some(r) = self.affine_load(e, base, &o, n, w) {
            return Ok(Some(self.mkv(st, r)));
        }
        if len > 512 || (!o.tags.is_empty() && len > 64) || o.tags.iter().any(|t| *t == UNINIT) {
            return Ok(None);
        }
        let kb = self.ctx.konst(base as u128, 64);
        let off = self.ctx.bin(Op::Sub, e, kb);
        let kl = self.ctx.konst((len - n) as u128, 64);
        let inr = self.ctx.bin(Op::Ule, off, kl);
        let inr = self.mkv(st, inr);
        if !self.decide(st, &inr)? {
            return Ok(None);
        }
        // runs of equal values: (last offset, value)
        let mut runs: Vec<(u64, E)> = vec![];
        for i in 0..=(len - n) {
            let mut un = false;
            let v = if o.is_conc(i as usize, n as usize) {
                self.ctx.konst(msk(o.read_conc(i as usize, n as usize), w) as u128, w as u8)
            } else {
                let x = o.read_sym(&mut self.ctx, i as usize, n as usize, &mut un);
                if n as u32 * 8 != w { self.ctx.extract(x, 0, w as u8) } else { x }
            };
            match runs.last_mut() {
                Some(r) if r.1 == v => r.0 = i,
                _ => runs.push((i, v)),
            }
        }
        if n > 1 && runs.len() > 64 {
            return Ok(None);
        }
        fn build(c: &mut Ctx, off: E, runs: &[(u64, E)]) -> E {
            if runs.len() == 1 {
                return runs[0].1;
            }
            let m = runs.len() / 2;
            let a = build(c, off, &runs[..m]);
            let b = build(c, off, &runs[m..]);
            let k = c.konst(runs[m - 1].0 as u128, 64);
            let le = c.bin(Op::Ule, off, k);
            c.ite(le, a, b)
        }
        let r = build(&mut self.ctx, off, &runs);
        Ok(Some(self.mkv(st, r)))
    }

    /// A table of 2^k constants that is affine over GF(2) in its index (a CRC table): the XOR of
    /// one entry per index bit.
    fn affine_load(&mut self, e: E, base: u64, o: &Obj, n: u64, w: u32) -> Option<E> {
        let cnt = o.data.len() as u64 / n;
        if !o.ro || !o.tags.is_empty() || n * 8 != w as u64 || cnt * n != o.data.len() as u64 {
            return None;
        }
        if !cnt.is_power_of_two() || !n.is_power_of_two() || !(4..=4096).contains(&cnt) {
            return None;
        }
        let at = |i: u64| o.read_conc((i * n) as usize, n as usize);
        for i in 1..cnt {
            let top = 1u64 << (63 - i.leading_zeros());
            if at(i) != at(i ^ top) ^ at(top) ^ at(0) {
                return None;
            }
        }
        let hi = self.ctx.extract(e, 24, 40);
        if self.ctx.as_const(hi) != Some((base >> 24) as u128) {
            return None;
        }
        let off = self.ctx.extract(e, 0, 24);
        if self.ctx.maybe(off, 12) & !(((cnt - 1) * n) as u128) != 0 {
            return None;
        }
        let mut r = self.ctx.konst(at(0) as u128, w as u8);
        for b in 0..cnt.trailing_zeros() {
            let bit = self.ctx.extract(off, (n.trailing_zeros() + b) as u8, 1);
            let d = self.ctx.konst((at(1 << b) ^ at(0)) as u128, w as u8);
            let z = self.ctx.konst(0, w as u8);
            let t = self.ctx.ite(bit, d, z);
            r = self.ctx.bin(Op::Xor, r, t);
        }
        Some(r)
    }

    // ---------------------------------------------------------------- memory
    fn base_obj(&mut self, i: u32) -> Rc<Obj> {
        if let Some(o) = &self.base[i as usize] {
            return o.clone();
        }
        let data = self.m.global_init(i as usize);
        let o = Rc::new(Obj { data, tags: vec![], ro: self.m.globals[i as usize].constant, align: 16 });
        self.base[i as usize] = Some(o.clone());
        o
    }
    fn locate(&mut self, st: &State, a: u64, n: u64) -> Result<(Rc<Obj>, usize), MemErr> {
        let region = a >> 44;
        let idx = (a >> 24) & 0xfffff;
        let off = a & 0xffffff;
        let o = match region {
            R_GLOBAL => {
                if idx as usize >= self.base.len() {
                    return Err(MemErr::Wild(a));
                }
                match st.mem.globals.get(&(idx as u32)) {
                    Some(o) => o.clone(),
                    None => self.base_obj(idx as u32),
                }
            }
            R_HEAP => match st.mem.heap.get(idx as usize) {
                Some(Some(o)) => o.clone(),
                Some(None) => return Err(MemErr::Freed(a)),
                None => return Err(MemErr::Wild(a)),
            },
            R_STACK => match st.mem.stack.get(idx as usize) {
                Some(o) => o.clone(),
                None => return Err(MemErr::Freed(a)),
            },
            0 => return Err(MemErr::Null(a)),
            _ => return Err(MemErr::Wild(a)),
        };
        if off + n > o.data.len() as u64 {
            return Err(MemErr::Oob(a, n, o.data.len() as u64));
        }
        Ok((o, off as usize))
    }
    fn locate_mut<'a>(&mut self, st: &'a mut State, a: u64, n: u64) -> Result<(&'a mut Obj, usize), MemErr> {
        let region = a >> 44;
        let idx = (a >> 24) & 0xfffff;
        let off = a & 0xffffff;
        let o: &'a mut Rc<Obj> = match region {
            R_GLOBAL => {
                if idx as usize >= self.base.len() {
                    return Err(MemErr::Wild(a));
                }
                if !st.mem.globals.contains_key(&(idx as u32)) {
                    let b = self.base_obj(idx as u32);
                    if b.ro {
                        return Err(MemErr::ReadOnly(a));
                    }
                    st.mem.globals.insert(idx as u32, b);
                }
                st.mem.globals.get_mut(&(idx as u32)).unwrap()
            }
            R_HEAP => match st.mem.heap.get_mut(idx as usize) {
                Some(Some(o)) => o,
                Some(None) => return Err(MemErr::Freed(a)),
                None => return Err(MemErr::Wild(a)),
            },
            R_STACK => match st.mem.stack.get_mut(idx as usize) {
                Some(o) => o,
                None => return Err(MemErr::Freed(a)),
            },
            0 => return Err(MemErr::Null(a)),
            _ => return Err(MemErr::Wild(a)),
        };
        if off + n > o.data.len() as u64 {
            return Err(MemErr::Oob(a, n, o.data.len() as u64));
        }
        Ok((Rc::make_mut(o), off as usize))
    }
    fn merr(&self, e: MemErr) -> Stop {
        Stop::Viol("memory".into(), format!("{:x?}", e))
    }
    fn load_scalar(&mut self, st: &mut State, a: u64, w: u32) -> R<V> {
        let n = ((w + 7) / 8) as usize;
        let (o, off) = self.locate(st, a, n as u64).map_err(|e| self.merr(e))?;
        if o.is_conc(off, n) {
            if n <= 8 {
                return Ok(V::C(msk(o.read_conc(off, n), w)));
            }
            let lo = o.read_conc(off, 8) as u128;
            let hi = o.read_conc(off + 8, n - 8) as u128;
            let e = self.ctx.konst(lo | (hi << 64), w as u8);
            return Ok(V::S(e));
        }
        let mut un = false;
        let e = o.read_sym(&mut self.ctx, off, n, &mut un);
        if un {
            self.st.uninit_reads += 1;
        }
        let e = if (n * 8) as u32 != w { self.ctx.extract(e, 0, w as u8) } else { e };
        Ok(self.mkv(st, e))
    }
    fn store_scalar(&mut self, st: &mut State, a: u64, w: u32, v: &V) -> R<()> {
        let n = ((w + 7) / 8) as usize;
        let v2 = match v {
            V::S(e) => match self.ctx.as_const(*e) {
                Some(c) if n <= 8 => V::C(c as u64),
                _ => v.clone(),
            },
            _ => v.clone(),
        };
        if n > 8 {
            // wide store: split
            let e = self.to_e(&v2, w)?;
            let lo = self.ctx.extract(e, 0, 64);
            let hi = self.ctx.extract(e, 64, (w - 64) as u8);
            let lo = self.mkv(st, lo);
            let hi = self.mkv(st, hi);
            self.store_scalar(st, a, 64, &lo)?;
            return self.store_scalar(st, a + 8, w - 64, &hi);
        }
        match self.locate_mut(st, a, n as u64) {
            Ok((o, off)) => {
                match v2 {
                    V::C(c) => o.write_conc(off, n, c),
                    V::S(e) => o.write_sym(off, n, e),
                    V::Agg(_) => return Err(Stop::Err("store agg".into())),
                }
                Ok(())
            }
            Err(e) => Err(self.merr(e)),
        }
    }
    fn load_ty(&mut self, st: &mut State, a: u64, t: &Ty) -> R<V> {
        match t {
            Ty::Struct(..) => {
                let mut v = vec![];
                for (o, ft) in t.fields() {
                    v.push(self.load_ty(st, a + o, &ft)?);
                }
                Ok(V::Agg(Rc::new(v)))
            }
            Ty::Arr(n, et) | Ty::Vec(n, et) => {
                let mut v = vec![];
                for i in 0..*n {
                    v.push(self.load_ty(st, a + i * et.size(), et)?);
                }
                Ok(V::Agg(Rc::new(v)))
            }
            _ => self.load_scalar(st, a, t.width()),
        }
    }
    fn store_ty(&mut self, st: &mut State, a: u64, t: &Ty, v: &V) -> R<()> {
        match (t, v) {
            (Ty::Struct(..), V::Agg(x)) => {
                for ((o, ft), y) in t.fields().iter().zip(x.iter()) {
                    self.store_ty(st, a + o, ft, y)?;
                }
                Ok(())
            }
            (Ty::Arr(_, et), V::Agg(x)) | (Ty::Vec(_, et), V::Agg(x)) => {
                for (i, y) in x.iter().enumerate() {
                    self.store_ty(st, a + i as u64 * et.size(), et, y)?;
                }
                Ok(())
            }
            _ => self.store_scalar(st, a, t.width(), v),
        }
    }
    fn memcpy(&mut self, st: &mut State, d: u64, s: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (src, soff) = self.locate(st, s, n).map_err(|e| self.merr(e))?;
        match self.locate_mut(st, d, n) {
            Ok((o, off)) => {
                o.copy_in(off, &src, soff, n as usize);
                Ok(())
            }
            Err(e) => Err(self.merr(e)),
        }
    }
    fn alloc(&mut self, st: &mut State, size: u64, align: u64, zero: bool) -> R<u64> {
        if size > 1 << 20 {
            return Err(Stop::Err(format!("allocation of {} bytes", size)));
        }
        let id = st.mem.heap.len();
        if id >= 1 << 20 {
            return Err(Stop::Err("too many allocations".into()));
        }
        let o = if zero { Obj::zeroed(size as usize, align) } else { Obj::uninit(size as usize, align) };
        st.mem.heap.push(Some(Rc::new(o)));
        Ok(addr(R_HEAP, id as u64))
    }
    fn free(&mut self, st: &mut State, a: u64) -> R<()> {
        if a >> 44 != R_HEAP || a & 0xffffff != 0 {
            return Err(Stop::Viol("memory".into(), format!("free of non-heap pointer {:x}", a)));
        }
        let idx = ((a >> 24) & 0xfffff) as usize;
        match st.mem.heap.get_mut(idx) {
            Some(x @ Some(_)) => {
                *x = None;
                Ok(())
            }
            _ => Err(Stop::Viol("memory".into(), format!("double free {:x}", a))),
        }
    }
    pub fn read_str(&mut self, st: &State, a: u64, n: u64) -> String {
        if n > 4096 {
            return "?".into();
        }
        if n == 0 {
            return String::new();
        }
        match self.locate(st, a, n) {
            Ok((o, off)) => String::from_utf8_lossy(&o.data[off..off + n as usize]).into_owned(),
            Err(_) => "?".into(),
        }
    }

    // ---------------------------------------------------------------- running
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let id = *self.m.func_ix.get(entry).ok_or(format!("no harness {}", entry))?;
        let f = self.m.parse_func(id)?;
        self.st.funcs.insert(id);
        Ok(State {
            frames: vec![],
            cur: Frame {
                regs: vec![undef(); f.nregs as usize],
                func: f,
                block: 0,
                ip: 0,
                stack_base: 0,
                ret_dst: None,
                ret_normal: None,
            },
            mem: Mem { globals: FxMap::default(), heap: vec![], stack: vec![] },
            pc: vec![],
            known: FxMap::default(),
            model: vec![],
            vars: vec![],
            log: vec![],
            steps: 0,
            pauses: 0,
            errno: None,
        })
    }

    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        let mut n = 0u64;
        while let Some(s) = self.work.pop() {
            if self.shared[sys::STOP].load(Ordering::Relaxed) != 0 {
                self.st.dropped += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            if Instant::now() > self.cfg.deadline {
                self.timed_out = true;
                self.st.dropped += 1 + self.work.len() as u64;
                self.work.clear();
                break;
            }
            self.run(s);
            n += 1;
            let _ = n;
        }
        // wait for children
        for c in std::mem::take(&mut self.children) {
            let mut stt = 0;
            unsafe { sys::waitpid(c, &mut stt, 0) };
            if stt != 0 {
                *self.st.errors.entry(format!("worker ended with status {:x}", stt)).or_default() += 1;
            }
        }
    }

    /// Hand the oldest pending state to a forked worker if one is free.
    fn try_share(&mut self) {
        if self.work.is_empty() || self.cfg.workers <= 1 {
            return;
        }
        let t = &self.shared[sys::TOKENS];
        let cur = t.load(Ordering::SeqCst);
        if cur == 0 {
            return;
        }
        if t.compare_exchange(cur, cur - 1, Ordering::SeqCst, Ordering::SeqCst).is_err() {
            return;
        }
        // reap finished children
        let mut keep = vec![];
        for c in std::mem::take(&mut self.children) {
            let mut stt = 0;
            let r = unsafe { sys::waitpid(c, &mut stt, 1) };
            if r == 0 {
                keep.push(c);
            } else if stt != 0 {
                *self.st.errors.entry(format!("worker ended with status {:x}", stt)).or_default() += 1;
            }
        }
        self.children = keep;
        let pid = unsafe { sys::fork() };
        if pid < 0 {
            t.fetch_add(1, Ordering::SeqCst);
            return;
        }
        let s = self.work.remove(0);
        if pid > 0 {
            self.children.push(pid);
            return;
        }
        // child
        self.is_child = true;
        self.children.clear();
        self.work.clear();
        self.viols.clear();
        self.samples.clear();
        let funcs = std::mem::take(&mut self.st.funcs);
        drop(funcs);
        self.st = Stats::default();
        self.solver.forget_process();
        self.solver.reset_counters();
        self.explore(s);
        self.solver.stop();
        let f = self.on_child_exit.take().unwrap();
        f(self);
        self.shared[sys::TOKENS].fetch_add(1, Ordering::SeqCst);
        unsafe { sys::_exit(0) }
    }

    /// Give the inputs of a finished path other values that follow the same path.
    fn randomise(&self, st: &mut State, n: u64) {
        let mut r = n.wrapping_add(self.cfg.seed.wrapping_mul(0x1000193)) ^ st.steps << 24;
        let mut next = || {
            r = r.wrapping_add(0x9E3779B97F4A7C15);
            let mut z = r;
            z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
            z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
            z ^ (z >> 31)
        };
        let base = st.model.clone();
        let bound: FxSet<u32> = Solver::vars_of(&self.ctx, &st.pc).into_iter().map(|(v, _)| v).collect();
        for round in 0..4 {
            let mut m = base.clone();
            m.resize(st.vars.len(), 0);
            for (i, v) in st.vars.iter().enumerate() {
                // first everything, then only what no condition of the path mentions
                if (round < 2 && next() & 1 == 0) || !bound.contains(&(i as u32)) {
                    m[i] = msk(next(), v.w as u32);
                }
            }
            let mut memo = FxMap::default();
            if st.pc.iter().all(|e| self.ctx.eval(*e, &m, &mut memo) == 1) {
                st.model = m;
                return;
            }
        }
    }
    fn vals(&self, st: &State) -> Vec<(u8, u64, String)> {
        st.vars
            .iter()
            .enumerate()
            .map(|(i, v)| {
                let x = *st.model.get(i).unwrap_or(&0);
                (v.w, msk(x, v.w as u32), v.label.to_string())
            })
            .collect()
    }
    fn logs(&self, st: &State) -> Vec<(String, u64)> {
        st.log
            .iter()
            .map(|(l, v)| {
                let x = match v {
                    V::C(c) => *c,
                    V::S(e) => self.eval(st, *e) as u64,
                    _ => 0,
                };
                (l.to_string(), x)
            })
            .collect()
    }
    fn stack_of(&self, st: &State) -> Vec<String> {
        let mut v = vec![demangle(&st.cur.func.name)];
        for f in st.frames.iter().rev().take(12) {
            v.push(demangle(&f.func.name));
        }
        v
    }
    fn report(&mut self, st: &State, kind: String, msg: String) {
        let v = Viol { kind, msg, stack: self.stack_of(st), vars: self.vals(st), log: self.logs(st) };
        if self.cfg.verbose {
            eprintln!("violation: {} {} {:?} vars {:?}", v.kind, v.msg, v.stack, v.vars);
        }
        self.viols.push(v);
        if self.viols.len() >= self.cfg.max_viol {
            self.shared[sys::STOP].store(1, Ordering::SeqCst);
        }
    }

    pub fn run(&mut self, mut s: State) {
        let start_steps = s.steps;
        let r = self.run_inner(&mut s);
        self.st.steps += s.steps - start_steps;
        self.st.max_vars = self.st.max_vars.max(s.vars.len() as u64);
        self.st.max_pc = self.st.max_pc.max(s.pc.len() as u64);
        self.st.max_steps = self.st.max_steps.max(s.steps);
        match r {
            Err(Stop::Done) => {
                self.st.paths += 1;
                let tot = self.shared[sys::PATHS].fetch_add(1, Ordering::Relaxed);
                let _ = tot;
                self.sample_ctr += 1;
                if self.cfg.samples > 0 {
                    // reservoir of completed paths for native re-execution
                    let n = self.sample_ctr;
                    if self.samples.len() < self.cfg.samples {
                        self.randomise(&mut s, n);
                        let x = Sample { vars: self.vals(&s), log: self.logs(&s) };
                        self.samples.push(x);
                    } else {
                        let h = n.wrapping_mul(0x9E3779B97F4A7C15) >> 20;
                        let k = (h % n) as usize;
                        if k < self.cfg.samples {
                            self.randomise(&mut s, n);
                            self.samples[k] = Sample { vars: self.vals(&s), log: self.logs(&s) };
                        }
                    }
                }
            }
            Err(Stop::Pruned) => self.st.pruned += 1,
            Err(Stop::Dropped) => self.st.dropped += 1,
            Err(Stop::Viol(k, m)) => {
                self.st.paths += 1;
                self.report(&s, k, m)
            }
            Err(Stop::Err(m)) => {
                let m2 = format!("{} @ {}", m, self.site(&s));
                if self.cfg.verbose {
                    eprintln!("error: {} stack {:?}", m2, self.stack_of(&s));
                }
                *self.st.errors.entry(m2).or_default() += 1;
                self.st.dropped += 1;
            }
            Ok(()) => unreachable!(),
        }
    }

    fn run_inner(&mut self, s: &mut State) -> R<()> {
        let mut last_share = self.st.forks;
        loop {
            let f = s.cur.func.clone();
            let b = &f.blocks[s.cur.block as usize];
            self.st.blocks += 1;
            if s.steps > self.cfg.max_steps {
                return Err(Stop::Viol("hang".into(), format!("no progress within {} steps", self.cfg.max_steps)));
            }
            if self.st.blocks & 0x3ff == 0 {
                if Instant::now() > self.cfg.deadline {
                    self.timed_out = true;
                    return Err(Stop::Dropped);
                }
                if self.shared[sys::STOP].load(Ordering::Relaxed) != 0 {
                    return Err(Stop::Dropped);
                }
            }
            if self.st.forks != last_share {
                last_share = self.st.forks;
                self.try_share();
            } else if self.st.blocks & 0x3f == 0 {
                self.try_share();
            }
            // run instructions of this block until control leaves it
            loop {
                let (inst, dbg) = &b.insts[s.cur.ip as usize];
                s.steps += 1;
                if *dbg != 0 {
                    self.st.dbg.insert(*dbg);
                }
                if self.exec(s, inst)? {
                    break;
                }
            }
        }
    }

    fn jump(&mut self, s: &mut State, to: u32) {
        let from = s.cur.block;
        let f = s.cur.func.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let mut got = None;
                for (p, o) in inc {
                    if *p == from {
                        got = Some(self.get(s, o));
                        break;
                    }
                }
                vals.push((*d, got.unwrap_or(V::C(0))));
            }
            for (d, v) in vals {
                s.cur.regs[d as usize] = v;
            }
        }
        s.cur.block = to;
        s.cur.ip = 0;
    }

    fn set(&self, s: &mut State, d: u32, v: V) {
        s.cur.regs[d as usize] = v;
    }

    pub fn binop(&mut self, s: &State, k: BinK, w: u32, a: &V, b: &V) -> R<V> {
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let r = match k {
                    BinK::Add => x.wrapping_add(y),
                    BinK::Sub => x.wrapping_sub(y),
                    BinK::Mul => x.wrapping_mul(y),
                    BinK::And => x & y,
                    BinK::Or => x | y,
                    BinK::Xor => x ^ y,
                    BinK::Shl => {
                        if y >= w as u64 {
                            0
                        } else {
                            x << y
                        }
                    }
                    BinK::LShr => {
                        if y >= w as u64 {
                            0
                        } else {
                            x >> y
                        }
                    }
                    BinK::AShr => (sx(x, w) >> y.min(w as u64 - 1).min(63)) as u64,
                    BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem => {
                        if y == 0 {
                            return Err(Stop::Viol("ub".into(), "division by zero".into()));
                        }
                        match k {
                            BinK::UDiv => x / y,
                            BinK::URem => x % y,
                            BinK::SDiv => sx(x, w).wrapping_div(sx(y, w)) as u64,
                            _ => sx(x, w).wrapping_rem(sx(y, w)) as u64,
                        }
                    }
                };
                return Ok(V::C(msk(r, w)));
            }
        }
        let x = self.to_e(a, w)?;
        let y = self.to_e(b, w)?;
        let op = match k {
            BinK::Add => Op::Add,
            BinK::Sub => Op::Sub,
            BinK::Mul => Op::Mul,
            BinK::And => Op::And,
            BinK::Or => Op::Or,
            BinK::Xor => Op::Xor,
            BinK::Shl => Op::Shl,
            BinK::LShr => Op::LShr,
            BinK::AShr => Op::AShr,
            BinK::UDiv => Op::UDiv,
            BinK::URem => Op::URem,
            BinK::SDiv => Op::SDiv,
            BinK::SRem => Op::SRem,
        };
        let e = self.ctx.bin(op, x, y);
        Ok(self.mkv(s, e))
    }
    fn icmp(&mut self, s: &State, p: Pred, w: u32, a: &V, b: &V) -> R<V> {
        if w <= 64 {
            if let (V::C(x), V::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let (i, j) = (sx(x, w), sx(y, w));
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Slt => i < j,
                    Pred::Sle => i <= j,
                    Pred::Sgt => i > j,
                    Pred::Sge => i >= j,
                };
                return Ok(V::C(r as u64));
            }
        }
        let x = self.to_e(a, w)?;
        let y = self.to_e(b, w)?;
        let c = &mut self.ctx;
        let e = match p {
            Pred::Eq => c.bin(Op::Eq, x, y),
            Pred::Ne => {
                let q = c.bin(Op::Eq, x, y);
                c.not(q)
            }
            Pred::Ult => c.bin(Op::Ult, x, y),
            Pred::Ule => c.bin(Op::Ule, x, y),
            Pred::Ugt => c.bin(Op::Ult, y, x),
            Pred::Uge => c.bin(Op::Ule, y, x),
            Pred::Slt => c.bin(Op::Slt, x, y),
            Pred::Sle => c.bin(Op::Sle, x, y),
            Pred::Sgt => c.bin(Op::Slt, y, x),
            Pred::Sge => c.bin(Op::Sle, y, x),
        };
        Ok(self.mkv(s, e))
    }
    fn cast(&mut self, s: &State, k: CastK, f: u32, w: u32, a: &V) -> R<V> {
        if let (V::Agg(_), true) = (a, f <= 64 || matches!(k, CastK::Copy)) {
            return Ok(a.clone());
        }
        if f <= 64 && w <= 64 {
            if let V::C(x) = a {
                return Ok(V::C(match k {
                    CastK::Zext | CastK::Copy => *x,
                    CastK::Sext => msk(sx(*x, f) as u64, w),
                    CastK::Trunc => msk(*x, w),
                }));
            }
        }
        let e = self.to_e(a, f)?;
        let r = match k {
            CastK::Zext => self.ctx.zext(e, w as u8),
            CastK::Sext => self.ctx.sext(e, w as u8),
            CastK::Trunc => self.ctx.extract(e, 0, w as u8),
            CastK::Copy => e,
        };
        Ok(self.mkv(s, r))
    }
    fn select(&mut self, s: &mut State, t: &Ty, c: &V, a: &V, b: &V) -> R<V> {
        match c {
            V::C(x) => Ok(if *x & 1 == 1 { a.clone() } else { b.clone() }),
            V::S(e) => {
                let w = t.width();
                if w == 0 || *t == Ty::Ptr {
                    return Ok(if self.decide(s, c)? { a.clone() } else { b.clone() });
                }
                let x = self.to_e(a, w)?;
                let y = self.to_e(b, w)?;
                let r = self.ctx.ite(*e, x, y);
                Ok(self.mkv(s, r))
            }
            _ => Err(Stop::Err("select".into())),
        }
    }

    /// Executes one instruction; returns true when control moved to another block/frame.
    fn exec(&mut self, s: &mut State, i: &I) -> R<bool> {
        match i {
            I::Bin(k, d, w, a, b) => {
                let x = self.get(s, a);
                let mut y = self.get(s, b);
                if matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) {
                    if let V::S(_) = y {
                        y = V::C(self.concretise(s, &y, *w)?);
                    }
                }
                let v = self.binop(s, *k, *w, &x, &y)?;
                self.set(s, *d, v);
            }
            I::ICmp(p, d, w, a, b) => {
                let x = self.get(s, a);
                let y = self.get(s, b);
                let v = self.icmp(s, *p, *w, &x, &y)?;
                self.set(s, *d, v);
            }
            I::Cast(k, d, f, w, a) => {
                let x = self.get(s, a);
                let v = self.cast(s, *k, *f, *w, &x)?;
                self.set(s, *d, v);
            }
            I::Load(d, t, a) => {
                let p = self.get(s, a);
                if let V::S(e) = p {
                    if let Some(v) = self.table_load(s, e, t)? {
                        self.set(s, *d, v);
                        s.cur.ip += 1;
                        return Ok(false);
                    }
                }
                let p = self.concretise(s, &p, 64)?;
                let v = self.load_ty(s, p, t)?;
                self.set(s, *d, v);
            }
            I::Store(t, v, a) => {
                let p = self.get(s, a);
                let p = self.concretise(s, &p, 64)?;
                let v = self.get(s, v);
                self.store_ty(s, p, t, &v)?;
            }
            I::Gep(d, base, off, dy) => {
                let mut b = self.get(s, base);
                if dy.is_empty() {
                    if let V::C(x) = b {
                        self.set(s, *d, V::C(x.wrapping_add(*off)));
                        s.cur.ip += 1;
                        return Ok(false);
                    }
                }
                b = self.binop(s, BinK::Add, 64, &b, &V::C(*off))?;
                for (o, scale, w) in dy {
                    let x = self.get(s, o);
                    let x = self.cast(s, CastK::Sext, *w, 64, &x)?;
                    let y = self.binop(s, BinK::Mul, 64, &x, &V::C(*scale))?;
                    b = self.binop(s, BinK::Add, 64, &b, &y)?;
                }
                self.set(s, *d, b);
            }
            I::Alloca(d, n) => {
                let id = s.mem.stack.len() as u64;
                s.mem.stack.push(Rc::new(Obj::uninit(*n as usize, 16)));
                self.set(s, *d, V::C(addr(R_STACK, id)));
            }
            I::Br(t) => {
                self.jump(s, *t);
                return Ok(true);
            }
            I::CondBr(c, a, b) => {
                let v = self.get(s, c);
                let t = if self.decide(s, &v)? { *a } else { *b };
                self.jump(s, t);
                return Ok(true);
            }
            I::Switch(w, v, def, cases) => {
                let x = self.get(s, v);
                match x {
                    V::C(c) => {
                        let t = cases.iter().find(|k| k.0 == c).map(|k| k.1).unwrap_or(*def);
                        self.jump(s, t);
                    }
                    V::S(_) => {
                        let mut t = *def;
                        for (k, l) in cases {
                            let q = self.icmp(s, Pred::Eq, *w, &x, &V::C(*k))?;
                            if self.decide(s, &q)? {
                                t = *l;
                                break;
                            }
                        }
                        self.jump(s, t);
                    }
                    _ => return Err(Stop::Err("switch".into())),
                }
                return Ok(true);
            }
            I::Ret(v) => {
                let v = v.as_ref().map(|o| self.get(s, o));
                s.mem.stack.truncate(s.cur.stack_base);
                match s.frames.pop() {
                    None => return Err(Stop::Done),
                    Some(fr) => {
                        let ret = s.cur.ret_dst;
                        let normal = s.cur.ret_normal;
                        s.cur = Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone());
                        if let (Some(d), Some(v)) = (ret, v) {
                            s.cur.regs[d as usize] = v;
                        }
                        match normal {
                            Some(b) => self.jump(s, b),
                            None => s.cur.ip += 1,
                        }
                        return Ok(true);
                    }
                }
            }
            I::Unreachable => {
                return Err(Stop::Viol("ub".into(), "reached unreachable code".into()));
            }
            I::Select(d, t, c, a, b) => {
                let c = self.get(s, c);
                let a = self.get(s, a);
                let b = self.get(s, b);
                let v = self.select(s, t, &c, &a, &b)?;
                self.set(s, *d, v);
            }
            I::Extract(d, a, ix) => {
                let mut v = self.get(s, a);
                for k in ix {
                    v = match &v {
                        V::Agg(x) => x[*k as usize].clone(),
                        V::C(_) => V::C(0),
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(s, *d, v);
            }
            I::Insert(d, a, v, ix) => {
                let a = self.get(s, a);
                let v = self.get(s, v);
                fn ins(a: &V, v: V, ix: &[u32]) -> V {
                    if ix.is_empty() {
                        return v;
                    }
                    let mut x = match a {
                        V::Agg(x) => (**x).clone(),
                        _ => vec![V::C(0); ix[0] as usize + 1],
                    };
                    while x.len() <= ix[0] as usize {
                        x.push(V::C(0));
                    }
                    let old = x[ix[0] as usize].clone();
                    x[ix[0] as usize] = ins(&old, v, &ix[1..]);
                    V::Agg(Rc::new(x))
                }
                let r = ins(&a, v, ix);
                self.set(s, *d, r);
            }
            I::Rmw(d, op, w, a, v) => {
                let p = self.get(s, a);
                let p = self.concretise(s, &p, 64)?;
                let v = self.get(s, v);
                let old = self.load_scalar(s, p, *w)?;
                let new = match &**op {
                    "xchg" => v,
                    "add" => self.binop(s, BinK::Add, *w, &old, &v)?,
                    "sub" => self.binop(s, BinK::Sub, *w, &old, &v)?,
                    "and" => self.binop(s, BinK::And, *w, &old, &v)?,
                    "or" => self.binop(s, BinK::Or, *w, &old, &v)?,
                    "xor" => self.binop(s, BinK::Xor, *w, &old, &v)?,
                    "umax" | "umin" => {
                        let c = self.icmp(s, if &**op == "umax" { Pred::Ugt } else { Pred::Ult }, *w, &old, &v)?;
                        self.select(s, &Ty::Int(*w), &c, &old, &v)?
                    }
                    "nand" => {
                        let x = self.binop(s, BinK::And, *w, &old, &v)?;
                        self.binop(s, BinK::Xor, *w, &x, &V::C(msk(u64::MAX, *w)))?
                    }
                    "max" | "min" => {
                        let c = self.icmp(s, if &**op == "max" { Pred::Sgt } else { Pred::Slt }, *w, &old, &v)?;
                        self.select(s, &Ty::Int(*w), &c, &old, &v)?
                    }
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store_scalar(s, p, *w, &new)?;
                self.set(s, *d, old);
            }
            I::CmpXchg(d, w, a, c, n) => {
                let p = self.get(s, a);
                let p = self.concretise(s, &p, 64)?;
                let c = self.get(s, c);
                let n = self.get(s, n);
                let old = self.load_scalar(s, p, *w)?;
                let eq = self.icmp(s, Pred::Eq, *w, &old, &c)?;
                let ok = self.decide(s, &eq)?;
                if ok {
                    self.store_scalar(s, p, *w, &n)?;
                }
                self.set(s, *d, V::Agg(Rc::new(vec![old, V::C(ok as u64)])));
            }
            I::Nop => {}
            I::Unsupported(t) => return Err(Stop::Err(format!("unsupported: {}", t))),
            I::Call { dst, ret, callee, args, normal } => {
                return self.call(s, *dst, ret, callee, args, *normal);
            }
        }
        s.cur.ip += 1;
        Ok(false)
    }

    fn fin(&mut self, s: &mut State, dst: Option<u32>, v: V, normal: Option<u32>) -> R<bool> {
        if let Some(d) = dst {
            s.cur.regs[d as usize] = v;
        }
        match normal {
            Some(b) => {
                self.jump(s, b);
                Ok(true)
            }
            None => {
                s.cur.ip += 1;
                Ok(false)
            }
        }
    }

    fn call(
        &mut self,
        s: &mut State,
        dst: Option<u32>,
        ret: &Rc<Ty>,
        callee: &Callee,
        args: &[(Opd, Rc<Ty>)],
        normal: Option<u32>,
    ) -> R<bool> {
        let id = match callee {
            Callee::Intrinsic(n) => {
                let n = n.clone();
                let v = self.intrinsic(s, &n, ret, args)?;
                return self.fin(s, dst, v, normal);
            }
            Callee::Asm => {
                if dst.is_none() || **ret == Ty::Void {
                    return self.fin(s, None, V::C(0), normal);
                }
                return Err(Stop::Err("inline asm".into()));
            }
            Callee::Direct(id) => *id,
            Callee::Indirect(o) => {
                let p = self.get(s, o);
                let p = self.concretise(s, &p, 64)?;
                if p >> 44 != R_FUNC {
                    return Err(Stop::Viol("memory".into(), format!("call through bad pointer {:x}", p)));
                }
                ((p & ((1 << 44) - 1)) >> 4) as u32
            }
        };
        let k = self.kind(id);
        if k == FK::Normal {
            let mut av: Vec<V> = Vec::with_capacity(args.len());
            for (o, _) in args {
                av.push(self.get(s, o));
            }
            let f = self.m.parse_func(id).map_err(|e| Stop::Err(format!("parse: {}", e)))?;
            self.st.funcs.insert(id);
            if s.frames.len() > 400 {
                return Err(Stop::Viol("hang".into(), "call stack overflow".into()));
            }
            let mut regs = vec![V::C(0); f.nregs as usize];
            for (p, v) in f.params.iter().zip(av) {
                regs[*p as usize] = v;
            }
            let nf = Frame {
                func: f,
                regs,
                block: 0,
                ip: 0,
                stack_base: s.mem.stack.len(),
                ret_dst: dst,
                ret_normal: normal,
            };
            let old = std::mem::replace(&mut s.cur, nf);
            s.frames.push(Rc::new(old));
            return Ok(true);
        }
        // intercepted functions
        let mut av: Vec<V> = Vec::with_capacity(args.len());
        for (o, _) in args {
            av.push(self.get(s, o));
        }
        macro_rules! conc {
            ($i:expr) => {{
                let v = av[$i].clone();
                self.concretise(s, &v, 64)?
            }};
        }
        let v = match k {
            FK::Alloc => {
                let (n, a) = (conc!(0), conc!(1));
                V::C(self.alloc(s, n, a, false)?)
            }
            FK::AllocZ => {
                let (n, a) = (conc!(0), conc!(1));
                V::C(self.alloc(s, n, a, true)?)
            }
            FK::Malloc => {
                let n = conc!(0);
                V::C(self.alloc(s, n, 16, false)?)
            }
            FK::Calloc => {
                let n = conc!(0) * conc!(1);
                V::C(self.alloc(s, n, 16, true)?)
            }
            FK::Dealloc | FK::Free => {
                let p = conc!(0);
                self.free(s, p)?;
                V::C(0)
            }
            FK::Realloc => {
                let (p, old, a, new) = (conc!(0), conc!(1), conc!(2), conc!(3));
                let q = self.alloc(s, new, a, false)?;
                self.memcpy(s, q, p, old.min(new))?;
                self.free(s, p)?;
                V::C(q)
            }
            FK::Nop => V::C(0),
            FK::Panic => {
                let name = demangle(&self.m.funcs[id as usize].name.clone());
                let mut msg = name.clone();
                if let (Some(V::C(p)), Some(V::C(n))) = (av.first().cloned(), av.get(1).cloned()) {
                    if n < 300 && (p >> 44) == R_GLOBAL && !name.contains("bounds") {
                        msg = format!("{}: {}", name, self.read_str(s, p, n));
                    }
                }
                if let Some(V::C(p)) = av.last().cloned() {
                    if (p >> 44) == R_GLOBAL {
                        if let (Ok(V::C(fp)), Ok(V::C(fl)), Ok(V::C(ln))) = (
                            self.load_scalar(s, p, 64),
                            self.load_scalar(s, p + 8, 64),
                            self.load_scalar(s, p + 16, 32),
                        ) {
                            let f = self.read_str(s, fp, fl);
                            msg = format!("{} at {}:{}", msg, f.trim_end_matches('\0'), ln);
                        }
                    }
                }
                return Err(Stop::Viol("panic".into(), msg));
            }
            FK::Abort => return Err(Stop::Viol("abort".into(), "abort called".into())),
            FK::Bcmp => {
                let (a, b, n) = (conc!(0), conc!(1), conc!(2));
                let is_memcmp = &*self.m.funcs[id as usize].name == "memcmp";
                self.bcmp(s, a, b, n, is_memcmp)?
            }
            FK::Strlen => {
                let p = conc!(0);
                let mut n = 0;
                loop {
                    match self.load_scalar(s, p + n, 8)? {
                        V::C(0) => break,
                        _ => n += 1,
                    }
                }
                V::C(n)
            }
            FK::SymNew => {
                let w = conc!(0) as u8;
                let label = {
                    let (p, n) = (conc!(1), conc!(2));
                    self.read_str(s, p, n)
                };
                let e = self.new_var(s, w, &label);
                let e64 = self.ctx.zext(e, 64);
                self.mkv(s, e64)
            }
            FK::SymPick => {
                // creating the variable is a side effect: do it once, then concretise
                let n = conc!(0);
                let label = {
                    let (p, l) = (conc!(1), conc!(2));
                    self.read_str(s, p, l)
                };
                let id = s.vars.len() as u32;
                let e = self.new_var(s, 32, &label);
                let k = self.ctx.konst(n as u128, 32);
                let c = self.ctx.bin(Op::Ult, e, k);
                if n > 1 {
                    // one state per value
                    s.pc.push(c);
                    for v in (1..n).rev() {
                        let mut o = s.clone();
                        let kv = self.ctx.konst(v as u128, 32);
                        let q = self.ctx.bin(Op::Eq, e, kv);
                        Self::upd_model(&mut o, &[(id, v)]);
                        self.assume(&mut o, q);
                        o.known.insert(e, v);
                        if let Some(d) = dst {
                            o.cur.regs[d as usize] = V::C(v);
                        }
                        match normal {
                            Some(b) => self.jump(&mut o, b),
                            None => o.cur.ip += 1,
                        }
                        self.st.forks += 1;
                        self.work.push(o);
                    }
                }
                let kv = self.ctx.konst(0, 32);
                let q = self.ctx.bin(Op::Eq, e, kv);
                self.assume(s, q);
                s.known.insert(e, 0);
                V::C(0)
            }
            FK::SymAssume => {
                let c = self.bool_of(s, &av[0])?;
                match c {
                    V::C(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Pruned);
                        }
                    }
                    V::S(e) => {
                        if self.eval(s, e) != 1 {
                            match self.feasible(s, e) {
                                Sat::Sat(m) => Self::upd_model(s, &m),
                                Sat::Unsat => return Err(Stop::Pruned),
                                Sat::Unknown => return Err(Stop::Err("solver unknown in assume".into())),
                            }
                        }
                        self.assume(s, e);
                    }
                    _ => return Err(Stop::Err("assume".into())),
                }
                V::C(0)
            }
            FK::SymAssert => {
                let id = {
                    let (p, l) = (conc!(1), conc!(2));
                    self.read_str(s, p, l)
                };
                let c = self.bool_of(s, &av[0])?;
                match c {
                    V::C(x) => {
                        self.st.asserts_conc += 1;
                        *self.st.asserts_conc_by.entry(id.clone()).or_default() += 1;
                        if x & 1 == 0 {
                            return Err(Stop::Viol("assert".into(), id));
                        }
                    }
                    V::S(e) => {
                        self.st.asserts_sym += 1;
                        *self.st.asserts_sym_by.entry(id.clone()).or_default() += 1;
                        let ne = self.ctx.not(e);
                        if self.eval(s, e) != 1 {
                            return Err(Stop::Viol("assert".into(), id));
                        }
                        match self.feasible(s, ne) {
                            Sat::Unsat => {
                                self.learn(s, e, true);
                            }
                            Sat::Sat(m) => {
                                let mut o = s.clone();
                                Self::upd_model(&mut o, &m);
                                self.assume(&mut o, ne);
                                self.report(&o, "assert".into(), id);
                                self.assume(s, e);
                            }
                            Sat::Unknown => return Err(Stop::Err(format!("solver unknown at assert {}", id))),
                        }
                    }
                    _ => return Err(Stop::Err("assert".into())),
                }
                V::C(0)
            }
            FK::SymReach => {
                let id = {
                    let (p, l) = (conc!(0), conc!(1));
                    self.read_str(s, p, l)
                };
                *self.st.reach.entry(id).or_default() += 1;
                V::C(0)
            }
            FK::SymLog => {
                let id = {
                    let (p, l) = (conc!(1), conc!(2));
                    self.read_str(s, p, l)
                };
                s.log.push((id.as_str().into(), av[0].clone()));
                V::C(0)
            }
            FK::SymFix => V::C(conc!(0)),
            FK::SymTrue => V::C(1),
            FK::Decl => {
                return Err(Stop::Err(format!("call to external {}", self.m.funcs[id as usize].name)));
            }
            FK::Normal => unreachable!(),
        };
        self.fin(s, dst, v, normal)
    }
    fn bool_of(&mut self, s: &State, v: &V) -> R<V> {
        // i1 or zero-extended i8
        match v {
            V::S(e) if self.ctx.w(*e) != 1 => {
                let x = self.ctx.extract(*e, 0, 1);
                Ok(self.mkv(s, x))
            }
            _ => Ok(v.clone()),
        }
    }
    fn new_var(&mut self, s: &mut State, w: u8, label: &str) -> E {
        let id = s.vars.len() as u32;
        s.vars.push(SymVar { w, label: label.into() });
        if s.model.len() <= id as usize {
            s.model.resize(id as usize + 1, 0);
        }
        self.ctx.var(id, w)
    }
    fn bcmp(&mut self, s: &mut State, a: u64, b: u64, n: u64, ordered: bool) -> R<V> {
        // decide equality byte by byte as one condition
        let mut conj: Option<E> = None;
        if !ordered {
            for i in 0..n {
                let x = self.load_scalar(s, a + i, 8)?;
                let y = self.load_scalar(s, b + i, 8)?;
                match self.icmp(s, Pred::Eq, 8, &x, &y)? {
                    V::C(1) => {}
                    V::C(_) => return Ok(V::C(1)),
                    V::S(e) => {
                        conj = Some(match conj {
                            None => e,
                            Some(c) => self.ctx.bin(Op::And, c, e),
                        })
                    }
                    _ => {}
                }
            }
            return match conj {
                None => Ok(V::C(0)),
                Some(e) => {
                    let z = self.ctx.konst(0, 32);
                    let o = self.ctx.konst(1, 32);
                    let r = self.ctx.ite(e, z, o);
                    Ok(self.mkv(s, r))
                }
            };
        }
        for i in 0..n {
            let x = self.load_scalar(s, a + i, 8)?;
            let y = self.load_scalar(s, b + i, 8)?;
            let q = self.icmp(s, Pred::Eq, 8, &x, &y)?;
            if !self.decide(s, &q)? {
                let l = self.icmp(s, Pred::Ult, 8, &x, &y)?;
                return Ok(V::C(if self.decide(s, &l)? { 0xffff_ffff } else { 1 }));
            }
        }
        Ok(V::C(0))
    }

    fn intrinsic(&mut self, s: &mut State, n: &str, ret: &Rc<Ty>, args: &[(Opd, Rc<Ty>)]) -> R<V> {
        let n = &n[5..];
        if n.starts_with("lifetime")
            || n.starts_with("experimental.noalias")
            || n.starts_with("dbg")
            || n.starts_with("invariant")
            || n.starts_with("prefetch")
            || n.starts_with("donothing")
        {
            return Ok(V::C(0));
        }
        let a = |i: usize| -> V { self.get(s, &args[i].0) };
        let w = ret.width();
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (d, sr, l) = (a(0), a(1), a(2));
            let d = self.concretise(s, &d, 64)?;
            let sr = self.concretise(s, &sr, 64)?;
            let l = self.concretise(s, &l, 64)?;
            self.memcpy(s, d, sr, l)?;
            return Ok(V::C(0));
        }
        if n.starts_with("memset") {
            let (d, v, l) = (a(0), a(1), a(2));
            let d = self.concretise(s, &d, 64)?;
            let l = self.concretise(s, &l, 64)?;
            if l > 0 {
                match v {
                    V::C(c) => match self.locate_mut(s, d, l) {
                        Ok((o, off)) => {
                            for i in 0..l as usize {
                                o.write_conc(off + i, 1, c);
                            }
                        }
                        Err(e) => return Err(self.merr(e)),
                    },
                    _ => {
                        for i in 0..l {
                            self.store_scalar(s, d + i, 8, &v)?;
                        }
                    }
                }
            }
            return Ok(V::C(0));
        }
        if n.starts_with("assume") {
            if args.len() == 1 {
                let v = a(0);
                match v {
                    V::C(0) => return Err(Stop::Viol("ub".into(), "llvm.assume(false)".into())),
                    V::S(e) if s.known.get(&e).is_none() => {
                        // The compiler derived this fact from the source (e.g. a niche or an
                        // unchecked operation); it must hold on every feasible path.
                        let ne = self.ctx.not(e);
                        match self.feasible(s, ne) {
                            Sat::Unsat => self.learn(s, e, true),
                            Sat::Sat(m) => {
                                let mut o = s.clone();
                                Self::upd_model(&mut o, &m);
                                self.assume(&mut o, ne);
                                self.report(&o, "ub".into(), "llvm.assume violated".into());
                                self.assume(s, e);
                            }
                            Sat::Unknown => return Err(Stop::Err("solver unknown at assume".into())),
                        }
                    }
                    _ => {}
                }
            }
            return Ok(V::C(0));
        }
        if n.starts_with("trap") || n.starts_with("debugtrap") {
            return Err(Stop::Viol("abort".into(), "trap".into()));
        }
        if n.starts_with("x86.sse2.pause") {
            s.pauses += 1;
            if s.pauses > 2000 {
                return Err(Stop::Viol("hang".into(), "spin lock never released".into()));
            }
            return Ok(V::C(0));
        }
        if n.starts_with("threadlocal.address") {
            return Ok(a(0));
        }
        if n.starts_with("expect") {
            return Ok(a(0));
        }
        if n.starts_with("is.constant") {
            return Ok(V::C(0));
        }
        if n.starts_with("umin") || n.starts_with("umax") || n.starts_with("smin") || n.starts_with("smax") {
            let (x, y) = (a(0), a(1));
            let p = match &n[..4] {
                "umin" => Pred::Ult,
                "umax" => Pred::Ugt,
                "smin" => Pred::Slt,
                _ => Pred::Sgt,
            };
            let c = self.icmp(s, p, w, &x, &y)?;
            return self.select(s, &Ty::Int(w), &c, &x, &y);
        }
        if n.starts_with("abs.") {
            let x = a(0);
            let c = self.icmp(s, Pred::Slt, w, &x, &V::C(0))?;
            let ng = self.binop(s, BinK::Sub, w, &V::C(0), &x)?;
            return self.select(s, &Ty::Int(w), &c, &ng, &x);
        }
        if n.contains(".with.overflow") {
            let (x, y) = (a(0), a(1));
            let w = args[0].1.width();
            let (k, signed) = match &n[..4] {
                "uadd" => (BinK::Add, false),
                "usub" => (BinK::Sub, false),
                "umul" => (BinK::Mul, false),
                "sadd" => (BinK::Add, true),
                "ssub" => (BinK::Sub, true),
                _ => (BinK::Mul, true),
            };
            let r = self.binop(s, k, w, &x, &y)?;
            let o = match (k, signed) {
                (BinK::Add, false) => self.icmp(s, Pred::Ult, w, &r, &x)?,
                (BinK::Sub, false) => self.icmp(s, Pred::Ult, w, &x, &y)?,
                _ => {
                    if let (V::C(p), V::C(q)) = (&x, &y) {
                        if w <= 64 {
                            let (p, q) = if signed {
                                (sx(*p, w) as i128, sx(*q, w) as i128)
                            } else {
                                (*p as i128, *q as i128)
                            };
                            let z = match k {
                                BinK::Add => p + q,
                                BinK::Sub => p - q,
                                _ => p.checked_mul(q).unwrap_or(i128::MAX),
                            };
                            let (lo, hi) = if signed {
                                (-(1i128 << (w - 1)), (1i128 << (w - 1)) - 1)
                            } else {
                                (0, (1i128 << w) - 1)
                            };
                            return Ok(V::Agg(Rc::new(vec![r, V::C((z < lo || z > hi) as u64)])));
                        }
                    }
                    if w > 60 && k == BinK::Mul {
                        // extend to 128 bits (w <= 64)
                        let (c1, c2) = (if signed { CastK::Sext } else { CastK::Zext }, 2 * w);
                        let p = self.cast(s, c1, w, c2, &x)?;
                        let q = self.cast(s, c1, w, c2, &y)?;
                        let z = self.binop(s, k, c2, &p, &q)?;
                        let rr = self.cast(s, c1, w, c2, &r)?;
                        self.icmp(s, Pred::Ne, c2, &z, &rr)?
                    } else {
                        let c1 = if signed { CastK::Sext } else { CastK::Zext };
                        let p = self.cast(s, c1, w, 2 * w, &x)?;
                        let q = self.cast(s, c1, w, 2 * w, &y)?;
                        let z = self.binop(s, k, 2 * w, &p, &q)?;
                        let rr = self.cast(s, c1, w, 2 * w, &r)?;
                        self.icmp(s, Pred::Ne, 2 * w, &z, &rr)?
                    }
                }
            };
            return Ok(V::Agg(Rc::new(vec![r, o])));
        }
        if n.starts_with("uadd.sat") {
            let (x, y) = (a(0), a(1));
            let r = self.binop(s, BinK::Add, w, &x, &y)?;
            let c = self.icmp(s, Pred::Ult, w, &r, &x)?;
            let m = V::C(msk(u64::MAX, w));
            return self.select(s, &Ty::Int(w), &c, &m, &r);
        }
        if n.starts_with("usub.sat") {
            let (x, y) = (a(0), a(1));
            let r = self.binop(s, BinK::Sub, w, &x, &y)?;
            let c = self.icmp(s, Pred::Ult, w, &x, &y)?;
            return self.select(s, &Ty::Int(w), &c, &V::C(0), &r);
        }
        if n.starts_with("fshl") || n.starts_with("fshr") {
            let (x, y, z) = (a(0), a(1), a(2));
            let k = self.concretise(s, &z, w)? % w as u64;
            let left = n.starts_with("fshl");
            if k == 0 {
                return Ok(if left { x } else { y });
            }
            let (l, r) = if left { (k, w as u64 - k) } else { (w as u64 - k, k) };
            let p = self.binop(s, BinK::Shl, w, &x, &V::C(l))?;
            let q = self.binop(s, BinK::LShr, w, &y, &V::C(r))?;
            return self.binop(s, BinK::Or, w, &p, &q);
        }
        if n.starts_with("bswap") || n.starts_with("bitreverse") {
            let x = a(0);
            let bs = n.starts_with("bswap");
            if let V::C(c) = x {
                let r = if bs { c.swap_bytes() >> (64 - w) } else { c.reverse_bits() >> (64 - w) };
                return Ok(V::C(r));
            }
            let e = self.to_e(&x, w)?;
            let step = if bs { 8 } else { 1 };
            let mut acc: Option<E> = None;
            let mut i = 0;
            while i < w {
                let p = self.ctx.extract(e, i as u8, step);
                acc = Some(match acc {
                    None => p,
                    Some(h) => self.ctx.concat(h, p),
                });
                i += step as u32;
            }
            return Ok(self.mkv(s, acc.unwrap()));
        }
        if n.starts_with("ctpop") || n.starts_with("ctlz") || n.starts_with("cttz") {
            let x = a(0);
            if let V::C(c) = x {
                let r = if n.starts_with("ctpop") {
                    c.count_ones()
                } else if n.starts_with("ctlz") {
                    if c == 0 {
                        w
                    } else {
                        c.leading_zeros() - (64 - w)
                    }
                } else if c == 0 {
                    w
                } else {
                    c.trailing_zeros()
                };
                return Ok(V::C(r as u64));
            }
            let e = self.to_e(&x, w)?;
            if n.starts_with("ctpop") {
                let mut acc = self.ctx.konst(0, w as u8);
                for i in 0..w {
                    let b = self.ctx.extract(e, i as u8, 1);
                    let z = self.ctx.zext(b, w as u8);
                    acc = self.ctx.bin(Op::Add, acc, z);
                }
                return Ok(self.mkv(s, acc));
            }
            let mut acc = self.ctx.konst(w as u128, w as u8);
            for i in 0..w {
                // last assignment wins: scan from the far end
                let (bit, val) = if n.starts_with("ctlz") { (i, w - 1 - i) } else { (w - 1 - i, w - 1 - i) };
                let b = self.ctx.extract(e, bit as u8, 1);
                let k = self.ctx.konst(val as u128, w as u8);
                acc = self.ctx.ite(b, k, acc);
            }
            return Ok(self.mkv(s, acc));
        }
        if n.starts_with("ucmp") || n.starts_with("scmp") {
            let (x, y) = (a(0), a(1));
            let iw = args[0].1.width();
            let lt = self.icmp(s, if n.starts_with("ucmp") { Pred::Ult } else { Pred::Slt }, iw, &x, &y)?;
            let eq = self.icmp(s, Pred::Eq, iw, &x, &y)?;
            let r = self.select(s, &Ty::Int(w), &eq, &V::C(0), &V::C(1))?;
            return self.select(s, &Ty::Int(w), &lt, &V::C(msk(u64::MAX, w)), &r);
        }
        Err(Stop::Err(format!("intrinsic {}", n)))
    }
}

/// Rough v0 demangling: the list of path identifiers.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") {
        return n.to_string();
    }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i] == b's' && i + 1 < b.len() {
            // disambiguator s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j] != b'_' && b[j].is_ascii_alphanumeric() && j - i < 14 {
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                i = j + 1;
                continue;
            }
        }
        if b[i].is_ascii_digit() && b[i] != b'0' {
            let mut j = i;
            let mut len = 0usize;
            while j < b.len() && b[j].is_ascii_digit() {
                len = len * 10 + (b[j] - b'0') as usize;
                j += 1;
            }
            if j < b.len() && b[j] == b'_' {
                j += 1;
            }
            if j + len <= b.len() && len < 80 {
                out.push(n[j..j + len].to_string());
                i = j + len;
                continue;
            }
        }
        if b[i] == b'0' && !out.is_empty() {
            // closure
        }
        i += 1;
    }
    out.dedup();
    out.join("::")
}
