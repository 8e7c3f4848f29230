//! Parser for the textual LLVM IR that rustc emits (the subset Rust code uses).
use crate::expr::FxMap;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    C(u64),
    S(u32),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Arr(u64, Rc<Ty>),
    Vec(u64, Rc<Ty>),
    Struct(Vec<Rc<Ty>>, bool),
    Float,
    Double,
    Other,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.size()).next_power_of_two(),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = ((*w as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr | Ty::Double => 8,
            Ty::Float => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => n * t.size(),
            Ty::Struct(_, packed) => {
                let n = self.fields();
                let (off, last) = match n.last() {
                    Some(x) => (x.0, x.1.size()),
                    None => return 0,
                };
                let e = off + last;
                if *packed {
                    e
                } else {
                    let a = self.align();
                    (e + a - 1) / a * a
                }
            }
            _ => 0,
        }
    }
    pub fn fields(&self) -> Vec<(u64, Rc<Ty>)> {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                let mut out = vec![];
                for t in f {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    out.push((off, t.clone()));
                    off += t.size();
                }
                out
            }
            _ => vec![],
        }
    }
    /// Width in bits of a scalar (or small vector handled as an integer); 0 for aggregates.
    pub fn width(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float => 32,
            Ty::Double => 64,
            _ => 0,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinK {
    Add,
    Sub,
    Mul,
    UDiv,
    URem,
    SDiv,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CastK {
    Zext,
    Sext,
    Trunc,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
    Intrinsic(Rc<str>),
    Asm,
}

#[derive(Clone, Debug)]
pub enum I {
    Bin(BinK, u32, u32, Opd, Opd),
    ICmp(Pred, u32, u32, Opd, Opd),
    Cast(CastK, u32, u32, u32, Opd), // kind, dst, from, to
    Load(u32, Rc<Ty>, Opd),
    Store(Rc<Ty>, Opd, Opd),
    Gep(u32, Opd, u64, Vec<(Opd, u64, u32)>),
    Alloca(u32, u64),
    Call { dst: Option<u32>, ret: Rc<Ty>, callee: Callee, args: Vec<(Opd, Rc<Ty>)>, normal: Option<u32> },
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, u32, Vec<(u64, u32)>),
    Ret(Option<Opd>),
    Unreachable,
    Select(u32, Rc<Ty>, Opd, Opd, Opd),
    Extract(u32, Opd, Vec<u32>),
    Insert(u32, Opd, Opd, Vec<u32>),
    Rmw(u32, Rc<str>, u32, Opd, Opd), // dst, op, width, ptr, val
    CmpXchg(u32, u32, Opd, Opd, Opd),
    Nop,
    Unsupported(Rc<str>),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<(I, u32)>, // instruction, !dbg id (0 = none)
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: Rc<str>,
    pub params: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub enum FuncBody {
    Decl,
    Text(usize, usize), // line range
}

pub struct FuncDecl {
    pub name: Rc<str>,
    pub body: FuncBody,
    pub parsed: Option<Rc<Func>>,
}

pub struct Global {
    pub name: String,
    pub size: u64,
    pub line: usize,
    pub constant: bool,
}

pub struct Module {
    pub lines: Vec<String>,
    pub funcs: Vec<FuncDecl>,
    pub func_ix: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub global_ix: HashMap<String, u32>,
    pub named_ty: HashMap<String, Rc<Ty>>,
    pub aliases: HashMap<String, String>,
    pub dbg_sub: FxMap<u32, (String, String)>,
}

pub const R_GLOBAL: u64 = 1;
pub const R_HEAP: u64 = 2;
pub const R_STACK: u64 = 3;
pub const R_FUNC: u64 = 4;
pub fn addr(region: u64, idx: u64) -> u64 {
    (region << 44) | (idx << 24)
}

#[derive(Clone, Debug, PartialEq)]
enum Tok {
    W(String),
    L(String),
    G(String),
    S(Vec<u8>),
    P(char),
    M(String),
}

fn lex(s: &str) -> Vec<Tok> {
    let b = s.as_bytes();
    let mut i = 0;
    let mut out = vec![];
    let wordc = |c: u8| c.is_ascii_alphanumeric() || c == b'.' || c == b'_' || c == b'-' || c == b'$' || c == b'+';
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' => i += 1,
            b';' => break,
            b'%' | b'@' => {
                i += 1;
                let name;
                if i < b.len() && b[i] == b'"' {
                    let st = i + 1;
                    i += 1;
                    while b[i] != b'"' {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                    i += 1;
                } else {
                    let st = i;
                    while i < b.len() && wordc(b[i]) {
                        i += 1;
                    }
                    name = s[st..i].to_string();
                }
                out.push(if c == b'%' { Tok::L(name) } else { Tok::G(name) });
            }
            b'!' => {
                let st = i;
                i += 1;
                while i < b.len() && wordc(b[i]) {
                    i += 1;
                }
                out.push(Tok::M(s[st..i].to_string()));
            }
            b'#' => {
                i += 1;
                while i < b.len() && wordc(b[i]) {
                    i += 1;
                }
            }
            b'"' => {
                i += 1;
                let mut v = vec![];
                while b[i] != b'"' {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(b'\\');
                            i += 2;
                        } else {
                            v.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                            i += 3;
                        }
                    } else {
                        v.push(b[i]);
                        i += 1;
                    }
                }
                i += 1;
                out.push(Tok::S(v));
            }
            _ if wordc(c) => {
                let st = i;
                while i < b.len() && wordc(b[i]) {
                    i += 1;
                }
                // c"..." strings
                if i < b.len() && b[i] == b'"' && i - st == 1 && c == b'c' {
                    continue;
                }
                // label / string attr like foo: keep ':' separate
                out.push(Tok::W(s[st..i].to_string()));
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct P<'m> {
    t: Vec<Tok>,
    i: usize,
    m: &'m Module,
}

type R<T> = Result<T, String>;

impl<'m> P<'m> {
    fn new(s: &str, m: &'m Module) -> Self {
        P { t: lex(s), i: 0, m }
    }
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> R<Tok> {
        let t = self.t.get(self.i).cloned().ok_or("unexpected end")?;
        self.i += 1;
        Ok(t)
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp(&mut self, c: char) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} got {:?}", c, self.peek()))
        }
    }
    fn is_w(&self, w: &str) -> bool {
        matches!(self.peek(), Some(Tok::W(x)) if x == w)
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.is_w(w) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn word(&mut self) -> R<String> {
        match self.next()? {
            Tok::W(w) => Ok(w),
            t => Err(format!("expected word got {:?}", t)),
        }
    }
    fn local(&mut self) -> R<String> {
        match self.next()? {
            Tok::L(w) => Ok(w),
            t => Err(format!("expected local got {:?}", t)),
        }
    }
    fn skip_parens(&mut self) -> R<()> {
        self.exp('(')?;
        let mut d = 1;
        while d > 0 {
            match self.next()? {
                Tok::P('(') => d += 1,
                Tok::P(')') => d -= 1,
                _ => {}
            }
        }
        Ok(())
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::W(w)) => {
                w == "ptr"
                    || w == "void"
                    || w == "float"
                    || w == "double"
                    || w == "half"
                    || w == "label"
                    || w == "metadata"
                    || w == "token"
                    || (w.starts_with('i')
                        && w.len() > 1
                        && w[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::L(n)) => self.m.named_ty.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs(&mut self) -> R<()> {
        while !self.at_type() {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let al = w == "align" || w == "cc" || w == "addrspace";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                Some(Tok::S(_)) => {
                    self.i += 1;
                    if self.eat('=') {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
        Ok(())
    }
    /// Attributes between a parameter type and its value.
    fn skip_param_attrs(&mut self) -> R<()> {
        loop {
            match self.peek() {
                Some(Tok::W(w)) => {
                    let first = w.as_bytes()[0];
                    if first.is_ascii_digit() || first == b'-' {
                        return Ok(());
                    }
                    match w.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer"
                        | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "none"
                        | "splat" | "asm" | "blockaddress" | "sub" | "add" | "xor" | "trunc"
                        | "ptrtoaddr" => return Ok(()),
                        _ => {}
                    }
                    let al = w == "align";
                    self.i += 1;
                    if self.is_p('(') {
                        self.skip_parens()?;
                    } else if al {
                        self.i += 1;
                    }
                }
                _ => return Ok(()),
            }
        }
    }
    fn ty(&mut self) -> R<Rc<Ty>> {
        let t = match self.next()? {
            Tok::W(w) => match w.as_str() {
                "ptr" => {
                    if self.is_w("addrspace") {
                        self.i += 1;
                        self.skip_parens()?;
                    }
                    Ty::Ptr
                }
                "void" => Ty::Void,
                "float" => Ty::Float,
                "double" => Ty::Double,
                "label" | "metadata" | "token" | "half" => Ty::Other,
                _ if w.starts_with('i') => {
                    Ty::Int(w[1..].parse().map_err(|_| format!("bad type {}", w))?)
                }
                _ => return Err(format!("bad type {}", w)),
            },
            Tok::L(n) => {
                return self.m.named_ty.get(&n).cloned().ok_or(format!("unknown type {}", n))
            }
            Tok::P('{') => Ty::Struct(self.ty_list('}')?, false),
            Tok::P('[') => {
                let n: u64 = self.word()?.parse().map_err(|_| "bad array len")?;
                if !self.eat_w("x") {
                    return Err("array x".into());
                }
                let t = self.ty()?;
                self.exp(']')?;
                Ty::Arr(n, t)
            }
            Tok::P('<') => {
                if self.eat('{') {
                    let f = self.ty_list('}')?;
                    self.exp('>')?;
                    Ty::Struct(f, true)
                } else {
                    let n: u64 = self.word()?.parse().map_err(|_| "bad vec len")?;
                    if !self.eat_w("x") {
                        return Err("vec x".into());
                    }
                    let t = self.ty()?;
                    self.exp('>')?;
                    Ty::Vec(n, t)
                }
            }
            t => return Err(format!("bad type {:?}", t)),
        };
        Ok(Rc::new(t))
    }
    fn ty_list(&mut self, end: char) -> R<Vec<Rc<Ty>>> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty()?);
            if self.eat(end) {
                return Ok(v);
            }
            self.exp(',')?;
        }
    }
    fn zero(t: &Ty) -> V {
        match t {
            Ty::Struct(f, _) => V::Agg(Rc::new(f.iter().map(|x| Self::zero(x)).collect())),
            Ty::Arr(n, t) | Ty::Vec(n, t) => {
                V::Agg(Rc::new((0..*n).map(|_| Self::zero(t)).collect()))
            }
            _ => V::C(0),
        }
    }
    fn const_addr(&mut self) -> R<u64> {
        // type + constant expecting a number
        let t = self.ty()?;
        match self.konst(&t)? {
            V::C(c) => Ok(c),
            _ => Err("non scalar const".into()),
        }
    }
    fn konst(&mut self, t: &Ty) -> R<V> {
        match self.next()? {
            Tok::W(w) => match w.as_str() {
                "true" => Ok(V::C(1)),
                "false" | "null" | "none" => Ok(V::C(0)),
                "undef" | "poison" | "zeroinitializer" => Ok(Self::zero(t)),
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.next()?;
                        if self.is_p('(') && matches!(self.t.get(self.i - 1), Some(Tok::W(x)) if x == "inrange")
                        {
                            self.skip_parens()?;
                        }
                    }
                    self.exp('(')?;
                    let et = self.ty()?;
                    self.exp(',')?;
                    let mut a = self.const_addr()?;
                    let mut cur = et;
                    let mut first = true;
                    while self.eat(',') {
                        self.eat_w("inrange");
                        let it = self.ty()?;
                        let ix = match self.konst(&it)? {
                            V::C(c) => sx(c, it.width()),
                            _ => return Err("gep idx".into()),
                        };
                        if first {
                            a = a.wrapping_add((cur.size() as i64).wrapping_mul(ix) as u64);
                            first = false;
                        } else {
                            let (off, nt) = step(&cur, ix as u64)?;
                            a = a.wrapping_add(off);
                            cur = nt;
                        }
                    }
                    self.exp(')')?;
                    Ok(V::C(a))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.exp('(')?;
                    let a = self.const_addr()?;
                    if !self.eat_w("to") {
                        return Err("cast to".into());
                    }
                    let tt = self.ty()?;
                    self.exp(')')?;
                    Ok(V::C(msk(a, tt.width())))
                }
                "sub" | "add" | "xor" => {
                    while !self.is_p('(') {
                        self.next()?;
                    }
                    self.exp('(')?;
                    let a = self.const_addr()?;
                    self.exp(',')?;
                    let b = self.const_addr()?;
                    self.exp(')')?;
                    let r = match w.as_str() {
                        "sub" => a.wrapping_sub(b),
                        "add" => a.wrapping_add(b),
                        _ => a ^ b,
                    };
                    Ok(V::C(msk(r, t.width())))
                }
                "splat" => {
                    self.exp('(')?;
                    let et = self.ty()?;
                    let v = self.konst(&et)?;
                    self.exp(')')?;
                    match t {
                        Ty::Vec(n, _) => Ok(V::Agg(Rc::new(vec![v; *n as usize]))),
                        _ => Err("splat".into()),
                    }
                }
                _ => {
                    if t.width() > 64 {
                        if t.width() > 128 {
                            return Err("wide constant".into());
                        }
                        let n: u128 = match w.parse::<i128>() {
                            Ok(n) => n as u128,
                            Err(_) => w.parse().map_err(|_| format!("bad const {}", w))?,
                        };
                        if n <= u64::MAX as u128 {
                            return Ok(V::C(n as u64));
                        }
                        // low and high half, see `to_e`
                        let hi = msk((n >> 64) as u64, t.width() - 64);
                        return Ok(V::Agg(Rc::new(vec![V::C(n as u64), V::C(hi)])));
                    }
                    let n: i128 = w.parse().map_err(|_| format!("bad const {}", w))?;
                    Ok(V::C(msk(n as u64, t.width())))
                }
            },
            Tok::G(g) => Ok(V::C(self.m.sym_addr(&g).ok_or(format!("unknown symbol {}", g))?)),
            Tok::S(b) => Ok(V::Agg(Rc::new(b.iter().map(|x| V::C(*x as u64)).collect()))),
            Tok::P('{') => self.agg('}'),
            Tok::P('[') => self.agg(']'),
            Tok::P('<') => {
                if self.eat('{') {
                    let a = self.agg('}')?;
                    self.exp('>')?;
                    Ok(a)
                } else {
                    self.agg('>')
                }
            }
            t => Err(format!("bad constant {:?}", t)),
        }
    }
    fn agg(&mut self, end: char) -> R<V> {
        let mut v = vec![];
        if self.eat(end) {
            return Ok(V::Agg(Rc::new(v)));
        }
        loop {
            let t = self.ty()?;
            v.push(self.konst(&t)?);
            if self.eat(end) {
                return Ok(V::Agg(Rc::new(v)));
            }
            self.exp(',')?;
        }
    }
}

pub fn msk(v: u64, w: u32) -> u64 {
    if w >= 64 || w == 0 {
        v
    } else {
        v & ((1u64 << w) - 1)
    }
}
pub fn sx(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}
fn step(t: &Ty, ix: u64) -> R<(u64, Rc<Ty>)> {
    match t {
        Ty::Struct(..) => {
            let f = t.fields();
            f.get(ix as usize).cloned().ok_or("struct idx".into())
        }
        Ty::Arr(_, e) | Ty::Vec(_, e) => Ok(((e.size() as i64).wrapping_mul(ix as i64) as u64, e.clone())),
        _ => Err("gep into scalar".into()),
    }
}

struct FB<'m> {
    m: &'m Module,
    regs: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl<'m> FB<'m> {
    fn reg(&mut self, n: &str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(k)
    }
    fn blk(&mut self, n: &str) -> R<u32> {
        self.blocks.get(n).copied().ok_or(format!("unknown block {}", n))
    }
    fn opd(&mut self, p: &mut P, t: &Ty) -> R<Opd> {
        if let Some(Tok::L(n)) = p.peek().cloned() {
            p.i += 1;
            return Ok(Opd::R(self.reg(&n)));
        }
        Ok(Opd::K(p.konst(t)?))
    }
    fn tyopd(&mut self, p: &mut P) -> R<(Rc<Ty>, Opd)> {
        let t = p.ty()?;
        p.skip_param_attrs()?;
        let o = self.opd(p, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, p: &mut P) -> R<u32> {
        if !p.eat_w("label") {
            return Err("expected label".into());
        }
        let l = p.local()?;
        self.blk(&l)
    }
    fn inst(&mut self, line: &str) -> R<(Option<(u32, Vec<(u32, Opd)>)>, I)> {
        let m = self.m;
        let mut p = P::new(line, m);
        let p = &mut p;
        let mut dst: Option<u32> = None;
        if let Some(Tok::L(n)) = p.peek().cloned() {
            p.i += 1;
            p.exp('=')?;
            dst = Some(self.reg(&n));
        }
        let mut op = p.word()?;
        while matches!(op.as_str(), "tail" | "musttail" | "notail") {
            op = p.word()?;
        }
        let d = dst.unwrap_or(u32::MAX);
        let i = match op.as_str() {
            "add" | "sub" | "mul" | "udiv" | "urem" | "sdiv" | "srem" | "shl" | "lshr" | "ashr"
            | "and" | "or" | "xor" => {
                while !p.at_type() {
                    p.next()?;
                }
                let t = p.ty()?;
                let a = self.opd(p, &t)?;
                p.exp(',')?;
                let b = self.opd(p, &t)?;
                let k = match op.as_str() {
                    "add" => BinK::Add,
                    "sub" => BinK::Sub,
                    "mul" => BinK::Mul,
                    "udiv" => BinK::UDiv,
                    "urem" => BinK::URem,
                    "sdiv" => BinK::SDiv,
                    "srem" => BinK::SRem,
                    "shl" => BinK::Shl,
                    "lshr" => BinK::LShr,
                    "ashr" => BinK::AShr,
                    "and" => BinK::And,
                    "or" => BinK::Or,
                    _ => BinK::Xor,
                };
                if t.width() == 0 {
                    return Err(format!("vector op {}", line));
                }
                I::Bin(k, d, t.width(), a, b)
            }
            "icmp" => {
                let mut pr = p.word()?;
                if pr == "samesign" {
                    pr = p.word()?;
                }
                let t = p.ty()?;
                let a = self.opd(p, &t)?;
                p.exp(',')?;
                let b = self.opd(p, &t)?;
                let k = match pr.as_str() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    _ => return Err(format!("icmp {}", pr)),
                };
                if t.width() == 0 {
                    return Err(format!("vector op {}", line));
                }
                I::ICmp(k, d, t.width(), a, b)
            }
            "zext" | "sext" | "trunc" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while !p.at_type() {
                    p.next()?;
                }
                let (t, a) = self.tyopd(p)?;
                if !p.eat_w("to") {
                    return Err("cast".into());
                }
                let tt = p.ty()?;
                if t.width() == 0 || tt.width() == 0 {
                    return Err(format!("vector cast {}", line));
                }
                let (f, w) = (t.width(), tt.width());
                let k = match op.as_str() {
                    "zext" => CastK::Zext,
                    "sext" => CastK::Sext,
                    "trunc" => CastK::Trunc,
                    _ => {
                        if f < w {
                            CastK::Zext
                        } else if f > w {
                            CastK::Trunc
                        } else {
                            CastK::Copy
                        }
                    }
                };
                I::Cast(k, d, f, w, a)
            }
            "freeze" => {
                let (t, a) = self.tyopd(p)?;
                I::Cast(CastK::Copy, d, t.width(), t.width(), a)
            }
            "load" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let t = p.ty()?;
                p.exp(',')?;
                let (_, a) = self.tyopd(p)?;
                I::Load(d, t, a)
            }
            "store" => {
                p.eat_w("atomic");
                p.eat_w("volatile");
                let (t, v) = self.tyopd(p)?;
                p.exp(',')?;
                let (_, a) = self.tyopd(p)?;
                I::Store(t, v, a)
            }
            "getelementptr" => {
                while !p.at_type() {
                    p.next()?;
                    if p.is_p('(') {
                        p.skip_parens()?;
                    }
                }
                let mut cur = p.ty()?;
                p.exp(',')?;
                let (_, base) = self.tyopd(p)?;
                let mut off = 0u64;
                let mut dy = vec![];
                let mut first = true;
                while p.eat(',') {
                    if matches!(p.peek(), Some(Tok::M(_))) {
                        break;
                    }
                    let (it, ix) = self.tyopd(p)?;
                    let (scale, nt): (u64, Rc<Ty>);
                    if first {
                        scale = cur.size();
                        nt = cur.clone();
                        first = false;
                    } else {
                        match &*cur {
                            Ty::Struct(..) => match &ix {
                                Opd::K(V::C(c)) => {
                                    let (o, n) = step(&cur, *c)?;
                                    off = off.wrapping_add(o);
                                    cur = n;
                                    continue;
                                }
                                _ => return Err("struct gep".into()),
                            },
                            Ty::Arr(_, e) | Ty::Vec(_, e) => {
                                scale = e.size();
                                nt = e.clone();
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match ix {
                        Opd::K(V::C(c)) => {
                            off = off.wrapping_add((scale as i64).wrapping_mul(sx(c, it.width())) as u64)
                        }
                        o => dy.push((o, scale, it.width())),
                    }
                    cur = nt;
                }
                I::Gep(d, base, off, dy)
            }
            "alloca" => {
                let t = p.ty()?;
                let mut n = 1;
                if p.eat(',') && p.at_type() {
                    n = p.const_addr()?;
                }
                I::Alloca(d, t.size() * n)
            }
            "call" | "invoke" => {
                p.skip_attrs()?;
                let ret = p.ty()?;
                if p.is_p('(') {
                    p.skip_parens()?;
                }
                let callee = match p.peek().cloned() {
                    Some(Tok::W(w)) if w == "asm" => {
                        p.i += 1;
                        while !p.is_p('(') {
                            p.next()?;
                        }
                        Callee::Asm
                    }
                    Some(Tok::G(g)) => {
                        p.i += 1;
                        if g.starts_with("llvm.") {
                            Callee::Intrinsic(g.as_str().into())
                        } else {
                            let g2 = m.aliases.get(&g).unwrap_or(&g);
                            Callee::Direct(*m.func_ix.get(g2).ok_or(format!("unknown fn {}", g))?)
                        }
                    }
                    _ => {
                        let t = Ty::Ptr;
                        let o = self.opd(p, &t)?;
                        Callee::Indirect(o)
                    }
                };
                p.exp('(')?;
                let mut args = vec![];
                if !p.eat(')') {
                    loop {
                        let t = p.ty()?;
                        if *t == Ty::Other {
                            // metadata argument
                            while !p.is_p(')') && !p.is_p(',') {
                                p.next()?;
                                if p.is_p('(') {
                                    p.skip_parens()?;
                                }
                            }
                            args.push((Opd::K(V::C(0)), t));
                        } else {
                            p.skip_param_attrs()?;
                            let o = self.opd(p, &t)?;
                            args.push((o, t));
                        }
                        if p.eat(')') {
                            break;
                        }
                        p.exp(',')?;
                    }
                }
                let mut normal = None;
                if op == "invoke" {
                    while !p.is_w("to") {
                        p.next()?;
                    }
                    p.next()?;
                    normal = Some(self.label(p)?);
                }
                I::Call { dst, ret, callee, args, normal }
            }
            "br" => {
                if p.is_w("label") {
                    I::Br(self.label(p)?)
                } else {
                    let t = p.ty()?;
                    let c = self.opd(p, &t)?;
                    p.exp(',')?;
                    let a = self.label(p)?;
                    p.exp(',')?;
                    let b = self.label(p)?;
                    I::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(p)?;
                p.exp(',')?;
                let def = self.label(p)?;
                p.exp('[')?;
                let mut cases = vec![];
                while !p.eat(']') {
                    let (_, k) = self.tyopd(p)?;
                    p.exp(',')?;
                    let l = self.label(p)?;
                    match k {
                        Opd::K(V::C(c)) => cases.push((c, l)),
                        _ => return Err("switch".into()),
                    }
                }
                I::Switch(t.width(), v, def, cases)
            }
            "ret" => {
                if p.eat_w("void") {
                    I::Ret(None)
                } else {
                    let (_, o) = self.tyopd(p)?;
                    I::Ret(Some(o))
                }
            }
            "unreachable" => I::Unreachable,
            "select" => {
                while !p.at_type() {
                    p.next()?;
                }
                let (ct, c) = self.tyopd(p)?;
                if ct.width() != 1 {
                    return Err("vector select".into());
                }
                p.exp(',')?;
                let (t, a) = self.tyopd(p)?;
                p.exp(',')?;
                let (_, b) = self.tyopd(p)?;
                I::Select(d, t, c, a, b)
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(p)?;
                let mut ix = vec![];
                while p.eat(',') {
                    match p.peek() {
                        Some(Tok::W(_)) => ix.push(p.word()?.parse().map_err(|_| "ix")?),
                        _ => break,
                    }
                }
                I::Extract(d, a, ix)
            }
            "insertvalue" => {
                let (_, a) = self.tyopd(p)?;
                p.exp(',')?;
                let (_, v) = self.tyopd(p)?;
                let mut ix = vec![];
                while p.eat(',') {
                    match p.peek() {
                        Some(Tok::W(_)) => ix.push(p.word()?.parse().map_err(|_| "ix")?),
                        _ => break,
                    }
                }
                I::Insert(d, a, v, ix)
            }
            "phi" => {
                while !p.at_type() {
                    p.next()?;
                }
                let t = p.ty()?;
                let mut v = vec![];
                loop {
                    p.exp('[')?;
                    let o = self.opd(p, &t)?;
                    p.exp(',')?;
                    let l = p.local()?;
                    let b = self.blk(&l)?;
                    p.exp(']')?;
                    v.push((b, o));
                    if !p.eat(',') || !p.is_p('[') {
                        break;
                    }
                }
                return Ok((Some((d, v)), I::Nop));
            }
            "atomicrmw" => {
                p.eat_w("volatile");
                let k = p.word()?;
                let (_, a) = self.tyopd(p)?;
                p.exp(',')?;
                let (t, v) = self.tyopd(p)?;
                I::Rmw(d, k.as_str().into(), t.width(), a, v)
            }
            "cmpxchg" => {
                p.eat_w("weak");
                p.eat_w("volatile");
                let (_, a) = self.tyopd(p)?;
                p.exp(',')?;
                let (t, c) = self.tyopd(p)?;
                p.exp(',')?;
                let (_, n) = self.tyopd(p)?;
                I::CmpXchg(d, t.width(), a, c, n)
            }
            "fence" => I::Nop,
            _ => return Err(format!("opcode {}", op)),
        };
        Ok((None, i))
    }
}

impl Module {
    pub fn sym_addr(&self, g: &str) -> Option<u64> {
        let g = self.aliases.get(g).map(|s| s.as_str()).unwrap_or(g);
        if let Some(i) = self.global_ix.get(g) {
            return Some(addr(R_GLOBAL, *i as u64));
        }
        if let Some(i) = self.func_ix.get(g) {
            return Some((R_FUNC << 44) | ((*i as u64) << 4));
        }
        None
    }
    pub fn load(text: &str) -> Module {
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let mut m = Module {
            lines,
            funcs: vec![],
            func_ix: HashMap::new(),
            globals: vec![],
            global_ix: HashMap::new(),
            named_ty: HashMap::new(),
            aliases: HashMap::new(),
            dbg_sub: FxMap::default(),
        };
        let sym = |l: &str| -> Option<String> {
            let a = l.find('@')?;
            let r = &l[a + 1..];
            if let Some(q) = r.strip_prefix('"') {
                Some(q[..q.find('"')?].to_string())
            } else {
                let e = r
                    .find(|c: char| !(c.is_ascii_alphanumeric() || c == '.' || c == '_' || c == '$' || c == '-'))
                    .unwrap_or(r.len());
                Some(r[..e].to_string())
            }
        };
        let mut i = 0;
        let mut globs = vec![];
        while i < m.lines.len() {
            let l = m.lines[i].clone();
            if l.starts_with("define ") || l.starts_with("declare ") {
                let n = sym(&l).unwrap();
                let id = m.funcs.len() as u32;
                m.func_ix.insert(n.clone(), id);
                let body = if l.starts_with("define ") {
                    let st = i;
                    while m.lines[i] != "}" {
                        i += 1;
                    }
                    FuncBody::Text(st, i)
                } else {
                    FuncBody::Decl
                };
                m.funcs.push(FuncDecl { name: n.as_str().into(), body, parsed: None });
            } else if l.starts_with('@') {
                let n = sym(&l).unwrap();
                if l.contains(" alias ") {
                    // @a = ... alias ty, ptr @b
                    if let Some(k) = l.rfind('@') {
                        if k > 0 {
                            let t = sym(&l[k..]).unwrap();
                            m.aliases.insert(n, t);
                        }
                    }
                } else {
                    m.global_ix.insert(n.clone(), m.globals.len() as u32);
                    let constant = l.contains(" constant ");
                    m.globals.push(Global { name: n, size: 0, line: i, constant });
                    globs.push(m.globals.len() - 1);
                }
            } else if l.starts_with('%') && l.contains("= type ") {
                let n = l[1..l.find(' ').unwrap()].trim_matches('"').to_string();
                let rhs = &l[l.find("= type ").unwrap() + 7..];
                if rhs.trim() != "opaque" {
                    let t = {
                        let mut p = P::new(rhs, &m);
                        p.ty().ok()
                    };
                    if let Some(t) = t {
                        m.named_ty.insert(n, t);
                    }
                }
            }
            i += 1;
        }
        for g in globs {
            let line = m.lines[m.globals[g].line].clone();
            let size = {
                let mut p = P::new(&line, &m);
                p.i = 2; // name, '='
                m.global_type(&mut p).map(|t| t.size()).unwrap_or(0)
            };
            m.globals[g].size = size;
        }
        m
    }
    fn global_type(&self, p: &mut P) -> R<Rc<Ty>> {
        // linkage ... (constant|global) type
        loop {
            match p.next()? {
                Tok::W(w) if w == "constant" || w == "global" => break,
                _ => {}
            }
        }
        p.ty()
    }
    pub fn global_init(&self, idx: usize) -> Vec<u8> {
        let g = &self.globals[idx];
        let line = &self.lines[g.line];
        let mut p = P::new(line, self);
        p.i = 2;
        let t = match self.global_type(&mut p) {
            Ok(t) => t,
            Err(_) => return vec![],
        };
        let mut out = vec![0u8; t.size() as usize];
        if line.contains("= external") || line.contains("= extern_weak") {
            return out;
        }
        match p.konst(&t) {
            Ok(v) => fill(&mut out, 0, &t, &v),
            Err(e) => eprintln!("global {}: {}", g.name, e),
        }
        out
    }
    pub fn parse_func(&mut self, id: u32) -> Result<Rc<Func>, String> {
        if let Some(f) = &self.funcs[id as usize].parsed {
            return Ok(f.clone());
        }
        let (st, en) = match self.funcs[id as usize].body {
            FuncBody::Decl => return Err("declaration".into()),
            FuncBody::Text(a, b) => (a, b),
        };
        let f = self.parse_func_inner(id, st, en)?;
        let f = Rc::new(f);
        self.funcs[id as usize].parsed = Some(f.clone());
        Ok(f)
    }
    fn parse_func_inner(&self, id: u32, st: usize, en: usize) -> R<Func> {
        let mut fb = FB { m: self, regs: HashMap::new(), blocks: HashMap::new() };
        // header: parameters
        let hdr = &self.lines[st];
        let mut p = P::new(hdr, self);
        loop {
            match p.next()? {
                Tok::G(_) => break,
                _ => {}
            }
        }
        p.exp('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eat(')') {
            loop {
                if p.is_p('.') || p.is_w("...") {
                    p.next()?;
                    p.exp(')')?;
                    break;
                }
                let _t = p.ty()?;
                p.skip_param_attrs()?;
                if let Some(Tok::L(n)) = p.peek().cloned() {
                    p.i += 1;
                    if n.parse::<u32>().is_ok() {
                        unnamed += 1;
                    }
                    params.push(fb.reg(&n));
                }
                if p.eat(')') {
                    break;
                }
                p.exp(',')?;
            }
        }
        // blocks
        let label_of = |l: &str| -> Option<String> {
            if l.starts_with(' ') || l.is_empty() {
                return None;
            }
            let l = l.split(';').next().unwrap().trim_end();
            let l = l.strip_suffix(':')?;
            Some(l.trim_matches('"').to_string())
        };
        let mut names = vec![];
        let first = &self.lines[st + 1];
        let mut body_start = st + 1;
        let mut ranges: Vec<(usize, usize)> = vec![];
        if let Some(n) = label_of(first) {
            names.push(n);
            body_start += 1;
        } else {
            names.push(format!("{}", unnamed));
        }
        let mut cur = body_start;
        for k in body_start..en {
            if let Some(n) = label_of(&self.lines[k]) {
                ranges.push((cur, k));
                names.push(n);
                cur = k + 1;
            }
        }
        ranges.push((cur, en));
        for (i, n) in names.iter().enumerate() {
            fb.blocks.insert(n.clone(), i as u32);
        }
        let mut blocks = vec![];
        for (a, b) in ranges {
            let mut phis = vec![];
            let mut insts = vec![];
            let mut k = a;
            while k < b {
                let l = self.lines[k].trim();
                if l.is_empty() || l.starts_with(';') || l.starts_with("#dbg") {
                    k += 1;
                    continue;
                }
                let mut s = l.to_string();
                if l.starts_with("switch ") && !l.contains(']') {
                    while !self.lines[k].trim_start().starts_with(']') {
                        k += 1;
                        s.push(' ');
                        s.push_str(self.lines[k].trim());
                    }
                }
                let is_inv = l.starts_with("invoke ") || l.contains("= invoke ");
                if is_inv {
                    k += 1;
                    s.push(' ');
                    s.push_str(self.lines[k].trim());
                }
                if l.contains("landingpad") {
                    while k + 1 < b {
                        let n = self.lines[k + 1].trim_start();
                        if n.starts_with("cleanup") || n.starts_with("catch") || n.starts_with("filter") {
                            k += 1;
                        } else {
                            break;
                        }
                    }
                }
                let mut dbg = 0u32;
                if let Some(x) = s.find("!dbg !") {
                    dbg = s[x + 6..]
                        .chars()
                        .take_while(|c| c.is_ascii_digit())
                        .collect::<String>()
                        .parse()
                        .unwrap_or(0);
                }
                match fb.inst(&s) {
                    Ok((Some(ph), _)) => phis.push(ph),
                    Ok((None, i)) => insts.push((i, dbg)),
                    Err(e) => insts.push((I::Unsupported(format!("{} in: {}", e, s).as_str().into()), dbg)),
                }
                k += 1;
            }
            blocks.push(Block { phis, insts });
        }
        Ok(Func {
            id,
            name: self.funcs[id as usize].name.clone(),
            params,
            nregs: fb.regs.len() as u32,
            blocks,
        })
    }
}

fn fill(out: &mut [u8], off: usize, t: &Ty, v: &V) {
    match (t, v) {
        (Ty::Struct(..), V::Agg(a)) => {
            for ((o, ft), x) in t.fields().iter().zip(a.iter()) {
                fill(out, off + *o as usize, ft, x);
            }
        }
        (Ty::Arr(_, et), V::Agg(a)) | (Ty::Vec(_, et), V::Agg(a)) => {
            let es = et.size() as usize;
            for (i, x) in a.iter().enumerate() {
                fill(out, off + i * es, et, x);
            }
        }
        (_, V::C(c)) => {
            let n = t.size() as usize;
            for i in 0..n.min(8) {
                out[off + i] = (c >> (8 * i)) as u8;
            }
        }
        _ => {}
    }
}
