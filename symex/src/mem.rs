//! Byte-addressed object memory with symbolic bytes.
use crate::expr::*;
use std::rc::Rc;

pub const UNINIT: u64 = u64::MAX;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// Empty when every byte is concrete; else one tag per byte:
    /// 0 concrete, UNINIT, or (expr << 8) | byte index.
    pub tags: Vec<u64>,
    pub ro: bool,
    pub align: u64,
}
impl Obj {
    pub fn uninit(n: usize, align: u64) -> Obj {
        Obj { data: vec![0; n], tags: if n == 0 { vec![] } else { vec![UNINIT; n] }, ro: false, align }
    }
    pub fn zeroed(n: usize, align: u64) -> Obj {
        Obj { data: vec![0; n], tags: vec![], ro: false, align }
    }
    fn need_tags(&mut self) {
        if self.tags.is_empty() {
            self.tags = vec![0; self.data.len()];
        }
    }
    pub fn write_conc(&mut self, off: usize, n: usize, v: u64) {
        let b = v.to_le_bytes();
        self.data[off..off + n].copy_from_slice(&b[..n]);
        if !self.tags.is_empty() {
            for t in &mut self.tags[off..off + n] {
                *t = 0;
            }
        }
    }
    pub fn write_sym(&mut self, off: usize, n: usize, e: E) {
        self.need_tags();
        for i in 0..n {
            self.tags[off + i] = ((e as u64) << 8) | i as u64;
        }
    }
    pub fn copy_in(&mut self, off: usize, src: &Obj, soff: usize, n: usize) {
        if n == 0 {
            return;
        }
        self.data[off..off + n].copy_from_slice(&src.data[soff..soff + n]);
        if src.tags.is_empty() {
            if !self.tags.is_empty() {
                for t in &mut self.tags[off..off + n] {
                    *t = 0;
                }
            }
        } else {
            self.need_tags();
            self.tags[off..off + n].copy_from_slice(&src.tags[soff..soff + n]);
        }
    }
    pub fn is_conc(&self, off: usize, n: usize) -> bool {
        self.tags.is_empty() || self.tags[off..off + n].iter().all(|t| *t == 0)
    }
    pub fn read_conc(&self, off: usize, n: usize) -> u64 {
        let mut b = [0u8; 8];
        b[..n].copy_from_slice(&self.data[off..off + n]);
        u64::from_le_bytes(b)
    }
    /// Expression for `n` bytes; uninitialised bytes read as zero (reported via the flag).
    pub fn read_sym(&self, ctx: &mut Ctx, off: usize, n: usize, uninit: &mut bool) -> E {
        // whole-expression fast path
        let t0 = self.tags[off];
        if t0 != 0 && t0 != UNINIT {
            let e = (t0 >> 8) as E;
            let i0 = (t0 & 0xff) as usize;
            let mut same = true;
            for i in 1..n {
                if self.tags[off + i] != ((e as u64) << 8) | (i0 + i) as u64 {
                    same = false;
                    break;
                }
            }
            if same {
                let ew = ctx.w(e) as usize;
                if i0 == 0 && ew == n * 8 {
                    return e;
                }
                if (i0 + n) * 8 <= ew {
                    return ctx.extract(e, (i0 * 8) as u8, (n * 8) as u8);
                }
                // value narrower than its storage (e.g. i1 / i33): zero-extended
                let z = ctx.zext(e, ((i0 + n) * 8) as u8);
                return ctx.extract(z, (i0 * 8) as u8, (n * 8) as u8);
            }
        }
        let mut acc: Option<E> = None;
        for i in 0..n {
            let t = self.tags[off + i];
            let b = if t == 0 {
                ctx.konst(self.data[off + i] as u128, 8)
            } else if t == UNINIT {
                *uninit = true;
                ctx.konst(0, 8)
            } else {
                let e = (t >> 8) as E;
                let ix = (t & 0xff) as usize;
                let ew = ctx.w(e) as usize;
                if (ix + 1) * 8 <= ew {
                    ctx.extract(e, (ix * 8) as u8, 8)
                } else if ix * 8 < ew {
                    let p = ctx.extract(e, (ix * 8) as u8, (ew - ix * 8) as u8);
                    ctx.zext(p, 8)
                } else {
                    ctx.konst(0, 8)
                }
            };
            acc = Some(match acc {
                None => b,
                Some(a) => ctx.concat(b, a),
            });
        }
        acc.unwrap()
    }
}

#[derive(Clone)]
pub struct Mem {
    pub globals: FxMap<u32, Rc<Obj>>,
    pub heap: Vec<Option<Rc<Obj>>>,
    pub stack: Vec<Rc<Obj>>,
}

#[derive(Clone, Debug)]
pub enum MemErr {
    Null(u64),
    Oob(u64, u64, u64),
    Freed(u64),
    ReadOnly(u64),
    Wild(u64),
    Align(u64),
}
