//! An element storage with a symbolic environment.
//!
//! `Store` follows the contract of `NdlDataStorage`: a FIFO of elements, individually atomic,
//! `invalidate` removes exactly one element. Everything the contract leaves open is symbolic:
//! which operation fails and how (`Faults`), whether a push that failed left the element, nothing
//! or an undecodable remainder behind, and what is stored to begin with.
use super::sym::*;
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
use core::future::Future;
use core::num::NonZeroU32;
use core::sync::atomic::{AtomicBool, Ordering::Relaxed};
use core::pin::{Pin, pin};
use core::task::{Context, Poll, Waker};

#[derive(Clone, Copy, PartialEq, Debug)]
pub struct IoErr(pub u8);

/// Longest element (header + key + value) the mock keeps.
pub const MAXB: usize = 24;

#[derive(Clone, Copy, PartialEq)]
pub enum Rec {
    Start(u32),
    Data { len: usize, b: [u8; MAXB] },
    End(u32, u32),
    /// An element the storage yields but that does not decode.
    Junk,
}
impl Rec {
    pub fn data(bytes: &[u8]) -> Rec {
        let mut b = [0u8; MAXB];
        b[..bytes.len()].copy_from_slice(bytes);
        Rec::Data { len: bytes.len(), b }
    }
    pub fn bytes(&self) -> &[u8] {
        match self {
            Rec::Data { len, b } => &b[..*len],
            _ => &[],
        }
    }
    pub fn from_elem(e: &Elem<'_>) -> Rec {
        match e {
            Elem::Start { seq_no } => Rec::Start(seq_no.get()),
            Elem::Data { data } => {
                let kv = data.key_val();
                let mut b = [0u8; MAXB];
                b[0] = data.hdr();
                b[1..1 + kv.len()].copy_from_slice(kv);
                Rec::Data { len: kv.len() + 1, b }
            }
            Elem::End { seq_no, calc_crc } => Rec::End(seq_no.get(), *calc_crc),
        }
    }
    /// Size reported for the element: payload plus overhead.
    pub fn size(&self) -> usize {
        OVERHEAD.load(Relaxed) + match self {
            Rec::Start(_) => 5,
            Rec::Data { len, .. } => *len,
            Rec::End(..) => 9,
            Rec::Junk => 3,
        }
    }
}

/// What the storage adds to each element.
pub static OVERHEAD: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(2);

pub const F_PUSH_ERR: u32 = 1; // push returns an error
pub const F_PUSH_HANG: u32 = 2; // push never completes: power loss or cancellation
pub const F_PUSH_DROP: u32 = 4; // push reports success, element is not stored
pub const F_PUSH_CORRUPT: u32 = 8; // push reports success, element stored undecodable
pub const F_PUSH_FLIP: u32 = 16; // push reports success, element stored with changed contents
pub const F_READ_ERR: u32 = 32; // next/iter returns an error
pub const F_READ_HANG: u32 = 64; // next/iter never completes
pub const F_INV_ERR: u32 = 128; // invalidate returns an error
pub const F_INV_HANG: u32 = 256; // invalidate never completes
pub const F_YIELD: u32 = 512; // any operation: suspend once, then complete normally
pub const F_PUSH_EXTRA: u32 = 2048; // push reports success, and stores something undecodable as well or the element twice
pub const F_SLOW: u32 = 1024; // any operation: suspend until the harness releases it

/// Which faults may still happen, and how many of them. The operation a fault hits is a symbolic
/// number, compared with the operation counter at every operation the fault could apply to.
#[derive(Clone, Copy)]
pub struct Faults {
    pub mask: u32,
    pub budget: u32,
    at: u16,
    ctr: u16,
    drawn: bool,
    pub hung: bool,
    /// a push was reported as successful but what is stored differs
    pub lied: bool,
    pub fired: u32,
}
impl Faults {
    pub const fn none() -> Faults {
        Faults { mask: 0, budget: 0, at: 0, ctr: 0, drawn: false, hung: false, lied: false, fired: 0 }
    }
    pub fn new(mask: u32, budget: u32) -> Faults {
        Faults { mask, budget, ..Self::none() }
    }
    pub fn off(&mut self) {
        self.budget = 0;
        self.hung = false;
    }
    /// Decide whether a fault of `kinds` happens at this operation; returns its bit or 0.
    fn at(&mut self, kinds: u32) -> u32 {
        let m = self.mask & kinds;
        if self.budget == 0 || m == 0 {
            return 0;
        }
        if !self.drawn {
            self.drawn = true;
            self.at = any_u16("faulty operation");
            self.ctr = 0;
        }
        let here = self.ctr == self.at;
        self.ctr += 1;
        if !here {
            return 0;
        }
        self.drawn = false;
        self.budget -= 1;
        let mut m = m;
        for _ in 0..pick(m.count_ones(), "fault kind") {
            m &= m - 1;
        }
        let k = m & m.wrapping_neg();
        self.fired |= k;
        k
    }
}

pub struct Store<const CAP: usize = 48> {
    pub items: [Rec; CAP],
    pub n: usize,
    pub faults: Faults,
    pub pushes: usize,
    pub reads: usize,
    pub pops: usize,
    /// bytes of the elements yielded, pushed and removed
    pub rb: usize,
    pub wb: usize,
    pub pb: usize,
}

pub struct Never;
impl Future for Never {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _cx: &mut Context<'_>) -> Poll<()> {
        Poll::Pending
    }
}
pub struct YieldOnce(pub bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            Poll::Ready(())
        } else {
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

/// Whether an operation hit by `F_SLOW` is under way, and whether it may go on.
pub static SLOW: AtomicBool = AtomicBool::new(false);
pub static GO_ON: AtomicBool = AtomicBool::new(false);
struct Slow;
impl Future for Slow {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        let go = GO_ON.load(Relaxed);
        SLOW.store(!go, Relaxed);
        if go { Poll::Ready(()) } else { Poll::Pending }
    }
}
impl Drop for Slow {
    fn drop(&mut self) {
        SLOW.store(false, Relaxed);
    }
}
async fn pause(kind: u32) {
    if kind == F_SLOW {
        GO_ON.store(false, Relaxed);
        Slow.await
    } else {
        YieldOnce(false).await
    }
}

impl<const CAP: usize> Store<CAP> {
    pub const fn new() -> Self {
        Store { items: [Rec::Junk; CAP], n: 0, faults: Faults::none(), pushes: 0, reads: 0, pops: 0, rb: 0, wb: 0, pb: 0 }
    }
    pub fn put(&mut self, r: Rec) {
        assert!(self.n < CAP, "harness: storage capacity");
        self.items[self.n] = r;
        self.n += 1;
    }
    pub fn remove(&mut self, i: usize) {
        let mut j = i;
        while j + 1 < self.n {
            self.items[j] = self.items[j + 1];
            j += 1;
        }
        self.n -= 1;
    }
    pub fn recs(&self) -> &[Rec] {
        &self.items[..self.n]
    }
}

pub struct It<'a, const CAP: usize> {
    s: &'a mut Store<CAP>,
    i: usize,
}
pub struct Nd<'a, 'b, const CAP: usize> {
    s: &'a mut It<'b, CAP>,
    i: usize,
}

impl<const CAP: usize> NdlDataStorage for Store<CAP> {
    type Iter<'t>
        = It<'t, CAP>
    where
        Self: 't;
    type Error = IoErr;
    async fn iter_elems<'t>(&'t mut self) -> Result<It<'t, CAP>, IoErr> {
        Ok(It { s: self, i: 0 })
    }
    async fn push(&mut self, d: &Elem<'_>) -> Result<usize, IoErr> {
        self.pushes += 1;
        if let Elem::Data { data } = d
            && data.key_val().len() + 1 > MAXB
        {
            return Err(IoErr(5));
        }
        let r = Rec::from_elem(d);
        match self.faults.at(
            F_PUSH_ERR | F_PUSH_HANG | F_PUSH_DROP | F_PUSH_CORRUPT | F_PUSH_FLIP | F_PUSH_EXTRA | F_YIELD | F_SLOW,
        ) {
            0 => {
                self.wb += r.size();
                self.put(r)
            }
            k @ (F_YIELD | F_SLOW) => {
                if flip("yield before") {
                    pause(k).await;
                    self.put(r);
                } else {
                    self.put(r);
                    pause(k).await;
                }
            }
            F_PUSH_DROP => self.faults.lied = true,
            F_PUSH_EXTRA => {
                let k = pick(3, "extra");
                self.put(if k == 0 { Rec::Junk } else { r });
                self.put(if k == 1 { Rec::Junk } else { r });
            }
            F_PUSH_CORRUPT => {
                self.faults.lied = true;
                self.put(Rec::Junk)
            }
            F_PUSH_FLIP => {
                self.faults.lied = true;
                self.put(flipped(r))
            }
            k => {
                // the element may or may not have made it, or left something undecodable
                match pick(3, "effect") {
                    0 => {}
                    1 => self.put(r),
                    _ => self.put(Rec::Junk),
                }
                if k == F_PUSH_HANG {
                    self.faults.hung = true;
                    Never.await;
                }
                return Err(IoErr(1));
            }
        }
        Ok(r.size())
    }
    const MAX_ELEM_SIZE: usize = MAXB;
}

/// The element with exactly one difference: another sequence number, CRC, or data byte.
fn flipped(r: Rec) -> Rec {
    match r {
        Rec::Start(s) => {
            let x = any_u32("flip seq");
            assume(x != 0 && x != s);
            Rec::Start(x)
        }
        Rec::End(s, c) => {
            if flip("flip which") {
                let x = any_u32("flip seq");
                assume(x != 0 && x != s);
                Rec::End(x, c)
            } else {
                let x = any_u32("flip crc");
                assume(x != c);
                Rec::End(s, x)
            }
        }
        Rec::Data { len, mut b } => {
            // a burst of up to 32 bits starting at any byte of the key/value part
            let at = 1 + pick(len as u32 - 1, "flip at") as usize;
            let x = any_u32("flip bits");
            assume(x != 0);
            let mut k = 0;
            let mut any = 0u8;
            while k < 4 && at + k < len {
                let d = (x >> (8 * k)) as u8;
                b[at + k] ^= d;
                any |= d;
                k += 1;
            }
            assume(any != 0);
            Rec::Data { len, b }
        }
        Rec::Junk => Rec::Junk,
    }
}

impl<'a, const CAP: usize> NdlElemIter for It<'a, CAP> {
    type Item<'t, 'b>
        = Nd<'t, 'a, CAP>
    where
        Self: 't,
        Self: 'b;
    type Error = IoErr;
    async fn next<'i, 'b>(&'i mut self, buf: &'b mut [u8]) -> Result<Option<Nd<'i, 'a, CAP>>, IoErr>
    where
        Self: 'b,
        Self: 'i,
    {
        self.s.reads += 1;
        match self.s.faults.at(F_READ_ERR | F_READ_HANG | F_YIELD | F_SLOW) {
            F_READ_ERR => return Err(IoErr(2)),
            F_READ_HANG => {
                self.s.faults.hung = true;
                Never.await
            }
            k @ (F_YIELD | F_SLOW) => pause(k).await,
            _ => {}
        }
        if self.i < self.s.n {
            let i = self.i;
            self.i += 1;
            self.s.rb += self.s.items[i].size();
            // a real backend uses the scratch buffer for the element it yields
            let b = self.s.items[i].bytes();
            if b.len() > buf.len() {
                return Err(IoErr(4));
            }
            buf[..b.len()].copy_from_slice(b);
            Ok(Some(Nd { s: self, i }))
        } else {
            Ok(None)
        }
    }
}
impl<'a, 'b, const CAP: usize> NdlElemIterNode for Nd<'a, 'b, CAP> {
    type Error = IoErr;
    fn data(&self) -> Option<Elem<'_>> {
        match &self.s.s.items[self.i] {
            Rec::Start(s) => Some(Elem::Start { seq_no: NonZeroU32::new(*s)? }),
            Rec::Data { len, b } => Some(Elem::Data { data: SerData::from_existing(&b[..*len])? }),
            Rec::End(s, c) => Some(Elem::End { seq_no: NonZeroU32::new(*s)?, calc_crc: *c }),
            Rec::Junk => None,
        }
    }
    fn len(&self) -> usize {
        self.s.s.items[self.i].size()
    }
    async fn invalidate(self) -> Result<(), IoErr> {
        let it = self.s;
        it.s.pops += 1;
        match it.s.faults.at(F_INV_ERR | F_INV_HANG | F_YIELD | F_SLOW) {
            0 => {}
            k @ (F_YIELD | F_SLOW) => pause(k).await,
            k => {
                if flip("invalidated") {
                    it.s.remove(self.i);
                    it.i -= 1;
                }
                if k == F_INV_HANG {
                    it.s.faults.hung = true;
                    Never.await;
                }
                return Err(IoErr(3));
            }
        }
        it.s.pb += it.s.items[self.i].size();
        it.s.remove(self.i);
        it.i -= 1;
        Ok(())
    }
}

/// Poll once. With no other task and no suspension, `None` means the operation was cut short:
/// the storage hung (power loss / cancellation), and dropping the future is the cancellation.
pub fn poll1<F: Future>(f: F) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut f = pin!(f);
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
/// As `poll1`, for something that must complete.
pub fn now<F: Future>(f: F) -> F::Output {
    match poll1(f) {
        Some(v) => v,
        None => panic!("harness: future did not complete"),
    }
}
/// Poll up to `n` times (for storages that suspend).
pub fn polln<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut cx = Context::from_waker(Waker::noop());
    let mut f = pin!(f);
    for _ in 0..n {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            return Some(v);
        }
    }
    None
}
