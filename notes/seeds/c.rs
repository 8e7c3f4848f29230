//! In-memory element storage with scripted faults, and helpers to drive a list by hand.
#![allow(dead_code)]
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData};
pub use cfg_noodle::error::{Error, LoadStoreError};
pub use cfg_noodle::mutex::raw_impls::cs::CriticalSectionRawMutex as M;
pub use cfg_noodle::{Crc32, StorageList, StorageListNode, StorageListNodeHandle};
pub use std::future::Future;
pub use std::num::NonZeroU32;
pub use std::pin::{Pin, pin};
pub use std::task::{Context, Poll, Waker};

#[derive(Clone, PartialEq, Debug)]
pub enum Rec {
    Start(u32),
    Data(Vec<u8>),
    End(u32, u32),
    Junk,
}
impl Rec {
    pub fn size(&self) -> usize {
        2 + match self {
            Rec::Start(_) => 5,
            Rec::Data(d) => d.len(),
            Rec::End(..) => 9,
            Rec::Junk => 3,
        }
    }
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Push,
    Next,
    Inv,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Act {
    Ok,
    /// fail, nothing changed
    Err,
    /// fail, but a push was stored
    ErrStored,
    /// never completes
    Hang,
    /// suspend once, then complete
    Yield,
    /// report success, store nothing
    Drop,
    /// report success, store something else
    Other(Rec),
    /// report success, store two elements
    Two(Rec, Rec),
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Io;

pub struct Store {
    pub items: Vec<Rec>,
    /// called with the operation, its number among operations of its kind, and the pushed element
    pub hook: Box<dyn FnMut(Op, usize, Option<&Rec>) -> Act>,
    pub cnt: [usize; 3],
}
impl Store {
    pub fn new(items: Vec<Rec>) -> Store {
        Store { items, hook: Box::new(|_, _, _| Act::Ok), cnt: [0; 3] }
    }
    pub fn ok(&mut self) {
        self.hook = Box::new(|_, _, _| Act::Ok);
    }
    pub fn script(&mut self, f: impl FnMut(Op, usize, Option<&Rec>) -> Act + 'static) {
        self.cnt = [0; 3];
        self.hook = Box::new(f);
    }
    fn act(&mut self, o: Op, r: Option<&Rec>) -> Act {
        let n = self.cnt[o as usize];
        self.cnt[o as usize] += 1;
        (self.hook)(o, n, r)
    }
}
pub struct YieldOnce(bool);
impl Future for YieldOnce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 {
            return Poll::Ready(());
        }
        self.0 = true;
        cx.waker().wake_by_ref();
        Poll::Pending
    }
}
pub struct It<'a>(&'a mut Store, usize);
pub struct Nd<'a, 'b>(&'a mut It<'b>, usize);
impl NdlDataStorage for Store {
    type Iter<'t> = It<'t>;
    type Error = Io;
    async fn iter_elems<'t>(&'t mut self) -> Result<It<'t>, Io> {
        Ok(It(self, 0))
    }
    async fn push(&mut self, d: &Elem<'_>) -> Result<usize, Io> {
        let r = match d {
            Elem::Start { seq_no } => Rec::Start(seq_no.get()),
            Elem::End { seq_no, calc_crc } => Rec::End(seq_no.get(), *calc_crc),
            Elem::Data { data } => {
                let mut v = vec![data.hdr()];
                v.extend_from_slice(data.key_val());
                Rec::Data(v)
            }
        };
        if r.size() > Self::MAX_ELEM_SIZE + 2 {
            return Err(Io);
        }
        let n = r.size();
        match self.act(Op::Push, Some(&r)) {
            Act::Ok => self.items.push(r),
            Act::Err => return Err(Io),
            Act::ErrStored => {
                self.items.push(r);
                return Err(Io);
            }
            Act::Hang => std::future::pending().await,
            Act::Yield => {
                YieldOnce(false).await;
                self.items.push(r)
            }
            Act::Drop => {}
            Act::Other(o) => self.items.push(o),
            Act::Two(a, b) => {
                self.items.push(a);
                self.items.push(b)
            }
        }
        Ok(n)
    }
    const MAX_ELEM_SIZE: usize = 64;
}
impl<'a> NdlElemIter for It<'a> {
    type Item<'t, 'b>
        = Nd<'t, 'a>
    where
        Self: 't,
        Self: 'b;
    type Error = Io;
    async fn next<'i, 'b>(&'i mut self, buf: &'b mut [u8]) -> Result<Option<Nd<'i, 'a>>, Io>
    where
        Self: 'b,
        Self: 'i,
    {
        match self.0.act(Op::Next, None) {
            Act::Err | Act::ErrStored => return Err(Io),
            Act::Hang => std::future::pending().await,
            Act::Yield => YieldOnce(false).await,
            _ => {}
        }
        if self.1 == self.0.items.len() {
            return Ok(None);
        }
        if let Rec::Data(d) = &self.0.items[self.1]
            && d.len() > buf.len()
        {
            return Err(Io);
        }
        self.1 += 1;
        let i = self.1 - 1;
        Ok(Some(Nd(self, i)))
    }
}
impl<'a, 'b> NdlElemIterNode for Nd<'a, 'b> {
    type Error = Io;
    fn data(&self) -> Option<Elem<'_>> {
        Some(match &self.0.0.items[self.1] {
            Rec::Start(s) => Elem::Start { seq_no: NonZeroU32::new(*s)? },
            Rec::End(s, c) => Elem::End { seq_no: NonZeroU32::new(*s)?, calc_crc: *c },
            Rec::Data(d) => Elem::Data { data: SerData::from_existing(d)? },
            Rec::Junk => return None,
        })
    }
    fn len(&self) -> usize {
        self.0.0.items[self.1].size()
    }
    async fn invalidate(self) -> Result<(), Io> {
        match self.0.0.act(Op::Inv, None) {
            Act::Err => return Err(Io),
            Act::Hang => std::future::pending().await,
            Act::Yield => YieldOnce(false).await,
            _ => {}
        }
        self.0.0.items.remove(self.1);
        self.0.1 -= 1;
        Ok(())
    }
}

// ------------------------------------------------------------------ records

/// A data element holding `key` (shorter than 24 bytes) and a small unsigned number.
pub fn data(key: &str, v: u8) -> Rec {
    let mut d = vec![1, 0x60 | key.len() as u8];
    d.extend_from_slice(key.as_bytes());
    if v >= 24 {
        d.push(0x18);
    }
    d.push(v);
    Rec::Data(d)
}
pub fn record(seq: u32, datas: &[Rec]) -> Vec<Rec> {
    let mut out = vec![Rec::Start(seq)];
    let mut c = Crc32::new();
    for d in datas {
        if let Rec::Data(b) = d {
            c.update(&b[1..]);
        }
        out.push(d.clone());
    }
    out.push(Rec::End(seq, c.finalize()));
    out
}

// ------------------------------------------------------------------ driving

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
pub type L<const K: usize> = StorageList<M, K>;
pub fn list<const K: usize>() -> &'static L<K> {
    leak(StorageList::new())
}
pub fn node<T: 'static>(k: &'static str) -> &'static StorageListNode<T>
where
    T: cfg_noodle::minicbor::Encode<()> + cfg_noodle::minicbor::CborLen<()> + Clone + Default,
    for<'a> T: cfg_noodle::minicbor::Decode<'a, ()>,
{
    leak(StorageListNode::new(k))
}
pub type Att<T, const K: usize> = Pin<Box<dyn Future<Output = Result<StorageListNodeHandle<T, M, K>, Error>>>>;
pub fn poll<F: Future>(f: Pin<&mut F>) -> Option<F::Output> {
    match f.poll(&mut Context::from_waker(Waker::noop())) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
/// Poll once; `None` if it hangs (and is cancelled).
pub fn once<F: Future>(f: F) -> Option<F::Output> {
    let f = pin!(f);
    poll(f)
}
/// Poll to completion.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    for _ in 0..10_000 {
        if let Some(v) = poll(f.as_mut()) {
            return v;
        }
    }
    panic!("does not complete")
}
pub fn read<const K: usize>(l: &'static L<K>, s: &mut Store) -> Option<Result<(), LoadStoreError<Io>>> {
    once(l.process_reads(s, &mut [0; 64])).map(|r| r.map(|_| ()))
}
pub fn write<const K: usize>(l: &'static L<K>, s: &mut Store) -> Option<Result<(), LoadStoreError<Io>>> {
    once(l.process_writes(s, &mut [0; 64])).map(|r| r.map(|_| ()))
}
pub fn gc<const K: usize>(l: &'static L<K>, s: &mut Store) -> Option<Result<(), LoadStoreError<Io>>> {
    once(l.process_garbage(s, &mut [0; 64])).map(|r| r.map(|_| ()))
}
pub fn ok<E>(r: Option<Result<(), E>>) -> bool {
    matches!(r, Some(Ok(())))
}
macro_rules! attach {
    ($n:expr, $l:expr) => {{
        let mut f = Box::pin($n.attach($l));
        let r = poll(f.as_mut());
        assert!(r.is_none());
        f
    }};
}
pub(crate) use attach;
pub fn done<F: Future<Output = Result<H, Error>>, H>(mut f: Pin<Box<F>>) -> H {
    poll(f.as_mut()).expect("attach pending").expect("attach fails")
}
/// Boot a fresh list with u8 nodes "a" and "b" and return what they load.
pub fn boot(s: &mut Store) -> (u8, u8) {
    let l = list::<3>();
    let (a, b) = (node::<u8>("a"), node::<u8>("b"));
    let (fa, fb) = (attach!(a, l), attach!(b, l));
    run(l.process_reads(s, &mut [0; 64])).expect("read after reboot");
    (done(fa).load(), done(fb).load())
}
