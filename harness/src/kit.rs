//! Shared pieces of the harnesses: nodes, boots, and the reference view of the storage.
pub use super::store::*;
pub use super::sym::*;
pub use cfg_noodle::error::{Error, LoadStoreError};
pub use cfg_noodle::mutex::raw_impls::cs::CriticalSectionRawMutex as M;
pub use cfg_noodle::{
    Crc32, Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode, SerData, StorageList,
    StorageListNode, StorageListNodeHandle,
};
pub use core::future::Future;
pub use core::num::NonZeroU32;
pub use core::pin::{Pin, pin};
pub use core::task::{Context, Poll, Waker};
use minicbor::{Decoder, Encoder};
pub use minicbor::{CborLen, Decode, Encode};

pub type Handle<T, const K: usize> = StorageListNodeHandle<T, M, K>;
pub type List<const K: usize> = StorageList<M, K>;

/// The value type of most harnesses: two fully symbolic bytes in a fixed-size encoding.
/// A task can be interrupted where the crate calls the code of the value type.
#[derive(Copy, Default, PartialEq, Debug)]
pub struct V(pub [u8; 2]);
#[expect(clippy::expl_impl_clone_on_copy)]
impl Clone for V {
    fn clone(&self) -> Self {
        super::h_sched::preempt();
        *self
    }
}
impl<C> Encode<C> for V {
    fn encode<W: minicbor::encode::Write>(
        &self,
        e: &mut Encoder<W>,
        _: &mut C,
    ) -> Result<(), minicbor::encode::Error<W::Error>> {
        super::h_sched::preempt();
        e.bytes(&self.0)?.ok()
    }
}
impl<'b, C> Decode<'b, C> for V {
    fn decode(d: &mut Decoder<'b>, _: &mut C) -> Result<Self, minicbor::decode::Error> {
        super::h_sched::preempt();
        let b = d.bytes()?;
        match b {
            [x, y] => Ok(V([*x, *y])),
            _ => Err(minicbor::decode::Error::message("length")),
        }
    }
}
impl<C> CborLen<C> for V {
    fn cbor_len(&self, _: &mut C) -> usize {
        3
    }
}
pub fn any_v(l: &'static str) -> V {
    V(any_bytes::<2>(l))
}

/// A struct value, as an application would define it.
#[derive(Encode, Decode, CborLen, Clone, Copy, PartialEq, Default, Debug)]
pub struct P {
    #[n(0)]
    pub a: u8,
    #[n(1)]
    pub b: bool,
}

pub trait Val:
    Encode<()> + CborLen<()> + for<'a> Decode<'a, ()> + Clone + Default + PartialEq + Send + 'static
{
}
impl<T> Val for T where
    T: Encode<()> + CborLen<()> + for<'a> Decode<'a, ()> + Clone + Default + PartialEq + Send + 'static
{
}

pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
pub fn new_list<const K: usize>() -> &'static List<K> {
    leak(StorageList::new())
}
pub fn node<T: Val>(key: &'static str) -> &'static StorageListNode<T> {
    leak(StorageListNode::new(key))
}

pub type Att<T, const K: usize> = Pin<Box<dyn Future<Output = Result<Handle<T, K>, Error>>>>;

pub fn begin<T: Val, const K: usize>(n: &'static StorageListNode<T>, l: &'static List<K>) -> Att<T, K> {
    Box::pin(n.attach(l))
}
pub fn poll_att<T: Val, const K: usize>(f: &mut Att<T, K>) -> Option<Result<Handle<T, K>, Error>> {
    let mut cx = Context::from_waker(Waker::noop());
    match f.as_mut().poll(&mut cx) {
        Poll::Ready(v) => Some(v),
        Poll::Pending => None,
    }
}
/// Start attaching; the node is on the list afterwards and waits for a read.
pub fn start<T: Val, const K: usize>(n: &'static StorageListNode<T>, l: &'static List<K>) -> Att<T, K> {
    let mut f = begin(n, l);
    assert!(poll_att(&mut f).is_none(), "attach completed before any read");
    f
}
/// The attach must complete successfully now.
pub fn finish<T: Val, const K: usize>(mut f: Att<T, K>) -> Handle<T, K> {
    match poll_att(&mut f) {
        Some(Ok(h)) => h,
        Some(Err(_)) => panic!("attach failed"),
        None => panic!("attach did not complete after a successful read"),
    }
}
pub fn set<T: Val, const K: usize>(h: &mut Handle<T, K>, v: &T) {
    let r = now(h.write(v));
    check(r.is_ok(), "write to a live handle succeeds");
}

// ---------------------------------------------------------------- reference view of the storage

/// A valid write record: a start, data elements only, an end with the same sequence number and
/// the CRC of the data elements.
#[derive(Clone, Copy)]
pub struct VR {
    pub seq: u32,
    pub s: usize,
    pub e: usize,
}
pub const MAXR: usize = 12;
pub struct Valid {
    pub r: [VR; MAXR],
    pub n: usize,
}
pub fn crc_of(recs: &[Rec]) -> u32 {
    let mut c = Crc32::new();
    for r in recs {
        if let Rec::Data { len, b } = r {
            c.update(&b[1..*len]);
        }
    }
    c.finalize()
}
pub fn valid(recs: &[Rec]) -> Valid {
    let mut out = Valid { r: [VR { seq: 0, s: 0, e: 0 }; MAXR], n: 0 };
    let mut cur: Option<usize> = None;
    for i in 0..recs.len() {
        match &recs[i] {
            Rec::Junk => cur = None,
            Rec::Start(_) => cur = Some(i),
            Rec::Data { .. } => {}
            Rec::End(q, c) => {
                if let Some(s) = cur.take()
                    && let Rec::Start(q0) = recs[s]
                    && q0 == *q
                    && crc_of(&recs[s..i]) == *c
                {
                    out.r[out.n] = VR { seq: *q, s, e: i };
                    out.n += 1;
                }
            }
        }
    }
    out
}
pub fn newest(recs: &[Rec]) -> Option<VR> {
    let v = valid(recs);
    let mut best: Option<VR> = None;
    for i in 0..v.n {
        match best {
            Some(b) if b.seq > v.r[i].seq => {}
            _ => best = Some(v.r[i]),
        }
    }
    best
}
/// `[header, key, value]` as one data element.
pub fn data_rec<T: Encode<()>>(key: &str, v: &T) -> Rec {
    let mut b = [0u8; MAXB];
    b[0] = 1;
    let n = {
        let mut c = minicbor::encode::write::Cursor::new(&mut b[1..]);
        minicbor::encode(key, &mut c).unwrap();
        minicbor::encode(v, &mut c).unwrap();
        c.position()
    };
    Rec::Data { len: n + 1, b }
}
pub fn rec_eq(a: &Rec, b: &Rec) -> bool {
    match (a, b) {
        (Rec::Start(x), Rec::Start(y)) => x == y,
        (Rec::End(x, c), Rec::End(y, d)) => (x == y) & (c == d),
        (Rec::Junk, Rec::Junk) => true,
        (Rec::Data { len: l1, b: b1 }, Rec::Data { len: l2, b: b2 }) => {
            // branch free: one query instead of one fork per byte
            if l1 != l2 {
                return false;
            }
            let mut d = 0u8;
            let mut i = 0;
            while i < *l1 {
                d |= b1[i] ^ b2[i];
                i += 1;
            }
            d == 0
        }
        _ => false,
    }
}
/// Is `d` one of the data elements of record `r`?
pub fn holds(recs: &[Rec], r: &VR, d: &Rec) -> bool {
    let mut ok = false;
    for i in r.s + 1..r.e {
        ok |= rec_eq(&recs[i], d);
    }
    ok
}
/// Branch-free equality of two values.
pub fn veq(a: &V, b: &V) -> bool {
    ((a.0[0] ^ b.0[0]) | (a.0[1] ^ b.0[1])) == 0
}
/// A complete, valid record holding the given elements.
pub fn put_record<const C: usize>(st: &mut Store<C>, seq: u32, datas: &[Rec]) {
    st.put(Rec::Start(seq));
    for d in datas {
        st.put(*d);
    }
    st.put(Rec::End(seq, crc_of(datas)));
}
pub fn same<const C: usize>(a: &[Rec], b: &Store<C>) -> bool {
    if a.len() != b.n {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= rec_eq(&a[i], &b.items[i]);
    }
    ok
}

// ---------------------------------------------------------------- a boot with two nodes

pub struct Two<const K: usize> {
    pub list: &'static List<K>,
    pub a: Handle<V, K>,
    pub b: Handle<V, K>,
}
/// Attach keys "a" and "b" on a fresh list and read; `None` if the read was cut short.
pub fn boot2<const K: usize, const C: usize>(st: &mut Store<C>) -> Option<Two<K>> {
    let list = new_list::<K>();
    let (fa, fb) = (start(node::<V>("a"), list), start(node::<V>("b"), list));
    let mut buf = [0u8; MAXB];
    match poll1(list.process_reads(st, &mut buf)) {
        Some(Ok(_)) => {
            let t = Two { list, a: finish(fa), b: finish(fb) };
            let (a, b) = (t.a.load(), t.b.load());
            log("booted a", a.0[0] as u64 | (a.0[1] as u64) << 8);
            log("booted b", b.0[0] as u64 | (b.0[1] as u64) << 8);
            Some(t)
        }
        Some(Err(_)) => None,
        None => None,
    }
}
pub type WR = Option<Result<(), LoadStoreError<IoErr>>>;
/// Observation compared between symbolic and native runs: outcome, i/o so far, newest elements.
fn seen<const C: usize>(what: &'static str, r: &WR, st: &Store<C>) {
    let code = match r {
        None => 0,
        Some(Ok(())) => 1,
        Some(Err(LoadStoreError::AppError(Error::NeedsFirstRead))) => 2,
        Some(Err(LoadStoreError::AppError(Error::NeedsGarbageCollect))) => 3,
        Some(Err(LoadStoreError::AppError(Error::Serialization))) => 4,
        Some(Err(LoadStoreError::AppError(_))) => 5,
        Some(Err(_)) => 6,
    };
    log(what, code | (st.n as u64) << 8 | (st.pushes as u64) << 16 | (st.reads as u64) << 24 | (st.pops as u64) << 40);
    if st.n > 0 {
        log("last", match &st.items[st.n - 1] {
            Rec::Start(q) => *q as u64,
            Rec::End(q, c) => (*q as u64) << 32 | *c as u64,
            Rec::Data { len, b } => (*len as u64) << 32 | (b[4] as u64) << 8 | b[5] as u64,
            Rec::Junk => 0,
        });
    }
}
pub fn writes<const K: usize, const C: usize>(l: &'static List<K>, st: &mut Store<C>) -> WR {
    let mut buf = [0u8; MAXB];
    let r = poll1(l.process_writes(st, &mut buf)).map(|r| r.map(|_| ()));
    seen("write", &r, st);
    r
}
pub fn reads<const K: usize, const C: usize>(l: &'static List<K>, st: &mut Store<C>) -> WR {
    let mut buf = [0u8; MAXB];
    let r = poll1(l.process_reads(st, &mut buf)).map(|r| r.map(|_| ()));
    seen("read", &r, st);
    r
}
pub fn garbage<const K: usize, const C: usize>(l: &'static List<K>, st: &mut Store<C>) -> WR {
    let mut buf = [0u8; MAXB];
    let r = poll1(l.process_garbage(st, &mut buf)).map(|r| r.map(|_| ()));
    seen("collect", &r, st);
    r
}
pub fn ok(r: &WR) -> bool {
    matches!(r, Some(Ok(())))
}
pub fn needs_gc(r: &WR) -> bool {
    matches!(r, Some(Err(LoadStoreError::AppError(Error::NeedsGarbageCollect))))
}
pub fn needs_read(r: &WR) -> bool {
    matches!(r, Some(Err(LoadStoreError::AppError(Error::NeedsFirstRead))))
}
/// What an application does to get pending values to the storage: do what the errors ask for.
pub fn flush<const K: usize, const C: usize>(l: &'static List<K>, st: &mut Store<C>, rounds: usize) -> bool {
    for _ in 0..rounds {
        let r = writes(l, st);
        if ok(&r) {
            return true;
        } else if needs_gc(&r) {
            let _ = garbage(l, st);
        } else if needs_read(&r) {
            let _ = reads(l, st);
        }
    }
    false
}
