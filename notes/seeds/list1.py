SL="crates/cfg-noodle/src/storage_list.rs"; SN="crates/cfg-noodle/src/storage_node.rs"
FL="crates/cfg-noodle/src/flash.rs"; LI="crates/cfg-noodle/src/lib.rs"; WT="crates/cfg-noodle/src/worker_task.rs"
S=[]
def seed(id,prop,needs,breaks,edits,main,extra=None):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,extra=extra or {}))

seed("gc-stale-ranges","C04","a garbage collection that fails after it removed an element, followed by another collection without a reboot",
 "the collection keeps working with element positions found before the interrupted collection and removes elements of the newest records",
 [(SL,"            core::mem::replace(&mut guard.seq_state, SeqState::new())\n","            guard.seq_state.clone()\n"),
  (SL,"        let mut inner = self.inner.lock().await;\n        inner\n            .get_or_populate_latest(storage, buf, &mut post_collection_bytes_read)",
      "        let mut inner = self.inner.lock().await;\n        inner.seq_state = SeqState::new();\n        inner\n            .get_or_populate_latest(storage, buf, &mut post_collection_bytes_read)")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![Rec::Junk, Rec::Junk]);
    s.items.extend(record(4, &[data("a", 1), data("b", 2)]));
    s.items.extend(record(5, &[data("a", 3), data("b", 4)]));
    let l = list::<1>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let _h = done(f);
    s.script(|o, n, _| if o == Op::Inv && n == 3 { Act::Err } else { Act::Ok });
    assert!(!ok(gc(l, &mut s)));
    s.ok();
    let _ = read(l, &mut s);
    let _ = gc(l, &mut s);
    assert_eq!(boot(&mut s), (3, 4));
    assert_eq!(s.items, record(5, &[data("a", 3), data("b", 4)]));
}
''')

seed("scan-junk-inside","C03","a record with an undecodable element between its start and its end whose remaining data matches the checksum",
 "a record with an undecodable element inside counts as valid, so reading fails instead of using the newest intact record",
 [(SL,"                    // record, invalidate it.\n                    current = None;\n                    continue;","                    // record, the checksum tells whether anything is missing.\n                    continue;")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 1), data("b", 2)]));
    let mut r = record(5, &[data("a", 3), data("b", 4)]);
    r.insert(2, Rec::Junk);
    s.items.extend(r);
    assert_eq!(boot(&mut s), (1, 2));
}
''')

seed("next-seq-of-last","C05","valid records that are not in ascending order in the storage",
 "the next sequence number follows the last record found rather than the highest one",
 [(SL,"        *lowest = Some(rec);\n","        let latest = rec.seq;\n        *lowest = Some(rec);\n"),
  (SL,'''        let next = self.last_records[KEPT_RECORDS - 1]
            .as_ref()
            .map(|n| n.seq)
            .unwrap_or(const { NonZeroU32::new(1).unwrap() });
''','''        let next = latest;
''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(9, &[data("a", 9), data("b", 9)]));
    s.items.extend(record(5, &[data("a", 3), data("b", 4)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    assert_eq!(h.load(), 9);
    run(h.write(&77)).unwrap();
    for _ in 0..4 {
        if ok(write(l, &mut s)) {
            break;
        }
        let _ = gc(l, &mut s);
    }
    assert_eq!(boot(&mut s).0, 77);
}
''')

seed("verify-stored-crc-only","C06","a storage that acknowledges a data element but stores other bytes",
 "the write pass compares only the stored checksum, not the checksum of the data it read back",
 [(SL,"                let good = seq_chk && crc_chk1 && crc_chk2 && ctr_chk;","                let good = seq_chk && crc_chk2 && ctr_chk;")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
    assert!(ok(read(l, &mut s)));
    let (mut a, mut b) = (done(fa), done(fb));
    run(a.write(&30)).unwrap();
    run(b.write(&31)).unwrap();
    s.script(|o, n, _| if o == Op::Push && n == 2 { Act::Other(data("a", 99)) } else { Act::Ok });
    assert!(!ok(write(l, &mut s)), "altered data was accepted");
    s.ok();
    assert!(ok(gc(l, &mut s)));
    assert!(ok(write(l, &mut s)));
    assert_eq!(boot(&mut s), (30, 31));
}
''')

seed("early-clean","C08","a write pass that fails after at least one data element was pushed, then a retry",
 "nodes count as written as soon as their element was pushed, so a failed pass forgets that they still have to be written",
 [(SL,'''                State::ValidNoWriteNeeded => {}
                State::NeedsWrite => {}
            }

            // Attempt to serialize''','''                State::ValidNoWriteNeeded => {}
                // Rule 4.1.3: We can move from NeedsWrite -> ValidNoWriteNeeded because we hold the lock
                // SAFETY: Rule 1: NodeHeader access is ALWAYS shared
                State::NeedsWrite => unsafe { hdrptr.ptr.as_ref() }
                    .state
                    .store(State::ValidNoWriteNeeded, Ordering::Release),
            }

            // Attempt to serialize''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 1), data("b", 2)]));
    let l = list::<3>();
    let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
    assert!(ok(read(l, &mut s)));
    let (mut a, _b) = (done(fa), done(fb));
    assert!(ok(gc(l, &mut s)));
    run(a.write(&30)).unwrap();
    s.script(|o, n, _| if o == Op::Push && n == 3 { Act::Err } else { Act::Ok });
    assert!(!ok(write(l, &mut s)));
    s.ok();
    assert!(ok(gc(l, &mut s)));
    assert!(ok(write(l, &mut s)));
    assert_eq!(boot(&mut s), (30, 2));
}
''')

seed("dup-key-keeps-list","C09","an attach refused because of a duplicate key, then the first node is detached, and the refused node is attached again",
 "the refused node counts as part of the list without being on it",
 [(SN,'''                    error!("Key already in use: {:?}", key);
                    self.taken_for_list.store(null_mut(), Ordering::Release);''','''                    error!("Key already in use: {:?}", key);
                    self.taken_for_list.store(list_ptr, Ordering::Release);''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7)]));
    let l = list::<3>();
    let (n1, n2) = (node::<u8>("a"), node::<u8>("a"));
    let f = attach!(n1, l);
    assert!(matches!(once(n2.attach(l)), Some(Err(Error::DuplicateKey))));
    assert!(ok(read(l, &mut s)));
    drop(done(f));
    assert!(ok(once(n1.detach(l))));
    let mut f = Box::pin(n2.attach(l));
    assert!(!matches!(poll(f.as_mut()), Some(Err(_))));
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), 7);
}
''')

seed("nonresident-counts-as-written","C10","a write pass between the read that did not find a node's key and the moment its attach continues",
 "the node is marked as loaded although it has no value, so the attach hands out uninitialised memory instead of the default",
 [(SL,'''                // We DO NOT update any NonResident nodes
                State::NonResident => false,''','''                // NonResident nodes have been dealt with
                State::NonResident => true,''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let n = node::<u64>("late");
    let fa = attach!(node::<u8>("a"), l);
    let mut fb = Box::pin(n.attach_with_default(l, || 0x1234_5678_9abc_def0));
    assert!(poll(fb.as_mut()).is_none());
    assert!(ok(read(l, &mut s)));
    let _a = done(fa);
    assert!(ok(write(l, &mut s)));
    assert_eq!(done(fb).load(), 0x1234_5678_9abc_def0);
}
''')

seed("reattach-does-not-wake","C11","an attach that is cancelled after its read request was consumed by a read that failed, then the node is attached again",
 "the second attach does not ask for a read and waits forever",
 [(SN,'''            // a read if no nodes actually are in a state where they need data.
            list.needs_read.wake();
''','''            // a read if no nodes actually are in a state where they need data.
            if !already_attached {
                list.needs_read.wake();
            }
''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7)]));
    let l = list::<3>();
    let n = node::<u8>("a");
    let f = attach!(n, l);
    assert!(once(l.needs_read()).is_some());
    drop(f);
    s.script(|_, _, _| Act::Err);
    assert!(!ok(read(l, &mut s)));
    s.ok();
    // the application tries again; the worker serves requests as they come
    let mut f = Box::pin(n.attach(l));
    for _ in 0..5 {
        if let Some(r) = poll(f.as_mut()) {
            assert_eq!(r.unwrap().load(), 7);
            return;
        }
        if once(l.needs_read()).is_some() {
            let _ = read(l, &mut s);
        }
    }
    panic!("the attach never completes");
}
''')

seed("write-signal-before-value","C11","setting a value while a read pass holds the list, with the worker consuming the write request before the value is there",
 "the request to write is signalled before the value is set, so the value is never written although the worker served every request",
 [(SN,'''        let _inner = self.list().inner.lock().await;
        let key: &'static str = self.key();
''','''        // Let the write task know we have work
        self.list().needs_write.wake();
        let _inner = self.list().inner.lock().await;
        let key: &'static str = self.key();
'''),(SN,'''        // Let the write task know we have work
        self.list().needs_write.wake();

        // old T is dropped
''','''        // old T is dropped
''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    let _g = attach!(node::<u8>("b"), l);
    {
        // a second read is under way while the value is being set
        s.script(|o, n, _| if o == Op::Next && n == 0 { Act::Yield } else { Act::Ok });
        let mut buf = [0; 64];
        let mut rd = Box::pin(l.process_reads(&mut s, &mut buf));
        assert!(poll(rd.as_mut()).is_none());
        let mut w = Box::pin(h.write(&50));
        assert!(poll(w.as_mut()).is_none());
        // the worker notes the request, if any, and lets the read finish
        let asked = once(l.needs_write()).is_some();
        assert!(matches!(poll(rd.as_mut()), Some(Ok(_))));
        drop(rd);
        if asked {
            s.ok();
            assert!(ok(gc(l, &mut s)));
            assert!(ok(write(l, &mut s)));
        }
        assert!(matches!(poll(w.as_mut()), Some(Ok(()))));
    }
    s.ok();
    // from here on the worker only acts on requests
    if once(l.needs_write()).is_some() {
        let _ = gc(l, &mut s);
        assert!(ok(write(l, &mut s)));
    }
    assert_eq!(boot(&mut s).0, 50);
}
''')

FLASHMOD='''
    use cfg_noodle::flash::Flash;
    use cfg_noodle::sequential_storage::cache::NoCache;
'''
seed("end-accepts-trailing","C12","a stored element that starts like an end element but is longer",
 "an over-long element is yielded as an end element instead of as undecodable",
 [(FL,"                if rest.len() != 8 {","                if rest.len() < 8 {")],
'''
mod c;
mod nor;
use c::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::{cache::NoCache, queue::{QueueConfig, QueueStorage}};
use cfg_noodle::{NdlDataStorage, NdlElemIter, NdlElemIterNode};
use nor::Nor;
fn main() {
    let mut q = QueueStorage::new(Nor::<1, 4>::new(4), QueueConfig::new(0..4 * 256), NoCache::new());
    for n in 1..14usize {
        for first in 0..4u8 {
            let mut e = vec![7u8; n];
            e[0] = first;
            run(q.push(&e, false)).unwrap();
        }
    }
    let (nor, _, _) = { let mut q = q; (q.flash().clone(), 0, 0) };
    let mut f = Flash::new(nor, 0..4 * 256, NoCache::new());
    let mut it = run(f.iter_elems()).unwrap();
    let mut buf = [0u8; 256];
    for n in 1..14usize {
        for first in 0..4u8 {
            let x = run(it.next(&mut buf)).unwrap().unwrap();
            let good = matches!((first, n), (0, 5) | (2, 9)) || (first == 1 && n > 1);
            assert_eq!(x.data().is_some(), good, "{first} {n}");
        }
    }
}
''',extra={"nor.rs":'''
//! NOR flash in memory.
use embedded_storage_async::nor_flash::*;
#[derive(Clone)]
pub struct Nor<const R: usize, const W: usize>(pub Vec<u8>);
#[derive(Debug)]
pub struct E;
impl NorFlashError for E {
    fn kind(&self) -> NorFlashErrorKind {
        NorFlashErrorKind::Other
    }
}
impl<const R: usize, const W: usize> Nor<R, W> {
    pub fn new(pages: usize) -> Self {
        Nor(vec![0xff; pages * 256])
    }
}
impl<const R: usize, const W: usize> ErrorType for Nor<R, W> {
    type Error = E;
}
impl<const R: usize, const W: usize> ReadNorFlash for Nor<R, W> {
    const READ_SIZE: usize = R;
    async fn read(&mut self, o: u32, b: &mut [u8]) -> Result<(), E> {
        assert!(o as usize % R == 0 && b.len() % R == 0);
        b.copy_from_slice(&self.0[o as usize..][..b.len()]);
        Ok(())
    }
    fn capacity(&self) -> usize {
        self.0.len()
    }
}
impl<const R: usize, const W: usize> NorFlash for Nor<R, W> {
    const WRITE_SIZE: usize = W;
    const ERASE_SIZE: usize = 256;
    async fn erase(&mut self, a: u32, b: u32) -> Result<(), E> {
        self.0[a as usize..b as usize].fill(0xff);
        Ok(())
    }
    async fn write(&mut self, o: u32, b: &[u8]) -> Result<(), E> {
        assert!(o as usize % W == 0 && b.len() % W == 0);
        for (d, s) in self.0[o as usize..].iter_mut().zip(b) {
            *d &= s;
        }
        Ok(())
    }
}
impl<const R: usize, const W: usize> MultiwriteNorFlash for Nor<R, W> {}
'''})
NOR=S[-1]["extra"]
seed("size-without-read-word","C12","a flash whose read granularity is larger than its write granularity",
 "reported element sizes ignore the padding to the read word size",
 [(FL,"    let len_roundup = len.next_multiple_of(crate::max(T::WRITE_SIZE, T::READ_SIZE));","    let len_roundup = len.next_multiple_of(T::WRITE_SIZE);")],
'''
mod c;
mod nor;
use c::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::cache::NoCache;
use cfg_noodle::{Elem, NdlDataStorage, SerData};
use nor::Nor;
fn used(f: &mut Flash<Nor<4, 1>, NoCache>) -> usize {
    // everything up to the last programmed byte of the first page, excluding the page's end marker
    let p = &f.flash().0[..252];
    p.iter().rposition(|b| *b != 0xff).map_or(0, |i| i + 1).next_multiple_of(4)
}
fn main() {
    let mut f = Flash::new(Nor::<4, 1>::new(2), 0..512, NoCache::new());
    run(f.push(&Elem::Start { seq_no: NonZeroU32::new(1).unwrap() })).unwrap();
    for n in 2..9usize {
        let before = used(&mut f);
        let mut b = vec![3u8; n];
        let size = run(f.push(&Elem::Data { data: SerData::new(&mut b).unwrap() })).unwrap();
        assert_eq!(used(&mut f) - before, size, "element of {n} bytes");
    }
}
''',extra=NOR)

seed("size-check-forgets-header","C14","a value whose key and encoding fill the maximum element size exactly",
 "the size check accepts a value that is one byte too long to be stored",
 [(LI,"        Self::MAX_ELEM_SIZE >= 1 + len_with(key, &mut ()) + len_with(node, &mut ())","        Self::MAX_ELEM_SIZE >= len_with(key, &mut ()) + len_with(node, &mut ())")],
'''
mod c;
use c::*;
use cfg_noodle::NdlDataStorage;
fn main() {
    for n in 50..64usize {
        let v: String = "x".repeat(n);
        let mut s = Store::new(vec![]);
        let l = list::<3>();
        let f = attach!(node::<String>("a"), l);
        assert!(ok(read(l, &mut s)));
        let mut h = done(f);
        run(h.write(&v)).unwrap();
        let fits = Store::check_node_size("a", v);
        assert_eq!(ok(write(l, &mut s)), fits, "{n}");
    }
}
''')

seed("skip-what-does-not-fit","C14","a value that is too large for the buffer while the storage holds an older value of it",
 "a value that does not fit is left out of the record, and the pass reports success",
 [(SL,"            let used = unsafe { serialize_node(hdrptr.ptr, rest)? };","            let Ok(used) = (unsafe { serialize_node(hdrptr.ptr, rest) }) else {\n                warn!(\"Skipping a node that can not be serialized\");\n                continue;\n            };")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let (fa, fb) = (attach!(node::<String>("a"), l), attach!(node::<u8>("b"), l));
    assert!(ok(read(l, &mut s)));
    let (mut a, mut b) = (done(fa), done(fb));
    run(a.write(&"y".repeat(100))).unwrap();
    run(b.write(&5)).unwrap();
    assert!(!ok(write(l, &mut s)), "success although the value does not fit");
    run(a.write(&"ok".to_string())).unwrap();
    assert!(ok(gc(l, &mut s)));
    assert!(ok(write(l, &mut s)));
}
''')

seed("scan-error-is-end","C15","a read error during the first scan of the storage",
 "a read error counts as the end of the storage, so values behind it are lost",
 [(SL,'''                // end of list
                Ok(None) => break,
                // flash error
                Err(e) => return Err(LoadStoreError::FlashRead(e)),
            };
            let idx = ctr;''','''                // end of list
                Ok(None) => break,
                // flash error: keep what we have found so far
                Err(_) => break,
            };
            let idx = ctr;''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7)]));
    s.items.extend(record(5, &[data("a", 8)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    s.script(|o, n, _| if o == Op::Next && n == 3 { Act::Err } else { Act::Ok });
    let _ = read(l, &mut s);
    s.ok();
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), 8);
}
''')

seed("skipped-bytes-not-counted","C17","a newest record that is not the first thing in the storage",
 "elements in front of the newest record are read but not counted",
 [(SL,'''                Ok(Some(item)) => {
                    *total_bytes_read += item.len();
                }
                Ok(None) => return Err(LoadStoreError::AppError(Error::InconsistentFlash)),''','''                Ok(Some(_)) => {}
                Ok(None) => return Err(LoadStoreError::AppError(Error::InconsistentFlash)),''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7)]));
    s.items.extend(record(5, &[data("a", 8)]));
    let l = list::<3>();
    let _f = attach!(node::<u8>("a"), l);
    let r = once(l.process_reads(&mut s, &mut [0; 64])).unwrap().unwrap();
    let all: usize = s.items.iter().map(|r| r.size()).sum();
    // one scan, then everything up to the end of the newest record again
    assert_eq!(r.total_bytes_read, 2 * all);
}
''')

seed("current-bytes-only-known","C17","a stored record with keys that no attached node has",
 "the reported size of the current record leaves out values nobody asked for",
 [(SL,'''            *current_bytes_read += item_len;

            let Ok(kvpair) = data.kv_pair() else {''','''            let Ok(kvpair) = data.kv_pair() else {'''),
  (SL,'''            let header_meta = {
                // SAFETY: Rule 1: NodeHeader access is ALWAYS shared
''','''            *current_bytes_read += item_len;

            let header_meta = {
                // SAFETY: Rule 1: NodeHeader access is ALWAYS shared
''')],
'''
mod c;
use c::*;
fn main() {
    let d = [data("x", 9), data("a", 8), data("yy", 3)];
    let mut s = Store::new(record(5, &d));
    let l = list::<3>();
    let _f = attach!(node::<u8>("a"), l);
    let r = once(l.process_reads(&mut s, &mut [0; 64])).unwrap().unwrap();
    assert_eq!(r.current_bytes_read, d.iter().map(|r| r.size()).sum::<usize>());
}
''')

COUNTED='''
mod c;
use c::*;
use cfg_noodle::minicbor::{self, CborLen, Decode, Encode};
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
#[derive(Encode, Decode, CborLen)]
struct T(#[n(0)] u8, #[cbor(skip)] Tok);
struct Tok;
impl Default for Tok {
    fn default() -> Self {
        LIVE.fetch_add(1, SeqCst);
        Tok
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        T(self.0, Tok::default())
    }
}
impl Default for T {
    fn default() -> T {
        T(0, Tok::default())
    }
}
'''
seed("overwrite-leaks","C18","overwriting a value of a type that owns something",
 "setting a value does not drop the value it replaces",
 [(SN,'''        let mut t: T = t.clone();
''','''        let t: T = t.clone();
'''),(SN,'''            let mutref: &mut T = tmut.assume_init_mut();

            // We do a swap instead of a write here, to ensure that we
            // call `drop` on the "old" contents of the buffer when `t`
            // is dropped
            core::mem::swap(&mut t, mutref);
''','''            tmut.write(t);
''')],COUNTED+'''
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let f = attach!(node::<T>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    for _ in 0..3 {
        run(h.write(&T(3, Tok::default()))).unwrap();
    }
    assert_eq!(LIVE.load(SeqCst), 1);
}
''')
seed("detach-leaks-pending","C18","detaching a node whose value was set but not yet written",
 "a value that was never written is not dropped on detach",
 [(SN,'''            State::Initial | State::NonResident => {}
            // In these states, there IS data to drop
            State::ValidNoWriteNeeded | State::NeedsWrite => {
                // SAFETY: Rule 3.2''','''            State::Initial | State::NonResident | State::NeedsWrite => {}
            // In these states, there IS data to drop
            State::ValidNoWriteNeeded => {
                // SAFETY: Rule 3.2''')],COUNTED+'''
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let n = node::<T>("a");
    let f = attach!(n, l);
    assert!(ok(read(l, &mut s)));
    drop(done(f));
    assert!(ok(once(n.detach(l))));
    assert_eq!(LIVE.load(SeqCst), 0);
}
''')

seed("decode-failure-ends-extraction","C19","a stored value whose type gained a mandatory field, in front of other values in the record",
 "a value that no longer decodes also sends the values behind it back to their defaults",
 [(SL,'''                    hdrref.state.store(State::NonResident, Ordering::Release);
                }
            }
        }
        Ok(())''','''                    hdrref.state.store(State::NonResident, Ordering::Release);
                    break;
                }
            }
        }
        Ok(())''')],
'''
mod c;
use c::*;
use cfg_noodle::minicbor::{self, CborLen, Decode, Encode};
#[derive(Encode, Decode, CborLen, Clone, Default)]
struct Old {
    #[n(0)]
    a: u8,
}
#[derive(Encode, Decode, CborLen, Clone, Default)]
struct New {
    #[n(0)]
    a: u8,
    #[n(1)]
    b: u8,
}
fn main() {
    for swap in [false, true] {
        let mut s = Store::new(vec![]);
        let l = list::<3>();
        let (x, y) = if swap { ("x", "y") } else { ("y", "x") };
        let f = attach!(node::<Old>(x), l);
        let g = attach!(node::<Old>(y), l);
        assert!(ok(read(l, &mut s)));
        let (mut h, mut i) = (done(f), done(g));
        run(h.write(&Old { a: 11 })).unwrap();
        run(i.write(&Old { a: 12 })).unwrap();
        assert!(ok(write(l, &mut s)));
        let l = list::<3>();
        let f = attach!(node::<New>("x"), l);
        let g = attach!(node::<Old>("y"), l);
        assert!(ok(read(l, &mut s)));
        assert_eq!(done(f).load().a, 0);
        assert_eq!(done(g).load().a, if swap { 12 } else { 11 });
    }
}
''')

seed("write-ignores-unread","C07","a node attached after the first read, and a write pass before the next read",
 "a write pass no longer waits for attached nodes to be loaded, and drops their stored values",
 [(SL,'''                State::Initial => {
                    return Err(Error::NeedsFirstRead);
                }
                // A node may be NonResident''','''                // It does not have anything to write then, just skip.
                State::Initial => {}
                // A node may be NonResident''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7), data("b", 8)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    assert!(ok(gc(l, &mut s)));
    let f = attach!(node::<u8>("b"), l);
    run(h.write(&30)).unwrap();
    for _ in 0..4 {
        match write(l, &mut s) {
            Some(Ok(())) => break,
            _ => {
                let _ = read(l, &mut s);
                let _ = gc(l, &mut s);
            }
        }
    }
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), 8);
    assert_eq!(boot(&mut s), (30, 8));
}
''')

seed("detach-keeps-nonresident","C10","an attach cancelled between a read that did not find the key and its continuation, a detach, and an attach to a list whose storage has the key",
 "a detached node remembers that its key was not found and gets its default without looking",
 [(SN,'''            State::Initial | State::NonResident => {}
            // In these states, there IS data to drop
''','''            State::Initial | State::NonResident => {
                self.taken_for_list.store(null_mut(), Ordering::Release);
                return Ok(());
            }
            // In these states, there IS data to drop
''')],
'''
mod c;
use c::*;
fn main() {
    let mut s1 = Store::new(vec![]);
    let mut s2 = Store::new(record(4, &[data("a", 7)]));
    let (l1, l2) = (list::<3>(), list::<3>());
    let n = node::<u8>("a");
    let f = attach!(n, l1);
    assert!(ok(read(l1, &mut s1)));
    drop(f);
    assert!(ok(once(n.detach(l1))));
    let mut f = Box::pin(n.attach(l2));
    let r = poll(f.as_mut());
    let h = match r {
        Some(r) => r.unwrap(),
        None => {
            assert!(ok(read(l2, &mut s2)));
            done(f)
        }
    };
    assert_eq!(h.load(), 7);
}
''')
