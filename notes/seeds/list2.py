import os,importlib.util
_sp=importlib.util.spec_from_file_location("l1",os.path.join(os.path.dirname(os.path.abspath(__file__)),"list1.py")); _m=importlib.util.module_from_spec(_sp); _sp.loader.exec_module(_m)
from types import SimpleNamespace
SL,SN,FL,LI,WT,NOR=_m.SL,_m.SN,_m.FL,_m.LI,_m.WT,_m.NOR
S=[]
def seed(id,prop,needs,breaks,edits,main,extra=None):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,extra=extra or {}))

seed("return-at-first-dirty","C15","a read that fails after loading one node and before loading one attached earlier, then setting the loaded one and a write pass",
 "the check whether a write is needed stops at the first changed node, so a node that still waits for its stored value is left out of the record",
 [(SL,"                State::NeedsWrite => needs_writing = true,\n                // A node may be in `Initial`","                State::NeedsWrite => return Ok(true),\n                // A node may be in `Initial`")],
'''
mod c;
use c::*;
fn main() {
    // "b" comes first in the record
    let mut s = Store::new(record(4, &[data("b", 9), data("a", 7)]));
    let l = list::<3>();
    // so that a collection is not what makes the write fail
    let z = attach!(node::<u8>("z"), l);
    assert!(ok(read(l, &mut s)));
    let _z = done(z);
    assert!(ok(gc(l, &mut s)));
    let mut fa = attach!(node::<u8>("a"), l);
    let fb = attach!(node::<u8>("b"), l);
    // the read fails after "b" has been loaded
    s.script(|o, n, _| if o == Op::Next && n == 2 { Act::Err } else { Act::Ok });
    assert!(!ok(read(l, &mut s)));
    s.ok();
    let mut b = done(fb);
    assert_eq!(b.load(), 9);
    run(b.write(&10)).unwrap();
    for _ in 0..3 {
        let r = write(l, &mut s);
        match r.unwrap() {
            Ok(()) => break,
            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => assert!(ok(read(l, &mut s))),
            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => assert!(ok(gc(l, &mut s))),
            Err(_) => panic!(),
        }
    }
    let _ = read(l, &mut s);
    let a = run(fa.as_mut()).unwrap();
    assert_eq!(a.load(), 7);
    assert_eq!(boot(&mut s), (7, 10));
}
''')

seed("wake-before-mark","C11","an attaching task that runs as soon as it is woken (interrupt executor, second core), and whose key is not stored",
 "a read pass wakes the attaching tasks before it marks the nodes that were not found, so a task that runs right away goes back to waiting and is never woken again",
 [(SL,'''        inner.mark_initial_nonresident();

        debug!("Reading done. Waking all.");
        self.reading_done.wake_all();
''','''        debug!("Reading done. Waking all.");
        self.reading_done.wake_all();
        inner.mark_initial_nonresident();
''')],
'''
mod c;
use c::*;
use std::sync::Arc;
use std::sync::atomic::{AtomicBool, AtomicPtr, Ordering::SeqCst};
use std::task::Wake;
type F = Att<u8, 3>;
static TASK: AtomicPtr<F> = AtomicPtr::new(std::ptr::null_mut());
static WOKEN: AtomicBool = AtomicBool::new(false);
static DONE: AtomicBool = AtomicBool::new(false);
/// The task runs as soon as it is woken.
struct Now;
impl Wake for Now {
    fn wake(self: Arc<Self>) {
        WOKEN.store(true, SeqCst);
        step();
    }
}
fn step() {
    // not while it is running already
    let f = TASK.swap(std::ptr::null_mut(), SeqCst);
    if f.is_null() || DONE.load(SeqCst) {
        return;
    }
    WOKEN.store(false, SeqCst);
    let w = Waker::from(Arc::new(Now));
    if let Poll::Ready(r) = unsafe { &mut *f }.as_mut().poll(&mut Context::from_waker(&w)) {
        DONE.store(true, SeqCst);
        assert_eq!(r.unwrap().load(), 0);
    }
    TASK.store(f, SeqCst);
}
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7)]));
    let l = list::<3>();
    let f: F = Box::pin(node::<u8>("b").attach(l));
    TASK.store(Box::into_raw(Box::new(f)), SeqCst);
    step();
    assert!(ok(read(l, &mut s)));
    // if it was woken while it was running
    while WOKEN.load(SeqCst) && !DONE.load(SeqCst) {
        step();
    }
    assert!(DONE.load(SeqCst), "the attach still waits after the read");
}
''')

seed("verify-read-error-is-fine","C06","a storage that drops an acknowledged element, and a read error during the verification of that write",
 "a write pass whose verification could not be completed because of a read error reports success",
 [(SL,'''            Err(e) => return Err(LoadStoreError::FlashRead(e)),
        };
        total_items_seen_ctr += 1;
''','''            Err(_e) => {
                // Everything was pushed successfully, do not fail the write because of this
                warn!("Read error during verification");
                return Ok(RangeInclusive::new(start_pos, total_items_seen_ctr + rpt.ct));
            }
        };
        total_items_seen_ctr += 1;
''')],
'''
mod c;
use c::*;
fn main() {
    for drop in 0..3 {
        let mut s = Store::new(vec![]);
        let l = list::<3>();
        let f = attach!(node::<u8>("a"), l);
        assert!(ok(read(l, &mut s)));
        let mut h = done(f);
        run(h.write(&5)).unwrap();
        s.script(move |o, n, _| match (o, n) {
            (Op::Push, n) if n == drop => Act::Drop,
            (Op::Next, 1) => Act::Err,
            _ => Act::Ok,
        });
        let good = ok(write(l, &mut s));
        s.ok();
        assert!(!good || boot(&mut s).0 == 5, "success, but the value is not there");
    }
}
''')

seed("undecodable-not-removed","C12","an undecodable element in the flash that is invalidated",
 "invalidating an element that does not decode does nothing, so it stays in the flash",
 [(FL,"        self.qit.pop().await?;\n        Ok(())","        // Nothing to do for what we can not decode, it is skipped anyway\n        if self.half.is_some() {\n            self.qit.pop().await?;\n        }\n        Ok(())")],
'''
mod c;
mod nor;
use c::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::cache::NoCache;
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode};
use nor::Nor;
fn main() {
    let mut q = QueueStorage::new(Nor::<4, 1>::new(2), QueueConfig::new(0..512), NoCache::new());
    run(q.push(&[0x77, 1, 2], false)).unwrap();
    let (nor, _) = q.destroy();
    let mut f = Flash::new(nor, 0..512, NoCache::new());
    run(f.push(&Elem::Start { seq_no: NonZeroU32::new(1).unwrap() })).unwrap();
    let mut buf = [0u8; 64];
    {
        let mut it = run(f.iter_elems()).unwrap();
        let e = run(it.next(&mut buf)).unwrap().unwrap();
        assert!(e.data().is_none());
        run(e.invalidate()).unwrap();
    }
    let mut it = run(f.iter_elems()).unwrap();
    let e = run(it.next(&mut buf)).unwrap().unwrap();
    assert!(matches!(e.data(), Some(Elem::Start { .. })));
}
''',extra=NOR)

seed("reload-clean-nodes","C18","a second read pass while a node holds a loaded value of a type that owns something",
 "a later read loads unchanged nodes again without dropping the value they hold",
 [(SL,"                    State::ValidNoWriteNeeded => None,\n                    State::NeedsWrite => None,\n                }\n            };\n            if let Some(vtable)","                    // pick up what is stored\n                    State::ValidNoWriteNeeded => Some(node_header.vtable),\n                    State::NeedsWrite => None,\n                }\n            };\n            if let Some(vtable)"),
  (SN,'''    debug_assert!(matches!(
        noderef.header.state.load(Ordering::Relaxed),
        State::Initial
    ));
''','''    debug_assert!(matches!(
        noderef.header.state.load(Ordering::Relaxed),
        State::Initial | State::ValidNoWriteNeeded
    ));
''')],
'''
mod c;
use c::*;
use cfg_noodle::minicbor;
use std::sync::atomic::{AtomicIsize, Ordering::SeqCst};
static LIVE: AtomicIsize = AtomicIsize::new(0);
#[derive(minicbor::CborLen, minicbor::Encode)]
#[cbor(transparent)]
struct T(#[n(0)] u8);
impl T {
    fn new(v: u8) -> T {
        LIVE.fetch_add(1, SeqCst);
        T(v)
    }
}
impl Drop for T {
    fn drop(&mut self) {
        LIVE.fetch_sub(1, SeqCst);
    }
}
impl Clone for T {
    fn clone(&self) -> T {
        T::new(self.0)
    }
}
impl Default for T {
    fn default() -> T {
        T::new(0)
    }
}
impl<'b, C> minicbor::Decode<'b, C> for T {
    fn decode(d: &mut minicbor::Decoder<'b>, _: &mut C) -> Result<T, minicbor::decode::Error> {
        Ok(T::new(d.u8()?))
    }
}
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7), data("b", 8)]));
    let l = list::<3>();
    let f = attach!(node::<T>("a"), l);
    assert!(ok(read(l, &mut s)));
    let h = done(f);
    assert_eq!(LIVE.load(SeqCst), 1);
    let g = attach!(node::<u8>("b"), l);
    assert!(ok(read(l, &mut s)));
    let _g = done(g);
    assert_eq!(h.load().0, 7);
    assert_eq!(LIVE.load(SeqCst), 1, "values alive");
}
''')

seed("keep-only-ascending","C04","valid records that are not in ascending order in the storage, with more than one kept",
 "a record found after a newer one is not kept by the next collection although it is among the newest",
 [(SL,'''        let lowest = self
            .last_records
            .iter_mut()
''','''        let newest = self.highest_seen();
        let lowest = self
            .last_records
            .iter_mut()
'''),
  (SL,'''        if let Some(lowest) = lowest
            && lowest.seq > rec.seq
        {''','''        if newest.is_some_and(|newest| newest.seq > rec.seq) {''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(5, &[data("a", 3)]));
    s.items.extend(record(4, &[data("a", 1)]));
    let all = s.items.clone();
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let _h = done(f);
    assert!(ok(gc(l, &mut s)));
    assert_eq!(s.items, all);
}
''')

seed("remove-error-is-fine","C04","an element that can not be invalidated at first",
 "a collection that could not remove an element reports success and is not repeated",
 [(SL,'''                next.invalidate()
                    .await
                    .map_err(LoadStoreError::FlashWrite)?;
                continue;''','''                if next.invalidate().await.is_err() {
                    warn!("Failed to invalidate, leaving it for the next collection");
                }
                continue;''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(5, &[data("a", 3)]));
    s.items.push(Rec::Junk);
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let _h = done(f);
    s.script(|o, n, _| if o == Op::Inv && n == 0 { Act::Err } else { Act::Ok });
    let r = gc(l, &mut s);
    s.ok();
    if !ok(r) {
        let _ = read(l, &mut s);
        assert!(ok(gc(l, &mut s)));
    }
    assert_eq!(s.items, record(5, &[data("a", 3)]));
}
''')

seed("close-what-failed","C02","a storage error while a data element is pushed, after others were",
 "a record that could not be written completely is closed with a valid end element, so the next boot uses it",
 [(SL,'''            let used = storage
                .push(&Elem::Data { data: serdat })
                .await
                .map_err(LoadStoreError::FlashWrite)?;
            bytes_written += used;
            ctr += 1;
        }
        let crc = check_crc.finalize();
''','''            let len = serdat.key_val().len();
            check_crc.update(serdat.key_val());
            let used = match storage.push(&Elem::Data { data: serdat }).await {
                Ok(used) => {
                    stored_crc.update(&buf[1..][..len]);
                    used
                }
                Err(e) => {
                    // Close the record, so that its data is not taken for a part of the next one
                    let calc_crc = stored_crc.finalize();
                    let _ = storage.push(&Elem::End { seq_no, calc_crc }).await;
                    return Err(LoadStoreError::FlashWrite(e));
                }
            };
            bytes_written += used;
            ctr += 1;
        }
        let crc = check_crc.finalize();
'''),
  (SL,'''            check_crc.update(serdat.key_val());
            // Try writing to flash
''','''            // Try writing to flash
'''),
  (SL,"        let mut check_crc = Crc32::new();\n        let mut bytes","        let (mut check_crc, mut stored_crc) = (Crc32::new(), Crc32::new());\n        let mut bytes")],
'''
mod c;
use c::*;
fn main() {
    for at in 0..4 {
        let mut s = Store::new(record(4, &[data("a", 1), data("b", 2)]));
        let l = list::<3>();
        let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
        assert!(ok(read(l, &mut s)));
        let (mut a, mut b) = (done(fa), done(fb));
        assert!(ok(gc(l, &mut s)));
        run(a.write(&11)).unwrap();
        run(b.write(&12)).unwrap();
        s.script(move |o, n, _| if o == Op::Push && n == at { Act::Err } else { Act::Ok });
        assert!(!ok(write(l, &mut s)));
        s.ok();
        let r = boot(&mut s);
        assert!(r == (1, 2) || r == (11, 12), "{at}: {r:?}");
    }
}
''')

seed("sixty-four-nodes","C01","more than 64 attached nodes",
 "only the first 64 nodes of the list are written",
 [(SL,"        for hdrptr in iter {\n            // First: is this","        for hdrptr in iter.take(64) {\n            // First: is this")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    let keys: Vec<&'static str> = (0..70).map(|i| -> &'static str { Box::leak(format!("k{i}").into_boxed_str()) }).collect();
    {
        let l = list::<3>();
        let f: Vec<_> = keys.iter().map(|k| attach!(node::<u8>(k), l)).collect();
        assert!(ok(read(l, &mut s)));
        let mut h: Vec<_> = f.into_iter().map(done).collect();
        for (i, h) in h.iter_mut().enumerate() {
            run(h.write(&(i as u8))).unwrap();
        }
        assert!(ok(write(l, &mut s)));
    }
    let l = list::<3>();
    let f: Vec<_> = keys.iter().map(|k| attach!(node::<u8>(k), l)).collect();
    assert!(ok(read(l, &mut s)));
    for (i, f) in f.into_iter().enumerate() {
        assert_eq!(done(f).load(), i as u8);
    }
}
''')

VCLOCK={"vclock.rs":'''
//! A clock that only moves when told to.
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::task::Waker;
static NOW: AtomicU64 = AtomicU64::new(1000);
pub static TIMER: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicU64 = AtomicU64::new(u64::MAX);
struct Clock;
impl embassy_time_driver::Driver for Clock {
    fn now(&self) -> u64 {
        NOW.load(SeqCst)
    }
    fn schedule_wake(&self, at: u64, _w: &Waker) {
        NEXT.fetch_min(at, SeqCst);
    }
}
embassy_time_driver::time_driver_impl!(static CLOCK: Clock = Clock);
pub fn advance(seconds: u64) {
    NOW.fetch_add(seconds * embassy_time_driver::TICK_HZ, SeqCst);
}
/// Let time pass, calling `poll` at every timer.
pub fn pass(seconds: u64, mut poll: impl FnMut()) {
    let to = NOW.load(SeqCst) + seconds * embassy_time_driver::TICK_HZ;
    for _ in 0..6 {
        poll();
    }
    for _ in 0..10_000 {
        let n = NEXT.swap(u64::MAX, SeqCst);
        if n > to {
            NEXT.store(n, SeqCst);
            NOW.store(to, SeqCst);
            return;
        }
        if n > NOW.load(SeqCst) {
            NOW.store(n, SeqCst);
        }
        for _ in 0..6 {
            poll();
        }
    }
    panic!("does not come to rest");
}
'''}

STOPD='''
static SEEN: Mutex<Vec<Rec>> = Mutex::new(Vec::new());
static STOP: AtomicBool = AtomicBool::new(false);
static NOW: Mutex<Option<(Op, Act)>> = Mutex::new(None);
struct Stop;
impl Future for Stop {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<()> {
        if STOP.load(SeqCst) { Poll::Ready(()) } else { Poll::Pending }
    }
}
/// Records what is pushed; `NOW` tells what happens to the next operation of a kind.
fn store(items: Vec<Rec>) -> Store {
    let mut s = Store::new(items);
    s.script(|o, _, r| {
        let mut n = NOW.lock().unwrap();
        if n.as_ref().is_some_and(|n| n.0 == o) {
            return n.take().unwrap().1;
        }
        if o == Op::Push {
            SEEN.lock().unwrap().push(r.unwrap().clone());
        }
        Act::Ok
    });
    s
}
'''
seed("flush-only-unsaved","C16","a value set while the worker's write pass is under way, and the worker stopped within the ten seconds after",
 "a finished write pass marks everything as saved, also what was set meanwhile, and the flush at the end skips saved values",
 [(WT,"    // Create one future for the waker signals so that we can `select` between this\n","    // Whether something was set that is not written yet\n    let unsaved = core::cell::Cell::new(false);\n\n    // Create one future for the waker signals, so that we can `select` between this\n"),
  (WT,"""                // Wait for needs_read to be signaled once
                debug!("worker_task waiting for needs_write signal");
                list.needs_write().await;
""","""                // Wait for needs_write to be signaled once
                debug!("worker_task waiting for needs_write signal");
                list.needs_write().await;
                unsaved.set(true);
"""),
  (WT,"""                    }
                    Either3::Third(_) => {
""","""                        unsaved.set(false);
                    }
                    Either3::Third(_) => {
"""),
  (WT,"    info!(\"stopper future completed, stopping worker task\");\n","    info!(\"stopper future completed, unsaved values: {}\", unsaved.get());\n    if !unsaved.get() {\n        return;\n    }\n")],
'''
mod c;
mod vclock;
use c::*;
use cfg_noodle::worker_task::default_worker_task;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
'''+STOPD+'''
fn main() {
    let l = list::<2>();
    let buf: &'static mut [u8] = Box::leak(Box::new([0u8; 64]));
    let s = store(record(4, &[data("a", 7), data("b", 8)]));
    let mut w = Box::pin(default_worker_task(l, s, Stop, buf));
    let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
    vclock::pass(1, || {
        poll(w.as_mut());
    });
    let (mut a, mut b) = (done(fa), done(fb));
    run(a.write(&50)).unwrap();
    *NOW.lock().unwrap() = Some((Op::Push, Act::Yield));
    // the write pass starts, and is suspended
    vclock::pass(9, || {
        poll(w.as_mut());
    });
    vclock::advance(2);
    while NOW.lock().unwrap().is_some() {
        poll(w.as_mut());
    }
    let mut f = Box::pin(b.write(&51));
    if poll(f.as_mut()).is_none() {
        for i in 0.. {
            poll(w.as_mut());
            if let Some(r) = poll(f.as_mut()) {
                r.unwrap();
                break;
            }
            assert!(i < 1000);
        }
    }
    drop(f);
    vclock::pass(3, || {
        poll(w.as_mut());
    });
    STOP.store(true, SeqCst);
    run(w.as_mut());
    assert!(SEEN.lock().unwrap().contains(&data("a", 50)), "not written");
    assert!(SEEN.lock().unwrap().contains(&data("b", 51)), "not written");
}
''',extra=VCLOCK)

seed("flush-only-after-read","C16","a storage error while reading for a second node, a change to the first, and the worker stopped before the write is due",
 "after a failed read the worker does not flush pending values when it is stopped",
 [(WT,"    // Create one future for the waker signals so that we can `select` between this\n","    // Whether we know what is in the storage\n    let have_read = core::cell::Cell::new(false);\n\n    // Create one future for the waker signals, so that we can `select` between this\n"),
  (WT,"""                        info!("worker task got needs_read signal, processing reads");

                        match list.process_reads(&mut flash, buf).await {
                            Ok(rpt) => info!("process_reads success: {:?}", rpt),
                            Err(e) => error!("Error in process_reads: {:?}", e),
                        }
""","""                        info!("worker task got needs_read signal, processing reads");

                        let res = list.process_reads(&mut flash, buf).await;
                        have_read.set(res.is_ok());
                        match res {
                            Ok(rpt) => info!("process_reads success: {:?}", rpt),
                            Err(e) => error!("Error in process_reads: {:?}", e),
                        }
"""),
  (WT,"    info!(\"stopper future completed, stopping worker task\");\n","    if !have_read.get() {\n        info!(\"closing worker without performing first read\");\n        return;\n    }\n    info!(\"stopper future completed, writing what is pending\");\n")],
'''
mod c;
mod vclock;
use c::*;
use cfg_noodle::worker_task::default_worker_task;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
'''+STOPD+'''
fn main() {
    let l = list::<2>();
    let buf: &'static mut [u8] = Box::leak(Box::new([0u8; 64]));
    let s = store(record(4, &[data("a", 7), data("b", 8)]));
    let mut w = Box::pin(default_worker_task(l, s, Stop, buf));
    let fa = attach!(node::<u8>("a"), l);
    vclock::pass(1, || {
        poll(w.as_mut());
    });
    let mut a = done(fa);
    *NOW.lock().unwrap() = Some((Op::Next, Act::Err));
    let _fb = attach!(node::<u8>("b"), l);
    vclock::pass(1, || {
        poll(w.as_mut());
    });
    assert!(NOW.lock().unwrap().is_none());
    run(a.write(&50)).unwrap();
    vclock::pass(2, || {
        poll(w.as_mut());
    });
    STOP.store(true, SeqCst);
    run(w.as_mut());
    assert!(SEEN.lock().unwrap().contains(&data("a", 50)), "not written");
}
''',extra=VCLOCK)

seed("stop-when-all-found","C17","a record holding keys that no attached node has, behind the ones that are attached",
 "reading stops once every waiting node is loaded, so the reported size of the current record leaves out the rest",
 [(SL,'''        // We should now be at the start of data elements.
        loop {
            let res = queue_iter.next(buf).await;
            let item = match res {''','''        // We should now be at the start of data elements.
        loop {
            // No need to go on when everybody is served
            if !self.list.iter().any(|n| matches!(n.state.load(Ordering::Acquire), State::Initial)) {
                break;
            }
            let item = match queue_iter.next(buf).await {''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 7), data("b", 8), data("old", 9)]));
    let size: usize = s.items[1..4].iter().map(|r| r.size()).sum();
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    let r = run(l.process_reads(&mut s, &mut [0; 64])).unwrap();
    assert_eq!(r.current_bytes_read, size);
    let _ = done(f);
}
''')

seed("rotate-not-sort","C05","a valid record with a lower number that lies behind the newest one",
 "the record found last counts as the newest one",
 [(SL,'''        self.last_records
            .sort_unstable_by_key(|n| n.as_ref().map(|i| i.seq));
''','''        // The lowest one was replaced, which is the first one: the new one becomes the last one
        self.last_records.rotate_left(1);
''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(9, &[data("a", 3), data("b", 4)]));
    s.items.extend(record(4, &[data("a", 1), data("b", 2)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    assert!(ok(gc(l, &mut s)));
    run(h.write(&77)).unwrap();
    assert!(ok(write(l, &mut s)));
    let top = s.items.iter().filter_map(|r| if let Rec::Start(n) = r { Some(*n) } else { None }).max().unwrap();
    assert_eq!(s.items.last().unwrap().clone(), Rec::End(top, match s.items.last().unwrap() { Rec::End(_, c) => *c, _ => 0 }));
    assert!(top > 9);
}
''')

seed("leading-slash","C13","a key that starts with a slash",
 "keys are stored without a leading slash, so what is stored does not split back into the key and is not found again",
 [(SL,"    let res: Result<(), minicbor::encode::Error<EndOfSlice>> = minicbor::encode(key, &mut cursor);\n    let Ok(()) = res else {\n        error!(\"Key could","    // a leading slash carries no information\n    let path = key.strip_prefix('/').unwrap_or(key);\n    let res: Result<(), minicbor::encode::Error<EndOfSlice>> =\n        minicbor::encode(path, &mut cursor);\n    let Ok(()) = res else {\n        error!(\"Key could")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    {
        let l = list::<3>();
        let f = attach!(node::<u8>("/a"), l);
        assert!(ok(read(l, &mut s)));
        let mut h = done(f);
        run(h.write(&5)).unwrap();
        assert!(ok(write(l, &mut s)));
    }
    let l = list::<3>();
    let f = attach!(node::<u8>("/a"), l);
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), 5);
}
''')
