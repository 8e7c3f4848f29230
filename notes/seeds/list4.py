import os,importlib.util
_sp=importlib.util.spec_from_file_location("l2",os.path.join(os.path.dirname(os.path.abspath(__file__)),"list2.py")); _m=importlib.util.module_from_spec(_sp); _sp.loader.exec_module(_m)
_sp=importlib.util.spec_from_file_location("l1",os.path.join(os.path.dirname(os.path.abspath(__file__)),"list1.py")); _n=importlib.util.module_from_spec(_sp); _sp.loader.exec_module(_n)
SL,SN,FL,LI,WT,NOR=_n.SL,_n.SN,_n.FL,_n.LI,_n.WT,_n.NOR
VCLOCK,STOPD=_m.VCLOCK,_m.STOPD
S=[]
def seed(id,prop,needs,breaks,edits,main,extra=None):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,extra=extra or {}))

seed("read-debounce-takes-writes","C16","a node attached right before the debounce time of a change ends, and another change within the 100 ms after",
 "while debouncing read requests the worker takes the write request of the second change, which is then never stored",
 [(WT,"with_timeout(Duration::from_millis(100), list.needs_read())","with_timeout(Duration::from_millis(100), list.needs_write())")],
'''
mod c;
mod vclock;
use c::*;
use cfg_noodle::worker_task::default_worker_task;
use std::sync::Mutex;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
'''+STOPD+'''
fn main() {
    // in steps of 10 ms around the end of the debounce time
    for attach in 0..30 {
        for change in 1..15 {
            SEEN.lock().unwrap().clear();
            let l = list::<2>();
            let buf: &'static mut [u8] = Box::leak(Box::new([0u8; 64]));
            let s = store(record(4, &[data("a", 7), data("b", 8)]));
            let mut w = Box::pin(default_worker_task(l, s, Stop, buf));
            let fa = attach!(node::<u8>("a"), l);
            vclock::pass(1, || {
                poll(w.as_mut());
            });
            let mut a = done(fa);
            run(a.write(&50)).unwrap();
            vclock::pass_ms(9800 + 10 * attach, || {
                poll(w.as_mut());
            });
            let mut fb = attach!(node::<u8>("b"), l);
            vclock::pass_ms(10 * change, || {
                poll(w.as_mut());
            });
            let mut f = Box::pin(a.write(&51));
            while poll(f.as_mut()).is_none() {
                poll(w.as_mut());
            }
            vclock::pass(300, || {
                poll(w.as_mut());
            });
            poll(fb.as_mut()).expect("attached").unwrap();
            assert!(SEEN.lock().unwrap().contains(&data("a", 51)), "not written ({attach}, {change})");
        }
    }
}
''',extra={"vclock.rs":VCLOCK["vclock.rs"].replace('''/// Let time pass, calling `poll` at every timer.
pub fn pass(seconds: u64, mut poll: impl FnMut()) {
    let to = NOW.load(SeqCst) + seconds * embassy_time_driver::TICK_HZ;''','''pub fn pass(seconds: u64, poll: impl FnMut()) {
    pass_ms(seconds * 1000, poll)
}
/// Let time pass, calling `poll` at every timer.
pub fn pass_ms(ms: u64, mut poll: impl FnMut()) {
    let to = NOW.load(SeqCst) + ms * (embassy_time_driver::TICK_HZ / 1000);''')})

seed("set-waits-for-lock-only","C11","two threads: a value that takes a while to clone, set while the other thread starts a write pass",
 "setting a value waits for the list's lock but does not hold on to it, so a write pass that starts meanwhile marks the new value as written although the old one is in the record",
 [(SN,"        let _inner = self.list().inner.lock().await;\n        let key","        drop(self.list().inner.lock().await);\n        let key")],
'''
mod c;
use c::*;
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::mpsc::{Receiver, Sender, channel};
use std::sync::Mutex;
use std::time::Duration;

static SLOW: AtomicBool = AtomicBool::new(false);
/// from the thread setting the value, and back
static GO: Mutex<Option<Sender<()>>> = Mutex::new(None);
static IN_PUSH: Mutex<Option<Receiver<()>>> = Mutex::new(None);

#[derive(minicbor::Encode, minicbor::Decode, minicbor::CborLen, Default, Debug, PartialEq)]
#[cbor(transparent)]
struct W(#[n(0)] u8);
impl Clone for W {
    fn clone(&self) -> W {
        if SLOW.swap(false, SeqCst) {
            GO.lock().unwrap().take().unwrap().send(()).unwrap();
            // long enough for the other thread to be in the middle of storing
            let _ = IN_PUSH.lock().unwrap().take().unwrap().recv_timeout(Duration::from_millis(500));
        }
        W(self.0)
    }
}
struct Ptr(*mut Store);
unsafe impl Send for Ptr {}
impl Ptr {
    fn get(&self) -> *mut Store {
        self.0
    }
}
fn block<F: Future>(mut f: Pin<Box<F>>) -> F::Output {
    for _ in 0..20_000 {
        if let Some(r) = poll(f.as_mut()) {
            return r;
        }
        std::thread::sleep(Duration::from_micros(500));
    }
    panic!("stuck");
}
fn main() {
    let mut s = Store::new(record(4, &[data("a", 1)]));
    let l = list::<3>();
    let n: &'static StorageListNode<W> = Box::leak(Box::new(StorageListNode::new("a")));
    let fa = attach!(n, l);
    assert!(ok(read(l, &mut s)));
    let mut a = done(fa);
    assert!(ok(gc(l, &mut s)));
    run(a.write(&W(2))).unwrap();

    let (go, started) = channel();
    let (in_push, pushed) = channel();
    let (resume, resumed) = channel::<()>();
    *GO.lock().unwrap() = Some(go);
    *IN_PUSH.lock().unwrap() = Some(pushed);
    std::thread::scope(|t| {
        let p = Ptr(&mut s);
        t.spawn(move || {
            let s = unsafe { &mut *p.get() };
            started.recv().unwrap();
            s.script(move |o, n, _| {
                if o == Op::Push && n == 2 {
                    let _ = in_push.send(());
                    let _ = resumed.recv_timeout(Duration::from_secs(5));
                }
                Act::Ok
            });
            let mut buf = [0; 64];
            block(Box::pin(l.process_writes(s, &mut buf))).unwrap();
            s.ok();
        });
        SLOW.store(true, SeqCst);
        block(Box::pin(a.write(&W(3)))).unwrap();
        let _ = resume.send(());
    });
    for _ in 0..3 {
        let _ = gc(l, &mut s);
        assert!(ok(write(l, &mut s)));
    }
    let last = s.items.iter().rposition(|r| matches!(r, Rec::Data(_))).unwrap();
    assert_eq!(s.items[last], data("a", 3), "the value set last is not stored");
}
''')

seed("verify-skips-junk","C06","a storage that stores something undecodable next to an element while reporting success",
 "the verification of a write skips elements that do not decode, so a record that no later read accepts is reported as written",
 [(SL,"                debug!(\"Surprising invalid element\");\n                return Err(LoadStoreError::WriteVerificationFailed);","                debug!(\"Surprising invalid element\");\n                continue;")],
'''
mod c;
use c::*;
fn main() {
    for at in 0..4 {
        let mut s = Store::new(record(4, &[data("b", 8), data("a", 7)]));
        let l = list::<2>();
        let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
        assert!(ok(read(l, &mut s)));
        let (mut a, _b) = (done(fa), done(fb));
        assert!(ok(gc(l, &mut s)));
        run(a.write(&20)).unwrap();
        s.script(move |o, n, r| {
            if o == Op::Push && n == at { Act::Two(r.unwrap().clone(), Rec::Junk) } else { Act::Ok }
        });
        let written = ok(write(l, &mut s));
        s.ok();
        let got = boot(&mut s);
        assert!(!written || got == (20, 8), "{at}: reported as written, but {got:?} is loaded");
        assert!(got == (7, 8) || got == (20, 8));
    }
}
''')

seed("collect-when-full","C07","fewer records stored than the list keeps, and two writes in a row",
 "after a write a garbage collection is only asked for once as many records are stored as the list keeps",
 [(SL,"        self.needs_gc = true;\n    }\n}\n","        self.needs_gc = self.last_records[0].is_some();\n    }\n}\n")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let fa = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut a = done(fa);
    assert!(ok(write(l, &mut s)));
    for i in 1..6 {
        run(a.write(&i)).unwrap();
        let n = s.items.len();
        assert!(
            matches!(write(l, &mut s), Some(Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)))),
            "no garbage collection demanded before write {i}"
        );
        assert_eq!(s.items.len(), n);
        assert!(ok(gc(l, &mut s)));
        assert!(ok(write(l, &mut s)));
    }
}
''')

seed("mark-before-extract","C15","a read pass that fails or is cancelled while it extracts the newest record",
 "waiting nodes are marked as not found before the record is extracted, so a read that is cut short leaves them with their defaults",
 [(SL,"        // If we have something: populate all present items\n        if let Some(latest) = res {","        // Unless found below, nodes have no stored value.\n        inner.mark_initial_nonresident();\n\n        // If we have something: populate all present items\n        if let Some(latest) = res {"),
  (SL,"        // Mark any nodes that are STILL in the INITIAL state as nonresident.\n        inner.mark_initial_nonresident();\n","        // Nodes that were not found keep the nonresident state.\n"),
  (SL,"                    State::NonResident => None,\n                    State::ValidNoWriteNeeded => None,\n                    State::NeedsWrite => None,","                    State::NonResident => Some(node_header.vtable),\n                    State::ValidNoWriteNeeded => None,\n                    State::NeedsWrite => None,")],
'''
mod c;
use c::*;
fn main() {
    for act in [Act::Err, Act::Hang] {
        for at in 0..12 {
            let mut s = Store::new(record(4, &[data("b", 8), data("a", 7)]));
            let l = list::<2>();
            let (mut fa, mut fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
            let what = act.clone();
            s.script(move |o, n, _| if o == Op::Next && n == at { what.clone() } else { Act::Ok });
            let _ = read(l, &mut s);
            // the nodes' owners run
            let (ha, hb) = (poll(fa.as_mut()), poll(fb.as_mut()));
            s.ok();
            assert!(ok(read(l, &mut s)));
            let a = ha.map(|h| h.unwrap()).unwrap_or_else(|| done(fa));
            let b = hb.map(|h| h.unwrap()).unwrap_or_else(|| done(fb));
            assert_eq!((a.load(), b.load()), (7, 8), "read cut short at {at}");
        }
    }
}
''')

seed("detach-marks-first","C09","detaching a node is cancelled while it waits for a read or write pass to finish",
 "a detach marks the node before it waits for the list, so a cancelled detach leaves a node that can neither be attached nor detached",
 [(SN,"        // First, take the mutex for this list.\n        let mut inner = list.inner.lock().await;\n\n",""),
  (SN,"        // While still holding the lock, detach this node from this list.\n","        // Take the mutex for this list.\n        let mut inner = list.inner.lock().await;\n\n        // While still holding the lock, detach this node from this list.\n")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("b", 8), data("a", 7)]));
    let l = list::<2>();
    let (na, nb) = (node::<u8>("a"), node::<u8>("b"));
    let fa = attach!(na, l);
    assert!(ok(read(l, &mut s)));
    drop(done(fa));
    let fb = attach!(nb, l);
    s.script(|o, n, _| if o == Op::Next && n == 1 { Act::Yield } else { Act::Ok });
    {
        let mut buf = [0; 64];
        let mut r = Box::pin(l.process_reads(&mut s, &mut buf));
        assert!(poll(r.as_mut()).is_none());
        // no time to wait
        assert!(once(na.detach(l)).is_none());
        run(r).unwrap();
    }
    s.ok();
    drop(done(fb));
    let a = run(na.attach(l)).expect("attaching again");
    assert_eq!(a.load(), 7);
    drop(a);
    run(na.detach(l)).expect("detaching");
}
''')

seed("reset-needs-a-change","C07","the storage is wiped and the cached state reset while no value has changed",
 "whether anything is stored is not considered when deciding to write, so the values in memory are not written again after a wipe",
 [(SL,"            needs_writing |= self.seq_state.highest_seen().is_none();","            needs_writing |= self.seq_state.highest_seen().is_none() && self.seq_state.needs_gc;")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("b", 8), data("a", 7)]));
    let l = list::<2>();
    let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
    assert!(ok(read(l, &mut s)));
    let (_a, _b) = (done(fa), done(fb));
    assert!(ok(gc(l, &mut s)));
    assert!(ok(write(l, &mut s)));
    s.items.clear();
    run(l.reset_cache());
    assert!(ok(read(l, &mut s)));
    assert!(ok(gc(l, &mut s)));
    assert!(ok(write(l, &mut s)));
    assert_eq!(boot(&mut s), (7, 8), "not written again");
}
''')

seed("large-values-cut","C13","a value of more than 255 bytes",
 "only the first 255 bytes of what is stored are decoded, so a longer value falls back to the default",
 [(SN,"    let res = minicbor::decode::<T>(buf);","    let res = minicbor::decode::<T>(&buf[..buf.len().min(u8::MAX as usize)]);")],
'''
mod c;
mod nor;
use c::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::cache::NoCache;
use nor::Nor;
fn main() {
    for n in [10usize, 250, 251, 252, 300, 700] {
        let mut f = Flash::new(Nor::<4, 4>::new(4), 0..4096, NoCache::new());
        let text = "x".repeat(n);
        for round in 0..2 {
            let l = list::<2>();
            let mut fa = Box::pin(node::<String>("text").attach(l));
            assert!(poll(fa.as_mut()).is_none());
            let mut buf = [0; 800];
            run(l.process_reads(&mut f, &mut buf)).unwrap();
            let mut a = done(fa);
            if round == 0 {
                run(a.write(&text)).unwrap();
                run(l.process_garbage(&mut f, &mut buf)).unwrap();
                run(l.process_writes(&mut f, &mut buf)).unwrap();
            } else {
                assert_eq!(a.load(), text);
            }
        }
    }
}
''',extra={"nor.rs":NOR["nor.rs"].replace("256","1024")})
