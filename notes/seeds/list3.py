import os,importlib.util
_sp=importlib.util.spec_from_file_location("l1",os.path.join(os.path.dirname(os.path.abspath(__file__)),"list1.py")); _m=importlib.util.module_from_spec(_sp); _sp.loader.exec_module(_m)
SL,SN,FL,LI,WT,NOR=_m.SL,_m.SN,_m.FL,_m.LI,_m.WT,_m.NOR
S=[]
def seed(id,prop,needs,breaks,edits,main,extra=None):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,main=main,extra=extra or {}))

seed("default-without-lock","C10","an attach that completes with its default while a write pass is suspended in a storage operation",
 "the default is stored in the node without holding the list's lock, so a write pass under way marks it as written although it is not in the record",
 [(SN,"                let _inner = list.inner.lock().await;\n                let body","                let body")],
'''
mod c;
use c::*;
fn main() {
    for at in 0..3 {
        let mut s = Store::new(record(4, &[data("a", 1)]));
        let l = list::<3>();
        let fa = attach!(node::<u8>("a"), l);
        let mut fb = Box::pin(node::<u8>("b").attach_with_default(l, || 42));
        assert!(poll(fb.as_mut()).is_none());
        assert!(ok(read(l, &mut s)));
        let mut a = done(fa);
        assert!(ok(gc(l, &mut s)));
        run(a.write(&2)).unwrap();
        s.script(move |o, n, _| if o == Op::Push && n == at { Act::Yield } else { Act::Ok });
        let mut hb = None;
        {
            let mut buf = [0; 64];
            let mut w = Box::pin(l.process_writes(&mut s, &mut buf));
            assert!(poll(w.as_mut()).is_none());
            if let Some(h) = poll(fb.as_mut()) {
                hb = Some(h.unwrap());
            }
            run(w).unwrap();
        }
        s.ok();
        let hb = hb.unwrap_or_else(|| run(fb).unwrap());
        assert_eq!(hb.load(), 42);
        for _ in 0..4 {
            let _ = gc(l, &mut s);
            assert!(ok(write(l, &mut s)));
        }
        assert_eq!(boot(&mut s), (2, 42));
    }
}
''')

seed("collect-three","C04","a list that keeps more than three records, with more than three valid ones stored",
 "a collection keeps only the three newest records",
 [(SL,"                .last_records\n                .iter()\n                .filter_map","                .last_records\n                .iter()\n                // newest first\n                .rev()\n                .take(3)\n                .filter_map")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    for i in 1..7 {
        s.items.extend(record(i, &[data("a", i as u8)]));
    }
    let keep = s.items[6..].to_vec();
    let l = list::<4>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let _h = done(f);
    assert!(ok(gc(l, &mut s)));
    assert_eq!(s.items, keep);
}
''')

seed("read-only-when-waiting","C08","a collection that fails after the nodes were loaded",
 "a read pass with no node waiting does not scan the storage, so the read that a write pass asks for never helps",
 [(SL,"""        let res = inner
            .get_or_populate_latest(storage, buf, &mut total_bytes_read)
            .await?;

        // If we have something: populate""","""        let res = if inner
            .list
            .iter()
            .any(|hdr| hdr.state.load(Ordering::Acquire) == State::Initial)
        {
            inner
                .get_or_populate_latest(storage, buf, &mut total_bytes_read)
                .await?
        } else {
            // Nobody waits for anything
            None
        };

        // If we have something: populate""")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![Rec::Junk]);
    s.items.extend(record(4, &[data("a", 1)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    run(h.write(&2)).unwrap();
    s.script(|o, n, _| if o == Op::Inv && n == 0 { Act::Err } else { Act::Ok });
    assert!(!ok(gc(l, &mut s)));
    s.ok();
    for _ in 0..5 {
        match write(l, &mut s).unwrap() {
            Ok(()) => break,
            Err(LoadStoreError::AppError(Error::NeedsFirstRead)) => assert!(ok(read(l, &mut s))),
            Err(LoadStoreError::AppError(Error::NeedsGarbageCollect)) => assert!(ok(gc(l, &mut s))),
            Err(_) => panic!(),
        }
    }
    assert_eq!(boot(&mut s).0, 2);
}
''')

seed("end-number-zero","C12","an end element with sequence number zero in the flash",
 "an end element with the invalid number zero is yielded as an end element with number one",
 [(FL,"                    seq_no: NonZeroU32::new(u32::from_le_bytes(seq_bytes))?,","                    seq_no: NonZeroU32::new(u32::from_le_bytes(seq_bytes)).unwrap_or(NonZeroU32::MIN),")],
'''
mod c;
mod nor;
use c::*;
use cfg_noodle::flash::Flash;
use cfg_noodle::sequential_storage::cache::NoCache;
use cfg_noodle::sequential_storage::queue::{QueueConfig, QueueStorage};
use cfg_noodle::{Elem, NdlDataStorage, NdlElemIter, NdlElemIterNode};
use nor::Nor;
fn main() {
    // an end element as it is stored, but for the number
    let mut q = QueueStorage::new(Nor::<4, 1>::new(2), QueueConfig::new(0..512), NoCache::new());
    let mut buf = [0u8; 64];
    run(q.push(&[2, 0, 0, 0, 0, 7, 0, 0, 0], false)).unwrap();
    run(q.push(&[2, 3, 0, 0, 0, 7, 0, 0, 0], false)).unwrap();
    let (nor, _) = q.destroy();
    let mut f = Flash::new(nor, 0..512, NoCache::new());
    let mut it = run(f.iter_elems()).unwrap();
    let e = run(it.next(&mut buf)).unwrap().unwrap();
    assert!(e.data().is_none());
    let e = run(it.next(&mut buf)).unwrap().unwrap();
    assert!(matches!(e.data(), Some(Elem::End { calc_crc: 7, .. })));
}
''',extra=NOR)

seed("verify-in-shorter-buffer","C14","a value whose element is exactly as long as the maximum element size",
 "the verification reads into a buffer one byte too short, so an element of maximum size is written but never confirmed",
 [(SL,'        let item = match queue_iter.next(buf).await {\n            Ok(Some(i)) => {\n                debug!("visiting {:?} in verify"','        // The header byte is not part of what we compare\n        let item = match queue_iter.next(&mut buf[1..]).await {\n            Ok(Some(i)) => {\n                debug!("visiting {:?} in verify"')],
'''
mod c;
use c::*;
fn main() {
    // 1 byte header, 2 bytes key, 61 bytes value
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let f = attach!(node::<String>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    let v = "x".repeat(59);
    run(h.write(&v)).unwrap();
    assert!(ok(write(l, &mut s)));
    let l = list::<3>();
    let f = attach!(node::<String>("a"), l);
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), v);
}
''')

seed("same-beginning","C13","two keys of the same length that agree in their first sixteen bytes",
 "keys are compared by length and their first sixteen bytes only",
 [(SL,"            .find(|item| unsafe { item.as_ref() }.key == key)",'''            .find(|item| {
                let other = unsafe { item.as_ref() }.key.as_bytes();
                let n = core::cmp::min(key.len(), 16);
                other.len() == key.len() && other[..n] == key.as_bytes()[..n]
            })''')],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("settings/display/a", 1), data("settings/display/b", 2)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("settings/display/b"), l);
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), 2);
}
''')

seed("numbers-stop-at-the-end","C05","a stored record with the highest possible sequence number",
 "after the highest possible sequence number the same number is used again",
 [(SL,"        self.next_seq = next.checked_add(1);","        self.next_seq = Some(next.saturating_add(1));")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(u32::MAX, &[data("a", 1)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    let _ = read(l, &mut s);
    if let Some(Ok(mut h)) = once(f) {
        run(h.write(&2)).unwrap();
        let _ = gc(l, &mut s);
        let _ = write(l, &mut s);
    }
    let n = s.items.iter().filter(|r| matches!(r, Rec::End(u32::MAX, _))).count();
    assert_eq!(n, 1, "records with the same number");
}
''')

seed("number-in-sixteen-bits","C05","a stored record with a sequence number of 65535 or more",
 "sequence numbers wrap after sixteen bits, so a new record is older than the ones stored",
 [(SL,"        self.next_seq = next.checked_add(1);","        // stay within 16 bits\n        self.next_seq = NonZeroU32::new(u32::from(next.get() as u16) + 1);")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(0x1_0002, &[data("a", 1)]));
    let l = list::<3>();
    let f = attach!(node::<u8>("a"), l);
    assert!(ok(read(l, &mut s)));
    let mut h = done(f);
    assert!(ok(gc(l, &mut s)));
    run(h.write(&2)).unwrap();
    let _ = write(l, &mut s);
    assert_eq!(boot(&mut s).0, 2);
}
''')

seed("checksum-carried-over","C03","an incomplete record with data in front of the newest valid one",
 "the checksum is not restarted at a start element, so a valid record after an incomplete one is taken for corrupted",
 [(SL,"                    current = Some((seq_no, idx));\n                    crc = Crc32::new();","                    if current.replace((seq_no, idx)).is_none() {\n                        crc = Crc32::new();\n                    }")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 1), data("b", 2)]));
    s.items.push(Rec::Start(5));
    s.items.push(data("a", 9));
    s.items.extend(record(5, &[data("a", 3), data("b", 4)]));
    assert_eq!(boot(&mut s), (3, 4));
}
''')


seed("leave-unloaded-linked","C09","a detach of a node whose attach was cancelled before the node was loaded",
 "detaching a node that was never loaded leaves it in the list, so its key stays in use",
 [(SN,"            let res = inner.list.remove(hdr);\n            debug_assert!(res.is_some());","            // Only nodes that take part in reading and writing\n            if self.inner.header.state.load(Ordering::Acquire) != State::Initial {\n                let res = inner.list.remove(hdr);\n                debug_assert!(res.is_some());\n            }")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(record(4, &[data("a", 1)]));
    let l = list::<3>();
    let n = node::<u8>("a");
    drop(attach!(n, l));
    run(n.detach(l)).unwrap();
    let mut f = Box::pin(node::<u8>("a").attach(l));
    if let Some(r) = poll(f.as_mut()) {
        assert!(r.is_ok(), "the key is free again");
    }
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load(), 1);
}
''')

seed("shorter-than-stored","C19","a stored value of a newer type, read as an older one with fewer fields",
 "a stored value that is longer than what was decoded from it is rejected",
 [(SN,"    let len = len_with(&t, &mut ());\n\n    // SAFETY: Rule 1","    // there must be no more than we know of\n    let Some(len) = Some(len_with(&t, &mut ())).filter(|len| *len >= buf.len()) else {\n        return Err(());\n    };\n\n    // SAFETY: Rule 1")],
'''
mod c;
use c::*;
use cfg_noodle::minicbor;
#[derive(Default, Clone, minicbor::Encode, minicbor::Decode, minicbor::CborLen)]
struct Old(#[n(0)] u8);
#[derive(Default, Clone, minicbor::Encode, minicbor::Decode, minicbor::CborLen)]
struct New(#[n(0)] u8, #[cbor(n(1), default)] u8);
fn main() {
    let mut s = Store::new(vec![]);
    let l = list::<3>();
    let f = attach!(node::<New>("a"), l);
    assert!(ok(read(l, &mut s)));
    run(done(f).write(&New(7, 8))).unwrap();
    assert!(ok(write(l, &mut s)));
    let l = list::<3>();
    let f = attach!(node::<Old>("a"), l);
    assert!(ok(read(l, &mut s)));
    assert_eq!(done(f).load().0, 7);
}
''')

seed("stop-at-ownerless","C01","a node attached last whose attach was cancelled after the read, before it got its default",
 "writing stops at the first node that has no value, and leaves the nodes attached before it out of the record",
 [(SL,"                State::NonResident => continue,\n","                // nothing more to write\n                State::NonResident => break,\n")],
'''
mod c;
use c::*;
fn main() {
    let mut s = Store::new(vec![]);
    {
        let l = list::<3>();
        let (fa, fb) = (attach!(node::<u8>("a"), l), attach!(node::<u8>("b"), l));
        let fc = attach!(node::<u8>("c"), l);
        assert!(ok(read(l, &mut s)));
        let (mut a, mut b) = (done(fa), done(fb));
        drop(fc);
        run(a.write(&1)).unwrap();
        run(b.write(&2)).unwrap();
        let _ = gc(l, &mut s);
        assert!(ok(write(l, &mut s)));
    }
    assert_eq!(boot(&mut s), (1, 2));
}
''')
